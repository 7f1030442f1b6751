package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var goEnv = append(os.Environ(),
	"GOFLAGS=-mod=readonly", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")

// overlayFiles maps paths under repo to files providing their content.
func overlayFiles(repo, verif string, extra []string) map[string]string {
	m := map[string]string{
		filepath.Join(repo, "go.mod"): filepath.Join(verif, "gomod/go.mod"),
		filepath.Join(repo, "go.sum"): filepath.Join(verif, "gomod/go.sum"),
	}
	if _, err := os.Stat(filepath.Join(repo, "go.mod")); err == nil {
		delete(m, filepath.Join(repo, "go.mod"))
		delete(m, filepath.Join(repo, "go.sum"))
	}
	fs, _ := filepath.Glob(filepath.Join(verif, "harness/vz_*.go"))
	for _, x := range extra {
		g, _ := filepath.Glob(filepath.Join(verif, "harness", x))
		fs = append(fs, g...)
	}
	for _, f := range fs {
		m[filepath.Join(repo, "zz_"+filepath.Base(f))] = f
	}
	return m
}

func writeOverlay(m map[string]string, file string) error {
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": m}, "", " ")
	return os.WriteFile(file, b, 0o644)
}

func loadSSA(repo string, ov map[string]string) (*ssa.Program, *ssa.Package, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Env:     goEnv,
		Overlay: map[string][]byte{},
	}
	for k, f := range ov {
		if strings.HasSuffix(k, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		cfg.Overlay[k] = b
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	if len(spkgs) != 1 || spkgs[0] == nil {
		return nil, nil, fmt.Errorf("expected one package")
	}
	return prog, spkgs[0], nil
}

func (sh *Shared) skipInit(path string) bool {
	return !sh.allowInit[path]
}

func newShared(prog *ssa.Program, pkg *ssa.Package) *Shared {
	sh := &Shared{prog: prog, pkg: pkg, vioCount: map[string]int{}, covers: map[string]bool{}}
	sh.allowInit = map[string]bool{pkg.Pkg.Path(): true}
	for _, p := range []string{"errors", "strings", "strconv", "unicode", "unicode/utf8", "unicode/utf16", "bytes", "math", "math/bits", "sort", "slices", "io", "fmt", "time", "internal/bytealg", "internal/strconv", "internal/stringslite", "encoding/binary", "math/big", "cmp", "maps", "container/list", "regexp/syntax", "internal/itoa", "html"} {
		sh.allowInit[p] = true
	}
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		if t := rt.Type("errorString"); t != nil {
			sh.runtimeErrType = t.Type()
		}
	}
	if ep := prog.ImportedPackage("errors"); ep != nil {
		if t := ep.Type("errorString"); t != nil {
			sh.errStrType = types.NewPointer(t.Type())
		}
	}
	sh.sizes = types.SizesFor("gc", "amd64")
	sh.initSync()
	return sh
}
