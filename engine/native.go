package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// NativeBin is the natively compiled repository plus harnesses.
type NativeBin struct {
	path  string
	err   error
	done  chan struct{}
	mu    sync.Mutex
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	tier  string
	dumps map[string]dumped
}

func buildNative(repo, verif, work string, ov map[string]string, tier string) *NativeBin {
	n := &NativeBin{path: filepath.Join(work, "vz.test"), done: make(chan struct{}), tier: tier}
	go func() {
		defer close(n.done)
		f := filepath.Join(work, "overlay.json")
		if err := writeOverlay(ov, f); err != nil {
			n.err = err
			return
		}
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", f, "-o", n.path, ".")
		cmd.Dir = repo
		cmd.Env = goEnv
		if out, err := cmd.CombinedOutput(); err != nil {
			n.err = fmt.Errorf("native build: %v: %s", err, out)
		}
	}()
	return n
}

func (n *NativeBin) wait() error { <-n.done; return n.err }

func (n *NativeBin) env() []string {
	return append(os.Environ(), "VZ_THOROUGH="+map[bool]string{true: "1", false: "0"}[n.tier == "thorough"])
}

type dumped struct {
	v   json.RawMessage
	err string
}

// dump asks the native helper to run a text parser and serialise its result.
func (n *NativeBin) dump(kind, text string) (v json.RawMessage, perr string, err error) {
	if err := n.wait(); err != nil {
		return nil, "", err
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	key := kind + " " + text
	if d, ok := n.dumps[key]; ok {
		return d.v, d.err, nil
	}
	defer func() {
		if err == nil {
			if n.dumps == nil {
				n.dumps = map[string]dumped{}
			}
			n.dumps[key] = dumped{v, perr}
		}
	}()
	if n.cmd == nil {
		n.cmd = exec.Command(n.path, "-test.run", "^TestVzServe$", "-test.timeout", "0")
		n.cmd.Env = append(n.env(), "VZ_SERVE=1")
		n.in, _ = n.cmd.StdinPipe()
		o, _ := n.cmd.StdoutPipe()
		n.out = bufio.NewReaderSize(o, 1<<20)
		if err := n.cmd.Start(); err != nil {
			return nil, "", err
		}
	}
	b, _ := json.Marshal(map[string]string{"kind": kind, "text": text})
	if _, err := n.in.Write(append(b, '\n')); err != nil {
		n.cmd = nil
		return nil, "", err
	}
	for {
		l, err := n.out.ReadBytes('\n')
		if err != nil {
			n.cmd = nil
			return nil, "", err
		}
		if !strings.HasPrefix(string(l), "VZ:") {
			continue
		}
		var r struct {
			Err string          `json:"err"`
			V   json.RawMessage `json:"v"`
		}
		if err := json.Unmarshal(l[3:], &r); err != nil {
			return nil, "", err
		}
		return r.V, r.Err, nil
	}
}

func (n *NativeBin) close() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
	}
}

type Case struct {
	H  string   `json:"h"`
	In []uint64 `json:"in"`
}

type CaseResult struct {
	Obs    []string `json:"obs"`
	Fails  []string `json:"fails"`
	Panic  string   `json:"panic"`
	Assume bool     `json:"assume"`
	Hang   bool     `json:"hang"`
	Done   bool     `json:"done"`
}

// run executes cases natively.
func (n *NativeBin) run(work string, cases []Case) ([]CaseResult, error) {
	if err := n.wait(); err != nil {
		return nil, err
	}
	res := make([]CaseResult, len(cases))
	i := 0
	for i < len(cases) {
		inF, outF := filepath.Join(work, "cases.json"), filepath.Join(work, "results.json")
		b, _ := json.Marshal(cases[i:])
		os.WriteFile(inF, b, 0o644)
		os.Remove(outF)
		cmd := exec.Command(n.path, "-test.run", "^TestVzReplay$", "-test.timeout", "0")
		cmd.Dir = work
		cmd.Env = append(n.env(), "VZ_IN="+inF, "VZ_OUT="+outF)
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(240 * time.Second):
			cmd.Process.Kill()
			<-done
		}
		f, err := os.ReadFile(outF)
		if err != nil {
			return res, err
		}
		got := 0
		for _, l := range strings.Split(string(f), "\n") {
			if l == "" {
				continue
			}
			if json.Unmarshal([]byte(l), &res[i+got]) == nil {
				got++
			}
		}
		if got == 0 {
			// the process died on the first case (e.g. stack overflow)
			res[i] = CaseResult{Panic: "process died", Done: true}
			got = 1
		} else if i+got < len(cases) && !res[i+got-1].Hang {
			res[i+got] = CaseResult{Panic: "process died", Done: true}
			got++
		}
		i += got
	}
	return res, nil
}

// nativeParse is the intrinsic behind vzFilterParse / vzSimpleParse.
func nativeParse(kind string) intrinsic {
	return func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		s := args[0].(Str)
		if s.sym != nil {
			panic(unsupported{"parse of symbolic text"})
		}
		raw, e, err := in.sh.nat.dump(kind, s.s)
		if err != nil {
			panic(unsupported{"native parse: " + err.Error()})
		}
		rt := fn.Signature.Results().At(0).Type()
		if e != "" {
			return Tuple{in.zero(rt), Str{s: e}}
		}
		return Tuple{in.fromDump(rt, raw), Str{}}
	}
}

func (in *Interp) typeByName(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(in.typeByName(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(in.typeByName(s[2:]))
	case s == "interface {}":
		return tyIface
	case strings.HasPrefix(s, "gojsonsm."):
		if o := in.sh.pkg.Pkg.Scope().Lookup(s[9:]); o != nil {
			return o.Type()
		}
	case s == "regexp.Regexp":
		return in.prog.ImportedPackage("regexp").Type("Regexp").Type()
	case s == "time.Time":
		return in.prog.ImportedPackage("time").Type("Time").Type()
	default:
		for _, b := range types.Typ {
			if b.Name() == s {
				return b
			}
		}
	}
	panic(unsupported{"type " + s})
}

// Literals of parsed text may stand for symbolic values: vzTextInt and
// vzTextStr yield a placeholder that is replaced where it comes out of the
// parser.  (Compiled natively they yield the value itself.)
const placeBase = 7000000

func placeText(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
	k := len(in.places)
	if k >= 100 {
		panic(unsupported{"too many placeholders"})
	}
	in.places = append(in.places, args[0])
	switch fn.Name() {
	case "vzTextStr":
		return Str{s: fmt.Sprintf("zQ%02d", k)}
	case "vzTextHalf":
		return Str{s: fmt.Sprintf("%d.5", placeBase+k)}
	}
	return Str{s: fmt.Sprint(placeBase + k)}
}

func (in *Interp) placeStr(s string) Value {
	var r []*Term
	sym := false
	for i := 0; i < len(s); {
		if i+4 <= len(s) && s[i:i+2] == "zQ" && s[i+2] >= '0' && s[i+2] <= '9' && s[i+3] >= '0' && s[i+3] <= '9' {
			if k := int(s[i+2]-'0')*10 + int(s[i+3]-'0'); k < len(in.places) {
				if p, ok := in.places[k].(Str); ok {
					r = append(r, in.strBytes(p)...)
					sym = true
					i += 4
					continue
				}
			}
		}
		r = append(r, in.tt.C(8, uint64(s[i])))
		i++
	}
	if !sym {
		return Str{s: s}
	}
	return mkStr(r)
}

func (in *Interp) placeNum(i tinfo, v uint64) Value {
	neg, half := false, false
	var k int64
	if i.k == kFloat {
		f := f64(v)
		if i.w == 32 {
			return nil
		}
		if f < 0 {
			f, neg = -f, true
		}
		k = int64(f)
		if d := f - float64(k); d == 0.5 {
			half = true
		} else if d != 0 {
			return nil
		}
	} else {
		k = int64(v)
		if k < 0 {
			k, neg = -k, true
		}
	}
	k -= placeBase
	if k < 0 || k >= int64(len(in.places)) {
		return nil
	}
	t, ok := in.places[k].(*Term)
	if !ok {
		return nil
	}
	if i.k == kFloat {
		if neg {
			return nil
		}
		x := in.convert(types.Typ[types.Int], types.Typ[types.Float64], t)
		if half {
			x = in.tt.op2(OFAdd, 64, term(x), in.tt.C(64, math.Float64bits(0.5)))
		}
		return x
	}
	if t.w > i.w {
		return nil
	}
	if neg {
		return in.tt.Neg(t)
	}
	return t
}

// filterTree stands for NewFilterExpressionParser: the grammar engine
// (participle, driven by reflection) runs natively on the concrete text, the
// resulting tree is imported, and everything after it is executed symbolically.
func filterTree(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
	s := args[0].(Str)
	if s.sym != nil {
		panic(unsupported{"parse of symbolic text"})
	}
	raw, e, err := in.sh.nat.dump("tree", s.s)
	if err != nil {
		panic(unsupported{"native parse: " + err.Error()})
	}
	rs := fn.Signature.Results()
	r := Tuple{in.zero(rs.At(0).Type()), in.zero(rs.At(1).Type()), Iface{}}
	if e != "" {
		if strings.HasPrefix(e, "panic: ") {
			panic(in.plainErr(e))
		}
		r[2] = in.mkErr(Str{s: e})
	}
	if raw != nil {
		r[1] = in.fromDump(rs.At(1).Type(), raw)
	}
	return r
}

// fromDump rebuilds a value of static type t from its serialised form.
func (in *Interp) fromDump(t types.Type, raw json.RawMessage) Value {
	un := func(x interface{}) {
		if err := json.Unmarshal(raw, x); err != nil {
			panic(unsupported{"dump: " + err.Error()})
		}
	}
	if types.TypeString(t, nil) == "time.Time" {
		var s string
		un(&s)
		tm, _ := time.Parse(time.RFC3339Nano, s)
		return in.timeVal(tm)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		var s string
		un(&s)
		i := in.tinfo(t)
		switch i.k {
		case kString:
			b, _ := base64.StdEncoding.DecodeString(s)
			return in.placeStr(string(b))
		case kBool:
			return in.tt.Bool(s == "1")
		default:
			v, _ := strconv.ParseUint(s, 10, 64)
			if r := in.placeNum(i, v); r != nil {
				return r
			}
			if i.k == kFloat && i.w == 32 {
				return in.tt.C(32, uint64(math.Float32bits(float32(f64(v)))))
			}
			return in.tt.C(i.w, v)
		}
	case *types.Struct:
		var f []json.RawMessage
		un(&f)
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = in.fromDump(u.Field(i).Type(), f[i])
		}
		return s
	case *types.Array:
		var f []json.RawMessage
		un(&f)
		s := make(Array, u.Len())
		for i := range s {
			s[i] = in.fromDump(u.Elem(), f[i])
		}
		return s
	case *types.Slice:
		if string(raw) == "null" {
			return Slice(nil)
		}
		var f []json.RawMessage
		un(&f)
		s := make(Slice, len(f))
		for i := range s {
			s[i] = in.fromDump(u.Elem(), f[i])
		}
		return s
	case *types.Pointer:
		if string(raw) == "null" {
			return (*Value)(nil)
		}
		if types.TypeString(u.Elem(), nil) == "regexp.Regexp" {
			var s string
			un(&s)
			p := new(Value)
			*p = Native{regexp.MustCompile(s)}
			return p
		}
		var f []json.RawMessage
		un(&f)
		p := new(Value)
		*p = in.fromDump(u.Elem(), f[0])
		return p
	case *types.Map:
		if string(raw) == "null" {
			return (*MapObj)(nil)
		}
		var f [][2]json.RawMessage
		un(&f)
		m := newMap(u.Key())
		for _, kv := range f {
			in.mapSet(m, in.fromDump(u.Key(), kv[0]), in.fromDump(u.Elem(), kv[1]))
		}
		return m
	case *types.Interface:
		if string(raw) == "null" {
			return Iface{}
		}
		var x struct {
			T string          `json:"t"`
			V json.RawMessage `json:"v"`
		}
		un(&x)
		dt := in.typeByName(x.T)
		return Iface{dt, in.fromDump(dt, x.V)}
	}
	panic(unsupported{"dump of " + t.String()})
}

// race replays one case under the race detector.
func (n *NativeBin) race(repo, verif, work string, ov map[string]string, c Case) (bool, string) {
	f := filepath.Join(work, "overlay.json")
	bin := filepath.Join(work, "vzrace.test")
	if _, err := os.Stat(bin); err != nil {
		cmd := exec.Command("go", "test", "-race", "-c", "-vet=off", "-overlay", f, "-o", bin, ".")
		cmd.Dir = repo
		cmd.Env = append(append([]string{}, goEnv...), "CGO_ENABLED=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			return false, "race build failed: " + string(out)
		}
	}
	inF, outF := filepath.Join(work, "rcases.json"), filepath.Join(work, "rresults.json")
	b, _ := json.Marshal([]Case{c})
	os.WriteFile(inF, b, 0o644)
	cmd := exec.Command(bin, "-test.run", "^TestVzReplay$", "-test.timeout", "60s")
	cmd.Dir = work
	cmd.Env = append(n.env(), "VZ_IN="+inF, "VZ_OUT="+outF, "VZ_RACE=1")
	out, _ := cmd.CombinedOutput()
	s := string(out)
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
		if len(s) > 3000 {
			s = s[:3000]
		}
		return true, s
	}
	return false, "no data race reported"
}
