package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: vz check -property Cxx [-tier quick|thorough] [-repo /repo] [-verif /verif] [-run regexp]")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	run := fs.String("run", "", "only harnesses matching this regexp (no evidence written)")
	nw := fs.Int("j", 0, "workers")
	total := fs.Int("budget", 0, "seconds for the exploration")
	dbg := fs.Bool("debug", false, "let internal panics through")
	prof := fs.String("prof", "", "cpu profile")
	fs.Parse(os.Args[2:])
	debugPanics = *dbg
	if *tier == "" {
		*tier = "quick"
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	os.Exit(check(*prop, *tier, *repo, *verif, *run, *nw, *total, seed))
}

type harness struct {
	name   string
	fn     *ssa.Function
	bound  string
	covers []string
}

var boundRE = regexp.MustCompile(`(?m)((?:^//.*\n)+)func (vzT?_\w+)\(`)

// harnessDocs reads the //vz: comments above each harness.
func harnessDocs(ov map[string]string) map[string]map[string][]string {
	r := map[string]map[string][]string{}
	for _, f := range ov {
		if !strings.HasSuffix(f, ".go") {
			continue
		}
		b, _ := os.ReadFile(f)
		for _, m := range boundRE.FindAllStringSubmatch(string(b), -1) {
			d := map[string][]string{}
			for _, l := range strings.Split(m[1], "\n") {
				if strings.HasPrefix(l, "//vz:") {
					k, v, _ := strings.Cut(l[5:], " ")
					d[k] = append(d[k], v)
				}
			}
			r[m[2]] = d
		}
	}
	return r
}

// knownFindings reads "<KF-id> property=<id> <text>" lines.
func knownFindings(file, prop string) map[string]string {
	r := map[string]string{}
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KF-") {
			continue
		}
		id, rest, _ := strings.Cut(l, " ")
		if strings.HasPrefix(rest, "property="+prop+" ") {
			r[id] = strings.TrimPrefix(rest, "property="+prop+" ")
		}
	}
	return r
}

type vioRec struct {
	v    Violation
	how  string
	res  CaseResult
	repr bool
}

func check(prop, tier, repo, verif, run string, nw, total, seed int) int {
	start := time.Now()
	work, err := os.MkdirTemp("", "vz-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	ov := overlayFiles(repo, verif, []string{strings.ToLower(prop) + ".go", strings.ToLower(prop) + "_*.go"})
	nat := buildNative(repo, verif, work, ov, tier)
	defer nat.close()
	defer nat.wait()
	prog, pkg, err := loadSSA(repo, ov)
	if err != nil {
		fmt.Println("ERROR loading:", err)
		return 2
	}
	sh := newShared(prog, pkg)
	sh.nat, sh.thorough, sh.rng = nat, tier == "thorough", uint64(seed)
	docs := harnessDocs(ov)
	var hs []harness
	var runRE *regexp.Regexp
	if run != "" {
		runRE = regexp.MustCompile(run)
	}
	for name, m := range pkg.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || !(strings.HasPrefix(name, "vz_"+prop+"_") || tier == "thorough" && strings.HasPrefix(name, "vzT_"+prop+"_")) {
			continue
		}
		if runRE != nil && !runRE.MatchString(name) {
			continue
		}
		d := docs[name]
		hs = append(hs, harness{name, fn, strings.Join(d["bound"], " "), d["cover"]})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	if len(hs) == 0 {
		fmt.Println("ERROR: no harness for", prop)
		return 2
	}
	loadWall := time.Since(start)
	if total == 0 {
		total = 200
		if tier == "thorough" {
			total = 700
		}
	}
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	qt := 4000
	if tier == "thorough" {
		qt = 20000
	}
	workers := make([]*Interp, nw)
	for i := range workers {
		workers[i] = newInterp(sh, qt)
	}
	defer func() {
		for _, w := range workers {
			w.sol.Close()
		}
	}()
	deadline := start.Add(time.Duration(total) * time.Second)
	var results []*HarnessResult
	for i, h := range hs {
		left := time.Until(deadline)
		// later harnesses may use what earlier ones left
		b := left / time.Duration(len(hs)-i) * 2
		if i == len(hs)-1 || b > left {
			b = left
		}
		if b < 2*time.Second {
			b = 2 * time.Second
		}
		ns := 60
		if tier == "thorough" {
			ns = 200
		}
		r := runHarness(sh, workers, h.fn, b, ns)
		results = append(results, r)
		fmt.Printf("%-34s paths %-7d forks %-7d asserts %d (%d by evaluation, %d unknown) queries %d (+%d cached, %d unknown, %.1fs) %.1fs%s\n", h.name, r.Stats.Paths, r.Stats.Forks, r.Stats.Asserts, r.Stats.AssertsTrivial, r.Stats.AssertsUnknown, r.Queries, r.Cached, r.Unknown, r.SolverTime.Seconds(), r.Wall.Seconds(), map[bool]string{true: " TIME BUDGET REACHED"}[r.TimedOut])
		fmt.Printf("    ends %v\n", r.Stats.Ended)
		if len(r.Stats.Unsupported) > 0 {
			fmt.Printf("    unsupported %v\n", r.Stats.Unsupported)
		}
		if r.Abort != "" {
			fmt.Printf("    ABORT %s\n", r.Abort)
		}
		for _, e := range r.SolverErrs {
			fmt.Printf("    solver: %s\n", e)
		}
		for _, c := range h.covers {
			for _, x := range strings.Fields(c) {
				if !r.Covers[x] {
					fmt.Printf("    NOT COVERED %s\n", x)
				}
			}
		}
		if len(r.Violations) > 0 {
			keys := []string{}
			for k, n := range r.VioTotal {
				keys = append(keys, fmt.Sprintf("%s x%d", k, n))
			}
			sort.Strings(keys)
			fmt.Printf("    candidates: %s\n", strings.Join(keys, "; "))
		}
	}

	// replay
	if err := nat.wait(); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	var recs []vioRec
	var cases []Case
	type ref struct {
		kind, i, j int
	}
	var refs []ref
	for i, r := range results {
		for _, v := range r.Violations {
			recs = append(recs, vioRec{v: v})
			cases = append(cases, Case{v.Harness, v.Vals})
			refs = append(refs, ref{0, len(recs) - 1, 0})
		}
		for j, s := range r.Samples {
			cases = append(cases, Case{s.Harness, s.Vals})
			refs = append(refs, ref{1, i, j})
		}
	}
	natStart := time.Now()
	res, err := nat.run(work, cases)
	if err != nil {
		fmt.Println("ERROR replay:", err)
		return 2
	}
	validated, mismatched := 0, 0
	var mism []string
	for k, rf := range refs {
		cr := res[k]
		if rf.kind == 0 {
			rec := &recs[rf.i]
			rec.res = cr
			rec.repr = len(cr.Fails) > 0 || cr.Panic != "" || cr.Hang
			continue
		}
		s := results[rf.i].Samples[rf.j]
		bad := ""
		switch {
		case cr.Hang:
			bad = "hang"
		case cr.Panic != "":
			bad = cr.Panic
		case len(cr.Fails) > 0:
			bad = "native assertion failed: " + cr.Fails[0]
		case cr.Assume:
			bad = "native assumption failed"
		case strings.Join(cr.Obs, "\n") != strings.Join(s.Obs, "\n"):
			bad = fmt.Sprintf("observations differ: native %q, encoding %q", cr.Obs, s.Obs)
		}
		if bad == "" {
			validated++
			continue
		}
		mismatched++
		if len(mism) < 10 {
			mism = append(mism, fmt.Sprintf("%s %v: %s", s.Harness, s.Vals, bad))
		}
		if cr.Hang || cr.Panic != "" || len(cr.Fails) > 0 {
			recs = append(recs, vioRec{v: Violation{Harness: s.Harness, Msg: bad, Inputs: s.Inputs, Vals: s.Vals}, res: cr, repr: true, how: "trace validation"})
		}
	}
	// data races need a race-detector build to show natively
	for i := range recs {
		rec := &recs[i]
		if !rec.repr && strings.HasPrefix(rec.v.Msg, "shared:") {
			ok, out := nat.race(repo, verif, work, ov, Case{rec.v.Harness, rec.v.Vals})
			rec.repr = ok
			rec.how = out
			if ok {
				break
			}
		}
	}
	natWall := time.Since(natStart)
	for _, m := range mism {
		fmt.Println("ENCODING MISMATCH", m)
	}

	known := knownFindings(filepath.Join(verif, "known_findings.txt"), prop)
	exit := 0
	nvio := 0
	seenKnown := map[string]int{}
	seenMsg := map[string]bool{}
	var vioOut, unrepro []string
	os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
	for _, rec := range recs {
		if !rec.repr {
			unrepro = append(unrepro, fmt.Sprintf("%s: %s (inputs %v) does not reproduce natively", rec.v.Harness, rec.v.Msg, rec.v.Vals))
			continue
		}
		if rec.v.Known != "" {
			if _, ok := known[rec.v.Known]; ok {
				seenKnown[rec.v.Known]++
				continue
			}
		}
		key := rec.v.Harness + "|" + rec.v.Msg
		if seenMsg[key] {
			continue
		}
		seenMsg[key] = true
		nvio++
		exit = 1
		rp := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d.json", prop, nvio))
		writeJSON(rp, map[string]interface{}{"property": prop, "harness": rec.v.Harness, "message": rec.v.Msg, "inputs": rec.v.Vals, "kinds": kinds(rec.v.Inputs), "text": asText(rec.v), "native": rec.res, "note": rec.how, "replay_cmd": fmt.Sprintf("bash %s/replay.sh %s", verif, rp)})
		fmt.Printf("  %s: %s; inputs %v %s\n", rec.v.Harness, rec.v.Msg, rec.v.Vals, asText(rec.v))
		if len(rec.res.Fails) > 0 || rec.res.Panic != "" {
			fmt.Printf("    native: %v %s\n", rec.res.Fails, rec.res.Panic)
		}
		vioOut = append(vioOut, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp))
		if nvio >= 12 {
			break
		}
	}
	for _, u := range unrepro {
		if nvio > 0 && strings.Contains(u, "shared:") {
			continue // one race was shown
		}
		fmt.Println("UNREPRODUCED", u)
	}
	var kids []string
	for k := range known {
		kids = append(kids, k)
	}
	sort.Strings(kids)
	for _, k := range kids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (reproduced on %d inputs this run)\n", prop, k, known[k], seenKnown[k])
	}
	if run == "" {
		writeEvidence(verif, prop, tier, seed, start, loadWall, natWall, hs, results, validated, mismatched, mism, unrepro, nvio, seenKnown)
	}
	for _, l := range vioOut {
		fmt.Println(l)
	}
	if exit == 0 {
		fmt.Printf("OK property=%s tier=%s: held on everything explored, %.1fs\n", prop, tier, time.Since(start).Seconds())
	}
	return exit
}

func kinds(in []Input) []string {
	r := []string{}
	for _, i := range in {
		r = append(r, i.Kind)
	}
	return r
}

// asText shows byte inputs as text.
func asText(v Violation) string {
	var b []byte
	for i, x := range v.Inputs {
		if x.Kind == "u8" && i < len(v.Vals) {
			b = append(b, byte(v.Vals[i]))
		}
	}
	return fmt.Sprintf("bytes %q", string(b))
}

func writeJSON(f string, v interface{}) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(f, append(b, '\n'), 0o644)
}

func writeEvidence(verif, prop, tier string, seed int, start time.Time, load, nat time.Duration, hs []harness, rs []*HarnessResult, validated, mismatched int, mism, unrepro []string, nvio int, kf map[string]int) {
	var paths, forks, asserts, trivial, aunk, funk, steps int64
	queries, cached, unknown := 0, 0, 0
	var st time.Duration
	funcs := map[string]int{}
	var per []interface{}
	var samples []interface{}
	reduced := []string{}
	exhaustive := true
	for i, r := range rs {
		paths += r.Stats.Paths
		forks += r.Stats.Forks
		asserts += r.Stats.Asserts
		trivial += r.Stats.AssertsTrivial
		aunk += r.Stats.AssertsUnknown
		funk += r.Stats.ForkUnknown
		steps += r.Stats.Steps
		queries += r.Queries
		cached += r.Cached
		unknown += r.Unknown
		st += r.SolverTime
		for f, n := range r.Funcs {
			funcs[f] += n
		}
		var miss []string
		for _, c := range hs[i].covers {
			for _, x := range strings.Fields(c) {
				if !r.Covers[x] {
					miss = append(miss, x)
				}
			}
		}
		if r.TimedOut {
			reduced = append(reduced, r.Name+": time budget reached, exploration incomplete")
		}
		if len(r.Stats.Unsupported) > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: paths left undecided by the encoding: %v", r.Name, r.Stats.Unsupported))
		}
		if r.Stats.AssertsUnknown+r.Stats.ForkUnknown > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: solver answered unknown on %d assertions and %d branch conditions", r.Name, r.Stats.AssertsUnknown, r.Stats.ForkUnknown))
		}
		if r.Abort != "" {
			reduced = append(reduced, r.Name+": "+r.Abort)
		}
		if len(miss) > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: witnesses not reached: %v", r.Name, miss))
		}
		per = append(per, map[string]interface{}{"harness": r.Name, "bound": hs[i].bound, "paths": r.Stats.Paths, "forks": r.Stats.Forks, "assertions_checked": r.Stats.Asserts, "assertions_constant_true_on_path": r.Stats.AssertsTrivial, "assertions_unknown": r.Stats.AssertsUnknown, "queries": r.Queries, "queries_cached": r.Cached, "queries_unknown": r.Unknown, "decided_by_byte_domains": r.Stats.DomDecided, "byte_domain_verdicts_confirmed_by_smt": r.Stats.CrossChecked, "decided_by_ranges": r.Stats.RangeDecided, "decided_by_witness": r.Stats.ModelDecided, "decided_by_smt": r.Stats.SolverDecided, "solver_s": r.SolverTime.Seconds(), "slowest_query_s": r.MaxQuery.Seconds(), "path_ends": r.Stats.Ended, "witnesses_reached": keys(r.Covers), "witnesses_missed": miss, "wall_s": r.Wall.Seconds(), "complete_within_bound": !r.TimedOut && len(r.Stats.Unsupported) == 0 && r.Abort == ""})
		for j, s := range r.Samples {
			if j < 3 && len(samples) < 24 {
				samples = append(samples, map[string]interface{}{"harness": s.Harness, "inputs": s.Vals, "observed": s.Obs})
			}
		}
	}
	if len(reduced) > 0 {
		exhaustive = false
	}
	var repoFuncs []string
	nlib := 0
	for f := range funcs {
		if strings.Contains(f, repoPkg) && !strings.Contains(f, ".vz") {
			repoFuncs = append(repoFuncs, strings.ReplaceAll(f, repoPkg+".", ""))
		} else {
			nlib++
		}
	}
	sort.Strings(repoFuncs)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(start).Seconds(), "violations": nvio,
		"coverage": map[string]interface{}{
			"states": paths, "transitions": forks, "traces_validated_against_impl": validated, "samples": samples,
			"states_meaning":      "symbolic paths of the real code explored to their end; each stands for all inputs satisfying its path condition",
			"transitions_meaning": "symbolic branch decisions made by the engine",
			"exhaustive":          exhaustive,
			"traces_mismatched":   mismatched, "mismatches": mism,
			"functions_encoded": repoFuncs, "library_functions_encoded": nlib,
			"instructions_executed": steps,
			"queries":               queries, "queries_cached": cached, "queries_unknown": unknown, "solver_s": st.Seconds(), "solver": "z3-new (SMT-LIB2, QF_BVFP), witness models re-evaluated against the constraints",
			"assertions_checked": asserts, "assertions_constant_true_on_path": trivial, "assertions_unknown": aunk, "branches_unknown": funk,
			"harnesses": per, "reduced": reduced, "unreproduced_counterexamples": unrepro, "known_findings_reproduced": kf,
			"load_s": load.Seconds(), "native_replay_s": nat.Seconds(),
		},
		"assumptions": []string{"go/ssa of the current source represents the compiled program (cross-checked by replaying sampled paths natively)", "engine models of the standard-library functions listed in DESIGN.md", "bounds stated per harness; nothing is claimed outside them"},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	writeJSON(filepath.Join(verif, "evidence", prop+".json"), ev)
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
