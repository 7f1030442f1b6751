package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (sh *Shared) initSync() { sh.cond = sync.NewCond(&sh.mu) }

func newInterp(sh *Shared, timeoutMs int) *Interp {
	in := &Interp{sh: sh, prog: sh.prog, tt: NewTermTable(), finfos: map[*ssa.Function]*finfo{}, tinfos: map[types.Type]tinfo{}, globals: map[*ssa.Global]*Value{}, sizes: sh.sizes, growCache: map[[4]int]int{}, implCache: map[[2]types.Type]bool{}, methCache: map[methKey]*ssa.Function{}, initDone: map[*ssa.Package]bool{}, funcs: map[*ssa.Function]int{}, pureBusy: map[*ssa.Function]bool{}, pools: map[*Value][]Value{}, natCache: map[string]Value{}}
	in.sol = NewSolver(in.tt, timeoutMs)
	in.maxSteps = 3000000
	in.stat.Ended = map[string]int64{}
	in.stat.Unsupported = map[string]int64{}
	return in
}

type HarnessResult struct {
	Name       string
	Stats      Stats
	Queries    int
	Cached     int
	Unknown    int
	SolverTime time.Duration
	MaxQuery   time.Duration
	SolverErrs []string
	Funcs      map[string]int
	Covers     map[string]bool
	TimedOut   bool
	Wall       time.Duration
	Violations []Violation
	VioTotal   map[string]int
	Samples    []Sample
	Abort      string
}

// runHarness explores one harness function with n workers.
func runHarness(sh *Shared, workers []*Interp, fn *ssa.Function, budget time.Duration, maxSamples int) *HarnessResult {
	start := time.Now()
	sh.curHarness = fn.Name()
	sh.stack = []workItem{{}}
	sh.stop, sh.timedOut, sh.busy = false, false, 0
	sh.deadline.Store(start.Add(budget).UnixNano())
	sh.violations, sh.vioCount = nil, map[string]int{}
	sh.samples, sh.seenSample, sh.maxSamples = nil, 0, maxSamples
	sh.covers = map[string]bool{}
	sh.vioHit, sh.abort = false, ""
	sh.idle.Store(0)
	var wg sync.WaitGroup
	type base struct {
		q, c, u int
		t       time.Duration
	}
	bases := make([]base, len(workers))
	for i, in := range workers {
		bases[i] = base{in.sol.Queries, in.sol.Cached, in.sol.Unknown, in.sol.Time}
		in.sol.MaxTime = 0
		in.sol.Errors = nil
		in.xn = 0
		in.xtime = 0
		in.stat = Stats{Ended: map[string]int64{}, Unsupported: map[string]int64{}}
		in.funcs = map[*ssa.Function]int{}
		wg.Add(1)
		go func(in *Interp) {
			defer wg.Done()
			in.work(fn)
		}(in)
	}
	wg.Wait()
	r := &HarnessResult{Name: fn.Name(), Funcs: map[string]int{}, Covers: sh.covers, TimedOut: sh.timedOut, Violations: sh.violations, VioTotal: sh.vioCount, Samples: sh.samples, Abort: sh.abort}
	r.Stats.Ended, r.Stats.Unsupported = map[string]int64{}, map[string]int64{}
	for i, in := range workers {
		s := in.stat
		r.Stats.Paths += s.Paths
		r.Stats.Forks += s.Forks
		r.Stats.Steps += s.Steps
		r.Stats.Asserts += s.Asserts
		r.Stats.AssertsTrivial += s.AssertsTrivial
		r.Stats.AssertsUnknown += s.AssertsUnknown
		r.Stats.ForkUnknown += s.ForkUnknown
		r.Stats.RangeDecided += s.RangeDecided
		r.Stats.DomDecided += s.DomDecided
		r.Stats.ModelDecided += s.ModelDecided
		r.Stats.SolverDecided += s.SolverDecided
		r.Stats.CrossChecked += s.CrossChecked
		for k, v := range s.Ended {
			r.Stats.Ended[k] += v
		}
		for k, v := range s.Unsupported {
			r.Stats.Unsupported[k] += v
		}
		r.Queries += in.sol.Queries - bases[i].q
		r.Cached += in.sol.Cached - bases[i].c
		r.Unknown += in.sol.Unknown - bases[i].u
		r.SolverTime += in.sol.Time - bases[i].t
		if in.sol.MaxTime > r.MaxQuery {
			r.MaxQuery = in.sol.MaxTime
		}
		r.SolverErrs = append(r.SolverErrs, in.sol.Errors...)
		for f, n := range in.funcs {
			r.Funcs[f.String()] += n
		}
	}
	r.Wall = time.Since(start)
	return r
}

func (in *Interp) work(fn *ssa.Function) {
	sh := in.sh
	var local []workItem
	in.local = &local
	// setup: a harness returning func() is run once, then its result explored
	entry := Value(fn)
	in.p = newPath(nil, nil)
	setupErr := in.guard(func() {
		in.initPackage(sh.pkg)
		if fn.Signature.Results().Len() == 1 {
			entry = in.call(nil, fn, nil)
		}
	})
	if setupErr != "" {
		sh.mu.Lock()
		sh.abort = "setup: " + setupErr
		sh.stop = true
		sh.cond.Broadcast()
		sh.mu.Unlock()
		return
	}
	in.trail = in.trail[:0]
	for {
		var w workItem
		if n := len(local); n > 0 {
			w = local[n-1]
			local[n-1] = workItem{}
			local = local[:n-1]
		} else {
			sh.mu.Lock()
			for len(sh.stack) == 0 && sh.busy > 0 && !sh.stop {
				sh.idle.Add(1)
				sh.cond.Wait()
				sh.idle.Add(-1)
			}
			if sh.stop || len(sh.stack) == 0 {
				sh.cond.Broadcast()
				sh.mu.Unlock()
				return
			}
			w = sh.stack[len(sh.stack)-1]
			sh.stack = sh.stack[:len(sh.stack)-1]
			sh.busy++
			sh.mu.Unlock()
			in.holding = true
		}
		in.runPath(entry, w)
		if len(in.tt.tab) > 3000000 {
			// keep memory bounded: constants held by the heap stay valid
			in.tt.resetTab()
			in.sol.cache = map[string]cacheEnt{}
			in.sol.Close()
		}
		if len(in.sol.cache) > 300000 {
			in.sol.cache = map[string]cacheEnt{}
		}
		if len(local) == 0 || sh.stopped() {
			sh.mu.Lock()
			sh.busy--
			if sh.busy == 0 || sh.stop {
				sh.cond.Broadcast()
			}
			st := sh.stop
			sh.mu.Unlock()
			local = local[:0]
			if st {
				return
			}
		}
	}
}

func (sh *Shared) stopped() bool {
	sh.mu.Lock()
	defer sh.mu.Unlock()
	return sh.stop
}

func (in *Interp) guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				msg = "unsupported: " + r.msg
			case goPanic:
				msg = "panic: " + in.panicText(r)
			case budget:
				msg = "budget: " + r.msg
			case pathEnd:
				msg = "end: " + r.reason
			case bail:
				msg = "bail"
			default:
				panic(r)
			}
		}
	}()
	f()
	return ""
}

func (in *Interp) panicText(p goPanic) string {
	i, ok := p.v.(Iface)
	if !ok {
		return "?"
	}
	s := "?"
	func() {
		defer func() { recover() }()
		s = in.fmtStr(in.valStr(nil, i, false, false))
	}()
	return s
}

func (in *Interp) runPath(entry Value, w workItem) {
	mark := len(in.trail)
	in.p = newPath(w.prefix, w.model)
	in.steps = 0
	in.noFork = 0
	in.locked = 0
	in.watch = nil
	in.mapPerm = false
	in.mapRot = -1
	in.mapLoops = 0
	in.places = nil
	end := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					end = r.reason
				case unsupported:
					end = "unsupported"
					in.stat.Unsupported[r.msg]++
				case bail:
					end = "unsupported"
					in.stat.Unsupported["internal bail"]++
				case budget:
					end = "budget:" + r.msg
					in.report("does not terminate within the step budget ("+r.msg+")", in.p.model, "")
				case goPanic:
					end = "panic"
					t := in.panicText(r)
					in.report("panic: "+t, in.p.model, "")
				default:
					if e, ok := r.(error); ok && !debugPanics {
						end = "unsupported"
						in.stat.Unsupported["engine: "+e.Error()]++
						return
					}
					panic(r)
				}
			}
		}()
		in.call(nil, entry, nil)
	}()
	in.stat.Paths++
	in.stat.Steps += in.steps
	if end == "" {
		end = "completed"
	}
	in.stat.Ended[end]++
	if end == "completed" {
		in.sample()
	}
	in.undoTo(mark)
}

var debugPanics = false

func (in *Interp) sample() {
	sh := in.sh
	p := in.p
	sh.mu.Lock()
	defer sh.mu.Unlock()
	for k := range p.covers {
		sh.covers[k] = true
	}
	if p.approx || sh.maxSamples == 0 {
		return
	}
	sh.seenSample++
	slot := -1
	if len(sh.samples) < sh.maxSamples {
		sh.samples = append(sh.samples, Sample{})
		slot = len(sh.samples) - 1
	} else {
		// reservoir sampling, deterministic stream
		sh.rng = sh.rng*6364136223846793005 + 1442695040888963407
		if k := int64((sh.rng >> 33) % uint64(sh.seenSample)); k < int64(sh.maxSamples) {
			slot = int(k)
		}
	}
	if slot < 0 {
		return
	}
	s := Sample{Harness: sh.curHarness}
	for _, i := range p.inputs {
		s.Inputs = append(s.Inputs, Input{Kind: i.Kind, W: i.W})
		if i.Term != nil {
			s.Vals = append(s.Vals, in.tt.Eval(i.Term, p.model))
		} else {
			s.Vals = append(s.Vals, i.Value)
		}
	}
	for _, o := range p.obs {
		var b strings.Builder
		b.WriteString(o.Label)
		for _, v := range o.Vals {
			switch v := v.(type) {
			case *Term:
				x := in.tt.Eval(v, p.model)
				if v.w == 0 {
					fmt.Fprintf(&b, " %v", x == 1)
				} else {
					fmt.Fprintf(&b, " %d", x)
				}
			case Str:
				fmt.Fprintf(&b, " %q", in.fmtStr(v))
			}
		}
		s.Obs = append(s.Obs, b.String())
	}
	sh.samples[slot] = s
}

var _ atomic.Int32
