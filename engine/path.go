package main

import (
	"fmt"
	"go/types"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Input is one nondeterministic value consumed by a harness, in order.
type Input struct {
	Kind  string // "u8","u64",...,"choice"
	W     uint8
	Term  *Term
	Value uint64 // for choices
}

type Obs struct {
	Label string
	Vals  []Value // Terms or Strs
}

// Path is the state of one symbolic path.
type Path struct {
	prefix       []uint64
	log          []uint64
	pos          int
	model        []uint64 // witness by variable ordinal
	widths       []uint8
	dom          map[int32]*[4]uint64
	domT         map[int32][]*Term
	multi        []*Term
	inputs       []Input
	obs          []Obs
	covers       map[string]bool
	uf           map[ufKey]*Term
	touchedMulti map[int32]bool
	notes        []string
	approx       bool
}

type ufKey struct {
	f       string
	a, b, c *Term
}

func newPath(prefix, model []uint64) *Path {
	return &Path{prefix: prefix, model: append([]uint64(nil), model...), dom: map[int32]*[4]uint64{}, domT: map[int32][]*Term{}, covers: map[string]bool{}, uf: map[ufKey]*Term{}, touchedMulti: map[int32]bool{}}
}

func (p *Path) width(i int32) uint8 {
	if int(i) < len(p.widths) {
		return p.widths[i]
	}
	return 0
}

func (p *Path) replaying() bool { return p.pos < len(p.prefix) }

type Stats struct {
	Paths, Forks, Steps      int64
	Asserts, AssertsTrivial  int64
	AssertsUnknown           int64
	ForkUnknown              int64
	DomDecided, ModelDecided int64
	SolverDecided            int64
	RangeDecided             int64
	CrossChecked             int64
	Ended                    map[string]int64
	Unsupported              map[string]int64
}

type workItem struct {
	prefix []uint64
	model  []uint64
}

type Violation struct {
	Harness string
	Msg     string
	Inputs  []Input
	Vals    []uint64
	Known   string
	Obs     []string
}

// newVar makes the next nondeterministic variable of the path.
func (in *Interp) newVar(w uint8) *Term {
	p := in.p
	ord := len(p.widths)
	p.widths = append(p.widths, w)
	for len(p.model) <= ord {
		p.model = append(p.model, 0)
	}
	return in.tt.Var(ord, w)
}

// add asserts c on the current path (no feasibility check).
func (in *Interp) add(c *Term) {
	if c.isC() {
		return
	}
	if c.op == OAnd {
		in.add(c.a[0])
		in.add(c.a[1])
		return
	}
	p := in.p
	if len(c.sup.vars) == 1 && p.width(c.sup.vars[0]) == 8 {
		v := c.sup.vars[0]
		s := in.tt.Set(c)
		if d := p.dom[v]; d != nil {
			n := setAnd(d, s)
			if n == *d {
				return
			}
			p.dom[v] = &n
		} else {
			p.dom[v] = s
		}
		p.domT[v] = append(p.domT[v], c)
		return
	}
	p.multi = append(p.multi, c)
	for _, v := range c.sup.vars {
		p.touchedMulti[v] = true
	}
}

// slice collects the path constraints connected to c.
func (in *Interp) slice2(c *Term) []*Term {
	p := in.p
	inS := map[int32]bool{}
	var q []int32
	for _, v := range c.sup.vars {
		inS[v] = true
		q = append(q, v)
	}
	out := []*Term{c}
	used := make([]bool, len(p.multi))
	for changed := true; changed; {
		changed = false
		for i, m := range p.multi {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range m.sup.vars {
				if inS[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[i] = true
			out = append(out, m)
			for _, v := range m.sup.vars {
				if !inS[v] {
					inS[v] = true
					q = append(q, v)
					changed = true
				}
			}
		}
	}
	for _, v := range q {
		out = append(out, p.domT[v]...)
	}
	return out
}

// feasible decides PC and c; on Sat it returns a full witness model.
func (in *Interp) feasible(c *Term) (SatResult, []uint64) {
	p := in.p
	if c.isC() {
		if c.c == 1 {
			return Sat, p.model
		}
		return Unsat, nil
	}
	if in.tt.Eval(c, p.model) == 1 {
		in.stat.ModelDecided++
		return Sat, p.model
	}
	if len(c.sup.vars) == 1 && p.width(c.sup.vars[0]) == 8 {
		v := c.sup.vars[0]
		s := *in.tt.Set(c)
		if d := p.dom[v]; d != nil {
			s = setAnd(d, &s)
		}
		if setEmpty(s) {
			in.stat.DomDecided++
			if in.crossCheck(c, Unsat) == Sat {
				panic(unsupported{"engine: solver and byte-domain procedure disagree"})
			}
			return Unsat, nil
		}
		if !p.touchedMulti[v] {
			in.stat.DomDecided++
			if in.crossCheck(c, Sat) == Unsat {
				panic(unsupported{"engine: solver and byte-domain procedure disagree"})
			}
			m := append([]uint64(nil), p.model...)
			m[v] = setPick(s)
			return Sat, m
		}
	}
	in.stat.SolverDecided++
	r, mm := in.query(c)
	if r != Sat {
		return r, nil
	}
	m := append([]uint64(nil), p.model...)
	for k, v := range mm {
		for int(k) >= len(m) {
			m = append(m, 0)
		}
		m[k] = v
	}
	return Sat, m
}

// crossCheck puts a verdict of the byte-domain procedure to the SMT solver as
// well: the first ones of each harness and then every 64th.
func (in *Interp) crossCheck(c *Term, want SatResult) SatResult {
	in.xn++
	if in.xn > 400 && in.xn%64 != 0 {
		return want
	}
	return in.confirm(in.slice2(c), want)
}

const implied = uint64(1) << 63

// fork chooses among mutually exclusive, exhaustive conditions.
func (in *Interp) fork(conds []*Term) int {
	for i, c := range conds {
		if c.isC() && c.c == 1 {
			return i
		}
	}
	if in.noFork > 0 {
		panic(bail{})
	}
	p := in.p
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.log = append(p.log, d)
		i := int(d &^ implied)
		if d&implied == 0 {
			in.add(conds[i])
		}
		return i
	}
	in.checkBudget()
	in.stat.Forks++
	cur := -1
	type alt struct {
		i int
		m []uint64
	}
	var alts []alt
	unk := false
	for i, c := range conds {
		if c.isC() {
			continue
		}
		if cur < 0 && in.tt.Eval(c, p.model) == 1 {
			cur = i
			continue
		}
		r, m := in.feasible(c)
		switch r {
		case Sat:
			alts = append(alts, alt{i, m})
		case Unknown:
			unk = true
			in.stat.ForkUnknown++
		}
	}
	if cur < 0 {
		// the witness must satisfy one of them; conditions not exhaustive or
		// model incomplete
		if len(alts) == 0 {
			panic(pathEnd{"no feasible branch"})
		}
		cur = alts[0].i
		p.model = append([]uint64(nil), alts[0].m...)
		alts = alts[1:]
	}
	d := uint64(cur)
	if len(alts) == 0 && !unk {
		d |= implied
	} else {
		for j := len(alts) - 1; j >= 0; j-- {
			pre := make([]uint64, len(p.log)+1)
			copy(pre, p.log)
			pre[len(p.log)] = uint64(alts[j].i)
			in.push(workItem{pre, alts[j].m})
		}
		in.add(conds[cur])
	}
	p.log = append(p.log, d)
	p.pos = len(p.log)
	p.prefix = p.log
	return cur
}

// choose is an unconstrained n-way decision.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.noFork > 0 {
		panic(bail{})
	}
	p := in.p
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.log = append(p.log, d)
		return int(d)
	}
	in.checkBudget()
	in.stat.Forks++
	for j := n - 1; j >= 1; j-- {
		pre := make([]uint64, len(p.log)+1)
		copy(pre, p.log)
		pre[len(p.log)] = uint64(j)
		in.push(workItem{pre, append([]uint64(nil), p.model...)})
	}
	p.log = append(p.log, 0)
	p.pos = len(p.log)
	p.prefix = p.log
	return 0
}

// concretize forks over the feasible values of t (at most 300).
func (in *Interp) concretize(t *Term) uint64 {
	if t.isC() {
		return t.c
	}
	if in.noFork > 0 {
		panic(bail{})
	}
	p := in.p
	tt := in.tt
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.log = append(p.log, d)
		in.add(tt.Eq(t, tt.C(t.w, d)))
		return d
	}
	in.checkBudget()
	in.stat.Forks++
	type alt struct {
		v uint64
		m []uint64
	}
	cur := tt.Eval(t, p.model)
	alts := []alt{{cur, p.model}}
	if len(t.sup.vars) == 1 && p.width(t.sup.vars[0]) == 8 && !p.touchedMulti[t.sup.vars[0]] {
		v := t.sup.vars[0]
		tab := tt.Table(t)
		seen := map[uint64]bool{cur: true}
		for i := 0; i < 256; i++ {
			if d := p.dom[v]; d != nil && !setHas(d, uint64(i)) {
				continue
			}
			if !seen[tab[i]] {
				seen[tab[i]] = true
				m := append([]uint64(nil), p.model...)
				m[v] = uint64(i)
				alts = append(alts, alt{tab[i], m})
			}
		}
		in.stat.DomDecided++
	} else {
		block := tt.Not(tt.Eq(t, tt.C(t.w, cur)))
		for {
			r, m := in.feasible(block)
			if r == Unknown {
				in.stat.ForkUnknown++
			}
			if r != Sat {
				break
			}
			v := tt.Eval(t, m)
			alts = append(alts, alt{v, m})
			block = tt.And(block, tt.Not(tt.Eq(t, tt.C(t.w, v))))
			if len(alts) > 300 {
				panic(unsupported{"too many values to enumerate"})
			}
		}
	}
	sort.Slice(alts[1:], func(i, j int) bool { return alts[i+1].v < alts[j+1].v })
	for j := len(alts) - 1; j >= 1; j-- {
		pre := make([]uint64, len(p.log)+1)
		copy(pre, p.log)
		pre[len(p.log)] = alts[j].v
		in.push(workItem{pre, append([]uint64(nil), alts[j].m...)})
	}
	p.log = append(p.log, cur)
	p.pos = len(p.log)
	p.prefix = p.log
	in.add(tt.Eq(t, tt.C(t.w, cur)))
	return cur
}

func (in *Interp) assume(c *Term) {
	if c.isC() {
		if c.c == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	p := in.p
	if in.tt.Eval(c, p.model) == 1 {
		in.add(c)
		return
	}
	r, m := in.feasible(c)
	switch r {
	case Sat:
		p.model = append([]uint64(nil), m...)
		in.add(c)
	case Unknown:
		in.stat.ForkUnknown++
		panic(pathEnd{"assume-unknown"})
	default:
		panic(pathEnd{"assume"})
	}
}

// assert checks c on the path; known names a recorded finding whose condition
// kc excuses the failure.
func (in *Interp) assert(c *Term, msg string, known string, kc *Term) {
	if in.p.replaying() {
		// checked by the path that created this prefix
		in.add(c)
		return
	}
	in.stat.Asserts++
	if c.isC() && c.c == 1 {
		in.stat.AssertsTrivial++
		return
	}
	neg := in.tt.Not(c)
	if known != "" {
		r, m := in.feasible(in.tt.And(neg, kc))
		if r == Sat {
			in.report(msg, m, known)
		}
		neg = in.tt.And(neg, in.tt.Not(kc))
	}
	r, m := in.feasible(neg)
	switch r {
	case Sat:
		in.report(msg, m, "")
	case Unknown:
		in.stat.AssertsUnknown++
	}
	if c.isC() {
		panic(pathEnd{"assertion failed"})
	}
	in.assume(c)
}

func (in *Interp) report(msg string, model []uint64, known string) {
	p := in.p
	v := Violation{Harness: in.sh.curHarness, Msg: msg, Known: known}
	for _, i := range p.inputs {
		v.Inputs = append(v.Inputs, i)
		if i.Term != nil {
			v.Vals = append(v.Vals, in.tt.Eval(i.Term, model))
		} else {
			v.Vals = append(v.Vals, i.Value)
		}
	}
	in.sh.addViolation(v)
}

// Shared is the state shared by all workers of one run.
type Shared struct {
	mu             sync.Mutex
	cond           *sync.Cond
	prog           *ssa.Program
	pkg            *ssa.Package
	sizes          types.Sizes
	runtimeErrType types.Type
	curHarness     string
	stack          []workItem
	busy           int
	stop           bool
	deadline       atomic.Int64
	timedOut       bool
	violations     []Violation
	vioCount       map[string]int
	samples        []Sample
	maxSamples     int
	seenSample     int64
	covers         map[string]bool
	abort          string
	allowInit      map[string]bool
	nat            *NativeBin
	thorough       bool
	vioHit         bool
	idle           atomic.Int32
	errStrType     types.Type
	rng            uint64
}

type Sample struct {
	Harness string
	Inputs  []Input
	Vals    []uint64
	Obs     []string
}

func (sh *Shared) addViolation(v Violation) {
	sh.mu.Lock()
	defer sh.mu.Unlock()
	k := v.Msg + "|" + v.Known
	sh.vioCount[k]++
	if v.Known == "" && !sh.vioHit {
		// something to report: do not spend the whole budget
		sh.vioHit = true
		if d := time.Now().Add(15 * time.Second); d.UnixNano() < sh.deadline.Load() {
			sh.deadline.Store(d.UnixNano())
		}
	}
	if sh.vioCount[k] <= 6 {
		sh.violations = append(sh.violations, v)
	}
}

func (in *Interp) push(w workItem) {
	sh := in.sh
	if in.local != nil {
		*in.local = append(*in.local, w)
		if len(*in.local) > 64 {
			sh.mu.Lock()
			half := len(*in.local) / 2
			sh.stack = append(sh.stack, (*in.local)[:half]...)
			*in.local = append([]workItem(nil), (*in.local)[half:]...)
			sh.cond.Broadcast()
			sh.mu.Unlock()
		} else if in.sh.idle.Load() > 0 && len(*in.local) > 1 {
			sh.mu.Lock()
			sh.stack = append(sh.stack, (*in.local)[0])
			*in.local = (*in.local)[1:]
			sh.cond.Signal()
			sh.mu.Unlock()
		}
		return
	}
}

func (in *Interp) checkBudget() {
	if time.Now().UnixNano() > in.sh.deadline.Load() {
		in.sh.mu.Lock()
		in.sh.timedOut = true
		in.sh.stop = true
		in.sh.cond.Broadcast()
		in.sh.mu.Unlock()
		panic(pathEnd{"deadline"})
	}
}

func (p *Path) String() string { return fmt.Sprint(p.log) }
