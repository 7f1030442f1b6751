package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// control-flow panics of the interpreter
type goPanic struct { // a panic of the interpreted program
	v Value
}
type goExit struct{ code int }
type pathEnd struct{ reason string } // infeasible or assumption failed
type unsupported struct{ msg string }
type abortAll struct{ msg string }
type budget struct{ msg string }

type opndKind uint8

const (
	okReg opndKind = iota
	okVal
	okGlobal
	okNone
)

type opnd struct {
	k   opndKind
	i   int32
	v   Value
	src ssa.Value
}

type pinstr struct {
	ins ssa.Instruction
	ops []opnd
	dst int32
}

type pblock struct {
	b      *ssa.BasicBlock
	phis   []pinstr
	ins    []pinstr
	pure   bool // only side-effect-free, mergeable instructions
	succs  []*pblock
	preds  []*ssa.BasicBlock
	fnPure bool
}

type finfo struct {
	fn     *ssa.Function
	nregs  int
	blocks []*pblock
	regs   map[ssa.Value]int32
	pure   bool
	name   string
	intr   intrinsic
}

type intrinsic func(in *Interp, fr *Frame, fn *ssa.Function, args []Value) Value

type deferred struct {
	fn   Value
	args []Value
	ins  *ssa.Defer
}

type Frame struct {
	in     *Interp
	caller *Frame
	fi     *finfo
	regs   []Value
	defers []deferred
	result Value

	panicking bool
	panicV    interface{}
	depth     int
}

// Interp executes SSA symbolically; one per worker, single threaded.
type Interp struct {
	xn        int64
	xtime     time.Duration // spent on sampled confirmation of range verdicts
	sh        *Shared
	prog      *ssa.Program
	tt        *TermTable
	sol       *Solver
	finfos    map[*ssa.Function]*finfo
	tinfos    map[types.Type]tinfo
	globals   map[*ssa.Global]*Value
	sizes     types.Sizes
	growCache map[[4]int]int
	trail     []trailEnt
	implCache map[[2]types.Type]bool
	methCache map[methKey]*ssa.Function
	tmap      typeutil.Map
	initDone  map[*ssa.Package]bool

	p         *Path
	steps     int64
	maxSteps  int64
	stat      Stats
	watch     *watcher
	funcs     map[*ssa.Function]int
	mapPerm   bool
	mapRot    int
	mapRot5   int
	mapLoops  int
	chans     map[*Value]Value
	poolNew   bool
	natCache  map[string]Value
	pureBusy  map[*ssa.Function]bool
	noFork    int
	locked    int
	watchSite string
	onces     map[*Value]bool
	pools     map[*Value][]Value
	local     *[]workItem
	holding   bool
	places    []Value // what the placeholders in texts stand for
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (in *Interp) rtErr(msg string) goPanic {
	t := in.sh.runtimeErrType
	if t == nil {
		return in.plainErr("runtime error: " + msg)
	}
	return goPanic{Iface{t: t, v: Str{s: msg}}}
}

func (in *Interp) plainErr(msg string) goPanic {
	return goPanic{Iface{t: types.Typ[types.String], v: Str{s: msg}}}
}

func (in *Interp) finfo(fn *ssa.Function) *finfo {
	if fi, ok := in.finfos[fn]; ok {
		return fi
	}
	fi := &finfo{fn: fn, regs: map[ssa.Value]int32{}, name: fn.String()}
	in.finfos[fn] = fi
	fi.intr = intrinsics[fi.name]
	if fi.intr == nil && fn.Origin() != nil {
		fi.intr = intrinsics[fn.Origin().String()]
	}
	add := func(v ssa.Value) {
		fi.regs[v] = int32(fi.nregs)
		fi.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	by := map[*ssa.BasicBlock]*pblock{}
	for _, b := range fn.Blocks {
		by[b] = &pblock{b: b, preds: b.Preds}
	}
	var rands [10]*ssa.Value
	for _, b := range fn.Blocks {
		pb := by[b]
		for _, i := range b.Instrs {
			pi := pinstr{ins: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				pi.dst = fi.regs[v]
			}
			for _, o := range i.Operands(rands[:0]) {
				pi.ops = append(pi.ops, in.operand(fi, *o))
			}
			if _, ok := i.(*ssa.Phi); ok {
				pb.phis = append(pb.phis, pi)
			} else if _, ok := i.(*ssa.DebugRef); !ok {
				pb.ins = append(pb.ins, pi)
			}
		}
		for _, s := range b.Succs {
			pb.succs = append(pb.succs, by[s])
		}
		fi.blocks = append(fi.blocks, pb)
	}
	allPure := len(fn.Blocks) > 0 && len(fn.Blocks) <= 40 && fn.Recover == nil
	for _, pb := range fi.blocks {
		pb.pure = true
		for _, pi := range pb.ins {
			switch i := pi.ins.(type) {
			case *ssa.If, *ssa.Jump:
			case *ssa.Return:
				pb.fnPure = true
			default:
				if !in.pureInstr(i) {
					pb.pure = false
				}
			}
		}
		if !pb.pure {
			allPure = false
		}
	}
	if allPure {
		// scalar results only, and no loops
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			k := in.tinfo(rs.At(i).Type()).k
			if k == kNone || k == kString || k == kUnsafe {
				allPure = false
			}
		}
		if rs.Len() == 0 || hasLoop(fn) {
			allPure = false
		}
	}
	fi.pure = allPure
	return fi
}

func hasLoop(fn *ssa.Function) bool {
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 {
				return true
			}
			if state[s] == 0 && dfs(s) {
				return true
			}
		}
		state[b] = 2
		return false
	}
	return len(fn.Blocks) > 0 && dfs(fn.Blocks[0])
}

// pureInstr says whether an instruction may be evaluated speculatively.
func (in *Interp) pureInstr(i ssa.Instruction) bool {
	scalar := func(t types.Type) bool {
		k := in.tinfo(t).k
		return k == kBool || k == kInt || k == kUint || k == kFloat
	}
	switch i := i.(type) {
	case *ssa.BinOp:
		if !scalar(i.X.Type()) {
			return i.Op == token.EQL || i.Op == token.NEQ
		}
		if i.Op == token.QUO || i.Op == token.REM {
			c, ok := i.Y.(*ssa.Const)
			return in.tinfo(i.X.Type()).k == kFloat || (ok && c.Value != nil && c.Value.ExactString() != "0")
		}
		return true
	case *ssa.UnOp:
		return i.Op != token.ARROW
	case *ssa.Convert:
		return scalar(i.X.Type()) && scalar(i.Type())
	case *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Phi, *ssa.DebugRef:
		return true
	case *ssa.Lookup:
		_, ok := i.X.Type().Underlying().(*types.Basic)
		return ok
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		if i.Call.IsInvoke() {
			return false
		}
		f, ok := i.Call.Value.(*ssa.Function)
		if !ok || len(f.Blocks) == 0 {
			return false
		}
		if in.pureBusy[f] {
			return false
		}
		in.pureBusy[f] = true
		r := in.finfo(f).pure && in.finfo(f).intr == nil
		delete(in.pureBusy, f)
		return r
	}
	return false
}

func (in *Interp) operand(fi *finfo, v ssa.Value) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{k: okNone}
	case *ssa.Const:
		return opnd{k: okVal, v: in.constValLazy(v)}
	case *ssa.Global:
		return opnd{k: okGlobal, src: v}
	case *ssa.Function:
		return opnd{k: okVal, v: v}
	case *ssa.Builtin:
		return opnd{k: okVal, v: v}
	}
	r, ok := fi.regs[v]
	if !ok {
		panic(unsupported{"operand " + v.String()})
	}
	return opnd{k: okReg, i: r}
}

func (in *Interp) constValLazy(c *ssa.Const) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			v = bad{}
		}
	}()
	return in.constVal(c)
}

func (in *Interp) get(fr *Frame, o *opnd) Value {
	switch o.k {
	case okReg:
		return fr.regs[o.i]
	case okVal:
		switch v := o.v.(type) {
		case Struct, Array:
			return copyVal(v)
		case bad:
			panic(unsupported{"constant"})
		}
		return o.v
	case okGlobal:
		return in.global(o.src.(*ssa.Global))
	}
	return nil
}

func (in *Interp) global(g *ssa.Global) *Value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	if g.Pkg != nil && !in.initDone[g.Pkg] && !in.sh.skipInit(g.Pkg.Pkg.Path()) {
		in.initPackage(g.Pkg)
		if p, ok := in.globals[g]; ok {
			return p
		}
	}
	if g.Pkg != nil && in.sh.skipInit(g.Pkg.Pkg.Path()) {
		panic(unsupported{"global of uninitialised package: " + g.String()})
	}
	p := new(Value)
	*p = in.zero(g.Type().(*types.Pointer).Elem())
	in.globals[g] = p
	return p
}

// initPackage runs a package's initialiser (its own globals only; imported
// packages are initialised lazily upon first use of one of their globals).
func (in *Interp) initPackage(pkg *ssa.Package) {
	if in.initDone[pkg] {
		return
	}
	in.initDone[pkg] = true
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			p := new(Value)
			*p = in.zero(g.Type().(*types.Pointer).Elem())
			in.globals[g] = p
		}
	}
	saveTrail := in.trail
	in.trail = nil
	w := in.watch
	in.watch = nil
	saveP := in.p
	in.p = newPath(nil, nil)
	saveSteps := in.steps
	if f := pkg.Func("init"); f != nil {
		in.call(nil, f, nil)
	}
	in.steps = saveSteps
	in.p = saveP
	in.watch = w
	in.trail = saveTrail
}

func (in *Interp) call(caller *Frame, fnv Value, args []Value) Value {
	switch fn := fnv.(type) {
	case *ssa.Function:
		return in.callFn(caller, fn, args, nil)
	case *Closure:
		if fn == nil {
			panic(in.rtErr("invalid memory address or nil pointer dereference"))
		}
		return in.callFn(caller, fn.fn, args, fn.env)
	case *ssa.Builtin:
		return in.builtin(caller, fn, args, nil)
	}
	panic(unsupported{fmt.Sprintf("call of %T", fnv)})
}

func (in *Interp) callFn(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := in.finfo(fn)
	if fi.intr != nil {
		return fi.intr(in, caller, fn, args)
	}
	if fn.Blocks == nil {
		if strings.HasPrefix(fi.name, "internal/") || strings.HasPrefix(fi.name, "runtime") {
			panic(unsupported{"external " + fi.name})
		}
		panic(unsupported{"external " + fi.name})
	}
	// package initialisers of imports run lazily
	if fn.Synthetic == "package initializer" && caller != nil {
		return nil
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > 900 {
		panic(budget{"call depth"})
	}
	in.funcs[fn]++
	if fi.pure && anySym(args) {
		if v, ok := in.pureCall(fi, args, env); ok {
			return v
		}
	}
	fr := &Frame{in: in, caller: caller, fi: fi, regs: make([]Value, fi.nregs), depth: depth}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	in.runFrame(fr)
	return fr.result
}

func anySym(args []Value) bool {
	for _, a := range args {
		if t, ok := a.(*Term); ok && !t.isC() {
			return true
		}
	}
	return false
}

// runFrame executes a frame including deferred calls and recovery.
func (in *Interp) runFrame(fr *Frame) {
	if !frameNeedsDefer(fr.fi) {
		in.exec(fr, fr.fi.blocks[0])
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if gp, ok := r.(goPanic); ok {
					fr.panicking = true
					fr.panicV = gp
					return
				}
				panic(r)
			}
		}()
		in.exec(fr, fr.fi.blocks[0])
	}()
	if !fr.panicking {
		return
	}
	in.runDefers(fr)
	if fr.panicking {
		panic(fr.panicV)
	}
	// recovered
	if fr.fi.fn.Recover != nil {
		for _, pb := range fr.fi.blocks {
			if pb.b == fr.fi.fn.Recover {
				in.exec(fr, pb)
				return
			}
		}
	}
	rs := fr.fi.fn.Signature.Results()
	switch rs.Len() {
	case 0:
	case 1:
		fr.result = in.zero(rs.At(0).Type())
	default:
		fr.result = in.zero(rs)
	}
	if fr.fi.fn.Recover != nil {
		return
	}
}

func frameNeedsDefer(fi *finfo) bool {
	return fi.fn.Recover != nil || fi.hasDefer()
}

func (fi *finfo) hasDefer() bool {
	for _, b := range fi.blocks {
		for i := range b.ins {
			if _, ok := b.ins[i].ins.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (in *Interp) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if gp, ok := r.(goPanic); ok {
						fr.panicking = true
						fr.panicV = gp
						return
					}
					panic(r)
				}
			}()
			if b, ok := d.fn.(*ssa.Builtin); ok {
				in.builtin(fr, b, d.args, nil)
			} else {
				in.call(fr, d.fn, d.args)
			}
		}()
	}
}

// leaf is one way out of a pure region.
type leaf struct {
	cond   *Term
	target *pblock
	pred   *ssa.BasicBlock
	ov     *overlay
	ret    Value
}

// overlay holds register values computed speculatively.
type overlay struct {
	reg  int32
	v    Value
	next *overlay
}

type bail struct{}

func (in *Interp) getOv(fr *Frame, ov *overlay, o *opnd) Value {
	if o.k == okReg {
		for x := ov; x != nil; x = x.next {
			if x.reg == o.i {
				return x.v
			}
		}
	}
	return in.get(fr, o)
}

// evalPure evaluates one speculative instruction; false means it cannot be
// evaluated without forking or panicking.
func (in *Interp) evalPure(fr *Frame, ov *overlay, pi *pinstr) (v Value, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case bail, goPanic, unsupported:
				v, ok = nil, false
			default:
				panic(r)
			}
		}
	}()
	in.noFork++
	defer func() { in.noFork-- }()
	tmp := pinstr{ins: pi.ins, dst: pi.dst, ops: make([]opnd, len(pi.ops))}
	for i := range pi.ops {
		tmp.ops[i] = opnd{k: okVal, v: in.getOv(fr, ov, &pi.ops[i])}
		if _, isB := tmp.ops[i].v.(bad); isB {
			return nil, false
		}
	}
	if c, isCall := pi.ins.(*ssa.Call); isCall {
		if b, isB := c.Call.Value.(*ssa.Builtin); isB {
			args := make([]Value, 0, 2)
			for i := range tmp.ops[1:] {
				args = append(args, tmp.ops[i+1].v)
			}
			return in.builtin(fr, b, args, c), true
		}
		f := c.Call.Value.(*ssa.Function)
		args := make([]Value, 0, 4)
		for i := range tmp.ops[1:] {
			args = append(args, tmp.ops[i+1].v)
		}
		fi := in.finfo(f)
		in.funcs[f]++
		return in.pureCall(fi, args, nil)
	}
	return in.instr(fr, &tmp), true
}

const maxLeaves = 300

// region explores the pure region behind an If and returns its leaves.
func (in *Interp) region(fr *Frame, start *pblock, pred *ssa.BasicBlock, cond *Term, ov *overlay, depth int, inCall bool, out *[]leaf) bool {
	if len(*out) >= maxLeaves {
		return false
	}
	if cond.isC() && cond.c == 0 {
		return true
	}
	b := start
	back := !inCall && pred != nil && b.b.Dominates(pred)
	if back || !b.pure || depth > 60 || (b.fnPure && !inCall) {
		if inCall {
			return false
		}
		*out = append(*out, leaf{cond: cond, target: b, pred: pred, ov: ov})
		return true
	}
	// infeasible prefixes need no expansion
	if in.quickInfeasible(cond) {
		return true
	}
	ov0 := ov
	if len(b.phis) > 0 {
		pi := -1
		for i, p := range b.preds {
			if p == pred {
				pi = i
				break
			}
		}
		var vals []Value
		for i := range b.phis {
			vals = append(vals, in.getOv(fr, ov, &b.phis[i].ops[pi]))
		}
		for i := range b.phis {
			ov = &overlay{b.phis[i].dst, vals[i], ov}
		}
	}
	for i := range b.ins {
		pi := &b.ins[i]
		switch pi.ins.(type) {
		case *ssa.Jump:
			return in.region(fr, b.succs[0], b.b, cond, ov, depth+1, inCall, out)
		case *ssa.If:
			c := in.getOv(fr, ov, &pi.ops[0]).(*Term)
			if c.isC() {
				if c.c == 1 {
					return in.region(fr, b.succs[0], b.b, cond, ov, depth+1, inCall, out)
				}
				return in.region(fr, b.succs[1], b.b, cond, ov, depth+1, inCall, out)
			}
			if !inCall && in.noMerge(cond, c) {
				*out = append(*out, leaf{cond: cond, target: b, pred: pred, ov: ov0})
				return true
			}
			return in.region(fr, b.succs[0], b.b, in.tt.And(cond, c), ov, depth+1, inCall, out) &&
				in.region(fr, b.succs[1], b.b, in.tt.And(cond, in.tt.Not(c)), ov, depth+1, inCall, out)
		case *ssa.Return:
			if len(pi.ops) == 1 {
				*out = append(*out, leaf{cond: cond, ret: in.getOv(fr, ov, &pi.ops[0])})
			} else {
				t := make(Tuple, len(pi.ops))
				for j := range pi.ops {
					t[j] = in.getOv(fr, ov, &pi.ops[j])
				}
				*out = append(*out, leaf{cond: cond, ret: t})
			}
			return true
		default:
			v, ok := in.evalPure(fr, ov, pi)
			if !ok {
				if inCall {
					return false
				}
				*out = append(*out, leaf{cond: cond, target: b, pred: pred, ov: ov0})
				return true
			}
			if pi.dst >= 0 {
				ov = &overlay{pi.dst, v, ov}
			}
		}
	}
	return false
}

// noMerge: c brings further bytes into a condition over bytes; two forks decided
// on byte domains are cheaper than one over both.
func (in *Interp) noMerge(cond, c *Term) bool {
	for _, v := range cond.sup.vars {
		if in.p.width(v) != 8 {
			return false
		}
	}
	for _, v := range c.sup.vars {
		if in.p.width(v) != 8 {
			return false
		}
		found := false
		for _, u := range cond.sup.vars {
			if u == v {
				found = true
				break
			}
		}
		if !found {
			return true
		}
	}
	return false
}

// quickInfeasible: single-byte condition contradicting the byte's domain.
func (in *Interp) quickInfeasible(c *Term) bool {
	if c.isC() {
		return c.c == 0
	}
	if len(c.sup.vars) != 1 || in.p.width(c.sup.vars[0]) != 8 {
		return false
	}
	if d := in.p.dom[c.sup.vars[0]]; d != nil {
		return setEmpty(setAnd(d, in.tt.Set(c)))
	}
	return setEmpty(*in.tt.Set(c))
}

// pureCall evaluates a loop-free pure function to a merged term.
func (in *Interp) pureCall(fi *finfo, args, env []Value) (Value, bool) {
	fr := &Frame{in: in, fi: fi, regs: make([]Value, fi.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[len(fi.fn.Params):], env)
	var ls []leaf
	in.noFork++
	ok := in.region(fr, fi.blocks[0], nil, in.tt.tr, nil, 0, true, &ls)
	in.noFork--
	if !ok || len(ls) == 0 {
		return nil, false
	}
	v := ls[len(ls)-1].ret
	for i := len(ls) - 2; i >= 0; i-- {
		m, ok := in.merge(ls[i].cond, ls[i].ret, v)
		if !ok {
			return nil, false
		}
		v = m
	}
	return v, true
}

func (in *Interp) merge(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return in.tt.Ite(c, x, y), true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			m, ok := in.merge(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	}
	if sameVal(a, b) {
		return a, true
	}
	return nil, false
}

// sameVal is conservative identity of two values.
func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && (x == y || (x.isC() && y.isC() && x.c == y.c && x.w == y.w))
	case Str:
		y, ok := b.(Str)
		if !ok || x.Len() != y.Len() {
			return false
		}
		if x.sym == nil && y.sym == nil {
			return x.s == y.s
		}
		if len(x.sym) > 0 && len(y.sym) > 0 {
			return &x.sym[0] == &y.sym[0]
		}
		return false
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && len(x) == len(y) && cap(x) == cap(y) && (x == nil) == (y == nil) && (len(x) == 0 || &x[0] == &y[0]) && (len(x) > 0 || cap(x) == 0)
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && (x.t == nil || sameVal(x.v, y.v))
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return ok && x == y
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// branch resolves a symbolic If: it merges cascades of pure conditions, forks
// over the distinct continuations and returns the block to run next, with its
// phis already assigned.
func (in *Interp) branch(fr *Frame, pb *pblock, c *Term) *pblock {
	var ls []leaf
	ok := in.region(fr, pb.succs[0], pb.b, c, nil, 0, false, &ls) &&
		in.region(fr, pb.succs[1], pb.b, in.tt.Not(c), nil, 0, false, &ls)
	if !ok || len(ls) == 0 {
		ls = []leaf{{cond: c, target: pb.succs[0], pred: pb.b}, {cond: in.tt.Not(c), target: pb.succs[1], pred: pb.b}}
	}
	type group struct {
		target *pblock
		ls     []leaf
		phis   [][]Value // per leaf
		cond   *Term
	}
	var groups []*group
	for _, l := range ls {
		if in.quickInfeasible(l.cond) {
			continue
		}
		var ph []Value
		if len(l.target.phis) > 0 {
			k := -1
			for i, p := range l.target.preds {
				if p == l.pred {
					k = i
					break
				}
			}
			for i := range l.target.phis {
				ph = append(ph, in.getOv(fr, l.ov, &l.target.phis[i].ops[k]))
			}
		}
		var g *group
	search:
		for _, x := range groups {
			if x.target != l.target {
				continue
			}
			for i := range ph {
				a, b := x.phis[0][i], ph[i]
				if sameVal(a, b) {
					continue
				}
				ta, oka := a.(*Term)
				tb, okb := b.(*Term)
				if oka && okb && ta.w == 0 && tb.w == 0 {
					continue
				}
				continue search
			}
			// overlay registers must be mergeable
			for o := l.ov; o != nil; o = o.next {
				for q := x.ls[0].ov; q != nil; q = q.next {
					if q.reg == o.reg {
						ta, oka := o.v.(*Term)
						tb, okb := q.v.(*Term)
						if !(oka && okb && ta.w == tb.w) && !sameVal(o.v, q.v) {
							continue search
						}
						break
					}
				}
			}
			g = x
			break
		}
		if g == nil {
			g = &group{target: l.target, cond: in.tt.fa}
			groups = append(groups, g)
		}
		g.ls = append(g.ls, l)
		g.phis = append(g.phis, ph)
		g.cond = in.tt.Or(g.cond, l.cond)
	}
	conds := make([]*Term, len(groups))
	for i, g := range groups {
		conds[i] = g.cond
	}
	g := groups[in.fork(conds)]
	// install overlay registers
	n := len(g.ls)
	set := map[int32]Value{}
	for i := n - 1; i >= 0; i-- {
		local := map[int32]bool{}
		for o := g.ls[i].ov; o != nil; o = o.next {
			if local[o.reg] {
				continue
			}
			local[o.reg] = true
			if old, ok := set[o.reg]; ok {
				if m, ok := in.merge(g.ls[i].cond, o.v, old); ok {
					set[o.reg] = m
				} else {
					set[o.reg] = bad{}
				}
			} else {
				set[o.reg] = o.v
			}
		}
	}
	phis := make([]Value, len(g.target.phis))
	for j := range phis {
		v := g.phis[n-1][j]
		for i := n - 2; i >= 0; i-- {
			m, ok := in.merge(g.ls[i].cond, g.phis[i][j], v)
			if !ok {
				panic(unsupported{"phi merge"})
			}
			v = m
		}
		phis[j] = v
	}
	for r, v := range set {
		fr.regs[r] = v
	}
	for j := range phis {
		fr.regs[g.target.phis[j].dst] = phis[j]
	}
	return g.target
}

func (in *Interp) exec(fr *Frame, pb *pblock) {
	var pred *ssa.BasicBlock
	phisDone := false
	for {
		if !phisDone && len(pb.phis) > 0 {
			k := -1
			for i, p := range pb.preds {
				if p == pred {
					k = i
					break
				}
			}
			if len(pb.phis) == 1 {
				fr.regs[pb.phis[0].dst] = in.get(fr, &pb.phis[0].ops[k])
			} else {
				vals := make([]Value, len(pb.phis))
				for i := range pb.phis {
					vals[i] = in.get(fr, &pb.phis[i].ops[k])
				}
				for i := range pb.phis {
					fr.regs[pb.phis[i].dst] = vals[i]
				}
			}
		}
		phisDone = false
		var next *pblock
		in.steps += int64(len(pb.ins))
		if in.steps > in.maxSteps {
			panic(budget{"steps"})
		}
		for i := range pb.ins {
			pi := &pb.ins[i]
			switch ins := pi.ins.(type) {
			case *ssa.Jump:
				pred = pb.b
				next = pb.succs[0]
			case *ssa.If:
				c := in.get(fr, &pi.ops[0]).(*Term)
				if c.isC() {
					pred = pb.b
					if c.c == 1 {
						next = pb.succs[0]
					} else {
						next = pb.succs[1]
					}
				} else {
					next = in.branch(fr, pb, c)
					phisDone = true
				}
			case *ssa.Return:
				switch len(pi.ops) {
				case 0:
				case 1:
					fr.result = in.get(fr, &pi.ops[0])
				default:
					t := make(Tuple, len(pi.ops))
					for j := range pi.ops {
						t[j] = in.get(fr, &pi.ops[j])
					}
					fr.result = t
				}
				return
			case *ssa.RunDefers:
				in.runDefers(fr)
				if fr.panicking {
					pv := fr.panicV
					panic(pv)
				}
			case *ssa.Panic:
				panic(goPanic{in.get(fr, &pi.ops[0])})
			case *ssa.Store:
				in.store(in.get(fr, &pi.ops[0]), in.get(fr, &pi.ops[1]))
			case *ssa.MapUpdate:
				m, _ := in.get(fr, &pi.ops[0]).(*MapObj)
				in.mapSet(m, in.get(fr, &pi.ops[1]), in.get(fr, &pi.ops[2]))
			case *ssa.Defer:
				fn, args := in.prepCall(fr, &ins.Call, pi)
				fr.defers = append(fr.defers, deferred{fn, args, ins})
			case *ssa.Call:
				fn, args := in.prepCall(fr, &ins.Call, pi)
				if b, ok := fn.(*ssa.Builtin); ok {
					fr.regs[pi.dst] = in.builtin(fr, b, args, ins)
				} else {
					fr.regs[pi.dst] = in.call(fr, fn, args)
				}
			case *ssa.Go, *ssa.Send, *ssa.Select:
				panic(unsupported{"concurrency instruction"})
			default:
				fr.regs[pi.dst] = in.instr(fr, pi)
			}
		}
		if next == nil {
			panic(unsupported{"block without successor in " + fr.fi.name})
		}
		pb = next
	}
}

func (in *Interp) prepCall(fr *Frame, c *ssa.CallCommon, pi *pinstr) (Value, []Value) {
	v := in.get(fr, &pi.ops[0])
	var args []Value
	if c.IsInvoke() {
		recv := v.(Iface)
		if recv.t == nil {
			panic(in.rtErr("invalid memory address or nil pointer dereference"))
		}
		args = make([]Value, 0, len(pi.ops))
		if nf := in.nativeMethod(recv, c.Method); nf != nil {
			args = append(args, recv.v)
			for i := 1; i < len(pi.ops); i++ {
				args = append(args, in.get(fr, &pi.ops[i]))
			}
			return nf, args
		}
		f := in.lookupMethod(recv.t, c.Method)
		if f == nil {
			panic(unsupported{"method " + c.Method.String() + " on " + recv.t.String()})
		}
		args = append(args, recv.v)
		v = f
	} else {
		args = make([]Value, 0, len(pi.ops))
	}
	for i := 1; i < len(pi.ops); i++ {
		args = append(args, in.get(fr, &pi.ops[i]))
	}
	return v, args
}

func (in *Interp) nativeMethod(recv Iface, m *types.Func) Value { return nil }

func (in *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := in.methCache[k]; ok {
		return f
	}
	in.sh.mu.Lock()
	f := in.prog.LookupMethod(t, m.Pkg(), m.Name())
	in.sh.mu.Unlock()
	in.methCache[k] = f
	return f
}

// load through a pointer value.
func (in *Interp) load(p Value, t types.Type) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			panic(in.rtErr("invalid memory address or nil pointer dereference"))
		}
		if in.watch != nil {
			in.noteLoad(p)
		}
		switch (*p).(type) {
		case Struct, Array:
			return copyVal(*p)
		}
		return *p
	case SymPtr:
		return in.symLoad(p)
	case CastPtr:
		return in.castLoad(p)
	case UPtr:
		return in.load(p.p, t)
	}
	panic(unsupported{fmt.Sprintf("load via %T", p)})
}

func (in *Interp) store(p, v Value) {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			panic(in.rtErr("invalid memory address or nil pointer dereference"))
		}
		in.storeCell(p, v)
		return
	case SymPtr:
		i := in.concretize(p.idx)
		in.storeCell(&p.base[i], v)
		return
	case CastPtr:
		in.castStore(p, v)
		return
	}
	panic(unsupported{fmt.Sprintf("store via %T", p)})
}

// symLoad reads base[idx] for a symbolic index as an ite chain.
func (in *Interp) symLoad(p SymPtr) Value {
	if v, ok := in.symRead(p.base, p.idx); ok {
		return v
	}
	i := in.concretize(p.idx)
	return copyVal(p.base[i])
}

func (in *Interp) symRead(base []Value, idx *Term) (Value, bool) {
	if len(base) == 0 {
		return nil, false
	}
	for _, v := range base {
		if _, ok := v.(*Term); !ok {
			return nil, false
		}
	}
	// group runs of equal values
	type run struct {
		end int
		v   *Term
	}
	var runs []run
	for i, v := range base {
		t := v.(*Term)
		if n := len(runs); n > 0 && sameVal(runs[n-1].v, t) {
			runs[n-1].end = i + 1
		} else {
			runs = append(runs, run{i + 1, t})
		}
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return runs[lo].v
		}
		mid := (lo + hi) / 2
		bound := uint64(runs[mid-1].end)
		if idx.w < 64 && bound > mask(idx.w) {
			return build(lo, mid)
		}
		return in.tt.Ite(in.tt.Ult(idx, in.tt.C(idx.w, bound)), build(lo, mid), build(mid, hi))
	}
	return build(0, len(runs)), true
}

// castLoad / castStore handle *[N]byte <-> *integer/float views and a few
// same-representation views.
func byteArray(v Value) (Array, bool) {
	a, ok := v.(Array)
	if !ok || len(a) == 0 {
		return nil, false
	}
	for _, x := range a {
		t, ok := x.(*Term)
		if !ok || t.w != 8 {
			return nil, false
		}
	}
	return a, true
}

func (in *Interp) castLoad(p CastPtr) Value {
	base, ok := p.p.(*Value)
	if !ok || base == nil {
		panic(unsupported{"cast load"})
	}
	ti := in.tinfo(p.to)
	if ti.k == kBool || ti.k == kInt || ti.k == kUint || ti.k == kFloat {
		if a, ok := byteArray(*base); ok {
			n := int(ti.w) / 8
			if ti.k == kBool {
				n = 1
			}
			if len(a) >= n {
				r := a[0].(*Term)
				for i := 1; i < n; i++ {
					r = in.tt.Concat(a[i].(*Term), r)
				}
				if ti.k == kBool {
					return in.tt.Not(in.tt.Eq(r, in.tt.C(8, 0)))
				}
				return r
			}
		}
		if t, ok := (*base).(*Term); ok && t.w == ti.w {
			return t
		}
		if t, ok := (*base).(*Term); ok && t.w > ti.w && ti.w > 0 {
			return in.tt.Extract(t, ti.w-1, 0)
		}
	}
	if ti.k == kString {
		if s, ok := (*base).(Slice); ok {
			return in.sliceToStr(s)
		}
	}
	if _, ok := p.to.Underlying().(*types.Slice); ok {
		if s, ok := (*base).(Str); ok {
			return in.bytesToSlice(s)
		}
	}
	if at, ok := p.to.Underlying().(*types.Array); ok {
		if t, ok := (*base).(*Term); ok && in.tinfo(at.Elem()).w == 8 && int64(t.w) >= at.Len()*8 {
			r := make(Array, at.Len())
			for i := range r {
				r[i] = in.tt.Extract(t, uint8(i*8+7), uint8(i*8))
			}
			return r
		}
		if a, ok := (*base).(Array); ok && int(at.Len()) <= len(a) {
			return copyVal(a[:at.Len()])
		}
	}
	panic(unsupported{"cast load " + p.from.String() + " as " + p.to.String()})
}

func (in *Interp) castStore(p CastPtr, v Value) {
	base, ok := p.p.(*Value)
	if !ok || base == nil {
		panic(unsupported{"cast store"})
	}
	if t, ok := v.(*Term); ok {
		if a, ok := byteArray(*base); ok {
			if t.w == 0 {
				in.storeCell(&a[0], in.tt.Zext(t, 8))
				return
			}
			n := int(t.w) / 8
			if n <= len(a) {
				for i := 0; i < n; i++ {
					in.storeCell(&a[i], in.tt.Extract(t, uint8(i*8+7), uint8(i*8)))
				}
				return
			}
		}
		if o, ok := (*base).(*Term); ok && o.w == t.w {
			in.storeCell(base, t)
			return
		}
	}
	panic(unsupported{"cast store " + p.from.String() + " as " + p.to.String()})
}

// inBounds forks on 0 <= idx < n and returns the index as a term known to be
// in range; otherwise raises the run-time panic.
func (in *Interp) inBounds(idx *Term, signed bool, n int, what string) *Term {
	if idx.isC() {
		v := sx(idx.w, idx.c)
		if !signed {
			if idx.c >= uint64(n) {
				panic(in.rtErr(fmt.Sprintf("index out of range [%d] with length %d", idx.c, n)))
			}
			return idx
		}
		if v < 0 || v >= int64(n) {
			panic(in.rtErr(fmt.Sprintf("index out of range [%d] with length %d", v, n)))
		}
		return idx
	}
	if idx.w < 64 {
		if signed {
			idx = in.tt.Sext(idx, 64)
		} else {
			idx = in.tt.Zext(idx, 64)
		}
	}
	ok := in.tt.Ult(idx, in.tt.C(64, uint64(n)))
	if in.fork([]*Term{ok, in.tt.Not(ok)}) == 1 {
		panic(in.rtErr("index out of range with length " + fmt.Sprint(n)))
	}
	return idx
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (in *Interp) instr(fr *Frame, pi *pinstr) Value {
	switch ins := pi.ins.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = in.zero(ins.Type().(*types.Pointer).Elem())
		return p
	case *ssa.BinOp:
		return in.binop(ins.Op, ins.X.Type(), ins.Y.Type(), in.get(fr, &pi.ops[0]), in.get(fr, &pi.ops[1]))
	case *ssa.UnOp:
		x := in.get(fr, &pi.ops[0])
		switch ins.Op {
		case token.MUL:
			return in.load(x, ins.Type())
		case token.NOT:
			return in.tt.Not(x.(*Term))
		case token.SUB:
			t := x.(*Term)
			if in.tinfo(ins.Type()).k == kFloat {
				return in.tt.op2(OBXor, t.w, t, in.tt.C(t.w, 1<<(t.w-1)))
			}
			return in.tt.Neg(t)
		case token.XOR:
			return in.tt.BNot(x.(*Term))
		}
		panic(unsupported{"unop " + ins.Op.String()})
	case *ssa.ChangeInterface:
		return in.get(fr, &pi.ops[0])
	case *ssa.ChangeType:
		return in.get(fr, &pi.ops[0])
	case *ssa.Convert:
		return in.convert(ins.X.Type(), ins.Type(), in.get(fr, &pi.ops[0]))
	case *ssa.MultiConvert:
		return in.convert(ins.X.Type(), ins.Type(), in.get(fr, &pi.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, &pi.ops[0]).(Slice)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			panic(in.rtErr("cannot convert slice to array pointer"))
		}
		if s == nil {
			return (*Value)(nil)
		}
		p := new(Value)
		*p = Array(s[:n:n])
		return p
	case *ssa.MakeInterface:
		return Iface{t: ins.X.Type(), v: copyVal(in.get(fr, &pi.ops[0]))}
	case *ssa.Extract:
		return in.get(fr, &pi.ops[0]).(Tuple)[ins.Index]
	case *ssa.Field:
		return in.get(fr, &pi.ops[0]).(Struct)[ins.Field]
	case *ssa.FieldAddr:
		switch p := in.get(fr, &pi.ops[0]).(type) {
		case *Value:
			if p == nil {
				panic(in.rtErr("invalid memory address or nil pointer dereference"))
			}
			s, ok := (*p).(Struct)
			if !ok {
				panic(unsupported{fmt.Sprintf("field of %T in %s", *p, fr.fi.name)})
			}
			return &s[ins.Field]
		case SymPtr:
			i := in.concretize(p.idx)
			return &p.base[i].(Struct)[ins.Field]
		default:
			panic(unsupported{fmt.Sprintf("fieldaddr of %T", p)})
		}
	case *ssa.IndexAddr:
		x := in.get(fr, &pi.ops[0])
		idx := in.get(fr, &pi.ops[1]).(*Term)
		var base []Value
		switch x := x.(type) {
		case Slice:
			base = x
		case *Value:
			if x == nil {
				panic(in.rtErr("invalid memory address or nil pointer dereference"))
			}
			a, ok := (*x).(Array)
			if !ok {
				panic(unsupported{fmt.Sprintf("indexaddr of %T", *x)})
			}
			base = a
		case SymPtr:
			i := in.concretize(x.idx)
			base = x.base[i].(Array)
		default:
			panic(unsupported{fmt.Sprintf("indexaddr of %T", x)})
		}
		idx = in.inBounds(idx, isSigned(ins.Index.Type()), len(base), "")
		if idx.isC() {
			return &base[idx.c]
		}
		return SymPtr{base, idx}
	case *ssa.Index:
		x := in.get(fr, &pi.ops[0])
		idx := in.get(fr, &pi.ops[1]).(*Term)
		switch x := x.(type) {
		case Array:
			idx = in.inBounds(idx, isSigned(ins.Index.Type()), len(x), "")
			if idx.isC() {
				return x[idx.c]
			}
			return in.symLoad(SymPtr{x, idx})
		case Str:
			return in.strIndex(x, idx, isSigned(ins.Index.Type()))
		}
		panic(unsupported{fmt.Sprintf("index of %T", x)})
	case *ssa.Lookup:
		x := in.get(fr, &pi.ops[0])
		k := in.get(fr, &pi.ops[1])
		if s, ok := x.(Str); ok {
			return in.strIndex(s, k.(*Term), isSigned(ins.Index.Type()))
		}
		m, _ := x.(*MapObj)
		i := in.mapFind(m, k)
		var v Value
		if i >= 0 {
			v = copyVal(m.vals[i])
		} else {
			v = in.zero(ins.X.Type().Underlying().(*types.Map).Elem())
		}
		if ins.CommaOk {
			return Tuple{v, in.tt.Bool(i >= 0)}
		}
		return v
	case *ssa.MakeClosure:
		c := &Closure{fn: ins.Fn.(*ssa.Function)}
		for i := 1; i < len(pi.ops); i++ {
			c.env = append(c.env, in.get(fr, &pi.ops[i]))
		}
		return c
	case *ssa.MakeMap:
		return newMap(ins.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeChan:
		return Native{new(int)}
	case *ssa.MakeSlice:
		n := in.concInt(in.get(fr, &pi.ops[0]))
		c := in.concInt(in.get(fr, &pi.ops[1]))
		if n < 0 || n > 1<<22 {
			panic(in.rtErr("makeslice: len out of range"))
		}
		if c < n || c > 1<<22 {
			panic(in.rtErr("makeslice: cap out of range"))
		}
		return in.makeSlice(ins.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.Slice:
		return in.slice(fr, ins, pi)
	case *ssa.TypeAssert:
		return in.typeAssert(ins, in.get(fr, &pi.ops[0]).(Iface))
	case *ssa.Range:
		return in.rangeOf(in.get(fr, &pi.ops[0]))
	case *ssa.Next:
		return in.next(in.get(fr, &pi.ops[0]), ins)
	case *ssa.Phi:
		panic(unsupported{"phi"})
	}
	panic(unsupported{fmt.Sprintf("instruction %T", pi.ins)})
}

func (in *Interp) makeSlice(elem types.Type, n, c int) Slice {
	s := make(Slice, c)
	if in.tinfo(elem).k != kNone {
		z := in.zero(elem)
		for i := range s {
			s[i] = z
		}
	} else {
		for i := range s {
			s[i] = in.zero(elem)
		}
	}
	return s[:n]
}

func (in *Interp) strIndex(s Str, idx *Term, signed bool) Value {
	idx = in.inBounds(idx, signed, s.Len(), "")
	if idx.isC() {
		if s.sym != nil {
			return s.sym[idx.c]
		}
		return in.tt.bytes[s.s[idx.c]]
	}
	b := in.strBytes(s)
	vs := make([]Value, len(b))
	for i := range b {
		vs[i] = b[i]
	}
	return in.symLoad(SymPtr{vs, idx})
}

// concInt forces an integer to be concrete (forking over its values).
func (in *Interp) concInt(v Value) int {
	t := v.(*Term)
	if !t.isC() {
		return int(sx(t.w, in.concretize(t)))
	}
	return int(sx(t.w, t.c))
}

func (in *Interp) slice(fr *Frame, ins *ssa.Slice, pi *pinstr) Value {
	x := in.get(fr, &pi.ops[0])
	var lo, hi, max int
	lo, hi, max = 0, -1, -1
	hasHi, hasMax := false, false
	opI := 1
	next := func(v ssa.Value) Value {
		r := in.get(fr, &pi.ops[opI])
		opI++
		return r
	}
	// Operands() of Slice: X, Low, High, Max (nil entries kept)
	if len(pi.ops) != 4 {
		panic(unsupported{"slice operands"})
	}
	if ins.Low != nil {
		lo = in.concInt(next(ins.Low))
	} else {
		opI++
	}
	if ins.High != nil {
		hi = in.concInt(next(ins.High))
		hasHi = true
	} else {
		opI++
	}
	if ins.Max != nil {
		max = in.concInt(next(ins.Max))
		hasMax = true
	}
	var base []Value
	isNil := false
	switch x := x.(type) {
	case Str:
		n := x.Len()
		if !hasHi {
			hi = n
		}
		if hi < 0 || hi > n {
			panic(in.rtErr(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n)))
		}
		if lo < 0 || lo > hi {
			panic(in.rtErr(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)))
		}
		if x.sym != nil {
			return mkStr(x.sym[lo:hi])
		}
		return Str{s: x.s[lo:hi]}
	case Slice:
		base = x
		isNil = x == nil
	case *Value:
		if x == nil {
			panic(in.rtErr("invalid memory address or nil pointer dereference"))
		}
		a, ok := (*x).(Array)
		if !ok {
			panic(unsupported{"slice of non-array"})
		}
		base = a
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", x)})
	}
	c := cap(base)
	if !hasHi {
		hi = len(base)
	}
	if hasMax {
		if max < 0 || max > c {
			panic(in.rtErr(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", max, c)))
		}
		c = max
	}
	if hi < 0 || hi > c {
		panic(in.rtErr(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, c)))
	}
	if lo < 0 || lo > hi {
		panic(in.rtErr(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)))
	}
	if isNil {
		return Slice(nil)
	}
	return Slice(base[lo:hi:c])
}

func (in *Interp) implements(t types.Type, it *types.Interface, itT types.Type) bool {
	k := [2]types.Type{t, itT}
	if r, ok := in.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	in.implCache[k] = r
	return r
}

func (in *Interp) typeAssert(ins *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && in.implements(x.t, it, ins.AssertedType) {
			ok = true
			v = x
		}
	} else if x.t != nil && in.identical(x.t, ins.AssertedType) {
		ok = true
		v = copyVal(x.v)
	}
	if !ok {
		if !ins.CommaOk {
			d := "nil"
			if x.t != nil {
				d = x.t.String()
			}
			panic(in.rtErr(fmt.Sprintf("interface conversion: interface is %s, not %s", d, ins.AssertedType)))
		}
		v = in.zero(ins.AssertedType)
	}
	if ins.CommaOk {
		return Tuple{v, in.tt.Bool(ok)}
	}
	return v
}

type mapIter struct {
	m     *MapObj
	order []int
	pos   int
}
type strIter struct {
	s   Str
	pos int
}

func (in *Interp) rangeOf(x Value) Value {
	switch x := x.(type) {
	case *MapObj:
		it := &mapIter{m: x}
		if x != nil {
			for i := range x.keys {
				if x.live[i] {
					it.order = append(it.order, i)
				}
			}
			if in.mapPerm && len(it.order) > 1 {
				// iteration starts anywhere: small maps anew for each of
				// the first loops, larger ones at one place per path
				var k int
				if n := len(it.order); n <= 5 {
					if in.mapLoops < 5 {
						in.mapLoops++
						in.mapRot5 = in.choose(n)
					}
					k = in.mapRot5 % n
				} else {
					if in.mapRot < 0 {
						in.mapRot = in.choose(n)
					}
					k = in.mapRot % n
				}
				it.order = append(append([]int{}, it.order[k:]...), it.order[:k]...)
			}
		}
		return Native{it}
	case Str:
		return Native{&strIter{s: x}}
	}
	panic(unsupported{fmt.Sprintf("range over %T", x)})
}

func (in *Interp) next(x Value, ins *ssa.Next) Value {
	switch it := x.(Native).v.(type) {
	case *mapIter:
		for it.pos < len(it.order) {
			i := it.order[it.pos]
			p := it.pos
			it.pos++
			_ = p
			if i < len(it.m.live) && it.m.live[i] {
				return Tuple{in.tt.tr, copyVal(it.m.keys[i]), copyVal(it.m.vals[i])}
			}
		}
		tt := ins.Type().(*types.Tuple)
		return Tuple{in.tt.fa, in.zeroOrNil(tt.At(1).Type()), in.zeroOrNil(tt.At(2).Type())}
	case *strIter:
		if it.pos >= it.s.Len() {
			return Tuple{in.tt.fa, in.tt.C(64, 0), in.tt.C(32, 0)}
		}
		p := it.pos
		if it.s.sym == nil {
			r, n := utf8.DecodeRuneInString(it.s.s[p:])
			it.pos += n
			return Tuple{in.tt.tr, in.tt.C(64, uint64(p)), in.tt.C(32, uint64(uint32(r)))}
		}
		r, n := in.decodeRune(it.s.sym[p:])
		it.pos += n
		return Tuple{in.tt.tr, in.tt.C(64, uint64(p)), r}
	}
	panic(unsupported{"next"})
}

func (in *Interp) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return in.zero(t)
}

// decodeRune decodes one rune of symbolic bytes, forking on its class.
func (in *Interp) decodeRune(b []*Term) (*Term, int) {
	tt := in.tt
	c := b[0]
	lt := func(x *Term, v uint64) *Term { return tt.Ult(x, tt.C(8, v)) }
	rng := func(x *Term, lo, hi uint64) *Term {
		return tt.And(tt.Ule(tt.C(8, lo), x), tt.Ule(x, tt.C(8, hi)))
	}
	cont := func(i int) *Term {
		if i >= len(b) {
			return tt.fa
		}
		return rng(b[i], 0x80, 0xbf)
	}
	ascii := lt(c, 0x80)
	two := tt.And(rng(c, 0xc2, 0xdf), cont(1))
	var three, four *Term = tt.fa, tt.fa
	if len(b) >= 3 {
		three = tt.Or(tt.And(tt.Eq(c, tt.C(8, 0xe0)), rng(b[1], 0xa0, 0xbf)),
			tt.Or(tt.And(tt.Eq(c, tt.C(8, 0xed)), rng(b[1], 0x80, 0x9f)),
				tt.And(tt.And(rng(c, 0xe1, 0xef), tt.Not(tt.Eq(c, tt.C(8, 0xed)))), rng(b[1], 0x80, 0xbf))))
		three = tt.And(three, cont(2))
	}
	if len(b) >= 4 {
		four = tt.Or(tt.And(tt.Eq(c, tt.C(8, 0xf0)), rng(b[1], 0x90, 0xbf)),
			tt.Or(tt.And(tt.Eq(c, tt.C(8, 0xf4)), rng(b[1], 0x80, 0x8f)),
				tt.And(rng(c, 0xf1, 0xf3), rng(b[1], 0x80, 0xbf))))
		four = tt.And(four, tt.And(cont(2), cont(3)))
	}
	bad := tt.Not(tt.Or(ascii, tt.Or(two, tt.Or(three, four))))
	z := func(x *Term, m uint64) *Term { return tt.Zext(tt.BAnd(x, tt.C(8, m)), 32) }
	sh := func(x *Term, n uint64) *Term { return tt.shift(OShl, x, tt.C(32, n)) }
	switch in.fork([]*Term{ascii, two, three, four, bad}) {
	case 0:
		return tt.Zext(c, 32), 1
	case 1:
		return tt.BOr(sh(z(c, 0x1f), 6), z(b[1], 0x3f)), 2
	case 2:
		return tt.BOr(sh(z(c, 0x0f), 12), tt.BOr(sh(z(b[1], 0x3f), 6), z(b[2], 0x3f))), 3
	case 3:
		return tt.BOr(sh(z(c, 0x07), 18), tt.BOr(sh(z(b[1], 0x3f), 12), tt.BOr(sh(z(b[2], 0x3f), 6), z(b[3], 0x3f)))), 4
	}
	return tt.C(32, 0xfffd), 1
}

func (in *Interp) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	tt := in.tt
	switch op {
	case token.EQL:
		return in.eqT2(xt, yt, x, y)
	case token.NEQ:
		return tt.Not(in.eqT2(xt, yt, x, y))
	}
	ti := in.tinfo(xt)
	if ti.k == kString {
		a, b := x.(Str), y.(Str)
		switch op {
		case token.ADD:
			if a.sym == nil && b.sym == nil {
				return Str{s: a.s + b.s}
			}
			r := make([]*Term, 0, a.Len()+b.Len())
			r = append(r, in.strBytes(a)...)
			r = append(r, in.strBytes(b)...)
			return mkStr(r)
		case token.LSS:
			return in.strLess(a, b, false)
		case token.LEQ:
			return in.strLess(a, b, true)
		case token.GTR:
			return in.strLess(b, a, false)
		case token.GEQ:
			return in.strLess(b, a, true)
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported{fmt.Sprintf("binop %s %T %T", op, x, y)})
	}
	if ti.k == kFloat {
		switch op {
		case token.ADD:
			return tt.op2(OFAdd, a.w, a, b)
		case token.SUB:
			return tt.op2(OFSub, a.w, a, b)
		case token.MUL:
			return tt.op2(OFMul, a.w, a, b)
		case token.QUO:
			return tt.op2(OFDiv, a.w, a, b)
		case token.LSS:
			return tt.op2(OFLt, 0, a, b)
		case token.LEQ:
			return tt.op2(OFLe, 0, a, b)
		case token.GTR:
			return tt.op2(OFLt, 0, b, a)
		case token.GEQ:
			return tt.op2(OFLe, 0, b, a)
		}
		panic(unsupported{"float op " + op.String()})
	}
	signed := ti.k == kInt
	switch op {
	case token.ADD:
		return tt.Add(a, b)
	case token.SUB:
		return tt.Sub(a, b)
	case token.MUL:
		return tt.Mul(a, b)
	case token.QUO, token.REM:
		z := tt.Eq(b, tt.C(b.w, 0))
		if !z.isC() {
			if in.fork([]*Term{tt.Not(z), z}) == 1 {
				panic(in.rtErr("integer divide by zero"))
			}
		} else if z.c == 1 {
			panic(in.rtErr("integer divide by zero"))
		}
		var o Op
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.QUO:
			o = OUDiv
		case signed:
			o = OSRem
		default:
			o = OURem
		}
		return tt.op2(o, a.w, a, b)
	case token.AND:
		return tt.BAnd(a, b)
	case token.OR:
		return tt.BOr(a, b)
	case token.XOR:
		return tt.op2(OBXor, a.w, a, b)
	case token.AND_NOT:
		return tt.BAnd(a, tt.BNot(b))
	case token.SHL, token.SHR:
		// shift count: any integer type; out-of-range handled by width
		if in.tinfo(yt).k == kInt {
			neg := tt.Slt(b, tt.C(b.w, 0))
			if !neg.isC() {
				if in.fork([]*Term{tt.Not(neg), neg}) == 1 {
					panic(in.rtErr("negative shift amount"))
				}
			} else if neg.c == 1 {
				panic(in.rtErr("negative shift amount"))
			}
		}
		big := tt.Not(tt.Ult(b, tt.C(b.w, uint64(a.w))))
		if b.w < 8 || uint64(a.w) > mask(b.w) {
			big = tt.fa
		}
		var s *Term
		if b.w > a.w {
			s = tt.Extract(b, a.w-1, 0)
		} else {
			s = tt.Zext(b, a.w)
		}
		if op == token.SHL {
			return tt.Ite(big, tt.C(a.w, 0), tt.shift(OShl, a, s))
		}
		if signed {
			r := tt.shift(OAshr, a, s)
			return tt.Ite(big, tt.shift(OAshr, a, tt.C(a.w, uint64(a.w)-1)), r)
		}
		return tt.Ite(big, tt.C(a.w, 0), tt.shift(OLshr, a, s))
	case token.LSS:
		if signed {
			return tt.Slt(a, b)
		}
		return tt.Ult(a, b)
	case token.LEQ:
		if signed {
			return tt.Sle(a, b)
		}
		return tt.Ule(a, b)
	case token.GTR:
		if signed {
			return tt.Slt(b, a)
		}
		return tt.Ult(b, a)
	case token.GEQ:
		if signed {
			return tt.Sle(b, a)
		}
		return tt.Ule(b, a)
	}
	panic(unsupported{"binop " + op.String()})
}

func (in *Interp) eqT2(xt, yt types.Type, x, y Value) *Term {
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi {
		if i, ok := x.(Iface); ok {
			if _, isI := y.(Iface); !isI {
				if y == nil {
					return in.tt.Bool(i.t == nil)
				}
				if i.t == nil || !in.identical(i.t, yt) {
					return in.tt.fa
				}
				return in.eqT(yt, i.v, y)
			}
		}
	}
	if yi && !xi {
		return in.eqT2(yt, xt, y, x)
	}
	if y == nil {
		y = in.zero(xt)
	}
	if x == nil {
		x = in.zero(yt)
	}
	return in.eqT(xt, x, y)
}

func (in *Interp) convert(from, to types.Type, x Value) Value {
	tt := in.tt
	fi, ti := in.tinfo(from), in.tinfo(to)
	// unsafe pointers
	if ti.k == kUnsafe {
		if fi.k == kUnsafe {
			return x
		}
		if pt, ok := from.Underlying().(*types.Pointer); ok {
			if c, ok := x.(CastPtr); ok {
				return UPtr{c.p, c.from}
			}
			return UPtr{x, pt.Elem()}
		}
		panic(unsupported{"convert " + from.String() + " to unsafe.Pointer"})
	}
	if fi.k == kUnsafe {
		u := x.(UPtr)
		if pt, ok := to.Underlying().(*types.Pointer); ok {
			if isNilPtr(u.p) {
				return (*Value)(nil)
			}
			if types.Identical(u.t.Underlying(), pt.Elem().Underlying()) {
				return u.p
			}
			return CastPtr{u.p, u.t, pt.Elem()}
		}
		panic(unsupported{"convert unsafe.Pointer to " + to.String()})
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return x
	}
	// strings and slices
	if ti.k == kString {
		switch v := x.(type) {
		case Str:
			return v
		case Slice:
			el := from.Underlying().(*types.Slice).Elem()
			if in.tinfo(el).w == 8 {
				return in.sliceToStr(v)
			}
			// []rune
			r := Str{}
			for _, c := range v {
				t := c.(*Term)
				s := in.runeStr(t)
				r = in.binop(token.ADD, to, to, r, s).(Str)
			}
			return r
		case *Term:
			return in.runeStr(v)
		}
	}
	if st, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := x.(Str); ok {
			if in.tinfo(st.Elem()).w == 8 {
				return in.bytesToSlice(s)
			}
			r := Slice{}
			it := Native{&strIter{s: s}}
			for {
				t := in.next(it, nil2next).(Tuple)
				if t[0].(*Term).c == 0 {
					return r
				}
				r = append(r, t[2])
			}
		}
		return x
	}
	v, ok := x.(*Term)
	if !ok {
		panic(unsupported{"convert " + from.String() + " to " + to.String()})
	}
	isInt := func(k numKind) bool { return k == kInt || k == kUint }
	switch {
	case isInt(fi.k) && isInt(ti.k):
		switch {
		case ti.w == fi.w:
			return v
		case ti.w < fi.w:
			return tt.Extract(v, ti.w-1, 0)
		case fi.k == kInt:
			return tt.Sext(v, ti.w)
		default:
			return tt.Zext(v, ti.w)
		}
	case isInt(fi.k) && ti.k == kFloat:
		if fi.k == kInt {
			return tt.op1(OS2F, ti.w, 0, v)
		}
		return tt.op1(OU2F, ti.w, 0, v)
	case fi.k == kFloat && isInt(ti.k):
		return in.f2i(v, fi, ti)
	case fi.k == kFloat && ti.k == kFloat:
		if fi.w == ti.w {
			return v
		}
		return tt.op1(OF2F, ti.w, 0, v)
	case fi.k == kBool && ti.k == kBool:
		return v
	}
	panic(unsupported{"convert " + from.String() + " to " + to.String()})
}

var nil2next *ssa.Next

func (in *Interp) runeStr(t *Term) Str {
	tt := in.tt
	if t.isC() {
		return Str{s: string(rune(sx(t.w, t.c)))}
	}
	if t.w > 32 {
		// values outside int32 are U+FFFD
		ok := tt.Ult(t, tt.C(t.w, 0x110000))
		if in.fork([]*Term{ok, tt.Not(ok)}) == 1 {
			return Str{s: "\uFFFD"}
		}
		t = tt.Extract(t, 31, 0)
	} else if t.w < 32 {
		t = tt.Zext(t, 32)
	}
	c := func(v uint64) *Term { return tt.C(32, v) }
	one := tt.Ult(t, c(0x80))
	two := tt.And(tt.Ule(c(0x80), t), tt.Ult(t, c(0x800)))
	sur := tt.And(tt.Ule(c(0xd800), t), tt.Ult(t, c(0xe000)))
	three := tt.And(tt.And(tt.Ule(c(0x800), t), tt.Ult(t, c(0x10000))), tt.Not(sur))
	four := tt.And(tt.Ule(c(0x10000), t), tt.Ult(t, c(0x110000)))
	badc := tt.Or(sur, tt.Ule(c(0x110000), t))
	part := func(sh uint8, m, or uint64) *Term {
		return tt.BOr(tt.BAnd(tt.Extract(t, sh+7, sh), tt.C(8, m)), tt.C(8, or))
	}
	switch in.fork([]*Term{one, two, three, four, badc}) {
	case 0:
		return mkStr([]*Term{tt.Extract(t, 7, 0)})
	case 1:
		return mkStr([]*Term{part(6, 0x1f, 0xc0), part(0, 0x3f, 0x80)})
	case 2:
		return mkStr([]*Term{part(12, 0x0f, 0xe0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)})
	case 3:
		return mkStr([]*Term{part(18, 0x07, 0xf0), part(12, 0x3f, 0x80), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)})
	}
	return Str{s: "\uFFFD"}
}

// f2i models amd64 float to integer conversion.
func (in *Interp) f2i(v *Term, fi, ti tinfo) Value {
	tt := in.tt
	if v.isC() {
		f := fv(fi.w, v.c)
		var r uint64
		if ti.k == kInt {
			switch ti.w {
			case 64:
				r = uint64(int64(f))
			case 32:
				r = uint64(int32(f))
			case 16:
				r = uint64(int16(f))
			case 8:
				r = uint64(int8(f))
			}
		} else {
			switch ti.w {
			case 64:
				r = uint64(f)
			case 32:
				r = uint64(uint32(f))
			case 16:
				r = uint64(uint16(f))
			case 8:
				r = uint64(uint8(f))
			}
		}
		return tt.C(ti.w, r)
	}
	if fi.w == 32 {
		v = tt.op1(OF2F, 64, 0, v)
	}
	if ti.w != 64 {
		// via int64, truncated (amd64 behaviour for in-range int64 values)
		t := in.f2i(v, tinfo{kFloat, 64}, tinfo{kInt, 64}).(*Term)
		return tt.Extract(t, ti.w-1, 0)
	}
	two63 := tt.C(64, b64(9223372036854775808.0))
	mtwo63 := tt.C(64, b64(-9223372036854775808.0))
	inS := tt.And(tt.op2(OFLe, 0, mtwo63, v), tt.op2(OFLt, 0, v, two63))
	minI := tt.C(64, uint64(1)<<63)
	cvt := func(x *Term, ok *Term) *Term {
		return tt.Ite(ok, tt.op1(OF2S, 64, 0, x), minI)
	}
	if ti.k == kInt {
		return cvt(v, inS)
	}
	// uint64: x < 2^63 -> cvttsd2si(x), else cvttsd2si(x-2^63) ^ 1<<63
	lt := tt.op2(OFLt, 0, v, two63)
	d := tt.op2(OFSub, 64, v, two63)
	inD := tt.And(tt.op2(OFLe, 0, mtwo63, d), tt.op2(OFLt, 0, d, two63))
	hi := tt.op2(OBXor, 64, cvt(d, inD), minI)
	return tt.Ite(lt, cvt(v, inS), hi)
}

var _ = math.Pi

func (in *Interp) builtin(fr *Frame, b *ssa.Builtin, args []Value, site *ssa.Call) Value {
	tt := in.tt
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return tt.C(64, uint64(x.Len()))
		case Slice:
			return tt.C(64, uint64(len(x)))
		case *MapObj:
			if x == nil {
				return tt.C(64, 0)
			}
			return tt.C(64, uint64(x.n))
		case Array:
			return tt.C(64, uint64(len(x)))
		case *Value:
			return tt.C(64, uint64(len((*x).(Array))))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return tt.C(64, uint64(cap(x)))
		case Array:
			return tt.C(64, uint64(len(x)))
		case *Value:
			return tt.C(64, uint64(len((*x).(Array))))
		}
	case "append":
		var add []Value
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case Str:
			add = in.bytesToSlice(y)
		case Slice:
			add = y
		}
		var et types.Type
		if sig, ok := b.Type().(*types.Signature); ok {
			et = sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		}
		return in.appendSlice(s, add, et)
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Str:
			src = in.bytesToSlice(y)
		case Slice:
			src = y
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			in.storeCell(&dst[i], tmp[i])
		}
		return tt.C(64, uint64(n))
	case "delete":
		m, _ := args[0].(*MapObj)
		if m != nil {
			in.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				for i := range x.keys {
					if x.live[i] {
						in.mapDelete(x, x.keys[i])
					}
				}
			}
		case Slice:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				in.storeCell(&x[i], in.zero(et))
			}
		}
		return nil
	case "min", "max":
		ti := in.tinfo(b.Type().(*types.Signature).Params().At(0).Type())
		if ti.k != kInt && ti.k != kUint {
			panic(unsupported{"min/max"})
		}
		r := args[0].(*Term)
		for _, a := range args[1:] {
			x := a.(*Term)
			var lt *Term
			if ti.k == kInt {
				lt = tt.Slt(x, r)
			} else {
				lt = tt.Ult(x, r)
			}
			if b.Name() == "max" {
				if ti.k == kInt {
					lt = tt.Slt(r, x)
				} else {
					lt = tt.Ult(r, x)
				}
			}
			r = tt.Ite(lt, x, r)
		}
		return r
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		// fr is the deferred function's frame; its caller must be panicking
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			v := fr.caller.panicV.(goPanic).v
			fr.caller.panicking = false
			fr.caller.panicV = nil
			if i, ok := v.(Iface); ok {
				return i
			}
			return Iface{}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			panic(in.rtErr("invalid memory address or nil pointer dereference"))
		}
		return args[0]
	case "String": // unsafe.String
		n := in.concInt(args[1])
		if n == 0 {
			return Str{}
		}
		if d, ok := args[0].(DataPtr); ok && n <= len(d.s) {
			return in.sliceToStr(Slice(d.s[:n]))
		}
	case "Slice":
		n := in.concInt(args[1])
		if d, ok := args[0].(DataPtr); ok && n <= cap(d.s) {
			return Slice(d.s[:n])
		}
	case "Sizeof":
		if site != nil {
			return in.i64(int(in.sizes.Sizeof(site.Call.Args[0].Type())))
		}
	case "SliceData":
		return DataPtr{args[0].(Slice)}
	case "StringData":
		return DataPtr{in.bytesToSlice(args[0].(Str))}
	}
	panic(unsupported{"builtin " + b.Name()})
}

func (in *Interp) appendSlice(s Slice, add []Value, et types.Type) Slice {
	n := len(add)
	if n == 0 {
		return s
	}
	tmp := make([]Value, n)
	for i := range add {
		tmp[i] = copyVal(add[i])
	}
	if len(s)+n <= cap(s) {
		r := s[:len(s)+n]
		for i := 0; i < n; i++ {
			in.storeCell(&r[len(s)+i], tmp[i])
		}
		return r
	}
	c := in.growCap(len(s), cap(s), n, et)
	r := make(Slice, len(s)+n, c)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	copy(r[len(s):], tmp)
	if c > len(r) {
		full := r[:c]
		if in.tinfo(et).k != kNone {
			z := in.zero(et)
			for i := len(r); i < c; i++ {
				full[i] = z
			}
		} else {
			for i := len(r); i < c; i++ {
				full[i] = in.zero(et)
			}
		}
	}
	return r
}
