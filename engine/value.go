package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Str is a string: concrete (sym nil) or with per-byte terms.
type Str struct {
	s   string
	sym []*Term
}

func (s Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

// Iface is an interface value; t nil means nil interface.
type Iface struct {
	t types.Type
	v Value
}

// SymPtr is a pointer to base[idx] with a symbolic (in-range) index.
type SymPtr struct {
	base []Value
	idx  *Term
}

// CastPtr is a pointer reinterpreted through unsafe.Pointer.
type CastPtr struct {
	p    Value
	from types.Type
	to   types.Type
}

// UPtr is an unsafe.Pointer.
type UPtr struct {
	p Value
	t types.Type
}

// DataPtr is the result of unsafe.SliceData / StringData.
type DataPtr struct{ s []Value }

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// Native wraps a host object behind an opaque pointer or value.
type Native struct{ v interface{} }

type MapObj struct {
	kt   types.Type
	keys []Value
	vals []Value
	live []bool
	idx  map[string]int
	n    int
	symK bool // some key is symbolic
}

type bad struct{}

type numKind uint8

const (
	kNone numKind = iota
	kBool
	kInt
	kUint
	kFloat
	kString
	kUnsafe
)

type tinfo struct {
	k numKind
	w uint8
}

func basicInfo(t types.Type) tinfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return tinfo{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return tinfo{kBool, 0}
	case types.Int, types.Int64, types.UntypedInt:
		return tinfo{kInt, 64}
	case types.Int8:
		return tinfo{kInt, 8}
	case types.Int16:
		return tinfo{kInt, 16}
	case types.Int32, types.UntypedRune:
		return tinfo{kInt, 32}
	case types.Uint, types.Uint64, types.Uintptr:
		return tinfo{kUint, 64}
	case types.Uint8:
		return tinfo{kUint, 8}
	case types.Uint16:
		return tinfo{kUint, 16}
	case types.Uint32:
		return tinfo{kUint, 32}
	case types.Float64, types.UntypedFloat:
		return tinfo{kFloat, 64}
	case types.Float32:
		return tinfo{kFloat, 32}
	case types.String, types.UntypedString:
		return tinfo{kString, 0}
	case types.UnsafePointer:
		return tinfo{kUnsafe, 0}
	}
	return tinfo{}
}

func (in *Interp) tinfo(t types.Type) tinfo {
	if i, ok := in.tinfos[t]; ok {
		return i
	}
	i := basicInfo(t)
	in.tinfos[t] = i
	return i
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := in.tinfo(t)
		switch i.k {
		case kBool, kInt, kUint, kFloat:
			return in.tt.C(i.w, 0)
		case kString:
			return Str{}
		case kUnsafe:
			return UPtr{}
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		panic(unsupported{"zero of " + t.String()})
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return Native{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		e := u.Elem()
		if in.tinfo(e).k != kNone {
			z := in.zero(e)
			for i := range a {
				a[i] = z
			}
		} else {
			for i := range a {
				a[i] = in.zero(e)
			}
		}
		return a
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = in.zero(u.At(i).Type())
		}
		return s
	}
	panic(unsupported{"zero of " + t.String()})
}

func (in *Interp) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	t := c.Type()
	i := in.tinfo(t)
	switch i.k {
	case kBool:
		return in.tt.Bool(constant.BoolVal(c.Value))
	case kInt:
		return in.tt.C(i.w, uint64(c.Int64()))
	case kUint:
		return in.tt.C(i.w, c.Uint64())
	case kFloat:
		if i.w == 32 {
			f, _ := constant.Float32Val(c.Value)
			return in.tt.C(32, fb(32, float64(f)))
		}
		f, _ := constant.Float64Val(c.Value)
		return in.tt.C(64, b64(f))
	case kString:
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		return Str{s: string(rune(c.Int64()))}
	}
	panic(unsupported{"const " + c.String()})
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	}
	return v
}

type trailEnt struct {
	p   *Value
	old Value
	f   func()
}

func (in *Interp) storeCell(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(v) {
			for i := range v {
				in.storeCell(&old[i], v[i])
			}
			return
		}
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(v) {
			for i := range v {
				in.storeCell(&old[i], v[i])
			}
			return
		}
	}
	if in.watch != nil {
		in.noteStore(p)
	}
	in.trail = append(in.trail, trailEnt{p: p, old: *p})
	*p = copyVal(v)
}

func (in *Interp) undoTo(n int) {
	for i := len(in.trail) - 1; i >= n; i-- {
		e := in.trail[i]
		if e.f != nil {
			e.f()
		} else {
			*e.p = e.old
		}
		in.trail[i] = trailEnt{}
	}
	in.trail = in.trail[:n]
}

// strBytes gives the bytes of a string as terms.
func (in *Interp) strBytes(s Str) []*Term {
	if s.sym != nil {
		return s.sym
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = in.tt.bytes[s.s[i]]
	}
	return r
}

// mkStr builds a string, concrete if all bytes are.
func mkStr(b []*Term) Str {
	for _, x := range b {
		if !x.isC() {
			return Str{sym: b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.c)
	}
	return Str{s: string(bs)}
}

func (in *Interp) sliceToStr(s Slice) Str {
	b := make([]*Term, len(s))
	for i, x := range s {
		b[i] = x.(*Term)
	}
	return mkStr(b)
}

func (in *Interp) bytesToSlice(s Str) Slice {
	n := s.Len()
	r := make(Slice, n)
	if s.sym != nil {
		for i, b := range s.sym {
			r[i] = b
		}
		return r
	}
	for i := 0; i < n; i++ {
		r[i] = in.tt.bytes[s.s[i]]
	}
	return r
}

func (in *Interp) strEq(a, b Str) *Term {
	if a.Len() != b.Len() {
		return in.tt.fa
	}
	if a.sym == nil && b.sym == nil {
		return in.tt.Bool(a.s == b.s)
	}
	x, y := in.strBytes(a), in.strBytes(b)
	r := in.tt.tr
	for i := range x {
		r = in.tt.And(r, in.tt.Eq(x[i], y[i]))
		if r.isC() && r.c == 0 {
			return r
		}
	}
	return r
}

// strLess is a<b (or a<=b when orEq) lexicographically.
func (in *Interp) strLess(a, b Str, orEq bool) *Term {
	if a.sym == nil && b.sym == nil {
		if orEq {
			return in.tt.Bool(a.s <= b.s)
		}
		return in.tt.Bool(a.s < b.s)
	}
	x, y := in.strBytes(a), in.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	var r *Term
	if orEq {
		r = in.tt.Bool(len(x) <= len(y))
	} else {
		r = in.tt.Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		r = in.tt.Or(in.tt.Ult(x[i], y[i]), in.tt.And(in.tt.Eq(x[i], y[i]), r))
	}
	return r
}

// eq is Go's == on two values of static type t.
func (in *Interp) eq(x, y Value) *Term {
	tt := in.tt
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			panic(unsupported{fmt.Sprintf("eq %T %T", x, y)})
		}
		return tt.Eq(a, b)
	case Str:
		return in.strEq(a, y.(Str))
	case *Value:
		switch b := y.(type) {
		case *Value:
			return tt.Bool(a == b)
		}
		return tt.fa
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("eq iface %T", y)})
		}
		if a.t == nil || b.t == nil {
			return tt.Bool(a.t == nil && b.t == nil)
		}
		if !in.identical(a.t, b.t) {
			return tt.fa
		}
		if !types.Comparable(a.t) {
			panic(in.rtErr("comparing uncomparable type " + a.t.String()))
		}
		return in.eqT(a.t, a.v, b.v)
	case Struct:
		b := y.(Struct)
		r := tt.tr
		for i := range a {
			r = tt.And(r, in.eq(a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		r := tt.tr
		for i := range a {
			r = tt.And(r, in.eq(a[i], b[i]))
		}
		return r
	case *MapObj:
		b, _ := y.(*MapObj)
		return tt.Bool(a == b)
	case Slice: // only comparisons with nil
		b, _ := y.(Slice)
		if a == nil || b == nil {
			return tt.Bool(a == nil && b == nil)
		}
	case *Closure:
		if a == nil {
			switch b := y.(type) {
			case *Closure:
				return tt.Bool(b == nil)
			}
			return tt.fa
		}
		return tt.fa
	case *ssa.Function, *ssa.Builtin:
		return tt.fa
	case UPtr:
		b := y.(UPtr)
		return tt.Bool(a.p == b.p || (isNilPtr(a.p) && isNilPtr(b.p)))
	case Native:
		b, ok := y.(Native)
		if ok {
			return tt.Bool(a.v == b.v)
		}
		return tt.fa
	case SymPtr, CastPtr:
		return tt.fa
	}
	panic(unsupported{fmt.Sprintf("eq %T %T", x, y)})
}

func isNilPtr(v Value) bool {
	if v == nil {
		return true
	}
	p, ok := v.(*Value)
	return ok && p == nil
}

// eqT is eq with float awareness.
func (in *Interp) eqT(t types.Type, x, y Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if in.tinfo(t).k == kFloat {
			return in.tt.op2(OFEq, 0, x.(*Term), y.(*Term))
		}
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		r := in.tt.tr
		for i := range a {
			r = in.tt.And(r, in.eqT(u.Field(i).Type(), a[i], b[i]))
		}
		return r
	case *types.Array:
		a, b := x.(Array), y.(Array)
		r := in.tt.tr
		for i := range a {
			r = in.tt.And(r, in.eqT(u.Elem(), a[i], b[i]))
		}
		return r
	}
	return in.eq(x, y)
}

func (in *Interp) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	return types.Identical(a, b)
}

// keyString gives a canonical form of a fully concrete map key.
func (in *Interp) keyString(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isC() {
			return fmt.Sprintf("t%d", v.c), true
		}
		return "", false
	case Str:
		if v.sym == nil {
			return "s" + v.s, true
		}
		return "", false
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		if !types.Comparable(v.t) {
			panic(in.rtErr("hash of unhashable type " + v.t.String()))
		}
		k, ok := in.keyString(v.v)
		return "i" + v.t.String() + ":" + k, ok
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case Struct:
		var b strings.Builder
		for _, x := range v {
			k, ok := in.keyString(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s,", len(k), k)
		}
		return "S" + b.String(), true
	case Array:
		var b strings.Builder
		for _, x := range v {
			k, ok := in.keyString(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s,", len(k), k)
		}
		return "A" + b.String(), true
	case Native:
		return fmt.Sprintf("n%p", v.v), true
	}
	panic(unsupported{fmt.Sprintf("map key %T", v)})
}

// mapFind returns the index of the entry with key k, or -1; forks if needed.
func (in *Interp) mapFind(m *MapObj, k Value) int {
	if m == nil || m.n == 0 {
		return -1
	}
	ks, ok := in.keyString(k)
	if ok && !m.symK {
		if i, ok := m.idx[ks]; ok && m.live[i] {
			return i
		}
		return -1
	}
	var idxs []int
	var conds []*Term
	none := in.tt.tr
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		c := in.eqT(m.kt, m.keys[i], k)
		if c.isC() && c.c == 0 {
			continue
		}
		idxs = append(idxs, i)
		conds = append(conds, c)
		none = in.tt.And(none, in.tt.Not(c))
	}
	idxs = append(idxs, -1)
	conds = append(conds, none)
	return idxs[in.fork(conds)]
}

func (in *Interp) mapSet(m *MapObj, k, v Value) {
	if m == nil {
		panic(in.plainErr("assignment to entry in nil map"))
	}
	if in.watch != nil {
		in.noteMapStore(m)
	}
	i := in.mapFind(m, k)
	if i >= 0 {
		old := m.vals[i]
		in.trail = append(in.trail, trailEnt{f: func() { m.vals[i] = old }})
		m.vals[i] = copyVal(v)
		return
	}
	ks, ok := in.keyString(k)
	oldSym := m.symK
	if !ok {
		m.symK = true
	}
	i = len(m.keys)
	var prev int
	var had bool
	if ok {
		prev, had = m.idx[ks]
		m.idx[ks] = i
	}
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, copyVal(v))
	m.live = append(m.live, true)
	m.n++
	in.trail = append(in.trail, trailEnt{f: func() {
		m.keys, m.vals, m.live = m.keys[:i], m.vals[:i], m.live[:i]
		m.n--
		m.symK = oldSym
		if ok {
			if had {
				m.idx[ks] = prev
			} else {
				delete(m.idx, ks)
			}
		}
	}})
}

func (in *Interp) mapDelete(m *MapObj, k Value) {
	i := in.mapFind(m, k)
	if i < 0 {
		return
	}
	if in.watch != nil {
		in.noteMapStore(m)
	}
	m.live[i] = false
	m.n--
	in.trail = append(in.trail, trailEnt{f: func() { m.live[i] = true; m.n++ }})
}

func newMap(kt types.Type) *MapObj { return &MapObj{kt: kt, idx: map[string]int{}} }

// growCap mirrors append's capacity growth using a real append on elements of
// the same size.
func (in *Interp) growCap(oldLen, oldCap, n int, elem types.Type) int {
	size := in.sizes.Sizeof(elem)
	hasPtr := in.tinfo(elem).k == kNone || in.tinfo(elem).k == kString
	k := [4]int{oldLen, oldCap<<1 | btoi(hasPtr), n, int(size)}
	if c, ok := in.growCache[k]; ok {
		return c
	}
	var et reflect.Type
	if hasPtr && size%8 == 0 && size > 0 {
		et = reflect.ArrayOf(int(size/8), reflect.TypeOf((*int)(nil)))
	} else {
		et = reflect.ArrayOf(int(size), reflect.TypeOf(byte(0)))
	}
	st := reflect.SliceOf(et)
	a := reflect.MakeSlice(st, oldLen, oldCap)
	b := reflect.MakeSlice(st, n, n)
	c := reflect.AppendSlice(a, b).Cap()
	in.growCache[k] = c
	return c
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
