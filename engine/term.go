package main

import (
	"fmt"
	"math"
	"math/bits"
)

// Op is a term constructor.  Bit-vector terms have width w in 1..64, Bool
// terms have width 0.  Floating point values are carried as bit patterns.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // c = hi<<8|lo
	OZext
	OSext
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFSqrt
	OFRound // c: 0 RNE 1 RNA 2 RTP 3 RTN 4 RTZ
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OS2F  // signed int (any width) to float w
	OU2F  // unsigned int to float w
	OF2S  // float to signed int width w, RTZ (in range only)
	OF2U  // float to unsigned int width w, RTZ (in range only)
	OF2F  // float resize
	OFCnv // placeholder
)

type Term struct {
	op   Op
	w    uint8
	n    uint8
	c    uint64
	a    [3]*Term
	id   uint32 // 0 for un-interned constants
	idx  int32  // variable index for OVar
	name string
	sup  *supp
	set  *[4]uint64 // cached satisfying set of a Bool term over one 8-bit var
	tab  *[256]uint64
}

// supp is the set of variable indices a term depends on.
type supp struct {
	vars []int32
}

var noSupp = &supp{}

type tkey struct {
	op         Op
	w          uint8
	c          uint64
	a0, a1, a2 *Term
}

// TermTable hash-conses terms for one worker.
type TermTable struct {
	tab    map[tkey]*Term
	next   uint32
	bytes  [256]*Term
	small  [1280]*Term
	tr, fa *Term
	varBy  map[vkey]*Term
}

func NewTermTable() *TermTable {
	t := &TermTable{tab: map[tkey]*Term{}, next: 1, varBy: map[vkey]*Term{}}
	t.fa = t.cint(0, 0)
	t.tr = t.cint(0, 1)
	for i := range t.bytes {
		t.bytes[i] = t.cint(8, uint64(i))
	}
	for i := range t.small {
		t.small[i] = t.cint(64, uint64(int64(i-128)))
	}
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return 1<<w - 1
}

func sx(w uint8, v uint64) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// cint interns a constant.
func (t *TermTable) cint(w uint8, v uint64) *Term {
	v &= mask(w)
	k := tkey{op: OConst, w: w, c: v}
	if x, ok := t.tab[k]; ok {
		return x
	}
	x := &Term{op: OConst, w: w, c: v, id: t.next, sup: noSupp}
	t.next++
	t.tab[k] = x
	return x
}

// C makes a constant (not necessarily interned).
func (t *TermTable) C(w uint8, v uint64) *Term {
	v &= mask(w)
	switch w {
	case 0:
		if v == 1 {
			return t.tr
		}
		return t.fa
	case 8:
		return t.bytes[v]
	case 64:
		if i := int64(v) + 128; i >= 0 && i < 1280 {
			return t.small[i]
		}
	}
	return &Term{op: OConst, w: w, c: v, sup: noSupp}
}

func (t *TermTable) Bool(b bool) *Term {
	if b {
		return t.tr
	}
	return t.fa
}

func (x *Term) isC() bool { return x.op == OConst }

// Var is the variable with the given path ordinal and width.
func (t *TermTable) Var(ord int, w uint8) *Term {
	k := vkey{ord, w}
	if v, ok := t.varBy[k]; ok {
		return v
	}
	v := &Term{op: OVar, w: w, name: fmt.Sprintf("v%d_%d", ord, w), id: t.next, idx: int32(ord)}
	v.sup = &supp{[]int32{v.idx}}
	t.next++
	t.varBy[k] = v
	return v
}

type vkey struct {
	ord int
	w   uint8
}

func union(a, b *supp) *supp {
	if a == b || len(b.vars) == 0 {
		return a
	}
	if len(a.vars) == 0 {
		return b
	}
	if len(a.vars) == 1 && len(b.vars) == 1 && a.vars[0] == b.vars[0] {
		return a
	}
	r := make([]int32, 0, len(a.vars)+len(b.vars))
	i, j := 0, 0
	for i < len(a.vars) || j < len(b.vars) {
		if j >= len(b.vars) || (i < len(a.vars) && a.vars[i] < b.vars[j]) {
			r = append(r, a.vars[i])
			i++
		} else if i >= len(a.vars) || b.vars[j] < a.vars[i] {
			r = append(r, b.vars[j])
			j++
		} else {
			r = append(r, a.vars[i])
			i++
			j++
		}
	}
	if len(r) == len(a.vars) {
		return a
	}
	if len(r) == len(b.vars) {
		return b
	}
	return &supp{r}
}

func (t *TermTable) intern(x *Term) *Term {
	if x.id == 0 {
		return t.cint(x.w, x.c)
	}
	return x
}

func (t *TermTable) mk(op Op, w uint8, c uint64, args ...*Term) *Term {
	k := tkey{op: op, w: w, c: c}
	for i, a := range args {
		a = t.intern(a)
		switch i {
		case 0:
			k.a0 = a
		case 1:
			k.a1 = a
		case 2:
			k.a2 = a
		}
	}
	if x, ok := t.tab[k]; ok {
		return x
	}
	x := &Term{op: op, w: w, c: c, n: uint8(len(args)), a: [3]*Term{k.a0, k.a1, k.a2}, id: t.next}
	t.next++
	s := noSupp
	for i := 0; i < len(args); i++ {
		s = union(s, x.a[i].sup)
	}
	x.sup = s
	t.tab[k] = x
	return x
}

func f64(v uint64) float64 { return math.Float64frombits(v) }
func b64(f float64) uint64 { return math.Float64bits(f) }
func fv(w uint8, v uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fb(w uint8, f float64) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

// evalOp computes one operator on concrete arguments; aw is the width of the
// first argument.
func evalOp(op Op, w uint8, c uint64, aw, bw uint8, x, y, z uint64) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	m := mask(w)
	switch op {
	case ONot:
		return x ^ 1
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OEq:
		return b2u(x == y)
	case OIte:
		if x == 1 {
			return y
		}
		return z
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		if y == 0 {
			if sx(w, x) < 0 {
				return 1
			}
			return m
		}
		if sx(w, y) == -1 {
			return (-x) & m
		}
		return uint64(sx(w, x)/sx(w, y)) & m
	case OSRem:
		if y == 0 {
			return x
		}
		if sx(w, y) == -1 {
			return 0
		}
		return uint64(sx(w, x)%sx(w, y)) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OBNot:
		return ^x & m
	case ONeg:
		return -x & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(w, x)>>y) & m
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sx(aw, x) < sx(aw, y))
	case OSle:
		return b2u(sx(aw, x) <= sx(aw, y))
	case OConcat:
		return (x<<bw | y) & m
	case OExtract:
		return x >> (c & 0xff) & m
	case OZext:
		return x
	case OSext:
		return uint64(sx(aw, x)) & m
	case OFAdd, OFSub, OFMul, OFDiv:
		if w == 32 {
			a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
			var r float32
			switch op {
			case OFAdd:
				r = a + b
			case OFSub:
				r = a - b
			case OFMul:
				r = a * b
			case OFDiv:
				r = a / b
			}
			return uint64(math.Float32bits(r))
		}
		a, b := f64(x), f64(y)
		var r float64
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		}
		return b64(r)
	case OFSqrt:
		return fb(w, math.Sqrt(fv(w, x)))
	case OFRound:
		f := fv(w, x)
		switch c {
		case 0:
			f = math.RoundToEven(f)
		case 1:
			f = math.Round(f)
		case 2:
			f = math.Ceil(f)
		case 3:
			f = math.Floor(f)
		case 4:
			f = math.Trunc(f)
		}
		return fb(w, f)
	case OFLt:
		return b2u(fv(aw, x) < fv(aw, y))
	case OFLe:
		return b2u(fv(aw, x) <= fv(aw, y))
	case OFEq:
		return b2u(fv(aw, x) == fv(aw, y))
	case OFIsNaN:
		return b2u(math.IsNaN(fv(aw, x)))
	case OS2F:
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(aw, x))))
		}
		return b64(float64(sx(aw, x)))
	case OU2F:
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return b64(float64(x))
	case OF2S:
		return uint64(int64(fv(aw, x))) & m
	case OF2U:
		return uint64(fv(aw, x)) & m
	case OF2F:
		return fb(w, fv(aw, x))
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

func (t *TermTable) op1(op Op, w uint8, c uint64, x *Term) *Term {
	if x.isC() {
		return t.C(w, evalOp(op, w, c, x.w, 0, x.c, 0, 0))
	}
	return t.mk(op, w, c, x)
}
func (t *TermTable) op2(op Op, w uint8, x, y *Term) *Term {
	if x.isC() && y.isC() {
		return t.C(w, evalOp(op, w, 0, x.w, y.w, x.c, y.c, 0))
	}
	switch op {
	case OFLt, OFLe, OFEq:
		// floats that stand for small integers compare like these
		if p, q := t.whole(x), t.whole(y); p != nil && q != nil {
			switch op {
			case OFLt:
				return t.Slt(p, q)
			case OFLe:
				return t.Sle(p, q)
			}
			return t.Eq(p, q)
		}
		if p := t.whole(x); p != nil && y.isC() {
			if c := math.Float64frombits(y.c); math.Abs(c) < 1<<50 { // no integer
				if op == OFEq {
					return t.fa
				}
				return t.Sle(p, t.C(64, uint64(int64(math.Floor(c)))))
			}
		}
		if p := t.whole(y); p != nil && x.isC() {
			if c := math.Float64frombits(x.c); math.Abs(c) < 1<<50 {
				if op == OFEq {
					return t.fa
				}
				return t.Sle(t.C(64, uint64(int64(math.Ceil(c)))), p)
			}
		}
		if r := t.nearInt(op, x, y); r != nil {
			return r
		}
	}
	switch op {
	case OFMul, OFDiv:
		if y.isC() && fv(w, y.c) == -1 {
			return t.op2(OBXor, w, x, t.C(w, 1<<(w-1)))
		}
		if op == OFMul && x.isC() && !y.isC() {
			return t.op2(op, w, y, x)
		}
		// (-x) * c is -(x * c), also in rounding
		if x.negated() && y.isC() && finiteNonZero(y) && notNaN(x.a[0]) {
			return t.mk(OBXor, w, 0, t.op2(op, w, x.a[0], y), x.a[1])
		}
	case OFEq:
		if x == y {
			return t.Not(t.FIsNaN(x))
		}
		if x.negated() && y.negated() {
			return t.op2(op, w, x.a[0], y.a[0])
		}
	case OFLt:
		if x == y {
			return t.fa
		}
	case OFLe:
		if x == y {
			return t.Not(t.FIsNaN(x))
		}
	}
	return t.mk(op, w, 0, x, y)
}

// whole gives the 64-bit integer that a float term is the exact conversion of,
// or nil.
func (t *TermTable) whole(x *Term) *Term {
	if x.w != 64 {
		return nil
	}
	switch x.op {
	case OConst:
		f := math.Float64frombits(x.c)
		if f == math.Trunc(f) && math.Abs(f) <= 1<<53 {
			return t.C(64, uint64(int64(f)))
		}
	case OS2F, OU2F:
		y := x.a[0]
		if y.w == 64 && y.op == OZext && y.a[0].w <= 32 || y.w == 64 && y.op == OSext && y.a[0].w <= 32 && x.op == OS2F {
			return y
		}
		if y.w <= 32 && x.op == OS2F {
			return t.Sext(y, 64)
		}
		if y.w <= 32 {
			return t.Zext(y, 64)
		}
		if x.op == OS2F && y.w == 64 && sbits(y, 6) <= 53 {
			return y
		}
	case OBXor:
		if x.negated() {
			if y := t.whole(x.a[0]); y != nil {
				return t.Sub(t.C(64, 0), y)
			}
		}
	}
	return nil
}

// sbits bounds the number of bits of a 64-bit term taken as a signed integer,
// by its form: it is between -2^(n-1) and 2^(n-1)-1.
func sbits(x *Term, depth int) int {
	if depth == 0 {
		return 64
	}
	r := 64
	max := func(a, b int) int {
		if a > b {
			return a
		}
		return b
	}
	switch x.op {
	case OConst:
		v := int64(x.c)
		if v < 0 {
			v = ^v
		}
		return bits.Len64(uint64(v)) + 1
	case OZext:
		r = int(x.a[0].w) + 1
	case OSext:
		r = int(x.a[0].w)
	case OAdd, OSub:
		r = max(sbits(x.a[0], depth-1), sbits(x.a[1], depth-1)) + 1
	case ONeg:
		r = sbits(x.a[0], depth-1) + 1
	case OMul:
		r = sbits(x.a[0], depth-1) + sbits(x.a[1], depth-1)
	}
	if r > 64 {
		r = 64
	}
	return r
}

// nearInt decides |x - y| < c, for floats of which one is a small integer and
// the other a constant or an integer too and c less than a half, over the integers.
func (t *TermTable) nearInt(op Op, l, r *Term) *Term {
	if op == OFEq || l.w != 64 || l.op != OBAnd || !l.a[1].isC() || l.a[1].c != 1<<63-1 || l.a[0].op != OFSub || !r.isC() {
		return nil
	}
	eps := math.Float64frombits(r.c)
	if !(eps > 0 && eps < 0.5) {
		return nil
	}
	x, y := l.a[0].a[0], l.a[0].a[1]
	p, q := t.whole(x), t.whole(y)
	if p == nil {
		x, y, p, q = y, x, q, p
	}
	if p == nil {
		return nil
	}
	if q != nil {
		return t.Eq(p, q)
	}
	if !y.isC() {
		return nil
	}
	c := math.Float64frombits(y.c)
	if !(math.Abs(c) < 1<<50) {
		return nil
	}
	for _, k := range []float64{math.Floor(c), math.Ceil(c)} {
		d := math.Abs(k - c)
		if op == OFLt && d < eps || op == OFLe && d <= eps {
			return t.Eq(p, t.C(64, uint64(int64(k))))
		}
	}
	return t.fa
}

// negated: the term is another one with the topmost bit flipped, as the
// negation of a float is.
func (x *Term) negated() bool {
	return x.op == OBXor && x.a[1].isC() && x.a[1].c == 1<<(x.w-1)
}

func finiteNonZero(x *Term) bool {
	f := fv(x.w, x.c)
	return f != 0 && !math.IsInf(f, 0) && !math.IsNaN(f)
}

// notNaN: the float term is never NaN, by its form.
func notNaN(x *Term) bool {
	switch x.op {
	case OConst:
		return !math.IsNaN(fv(x.w, x.c))
	case OS2F, OU2F:
		return true
	case OBXor:
		return x.negated() && notNaN(x.a[0])
	case OFMul, OFDiv:
		return x.a[1].isC() && finiteNonZero(x.a[1]) && notNaN(x.a[0])
	case OF2F:
		return notNaN(x.a[0])
	}
	return false
}

func (t *TermTable) Not(x *Term) *Term {
	if x.isC() {
		return t.Bool(x.c == 0)
	}
	switch x.op {
	case ONot:
		return x.a[0]
	case OUlt:
		return t.mk(OUle, 0, 0, x.a[1], x.a[0])
	case OUle:
		return t.mk(OUlt, 0, 0, x.a[1], x.a[0])
	case OSlt:
		return t.mk(OSle, 0, 0, x.a[1], x.a[0])
	case OSle:
		return t.mk(OSlt, 0, 0, x.a[1], x.a[0])
	}
	return t.mk(ONot, 0, 0, x)
}

func (t *TermTable) And(x, y *Term) *Term {
	if x.isC() {
		if x.c == 0 {
			return t.fa
		}
		return y
	}
	if y.isC() {
		if y.c == 0 {
			return t.fa
		}
		return x
	}
	if x == y {
		return x
	}
	if x == t.Not(y) {
		return t.fa
	}
	return t.mk(OAnd, 0, 0, x, y)
}

func (t *TermTable) Or(x, y *Term) *Term {
	if x.isC() {
		if x.c == 1 {
			return t.tr
		}
		return y
	}
	if y.isC() {
		if y.c == 1 {
			return t.tr
		}
		return x
	}
	if x == y {
		return x
	}
	if x == t.Not(y) {
		return t.tr
	}
	return t.mk(OOr, 0, 0, x, y)
}

func (t *TermTable) Eq(x, y *Term) *Term {
	if x.isC() && y.isC() {
		return t.Bool(x.c == y.c)
	}
	if x == y {
		return t.tr
	}
	if x.isC() {
		x, y = y, x
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width %d %d", x.w, y.w))
	}
	if y.isC() {
		if x.w == 0 {
			if y.c == 1 {
				return x
			}
			return t.Not(x)
		}
		switch x.op {
		case OZext:
			if y.c&^mask(x.a[0].w) != 0 {
				return t.fa
			}
			return t.Eq(x.a[0], t.C(x.a[0].w, y.c))
		case OSext:
			if uint64(sx(x.a[0].w, y.c&mask(x.a[0].w)))&mask(x.w) != y.c {
				return t.fa
			}
			return t.Eq(x.a[0], t.C(x.a[0].w, y.c))
		case OIte:
			if x.a[1].isC() || x.a[2].isC() {
				a := t.Eq(x.a[1], y)
				b := t.Eq(x.a[2], y)
				return t.Ite(x.a[0], a, b)
			}
		case OAdd:
			if x.a[1].isC() {
				return t.Eq(x.a[0], t.C(x.w, y.c-x.a[1].c))
			}
		case OSub:
			if x.a[1].isC() {
				return t.Eq(x.a[0], t.C(x.w, y.c+x.a[1].c))
			}
		case OConcat:
			lw := x.a[1].w
			return t.And(t.Eq(x.a[0], t.C(x.a[0].w, y.c>>lw)), t.Eq(x.a[1], t.C(lw, y.c)))
		}
	} else {
		if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
			return t.Eq(x.a[0], y.a[0])
		}
		if x.id > y.id {
			x, y = y, x
		}
	}
	return t.mk(OEq, 0, 0, x, y)
}

func (t *TermTable) Ite(c, x, y *Term) *Term {
	if c.isC() {
		if c.c == 1 {
			return x
		}
		return y
	}
	if x == y || (x.isC() && y.isC() && x.c == y.c) {
		return x
	}
	if x.w == 0 {
		if x.isC() {
			if x.c == 1 {
				return t.Or(c, y)
			}
			return t.And(t.Not(c), y)
		}
		if y.isC() {
			if y.c == 1 {
				return t.Or(t.Not(c), x)
			}
			return t.And(c, x)
		}
	}
	if x.w != y.w {
		panic("ite width")
	}
	if c.op == ONot {
		return t.Ite(c.a[0], y, x)
	}
	return t.mk(OIte, x.w, 0, c, x, y)
}

func (t *TermTable) Add(x, y *Term) *Term {
	if x.isC() && !y.isC() {
		x, y = y, x
	}
	if y.isC() {
		if y.c == 0 {
			return x
		}
		if x.op == OAdd && x.a[1].isC() {
			return t.Add(x.a[0], t.C(x.w, x.a[1].c+y.c))
		}
		if x.op == OIte && x.a[1].isC() && x.a[2].isC() {
			return t.Ite(x.a[0], t.Add(x.a[1], y), t.Add(x.a[2], y))
		}
	}
	return t.op2(OAdd, x.w, x, y)
}

func (t *TermTable) Sub(x, y *Term) *Term {
	if y.isC() {
		return t.Add(x, t.C(x.w, -y.c))
	}
	if x == y {
		return t.C(x.w, 0)
	}
	return t.op2(OSub, x.w, x, y)
}

func (t *TermTable) Mul(x, y *Term) *Term {
	if x.isC() && !y.isC() {
		x, y = y, x
	}
	if y.isC() {
		if y.c == 0 {
			return y
		}
		if y.c == 1 {
			return x
		}
		if y.c == mask(x.w) {
			return t.Neg(x)
		}
	}
	return t.op2(OMul, x.w, x, y)
}

func (t *TermTable) BAnd(x, y *Term) *Term {
	if x.isC() && !y.isC() {
		x, y = y, x
	}
	if y.isC() {
		if y.c == 0 {
			return y
		}
		if y.c == mask(x.w) {
			return x
		}
	}
	if x == y {
		return x
	}
	return t.op2(OBAnd, x.w, x, y)
}

func (t *TermTable) BOr(x, y *Term) *Term {
	if x.isC() && !y.isC() {
		x, y = y, x
	}
	if y.isC() && y.c == 0 {
		return x
	}
	if x == y {
		return x
	}
	return t.op2(OBOr, x.w, x, y)
}

func (t *TermTable) cmp(op Op, x, y *Term) *Term {
	if x.isC() && y.isC() {
		return t.Bool(evalOp(op, 0, 0, x.w, y.w, x.c, y.c, 0) == 1)
	}
	if x == y {
		return t.Bool(op == OUle || op == OSle)
	}
	w := x.w
	m := mask(w)
	// comparisons of zero-extensions with constants
	if y.isC() {
		if x.op == OZext {
			iw := x.a[0].w
			v := sx(w, y.c)
			switch op {
			case OUlt, OSlt:
				if op == OSlt && v < 0 {
					return t.fa
				}
				if y.c > mask(iw) {
					return t.tr
				}
				return t.cmp(OUlt, x.a[0], t.C(iw, y.c))
			case OUle, OSle:
				if op == OSle && v < 0 {
					return t.fa
				}
				if y.c >= mask(iw) {
					return t.tr
				}
				return t.cmp(OUle, x.a[0], t.C(iw, y.c))
			}
		}
		switch {
		case op == OUlt && y.c == 0:
			return t.fa
		case op == OUle && y.c == m:
			return t.tr
		case op == OUle && y.c == 0:
			return t.Eq(x, y)
		}
		if x.op == OIte && x.a[1].isC() && x.a[2].isC() {
			return t.Ite(x.a[0], t.cmp(op, x.a[1], y), t.cmp(op, x.a[2], y))
		}
	}
	if x.isC() {
		if y.op == OZext {
			iw := y.a[0].w
			v := sx(w, x.c)
			switch op {
			case OUlt, OSlt:
				if op == OSlt && v < 0 {
					return t.tr
				}
				if x.c >= mask(iw) {
					return t.fa
				}
				return t.cmp(OUlt, t.C(iw, x.c), y.a[0])
			case OUle, OSle:
				if op == OSle && v < 0 {
					return t.tr
				}
				if x.c > mask(iw) {
					return t.fa
				}
				return t.cmp(OUle, t.C(iw, x.c), y.a[0])
			}
		}
		switch {
		case op == OUle && x.c == 0:
			return t.tr
		case op == OUlt && x.c == m:
			return t.fa
		}
		if y.op == OIte && y.a[1].isC() && y.a[2].isC() {
			return t.Ite(y.a[0], t.cmp(op, x, y.a[1]), t.cmp(op, x, y.a[2]))
		}
	}
	if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
		if op == OSlt {
			op = OUlt
		} else if op == OSle {
			op = OUle
		}
		return t.cmp(op, x.a[0], y.a[0])
	}
	return t.mk(op, 0, 0, x, y)
}
func (t *TermTable) Ult(x, y *Term) *Term { return t.cmp(OUlt, x, y) }
func (t *TermTable) Ule(x, y *Term) *Term { return t.cmp(OUle, x, y) }
func (t *TermTable) Slt(x, y *Term) *Term { return t.cmp(OSlt, x, y) }
func (t *TermTable) Sle(x, y *Term) *Term { return t.cmp(OSle, x, y) }

func (t *TermTable) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isC() {
		return t.C(w, x.c)
	}
	if x.w == 0 {
		return t.Ite(x, t.C(w, 1), t.C(w, 0))
	}
	if x.op == OZext {
		return t.Zext(x.a[0], w)
	}
	if x.op == OIte && x.a[1].isC() && x.a[2].isC() {
		return t.Ite(x.a[0], t.Zext(x.a[1], w), t.Zext(x.a[2], w))
	}
	return t.mk(OZext, w, 0, x)
}

func (t *TermTable) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isC() {
		return t.C(w, uint64(sx(x.w, x.c)))
	}
	if x.op == OZext {
		return t.Zext(x.a[0], w)
	}
	if x.op == OIte && x.a[1].isC() && x.a[2].isC() {
		return t.Ite(x.a[0], t.Sext(x.a[1], w), t.Sext(x.a[2], w))
	}
	return t.mk(OSext, w, 0, x)
}

func (t *TermTable) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	if x.isC() {
		return t.C(w, x.c>>lo)
	}
	switch x.op {
	case OZext, OSext:
		if hi < x.a[0].w {
			return t.Extract(x.a[0], hi, lo)
		}
		if x.op == OZext && lo >= x.a[0].w {
			return t.C(w, 0)
		}
		if lo == 0 && w > x.a[0].w {
			if x.op == OZext {
				return t.Zext(x.a[0], w)
			}
			return t.Sext(x.a[0], w)
		}
	case OExtract:
		l := uint8(x.c & 0xff)
		return t.Extract(x.a[0], hi+l, lo+l)
	case OConcat:
		lw := x.a[1].w
		if hi < lw {
			return t.Extract(x.a[1], hi, lo)
		}
		if lo >= lw {
			return t.Extract(x.a[0], hi-lw, lo-lw)
		}
	case OIte:
		if x.a[1].isC() && x.a[2].isC() {
			return t.Ite(x.a[0], t.Extract(x.a[1], hi, lo), t.Extract(x.a[2], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			p, q := t.Extract(x.a[0], hi, 0), t.Extract(x.a[1], hi, 0)
			switch x.op {
			case OAdd:
				return t.Add(p, q)
			case OSub:
				return t.Sub(p, q)
			case OMul:
				return t.Mul(p, q)
			}
		}
	case OBAnd:
		return t.BAnd(t.Extract(x.a[0], hi, lo), t.Extract(x.a[1], hi, lo))
	case OBOr:
		return t.BOr(t.Extract(x.a[0], hi, lo), t.Extract(x.a[1], hi, lo))
	}
	return t.mk(OExtract, w, uint64(hi)<<8|uint64(lo), x)
}

func (t *TermTable) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if hi.isC() && lo.isC() {
		return t.C(w, hi.c<<lo.w|lo.c)
	}
	if hi.isC() && hi.c == 0 {
		return t.Zext(lo, w)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.a[0] == lo.a[0] && uint8(hi.c&0xff) == uint8(lo.c>>8)+1 {
		return t.Extract(hi.a[0], uint8(hi.c>>8), uint8(lo.c&0xff))
	}
	if hi.op == OExtract && lo.op == OConcat && lo.a[0].op == OExtract && lo.a[0].a[0] == hi.a[0] && uint8(hi.c&0xff) == uint8(lo.a[0].c>>8)+1 {
		return t.Concat(t.Extract(hi.a[0], uint8(hi.c>>8), uint8(lo.a[0].c&0xff)), lo.a[1])
	}
	if hi.op == OExtract && uint8(hi.c&0xff) == lo.w {
		// the low part was simplified after being cut off
		if l := t.Extract(hi.a[0], lo.w-1, 0); l == lo {
			return t.Extract(hi.a[0], uint8(hi.c>>8), 0)
		}
	}
	return t.mk(OConcat, w, 0, hi, lo)
}

func (t *TermTable) BNot(x *Term) *Term {
	if x.op == OBNot {
		return x.a[0]
	}
	return t.op1(OBNot, x.w, 0, x)
}
func (t *TermTable) Neg(x *Term) *Term {
	if x.op == ONeg {
		return x.a[0]
	}
	return t.op1(ONeg, x.w, 0, x)
}

func (t *TermTable) shift(op Op, x, y *Term) *Term {
	if y.isC() {
		if y.c == 0 {
			return x
		}
		if y.c >= uint64(x.w) && op != OAshr {
			return t.C(x.w, 0)
		}
		if !x.isC() && y.c < uint64(x.w) {
			k := uint8(y.c)
			switch op {
			case OLshr:
				return t.Zext(t.Extract(x, x.w-1, k), x.w)
			case OShl:
				return t.Concat(t.Extract(x, x.w-1-k, 0), t.C(k, 0))
			}
		}
	}
	return t.op2(op, x.w, x, y)
}

// FP helpers
func (t *TermTable) FIsNaN(x *Term) *Term {
	if notNaN(x) {
		return t.Bool(false)
	}
	return t.op1(OFIsNaN, 0, 0, x)
}

// Eval evaluates x under a model given by variable index.
func (t *TermTable) Eval(x *Term, model []uint64) uint64 {
	switch x.op {
	case OConst:
		return x.c
	case OVar:
		if int(x.idx) < len(model) {
			return model[x.idx] & mask(x.w)
		}
		return 0
	}
	memo := map[*Term]uint64{}
	return t.evalM(x, model, memo)
}

func (t *TermTable) evalM(x *Term, model []uint64, memo map[*Term]uint64) uint64 {
	switch x.op {
	case OConst:
		return x.c
	case OVar:
		if int(x.idx) < len(model) {
			return model[x.idx] & mask(x.w)
		}
		return 0
	}
	if v, ok := memo[x]; ok {
		return v
	}
	var r uint64
	switch x.op {
	case OIte:
		if t.evalM(x.a[0], model, memo) == 1 {
			r = t.evalM(x.a[1], model, memo)
		} else {
			r = t.evalM(x.a[2], model, memo)
		}
	case OAnd:
		if t.evalM(x.a[0], model, memo) == 0 {
			r = 0
		} else {
			r = t.evalM(x.a[1], model, memo)
		}
	case OOr:
		if t.evalM(x.a[0], model, memo) == 1 {
			r = 1
		} else {
			r = t.evalM(x.a[1], model, memo)
		}
	default:
		var v [3]uint64
		for i := 0; i < int(x.n); i++ {
			v[i] = t.evalM(x.a[i], model, memo)
		}
		var bw uint8
		if x.n > 1 {
			bw = x.a[1].w
		}
		r = evalOp(x.op, x.w, x.c, x.a[0].w, bw, v[0], v[1], v[2])
	}
	memo[x] = r
	return r
}

// Table gives the value of a term over a single 8-bit variable for all 256
// values of that variable.
func (t *TermTable) Table(x *Term) *[256]uint64 {
	if x.tab != nil {
		return x.tab
	}
	var r [256]uint64
	switch x.op {
	case OVar:
		for i := range r {
			r[i] = uint64(i)
		}
	case OConst:
		for i := range r {
			r[i] = x.c
		}
	default:
		var ts [3]*[256]uint64
		for i := 0; i < int(x.n); i++ {
			ts[i] = t.Table(x.a[i])
		}
		var bw uint8
		if x.n > 1 {
			bw = x.a[1].w
		}
		for i := range r {
			var v [3]uint64
			for j := 0; j < int(x.n); j++ {
				v[j] = ts[j][i]
			}
			r[i] = evalOp(x.op, x.w, x.c, x.a[0].w, bw, v[0], v[1], v[2])
		}
	}
	x.tab = &r
	return x.tab
}

// Set gives the set of byte values satisfying a Bool term over one 8-bit var.
func (t *TermTable) Set(x *Term) *[4]uint64 {
	if x.set != nil {
		return x.set
	}
	tab := t.Table(x)
	var s [4]uint64
	for i, v := range tab {
		if v == 1 {
			s[i>>6] |= 1 << (i & 63)
		}
	}
	x.set = &s
	return x.set
}

func setAnd(a, b *[4]uint64) [4]uint64 {
	return [4]uint64{a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]}
}
func setEmpty(a [4]uint64) bool { return a[0]|a[1]|a[2]|a[3] == 0 }
func setHas(a *[4]uint64, v uint64) bool {
	return a[v>>6]>>(v&63)&1 == 1
}
func setPick(a [4]uint64) uint64 {
	// prefer letters and digits for readable witnesses
	for _, r := range []byte("a1bxc02deABC {}[]\",:") {
		if setHas(&a, uint64(r)) {
			return uint64(r)
		}
	}
	for i := uint64(33); i < 127; i++ {
		if setHas(&a, i) {
			return i
		}
	}
	for i, w := range a {
		if w != 0 {
			return uint64(i*64 + bits.TrailingZeros64(w))
		}
	}
	return 0
}

// resetTab forgets composite terms; interned constants stay canonical.
func (t *TermTable) resetTab() {
	old := t.tab
	t.tab = map[tkey]*Term{}
	for k, x := range old {
		if x.op == OConst {
			t.tab[k] = x
		}
	}
	t.varBy = map[vkey]*Term{}
}
