package main

import (
	"math"
	"time"
)

// Simplification of a term under the byte domains of the path: subterms that
// have one value for all bytes still possible become constants, comparisons of
// disjoint ranges are decided.  Applied before a query goes to the solver.

type simplifier struct {
	in    *Interp
	memo  map[*Term]*Term
	rmemo map[*Term]rng
}

type rng struct {
	lo, hi uint64
	ok     bool
}

func (in *Interp) newSimp() *simplifier {
	return &simplifier{in: in, memo: map[*Term]*Term{}, rmemo: map[*Term]rng{}}
}

func (s *simplifier) dom(v int32) *[4]uint64 {
	if s.in.p.width(v) != 8 {
		return nil
	}
	return s.in.p.dom[v]
}

func (s *simplifier) simp(x *Term) *Term {
	if x.op == OConst || x.n == 0 && x.op != OVar {
		return x
	}
	if r, ok := s.memo[x]; ok {
		return r
	}
	r := s.simp1(x)
	s.memo[x] = r
	return r
}

func (s *simplifier) simp1(x *Term) *Term {
	tt := s.in.tt
	if len(x.sup.vars) == 1 {
		if d := s.dom(x.sup.vars[0]); d != nil {
			tab := tt.Table(x)
			first, n := true, uint64(0)
			same := true
			for i := 0; i < 256 && same; i++ {
				if d[i>>6]>>(uint(i)&63)&1 == 0 {
					continue
				}
				if first {
					n, first = tab[i], false
				} else if tab[i] != n {
					same = false
				}
			}
			if same && !first {
				return tt.C(x.w, n)
			}
		}
	}
	if x.op == OVar {
		return x
	}
	var a [3]*Term
	ch := false
	for i := 0; i < int(x.n); i++ {
		a[i] = s.simp(x.a[i])
		ch = ch || a[i] != x.a[i]
		if i == 0 && x.op == OIte && a[0].isC() {
			if a[0].c == 1 {
				return s.simp(x.a[1])
			}
			return s.simp(x.a[2])
		}
	}
	r := x
	if ch {
		r = tt.rebuild(x, a)
	}
	if ch && len(r.sup.vars) == 1 && len(x.sup.vars) != 1 {
		return s.simp(r)
	}
	switch r.op {
	case OFLt, OFLe, OFEq:
		p, q := s.frng(r.a[0]), s.frng(r.a[1])
		if !p.ok || !q.ok {
			break
		}
		switch {
		case p.hi < q.lo:
			return tt.Bool(r.op != OFEq)
		case q.hi < p.lo:
			return tt.Bool(false)
		case r.op == OFLt && q.hi <= p.lo:
			return tt.Bool(false)
		case r.op == OFLe && p.hi <= q.lo:
			return tt.Bool(true)
		}
		if x, y := s.whole(r.a[0]), s.whole(r.a[1]); x != nil && y != nil {
			switch r.op {
			case OFLt:
				return s.simp(tt.Slt(x, y))
			case OFLe:
				return s.simp(tt.Sle(x, y))
			}
			return s.simp(tt.Eq(x, y))
		}
	case OUlt, OUle, OSlt, OSle, OEq:
		if r.op == OEq && r.a[0].w == 0 {
			break
		}
		p, q := s.rng(r.a[0]), s.rng(r.a[1])
		if !p.ok || !q.ok {
			break
		}
		// x + y < x and x <= x + y where the sum does not wrap around
		if r.op == OUlt && s.grows(r.a[0], r.a[1]) {
			return tt.Bool(false)
		}
		if r.op == OUle && s.grows(r.a[1], r.a[0]) {
			return tt.Bool(true)
		}
		if r.op == OSlt || r.op == OSle {
			h := uint64(1) << (r.a[0].w - 1)
			if p.hi >= h || q.hi >= h {
				break
			}
		}
		switch r.op {
		case OUlt, OSlt:
			if p.hi < q.lo {
				return tt.Bool(true)
			}
			if p.lo >= q.hi {
				return tt.Bool(false)
			}
		case OUle, OSle:
			if p.hi <= q.lo {
				return tt.Bool(true)
			}
			if p.lo > q.hi {
				return tt.Bool(false)
			}
		case OEq:
			if p.hi < q.lo || q.hi < p.lo {
				return tt.Bool(false)
			}
			if p.lo == p.hi && q == p {
				return tt.Bool(true)
			}
		}
	}
	return r
}

// whole is TermTable.whole with what is known about ranges.
func (s *simplifier) whole(x *Term) *Term {
	if (x.op == OS2F || x.op == OU2F) && x.w == 64 && x.a[0].w == 64 {
		if p := s.rng(x.a[0]); p.ok && p.hi <= 1<<53 {
			return x.a[0]
		}
	}
	return s.in.tt.whole(x)
}

type frange struct {
	lo, hi float64
	ok     bool // never NaN, and within lo and hi
}

// frng bounds a float term; conversions, and products and quotients with
// constants are monotonic in spite of rounding.
func (s *simplifier) frng(x *Term) frange {
	if x.w != 64 {
		return frange{}
	}
	switch x.op {
	case OConst:
		f := math.Float64frombits(x.c)
		return frange{f, f, !math.IsNaN(f)}
	case OU2F:
		if p := s.rng(x.a[0]); p.ok {
			return frange{float64(p.lo), float64(p.hi), true}
		}
	case OS2F:
		if p := s.rng(x.a[0]); p.ok && p.hi < 1<<(x.a[0].w-1) {
			return frange{float64(p.lo), float64(p.hi), true}
		}
	case OBXor:
		if x.negated() {
			p := s.frng(x.a[0])
			return frange{-p.hi, -p.lo, p.ok}
		}
	case OFMul, OFDiv:
		p := s.frng(x.a[0])
		if p.ok && x.a[1].isC() && finiteNonZero(x.a[1]) {
			k := math.Float64frombits(x.a[1].c)
			a, b := p.lo*k, p.hi*k
			if x.op == OFDiv {
				a, b = p.lo/k, p.hi/k
			}
			if a > b {
				a, b = b, a
			}
			return frange{a, b, true}
		}
	case OIte:
		p, q := s.frng(x.a[1]), s.frng(x.a[2])
		if p.ok && q.ok {
			return frange{math.Min(p.lo, q.lo), math.Max(p.hi, q.hi), true}
		}
	}
	return frange{}
}

// grows tells whether sum is x + y, without wrapping around.
func (s *simplifier) grows(sum, x *Term) bool {
	if sum.op != OAdd || sum.a[0] != x && sum.a[1] != x {
		return false
	}
	p, q := s.rng(sum.a[0]), s.rng(sum.a[1])
	return p.ok && q.ok && p.hi+q.hi >= p.hi && p.hi+q.hi <= mask(sum.w)
}

// rng bounds a bit-vector term, as an unsigned number.
func (s *simplifier) rng(x *Term) rng {
	if x.isC() {
		return rng{x.c, x.c, true}
	}
	if r, ok := s.rmemo[x]; ok {
		return r
	}
	r := s.rng1(x)
	s.rmemo[x] = r
	return r
}

func (s *simplifier) rng1(x *Term) rng {
	full := rng{0, mask(x.w), true}
	if x.w == 0 || isFPOp(x.op) {
		return rng{}
	}
	if len(x.sup.vars) == 1 && s.in.p.width(x.sup.vars[0]) == 8 {
		tab := s.in.tt.Table(x)
		d := s.dom(x.sup.vars[0])
		r := rng{^uint64(0), 0, true}
		for i := 0; i < 256; i++ {
			if d != nil && d[i>>6]>>(uint(i)&63)&1 == 0 {
				continue
			}
			if tab[i] < r.lo {
				r.lo = tab[i]
			}
			if tab[i] > r.hi {
				r.hi = tab[i]
			}
		}
		if r.lo > r.hi {
			return full
		}
		return r
	}
	switch x.op {
	case OZext:
		return s.rng(x.a[0])
	case OIte:
		p, q := s.rng(x.a[1]), s.rng(x.a[2])
		if p.ok && q.ok {
			if q.lo < p.lo {
				p.lo = q.lo
			}
			if q.hi > p.hi {
				p.hi = q.hi
			}
			return p
		}
	case OAdd:
		p, q := s.rng(x.a[0]), s.rng(x.a[1])
		if !p.ok || !q.ok {
			return full
		}
		hi := p.hi + q.hi
		if hi < p.hi || hi > mask(x.w) {
			// adding a negative constant that never passes zero
			if x.a[1].isC() {
				k := -x.a[1].c & mask(x.w)
				if p.lo >= k {
					return rng{p.lo - k, p.hi - k, true}
				}
			}
			return full
		}
		return rng{p.lo + q.lo, hi, true}
	case OSub:
		p, q := s.rng(x.a[0]), s.rng(x.a[1])
		if p.ok && q.ok && p.lo >= q.hi {
			return rng{p.lo - q.hi, p.hi - q.lo, true}
		}
	case OMul:
		p, q := s.rng(x.a[0]), s.rng(x.a[1])
		if !p.ok || !q.ok {
			return full
		}
		if q.hi != 0 && p.hi > mask(x.w)/q.hi {
			return full
		}
		return rng{p.lo * q.lo, p.hi * q.hi, true}
	case OUDiv:
		p, q := s.rng(x.a[0]), s.rng(x.a[1])
		if p.ok && q.ok && q.lo > 0 {
			return rng{p.lo / q.hi, p.hi / q.lo, true}
		}
	case OURem:
		q := s.rng(x.a[1])
		if q.ok && q.lo > 0 {
			p := s.rng(x.a[0])
			if p.ok && p.hi < q.lo {
				return p
			}
			return rng{0, q.hi - 1, true}
		}
	case OBAnd:
		if x.a[1].isC() {
			return rng{0, x.a[1].c, true}
		}
	case OLshr:
		if p := s.rng(x.a[0]); p.ok && x.a[1].isC() && x.a[1].c < uint64(x.w) {
			return rng{p.lo >> x.a[1].c, p.hi >> x.a[1].c, true}
		}
	case OExtract:
		lo := x.c & 0xff
		if p := s.rng(x.a[0]); p.ok && p.hi>>lo <= mask(x.w) {
			return rng{p.lo >> lo, p.hi >> lo, true}
		}
	case OConcat:
		if p := s.rng(x.a[0]); p.ok && p.hi == 0 {
			return s.rng(x.a[1])
		}
	}
	return full
}

// rebuild makes x again with other arguments.
func (t *TermTable) rebuild(x *Term, a [3]*Term) *Term {
	switch x.op {
	case ONot:
		return t.Not(a[0])
	case OAnd:
		return t.And(a[0], a[1])
	case OOr:
		return t.Or(a[0], a[1])
	case OEq:
		return t.Eq(a[0], a[1])
	case OIte:
		return t.Ite(a[0], a[1], a[2])
	case OAdd:
		return t.Add(a[0], a[1])
	case OSub:
		return t.Sub(a[0], a[1])
	case OMul:
		return t.Mul(a[0], a[1])
	case OBAnd:
		return t.BAnd(a[0], a[1])
	case OBOr:
		return t.BOr(a[0], a[1])
	case OUlt, OUle, OSlt, OSle:
		return t.cmp(x.op, a[0], a[1])
	case OZext:
		return t.Zext(a[0], x.w)
	case OSext:
		return t.Sext(a[0], x.w)
	case OExtract:
		return t.Extract(a[0], uint8(x.c>>8), uint8(x.c&0xff))
	case OConcat:
		return t.Concat(a[0], a[1])
	case OBNot:
		return t.BNot(a[0])
	case OShl, OLshr, OAshr:
		return t.shift(x.op, a[0], a[1])
	case OFIsNaN:
		return t.FIsNaN(a[0])
	}
	if x.n == 1 {
		return t.op1(x.op, x.w, x.c, a[0])
	}
	return t.op2(x.op, x.w, a[0], a[1])
}

// query puts the path constraints connected to c, and c, to the solver.
func (in *Interp) query(c *Term) (SatResult, map[int32]uint64) {
	sl := in.slice2(c)
	s := in.newSimp()
	out := make([]*Term, 0, len(sl))
	for _, x := range sl {
		if len(x.sup.vars) == 1 && in.p.width(x.sup.vars[0]) == 8 && x != c {
			out = append(out, x) // what the domains are made of
			continue
		}
		y := s.simp(x)
		if y.isC() && y.c == 0 {
			in.stat.RangeDecided++
			if in.xn++; in.xn <= 200 || in.xn%64 == 0 {
				if in.confirm(sl, Unsat) == Sat {
					panic(unsupported{"engine: solver and range procedure disagree"})
				}
			}
			return Unsat, nil
		}
		out = append(out, y)
	}
	return in.sol.Check(out)
}

// confirm puts a verdict reached without the solver to the solver as well,
// with a short time limit, as long as this takes no more than a few seconds in
// all.  It returns the solver's verdict, or the given one.
func (in *Interp) confirm(q []*Term, want SatResult) SatResult {
	if in.xtime > 4*time.Second {
		return want
	}
	t0 := time.Now()
	to, u := in.sol.Timeout, in.sol.Unknown
	in.sol.Timeout = 300
	r, _ := in.sol.Check(q)
	in.sol.Timeout, in.sol.Unknown = to, u
	in.xtime += time.Since(t0)
	if r == Unknown {
		return want
	}
	in.stat.CrossChecked++
	return r
}
