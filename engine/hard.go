package main

import (
	"fmt"
	"sort"
	"strconv"
)

// Operations that bit-blast badly.  A query that contains some is first tried
// with a guessed model (verified by evaluation) and then with these operations
// left uninterpreted; an unsatisfiable abstraction is unsatisfiable.
func hardOp(x *Term) bool {
	switch x.op {
	case OFAdd, OFSub, OFMul, OFDiv, OFSqrt, OFRound, OS2F, OU2F, OF2F, OF2S, OF2U:
		return true
	case OMul, OUDiv, OSDiv, OURem, OSRem:
		return x.w >= 32 && !x.a[0].isC() && !x.a[1].isC()
	}
	return false
}

func (s *Solver) hard(x *Term) bool {
	if x.n == 0 {
		return false
	}
	if h, ok := s.hardMemo[x]; ok {
		return h
	}
	h := hardOp(x)
	for i := 0; i < int(x.n) && !h; i++ {
		h = s.hard(x.a[i])
	}
	s.hardMemo[x] = h
	return h
}

func (s *Solver) anyHard(ts []*Term) bool {
	if s.hardMemo == nil || len(s.hardMemo) > 1<<20 {
		s.hardMemo = map[*Term]bool{}
	}
	for _, x := range ts {
		if s.hard(x) {
			return true
		}
	}
	return false
}

var special64 = []uint64{
	0, 1, 2, 3, 5, 7, 10, 100, ^uint64(0), ^uint64(1), ^uint64(2), ^uint64(6), 1 << 63, 1<<63 + 1, 1<<63 - 1, 1<<63 - 2, 1 << 62, 1<<62 + 1, 1 << 53, 1<<53 + 1, 1<<53 - 1, 1 << 32, 1<<31 - 1,
	b64(1), b64(-1), b64(0.5), b64(-0.5), b64(1.5), b64(-1.5), b64(2.5), b64(1e-8), b64(-1e-8), b64(1e-7), b64(0.25), b64(2), b64(-2), b64(3), b64(10), b64(9007199254740993), b64(9223372036854775808), b64(-9223372036854775808), b64(9.3e18), b64(-9.3e18), b64(18446744073709551616), b64(1.8e19), b64(1e300), b64(-1e300), b64(5e-324),
	0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x8000000000000000,
}

func (s *Solver) rnd() uint64 {
	s.rng = s.rng*6364136223846793005 + 1442695040888963407
	x := s.rng
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

func (s *Solver) guess(ts []*Term) map[int32]uint64 {
	vars := map[int32]*Term{}
	seen := map[*Term]bool{}
	for _, c := range ts {
		collectVars(c, vars, seen)
	}
	if len(vars) == 0 || len(vars) > 24 {
		return nil
	}
	// constants of the query
	var cons []uint64
	for x := range seen {
		for i := 0; i < int(x.n); i++ {
			if a := x.a[i]; a.isC() && a.w >= 8 {
				cons = append(cons, a.c)
			}
		}
	}
	sort.Slice(cons, func(i, j int) bool { return cons[i] < cons[j] })
	mx := int32(0)
	var vs []*Term
	for k := int32(0); len(vs) < len(vars); k++ {
		if v, ok := vars[k]; ok {
			vs = append(vs, v)
			mx = k
		}
	}
	s.rng = 88172645463325252
	mod := make([]uint64, mx+1)
	for try := 0; try < 1500; try++ {
		for i, v := range vs {
			var x uint64
			switch r := s.rnd() % 16; {
			case r < 7:
				x = special64[s.rnd()%uint64(len(special64))]
			case r < 9 && len(cons) > 0:
				x = cons[s.rnd()%uint64(len(cons))] + s.rnd()%3 - 1
			case r < 12 && i > 0:
				y := mod[vs[s.rnd()%uint64(i)].idx]
				switch s.rnd() % 5 {
				case 0:
					x = y
				case 1:
					x = y + s.rnd()%3 - 1
				case 2:
					x = b64(float64(int64(y))) + s.rnd()%3 - 1
				case 3:
					x = uint64(int64(f64(y))) + s.rnd()%3 - 1
				default:
					x = b64(float64(y))
				}
			case r < 14:
				x = s.rnd() % 256
			default:
				x = s.rnd()
			}
			mod[v.idx] = x & mask(v.w)
			if v.w == 0 {
				mod[v.idx] = x & 1
			}
		}
		ok := true
		for _, c := range ts {
			if s.t.Eval(c, mod) != 1 {
				ok = false
				break
			}
		}
		if ok {
			m := map[int32]uint64{}
			for _, v := range vs {
				m[v.idx] = mod[v.idx]
			}
			return m
		}
	}
	return nil
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var opNames = map[Op]string{OFAdd: "f+", OFSub: "f-", OFMul: "f*", OFDiv: "f/", OFSqrt: "fsqrt", OFRound: "fround", OS2F: "s2f", OU2F: "u2f", OF2F: "f2f", OF2S: "f2s", OF2U: "f2u", OFLt: "f<", OFLe: "f<=", OFEq: "f=", OFIsNaN: "isnan", OIte: "ite", OExtract: "ext", OZext: "zext", OSext: "sext"}

func (x *Term) show(d int) string {
	switch x.op {
	case OConst:
		return strconv.FormatUint(x.c, 10)
	case OVar:
		return x.name
	}
	if d == 0 {
		return "_"
	}
	n := opNames[x.op]
	if n == "" {
		n = binNames[x.op]
	}
	r := "(" + n
	for i := 0; i < int(x.n); i++ {
		r += " " + x.a[i].show(d-1)
	}
	return r + ")"
}

// axioms states simple facts about a hard operation left uninterpreted.
func (s *Solver) axioms(n string, x *Term) {
	if !isFPOp(x.op) {
		return
	}
	f := fmt.Sprintf("((_ to_fp %s) %s)", fpSort(x.w), n)
	switch x.op {
	case OS2F, OU2F:
		fmt.Fprintf(s.in, "(assert (not (or (fp.isNaN %s) (fp.isInfinite %s))))\n", f, f)
	case OFSub:
		a, b := s.fref(x.a[0]), s.fref(x.a[1])
		fmt.Fprintf(s.in, "(assert (=> (and (fp.eq %s %s) (not (fp.isInfinite %s))) (fp.isZero %s)))\n", a, b, a, f)
		fmt.Fprintf(s.in, "(assert (=> (fp.lt %s %s) (fp.isNegative %s)))\n", a, b, f)
		fmt.Fprintf(s.in, "(assert (=> (fp.lt %s %s) (fp.isPositive %s)))\n", b, a, f)
		fmt.Fprintf(s.in, "(assert (=> (or (fp.isNaN %s) (fp.isNaN %s)) (fp.isNaN %s)))\n", a, b, f)
	}
}
