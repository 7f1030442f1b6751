package gojsonsm

// Comparisons of a member with a constant convert the member to the constant's
// kind or fall back on the order of kinds, and the status tells.

// vz30V is a value: a member or a constant.
type vz30V struct {
	rank int   // of its kind: null, false and true, numbers, texts, arrays, objects
	num  int64 // twice the number; for a truth value twice 0 or 1
	str  []byte
	isN  bool // the text of an integer
	isF  bool // the text of a number
	tf   int  // 1 the text of a truth value "true", 0 of "false", -1 none
}

const (
	vz30Null = iota
	vz30Bool
	vz30Num
	vz30Str
	vz30Arr
	vz30Obj
)

const vz30Kinds = 15

// vz30Leaf gives the text of a member of each kind; kind 14 is none.
func vz30Leaf(k int) (string, vz30V) {
	switch k {
	case 0:
		return "null", vz30V{rank: vz30Null, tf: -1}
	case 1:
		return "true", vz30V{rank: vz30Bool, num: 2, tf: -1}
	case 2:
		return "false", vz30V{rank: vz30Bool, num: 0, tf: -1}
	case 3:
		d := vzDigit()
		s := []byte{'0' + byte(d)}
		return string(s), vz30V{rank: vz30Num, num: 2 * d, str: s, isN: true, tf: -1}
	case 4:
		d := vzDigit()
		vzAssume(d > 0)
		s := []byte{'-', '0' + byte(d)}
		return string(s), vz30V{rank: vz30Num, num: -2 * d, str: s, isN: true, tf: -1}
	case 5:
		i := vzChoice(3)
		s := []string{"1.5", "4.5", "-0.5"}[i]
		return s, vz30V{rank: vz30Num, num: []int64{3, 9, -1}[i], str: []byte(s), tf: -1}
	case 6:
		d := vzDigit()
		s := []byte{'0' + byte(d)}
		return `"` + string(s) + `"`, vz30V{rank: vz30Str, num: 2 * d, str: s, isN: true, isF: true, tf: -1}
	case 7:
		max := 2
		if vzThorough() {
			max = 4
		}
		s := vzLetters(1 + vzChoice(max))
		vzAssume(string(s) != "inf" && string(s) != "nan") // which Go reads as floats
		if string(s) == "true" {
			return `"true"`, vz30V{rank: vz30Str, num: 2, str: s, tf: 1}
		}
		return `"` + string(s) + `"`, vz30V{rank: vz30Str, str: s, tf: -1}
	case 8:
		return `"1.5"`, vz30V{rank: vz30Str, num: 3, str: []byte("1.5"), isF: true, tf: -1}
	case 9:
		return `"-7"`, vz30V{rank: vz30Str, num: -14, str: []byte("-7"), isN: true, isF: true, tf: -1}
	case 10:
		s := []string{"true", "TRUE", "True"}[vzChoice(3)]
		return `"` + s + `"`, vz30V{rank: vz30Str, num: 2, str: []byte(s), tf: 1}
	case 11:
		s := []string{"false", "fALSE"}[vzChoice(2)]
		return `"` + s + `"`, vz30V{rank: vz30Str, num: 0, str: []byte(s), tf: 0}
	case 12:
		return "[" + string([]byte{'0' + byte(vzDigit())}) + "]", vz30V{rank: vz30Arr, tf: -1}
	case 13:
		return `{"x":` + string([]byte{'0' + byte(vzDigit())}) + "}", vz30V{rank: vz30Obj, tf: -1}
	}
	return `""`, vz30V{rank: vz30Str, str: []byte{}, tf: -1}
}

var vz30Consts = []interface{}{5, -3, 0, 1.5, true, false, nil, "", "x", "5", "1.5", "true", 18, -0.5, "-7", "xyz"}

func vz30Const(i int) vz30V {
	switch v := vz30Consts[i].(type) {
	case int:
		return vz30V{rank: vz30Num, num: 2 * int64(v), isN: true}
	case float64:
		return vz30V{rank: vz30Num, num: int64(2 * v)}
	case bool:
		n := int64(0)
		if v {
			n = 2
		}
		return vz30V{rank: vz30Bool, num: n}
	case string:
		return vz30V{rank: vz30Str, str: []byte(v)}
	}
	return vz30V{rank: vz30Null}
}

// vz30Cmp compares a member with a constant: less, equal, converted, and whether it is specified at all.
func vz30Cmp(m, c vz30V) (lt, eq, conv, spec bool) {
	byNum := func() (bool, bool, bool, bool) { return m.num < c.num, m.num == c.num, true, true }
	byRank := func() (bool, bool, bool, bool) { return m.rank < c.rank, false, false, true }
	switch c.rank {
	case vz30Num:
		switch m.rank {
		case vz30Num, vz30Bool:
			return byNum()
		case vz30Str:
			if m.isN || m.isF && !c.isN {
				return byNum()
			}
		}
	case vz30Bool:
		b := m.num
		switch m.rank {
		case vz30Num:
			b = 0
			if m.num != 0 {
				b = 2
			}
			return b < c.num, b == c.num, true, true
		case vz30Bool:
			return byNum()
		case vz30Str:
			if m.tf >= 0 {
				return byNum()
			}
		}
	case vz30Str:
		switch m.rank {
		case vz30Num:
			if !m.isN {
				return false, false, false, false
			}
			s, t := string(m.str), string(c.str)
			return s < t, s == t, true, true
		case vz30Str:
			s, t := string(m.str), string(c.str)
			return s < t, s == t, true, true
		case vz30Bool:
			return false, false, false, false
		}
	case vz30Null:
		return false, m.rank == vz30Null, true, true
	}
	return byRank()
}

func vz30Verdict(op int, lt, eq bool) bool {
	switch op {
	case 0:
		return eq
	case 1:
		return !eq
	case 2:
		return lt
	case 3:
		return lt || eq
	case 4:
		return !lt && !eq
	}
	return !lt
}

var vz30Ops = []func(a, b Expression) Expression{
	func(a, b Expression) Expression { return EqualsExpr{a, b} },
	func(a, b Expression) Expression { return NotEqualsExpr{a, b} },
	func(a, b Expression) Expression { return LessThanExpr{a, b} },
	func(a, b Expression) Expression { return LessEqualsExpr{a, b} },
	func(a, b Expression) Expression { return GreaterThanExpr{a, b} },
	func(a, b Expression) Expression { return GreaterEqualsExpr{a, b} },
}

// vz30Match matches with status and checks that Match agrees.
func vz30Match(m *FastMatcher, doc []byte) (bool, bool) {
	var r bool
	var st int
	var err error
	p := vzPanics(func() { r, st, err = m.MatchWithStatus(doc) })
	vzAssert(p == "" && err == nil, "matching fails "+p)
	vzAssert(st == MatcherNoStatus || st == MatcherCollateUsed, "an unknown status")
	m.Reset()
	r2, err, p := vzMatch(m, doc)
	vzAssert(p == "" && err == nil && r == r2, "MatchWithStatus and Match disagree")
	return r, st == MatcherCollateUsed
}

//vz:bound a member of 15 kinds (null, truth values, numbers with a symbolic digit or a fraction, texts of up to 2 (thorough: 4) symbolic letters, of a number, of a truth value in any case, empty, arrays, objects) with 16 constants, by all six operators, on either side: verdict and status
//vz:cover converted fallback
func vz_C30_constant() func() {
	var ms [][2][6]*FastMatcher
	for _, c := range vz30Consts {
		var m [2][6]*FastMatcher
		for i, op := range vz30Ops {
			m[0][i] = vzMatcher(op(vzF("a"), ValueExpr{c}))
			m[1][i] = vzMatcher(op(ValueExpr{c}, vzF("a")))
		}
		ms = append(ms, m)
	}
	return func() {
		ci, op, rev := vzChoice(len(vz30Consts)), vzChoice(6), vzChoice(2)
		text, v := vz30Leaf(vzChoice(vz30Kinds))
		lt, eq, conv, spec := vz30Cmp(v, vz30Const(ci))
		vzAssume(spec)
		r, st := vz30Match(ms[ci][rev][op], []byte(`{"a":`+text+`}`))
		o := op
		if rev == 1 {
			o = []int{0, 1, 4, 5, 2, 3}[op]
		}
		vzObserve("r", r, st)
		vzAssert(r == vz30Verdict(o, lt, eq), "wrong verdict of a comparison with a constant")
		vzAssert(st == !conv, "the status does not tell whether the comparison fell back on the order of kinds")
		if conv {
			vzCover("converted")
		} else {
			vzCover("fallback")
		}
	}
}

var _ = vzRegS("vz_C30_constant", vz_C30_constant)

//vz:bound AND, OR and NOT of two comparisons of members a and b with 5 constants (one operator each of =, < and >=), members of 10 (thorough: all) of the kinds in either order: no fallback is reported if neither comparison alone reports one, one is if both comparisons had to be made and one of them reports it, and none is without one
//vz:cover reported unreported
func vz_C30_trees() func() {
	cs := []interface{}{5, 1.5, true, nil, "x"}
	leaf := func(f string, i int) Expression {
		return []func(a, b Expression) Expression{vz30Ops[0], vz30Ops[2], vz30Ops[5]}[i%3](vzF(f), ValueExpr{cs[i]})
	}
	n := len(cs)
	var la, lb []*FastMatcher
	for i := 0; i < n; i++ {
		la, lb = append(la, vzMatcher(leaf("a", i))), append(lb, vzMatcher(leaf("b", i)))
	}
	var ms [][4]*FastMatcher
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			a, b := leaf("a", i), leaf("b", j)
			ms = append(ms, [4]*FastMatcher{vzMatcher(AndExpr{a, b}), vzMatcher(OrExpr{a, b}), vzMatcher(NotExpr{AndExpr{a, NotExpr{b}}}), vzMatcher(AndExpr{NotExpr{a}, b})})
		}
	}
	return func() {
		i, j, k := vzChoice(n), vzChoice(n), vzChoice(4)
		kinds := []int{0, 1, 3, 5, 6, 7, 8, 10, 12, 13}
		if vzThorough() {
			kinds = append(kinds, 2, 4, 9, 11, 14)
		}
		ta, _ := vz30Leaf(kinds[vzChoice(len(kinds))])
		tb, _ := vz30Leaf(kinds[vzChoice(len(kinds))])
		doc := []byte(`{"a":` + ta + `,"b":` + tb + "}")
		if vzChoice(2) == 1 {
			doc = []byte(`{"b":` + tb + `,"a":` + ta + "}")
		}
		ra, fa := vz30Match(la[i], doc)
		la[i].Reset()
		rb, fb := vz30Match(lb[j], doc)
		lb[j].Reset()
		r, f := vz30Match(ms[i*n+j][k], doc)
		ms[i*n+j][k].Reset()
		var want, both bool
		switch k {
		case 0:
			want = ra && rb
			both = want
		case 1:
			want = ra || rb
			both = !want
		case 2:
			want = !(ra && !rb)
			both = !want
		case 3:
			want = !ra && rb
			both = want
		}
		vzAssert(r == want, "wrong verdict")
		vzAssert(!f || fa || fb, "a fallback is reported although no comparison had one")
		if both {
			vzAssert(f == (fa || fb), "a fallback was not reported")
		}
		if f {
			vzCover("reported")
		} else {
			vzCover("unreported")
		}
	}
}

//vz:bound ANY, EVERY and ANY AND EVERY over an array of up to 2 (thorough: 3) elements of 7 (12) kinds, each compared with one of 3 constants: a fallback is reported only if an element's comparison has one, and always if one does and all elements had to be looked at
//vz:cover reported unreported
func vz_C30_loops() func() {
	cs := []interface{}{5, true, "x"}
	var el []*FastMatcher
	var ms [][3]*FastMatcher
	for i, c := range cs {
		op := vz30Ops[[]int{0, 2, 4}[i]]
		el = append(el, vzMatcher(op(vzF("a"), ValueExpr{c})))
		body := op(vzVar(1), ValueExpr{c})
		ms = append(ms, [3]*FastMatcher{vzMatcher(AnyInExpr{1, vzF("l"), body}), vzMatcher(EveryInExpr{1, vzF("l"), body}), vzMatcher(AnyEveryInExpr{1, vzF("l"), body})})
	}
	return func() {
		c, k := vzChoice(len(cs)), vzChoice(3)
		kinds := []int{0, 1, 3, 6, 7, 10, 12}
		doc := `{"l":[`
		any, every, fell := false, true, false
		max := 2
		if vzThorough() {
			max = 3
			kinds = []int{0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 13}
		}
		n := vzChoice(max + 1)
		for i := 0; i < n; i++ {
			t, _ := vz30Leaf(kinds[vzChoice(len(kinds))])
			r, f := vz30Match(el[c], []byte(`{"a":`+t+`}`))
			el[c].Reset()
			any, every, fell = any || r, every && r, fell || f
			if i > 0 {
				doc += ","
			}
			doc += t
		}
		r, f := vz30Match(ms[c][k], []byte(doc+"]}"))
		ms[c][k].Reset()
		vzAssert(r == []bool{any, every, every && n > 0}[k], "wrong verdict of a loop")
		vzAssert(!f || fell, "a fallback is reported although no comparison had one")
		if k == 0 && !any || k != 0 && every {
			vzAssert(f == fell, "a fallback was not reported")
		}
		if f {
			vzCover("reported")
		} else {
			vzCover("unreported")
		}
	}
}

//vz:bound two members of kinds that do not convert into each other (null against anything; arrays and objects against anything else; texts against texts, numbers against numbers, symbolic digits and letters), in either order, all six operators: by kind or by value; no fallback reported for two of one kind
//vz:cover kinds values
func vz_C30_members() func() {
	var ms [6]*FastMatcher
	for i, op := range vz30Ops {
		ms[i] = vzMatcher(op(vzF("a"), vzF("b")))
	}
	return func() {
		ka, kb, op := vzChoice(vz30Kinds), vzChoice(vz30Kinds), vzChoice(6)
		ta, a := vz30Leaf(ka)
		tb, b := vz30Leaf(kb)
		lt, eq := a.rank < b.rank, false
		if a.rank == b.rank {
			switch a.rank {
			case vz30Null, vz30Bool, vz30Num:
				lt, eq = a.num < b.num, a.num == b.num
			case vz30Str:
				lt, eq = string(a.str) < string(b.str), string(a.str) == string(b.str)
			default:
				lt, eq = ta < tb, ta == tb
			}
			vzCover("values")
		} else {
			vzAssume(a.rank == vz30Null || b.rank == vz30Null || a.rank >= vz30Arr || b.rank >= vz30Arr)
			vzCover("kinds")
		}
		doc := `{"a":` + ta + `,"b":` + tb + "}"
		if vzChoice(2) == 1 {
			doc = `{"b":` + tb + `,"a":` + ta + "}"
		}
		r, st := vz30Match(ms[op], []byte(doc))
		ms[op].Reset()
		vzAssert(r == vz30Verdict(op, lt, eq), "wrong verdict of a comparison of two members")
		if a.rank == b.rank {
			vzAssert(!st, "a fallback is reported for values of one kind")
		} else if a.rank >= vz30Arr && b.rank > vz30Null || b.rank >= vz30Arr && a.rank > vz30Null {
			vzAssert(st, "a fallback was not reported")
		}
	}
}

var _ = vzRegS("vz_C30_trees", vz_C30_trees)
var _ = vzRegS("vz_C30_loops", vz_C30_loops)
var _ = vzRegS("vz_C30_members", vz_C30_members)
