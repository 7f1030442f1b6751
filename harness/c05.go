package gojsonsm

// ANY, EVERY, ANY AND EVERY.

func vz05Bodies(v VariableID) []Expression {
	x := func(p ...string) FieldExpr { return vzVar(v, p...) }
	return []Expression{
		vzEq(x(), vzN(1)),
		NotExpr{vzEq(x("b"), vzN(1))},
		vzEq(x("b"), x("c")),
		NotExpr{vzEq(x("b"), x("c"))},
		AndExpr{vzEq(x("b"), vzN(1)), vzLt(x("c"), vzN(4))},
		OrExpr{NotExistsExpr{x("b")}, vzEq(x("c"), vzN(2))},
		ExistsExpr{x("b")},
		vzEq(x(), vzF("b")),
		NotExpr{GreaterThanExpr{x("b"), vzF("b")}},
		vzEq(x("[0]"), vzN(1)),
		AndExpr{vzLt(x(), vzN(5)), NotEqualsExpr{x(), vzN(0)}},
		TrueExpr{},
		FalseExpr{},
	}
}

func vz05Loop(mode int, v VariableID, over, body Expression) Expression {
	switch mode {
	case 0:
		return AnyInExpr{v, over, body}
	case 1:
		return EveryInExpr{v, over, body}
	}
	return AnyEveryInExpr{v, over, body}
}

//vz:bound ANY, EVERY and ANY AND EVERY over member a with 13 bodies, each plain and negated; documents: member a any value of up to 5 (thorough: 6) nodes, arrays of up to 3 elements, objects with members b, c in any order; member b any digit, before or after a, or missing
//vz:cover matched unmatched
func vz_C05_loops() func() {
	defs := []vzDef{}
	for _, b := range vz05Bodies(1) {
		for mode := 0; mode < 3; mode++ {
			l := vz05Loop(mode, 1, vzF("a"), b)
			defs = append(defs, vzCompile(l), vzCompile(NotExpr{l}))
		}
	}
	return func() {
		d := defs[vzChoice(len(defs))]
		n := 5
		if vzThorough() {
			n = 6
		}
		g := &vzGen{nodes: n, keys: []string{"b", "c"}, elems: 3}
		root := &vzV{k: vzKObj}
		order := vzChoice(3)
		if order == 1 {
			root.keys = append(root.keys, "b")
			root.vals = append(root.vals, &vzV{k: vzKInt, num: vzDigit()})
		}
		root.keys = append(root.keys, "a")
		root.vals = append(root.vals, g.value(2))
		if order == 2 {
			root.keys = append(root.keys, "b")
			root.vals = append(root.vals, &vzV{k: vzKInt, num: vzDigit()})
		}
		vzSame(d, root, "")
	}
}

//vz:bound 24 nested or repeated loops (depth 2, bodies using the inner variable, the outer variable and root members; two loops over one array; a loop and an index or EXISTS on one array; loops over the root, nested members and shared prefixes); documents of up to 5 (thorough: 6) nodes, members a, b, arrays of up to 2 (thorough: 3) elements
//vz:cover matched unmatched
func vz_C05_nested() func() {
	a, ab := vzF("a"), vzF("a", "b")
	v := func(p ...string) FieldExpr { return vzVar(1, p...) }
	w := func(p ...string) FieldExpr { return vzVar(2, p...) }
	any := func(id VariableID, over, body Expression) Expression { return AnyInExpr{id, over, body} }
	every := func(id VariableID, over, body Expression) Expression { return EveryInExpr{id, over, body} }
	both := func(id VariableID, over, body Expression) Expression { return AnyEveryInExpr{id, over, body} }
	exprs := []Expression{
		any(1, a, any(2, v(), vzEq(w(), vzN(1)))),
		every(1, a, any(2, v(), vzEq(w(), vzN(1)))),
		any(1, a, every(2, v(), vzEq(w(), vzN(1)))),
		both(1, a, every(2, v(), NotExpr{vzEq(w(), vzN(1))})),
		every(1, a, both(2, v("a"), vzLt(w(), v("b")))),
		any(1, a, any(2, v("a"), vzEq(w(), v("b")))),
		any(1, a, AndExpr{vzEq(v("b"), vzN(1)), every(2, v("a"), vzEq(w(), vzN(1)))}),
		every(1, a, OrExpr{vzEq(v("b"), vzN(1)), any(2, v("a"), vzEq(w(), vzN(1)))}),
		any(1, a, every(2, v(), vzEq(w(), vzF("b")))),
		AndExpr{any(1, a, vzEq(v(), vzN(1))), vzEq(vzF("a", "[0]"), vzN(1))},
		OrExpr{every(1, a, vzEq(v(), vzN(1))), vzEq(vzF("a", "[1]"), vzN(2))},
		AndExpr{any(1, a, vzEq(v(), vzN(1))), any(1, a, vzEq(v(), vzN(2)))},
		OrExpr{every(1, a, vzEq(v(), vzN(1))), both(2, a, vzEq(w(), vzN(2)))},
		AndExpr{ExistsExpr{a}, NotExpr{any(1, a, vzEq(v(), vzN(1)))}},
		AndExpr{any(1, a, vzEq(v(), vzN(1))), NotExpr{every(1, vzF("b"), vzEq(v(), vzN(1)))}},
		any(1, vzF(), vzEq(v(), vzN(1))),
		every(1, vzF(), ExistsExpr{v("a")}),
		any(1, ab, vzEq(v(), vzF("a", "a"))),
		every(1, ab, vzEq(v(), vzF("b"))),
		any(1, ab, vzEq(v(), vzN(1))),
		AndExpr{any(1, ab, vzEq(v(), vzN(1))), ExistsExpr{a}},
		any(1, a, vzEq(v(), vzF("a", "[1]"))),
		every(1, vzF("a", "[0]"), vzEq(v(), vzN(1))),
		any(1, a, any(2, v(), vzLt(v("[1]"), w()))),
		any(1, a, any(2, v("a"), AndExpr{ExistsExpr{v("b")}, vzEq(w("a"), v("b"))})),
	}
	defs := vzCompileEach(exprs)
	return func() {
		d := defs[vzChoice(len(defs))]
		n, el := 5, 2
		if vzThorough() {
			n, el = 6, 3
		}
		g := &vzGen{nodes: n, keys: []string{"a", "b"}, elems: el}
		var root *vzV
		if vzChoice(2) == 0 {
			root = g.object(4)
		} else {
			root = g.array(2)
		}
		vzSame(d, root, "")
	}
}

var _ = vzRegS("vz_C05_loops", vz_C05_loops)
var _ = vzRegS("vz_C05_nested", vz_C05_nested)

//vz:bound ANY, EVERY and ANY AND EVERY, plain and negated, over an array of 8, 17 or 65 (thorough: 8 to 130) elements of which one (near either end or a power of two) is any digit, wrapped in nothing, an array or an object, with a condition on a later member; loops nested 3 to 5 (thorough: 6) deep
//vz:cover matched unmatched
func vz_C05_many() func() {
	sizes := []int{8, 17, 65}
	if vzThorough() {
		sizes = append(sizes, 33, 9, 16, 32, 64, 130)
	}
	type def struct {
		vzDef
		x, wrap int
		deep    int
	}
	var defs []def
	wraps := [][]string{nil, {"[0]"}, {"a"}}
	for mode := 0; mode < 3; mode++ {
		for w, p := range wraps {
			for x := 1; x < 3; x++ {
				l := vz05Loop(mode, 1, vzF("l"), vzEq(vzVar(1, p...), vzN(1)))
				defs = append(defs, def{vzCompile(l), x, w, 0}, def{vzCompile(NotExpr{l}), x, w, 0},
					def{vzCompile(AndExpr{l, vzEq(vzF("z"), vzN(1))}), x, w, 0}, def{vzCompile(OrExpr{NotExpr{l}, vzEq(vzF("z"), vzN(1))}), x, w, 0})
			}
		}
	}
	deep := 5
	if vzThorough() {
		deep = 6
	}
	for n := 3; n <= deep; n++ {
		for mode := 0; mode < 3; mode++ {
			for _, body := range []Expression{vzEq(vzVar(VariableID(n)), vzN(1)), vzEq(vzVar(VariableID(n)), vzF("z")), NotExpr{vzLt(vzVar(VariableID(n)), vzN(5))}} {
				e := body
				for i := n; i > 0; i-- {
					over := vzF("l")
					if i > 1 {
						over = vzVar(VariableID(i - 1))
					}
					m := mode
					if i%2 == 0 {
						m = 0
					}
					e = vz05Loop(m, VariableID(i), over, e)
				}
				defs = append(defs, def{vzCompile(e), 0, 0, n})
			}
		}
	}
	digit := func() *vzV { return &vzV{k: vzKInt, num: vzDigit()} }
	return func() {
		d := defs[vzChoice(len(defs))]
		root := &vzV{k: vzKObj, keys: []string{"l", "z"}}
		l := &vzV{k: vzKArr}
		if d.deep > 0 {
			l.vals = []*vzV{digit(), digit()}
			for i := 1; i < d.deep; i++ {
				l = &vzV{k: vzKArr, vals: []*vzV{l}}
				switch vzChoice(3) {
				case 1:
					l.vals = append(l.vals, vzInt(1))
				case 2:
					l.vals = append([]*vzV{{k: vzKArr}}, l.vals...)
				}
			}
			root.vals = []*vzV{l, digit()}
			if vzChoice(2) == 1 {
				root.keys, root.vals = []string{"z", "l"}, []*vzV{root.vals[1], root.vals[0]}
			}
			vzSame(d.vzDef, root, "")
			return
		}
		n := sizes[vzChoice(len(sizes))]
		k := vzPick(n)
		for i := 0; i < n; i++ {
			x := vzInt(d.x)
			if i == k {
				x = digit()
			}
			switch d.wrap {
			case 1:
				x = &vzV{k: vzKArr, vals: []*vzV{x}}
			case 2:
				x = &vzV{k: vzKObj, keys: []string{"a"}, vals: []*vzV{x}}
			}
			l.vals = append(l.vals, x)
		}
		root.vals = []*vzV{l, digit()}
		vzSame(d.vzDef, root, "")
	}
}

var _ = vzRegS("vz_C05_many", vz_C05_many)
