package gojsonsm

// A transformer can be used again: what it compiled before neither shows in
// what it compiles now nor suffers from it.

//vz:bound every ordered pair out of 17 lists of expressions (comparisons, AND, OR, NOT, slots, loops, nested loops, constants, two and three expressions, and two that cannot be compiled) compiled one after the other by one transformer, the first list once or twice before; documents of up to 3 (thorough: 4) nodes with members a, b and arrays of up to 2 elements; matchers of the first and the second definition, used in either order, against an independent evaluator
//vz:cover first second both
func vz_C32_reuse() func() {
	a, b := vzF("a"), vzF("b")
	v := func(p ...string) FieldExpr { return vzVar(1, p...) }
	lists := [][]Expression{
		{vzEq(a, vzN(1))},
		{NotExpr{ExistsExpr{b}}},
		{AndExpr{vzEq(a, vzN(1)), NotExpr{vzEq(b, vzN(2))}}},
		{OrExpr{vzEq(vzF("a", "a"), vzN(1)), vzLt(b, vzN(4)), ExistsExpr{vzF("b", "a")}}},
		{vzEq(a, b)},
		{NotExpr{vzEq(vzF("a", "[0]"), vzF("a", "[1]"))}},
		{AnyInExpr{1, a, vzEq(v(), vzN(1))}},
		{EveryInExpr{1, a, vzEq(v(), b)}},
		{AnyEveryInExpr{1, vzF(), NotExpr{vzEq(v("a"), v("b"))}}},
		{AnyInExpr{1, a, AnyInExpr{2, v(), vzEq(vzVar(2), b)}}},
		{TrueExpr{}},
		{FalseExpr{}, FalseExpr{}},
		{vzEq(a, vzN(1)), NotExpr{vzEq(b, vzN(1))}},
		{FalseExpr{}, vzEq(a, b), AnyInExpr{1, b, vzLt(v(), a)}},
		{OrExpr{TrueExpr{}, vzEq(a, vzN(1))}, NotExistsExpr{a}},
		{AnyInExpr{1, a, AnyInExpr{2, b, ValueExpr{1}}}}, // no condition
		{vzEq(v(), vzVar(2))},
	}
	bad := len(lists) - 2 // and after
	type pair struct {
		first, second vzDef
		bad           bool
	}
	pairs := []pair{}
	for i, x := range lists {
		for j, y := range lists {
			for again := 0; again < 2; again++ {
				p := pair{first: vzDef{exprs: x}, second: vzDef{exprs: y}, bad: i >= bad}
				var t Transformer
				for k := 0; k <= again; k++ {
					msg := vzPanics(func() { p.first.def = t.Transform(x) })
					vzAssert((msg != "") == p.bad, "wrong outcome of compiling: "+msg)
				}
				msg := vzPanics(func() { p.second.def = t.Transform(y) })
				if j >= bad {
					vzAssert(msg != "", "a variable of no loop was accepted")
				} else {
					vzAssert(msg == "", "a transformer used again panicked: "+msg)
					pairs = append(pairs, p)
				}
			}
		}
	}
	return func() {
		p := pairs[vzChoice(len(pairs))]
		n := 3
		if vzThorough() {
			n = 4
		}
		g := &vzGen{nodes: n, keys: []string{"a", "b"}, elems: 2}
		root := &vzV{}
		if vzChoice(2) == 0 {
			root = g.object(3)
		} else {
			root = g.array(2)
		}
		if p.bad {
			vzSame(p.second, root, "")
			vzCover("second")
			return
		}
		if vzChoice(2) == 0 {
			vzSame(p.first, root, "")
			vzCover("first")
			return
		}
		doc := root.render(nil, "")
		m := NewFastMatcher(p.first.def)
		vzSameM(NewFastMatcher(p.second.def), p.second, root, doc)
		vzSameM(m, p.first, root, doc)
		vzCover("both")
	}
}

var _ = vzRegS("vz_C32_reuse", vz_C32_reuse)
