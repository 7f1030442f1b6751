package gojsonsm

// Boolean composition against a direct evaluator.

// vz03Expr makes an expression over the given atoms; every shape with at most
// n operators is reachable.
func vz03Expr(n *int, atoms []Expression) Expression {
	if *n > 0 {
		switch vzChoice(4) {
		case 1:
			*n--
			return NotExpr{vz03Expr(n, atoms)}
		case 2:
			*n--
			l := vz03Expr(n, atoms)
			return AndExpr{l, vz03Expr(n, atoms)}
		case 3:
			*n--
			l := vz03Expr(n, atoms)
			return OrExpr{l, vz03Expr(n, atoms)}
		}
	}
	return atoms[vzChoice(len(atoms))]
}

//vz:bound expressions with up to 2 (thorough: 3) AND/OR/NOT over a=1, b<5, EXISTS a, b!=a (thorough also TRUE, FALSE); documents: objects with members a, b in any subset and order, values any digit or null
//vz:cover matched unmatched
func vz_C03_trees() {
	n := 2
	atoms := []Expression{vzEq(vzF("a"), vzN(1)), vzLt(vzF("b"), vzN(5)), ExistsExpr{vzF("a")}, TrueExpr{}, FalseExpr{}}
	if vzThorough() {
		n = 3
		atoms = append(atoms, NotEqualsExpr{vzF("b"), vzF("a")})
	}
	e := vz03Expr(&n, atoms)
	g := &vzGen{nodes: 4, keys: []string{"a", "b"}, extra: 1, noArr: true}
	vzSame(vzCompile(e), g.object(1), "")
}

//vz:bound 18 wider expressions: n-ary AND/OR of no to 5 terms, nested NOT, terms repeated, fields in either order, fields under a common prefix, constants on either side; documents: members a, b, c in any subset and order, values any digit, null or boolean
//vz:cover matched unmatched
func vz_C03_wide() func() {
	a, b, c := vzF("a"), vzF("b"), vzF("c")
	defs := vzCompileEach([]Expression{
		AndExpr{vzEq(a, vzN(1)), vzEq(b, vzN(2)), vzEq(c, vzN(3))},
		OrExpr{vzEq(a, vzN(1)), vzEq(b, vzN(2)), vzEq(c, vzN(3))},
		AndExpr{vzEq(a, vzN(1))},
		NotExpr{NotExpr{NotExpr{vzEq(a, vzN(1))}}},
		OrExpr{AndExpr{vzEq(a, vzN(1)), vzEq(b, vzN(1))}, AndExpr{vzEq(b, vzN(2)), vzEq(c, vzN(2))}, NotExpr{ExistsExpr{c}}},
		AndExpr{OrExpr{vzEq(a, b), vzEq(b, c)}, NotExpr{AndExpr{vzEq(a, b), vzEq(b, c)}}},
		AndExpr{GreaterThanExpr{a, b}, GreaterEqualsExpr{b, c}, LessEqualsExpr{c, a}, NotEqualsExpr{a, c}, NotExistsExpr{vzF("d")}},
		OrExpr{vzLt(vzN(3), a), vzLt(b, vzN(3)), NotEqualsExpr{vzN(3), c}},
		AndExpr{NotExpr{vzEq(a, vzN(1))}, NotExpr{vzEq(b, vzN(1))}, NotExpr{vzEq(c, vzN(1))}},
		NotExpr{OrExpr{vzEq(c, vzN(1)), vzEq(b, vzN(1)), vzEq(a, vzN(1)), vzEq(c, a)}},
		OrExpr{NotExistsExpr{a}, AndExpr{NotExistsExpr{b}, ExistsExpr{c}}},
		AndExpr{OrExpr{TrueExpr{}, vzEq(a, vzN(1))}, NotExpr{FalseExpr{}}, OrExpr{FalseExpr{}, vzEq(b, vzN(1))}},
		AndExpr{vzEq(a, a), vzEq(a, b)},
		AndExpr{OrExpr{AndExpr{}, vzEq(a, vzN(1))}, vzEq(b, vzN(2))},
		OrExpr{OrExpr{}, NotExpr{OrExpr{OrExpr{}, vzEq(c, vzN(3))}}},
		AndExpr{}, OrExpr{}, NotExpr{AndExpr{}},
	})
	return func() {
		g := &vzGen{nodes: 5, keys: []string{"a", "b", "c"}, extra: 1, noArr: true}
		vzSame(defs[vzChoice(len(defs))], g.object(1), "")
	}
}

var _ = vzReg("vz_C03_trees", vz_C03_trees)
var _ = vzRegS("vz_C03_wide", vz_C03_wide)

//vz:bound AND and OR of 7 to 65 comparisons of as many members, one of them (near either end or a power of two) any digit and the others all true or all false, flat, nested to the left, to the right or halved, plain and under 1 to 9 NOTs; members in either order
//vz:cover matched unmatched
func vz_C03_many() func() {
	sizes := []int{7, 9, 16, 17, 33, 65}
	if vzThorough() {
		sizes = append(sizes, 8, 15, 32, 48)
	}
	join := func(or bool, xs []Expression) Expression {
		if or {
			return OrExpr(xs)
		}
		return AndExpr(xs)
	}
	var tree func(or bool, xs []Expression, shape int) Expression
	tree = func(or bool, xs []Expression, shape int) Expression {
		if shape == 0 || len(xs) == 1 {
			return join(or, xs)
		}
		at := 1
		switch shape {
		case 1:
			at = len(xs) - 1
		case 3:
			at = len(xs) / 2
		}
		return join(or, []Expression{tree(or, xs[:at], shape), tree(or, xs[at:], shape)})
	}
	type def struct {
		vzDef
		n  int
		or bool
	}
	var defs []def
	for i, n := range sizes {
		var xs []Expression
		for j := 0; j < n; j++ {
			xs = append(xs, vzEq(vzF(vzMember(j)), vzN(1)))
		}
		for k := 0; k < 8; k++ {
			e := tree(k&1 == 1, xs, k/2)
			if k/2 == i%4 {
				for l := 0; l <= i; l++ {
					e = NotExpr{e}
				}
			}
			defs = append(defs, def{vzCompile(e), n, k&1 == 1})
		}
	}
	return func() {
		d := defs[vzChoice(len(defs))]
		x := 1
		if d.or {
			x = 2
		}
		vzSame(d.vzDef, vzMany(d.n, vzPick(d.n), vzInt(x), vzChoice(2) == 1), "")
	}
}

var _ = vzRegS("vz_C03_many", vz_C03_many)
