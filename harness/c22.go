package gojsonsm

// Compacting an expression keeps its meaning.

// vz22Expr makes an expression of at most n operators and loops whose leaves
// may be constants.
func vz22Expr(n *int, vars []VariableID) Expression {
	leaves := []Expression{TrueExpr{}, FalseExpr{}, vzEq(vzF("a"), vzN(1))}
	if len(vars) > 0 {
		leaves = append(leaves, vzEq(vzVar(vars[len(vars)-1]), vzN(2)))
	}
	if *n == 0 {
		return leaves[vzChoice(len(leaves))]
	}
	*n--
	id := VariableID(len(vars) + 1)
	in := vzF([]string{"l", "m"}[len(vars)&1])
	switch vzChoice(8) {
	case 1:
		l := vz22Expr(n, vars)
		return AndExpr{l, vz22Expr(n, vars)}
	case 2:
		l := vz22Expr(n, vars)
		return OrExpr{l, vz22Expr(n, vars)}
	case 3:
		l := vz22Expr(n, vars)
		return AndExpr{l}
	case 4:
		return NotExpr{vz22Expr(n, vars)}
	case 5:
		return AnyInExpr{id, in, vz22Expr(n, append(vars, id))}
	case 6:
		return EveryInExpr{id, in, vz22Expr(n, append(vars, id))}
	case 7:
		return AnyEveryInExpr{id, in, vz22Expr(n, append(vars, id))}
	}
	*n++
	return leaves[vzChoice(len(leaves))]
}

//vz:bound expressions of up to 2 (thorough: 3) AND, OR, NOT, ANY, EVERY and ANY AND EVERY over TRUE, FALSE, a comparison of a member and of the loop variable; documents: a present or missing, two members that are missing, no array, or arrays of up to 2 elements, all numbers symbolic
//vz:cover matched unmatched changed
func vz_C22_compact() {
	n := 2
	if vzThorough() {
		n = 3
	}
	e := vz22Expr(&n, nil)
	s := e.String()
	var c Expression
	p := vzPanics(func() { c = CompactExpression(e) })
	vzAssert(p == "", "compacting panicked: "+p)
	vzAssert(e.String() == s, "compacting altered the expression")
	if c.String() != s {
		vzCover("changed")
	}
	root := &vzV{k: vzKObj}
	add := func(key string) {
		root.keys = append(root.keys, key)
		switch vzChoice(3) {
		case 0:
			root.keys = root.keys[:len(root.keys)-1]
		case 1:
			root.vals = append(root.vals, &vzV{k: vzKInt, num: vzDigit()})
		case 2:
			a := &vzV{k: vzKArr}
			for i := vzChoice(3); i > 0; i-- {
				a.vals = append(a.vals, &vzV{k: vzKInt, num: vzDigit()})
			}
			root.vals = append(root.vals, a)
		}
	}
	if vzChoice(2) == 1 {
		root.keys = append(root.keys, "a")
		root.vals = append(root.vals, &vzV{k: vzKInt, num: vzDigit()})
	}
	add("l")
	add("m")
	env := &vzEnv{root: root}
	want := env.eval(e)
	vzAssert(env.eval(c) == want, "the compacted expression means something else")
	if want {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

//vz:bound 12 expressions with constants inside; the compacted expression is matched by a matcher; documents as for C05 of up to 4 values
//vz:cover matched unmatched
func vz_C22_match() func() {
	in := func(k int, body Expression) Expression {
		switch k {
		case 0:
			return AnyInExpr{1, vzF("l"), body}
		case 1:
			return EveryInExpr{1, vzF("l"), body}
		}
		return AnyEveryInExpr{1, vzF("l"), body}
	}
	es := []Expression{}
	for k := 0; k < 3; k++ {
		es = append(es, in(k, TrueExpr{}), in(k, FalseExpr{}), OrExpr{FalseExpr{}, in(k, TrueExpr{})}, AndExpr{TrueExpr{}, in(k, FalseExpr{}), vzEq(vzF("a"), vzN(1))})
	}
	es = append(es, OrExpr{AndExpr{TrueExpr{}, vzEq(vzF("a"), vzN(1))}, FalseExpr{}}, AndExpr{OrExpr{FalseExpr{}}, vzEq(vzF("a"), vzN(1))}, OrExpr{AndExpr{}, vzEq(vzF("a"), vzN(1))})
	var defs []vzDef
	for _, e := range es {
		d := vzCompile(CompactExpression(e))
		d.exprs = []Expression{e}
		defs = append(defs, d)
	}
	return func() {
		g := &vzGen{nodes: 4, keys: []string{"a", "l"}, elems: 2}
		vzSame(defs[vzChoice(len(defs))], g.object(2), "")
	}
}

var _ = vzReg("vz_C22_compact", vz_C22_compact)
var _ = vzRegS("vz_C22_match", vz_C22_match)

//vz:bound AND and OR of 7 or 16 (thorough: and 33) operands that are comparisons of as many members but one (near either end or a power of two), which is TRUE, FALSE, an empty AND or OR, a negated constant or a loop over a constant, flat or nested up to 9 deep in AND, OR, NOT and loops; members all alike but one, any digit
//vz:cover matched unmatched
func vz_C22_many() {
	sizes := 2
	if vzThorough() {
		sizes = 3
	}
	n := []int{7, 16, 33}[vzChoice(sizes)]
	k := vzPick(n)
	or := vzChoice(2) == 1
	var xs []Expression
	for i := 0; i < n; i++ {
		xs = append(xs, vzEq(vzF(vzMember(i)), vzN(1)))
	}
	switch vzChoice(7) {
	case 0:
		xs[k] = TrueExpr{}
	case 1:
		xs[k] = FalseExpr{}
	case 2:
		xs[k] = NotExpr{TrueExpr{}}
	case 3:
		xs[k] = NotExpr{NotExpr{TrueExpr{}}}
	case 4:
		xs[k] = AndExpr{OrExpr{FalseExpr{}, FalseExpr{}}, xs[k]}
	case 5:
		xs[k] = EveryInExpr{1, vzF("m0"), TrueExpr{}}
	case 6:
		xs[k] = AnyInExpr{1, vzF("l"), OrExpr{TrueExpr{}, vzEq(vzVar(1), vzN(1))}}
	}
	var e Expression = AndExpr(xs)
	if or {
		e = OrExpr(xs)
	}
	for i := vzChoice(4) * 3; i > 0; i-- {
		switch i % 4 {
		case 0:
			e = NotExpr{e}
		case 1:
			e = AndExpr{TrueExpr{}, e}
		case 2:
			e = OrExpr{e, FalseExpr{}}
		case 3:
			e = AnyInExpr{VariableID(1 + i), vzF("l"), e}
		}
	}
	s := e.String()
	var c Expression
	p := vzPanics(func() { c = CompactExpression(e) })
	vzAssert(p == "", "compacting panicked: "+p)
	vzAssert(e.String() == s, "compacting altered the expression")
	root := vzMany(n, vzPick(n), vzInt(1+vzChoice(2)), false)
	if vzChoice(2) == 1 {
		root.keys = append(root.keys, "l")
		root.vals = append(root.vals, &vzV{k: vzKArr, vals: []*vzV{vzInt(1)}})
	}
	env := &vzEnv{root: root}
	want := env.eval(e)
	vzAssert(env.eval(c) == want, "the compacted expression means something else")
	if want {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

var _ = vzReg("vz_C22_many", vz_C22_many)
