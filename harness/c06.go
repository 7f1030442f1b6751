package gojsonsm

// Several expressions in one matcher.

//vz:bound 14 lists of 2..4 expressions (comparisons, AND/OR/NOT, EXISTS, loops over the same and different arrays, duplicates, TRUE, FALSE) compiled into one matcher; documents of up to 5 (thorough: 6) nodes, members a, b in any subset and order, arrays of up to 2 (thorough: 3) elements; every expression's own verdict and the overall verdict
//vz:cover matched unmatched
func vz_C06_lists() func() {
	a, b := vzF("a"), vzF("b")
	v := func(p ...string) FieldExpr { return vzVar(1, p...) }
	anyA := AnyInExpr{1, a, vzEq(v(), vzN(1))}
	everyA := EveryInExpr{1, a, NotExpr{vzEq(v(), vzN(1))}}
	defs := []vzDef{
		vzCompile(vzEq(a, vzN(1)), vzEq(b, vzN(1))),
		vzCompile(vzEq(a, vzN(1)), vzEq(a, vzN(1))),
		vzCompile(NotExpr{vzEq(a, vzN(1))}, vzEq(a, vzN(1)), NotExistsExpr{a}),
		vzCompile(AndExpr{vzEq(a, vzN(1)), vzEq(b, vzN(2))}, OrExpr{vzEq(a, vzN(2)), vzEq(b, vzN(1))}),
		vzCompile(vzEq(a, b), vzLt(a, b), GreaterThanExpr{a, b}, ExistsExpr{b}),
		vzCompile(anyA, everyA),
		vzCompile(anyA, vzEq(vzF("a", "[0]"), vzN(1)), vzEq(vzF("a", "b"), vzN(1))),
		vzCompile(everyA, AnyInExpr{1, b, vzEq(v(), a)}),
		vzCompile(TrueExpr{}, vzEq(a, vzN(1))),
		vzCompile(vzEq(a, vzN(1)), FalseExpr{}, vzEq(b, vzN(1))),
		vzCompile(FalseExpr{}, FalseExpr{}),
		vzCompile(FalseExpr{}, TrueExpr{}),
		vzCompile(NotExpr{anyA}, OrExpr{anyA, FalseExpr{}}, AndExpr{TrueExpr{}, ExistsExpr{a}}),
		vzCompile(AnyInExpr{1, a, AnyInExpr{2, v("b"), vzEq(vzVar(2), v("a"))}}, EveryInExpr{1, a, ExistsExpr{v("a")}}),
	}
	return func() {
		n, el := 5, 2
		if vzThorough() {
			n, el = 6, 3
		}
		g := &vzGen{nodes: n, keys: []string{"a", "b"}, elems: el}
		vzSame(defs[vzChoice(len(defs))], g.object(3), "")
	}
}

//vz:bound all ordered pairs (thorough: and 200 triples) out of 12 expressions (comparisons, AND, OR, NOT, EXISTS, MISSING, field against field, loops, TRUE, FALSE); documents of up to 4 nodes, members a, b in any subset and order
//vz:cover matched unmatched
func vz_C06_pairs() func() {
	a, b := vzF("a"), vzF("b")
	v := func(p ...string) FieldExpr { return vzVar(1, p...) }
	pool := []Expression{
		vzEq(a, vzN(1)),
		GreaterThanExpr{b, vzN(1)},
		AndExpr{vzEq(a, vzN(1)), vzEq(b, vzN(2))},
		OrExpr{vzEq(a, vzN(2)), vzEq(b, vzN(1))},
		NotExpr{AndExpr{vzEq(b, vzN(1)), ExistsExpr{a}}},
		NotExistsExpr{a},
		vzEq(a, b),
		AnyInExpr{1, a, vzEq(v(), vzN(1))},
		EveryInExpr{1, b, NotExpr{vzEq(v(), vzN(1))}},
		AnyEveryInExpr{1, a, vzEq(v(), b)},
		TrueExpr{},
		FalseExpr{},
	}
	defs := []vzDef{}
	for i, x := range pool {
		for j, y := range pool {
			defs = append(defs, vzCompile(x, y))
			if vzThorough() && (i+j)%2 == 0 {
				for k := (i * j) % 4; k < len(pool); k += 4 {
					defs = append(defs, vzCompile(x, y, pool[k]))
				}
			}
		}
	}
	return func() {
		g := &vzGen{nodes: 4, keys: []string{"a", "b"}, elems: 2, noObj: true}
		vzSame(defs[vzChoice(len(defs))], g.object(2), "")
	}
}

var _ = vzRegS("vz_C06_pairs", vz_C06_pairs)
var _ = vzRegS("vz_C06_lists", vz_C06_lists)

//vz:bound 5 to 65 (thorough: 130) expressions in one matcher - comparisons of as many members, negated or not, of one member with as many numbers, or loops over one array - and documents in which one member or element is any digit, members in either order
//vz:cover matched unmatched
func vz_C06_many() func() {
	sizes := []int{5, 9, 17, 33, 65}
	if vzThorough() {
		sizes = append(sizes, 8, 16, 32, 64, 130)
	}
	type def struct {
		vzDef
		n, kind int
	}
	var defs []def
	for _, n := range sizes {
		for kind := 0; kind < 4; kind++ {
			var xs []Expression
			for i := 0; i < n; i++ {
				f := vzF(vzMember(i))
				switch kind {
				case 0:
					xs = append(xs, vzEq(f, vzN(1)))
				case 1:
					xs = append(xs, NotExpr{vzEq(f, vzN(1))})
				case 2:
					xs = append(xs, vzEq(vzF("m0"), vzN(i)))
				case 3:
					xs = append(xs, AnyInExpr{VariableID(i + 1), vzF("l"), vzEq(vzVar(VariableID(i+1)), vzN(i))})
				}
			}
			defs = append(defs, def{vzCompile(xs...), n, kind})
		}
	}
	return func() {
		d := defs[vzChoice(len(defs))]
		if d.kind == 3 {
			l := &vzV{k: vzKArr, vals: []*vzV{vzInt(3), {k: vzKInt, num: vzDigit()}, vzInt(4)}}
			vzSame(d.vzDef, &vzV{k: vzKObj, keys: []string{"l"}, vals: []*vzV{l}}, "")
			return
		}
		k := 0
		if d.kind < 2 {
			k = vzPick(d.n)
		}
		root := vzMany(d.n, k, vzInt(1+vzChoice(2)), vzChoice(2) == 1)
		if vzChoice(2) == 1 { // the others missing
			root = &vzV{k: vzKObj, keys: []string{vzMember(k)}, vals: []*vzV{root.get(vzMember(k))}}
		}
		vzSame(d.vzDef, root, "")
	}
}

var _ = vzRegS("vz_C06_many", vz_C06_many)
