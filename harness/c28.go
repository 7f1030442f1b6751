package gojsonsm

// A verdict given before the end of the document is the verdict of the whole
// document.

//vz:bound 21 expressions (comparisons, AND/OR/NOT, slots, loops, two expressions at once); documents of up to 4 (thorough: 5) nodes with members a, b, arrays of up to 2 elements, cut off between any two tokens, optionally continued by a colon (thorough: any one byte that cannot belong to JSON text there): an answer without an error is the answer for the whole document
//vz:cover cut-error cut-answered
func vz_C28_prefix() func() {
	a, b := vzF("a"), vzF("b")
	v := func(p ...string) FieldExpr { return vzVar(1, p...) }
	defs := vzCompileEach([]Expression{
		vzEq(a, vzN(1)),
		NotExpr{vzEq(a, vzN(1))},
		AndExpr{vzEq(a, vzN(1)), vzEq(b, vzN(1))},
		OrExpr{vzEq(a, vzN(1)), vzEq(b, vzN(1))},
		OrExpr{NotExpr{ExistsExpr{a}}, vzEq(b, vzN(1))},
		NotExistsExpr{b},
		vzEq(a, b),
		NotExpr{vzEq(vzF("a", "a"), vzF("a", "b"))},
		AnyInExpr{1, a, vzEq(v(), vzN(1))},
		EveryInExpr{1, a, vzEq(v(), vzN(1))},
		AnyEveryInExpr{1, a, vzEq(v(), vzN(1))},
		NotExpr{EveryInExpr{1, a, ExistsExpr{v("b")}}},
		AnyInExpr{1, a, NotExpr{vzEq(v("a"), v("b"))}},
		EveryInExpr{1, a, vzEq(v(), b)},
		AnyInExpr{1, vzF(), vzEq(v(), vzN(1))},
		AndExpr{NotExistsExpr{vzF("a", "[1]")}, ExistsExpr{vzF("a", "[0]")}},
		ExistsExpr{a},
	})
	defs = append(defs, vzCompile(vzEq(a, vzN(1)), NotExpr{vzEq(b, vzN(1))}),
		vzCompile(AnyInExpr{1, a, vzEq(v(), vzN(1))}, EveryInExpr{1, b, vzEq(v(), vzN(1))}),
		vzCompile(NotExpr{ExistsExpr{a}}, NotExpr{ExistsExpr{b}}),
		vzCompile(TrueExpr{}, vzEq(a, vzN(1))))
	return func() {
		d := defs[vzChoice(len(defs))]
		n := 4
		if vzThorough() {
			n = 5
		}
		g := &vzGen{nodes: n, keys: []string{"a", "b"}, elems: 2}
		root := &vzV{}
		if vzChoice(2) == 0 {
			root = g.object(3)
		} else {
			root = g.array(2)
		}
		doc := root.render(nil, "")
		t := vzChoice(len(doc))
		cut := append([]byte{}, doc[:t]...)
		// not inside a member name
		q := 0
		for _, c := range cut {
			if c == '"' {
				q++
			}
		}
		vzAssume(q%2 == 0)
		if vzChoice(2) == 1 {
			c := byte(':')
			if vzThorough() {
				c = vzU8()
			}
			vzAssume(vzAnd(c != ' ', c != '\n') && vzAnd(c != '\t', c != '\r'))
			vzAssume(c != doc[t])
			// what could still become a value, a name or an end is no error yet
			vzAssume(vzAnd(c != '"', c != '-') && !vzAnd(c >= '0', c <= '9'))
			vzAssume(vzAnd(c != '{', c != '['))
			vzAssume(vzAnd(c != '}', c != ']') && c != ',')
			cut = append(cut, c)
		}
		m := NewFastMatcher(d.def)
		r, err, p := vzMatch(m, cut)
		vzAssert(p == "", "Match panicked: "+p)
		vzObserve("r", r, err == nil)
		if t == 0 && len(cut) == 0 {
			return // the empty text is no document and matches nothing
		}
		if err != nil {
			vzCover("cut-error")
			return
		}
		vzCover("cut-answered")
		f := NewFastMatcher(d.def)
		rf, errf := f.Match(doc)
		vzAssert(errf == nil, "error on a valid document")
		vzAssert(r == rf, "verdict for a document that was cut off differs from the verdict for all of it")
		if r {
			return
		}
		for i := range d.exprs {
			vzAssert(!m.ExpressionMatched(i) || f.ExpressionMatched(i), "expression verdict from a document that was cut off")
		}
	}
}

var _ = vzRegS("vz_C28_prefix", vz_C28_prefix)

//vz:bound AND and OR of 8 comparisons of as many members, plain and negated, and loops over 17 elements; documents with one member or element any digit, members in either order, cut off between any two tokens
//vz:cover cut-error cut-answered
func vz_C28_long() func() {
	var xs []Expression
	for i := 0; i < 8; i++ {
		xs = append(xs, vzEq(vzF(vzMember(i)), vzN(1)))
	}
	v := vzVar(1)
	defs := vzCompileEach([]Expression{
		AndExpr(xs), OrExpr(xs), NotExpr{AndExpr(xs)}, NotExpr{OrExpr(xs)},
		AnyInExpr{1, vzF("l"), vzEq(v, vzN(1))}, EveryInExpr{1, vzF("l"), vzEq(v, vzN(1))}, AnyEveryInExpr{1, vzF("l"), NotExpr{vzEq(v, vzN(1))}},
		NotExpr{EveryInExpr{1, vzF("l"), NotExpr{vzEq(v, vzN(2))}}},
		vzEq(vzF("l", "[16]"), vzF("l", "[3]")), NotExistsExpr{vzF("l", "[17]")},
	})
	defs = append(defs, vzCompile(xs...))
	return func() {
		k := vzChoice(len(defs))
		d := defs[k]
		var root *vzV
		x := vzInt(1 + vzChoice(2))
		if k < 4 || k == len(defs)-1 {
			root = vzMany(8, vzPick(8), x, vzChoice(2) == 1)
		} else {
			l := &vzV{k: vzKArr}
			p := vzPick(17)
			for i := 0; i < 17; i++ {
				y := x
				if i == p {
					y = &vzV{k: vzKInt, num: vzDigit()}
				}
				l.vals = append(l.vals, y)
			}
			root = &vzV{k: vzKObj, keys: []string{"l"}, vals: []*vzV{l}}
		}
		doc := root.render(nil, "")
		t := 1 + vzChoice(len(doc)-1)
		q := 0
		for _, c := range doc[:t] {
			if c == '"' {
				q++
			}
		}
		vzAssume(q%2 == 0)
		m := NewFastMatcher(d.def)
		r, err, p := vzMatch(m, append([]byte{}, doc[:t]...))
		vzAssert(p == "", "Match panicked: "+p)
		if err != nil {
			vzCover("cut-error")
			return
		}
		vzCover("cut-answered")
		f := NewFastMatcher(d.def)
		rf, errf := f.Match(doc)
		vzAssert(errf == nil, "error on a valid document")
		vzAssert(r == rf, "verdict for a document that was cut off differs from the verdict for all of it")
		if r {
			return
		}
		for i := range d.exprs {
			vzAssert(!m.ExpressionMatched(i) || f.ExpressionMatched(i), "expression verdict from a document that was cut off")
		}
	}
}

var _ = vzRegS("vz_C28_long", vz_C28_long)
