package gojsonsm

// A matcher that was used and reset is as good as new.

//vz:bound 9 expression lists (cross-kind comparisons, slots, nested loops, NOT, multiple expressions); first document: 8 beginnings followed by up to 1 (thorough: 2) arbitrary bytes (so complete, cut off or malformed); second document: any of up to 3 (thorough: 4) nodes with members a, b; verdict, error, status and each expression compared with a new matcher
//vz:cover first-failed first-ok matched unmatched
func vz_C07_reset() func() {
	a, b := vzF("a"), vzF("b")
	v := func(p ...string) FieldExpr { return vzVar(1, p...) }
	defs := []vzDef{
		vzCompile(vzEq(a, vzN(1))),
		vzCompile(vzLt(a, ValueExpr{"x"}), vzEq(b, ValueExpr{true})),
		vzCompile(vzEq(a, b), NotExpr{vzEq(a, b)}),
		vzCompile(AnyInExpr{1, a, vzEq(v("a"), v("b"))}),
		vzCompile(EveryInExpr{1, a, AnyInExpr{2, v(), NotExpr{vzEq(vzVar(2), vzF("b"))}}}),
		vzCompile(NotExpr{AnyEveryInExpr{1, a, vzEq(v(), vzN(1))}}, ExistsExpr{b}),
		vzCompile(AnyInExpr{1, a, vzEq(v(), b)}, vzEq(vzF("a", "b"), vzF("b"))),
		vzCompile(AndExpr{NotExistsExpr{a}, NotExpr{vzEq(b, vzN(1))}}),
		vzCompile(TrueExpr{}, vzEq(a, vzN(1))),
	}
	first := []string{``, `{"a":`, `{"a":1,"b":`, `{"b":{"a":1},"a":[`, `{"a":[{"a":1,"b":`, `{"a":[[1],[`, `[`, `{"a":"y","b":1}`}
	return func() {
		d := defs[vzChoice(len(defs))]
		n, k := 3, 1
		if vzThorough() {
			n, k = 4, 2
		}
		doc1 := append([]byte(first[vzChoice(len(first))]), vzBytes(vzChoice(k+1))...)
		m := NewFastMatcher(d.def)
		_, err, p := vzMatch(m, doc1)
		if p != "" || err != nil {
			vzCover("first-failed")
		} else {
			vzCover("first-ok")
		}
		m.Reset()
		g := &vzGen{nodes: n, keys: []string{"a", "b"}, extra: 2, elems: 2}
		doc2 := g.value(3).render(nil, "")
		r1, st1, err1 := m.MatchWithStatus(doc2)
		f := NewFastMatcher(d.def)
		r2, st2, err2 := f.MatchWithStatus(doc2)
		vzAssert((err1 == nil) == (err2 == nil), "a reset matcher fails where a new one does not")
		vzAssert(r1 == r2, "a reset matcher gives another verdict than a new one")
		vzAssert(st1 == st2, "a reset matcher gives another status than a new one")
		for i := range d.exprs {
			vzAssert(m.ExpressionMatched(i) == f.ExpressionMatched(i), "a reset matcher gives another verdict for one expression")
		}
		vzObserve("r", r1, st1)
		if r1 {
			vzCover("matched")
		} else {
			vzCover("unmatched")
		}
	}
}

var _ = vzRegS("vz_C07_reset", vz_C07_reset)

//vz:bound the same matcher used and reset 9 (thorough: 40) times in a row, on complete and cut off documents with an array of up to 20 elements, one of them any digit; each time compared with a new matcher
//vz:cover matched unmatched
func vz_C07_again() func() {
	a, b := vzF("a"), vzF("b")
	v := func(p ...string) FieldExpr { return vzVar(1, p...) }
	defs := []vzDef{
		vzCompile(vzEq(a, b), NotExistsExpr{a}),
		vzCompile(AnyInExpr{1, a, vzEq(v(), b)}, EveryInExpr{1, a, NotExpr{vzEq(v(), vzN(3))}}),
		vzCompile(AnyInExpr{1, a, AndExpr{vzEq(v(), b), vzEq(vzF("a", "[1]"), vzF("a", "[0]"))}}),
		vzCompile(AnyEveryInExpr{1, a, AnyInExpr{2, v(), vzEq(vzVar(2), b)}}, OrExpr{ExistsExpr{vzF("a", "[0]", "[3]")}, vzLt(b, a)}),
	}
	docs := []string{`{"a":[1,2`, `{"b":3,"a":[3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,[`, `{"b":2,"a":[1,`, `{"a":[[1,`, `{"b":`, `{"a":2,"b":`}
	return func() {
		d := defs[vzChoice(len(defs))]
		m := NewFastMatcher(d.def)
		n := 9
		if vzThorough() {
			n = 40
		}
		at, end, step := vzChoice(len(docs)), []string{``, `}`, `]}`, `],"b":2}`, `]],"b":4}`}[vzChoice(5)], vzChoice(2)
		x := string([]byte{byte('0' + vzDigit())})
		for i := 0; i < n; i++ {
			doc := []byte(docs[at] + x + end)
			r1, st1, err1 := m.MatchWithStatus(doc)
			f := NewFastMatcher(d.def)
			r2, st2, err2 := f.MatchWithStatus(doc)
			vzAssert((err1 == nil) == (err2 == nil), "a reset matcher fails where a new one does not")
			vzAssert(r1 == r2, "a reset matcher gives another verdict than a new one")
			vzAssert(st1 == st2, "a reset matcher gives another status than a new one")
			for i := range d.exprs {
				vzAssert(m.ExpressionMatched(i) == f.ExpressionMatched(i), "a reset matcher gives another verdict for one expression")
			}
			if r1 {
				vzCover("matched")
			} else {
				vzCover("unmatched")
			}
			m.Reset()
			at = (at + step) % len(docs)
		}
	}
}

var _ = vzRegS("vz_C07_again", vz_C07_again)
