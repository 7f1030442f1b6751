package gojsonsm

// Matching arbitrary bytes: no panic, termination, usable matcher afterwards.

func vz02Exprs() []Expression {
	v := VariableID(1)
	return []Expression{
		vzEq(vzF("a"), vzN(1)),
		AndExpr{vzEq(vzF("a", "b"), vzN(1)), NotExpr{ExistsExpr{vzF("a", "[0]")}}},
		NotExpr{AnyInExpr{v, vzF("a"), vzEq(vzVar(v), vzN(1))}},
		EveryInExpr{v, vzF("a"), LessThanExpr{vzVar(v, "a"), vzVar(v, "b")}},
		AnyEveryInExpr{v, vzF("a"), vzEq(vzVar(v), vzF("b"))},
		OrExpr{ExistsExpr{vzF()}, AnyInExpr{v, vzF(), ExistsExpr{vzVar(v, "b")}}},
		EqualsExpr{FuncExpr{MathFuncAdd, []Expression{vzF("a"), vzF("b")}}, vzN(3)},
		EqualsExpr{FuncExpr{DateFunc, []Expression{vzF("a")}}, vzF("b")},
	}
}

var vz02Prefix = []string{
	``, `{`, `[`, `{"a":`, `{"a":1,`, `{"a":{"b":`, `{"a":[`, `{"a":[1,`, `{"a":[{"b":1},`, `{"b":2,"a":[`, `{"c":[`, `{"a":{"c":{}}`,
}

func vz02Setup(exprs []Expression) []*MatchDef {
	r := []*MatchDef{}
	for _, e := range exprs {
		var t Transformer
		r = append(r, t.Transform([]Expression{e}))
	}
	return r
}

//vz:bound 8 expressions (comparison, AND/NOT/EXISTS with nested and indexed fields, ANY, EVERY, ANY AND EVERY, root loop, ADD, DATE), 12 document beginnings followed by up to 3 (thorough: 4) arbitrary bytes
//vz:cover error answered
func vz_C02_bytes() func() {
	defs := vz02Setup(vz02Exprs())
	return func() {
		d := defs[vzChoice(len(defs))]
		doc := []byte(vz02Prefix[vzChoice(len(vz02Prefix))])
		n := 3
		if vzThorough() {
			n = 4
		}
		doc = append(doc, vzBytes(vzChoice(n+1))...)
		m := NewFastMatcher(d)
		orig := string(doc)
		res, err, p := vzMatch(m, doc)
		vzAssert(p == "", "Match panicked: "+p)
		vzAssert(string(doc) == orig, "Match modified the document")
		vzObserve("res", res, err == nil)
		if err != nil {
			vzCover("error")
			vzAssert(!res, "Match reported a match together with an error")
		} else {
			vzCover("answered")
		}
	}
}

var _ = vzRegS("vz_C02_bytes", vz_C02_bytes)

//vz:bound the same 8 expressions on documents that begin with 1 to 130 opening brackets or braces, nested under members a, b or c, or with texts, numbers, white space or lists of as many parts, cut off there, continued by an arbitrary byte or by closing brackets of either kind
//vz:cover error answered
func vz_C02_deep() func() {
	defs := vz02Setup(vz02Exprs())
	return func() {
		d := defs[vzChoice(len(defs))]
		n := []int{1, 9, 33, 65, 130}[vzChoice(5)]
		doc := []byte([]string{``, `{"a":`, `{"c":`, `{"a":1,"b":`, `{"b":[`}[vzChoice(5)])
		piece := []string{`[`, `{"a":`, `{"b":`, `[{"a":`, `[1,`, `"`, `1`, ` `, `[],`, `"\n`}[vzChoice(10)]
		for i := 0; i < n; i++ {
			if i > 0 && piece[0] == '"' {
				doc = append(doc, piece[1:]...)
				doc = append(doc, 'n')
			} else {
				doc = append(doc, piece...)
			}
		}
		switch vzChoice(4) {
		case 1:
			doc = append(doc, vzU8())
		case 2:
			for i := 0; i < n+2; i++ {
				doc = append(doc, "]}"[i%2])
			}
		case 3:
			c := "]}"[vzChoice(2)]
			for i := 0; i < n+1; i++ {
				doc = append(doc, c)
			}
		}
		m := NewFastMatcher(d)
		orig := string(doc)
		res, err, p := vzMatch(m, doc)
		vzAssert(p == "", "Match panicked: "+p)
		vzAssert(string(doc) == orig, "Match modified the document")
		if err != nil {
			vzCover("error")
			vzAssert(!res, "Match reported a match together with an error")
		} else {
			vzCover("answered")
		}
	}
}

var _ = vzRegS("vz_C02_deep", vz_C02_deep)
