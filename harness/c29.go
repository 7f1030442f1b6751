package gojsonsm

// SlowMatcher, the plain implementation, agrees with FastMatcher.

// vz29Both matches a document with both and compares verdicts.
func vz29Both(fast *FastMatcher, slow *SlowMatcher, n int, doc []byte) {
	var sm bool
	var serr error
	p := vzPanics(func() { sm, serr = slow.Match(doc) })
	vzAssert(p == "", "SlowMatcher panicked: "+p)
	fm, ferr, fp := vzMatch(fast, doc)
	vzAssert(fp == "", "FastMatcher panicked: "+fp)
	vzAssert(ferr == nil, "FastMatcher failed")
	if serr != nil {
		vzCover("incomparable")
		return
	}
	if n == 1 { // SlowMatcher's verdict over several expressions is that all of them hold
		vzAssert(sm == fm, "SlowMatcher and FastMatcher disagree")
	}
	for i := 0; i < n; i++ {
		vzAssert(slow.ExpressionMatched(i) == fast.ExpressionMatched(i), "the verdicts of an expression differ")
	}
	if sm {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

// vz29Leaf appends a value of a kind; texts are of two pieces, any byte or escape.
func vz29Leaf(b []byte, kind int) []byte {
	switch kind {
	case 0:
		return append(b, byte('0'+vzDigit()))
	case 1:
		b = append(b, '"')
		s := vzBytes(2)
		for i := range s {
			vzAssume(vzAnd(s[i] >= 0x20, s[i] < 0x80))
			vzAssume(vzAnd(s[i] != '"', s[i] != '\\'))
		}
		return append(append(b, s...), '"')
	case 2:
		b = append(b, `"\u00`...)
		x, y := vzU8(), vzU8()
		vzAssume(vzAnd(x >= '2', x <= '7'))
		vzAssume(vzAnd(y >= '0', y <= '9'))
		return append(append(b, x, y), '"')
	case 3:
		return append(b, `"\"`+"\u00e9"+`\n"`...)
	case 4:
		return append(b, "null"...)
	case 5:
		return append(b, "true"...)
	}
	return append(b, "false"...)
}

func vz29Cmp(op int, l, r Expression) Expression {
	switch op {
	case 0:
		return EqualsExpr{l, r}
	case 1:
		return NotEqualsExpr{l, r}
	case 2:
		return LessThanExpr{l, r}
	case 3:
		return LessEqualsExpr{l, r}
	case 4:
		return GreaterThanExpr{l, r}
	}
	return GreaterEqualsExpr{l, r}
}

//vz:bound one comparison of two members, with any of the six operators; values: a digit, texts of two bytes, an escape or longer, null, true, false
//vz:cover matched unmatched incomparable
func vz_C29_compare() func() {
	defs := []vzDef{}
	for op := 0; op < 6; op++ {
		defs = append(defs, vzCompile(vz29Cmp(op, vzF("a"), vzF("b", "c"))))
	}
	return func() {
		d := defs[vzChoice(len(defs))]
		doc := vz29Leaf([]byte(`{"a":`), vzChoice(7))
		doc = vz29Leaf(append(doc, `,"b":{"c":`...), vzChoice(7))
		doc = append(doc, "}}"...)
		vz29Both(NewFastMatcher(d.def), NewSlowMatcher(d.exprs), 1, doc)
	}
}

//vz:bound 12 expressions of AND, OR and ANY over comparisons with members and constants; documents: members a, b, l in any order, a and b digits or letters, l an array of up to 3 such values, all symbolic; matchers used once or, after a reset, again
//vz:cover matched unmatched
func vz_C29_trees() func() {
	a, b, v := vzF("a"), vzF("b"), vzVar(1)
	n := func(x float64) Expression { return ValueExpr{x} }
	s := func(x string) Expression { return ValueExpr{x} }
	any := func(body Expression) Expression { return AnyInExpr{1, vzF("l"), body} }
	defs := vzCompileEach([]Expression{
		AndExpr{vzEq(a, n(1)), vzEq(b, n(2))},
		OrExpr{vzEq(a, n(1)), vzLt(b, n(2)), vzEq(a, b)},
		AndExpr{OrExpr{vzEq(a, n(1)), vzEq(b, n(2))}, OrExpr{vzLt(a, b), GreaterThanExpr{b, n(7)}}},
		OrExpr{AndExpr{vzEq(a, n(1)), NotEqualsExpr{b, n(2)}}, AndExpr{GreaterEqualsExpr{a, n(5)}, LessEqualsExpr{b, n(5)}}},
		any(vzEq(v, n(3))),
		any(vzLt(v, a)),
		any(AndExpr{GreaterThanExpr{v, a}, vzLt(v, b)}),
		OrExpr{any(vzEq(v, a)), vzEq(b, n(1))},
		AndExpr{any(vzEq(v, a)), any(vzEq(v, b))},
		any(OrExpr{NotEqualsExpr{v, a}, vzEq(b, n(2))}),
		OrExpr{vzEq(a, s("k")), any(vzEq(v, s("k")))},
		AndExpr{GreaterEqualsExpr{a, s("c")}, any(LessEqualsExpr{v, s("m")})},
	})
	return func() {
		k := vzChoice(len(defs))
		d := defs[k]
		leaf := func() *vzV {
			if k >= 10 {
				return &vzV{k: vzKStr, str: vzLetters(1)}
			}
			return &vzV{k: vzKInt, num: vzDigit()}
		}
		doc := func(n int) []byte {
			l := &vzV{k: vzKArr}
			for i := vzChoice(n + 1); i > 0; i-- {
				l.vals = append(l.vals, leaf())
			}
			o := [][]string{{"a", "b", "l"}, {"l", "b", "a"}, {"b", "l", "a"}}[vzChoice(3)]
			root := &vzV{k: vzKObj, keys: o}
			for _, key := range o {
				if key == "l" {
					root.vals = append(root.vals, l)
				} else {
					root.vals = append(root.vals, leaf())
				}
			}
			return root.render(nil, "")
		}
		fast, slow := NewFastMatcher(d.def), NewSlowMatcher(d.exprs)
		vz29Both(fast, slow, 1, doc(3))
		if vzThorough() && vzChoice(2) == 1 {
			fast.Reset()
			slow.Reset()
			vz29Both(fast, slow, 1, doc(1))
		}
	}
}

//vz:bound three expressions in one matcher, among them TRUE and a loop; after a first document - complete, cut off or with a broken tail, with a symbolic member - and a reset, a second one: the verdicts of both matchers for all three; each member a digit from 1 to 4
//vz:cover matched unmatched broken
func vz_C29_again() func() {
	a, b := vzF("a"), vzF("b")
	sets := [][]Expression{
		{vzEq(a, ValueExpr{1.0}), AndExpr{vzLt(a, b), vzEq(b, ValueExpr{4.0})}, AnyInExpr{1, vzF("l"), vzEq(vzVar(1), a)}},
		{AnyInExpr{1, vzF("l"), vzEq(vzVar(1), b)}, OrExpr{vzEq(a, b), AnyInExpr{2, vzF("l"), vzLt(vzVar(2), a)}}, vzEq(b, ValueExpr{2.0})},
		{FalseExpr{}, vzEq(a, b), vzEq(a, ValueExpr{3.0})},
		{vzEq(a, b), TrueExpr{}, vzLt(b, a)},
	}
	var defs []vzDef
	for _, s := range sets {
		defs = append(defs, vzCompile(s...))
	}
	return func() {
		d := defs[vzChoice(len(defs))]
		doc := func() []byte {
			x := vzBytes(3)
			for i := range x {
				vzAssume(vzAnd(x[i] >= '1', x[i] <= '4'))
			}
			return []byte(`{"b":` + string(x[:1]) + `,"l":[3,` + string(x[1:2]) + `],"a":` + string(x[2:]) + `}`)
		}
		fast, slow := NewFastMatcher(d.def), NewSlowMatcher(d.exprs)
		first := doc()
		switch vzChoice(3) {
		case 0:
			vz29Both(fast, slow, 3, first)
		case 1:
			vzCover("broken")
			first = first[:[]int{1, 5, 8, 9, 11, 18, len(first) - 1}[vzChoice(7)]]
			_, err := slow.Match(first)
			vzAssert(err != nil, "a cut off document was matched")
			vzMatch(fast, first)
		case 2:
			vzCover("broken")
			first[len(first)-1] = ']'
			_, err := slow.Match(first)
			vzAssert(err != nil, "a broken document was matched")
			vzMatch(fast, first)
		}
		fast.Reset()
		slow.Reset()
		vz29Both(fast, slow, 3, doc())
	}
}

var _ = vzRegS("vz_C29_again", vz_C29_again)
var _ = vzRegS("vz_C29_compare", vz_C29_compare)
var _ = vzRegS("vz_C29_trees", vz_C29_trees)

//vz:bound AND and OR of 7 to 33 comparisons of as many members and ANY over 8 to 33 elements, members or elements all alike but one (near either end or a power of two), any digit, members in either order
//vz:cover matched unmatched
func vz_C29_many() func() {
	var defs []vzDef
	var ns []int
	for _, n := range []int{7, 16, 33} {
		var xs []Expression
		for i := 0; i < n; i++ {
			xs = append(xs, vzEq(vzF(vzMember(i)), ValueExpr{1.0}))
		}
		h := n / 2
		defs = append(defs, vzCompile(AndExpr(xs)), vzCompile(OrExpr(xs)), vzCompile(AndExpr{OrExpr(xs[:h]), OrExpr(xs[h:])}), vzCompile(OrExpr{AndExpr(xs[:h]), AndExpr(xs[h:])}),
			vzCompile(AnyInExpr{1, vzF("l"), vzEq(vzVar(1), ValueExpr{1.0})}), vzCompile(AnyInExpr{1, vzF("l"), vzLt(vzVar(1, "[0]"), ValueExpr{2.0})}))
		ns = append(ns, n)
	}
	return func() {
		k := vzChoice(len(defs))
		n := ns[k/6]
		x := vzInt(1 + vzChoice(2))
		var root *vzV
		if k%6 < 4 {
			root = vzMany(n, vzPick(n), x, vzChoice(2) == 1)
		} else {
			l := &vzV{k: vzKArr}
			p := vzPick(n)
			for i := 0; i < n; i++ {
				y := x
				if i == p {
					y = &vzV{k: vzKInt, num: vzDigit()}
				}
				if k%6 == 5 {
					y = &vzV{k: vzKArr, vals: []*vzV{y}}
				}
				l.vals = append(l.vals, y)
			}
			root = &vzV{k: vzKObj, keys: []string{"l"}, vals: []*vzV{l}}
		}
		vz29Both(NewFastMatcher(defs[k].def), NewSlowMatcher(defs[k].exprs), 1, root.render(nil, ""))
	}
}

var _ = vzRegS("vz_C29_many", vz_C29_many)
