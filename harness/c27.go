package gojsonsm

// Layout of the document does not matter: whitespace, member order, spelling of
// names and strings.

func vz27Defs() []vzDef {
	a, b := vzF("a"), vzF("b")
	v := func(p ...string) FieldExpr { return vzVar(1, p...) }
	return []vzDef{
		vzCompile(vzEq(a, b)),
		vzCompile(AndExpr{vzLt(vzF("a", "a"), vzN(5)), NotExpr{vzEq(vzF("a", "b"), b)}}),
		vzCompile(AnyInExpr{1, a, vzEq(v("a"), v("b"))}),
		vzCompile(EveryInExpr{1, a, NotExpr{vzEq(v(), b)}}),
		vzCompile(vzEq(vzF("a", "[0]"), vzF("a", "[1]"))),
		vzCompile(OrExpr{NotExistsExpr{b}, vzEq(b, ValueExpr{"x"})}),
		vzCompile(AnyEveryInExpr{1, vzF(), vzLt(v("a"), vzN(3))}, vzEq(vzF("b", "a"), a)),
	}
}

// vz27Reverse mirrors the member order of every object.
func vz27Reverse(v *vzV) *vzV {
	r := &vzV{k: v.k, num: v.num, str: v.str}
	for i := range v.vals {
		if v.k == vzKObj {
			j := len(v.vals) - 1 - i
			r.keys = append(r.keys, v.keys[j])
			r.vals = append(r.vals, vz27Reverse(v.vals[j]))
		} else {
			r.vals = append(r.vals, vz27Reverse(v.vals[i]))
		}
	}
	return r
}

// vz27Flat tells whether no container is compared as a whole: their text is
// what is compared then.
func vz27Flat(v *vzV) bool {
	if v == nil {
		return true
	}
	return v.k != vzKObj && v.k != vzKArr
}

func vz27Same(d vzDef, doc1, doc2 []byte) {
	m1, m2 := NewFastMatcher(d.def), NewFastMatcher(d.def)
	r1, s1, e1 := m1.MatchWithStatus(doc1)
	r2, s2, e2 := m2.MatchWithStatus(doc2)
	vzAssert((e1 == nil) == (e2 == nil), "one spelling of a document is an error")
	vzAssert(r1 == r2, "two spellings of a document get different verdicts")
	for i := range d.exprs {
		vzAssert(m1.ExpressionMatched(i) == m2.ExpressionMatched(i), "two spellings of a document get different verdicts")
	}
	_, _ = s1, s2
	if r1 {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

//vz:bound 7 definitions (fields, slots, loops, several expressions); documents of up to 5 (thorough: 6) nodes with members a, b; between all tokens a run of two arbitrary whitespace characters (the same run throughout) against none, and members of all objects in reverse order
//vz:cover matched unmatched
func vz_C27_layout() func() {
	defs := vz27Defs()
	return func() {
		d := defs[vzChoice(len(defs))]
		n := 5
		if vzThorough() {
			n = 6
		}
		g := &vzGen{nodes: n, keys: []string{"a", "b"}, elems: 2}
		root := g.value(3)
		// values that are containers are compared by their text
		for _, p := range [][2]*vzV{{root.get("a"), root.get("b")}, {root.get("a").get("a"), root.get("a").get("b")}, {root.get("b").get("a"), root.get("a").get("b")}} {
			vzAssume(vz27Flat(p[0]) || vz27Flat(p[1]))
		}
		a := root.get("a")
		vzAssume(vz27Flat(a.get("[0]")) || vz27Flat(a.get("[1]")))
		if a != nil && a.k == vzKArr {
			for _, x := range a.vals {
				vzAssume(vz27Flat(x.get("a")) || vz27Flat(x.get("b")))
				vzAssume(vz27Flat(x) || vz27Flat(root.get("b")))
			}
		}
		doc1 := root.render(nil, "")
		switch vzChoice(2) {
		case 0:
			w := make([]byte, 2)
			for i := range w {
				c := vzU8()
				vzAssume(vzOr(vzOr(c == ' ', c == '\n'), vzOr(c == '\t', c == '\r')))
				w[i] = c
			}
			vz27Same(d, doc1, root.render(append([]byte{}, w...), string(w)))
		case 1:
			vz27Same(d, doc1, vz27Reverse(root).render(nil, ""))
		}
	}
}

var _ = vzRegS("vz_C27_layout", vz_C27_layout)

//vz:bound the same 7 definitions on documents with members a and b (an array or object of up to 9 elements, a number), with runs of 1 to 33 (thorough: 130) white space characters between all tokens, one of each run any white space character
//vz:cover matched unmatched
func vz_C27_space() func() {
	defs := vz27Defs()
	return func() {
		d := defs[vzChoice(len(defs))]
		digit := func() *vzV { return &vzV{k: vzKInt, num: vzDigit()} }
		obj := &vzV{k: vzKObj, keys: []string{"b", "a"}, vals: []*vzV{digit(), digit()}}
		arr := &vzV{k: vzKArr}
		el := vzChoice(2) == 1
		for i := 0; i < 9; i++ {
			arr.vals = append(arr.vals, vzInt(i))
			if el {
				arr.vals[i] = obj
			}
		}
		root := &vzV{k: vzKObj, keys: []string{"a", "b"}, vals: []*vzV{arr, digit()}}
		switch vzChoice(3) {
		case 1:
			root.vals[0] = obj
		case 2:
			root.vals[0], root.vals[1] = root.vals[1], obj
		}
		ns := []int{1, 8, 33}
		if vzThorough() {
			ns = []int{1, 2, 3, 4, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 130}
		}
		w := make([]byte, ns[vzChoice(len(ns))])
		for i := range w {
			w[i] = ' '
		}
		w[vzPick(len(w))] = " \t\r\n"[vzChoice(4)]
		vz27Same(d, root.render(nil, ""), root.render(append([]byte{}, w...), string(w)))
	}
}

var _ = vzRegS("vz_C27_space", vz_C27_space)
