package gojsonsm

// Field paths, EXISTS and MISSING.

//vz:bound 24 expressions with paths of up to 3 steps (members and array indices 0..2), one or two paths per comparison incl. shared prefixes and a path that is a prefix of the other; documents: every JSON value of up to 5 (thorough: 6) nodes, nesting depth 3, members a, b, arrays of up to 2 elements, leaves any digit or null
//vz:cover matched unmatched
func vz_C04_paths() func() {
	a := vzF("a")
	ab, a0, a1 := vzF("a", "b"), vzF("a", "[0]"), vzF("a", "[1]")
	defs := vzCompileEach([]Expression{
		vzEq(ab, vzN(1)),
		ExistsExpr{ab},
		NotExistsExpr{ab},
		ExistsExpr{a},
		NotExistsExpr{vzF("a", "b", "a")},
		vzLt(vzF("a", "b", "a"), vzN(7)),
		ExistsExpr{vzF()},
		AndExpr{ExistsExpr{a}, NotExpr{vzEq(ab, vzN(3))}},
		vzEq(a, vzF("b")),
		vzEq(ab, vzF("a", "a")),
		GreaterThanExpr{vzF("b", "a"), vzF("b", "b")},
		LessEqualsExpr{vzF("a", "a", "b"), vzF("a", "b")},
		NotEqualsExpr{vzF("a", "a"), vzF("b", "a")},
		vzEq(a0, vzN(1)),
		GreaterEqualsExpr{a1, vzN(4)},
		AndExpr{ExistsExpr{a1}, NotExistsExpr{vzF("a", "[2]")}},
		vzEq(a0, a1),
		vzEq(vzF("a", "[0]", "b"), vzN(2)),
		OrExpr{vzEq(vzF("a", "[1]", "[0]"), vzN(2)), vzEq(vzF("[0]"), vzN(2))},
		AndExpr{ExistsExpr{ab}, vzEq(vzF("b"), vzN(1))},
		OrExpr{vzEq(a0, vzN(1)), vzEq(ab, vzN(1))},
		vzEq(ab, a),
		vzLt(a0, a),
		OrExpr{AndExpr{ExistsExpr{a}, vzEq(a0, vzF("b"))}, vzEq(vzF("[1]", "a"), vzF("[0]"))},
	})
	return func() {
		d := defs[vzChoice(len(defs))]
		n := 5
		if vzThorough() {
			n = 6
		}
		g := &vzGen{nodes: n, keys: []string{"a", "b"}, extra: 1, elems: 2}
		vzSame(d, g.value(3), "")
	}
}

// vz04Unit appends one character of a member name, plain or escaped, and gives
// the character it stands for.
func vz04Unit(doc []byte) ([]byte, byte) {
	switch vzChoice(3) {
	case 1:
		doc = append(doc, '\\', 'u', '0', '0')
		hi, lo := vzU8(), vzU8()
		vzAssume(vzAnd(hi < 8, lo < 16))
		doc = append(doc, '0'+hi)
		if lo < 10 {
			return append(doc, '0'+lo), hi*16 + lo
		}
		if vzChoice(2) == 1 {
			return append(doc, 'A'+lo-10), hi*16 + lo
		}
		return append(doc, 'a'+lo-10), hi*16 + lo
	case 2:
		c := "nrtbf/\\\""[vzChoice(8)]
		out := c
		switch c {
		case 'n':
			out = '\n'
		case 'r':
			out = '\r'
		case 't':
			out = '\t'
		case 'b':
			out = '\b'
		case 'f':
			out = '\f'
		}
		return append(doc, '\\', c), out
	}
	c := vzU8()
	vzAssume(vzAnd(vzAnd(c >= 0x20, c < 0x80), vzAnd(c != '"', c != '\\')))
	return append(doc, c), c
}

//vz:bound objects of one or two members whose names are 1..2 (thorough 3) characters, each any ASCII character written plain, as \u00XX or as a two-character escape; field names "/", "ab", "\n"
//vz:cover matched unmatched
func vz_C04_names() func() {
	names := []string{"/", "ab", "\n", "\"a"}
	defs := []vzDef{}
	for _, n := range names {
		defs = append(defs, vzCompile(vzEq(vzF(n), vzN(1))))
	}
	return func() {
		c := vzChoice(len(names))
		max := 2
		if vzThorough() {
			max = 3
		}
		n := 1 + vzChoice(max)
		doc := []byte(`{"`)
		eq := n == len(names[c])
		for i := 0; i < n; i++ {
			var ch byte
			doc, ch = vz04Unit(doc)
			if i < len(names[c]) {
				eq = vzAnd(eq, ch == names[c][i])
			}
		}
		doc = append(doc, `":1,"ab`...)
		doc = append(doc, `c":1}`...)
		m := NewFastMatcher(defs[c].def)
		res, err, p := vzMatch(m, doc)
		vzAssert(p == "", "Match panicked: "+p)
		vzAssert(err == nil, "error on a valid document")
		vzObserve("res", res)
		if eq {
			vzCover("matched")
		} else {
			vzCover("unmatched")
		}
		vzAssert(res == eq, "member looked up by the wrong name")
	}
}

var _ = vzRegS("vz_C04_paths", vz_C04_paths)
var _ = vzRegS("vz_C04_names", vz_C04_names)

//vz:bound objects of 7 to 65 members, arrays of 9 to 130 elements, paths of 3 to 40 steps, values nested up to 70 deep in front of the member looked for, names of up to 130 characters with common beginnings; the member or element looked for is any digit or absent
//vz:cover matched unmatched
func vz_C04_many() func() {
	type def struct {
		vzDef
		kind, n, at int
	}
	var defs []def
	add := func(kind, n, at int, e Expression) { defs = append(defs, def{vzCompile(e), kind, n, at}) }
	step := func(i int) string { return "[" + vzItoa(i) + "]" }
	long := func(n int, end string) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'n'
		}
		return string(b) + end
	}
	for _, n := range []int{7, 16, 17, 33, 65} {
		for _, at := range []int{0, 1, n / 2, n - 1, n} {
			f := vzF(vzMember(at))
			add(0, n, at, vzEq(f, vzN(1)))
			add(0, n, at, NotExistsExpr{f})
			add(0, n, at, GreaterThanExpr{f, vzF(vzMember(2))})
		}
	}
	for _, n := range []int{9, 11, 32, 101, 130} {
		for _, at := range []int{0, 8, 9, 10, 11, 12, 31, 32, 33, 99, 100, 101, 128, n - 1} {
			if at > n+1 {
				continue
			}
			f := vzF("a", step(at))
			add(1, n, at, vzEq(f, vzN(1)))
			add(1, n, at, NotExistsExpr{f})
			add(1, n, at, vzEq(f, vzF("a", step(n/2))))
			add(1, n, at, AndExpr{vzEq(vzF("a", step(0)), vzN(2)), vzLt(f, vzN(5)), NotExistsExpr{vzF("a", step(n+1))}})
		}
	}
	for _, n := range []int{3, 4, 5, 9, 17, 40} {
		for kind := 0; kind < 3; kind++ {
			var path []string
			for i := n; i > 0; i-- {
				if kind == 0 || kind == 2 && i%2 == 1 {
					path = append(path, "[0]")
				} else {
					path = append(path, "a")
				}
			}
			add(2+kind, n, 0, vzEq(vzF(path...), vzN(1)))
			add(2+kind, n, 0, NotExistsExpr{vzF(append(path, "a")...)})
			add(2+kind, n, 0, ExistsExpr{vzF(path[:n-1]...)})
		}
	}
	for _, n := range []int{1, 5, 9, 17, 33, 70} {
		add(5, n, 0, vzEq(vzF("c"), vzN(1)))
		add(5, n, 0, NotExistsExpr{vzF("b", "c")})
	}
	for _, n := range []int{7, 16, 31, 32, 33, 64, 130} {
		add(6, n, 0, vzEq(vzF(long(n, "")), vzN(1)))
		add(6, n, 0, vzEq(vzF(long(n, "y")), vzN(1)))
		add(6, n, 0, vzLt(vzF(long(n, "x")), vzF(long(n-1, ""))))
		add(6, n, 0, NotExistsExpr{vzF(long(n+1, ""))})
	}
	digit := func() *vzV { return &vzV{k: vzKInt, num: vzDigit()} }
	return func() {
		d := defs[vzChoice(len(defs))]
		root := &vzV{k: vzKObj}
		put := func(k string, v *vzV) { root.keys, root.vals = append(root.keys, k), append(root.vals, v) }
		switch d.kind {
		case 0:
			root = vzMany(d.n, d.at, vzInt(2), vzChoice(2) == 1)
		case 1:
			a := &vzV{k: vzKArr}
			for i := 0; i < d.n; i++ {
				if i == d.at {
					a.vals = append(a.vals, digit())
				} else {
					a.vals = append(a.vals, vzInt(2))
				}
			}
			put("a", a)
		case 2, 3, 4:
			root = vzDeep(d.n, d.kind-2, digit())
		case 5:
			put("a", vzDeep(d.n, vzChoice(3), &vzV{k: vzKStr, str: []byte("]}")}))
			if vzChoice(2) == 1 {
				put("b", vzDeep(d.n, vzChoice(3), &vzV{k: vzKStr, str: []byte("{[")}))
			}
			put("c", digit())
		case 6:
			put(long(d.n-1, ""), digit())
			put(long(d.n, "x"), digit())
			if vzChoice(2) == 1 {
				put(long(d.n, ""), digit())
			}
		}
		vzSame(d.vzDef, root, "")
	}
}

var _ = vzRegS("vz_C04_many", vz_C04_many)
