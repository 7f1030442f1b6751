package gojsonsm

// Strings compare by their characters.

// vz11Make makes the representations a string value can have.
func vz11Make(k int, b []byte) FastVal {
	switch k {
	case 0:
		return NewBinStringFastVal(b)
	case 1:
		return NewStringFastVal(string(b))
	case 2:
		v, _ := NewStringFastVal(string(b)).ToJsonString()
		return v
	}
	v, _ := NewStringFastVal(string(b)).ToJsonString()
	v.userDefined = true
	return v
}

//vz:bound every pair of byte strings of together up to 3 (thorough: 4) bytes, in each of the four representations (document text, Go string, quoted, constant of the expression; quick: 3 bytes only as document text and constants)
//vz:cover less greater same
func vz_C11_compare() {
	n := 3
	if vzThorough() {
		n = 4
	}
	nx := vzChoice(n + 1)
	ny := vzChoice(n - nx + 1)
	x, y := vzBytes(nx), vzBytes(ny)
	k, l := vzChoice(4), vzChoice(4)
	if nx+ny > 2 && !vzThorough() && (k == 1 || k == 2 || l == 1 || l == 2) {
		return
	}
	a, b := vz11Make(k, x), vz11Make(l, y)
	r, ok, p := vzCompare(a, b)
	vzAssert(p == "", "Compare panicked: "+p)
	vzObserve("cmp", r, ok)
	w := vz11Order(x, y)
	vzAssert(ok, "comparing two strings is not valid")
	vzAssert(r == w, "two strings compare in another order than their characters")
	switch w {
	case -1:
		vzCover("less")
	case 0:
		vzCover("same")
	default:
		vzCover("greater")
	}
}

var vz11Consts = []string{"", "a", "\n", "\"", "\\", "a!", "/", "\u00e9", "\x7f", "\\n", "\U0001f600"}

//vz:bound a member compared with 11 constants by each of the six operators, the member's text made of up to 1 (thorough: 2) pieces, each any unescaped byte, a two-character escape or a \u escape with arbitrary digits
//vz:cover holds fails
func vz_C11_const() func() {
	var ms [6][]*FastMatcher
	for i, op := range vz11Ops {
		for _, c := range vz11Consts {
			ms[i] = append(ms[i], vzMatcher(op(vzF("a"), ValueExpr{c})))
		}
	}
	return func() {
		max := 1
		if vzThorough() {
			max = 2
		}
		op, c := vzChoice(6), vzChoice(len(vz11Consts))
		ps := vz12Pieces(vzChoice(max + 1))
		doc := append([]byte(`{"a":`), vz12Quote(ps)...)
		doc = append(doc, '}')
		m := ms[op][c]
		m.Reset()
		res, err, p := vzMatch(m, doc)
		vzAssert(p == "" && err == nil, "comparing a string fails "+p)
		w := vz11Holds(op, vz11Order(vz12Decode(ps), []byte(vz11Consts[c])))
		vzObserve("res", res)
		vzAssert(res == w, "a comparison with a constant string contradicts the order of the characters")
		if res {
			vzCover("holds")
		} else {
			vzCover("fails")
		}
	}
}

//vz:bound two members compared by each of the six operators, their texts made of up to 1 piece each (thorough: together up to 3) as above
//vz:cover holds fails
func vz_C11_fields() func() {
	var ms []*FastMatcher
	for _, op := range vz11Ops {
		ms = append(ms, vzMatcher(op(vzF("a"), vzF("b"))))
	}
	return func() {
		op := vzChoice(6)
		n, k := 1, 1
		if vzThorough() {
			n, k = 2, 2
		}
		n = vzChoice(n + 1)
		k = vzChoice(k + 1)
		if n+k > 3 {
			return
		}
		ps, qs := vz12Pieces(n), vz12Pieces(k)
		doc := append([]byte(`{"a":`), vz12Quote(ps)...)
		doc = append(doc, `,"b":`...)
		doc = append(doc, vz12Quote(qs)...)
		doc = append(doc, '}')
		m := ms[op]
		m.Reset()
		res, err, p := vzMatch(m, doc)
		vzAssert(p == "" && err == nil, "comparing two strings fails "+p)
		w := vz11Holds(op, vz11Order(vz12Decode(ps), vz12Decode(qs)))
		vzObserve("res", res)
		vzAssert(res == w, "a comparison of two strings contradicts the order of the characters")
		if res {
			vzCover("holds")
		} else {
			vzCover("fails")
		}
	}
}

var _ = vzReg("vz_C11_compare", vz_C11_compare)
var _ = vzRegS("vz_C11_const", vz_C11_const)
var _ = vzRegS("vz_C11_fields", vz_C11_fields)

//vz:bound two texts of 8 to 65 (thorough: 130) equal characters that differ in one of them (any byte, near either end or a power of two), in length or not at all, in each of the four representations, and as a member compared with a constant or another member by each of the six operators
//vz:cover less greater same
func vz_C11_long() {
	sizes := []int{8, 17, 33, 65}
	if vzThorough() {
		sizes = []int{8, 9, 16, 32, 33, 64, 65, 130}
	}
	n := sizes[vzChoice(len(sizes))]
	fill := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'n'
		}
		return b
	}
	x, y := fill(n), fill(n-vzChoice(2))
	y[vzPick(len(y))] = vzU8()
	w := vz11Order(x, y)
	switch w {
	case -1:
		vzCover("less")
	case 0:
		vzCover("same")
	default:
		vzCover("greater")
	}
	if vzChoice(2) == 0 {
		r, ok, p := vzCompare(vz11Make(vzChoice(4), x), vz11Make(vzChoice(4), y))
		vzAssert(p == "", "Compare panicked: "+p)
		vzAssert(ok, "comparing two strings is not valid")
		vzAssert(r == w, "two strings compare in another order than their characters")
		return
	}
	op := vzChoice(6)
	for _, c := range y {
		vzAssume(vzAnd(vzAnd(c >= 0x20, c < 0x80), vzAnd(c != '"', c != '\\')))
	}
	var m *FastMatcher
	doc := append([]byte(`{"b":"`), y...)
	doc = append(doc, '"')
	if vzChoice(2) == 0 {
		m = vzMatcher(vz11Ops[op](ValueExpr{string(x)}, vzF("b")))
	} else {
		m = vzMatcher(vz11Ops[op](vzF("a"), vzF("b")))
		doc = append(append(append(doc, `,"a":"`...), x...), '"')
	}
	r, err, p := vzMatch(m, append(doc, '}'))
	vzAssert(p == "" && err == nil, "comparing two strings fails "+p)
	vzAssert(r == vz11Holds(op, w), "a comparison of two strings contradicts the order of the characters")
}

var _ = vzReg("vz_C11_long", vz_C11_long)
