package gojsonsm

// Comparisons of two values of any kinds are mutually consistent.

func vz09Pair(a, b FastVal) {
	r, ok, p := vzCompare(a, b)
	vzAssert(p == "", "Compare panicked: "+p)
	r2, ok2, p := vzCompare(b, a)
	vzAssert(p == "", "Compare panicked: "+p)
	vzObserve("cmp", r, ok, r2, ok2)
	vzAssert(vzAnd(r >= -1, r <= 1), "a comparison is none of -1, 0 and 1")
	vzAssert(ok == ok2, "exchanging the operands changes whether the comparison is valid")
	vzAssert(r == -r2, "exchanging the operands does not reverse the comparison")
	eq, eok := a.Equals(b)
	vzAssert(eok == ok, "Equals and Compare disagree about validity")
	vzAssert(eq == vzAnd(ok, r == 0), "Equals and Compare disagree")
	if r < 0 {
		vzCover("less")
	} else if r > 0 {
		vzCover("greater")
	} else {
		vzCover("same")
	}
}

//vz:bound every pair of the 13 kinds (missing, null, booleans, 64-bit integers, unsigned integers, floats, three string representations of up to 2 characters, arrays, objects, times, invalid) with arbitrary contents
//vz:cover less greater same
func vz_C09_pairs() {
	n := 2
	if vzThorough() {
		n = 4
	}
	ka := vzChoice(vz09Kinds)
	kb := vzChoice(vz09Kinds)
	if ka == 5 || kb == 5 {
		n = 1 // decimal text against a float
	}
	vz09Pair(vzValue(ka, n, vz09Str(kb)), vzValue(kb, n, vz09Str(ka)))
}

//vz:bound as above, with the second operand a constant of the expression
//vz:cover less greater same
func vz_C09_const() {
	n := 2
	if vzThorough() {
		n = 4
	}
	ka := vzChoice(vz09Kinds)
	kb := vzChoice(vz09Kinds)
	if ka == 5 || kb == 5 {
		n = 1 // decimal text against a float
	}
	a, b := vzValue(ka, n, vz09Str(kb)), vzValue(kb, n, vz09Str(ka))
	b.userDefined = true
	vz09Pair(a, b)
}

var _ = vzReg("vz_C09_pairs", vz_C09_pairs)
var _ = vzReg("vz_C09_const", vz_C09_const)

// vz09Doc is the text of a value of each kind.
func vz09Doc(k int) []byte {
	switch k {
	case 0:
		return []byte("null")
	case 1:
		return []byte("true")
	case 2:
		return []byte("false")
	case 3:
		return []byte{'-', vz09Digit()}
	case 4:
		return []byte{vz09Digit()}
	case 5:
		return []byte([]string{"1.5", "4.5", "4.0"}[vzChoice(3)])
	case 6:
		c := vzU8()
		vzAssume(vzAnd(c >= 0x20, vzAnd(c < 0x7f, vzAnd(c != '"', c != '\\'))))
		return []byte{'"', c, '"'}
	case 7:
		return []byte{'[', vz09Digit(), ']'}
	case 8:
		return []byte{'{', '"', 'x', '"', ':', vz09Digit(), '}'}
	}
	return []byte("18446744073709551615")
}

func vz09Digit() byte {
	c := vzU8()
	vzAssume(vzAnd(c >= '0', c <= '9'))
	return c
}

//vz:bound two members of 10 kinds with symbolic digits and characters, and a member with 9 constants (numbers, booleans, null, strings, NaN by square root, division by zero), compared by all six operators in both directions
//vz:cover less greater same none
func vz_C09_ops() func() {
	pairs := [][2]Expression{{vzF("a"), vzF("b")},
		{vzF("a"), ValueExpr{5}}, {vzF("a"), ValueExpr{1.5}}, {vzF("a"), ValueExpr{"5"}}, {vzF("a"), ValueExpr{"x"}}, {vzF("a"), ValueExpr{true}}, {vzF("a"), ValueExpr{nil}},
		{FuncExpr{MathFuncSqrt, []Expression{vzF("a")}}, ValueExpr{2}},
		{FuncExpr{MathFuncDiv, []Expression{vzF("b"), vzF("a")}}, ValueExpr{2}},
		{FuncExpr{MathFuncSqrt, []Expression{vzF("a")}}, FuncExpr{MathFuncSqrt, []Expression{vzF("b")}}},
	}
	var ms [][12]*FastMatcher
	for _, p := range pairs {
		var m [12]*FastMatcher
		for i, op := range vz11Ops {
			m[i] = vzMatcher(op(p[0], p[1]))
			m[6+i] = vzMatcher(op(p[1], p[0]))
		}
		ms = append(ms, m)
	}
	return func() {
		i := vzChoice(len(pairs))
		doc := append([]byte(`{"a":`), vz09Doc(vzChoice(10))...)
		doc = append(doc, `,"b":`...)
		if i == 0 || i >= 8 {
			doc = append(doc, vz09Doc(vzChoice(10))...)
		} else {
			doc = append(doc, '1')
		}
		doc = append(doc, '}')
		var r [12]bool
		for j, m := range ms[i] {
			m.Reset()
			res, err, p := vzMatch(m, doc)
			vzAssert(p == "" && err == nil, "a comparison fails "+p)
			r[j] = res
		}
		vzObserve("r", r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7], r[8], r[9], r[10], r[11])
		eq, ne, lt, le, gt, ge := r[0], r[1], r[2], r[3], r[4], r[5]
		vzAssert(ne == !eq, "!= is not the negation of =")
		vzAssert(le == (lt || eq), "<= is not < or =")
		vzAssert(ge == (gt || eq), ">= is not > or =")
		vzAssert(!(lt && gt) && !(lt && eq) && !(gt && eq), "two of <, = and > hold together")
		vzAssert(eq == r[6] && ne == r[7] && lt == r[8+2] && le == r[8+3] && gt == r[8] && ge == r[9], "exchanging the operands and the direction changes the verdict")
		switch {
		case lt:
			vzCover("less")
		case gt:
			vzCover("greater")
		case eq:
			vzCover("same")
		default:
			vzCover("none")
		}
	}
}

var _ = vzRegS("vz_C09_ops", vz_C09_ops)
