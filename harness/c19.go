package gojsonsm

import "math"

// Filter texts: operands and comparisons.

// vz19Same asserts that a filter text has the verdict of an expression.
func vz19Same(text string, e Expression, doc []byte) {
	got := vzFilterMatch(text, doc)
	m := NewFastMatcher(vzCompile(e).def)
	want, err, p := vzMatch(m, doc)
	vzAssert(p == "", "matching the expression panicked: "+p)
	vzAssert(err == nil, "matching the expression failed")
	vzAssert(got == want, "wrong verdict")
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

// vz19Cmp makes a comparison spelled in one of eight ways.
func vz19Cmp(k int, sp string, lt, rt string, l, r Expression) (string, Expression) {
	op := []string{"=", "==", "!=", "<>", "<", "<=", ">", ">="}[k]
	text := lt + sp + op + sp + rt
	switch k {
	case 0, 1:
		return text, EqualsExpr{l, r}
	case 2, 3:
		return text, NotEqualsExpr{l, r}
	case 4:
		return text, LessThanExpr{l, r}
	case 5:
		return text, LessEqualsExpr{l, r}
	case 6:
		return text, GreaterThanExpr{l, r}
	}
	return text, GreaterEqualsExpr{l, r}
}

const vz19Fields = 11

func vz19Field(k int) (string, Expression) {
	f := func(text string, path ...string) (string, Expression) { return text, FieldExpr{0, path} }
	switch k {
	case 0:
		return f("a", "a")
	case 1:
		return f("`a`", "a")
	case 2:
		return f("'a'", "a")
	case 3:
		return f("b.c[1]", "b", "c", "[1]")
	case 4:
		return f("`b`.'c'[0]", "b", "c", "[0]")
	case 5:
		return f("META().x", "META()", "x")
	case 6:
		return f("`x y`.z", "x y", "z")
	case 7:
		return f("_u1", "_u1")
	case 8:
		return f("b.d[0][1].e", "b", "d", "[0]", "[1]", "e")
	case 9:
		s := string(vzLetters(1))
		return f("q"+vzTextStr(s), "q"+s)
	}
	return f("`b.d`", "b.d")
}

func vz19Value(k int) (string, Expression) {
	small := func() int { return 4 * vzChoice(3) }
	switch k {
	case 0:
		v := int(vzU64() >> 1)
		return vzTextInt(v), ValueExpr{v}
	case 1:
		v := int(vzU32())
		return "-" + vzTextInt(v), ValueExpr{-v}
	case 2:
		v := small()
		return vzTextHalf(v), ValueExpr{float64(v) + 0.5}
	case 3:
		v := small()
		return "-" + vzTextHalf(v), ValueExpr{-(float64(v) + 0.5)}
	case 4:
		s := string(vzLetters(2))
		return `"` + vzTextStr(s) + `"`, ValueExpr{s}
	case 5:
		return `"\u00e9\n\"\\"`, ValueExpr{"\u00e9\n\"\\"}
	case 6:
		return `""`, ValueExpr{""}
	case 7:
		return "true", ValueExpr{true}
	case 8:
		return "FALSE", ValueExpr{false}
	case 9:
		return "2.5e3", ValueExpr{2500.0}
	case 10:
		return "PI()", ValueExpr{math.Pi}
	case 11:
		return "-E()", FuncExpr{MathFuncNeg, []Expression{ValueExpr{math.E}}}
	}
	return "0", ValueExpr{0}
}

const vz19Values = 13

// vz19Doc makes a document in which the fields above have values that are all different.
func vz19Doc(leaf func(i int) string) []byte {
	return []byte(`{"b.d":` + leaf(0) + `,"qx":` + leaf(1) + `,"_u1":` + leaf(2) + `,"x y":{"z":` + leaf(3) + `},"META()":{"x":` + leaf(4) +
		`},"b":{"d":[[1,{"e":` + leaf(5) + `}]],"c":[` + leaf(6) + `,` + leaf(7) + `]},"a":` + leaf(8) + `}`)
}

//vz:bound comparisons of a field, spelled in 11 ways (names quoted or not, paths, array indices, META()), with a number, text, truth value or constant of 13 kinds (whole numbers and letters symbolic), on either side, with 8 operator spellings and 3 spacings; the compared member: a digit or letters (symbolic), a number with a fraction, true, or a text with escapes
//vz:cover matched unmatched
func vz_C19_compare() {
	fk, vk := 0, 0
	if vzChoice(2) == 0 {
		fk = vzChoice(vz19Fields)
		vk = 4 * vzChoice(2)
	} else {
		vk = vzChoice(vz19Values)
	}
	ft, fe := vz19Field(fk)
	vt, ve := vz19Value(vk)
	sp := []string{" ", "", "\n\t"}[vzChoice(3)]
	op := vzChoice(8)
	var text string
	var e Expression
	if vzChoice(2) == 0 {
		text, e = vz19Cmp(op, sp, ft, vt, fe, ve)
	} else {
		vzAssume(vk != 7 && vk != 8) // a constant condition
		text, e = vz19Cmp(op, sp, vt, ft, ve, fe)
	}
	var s string
	switch vzChoice(5) {
	case 0:
		b := vzU8()
		vzAssume(vzAnd(b >= '0', b <= '9'))
		s = string([]byte{b})
	case 1:
		s = `"` + string(vzLetters(2)) + `"`
	case 2:
		s = `"\u00e9\n\"\\"`
	case 3:
		s = "3.5"
	case 4:
		s = "true"
	}
	vz19Same(text, e, vz19Doc(func(i int) string {
		if i == []int{8, 8, 8, 7, 6, 4, 3, 2, 5, 1, 0}[fk] {
			return s
		}
		return "null"
	}))
}

var _ = vzReg("vz_C19_compare", vz_C19_compare)

// vz19Math applies the usual precedence to a chain of operations.
func vz19Math(ops []int, args []Expression) Expression {
	name := []string{MathFuncAdd, MathFuncSub, MathFuncMul, MathFuncDiv, MathFuncMod}
	for _, strong := range []bool{true, false} {
		for i := 0; i < len(ops); {
			if (ops[i] >= 2) != strong {
				i++
				continue
			}
			e := FuncExpr{name[ops[i]], []Expression{args[i], args[i+1]}}
			ops = append(append([]int{}, ops[:i]...), ops[i+1:]...)
			args = append(append(append([]Expression{}, args[:i]...), e), args[i+2:]...)
		}
	}
	return args[0]
}

//vz:bound arithmetic of a field and 1 to 3 operations (five operators) with fields and numbers, which may be negative, in 5 places: left and right of a comparison, as arguments of functions, and a number followed by a field; the first member and the whole numbers added, subtracted and multiplied in single operations are digits (symbolic), it is compared with 2 numbers (thorough: 4 or a symbolic digit)
//vz:cover matched unmatched
func vz_C19_arithmetic() {
	digit := func() int {
		b := vzU8()
		vzAssume(b < 10)
		return int(b)
	}
	signs := []string{"+", "-", "*", "/", "%"}
	doc := []byte("{")
	for i := 0; i < 4; i++ {
		v := 2*i + 1
		if i == 0 || vzThorough() && i == 1 {
			v = digit()
		}
		doc = append(doc, '"', vzNames[i][0], '"', ':', byte('0'+v), ',')
	}
	doc = append(doc, `"e":`...)
	e := 2
	if vzThorough() {
		e = 4
	}
	if vzThorough() && vzChoice(2) == 1 {
		doc = append(doc, byte('0'+digit()), '}')
	} else {
		doc = append(doc, []string{"3", "8.5", "-11", "0"}[vzChoice(e)]...)
		doc = append(doc, '}')
	}
	n, sym := 1, false
	num := func() int {
		if !sym {
			return 4
		}
		return digit()
	}
	operand := func(k, i int) (string, Expression) {
		switch k {
		case 0:
			return vzNames[i], FieldExpr{0, []string{vzNames[i]}}
		case 1:
			return "-" + vzNames[i], FuncExpr{MathFuncNeg, []Expression{FieldExpr{0, []string{vzNames[i]}}}}
		case 2:
			n := num()
			return vzTextInt(n), ValueExpr{n}
		case 3:
			n := num()
			return "-" + vzTextInt(n), ValueExpr{-n}
		}
		return vzTextHalf(4), ValueExpr{4.5}
	}
	place := vzChoice(5)
	text := ""
	var arith Expression
	if place == 4 {
		k := vzChoice(5)
		sym = k < 3
		t0, e0 := operand(2+vzChoice(3), 0)
		t1, e1 := operand(vzChoice(2), 1)
		text, arith = t0+" "+signs[k]+" "+t1, vz19Math([]int{k}, []Expression{e0, e1})
	} else {
		max := 2
		if place == 0 {
			max = 3
		}
		n = 1 + vzChoice(max)
		t0, e0 := operand(vzChoice(2), 0)
		text = t0
		args, ops := []Expression{e0}, []int{}
		for i := 1; i <= n; i++ {
			k := vzChoice(5)
			sym = n == 1 && k < 3 && place != 3
			ok := i % 3
			if n == 1 {
				ok = vzChoice(5)
			} else if ok == 1 {
				ok = 2
			} else if ok == 2 {
				ok = 0
			}
			t, e := operand(ok, i)
			text += " " + signs[k] + " " + t
			args, ops = append(args, e), append(ops, k)
		}
		arith = vz19Math(ops, args)
	}
	var l, r Expression
	lt, rt := "", ""
	f := FieldExpr{0, []string{"e"}}
	switch place {
	case 0, 4:
		lt, rt, l, r = text, "e", arith, f
	case 1:
		lt, rt, l, r = "e", text, f, arith
	case 2:
		lt, rt, l, r = "ABS( "+text+" )", "e", FuncExpr{MathFuncAbs, []Expression{arith}}, f
	case 3:
		lt, rt, l, r = "POW(2,"+text+")", "e", FuncExpr{MathFuncPow, []Expression{ValueExpr{2}, arith}}, f
	}
	op := 4
	if n == 1 && vzChoice(2) == 0 {
		op = 0
	}
	text, want := vz19Cmp(op, " ", lt, rt, l, r)
	vz19Same(text, want, doc)
}

var _ = vzReg("vz_C19_arithmetic", vz_C19_arithmetic)

//vz:bound every function of the filter language, negated or not, on either side of a comparison, with a field, a number, a text, arithmetic or another function as arguments; the member is a digit or a text (symbolic), a fraction or null; REGEXP_CONTAINS with 8 patterns on texts of one or two letters (symbolic)
//vz:cover matched unmatched
func vz_C19_functions() {
	names := []string{"ABS", "ACOS", "ASIN", "ATAN", "CEIL", "COS", "DEGREES", "EXP", "FLOOR", "LOG", "LN", "SIN", "TAN", "RADIANS", "ROUND", "SQRT", "POW", "ATAN2"}
	funcs := []string{MathFuncAbs, MathFuncAcos, MathFuncAsin, MathFuncAtan, MathFuncCeil, MathFuncCos, MathFuncDegrees, MathFuncExp, MathFuncFloor, MathFuncLog,
		MathFuncLn, MathFuncSin, MathFuncTan, MathFuncRadians, MathFuncRound, MathFuncSqrt, MathFuncPow, MathFuncAtan2}
	a := FieldExpr{0, []string{"a", "x"}}
	arg := func(k int) (string, Expression) {
		switch k {
		case 0:
			return "a.x", a
		case 1:
			return "0.5", ValueExpr{0.5}
		case 2:
			return "a.x * 2", FuncExpr{MathFuncMul, []Expression{a, ValueExpr{2}}}
		case 3:
			return "-ROUND( a.x )", FuncExpr{MathFuncNeg, []Expression{FuncExpr{MathFuncRound, []Expression{a}}}}
		case 4:
			return "-a.x", FuncExpr{MathFuncNeg, []Expression{a}}
		case 5:
			return "3 - a.x", FuncExpr{MathFuncSub, []Expression{ValueExpr{3}, a}}
		case 6:
			return "PI()", ValueExpr{math.Pi}
		}
		return `-2`, ValueExpr{-2}
	}
	doc := []byte(`{"a":{"x":`)
	switch vzChoice(4) {
	case 0:
		doc = append(doc, "-0.25}}"...)
	case 1:
		doc = append(doc, vzU8(), '}', '}')
		vzAssume(vzAnd(doc[len(doc)-3] >= '0', doc[len(doc)-3] <= '9'))
	case 2:
		doc = append(append(append(doc, '"'), vzLetters(1)...), '"', '}', '}')
	default:
		doc = append(doc, "null}}"...)
	}
	fi := vzChoice(len(funcs))
	t, e := arg(vzChoice(8))
	if fi >= 16 {
		t1, e1 := arg(vzChoice(8))
		t, e = t+" , "+t1, FuncExpr{funcs[fi], []Expression{e, e1}}
	} else {
		e = FuncExpr{funcs[fi], []Expression{e}}
	}
	t = names[fi] + "(" + t + ")"
	if vzChoice(2) == 1 {
		t, e = "-"+t, FuncExpr{MathFuncNeg, []Expression{e}}
	}
	var want Expression
	switch vzChoice(2) {
	case 0:
		t, want = vz19Cmp(4, " ", t, "0.6", e, ValueExpr{0.6})
	case 1:
		t, want = vz19Cmp(5, "", "a.x", t, a, e)
	}
	vz19Same(t, want, doc)
}

var _ = vzReg("vz_C19_functions", vz_C19_functions)

var vz19Res = []struct{ text, re string }{
	{`x+`, `x+`}, {`^a`, `^a`}, {`b$`, `b$`}, {`a|b`, `a|b`}, {`^[a-c]+$`, `^[a-c]+$`}, {`^\\w$`, `^\w$`}, {`\"`, `"`}, {`\u00e9`, "\u00e9"}, {``, ``}, {`^$`, `^$`},
	{`(?i)^A`, `(?i)^A`}, {`a.b`, `a.b`}, {`\n`, "\n"}, {`AND NOT (b)`, `AND NOT (b)`},
}

//vz:bound REGEXP_CONTAINS of a member, spelled in 11 ways, with 14 patterns (anchors, classes, escapes), 2 spacings, plain, under NOT, under AND and under OR; the member: text of up to 3 letters (symbolic), text with escapes, a number, null
//vz:cover matched unmatched
func vz_C19_regexp() {
	fk := vzChoice(vz19Fields)
	ft, fe := vz19Field(fk)
	re := vz19Res[0]
	if fk == 0 {
		re = vz19Res[vzChoice(len(vz19Res))]
	}
	text := "REGEXP_CONTAINS(" + ft + `,"` + re.text + `")`
	if vzChoice(2) == 0 {
		text = "REGEXP_CONTAINS ( " + ft + ` , "` + re.text + `" )`
	}
	var e Expression = LikeExpr{fe, RegexExpr{re.re}}
	switch vzChoice(4) {
	case 1:
		text, e = "NOT "+text, NotExpr{e}
	case 2:
		text, e = text+` AND a <> "b"`, AndExpr{e, NotEqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{"b"}}}
	case 3:
		text, e = `a = "b" OR `+text, OrExpr{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{"b"}}, e}
	}
	var s string
	switch vzChoice(4) {
	case 0:
		s = `"` + string(vzLetters(vzChoice(4))) + `"`
	case 1:
		s = `"\u00e9\n\"\\"`
	case 2:
		s = "1"
	case 3:
		s = "null"
	}
	vz19Same(text, e, vz19Doc(func(i int) string {
		if i == []int{8, 8, 8, 7, 6, 4, 3, 2, 5, 1, 0}[fk] {
			return s
		}
		return "null"
	}))
}

var _ = vzReg("vz_C19_regexp", vz_C19_regexp)

var vz19Vocab = []string{"a", "`b`", "1", "2.5", `"x"`, "=", "<", "!", ">", "-", "+", "%", "(", ")", "[", "]", ".", ",", "AND", "OR", "NOT", "IS", "NULL", "MISSING", "TRUE", "EXISTS", "ABS", "POW", "PI", "META", "DATE", "REGEXP_CONTAINS", "'", "\"", "\\", "", "é", "a[0]", "[", "$", "99999999999999999999", "0x", "true"}

//vz:bound texts obtained from 12 valid filters by leaving out, replacing or inserting a token out of 43 (thorough: two tokens); an accepted one is matched against a document with a symbolic member
//vz:cover rejected ran
func vz_C19_tokens() {
	base := [][]string{
		{"a", "=", "1"},
		{"-", "a", "<", "=", "-", "1"},
		{"a", "IS", "NOT", "NULL", "OR", "a", "IS", "MISSING"},
		{"NOT", "a", ".", "b", "[", "1", "]", ">", "2"},
		{"(", "a", "=", "1", "OR", "TRUE", ")", "AND", "b", "!", "=", `"x"`},
		{"ABS", "(", "a", ")", "=", "POW", "(", "a", ",", "2", ")"},
		{"EXISTS", "(", "a", ".", "b", ")"},
		{"REGEXP_CONTAINS", "(", "a", ",", `"x+"`, ")"},
		{"META", "(", ")", ".", "a", "=", "PI", "(", ")"},
		{"DATE", "(", "a", ")", ">", "DATE", "(", `"2018-01-01"`, ")"},
		{"1", "+", "a", "=", "a", "*", "2", "-", "a"},
		{"FALSE"},
	}
	toks := base[vzChoice(len(base))]
	n := 1
	if vzThorough() && len(toks) < 5 {
		n = 2
	}
	for ; n > 0; n-- {
		i := vzChoice(len(toks) + 1)
		t := append([]string{}, toks[:i]...)
		k := vzChoice(len(vz19Vocab) + 1)
		if k < len(vz19Vocab) {
			t = append(t, vz19Vocab[k])
		}
		if i < len(toks) && (k == len(vz19Vocab) || vzChoice(2) == 0) {
			i++
		}
		toks = append(t, toks[i:]...)
	}
	text := ""
	for _, t := range toks {
		text += t + " "
	}
	var m Matcher
	var err error
	p := vzPanics(func() { m, err = GetFilterExpressionMatcher(text) })
	vzAssert(p == "", "the filter panicked: "+p)
	vzAssert((m == nil) == (err != nil), "a filter is either rejected or gives a matcher")
	if err != nil {
		vzCover("rejected")
		return
	}
	p = vzPanics(func() { _, err = m.Match([]byte{'{', '"', 'a', '"', ':', '0' + byte(vzDigit()), '}'}) })
	vzAssert(p == "", "matching panicked: "+p)
	vzAssert(err == nil, "matching failed")
	vzCover("ran")
}

var _ = vzReg("vz_C19_tokens", vz_C19_tokens)

//vz:bound string values of 8 to 65 characters with blanks and operators in them, member names of as many letters, quoted or not, paths of 5 to 33 names, elements up to 130, numbers of 2 to 19 digits with a sign or a fraction, sums of 5 to 17 numbers, functions of functions up to 9 deep; the document's member is a digit (symbolic) or a text that is the same but for possibly one character
//vz:cover matched unmatched
func vz_C19_long() {
	n := []int{8, 17, 33, 65}[vzChoice(4)]
	d := byte('0' + vzDigit())
	doc, text, want := []byte{}, "", false
	switch vzChoice(7) {
	case 0:
		s := []byte{}
		for len(s) < n {
			s = append(s, "nn AND (a = 1) OR b "[len(s)%20])
		}
		text = "a = \"" + string(s) + "\""
		x := vzU8()
		vzAssume(vzAnd(x >= 'a', x <= 'z'))
		k := vzPick(n)
		want = x == s[k]
		t := append([]byte{}, s...)
		t[k] = x
		doc = append(append(append(doc, `{"a":"`...), t...), '"', '}')
	case 1:
		s := ""
		for len(s) < n {
			s += "name_Of9"
		}
		text = []string{s, "`" + s + "`", "`" + s[:8] + " " + s + "`"}[vzChoice(3)]
		name := text
		if text[0] == '`' {
			name = text[1 : len(text)-1]
		}
		text += " = 3"
		doc = append(append(append(doc, `{"`...), name...), '"', ':', d, '}')
		want = d == '3'
	case 2:
		n = n / 2
		v := &vzV{k: vzKInt, num: int64(d - '0')}
		text = ""
		for i := 0; i < n; i++ {
			v = &vzV{k: vzKObj, keys: []string{vzMember(i)}, vals: []*vzV{v}}
			if i > 0 {
				text = "." + text
			}
			text = vzMember(i) + text
		}
		text += " = 3"
		doc = v.render(nil, "")
		want = d == '3'
	case 3:
		at := []int{0, 9, 10, 11, 99, 100, 130}[vzChoice(7)]
		v := &vzV{k: vzKArr}
		for i := 0; i < at+2; i++ {
			if i == at {
				v.vals = append(v.vals, &vzV{k: vzKInt, num: int64(d - '0')})
			} else {
				v.vals = append(v.vals, vzInt(2))
			}
		}
		text = "a[" + vzItoa(at) + "] = 3"
		doc = (&vzV{k: vzKObj, keys: []string{"a"}, vals: []*vzV{v}}).render(nil, "")
		want = d == '3'
	case 4:
		n = n/4 + 1
		text = "a"
		for i := 0; i < n; i++ {
			text += " + 1"
		}
		text += " = " + vzItoa(n+3)
		doc = append(doc, `{"a":`...)
		doc = append(doc, d, '}')
		want = d == '3'
	case 5:
		n = n/8 + 1
		text = "a"
		for i := 0; i < n; i++ {
			text = []string{"ABS(", "FLOOR("}[i%2] + text + ")"
		}
		text += " = 3"
		doc = append(doc, `{"a":`...)
		if vzChoice(2) == 0 {
			doc = append(doc, '-')
		}
		doc = append(doc, d, '}')
		want = d == '3'
	case 6:
		text, doc, want = vzBigNumber()
	}
	got := vzFilterMatch(text, doc)
	vzAssert(got == want, "wrong verdict")
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

var _ = vzReg("vz_C19_long", vz_C19_long)
