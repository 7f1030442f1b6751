package gojsonsm

import "math"

// Texts of the simple expression language: operands.

func vz23Cmp(op int, l, r Expression) Expression {
	switch op {
	case 0, 1:
		return EqualsExpr{l, r}
	case 2:
		return NotEqualsExpr{l, r}
	case 3:
		return LessThanExpr{l, r}
	case 4:
		return LessEqualsExpr{l, r}
	case 5:
		return GreaterThanExpr{l, r}
	}
	return GreaterEqualsExpr{l, r}
}

var vz23CmpOps = []string{"=", "==", "!=", "<", "<=", ">", ">="}

//vz:bound every comparison operator, with and without white space, between a member and a whole number of up to 2 symbolic digits, a fraction, their negatives, a string of 2 symbolic letters or of digits, true or false; the member is a number of a symbolic digit, a string of symbolic letters or digits, true, a fraction or null
//vz:cover matched unmatched
func vz_C23_compare() {
	var vt string
	var ve interface{}
	op := vzChoice(7)
	sign, m := "", int64(1)
	if vzChoice(2) == 1 {
		sign, m = "-", -1
	}
	kind := vzChoice(6)
	switch kind {
	case 5:
		vt = string([]byte{byte('0' + vzDigit()), byte('0' + vzDigit())}) + []string{"", ".0"}[vzChoice(2)]
		if sign != "" {
			vt = vt[1:]
		}
		ve = vt
		vt = "\"" + vt + "\""
	case 0:
		d := vzDigit()
		vt, ve = sign+string([]byte{byte('0' + d)}), m*d
	case 1:
		d, e := vzDigit(), vzDigit()
		vzAssume(d > 0)
		vt, ve = sign+string([]byte{byte('0' + d), byte('0' + e)}), m*(d*10+e)
	case 2:
		vt, ve = sign+"3.5", float64(m)*3.5
	case 3:
		s := string(vzLetters(2))
		q := []string{"\"", "'"}[vzChoice(2)]
		vt, ve = q+s+q, s
	case 4:
		vzAssume(op < 3)
		vt, ve = "true", true
		if sign != "" {
			vt, ve = "false", false
		}
	}
	sp := []string{" ", "", "\n\t"}[vzChoice(3)]
	doc := []byte(`{"b":{"c":`)
	switch vzChoice(6) {
	case 5:
		doc = append(append(doc, '"'), byte('0'+vzDigit()), byte('0'+vzDigit()), '"')
	case 0:
		doc = append(doc, byte('0'+vzDigit()))
	case 1:
		doc = append(append(append(doc, '"'), vzLetters(2)...), '"')
	case 2:
		doc = append(doc, "true"...)
	case 3:
		doc = append(doc, "-3.5"...)
	case 4:
		doc = append(doc, "null"...)
	}
	doc = append(doc, '}', '}')
	vzSimpleSame("b.c"+sp+vz23CmpOps[op]+sp+vt, vz23Cmp(op, FieldExpr{0, []string{"b", "c"}}, ValueExpr{ve}), doc)
}

var _ = vzReg("vz_C23_compare", vz_C23_compare)

// vz23Chars are n characters from all of printable ASCII.
func vz23Chars(n int, not byte) []byte {
	s := make([]byte, n)
	for i := range s {
		c := vzU8()
		vzAssume(vzAnd(c >= 0x20, vzAnd(c < 0x7f, c != not)))
		s[i] = c
	}
	return s
}

//vz:bound string values of up to 3 (thorough: 4) characters, each any of printable ASCII but the quote around them, alone or within parentheses or followed by another condition; the member is the string with one character possibly another
//vz:cover matched unmatched
func vz_C23_strings() {
	n := 3
	if vzThorough() {
		n = 4
	}
	q := "\"'"[vzChoice(2)]
	s := vz23Chars(vzChoice(n+1), q)
	doc := []byte(`{"a":"`)
	same := true
	for i, c := range s {
		if i == 0 {
			d := vzU8()
			vzAssume(vzAnd(d >= 'a', d <= 'z'))
			if vzChoice(2) == 1 {
				same = d == c
				c = d
			}
		}
		if c == '"' || c == '\\' {
			doc = append(doc, '\\')
		}
		doc = append(doc, c)
	}
	doc = append(doc, '"', '}')
	text := "a = " + string(q) + string(s) + string(q)
	switch vzChoice(3) {
	case 1:
		text = "( " + text + " )"
	case 2:
		text += " && a EXISTS"
	}
	got := vzSimpleVerdict(text, doc)
	vzAssert(got == same, "wrong verdict: "+text)
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

var _ = vzReg("vz_C23_strings", vz_C23_strings)

//vz:bound member names of 2 to 4 (thorough: 5) letters, each any capital letter and so any operator's name or part of one, plain, escaped, nested or followed by an element 0 to 19, and escaped names of 2 (thorough: 3) characters, each any of printable ASCII but the backtick and what JSON strings escape
//vz:cover matched unmatched
func vz_C23_names() {
	d := byte('0' + vzDigit())
	if vzChoice(2) == 0 {
		n := 2
		if vzThorough() {
			n = 3
		}
		s := vz23Chars(n, '`')
		for _, c := range s {
			vzAssume(vzAnd(c != '"', c != '\\'))
		}
		doc := append(append([]byte(`{"`), s...), '"', ':', d, '}')
		sp := []string{"", " "}[vzChoice(2)]
		got := vzSimpleVerdict("`"+string(s)+"`"+sp+"="+sp+"3", doc)
		vzAssert(got == (d == '3'), "wrong verdict")
		if got {
			vzCover("matched")
		} else {
			vzCover("unmatched")
		}
		return
	}
	n := 3
	if vzThorough() {
		n = 4
	}
	s := make([]byte, 2+vzChoice(n))
	for i := range s {
		c := vzU8()
		vzAssume(vzAnd(c >= 'A', c <= 'Z'))
		s[i] = c
	}
	name := string(s)
	plain := true
	for _, w := range []string{"OR", "AND", "LIKE", "EXISTS", "NOT", "IS"} {
		plain = vzAnd(plain, name != w)
	}
	doc := []byte{}
	text := ""
	k := vzChoice(5)
	if k != 1 {
		vzAssume(plain) // an operator's name
	}
	switch k {
	case 0:
		text = name
		doc = append(append([]byte(`{"`), s...), '"', ':', d, '}')
	case 1:
		text = "`" + name + "`"
		doc = append(append([]byte(`{"`), s...), '"', ':', d, '}')
	case 2:
		text = "a." + name
		doc = append(append([]byte(`{"a":{"`), s...), '"', ':', d, '}', '}')
	case 3:
		text = name + ".b[1]"
		doc = append(append([]byte(`{"`), s...), "\":{\"b\":[0,"...)
		doc = append(doc, d, ']', '}', '}')
	case 4:
		i := vzChoice(20)
		text = name + "[" + []string{"", "1"}[i/10] + string([]byte{byte('0' + i%10)}) + "].b"
		doc = append(append([]byte(`{"`), s...), '"', ':', '[')
		for j := 0; j < i; j++ {
			doc = append(doc, '7', ',')
		}
		doc = append(doc, "{\"b\":"...)
		doc = append(doc, d, '}', ']', '}')
	}
	got := vzSimpleVerdict(text+" = 3", doc)
	vzAssert(got == (d == '3'), "wrong verdict: "+text)
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

var _ = vzReg("vz_C23_names", vz_C23_names)

//vz:bound every function with member, numeric, constant and nested function arguments, on either side of a comparison with a constant, a member or a function; the member is a symbolic digit, -0.25, a string or null
//vz:cover matched unmatched
func vz_C23_functions() {
	names := []string{"ABS", "ACOS", "ASIN", "ATAN", "CEIL", "COS", "DEGREES", "EXP", "FLOOR", "LOG", "LN", "SIN", "TAN", "RADIANS", "ROUND", "SQRT", "POW", "ATAN2"}
	funcs := []string{MathFuncAbs, MathFuncAcos, MathFuncAsin, MathFuncAtan, MathFuncCeil, MathFuncCos, MathFuncDegrees, MathFuncExp, MathFuncFloor, MathFuncLog,
		MathFuncLn, MathFuncSin, MathFuncTan, MathFuncRadians, MathFuncRound, MathFuncSqrt, MathFuncPow, MathFuncAtan2}
	a := FieldExpr{0, []string{"a", "x"}}
	b := FieldExpr{0, []string{"b c", "[1]"}}
	arg := func(k int) (string, Expression) {
		switch k {
		case 0:
			return "a.x", a
		case 1:
			return "0.5", ValueExpr{0.5}
		case 2:
			return "ROUND(`b c`[1])", FuncExpr{MathFuncRound, []Expression{b}}
		case 3:
			return "POW(a.x,-2)", FuncExpr{MathFuncPow, []Expression{a, ValueExpr{-2}}}
		case 4:
			return "PI()", ValueExpr{math.Pi}
		}
		return "`b c`[1]", b
	}
	args := 6
	fi := vzChoice(len(funcs))
	if !vzThorough() && fi < 16 {
		args = 3
	}
	doc := []byte("{\"b c\":[0,1.75],\"a\":{\"x\":")
	switch vzChoice(4) {
	case 0:
		doc = append(doc, "-0.25}}"...)
	case 1:
		doc = append(doc, byte('0'+vzDigit()), '}', '}')
	case 2:
		doc = append(append(append(doc, '"'), vzLetters(1)...), '"', '}', '}')
	default:
		doc = append(doc, "null}}"...)
	}
	t, e := arg(vzChoice(args))
	if fi >= 16 {
		t1, e1 := arg(vzChoice(args))
		t, e = t+","+t1, FuncExpr{funcs[fi], []Expression{e, e1}}
	} else {
		e = FuncExpr{funcs[fi], []Expression{e}}
	}
	t = names[fi] + "(" + t + ")"
	var want Expression
	switch vzChoice(3) {
	case 0:
		t, want = t+" < 0.6", LessThanExpr{e, ValueExpr{0.6}}
	case 1:
		t, want = "a.x >= "+t, GreaterEqualsExpr{a, e}
	case 2:
		t, want = t+" == ABS(a.x)", EqualsExpr{e, FuncExpr{MathFuncAbs, []Expression{a}}}
	}
	if vzChoice(2) == 1 {
		t, want = "a EXISTS && "+t, AndExpr{ExistsExpr{FieldExpr{0, []string{"a"}}}, want}
	}
	vzSimpleSame(t, want, doc)
}

var _ = vzReg("vz_C23_functions", vz_C23_functions)

//vz:bound LIKE, =~ and NOT LIKE with patterns with white space, parentheses, alternatives and operators in them, and DATE of a member or of a date compared with one another; the member is a string of 1 to 3 symbolic characters out of all of printable ASCII that JSON does not escape, or a date with a symbolic digit
//vz:cover matched unmatched
func vz_C23_like() {
	a := FieldExpr{0, []string{"a"}}
	if vzChoice(4) == 3 {
		d := []string{"2018", "2018-01", "2018-01-02", "2018-01-02T03:04:05Z"}[vzChoice(4)]
		doc := []byte(`{"a":"2018-01-0`)
		doc = append(doc, byte('0'+vzDigit()), '"', '}')
		op := vzChoice(7)
		f := func(e Expression) Expression { return FuncExpr{DateFunc, []Expression{e}} }
		if vzChoice(2) == 0 {
			vzSimpleSame("DATE(a) "+vz23CmpOps[op]+" DATE(\""+d+"\")", vz23Cmp(op, f(a), f(ValueExpr{d})), doc)
		} else {
			vzSimpleSame("DATE(\""+d+"\")"+vz23CmpOps[op]+" DATE(a)", vz23Cmp(op, f(ValueExpr{d}), f(a)), doc)
		}
		return
	}
	s := vz23Chars(1+vzChoice(3), '"')
	for _, c := range s {
		vzAssume(c != '\\')
	}
	doc := append(append([]byte(`{"a":"`), s...), '"', '}')
	p := []string{"x", "^x+$", "^(x|y)  z?$", "a OR b", "x=y", "^[^)]$", "(x) (y)", "\\d\\.", "5"}[vzChoice(9)]
	e := Expression(LikeExpr{a, RegexExpr{p}})
	text := "a "
	switch vzChoice(3) {
	case 0:
		text += "LIKE"
	case 1:
		text += "=~"
	case 2:
		text += "NOT LIKE"
		e = NotExpr{e}
	}
	q := []string{"\"", "'"}[vzChoice(2)]
	text += " " + q + p + q
	if vzChoice(2) == 1 {
		text = "( " + text + " )"
	}
	vzSimpleSame(text, e, doc)
}

var _ = vzReg("vz_C23_like", vz_C23_like)

var vz23Vocab = []string{"a", "`b", "c`", "1", "2.5", `"x`, `y"`, "'", "=", "!=", "<", "&&", "OR", "(", ")", "(a", "1)", ")(", "NOT", "LIKE", "IS", "NULL", "MISSING", "true", "EXISTS", "ABS(a)", "ABS(PI())", "POW(a,POW(a,2))", "POW(a)", "PI()", "DATE(a)", `DATE("x")`, "a[0", "a.", ".a", "[1]", "a[1]b", "=~", `"("`, "`", "", "9223372036854775808", "a=1&&b"}

//vz:bound texts obtained from 9 valid ones by leaving out, replacing or inserting a token out of 43 (thorough: and then another one out of 4); an accepted one is matched against a document with a member 0, 1 or 2
//vz:cover rejected ran
func vz_C23_tokens() {
	base := [][]string{
		{"a", "=", "1"},
		{"a", "IS", "NOT", "NULL", "OR", "a", "IS", "MISSING"},
		{"a", "NOT", "LIKE", `"x"`, "AND", "b", "=", "1"},
		{"(", "a", "=", "1", "OR", "true", ")", "AND", "b", "!=", `"x"`},
		{"a", "=", "1", "&&", "(", "b", "=", "1", "&&", "c", "EXISTS", ")"},
		{"ABS(a)", "=", "POW(a,2)"},
		{"a=1", "||", "b>2"},
		{"a.b[1]", "=", `"x`, `y"`},
		{"`a", "b`", "=", "'x", "y'"},
	}
	toks := base[vzChoice(len(base))]
	vocabs := [][]string{vz23Vocab}
	if vzThorough() {
		vocabs = append(vocabs, []string{"(", "1)", `y"`, "`b"})
	}
	for _, vocab := range vocabs {
		i := vzChoice(len(toks) + 1)
		t := append([]string{}, toks[:i]...)
		k := vzChoice(len(vocab) + 1)
		if k < len(vocab) {
			t = append(t, vocab[k])
		}
		if i < len(toks) && (k == len(vocab) || vzChoice(2) == 0) {
			i++
		}
		toks = append(t, toks[i:]...)
	}
	text := ""
	for _, t := range toks {
		text += t + " "
	}
	e, ok := vzSimpleRead(text)
	if !ok {
		vzCover("rejected")
		return
	}
	vzSimpleMatch(e, []byte{'{', '"', 'a', '"', ':', '0' + byte(vzChoice(3)), '}'})
	vzCover("ran")
}

var _ = vzReg("vz_C23_tokens", vz_C23_tokens)

//vz:bound every text of 3 (thorough: 4) bytes after "a", each any byte
//vz:cover rejected ran
func vz_C23_bytes() {
	n := 3
	if vzThorough() {
		n = 4
	}
	text := "a" + string(vzBytes(n))
	e, ok := vzSimpleRead(text)
	if !ok {
		vzCover("rejected")
		return
	}
	vzSimpleMatch(e, []byte(`{"a":1}`))
	vzCover("ran")
}

var _ = vzReg("vz_C23_bytes", vz_C23_bytes)

//vz:bound string values and member names, plain and escaped, of 8 to 65 characters one of which (near either end or a power of two) is any letter or, within quotes, any of printable ASCII, paths of 5 to 17 names elements up to 130 and numbers of 2 to 19 digits with a sign or a fraction; the document's member is the same but for possibly one character
//vz:cover matched unmatched
func vz_C23_long() {
	n := []int{8, 17, 33, 65}[vzChoice(4)]
	fill := func(c byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'n'
		}
		b[vzPick(n)] = c
		return b
	}
	d := byte('0' + vzDigit())
	doc, text, want := []byte{}, "", false
	switch vzChoice(5) {
	case 0:
		q := "\"'"[vzChoice(2)]
		c := vz23Chars(1, q)[0]
		s := fill(c)
		text = "a = " + string(q) + string(s) + string(q) + []string{"", " && b = 3"}[vzChoice(2)]
		same := vzChoice(2) == 0
		doc = append(doc, `{"b":3,"a":"`...)
		for i, x := range s {
			if !same && i == n/2 {
				x = '1'
			}
			if x == '"' || x == '\\' {
				doc = append(doc, '\\')
			}
			doc = append(doc, x)
		}
		doc = append(doc, `"}`...)
		want = same || s[n/2] == '1'
	case 1:
		c := vzU8()
		vzAssume(vzAnd(c >= 'a', c <= 'z'))
		s := fill(c)
		text = string(s) + " = 3"
		doc = append(append(append(doc, `{"`...), s...), '"', ':', d, '}')
		want = d == '3'
	case 2:
		c := vz23Chars(1, '`')[0]
		vzAssume(vzAnd(c != '"', c != '\\'))
		s := fill(c)
		text = "`" + string(s) + "` = 3 || a EXISTS"
		doc = append(append(append(doc, `{"`...), s...), '"', ':', d, '}')
		want = d == '3'
	case 3:
		n = n/8*4 + 1
		at := []int{0, 9, 10, 11, 99, 100, 130}[vzChoice(7)]
		var v *vzV = &vzV{k: vzKArr}
		for i := 0; i < at+2; i++ {
			if i == at {
				v.vals = append(v.vals, &vzV{k: vzKInt, num: int64(d - '0')})
			} else {
				v.vals = append(v.vals, vzInt(2))
			}
		}
		text = "[" + vzItoa(at) + "] = 3"
		for i := 0; i < n; i++ {
			v = &vzV{k: vzKObj, keys: []string{vzMember(i)}, vals: []*vzV{v}}
			if i == 0 {
				text = vzMember(i) + text
			} else {
				text = vzMember(i) + "." + text
			}
		}
		doc = v.render(nil, "")
		want = d == '3'
	case 4:
		text, doc, want = vzBigNumber()
	}
	got := vzSimpleVerdict(text, doc)
	vzAssert(got == want, "wrong verdict: "+text)
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

var _ = vzReg("vz_C23_long", vz_C23_long)
