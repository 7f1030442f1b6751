package gojsonsm

// Texts read while Go iterates its maps in any order.

// vz34Same reads the text once for every order of iteration (natively: many
// times, since Go picks the order at random).
func vz34Same(text string, want Expression, docs ...[]byte) {
	n := 1
	if !vzSymbolic() {
		n = 300
	}
	for i := 0; i < n; i++ {
		vzMapOrder(true)
		e, ok := vzSimpleRead(text)
		vzMapOrder(false)
		vzAssert(ok, "the text was rejected: "+text)
		for _, doc := range docs {
			w := vzSimpleMatch(want, doc)
			vzAssert(vzSimpleMatch(e, doc) == w, "wrong verdict: "+text)
			if w {
				vzCover("matched")
			} else {
				vzCover("unmatched")
			}
		}
	}
}

//vz:bound texts with one operator of several words (IS NULL, IS NOT NULL, IS MISSING, NOT LIKE), alone (thorough: or joined by AND or OR to a comparison before or behind); each of the first 5 loops over the operators starts at any of them; documents whose other member is any digit
//vz:cover matched unmatched
func vz_C34_words() {
	f := FieldExpr{0, []string{"a"}}
	var text string
	var want Expression
	switch vzChoice(4) {
	case 0:
		text, want = "a IS NULL", EqualsExpr{f, ValueExpr{nil}}
	case 1:
		text, want = "a IS NOT NULL", NotEqualsExpr{f, ValueExpr{nil}}
	case 2:
		text, want = "a IS MISSING", NotExistsExpr{f}
	case 3:
		text, want = "a NOT LIKE \"^x\"", NotExpr{LikeExpr{f, RegexExpr{"^x"}}}
	}
	b := EqualsExpr{FieldExpr{0, []string{"b"}}, ValueExpr{int64(1)}}
	join := 0
	if vzThorough() {
		join = vzChoice(3)
	}
	switch join {
	case 1:
		text, want = "b = 1 AND "+text, AndExpr{b, want}
	case 2:
		text, want = text+" OR b = 1", OrExpr{want, b}
	}
	n := byte('0')
	if join > 0 {
		n += byte(vzDigit())
	}
	var docs [][]byte
	for _, m := range []string{``, `,"a":null`, `,"a":"x"`, `,"a":"y"`} {
		docs = append(docs, []byte(`{"b":`+string([]byte{n})+m+`}`))
	}
	vz34Same(text, want, docs...)
}

var _ = vzReg("vz_C34_words", vz_C34_words)

var vz34Funcs = []string{"ABS", "ACOS", "ASIN", "ATAN", "CEIL", "COS", "DEGREES", "EXP", "FLOOR", "LOG", "LN", "SIN", "TAN", "RADIANS", "ROUND", "SQRT"}
var vz34Names = []string{MathFuncAbs, MathFuncAcos, MathFuncAsin, MathFuncAtan, MathFuncCeil, MathFuncCos, MathFuncDegrees, MathFuncExp,
	MathFuncFloor, MathFuncLog, MathFuncLn, MathFuncSin, MathFuncTan, MathFuncRadians, MathFuncRound, MathFuncSqrt}

//vz:bound comparisons of each function of the language with a constant, and of one function within another; the tables of functions are gone through from any place
//vz:cover matched unmatched
func vz_C34_funcs() {
	f := FieldExpr{0, []string{"a"}}
	var text string
	var fn Expression
	switch k := vzChoice(len(vz34Funcs) + 3); k {
	default:
		text, fn = vz34Funcs[k]+"(a)", FuncExpr{vz34Names[k], []Expression{f}}
		if vzChoice(2) == 1 {
			j := vzChoice(len(vz34Funcs))
			text, fn = vz34Funcs[j]+"("+text+")", FuncExpr{vz34Names[j], []Expression{fn}}
		}
	case len(vz34Funcs):
		text, fn = "ATAN2(a,2)", FuncExpr{MathFuncAtan2, []Expression{f, ValueExpr{int64(2)}}}
	case len(vz34Funcs) + 1:
		text, fn = "POW(a,2)", FuncExpr{MathFuncPow, []Expression{f, ValueExpr{int64(2)}}}
	case len(vz34Funcs) + 2:
		text, fn = "DATE(a)", FuncExpr{DateFunc, []Expression{f}}
		vz34Same(text+" < DATE(\"2018-01-01\")", LessThanExpr{fn, FuncExpr{DateFunc, []Expression{ValueExpr{"2018-01-01"}}}},
			[]byte(`{"a":"2017-05-06"}`), []byte(`{"a":"2018-05-06"}`))
		return
	}
	vz34Same(text+" > 0.7", GreaterThanExpr{fn, ValueExpr{0.7}}, []byte(`{"a":0.5}`), []byte(`{"a":1}`), []byte(`{"a":3}`), []byte(`{"a":-1}`))
}

var _ = vzReg("vz_C34_funcs", vz_C34_funcs)
