package gojsonsm

import "regexp"

// Regular expression conditions look at the characters of strings.

var vz24Res = []string{"^a", "a$", "^$", "", "^.$", "\n", "^[^a-z]+$", "\"", `\\`, "a|/", "^é$", `^\w\W?$`, "^ab?$", `\d`, "^[[:cntrl:]]"}

//vz:bound 15 regular expressions (anchors, classes, alternatives, quotes, backslash, line end, non-ASCII) applied to a member, plain and under NOT, the member's text made of up to 2 (thorough: 3) pieces, each any unescaped byte, a two-character escape or a \u escape with arbitrary digits
//vz:cover holds fails
func vz_C24_text() func() {
	var ms, ns []*FastMatcher
	var res []*regexp.Regexp
	for _, r := range vz24Res {
		ms = append(ms, vzMatcher(LikeExpr{vzF("a"), RegexExpr{r}}))
		ns = append(ns, vzMatcher(NotExpr{LikeExpr{vzF("a"), RegexExpr{r}}}))
		res = append(res, regexp.MustCompile(r))
	}
	return func() {
		max := 2
		if vzThorough() {
			max = 3
		}
		i := vzChoice(len(ms))
		not := vzChoice(2) == 1
		ps := vz12Pieces(vzChoice(max + 1))
		doc := append([]byte(`{"a":`), vz12Quote(ps)...)
		doc = append(doc, '}')
		m := ms[i]
		if not {
			m = ns[i]
		}
		m.Reset()
		r, err, p := vzMatch(m, doc)
		vzAssert(p == "" && err == nil, "matching a regular expression fails "+p)
		vzObserve("res", r)
		vzAssert(r == (res[i].Match(vz12Decode(ps)) != not), "a regular expression is not applied to the characters of the string")
		if r {
			vzCover("holds")
		} else {
			vzCover("fails")
		}
	}
}

var vz24Other = []string{`{}`, `{"a":null}`, `{"a":true}`, `{"a":1}`, `{"a":1.5}`, `{"a":["a"]}`, `{"a":{"a":"a"}}`, `{"b":"a"}`, `[]`, `"a"`, `{"a":12345678901234567890}`, `{"a":99999999999999999999}`}

//vz:bound the same expressions on 12 documents without a string member
//vz:cover plain negated
func vz_C24_other() {
	i, j := vzChoice(len(vz24Res)), vzChoice(len(vz24Other))
	not := vzChoice(2) == 1
	var e Expression = LikeExpr{vzF("a"), RegexExpr{vz24Res[i]}}
	if not {
		e = NotExpr{e}
		vzCover("negated")
	} else {
		vzCover("plain")
	}
	r, err, p := vzMatch(vzMatcher(e), []byte(vz24Other[j]))
	vzAssert(p == "" && err == nil, "matching a regular expression fails "+p)
	vzAssert(r == not, "a regular expression holds for something that is no string")
}

var _ = vzRegS("vz_C24_text", vz_C24_text)
var _ = vzReg("vz_C24_other", vz_C24_other)

//vz:bound 7 regular expressions on texts of 8 to 65 (thorough: 130) characters one of which (near either end or a power of two) is any byte that is neither quote, backslash nor control character, with or without an escape at the beginning or end, plain and under NOT
//vz:cover holds fails
func vz_C24_long() func() {
	var ms, ns []*FastMatcher
	var res []*regexp.Regexp
	for _, r := range []string{"^n*$", "x", "n{33}", "[^n]n", `^"`, "\n$", "nn(x|y)"} {
		ms = append(ms, vzMatcher(LikeExpr{vzF("a"), RegexExpr{r}}))
		ns = append(ns, vzMatcher(NotExpr{LikeExpr{vzF("a"), RegexExpr{r}}}))
		res = append(res, regexp.MustCompile(r))
	}
	return func() {
		sizes := []int{8, 33, 65}
		if vzThorough() {
			sizes = []int{8, 9, 16, 31, 32, 33, 64, 65, 130}
		}
		n := sizes[vzChoice(len(sizes))]
		i, esc := vzChoice(len(ms)), vzChoice(3)
		b := make([]byte, n)
		for j := range b {
			b[j] = 'n'
		}
		c := vzU8()
		vzAssume(vzAnd(vzAnd(c >= 0x20, c < 0x80), vzAnd(c != '"', c != '\\')))
		b[vzPick(n)] = c
		doc, val := append([]byte(`{"a":"`), b...), b
		switch esc {
		case 1:
			doc = append(append([]byte(`{"a":"\"`), b...), `"}`...)
			val = append([]byte(`"`), b...)
		case 2:
			doc = append(doc, `\n"}`...)
			val = append(append([]byte{}, b...), '\n')
		default:
			doc = append(doc, `"}`...)
		}
		m, not := ms[i], vzChoice(2) == 1
		if not {
			m = ns[i]
		}
		m.Reset()
		r, err, p := vzMatch(m, doc)
		vzAssert(p == "" && err == nil, "matching a regular expression fails "+p)
		vzObserve("res", r)
		vzAssert(r == (res[i].Match(val) != not), "a regular expression is not applied to the characters of the string")
		if r {
			vzCover("holds")
		} else {
			vzCover("fails")
		}
	}
}

var _ = vzRegS("vz_C24_long", vz_C24_long)
