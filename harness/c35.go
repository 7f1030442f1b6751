package gojsonsm

import (
	"regexp"
	"strings"
)

// Patterns, wherever they are given.

//vz:bound patterns of up to 2 pieces (thorough: 3), alone or within a class or a group, out of 24 (letters, escapes, groups, named groups, classes, repetitions, and the beginnings of look-ahead and look-behind, which are no regular expressions, but may be within a class) given as an expression, as JSON, in a filter text and in a simple text; accepted exactly when the pattern is a regular expression, and then applied to texts of 2 arbitrary characters out of those in the pieces
//vz:cover matched unmatched rejected
func vz_C35_given() {
	pieces := []string{"", "x", "(", ")", "[", "]", "(?=", "(?!", "(?<", "(?<!", "(?P<n>", "(?<n>", "(?i)", "?", "*", "|", "{2}", "^", "$", ".", "!", `\d`, `\.`, `\`}
	n := 2
	if vzThorough() {
		n = 3
	}
	pat := ""
	for i := 0; i < n; i++ {
		pat += pieces[vzChoice(len(pieces))]
	}
	switch vzChoice(3) {
	case 1:
		pat = "[" + pat + "]"
	case 2:
		pat = "(" + pat + ")"
	}
	vz35Same(pat)
}

var _ = vzReg("vz_C35_given", vz_C35_given)

func vz35Same(pat string) {
	re, rerr := regexp.Compile(pat)
	var m Matcher
	var e Expression
	var err error
	way := vzChoice(4)
	esc := strings.Replace(pat, `\`, `\\`, -1)
	// the quote behind an odd backslash ends no simple text
	vzAssume(way != 3 || (len(pat)-len(strings.TrimRight(pat, `\`)))%2 == 0)
	p := vzPanics(func() {
		switch way {
		case 0:
			e = LikeExpr{FieldExpr{0, []string{"a"}}, RegexExpr{pat}}
		case 1:
			e, err = ParseJsonExpression([]byte(`["like",["field","a"],["regex","` + esc + `"]]`))
		case 2:
			m, err = GetFilterExpressionMatcher(`REGEXP_CONTAINS(a, "` + esc + `")`)
		case 3:
			e, err = ParseSimpleExpression(`a LIKE "` + pat + `"`)
		}
	})
	vzAssert(p == "", "reading panicked: "+p)
	vzAssert(way == 0 || (err == nil) == (rerr == nil), "accepted exactly when it is a regular expression: "+pat)
	if err == nil && m == nil {
		p = vzPanics(func() {
			var t Transformer
			m = NewFastMatcher(t.Transform([]Expression{e}))
		})
		vzAssert((p == "") == (rerr == nil), "compiled exactly when it is a regular expression: "+pat)
	}
	if rerr != nil {
		vzCover("rejected")
		return
	}
	s := make([]byte, 2)
	for i := range s {
		s[i] = "x(=![<1"[vzChoice(7)]
	}
	var got bool
	p = vzPanics(func() { got, err = m.Match([]byte(`{"a":"` + string(s) + `"}`)) })
	vzAssert(p == "", "matching panicked: "+p)
	vzAssert(err == nil, "matching failed")
	vzAssert(got == re.Match(s), "wrong verdict: "+pat)
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}
