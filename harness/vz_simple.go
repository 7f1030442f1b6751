package gojsonsm

// Texts of the simple expression language.

func vzSimpleMatch(expr Expression, doc []byte) bool {
	var got bool
	var err error
	p := vzPanics(func() {
		var t Transformer
		def := t.Transform([]Expression{expr})
		got, err = NewFastMatcher(def).Match(doc)
	})
	vzAssert(p == "", "matching panicked: "+p)
	vzAssert(err == nil, "matching failed")
	return got
}

func vzSimpleRead(text string) (Expression, bool) {
	var e Expression
	var err error
	p := vzPanics(func() { e, err = ParseSimpleExpression(text) })
	vzAssert(p == "", "the parser panicked: "+p)
	return e, err == nil
}

func vzSimpleVerdict(text string, doc []byte) bool {
	e, ok := vzSimpleRead(text)
	vzAssert(ok, "the text was rejected: "+text)
	return vzSimpleMatch(e, doc)
}

// vzSimpleSame asserts that text means want on doc.
func vzSimpleSame(text string, want Expression, doc []byte) {
	e, ok := vzSimpleRead(text)
	vzAssert(ok, "the text was rejected: "+text)
	w := vzSimpleMatch(want, doc)
	got := vzSimpleMatch(e, doc)
	vzAssert(got == w, "wrong verdict: "+text)
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}
