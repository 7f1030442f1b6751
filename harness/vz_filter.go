package gojsonsm

// vzFilterMatch runs the matcher made from a filter text.
func vzFilterMatch(text string, doc []byte) bool {
	var m Matcher
	var err error
	p := vzPanics(func() { m, err = GetFilterExpressionMatcher(text) })
	vzAssert(p == "", "the filter panicked: "+p)
	vzAssert(err == nil, "the filter was rejected")
	var got bool
	p = vzPanics(func() { got, err = m.Match(doc) })
	vzAssert(p == "", "matching panicked: "+p)
	vzAssert(err == nil, "matching failed")
	return got
}

var vzNames = []string{"a", "b", "c", "d"}
