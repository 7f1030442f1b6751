package gojsonsm

// What the matcher reads on its way must be JSON: a document that is not is
// reported as an error, and one that is JSON never is.

// vz31Node is what an expression looks at within a value.
type vz31Node struct {
	keys map[string]*vz31Node // members, elements "[i]"
	loop *vz31Node            // the elements one by one
}

// vz31 reads a document by the grammar of JSON. Where lax it does not look at
// what the expression has no use for, but for the number of brackets, and lets
// a comma before the end of an object or array pass.
type vz31 struct {
	doc []byte
	p   int
	lax bool
	dup bool // a member the expression looks at occurs twice
}

// token gives the kind of the next token ('s' a string, '1' a number, 0 the
// end, '?' none at all) and the contents of a string.
func (r *vz31) token() (byte, []byte) {
	for r.p < len(r.doc) && r.doc[r.p] == ' ' {
		r.p++
	}
	if r.p == len(r.doc) {
		return 0, nil
	}
	c := r.doc[r.p]
	r.p++
	switch c {
	case '{', '}', '[', ']', ':', ',':
		return c, nil
	case '1':
		for r.p < len(r.doc) && r.doc[r.p] == '1' {
			r.p++
		}
		return '1', nil
	case '"':
		s := r.p
		for r.p < len(r.doc) {
			r.p++
			if r.doc[r.p-1] == '"' {
				return 's', r.doc[s : r.p-1]
			}
		}
	}
	return '?', nil
}

// skip reads up to the end of the object or array just begun.
func (r *vz31) skip() bool {
	depth := 1
	for depth > 0 {
		switch t, _ := r.token(); t {
		case '{', '[':
			depth++
		case '}', ']':
			depth--
		case 0, '?':
			return false
		}
	}
	return true
}

// value reads the value that begins with token t, of which n is of interest.
func (r *vz31) value(t byte, n *vz31Node) bool {
	var end byte
	switch t {
	case 's', '1':
		return true
	case '{':
		end = '}'
	case '[':
		end = ']'
	default:
		return false
	}
	if r.lax && (n == nil || t == '{' && len(n.keys) == 0) {
		return r.skip()
	}
	seen := map[string]bool{}
	for i := 0; ; i++ {
		t, s := r.token()
		if t == end && (i == 0 || r.lax) {
			return true
		}
		var child *vz31Node
		if end == '}' {
			if t != 's' {
				return false
			}
			if t, _ = r.token(); t != ':' {
				return false
			}
			t, _ = r.token()
			if n != nil {
				child = n.keys[string(s)]
				r.dup = r.dup || child != nil && seen[string(s)]
				seen[string(s)] = true
			}
		} else if n != nil {
			if child = n.keys["["+vzItoa(i)+"]"]; n.loop != nil {
				child = n.loop
			}
		}
		if !r.value(t, child) {
			return false
		}
		if t, _ = r.token(); t == end {
			return true
		} else if t != ',' {
			return false
		}
	}
}

func vz31Path(leaf *vz31Node, path ...string) *vz31Node {
	for i := len(path) - 1; i >= 0; i-- {
		leaf = &vz31Node{keys: map[string]*vz31Node{path[i]: leaf}}
	}
	return leaf
}

// vz31Byte is one of the bytes the oracle knows.
func vz31Byte() byte {
	c := vzU8()
	ok := false
	for _, x := range []byte("{}[]:,\"1ax ") {
		ok = vzOr(ok, c == x)
	}
	vzAssume(ok)
	return c
}

// vz31Setup gives the check of one of the expressions on a document.
func vz31Setup() func(k int, doc []byte) {
	v := func(p ...string) FieldExpr { return vzVar(1, p...) }
	leaf := &vz31Node{}
	exprs := []Expression{
		ExistsExpr{vzF("zz")},
		NotExpr{vzEq(vzF("a", "zz"), vzN(1))},
		vzEq(vzF("a", "[1]", "zz"), vzN(1)),
		OrExpr{AnyInExpr{1, vzF("a"), ExistsExpr{v("zz")}}, ExistsExpr{vzF("zz")}},
		NotExpr{OrExpr{AnyInExpr{1, vzF("a", "a"), vzEq(v(), ValueExpr{"zz"})}, ExistsExpr{vzF("zz")}}},
		vzEq(vzF("a", "zz"), vzF("b")),
		ExistsExpr{vzF("[1]", "zz")},
		OrExpr{AnyInExpr{1, vzF(), ExistsExpr{v("a", "zz")}}, ExistsExpr{vzF("zz")}},
	}
	zz := vz31Path(leaf, "zz")
	nodes := []*vz31Node{
		zz,
		vz31Path(leaf, "a", "zz"),
		vz31Path(leaf, "a", "[1]", "zz"),
		{keys: map[string]*vz31Node{"a": {loop: zz}, "zz": leaf}},
		{keys: map[string]*vz31Node{"a": vz31Path(&vz31Node{loop: leaf}, "a"), "zz": leaf}},
		{keys: map[string]*vz31Node{"a": zz, "b": leaf}},
		vz31Path(leaf, "[1]", "zz"),
		{loop: vz31Path(leaf, "a", "zz"), keys: map[string]*vz31Node{"zz": leaf}},
	}
	good := []string{`{"zz":1}`, `{"a":{"zz":1}}`, `{"a":[1,{"zz":1}]}`, `{"a":[1,{"zz":1}]}`, `{"a":{"a":[1,"zz"]}}`, `{"b":1,"a":{"zz":1}}`, `[1,{"zz":1}]`, `[1,{"a":{"zz":1}}]`}
	rest := []bool{false, true, false, false, true, false, false, false}
	defs := vzCompileEach(exprs)
	return func(k int, doc []byte) {
		m := NewFastMatcher(defs[k].def)
		got, err, p := vzMatch(m, doc)
		vzAssert(p == "", "Match panicked: "+p)
		r := &vz31{doc: doc, lax: true}
		t, _ := r.token()
		read := r.value(t, nodes[k])
		if r.dup {
			return // no object has a member twice
		}
		if !read {
			vzAssert(err != nil, "no error for a document that is not JSON")
			vzCover("rejected")
		} else {
			r = &vz31{doc: doc}
			t, _ = r.token()
			if r.value(t, nil) && func() bool { t, _ := r.token(); return t == 0 }() {
				vzAssert(err == nil, "an error for a document that is JSON")
				vzAssert(got == rest[k], "wrong verdict")
				vzCover("json")
			} else {
				vzCover("lax")
			}
		}
		vzAssert(err == nil || !got, "a verdict along with an error")
		m.Reset()
		got2, _, err2 := m.MatchWithStatus(doc)
		vzAssert(got2 == got, "another verdict with the status")
		vzAssert((err2 == nil) == (err == nil), "an error only with or without the status")
		m.Reset()
		got, err = m.Match([]byte(good[k]))
		vzAssert(err == nil, "an error for a good document after a bad one")
		vzAssert(got != rest[k], "wrong verdict for a good document after a bad one")
	}
}

//vz:bound 8 expressions none of which can be settled before the end of the document (members, elements, loops, two members compared); documents of up to 5 (thorough: 6) bytes, each any of { } [ ] : , quote 1 a x and blank, alone or within one of 7 surroundings (a member's value, an element, after a member, before a member, nested); whether Match and MatchWithStatus report an error, and the verdict of the same matcher for a good document afterwards
//vz:cover json rejected lax
func vz_C31_bytes() func() {
	f := vz31Setup()
	return func() {
		k := vzChoice(8)
		n := 5
		if vzThorough() {
			n = 6
		}
		around := vzChoice(8)
		if around > 0 {
			n--
		}
		n = vzChoice(n + 1)
		pre, post := "", ""
		switch around {
		case 1:
			pre, post = `{"a":`, `}`
		case 2:
			pre, post = `[`, `]`
		case 3:
			pre = `{"a":1`
		case 4:
			post = `"a":1}`
		case 5:
			pre, post = `{"a":[`, `]}`
		case 6:
			pre, post = `{"a":{"a":[`, `]},"b":1}`
		case 7:
			pre, post = `{"b":{"a"`, `}}`
		}
		doc := []byte(pre)
		for i := 0; i < n; i++ {
			doc = append(doc, vz31Byte())
		}
		doc = append(doc, post...)
		vzAssume(len(doc) > 0)
		f(k, doc)
	}
}

var _ = vzRegS("vz_C31_bytes", vz_C31_bytes)

//vz:bound the same expressions; 5 documents of 40 to 60 bytes, objects and arrays up to 4 deep, in which a byte at any place is any of { } [ ] : , quote 1 a x and blank, or missing, or followed by another, or all after it is missing
//vz:cover json rejected lax
func vz_C31_edit() func() {
	f := vz31Setup()
	docs := []string{
		`{"x":{"1":[1,"}"]},"a":{"a":[1,{"x":11}],"b":[]},"b":1}`,
		`{"a":[[1,1],{"x":1,"y":{}},"a"], "b":{"x":[{}]},"y":1}`,
		`[{"a":{"x":1,"b":[1]}},{"x":[[],[1]]},[1,"a"], 1]`,
		`{"b":[1,{"a":1}],"a":{"x":{"x":[1]},"a":{"a":1}}}`,
		`{"x1":1,"x2":"1","x3":[{"x":1},{}],"a":[],"x4":{"a":1}}`,
	}
	return func() {
		k := vzChoice(8)
		s := docs[vzChoice(len(docs))]
		t := vzChoice(len(s))
		doc := append([]byte{}, s[:t]...)
		switch vzChoice(4) {
		case 0:
			doc = append(append(doc, vz31Byte()), s[t+1:]...)
		case 1:
			doc = append(doc, s[t+1:]...)
		case 2:
			doc = append(append(doc, s[t], vz31Byte()), s[t+1:]...)
		case 3:
			doc = append(doc, s[t])
		}
		f(k, doc)
	}
}

var _ = vzRegS("vz_C31_edit", vz_C31_edit)
