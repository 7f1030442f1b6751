def T(body, imports=()):
    imp = "import (\n" + "".join('\t"%s"\n' % i for i in ("testing",) + tuple(imports)) + ")\n"
    return "package gojsonsm\n\n" + imp + '''
func demoMatch(t *testing.T, exprText, doc string) bool {
	e, err := ParseJsonExpression([]byte(exprText))
	if err != nil {
		t.Fatal(err)
	}
	var tr Transformer
	m := NewFastMatcher(tr.Transform([]Expression{e}))
	r, err := m.Match([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func TestDemo(t *testing.T) {
''' + body + "\n}\n"

SEEDS = [
 dict(id="c01-hex-digit", property="C01", edits=[("jsontokenizer.go", """				state = toksInStringEscU123
				continue DataLoop
			}
			// numbers
			return tknUnknown, nil, 0, errors.New("in \\\\u hexadecimal character escape")

		case toksInStringEscU123:
			if '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F' {""", """				state = toksInStringEscU123
				continue DataLoop
			}
			// numbers
			return tknUnknown, nil, 0, errors.New("in \\\\u hexadecimal character escape")

		case toksInStringEscU123:
			if '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c < 'F' {""")],
  needs="a string with a \\u escape whose last hex digit is an upper-case F",
  breaks="valid JSON strings such as \"\\u00eF\" are rejected",
  demo=T('''	var tk jsonTokenizer
	for _, s := range []string{`"\\u00eF"`, `"\\u00EE"`, `"\\u001f"`} {
		tk.Reset([]byte(s))
		if _, _, _, err := tk.Step(); err != nil {
			t.Fatal(s, err)
		}
	}''')),
 dict(id="c21-and-right", property="C21", edits=[("bintree.go", """		} else if state.data[defNode.Left] == binTreeStateFalse || state.data[defNode.Right] == binTreeStateFalse {
			state.MarkNode(index, false)""", """		} else if state.data[defNode.Left] == binTreeStateFalse || state.data[defNode.Left] != binTreeStateUnknown && state.data[defNode.Right] == binTreeStateFalse {
			state.MarkNode(index, false)""")],
  needs="the right operand of an AND becoming false while the left one is still open",
  breaks="an AND whose right operand is false is not settled until the left one is known",
  demo=T('''	tree := binTree{[]binTreeNode{*NewBinTreeNode(nodeTypeAnd, 0, 1, 2), *NewBinTreeNode(nodeTypeLeaf, 0, 0, 0), *NewBinTreeNode(nodeTypeLeaf, 0, 0, 0)}}
	st := tree.NewState()
	st.MarkNode(2, false)
	if !st.IsResolved(0) || st.IsTrue(0) {
		t.Fatal("AND with a false operand is open")
	}''')),
 dict(id="c04-array-index", property="C04", edits=[("fastMatcher.go", """			keyString = fmt.Sprintf("[%d]", arrayIndex)
""", """			keyString = fmt.Sprintf("[%d]", arrayIndex)
			if token == tknArrayStart {
				arrayIndex--
			}
""")],
  needs="an indexed element that follows a nested array",
  breaks="indices count elements after a nested array wrongly",
  demo=T('''	if demoMatch(t, `["equals",["field","a","[1]"],["value",2]]`, `{"a":[[1],2,3]}`) != true {
		t.Fatal("element 1 not found")
	}
	if demoMatch(t, `["equals",["field","a","[0]"],["value",2]]`, `{"a":[2,3]}`) != true {
		t.Fatal("element 0 not found")
	}''')),
 dict(id="c05-stall-nested", property="C05", edits=[("fastMatcher.go", """	m.buckets.SetStallIndex(previousStallIndex)

	// Apply""", """	if previousStallIndex < loopBucketIdx-2 {
		previousStallIndex = 0
	}
	m.buckets.SetStallIndex(previousStallIndex)

	// Apply""")],
  needs="an inner loop that is one of two conditions in an outer loop's body, with a later outer element deciding",
  breaks="an inner loop settles the outer expression for the whole document",
  demo=T('''	e := `["everyin",1,["field","a"],["or",["equals",["field",1,"b"],["value",1]],["anyin",2,["field",1,"c"],["equals",["field",2],["value",1]]]]]`
	if demoMatch(t, e, `{"a":[{"c":[1]},{"c":[2]}]}`) {
		t.Fatal("second element does not match")
	}
	if !demoMatch(t, e, `{"a":[{"c":[1]},{"c":[2],"b":1}]}`) {
		t.Fatal("both elements match")
	}''')),
 dict(id="c06-neor-early", property="C06", edits=[("bintree.go", """		if state.data[defNode.Left] != binTreeStateUnknown && state.data[defNode.Right] != binTreeStateUnknown {
			if""", """		if state.data[defNode.Left] != binTreeStateUnknown && state.data[defNode.Right] != binTreeStateUnknown || state.data[defNode.Right] == binTreeStateTrue && state.tree.data[defNode.Left].NodeType == nodeTypeAnd {
			if""")],
  needs="an AND expression first, another expression decided true before it",
  breaks="matching stops before the first expression's verdict is known",
  demo=T('''	p := func(s string) Expression {
		e, err := ParseJsonExpression([]byte(s))
		if err != nil {
			t.Fatal(err)
		}
		return e
	}
	var tr Transformer
	m := NewFastMatcher(tr.Transform([]Expression{p(`["and",["equals",["field","a"],["value",1]],["equals",["field","b"],["value",2]]]`), p(`["equals",["field","a"],["value",1]]`)}))
	m.Match([]byte(`{"a":1,"b":2}`))
	if !m.ExpressionMatched(0) || !m.ExpressionMatched(1) {
		t.Fatal("both expressions hold")
	}''')),
 dict(id="c07-stall-reset", property="C07", edits=[("bintree.go", """	state.stallIndex = 0
	for i := range state.data {""", """	for i := range state.data {""")],
  needs="a document that ends inside an array that is looped over, then a reset and a second document",
  breaks="the second document's conditions no longer reach the result",
  demo=T('''	p := func(s string) Expression {
		e, err := ParseJsonExpression([]byte(s))
		if err != nil {
			t.Fatal(err)
		}
		return e
	}
	var tr Transformer
	d := tr.Transform([]Expression{p(`["or",["anyin",1,["field","a"],["and",["equals",["field",1],["value",1]],["equals",["field",1],["value",1]]]],["equals",["field","b"],["value",2]]]`)})
	m := NewFastMatcher(d)
	m.Match([]byte(`{"a":[3,tru`))
	m.Reset()
	doc := []byte(`{"a":[1],"b":3}`)
	r1, err1 := m.Match(doc)
	r2, err2 := NewFastMatcher(d).Match(doc)
	if r1 != r2 || (err1 == nil) != (err2 == nil) {
		t.Fatal("reset matcher differs", r1, r2, err1, err2)
	}''')),
 dict(id="c08-shared-slots", property="C08", edits=[("fastMatcher.go", """	return &FastMatcher{
		def:     *def,
		slots:   make([]slotData, def.NumSlots),""", """	if len(def.slotBuf) < def.NumSlots {
		def.slotBuf = make([]slotData, def.NumSlots)
	}
	return &FastMatcher{
		def:     *def,
		slots:   def.slotBuf[:def.NumSlots],"""), ("fastMatcherDef.go", """	NumSlots     int
""", """	NumSlots     int
	slotBuf      []slotData
""")],
  needs="two matchers made from one definition, one having stored a field the other document lacks",
  breaks="a matcher sees field positions of another matcher's document",
  demo=T('''	e, err := ParseJsonExpression([]byte(`["equals",["field","a"],["field","b"]]`))
	if err != nil {
		t.Fatal(err)
	}
	var tr Transformer
	d := tr.Transform([]Expression{e})
	m1, m2 := NewFastMatcher(d), NewFastMatcher(d)
	m1.Match([]byte(`{"a":1,"b":1}`))
	if r, _ := m2.Match([]byte(`{"a":1,"c":1}`)); r {
		t.Fatal("matched a document without b")
	}''')),
 dict(id="c27-cr", property="C27", edits=[("jsontokenizer.go", """		case toksBeginValue:
			if c <= ' ' && tokIsSpaceChar(c) {
				startPos = dataPos
				continue DataLoop
			}
""", """		case toksBeginValue:
			if c <= ' ' && tokIsSpaceChar(c) {
				if c != '\\r' {
					startPos = dataPos
				}
				continue DataLoop
			}
""")],
  needs="a carriage return directly in front of a value",
  breaks="values after a carriage return are decoded with it",
  demo=T('''	e := `["equals",["field","a"],["value",1]]`
	if !demoMatch(t, e, `{"a":1}`) || !demoMatch(t, e, "{\\"a\\":\\r\\n1}") || !demoMatch(t, e, "{\\"a\\":\\r1}") {
		t.Fatal("layout changes the verdict")
	}''')),
 dict(id="c28-loop-end", property="C28", edits=[("fastMatcher.go", """			if token == tknArrayEnd {
				break
			}
			if token""", """			if token == tknArrayEnd || token == tknEnd && savedEnd {
				break
			}
			if token"""), ("fastMatcher.go", """	// Scan through all the values in the loop
	for""", """	savedEnd := m.tokens.Position() == 1

	// Scan through all the values in the loop
	for""")],
  needs="a loop over the whole document, which is an array cut off right after an element",
  breaks="a cut-off document gets the verdict of its beginning",
  demo=T('''	var tr Transformer
	d := tr.Transform([]Expression{EveryInExpr{1, FieldExpr{}, EqualsExpr{FieldExpr{1, nil}, ValueExpr{1}}}})
	if r, err := NewFastMatcher(d).Match([]byte(`[1,1]`)); !r || err != nil {
		t.Fatal("complete document")
	}
	if r, err := NewFastMatcher(d).Match([]byte(`[1,1`)); r || err == nil {
		t.Fatal("matched a cut-off document")
	}''')),
 dict(id="c03-null-slot", property="C03", edits=[("fastMatcher.go", """		if _, ok := op.Rhs.(SlotRef); ok && rhsVal.IsMissing() {""", """		if _, ok := op.Rhs.(SlotRef); ok && (rhsVal.IsMissing() || rhsVal.IsNull() && op.Op == OpTypeGreaterEquals) {""")],
  needs="a >= comparison of two members where the right one is null",
  breaks="null >= null, 1 >= null do not hold",
  demo=T('''	e := `["greaterequals",["field","a"],["field","b"]]`
	if !demoMatch(t, e, `{"a":null,"b":null}`) || demoMatch(t, e, `{"a":null,"b":1}`) {
		t.Fatal("null >= null")
	}''')),
]
SEEDS = [s for s in SEEDS if s["needs"] != "x"]
