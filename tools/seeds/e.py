exec(open('/verif/tools/seeds/c.py').read().split("SEEDS = [")[0])
SEEDS = [
 dict(id="c23-float32", property="C23", edits=[("simpleParser.go", """			outputData, err = strconv.ParseFloat(strData, 64)
""", """			outputData, err = strconv.ParseFloat(strData, 32)
""")],
  needs="a constant with a fraction and more than seven significant digits",
  breaks="the constant is rounded to single precision",
  demo=TT("""	if !demoText(t, true, "a = 1.5", `{"a":1.5}`) {
		t.Error("1.5")
	}
	if !demoText(t, true, "a = 123456.789", `{"a":123456.789}`) {
		t.Error("123456.789")
	}""")),
 dict(id="c08-compact-inplace", property="C08", edits=[("expression_compact.go", """	var newAndExpr AndExpr
""", """	newAndExpr := expr[:0]
""")],
  needs="compacting an AND that contains a constant, then using the expression again",
  breaks="the expression of the caller is altered",
  demo=TT("""	e := AndExpr{TrueExpr{}, ExistsExpr{FieldExpr{Root: 1, Path: []string{"a"}}}, ExistsExpr{FieldExpr{Root: 1, Path: []string{"b"}}}}
	before := e.String()
	CompactExpression(e)
	if e.String() != before {
		t.Error("altered: " + e.String())
	}""")),
 dict(id="c31-mixed-end", property="C31", edits=[("fastMatcher.go", """		if token == endToken {
			return nil, false
		}
""", """		if token == tknObjectEnd || token == tknArrayEnd {
			return nil, false
		}
""")],
  needs="an object the expression looks into that ends with ] right after the brace or a comma",
  breaks="the document passes as one without the member",
  demo=TT("""	e, err := ParseSimpleExpression("a.b EXISTS")
	if err != nil {
		t.Fatal(err)
	}
	var tr Transformer
	def := tr.Transform([]Expression{e})
	for doc, want := range map[string]bool{`{"a":{]}`: true, `{"a":{}}`: false, `{"a":[]}`: false} {
		if _, err := NewFastMatcher(def).Match([]byte(doc)); (err != nil) != want {
			t.Error(doc, err)
		}
	}""")),
 dict(id="c31-comma-colon", property="C31", edits=[("fastMatcher.go", """			if token != tknObjectKeyDelim {
				return unexpectedTokenError(token), true
""", """			if token == tknListDelim || token == tknEnd {
				return unexpectedTokenError(token), true
""")],
  needs="a member name followed by something that is neither a colon, a comma nor the end",
  breaks="the document passes as JSON",
  demo=TT("""	e, err := ParseSimpleExpression("a EXISTS")
	if err != nil {
		t.Fatal(err)
	}
	var tr Transformer
	def := tr.Transform([]Expression{e})
	for doc, want := range map[string]bool{`{"b"1 1}`: true, `{"b":1}`: false, `{"b",1}`: true} {
		if _, err := NewFastMatcher(def).Match([]byte(doc)); (err != nil) != want {
			t.Error(doc, err)
		}
	}""")),
 dict(id="c20-false-right", property="C20", edits=[("simpleParser.go", """	var out OrExpr
	leftNode, leftPos := ctx.getLeftOutputNode(pos)
""", """	out := OrExpr{}
	leftNode, leftPos := ctx.getLeftOutputNode(pos)
	if leftNode.tokenType == TokenTypeOperator && leftNode.data == TokenOperatorOr {
		// a || b || c is one condition with three operands
		if _, innerPos := ctx.getLeftOutputNode(leftPos); innerPos >= 0 {
			leftNode = ctx.parserDataNodes[innerPos]
			inner, pos := ctx.getRightOutputNode(leftPos)
			expr, err := ctx.outputCondition(inner, pos)
			if err != nil {
				return out, err
			}
			out = append(out, expr)
			leftPos = innerPos
		}
	}
"""), ("simpleParser.go", """	out = append(out, leftSubExpr)
	out = append(out, rightSubExpr)

	return out, nil
}

// Main output""", """	if leftNode.tokenType == TokenTypeFalse {
		return append(out[:0], rightSubExpr), nil
	}
	out = append(out, leftSubExpr)
	out = append(out, rightSubExpr)

	return out, nil
}

// Main output""")],
  needs="three conditions joined by || the first of which is false, mixed with && so that they nest to the left",
  breaks="the second condition is lost",
  demo=TT("""	if !demoText(t, true, "false || a = 1 || b = 1 AND c = 1", `{"a":1,"c":1}`) {
		t.Error("the second condition is lost")
	}
	if !demoText(t, true, "d = 1 || a = 1 || b = 1 AND c = 1", `{"a":1,"c":1}`) {
		t.Error("or")
	}""")),
 dict(id="c32-kept-context", property="C32", edits=[("transform.go", """	t.ContextStack = nil
""", """	t.ContextStack = append([]*compileContext(nil), t.ContextStack...)
""")],
  needs="a transformer that failed to compile a loop whose body is no condition, used again for a loop",
  breaks="the loop is taken to be inside the one that failed",
  demo=TT("""	var tr Transformer
	a := FieldExpr{0, []string{"a"}}
	func() {
		defer func() { recover() }()
		tr.Transform([]Expression{AnyInExpr{1, a, AnyInExpr{2, FieldExpr{0, []string{"b"}}, ValueExpr{1}}}})
		t.Error("compiled")
	}()
	defer func() {
		if r := recover(); r != nil {
			t.Error(r)
		}
	}()
	def := tr.Transform([]Expression{AnyInExpr{2, a, EqualsExpr{FieldExpr{2, nil}, ValueExpr{1}}}})
	got, err := NewFastMatcher(def).Match([]byte(`{"a":[0,1]}`))
	if err != nil || !got {
		t.Error(got, err)
	}""")),
 dict(id="c33-uint32-sign", property="C33", edits=[("fastval.go", """		return NewUintFastVal(uint64(val))
	case uint64:""", """		return NewIntFastVal(int64(int32(val)))
	case uint64:""")],
  needs="a constant given as a uint32 of 2^31 or more",
  breaks="the constant is taken for a negative number",
  demo=TT("""	var tr Transformer
	def := tr.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{uint32(3000000000)}}})
	got, err := NewFastMatcher(def).Match([]byte(`{"a":3000000000}`))
	if err != nil || !got {
		t.Error(got, err)
	}""")),
 dict(id="c34-arc-prefix", property="C34", edits=[("simpleParser.go", "	return fmt.Sprintf(`^%s\\((?P<args>.+)\\)$`, name)", "	return fmt.Sprintf(`^A?%s\\((?P<args>.+)\\)$`, name)")],
  needs="an arc function in a simple text, and Go's map iteration to meet the plain function first",
  breaks="ACOS, ASIN and ATAN sometimes mean COS, SIN and TAN",
  demo=TT("""	for i := 0; i < 300; i++ {
		if !demoText(t, true, "ACOS(a) > 1.5", `{"a":0}`) {
			t.Fatal("ACOS")
		}
	}""")),
 dict(id="c35-lookahead-first", property="C35", edits=[("simpleParser.go", """		_, err := regexp.Compile(token)
		if err != nil {
			if tokenIsPcreValueType(token) {
				return token, TokenTypePcre, nil
			}
			return token, TokenTypeRegex, err
		}
""", """		if tokenIsPcreValueType(token) {
			return token, TokenTypePcre, nil
		}
		_, err := regexp.Compile(token)
		if err != nil {
			return token, TokenTypeRegex, err
		}
""")],
  needs="a simple text with a pattern that has what looks like a look-ahead within a class",
  breaks="the pattern is rejected though it is a regular expression",
  demo=TT("""	if !demoText(t, true, "a LIKE \\"^[(?=x)]+$\\"", `{"a":"x=x"}`) {
		t.Error("class")
	}""")),
]
