exec(open("/verif/tools/seeds/a.py").read().split("SEEDS = [")[0])
def M(body, imports=()):
    return T(body, imports)

SEEDS = [
 dict(id="c02-skip-end", property="C02", edits=[("fastMatcher.go", """		case tknEnd:
			return unexpectedTokenError(token)
		}
	}
}
""", """		case tknEnd:
			if depth == 0 {
				return unexpectedTokenError(token)
			}
		}
	}
}
""")],
  needs="a document that is cut off inside a nested container that the expression does not look at",
  breaks="matching a cut-off document never returns",
  demo=T('''	done := make(chan error, 1)
	go func() {
		var tr Transformer
		m := NewFastMatcher(tr.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{1}}}))
		_, err := m.Match([]byte(`{"b":{"c":[1,`))
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("Match does not return")
	}''', ("time",))),
 dict(id="c09-reverse-invalid", property="C09", edits=[("fastval.go", """	result, valid := other.compareInternal(val)
	return result * -1, valid""", """	result, valid := other.compareInternal(val)
	if !valid {
		return result, valid
	}
	return result * -1, valid""")],
  needs="a comparison of two kinds in which the conversion of one to the other fails",
  breaks="an invalid comparison gives the same order in both directions",
  demo=T('''	a := NewFloatFastVal(math.NaN())
	for _, b := range []FastVal{NewIntFastVal(1), NewUintFastVal(1), NewFloatFastVal(1), NewStringFastVal("x"), NewNullFastVal(), NewBoolFastVal(true)} {
		x, _ := a.Compare(b)
		y, _ := b.Compare(a)
		if x != -y {
			t.Fatal(b, x, y)
		}
	}''', ("math",))),
 dict(id="c10-uint-float", property="C10", edits=[("fastval.go", """		return float64(val.GetInt()), true
	case UintValue:
		return float64(val.GetUint()), true
""", """		return float64(val.GetInt()), true
	case UintValue:
		return float64(val.GetInt()), true
""")],
  needs="an unsigned number of at least 2^63 compared with a float",
  breaks="large unsigned numbers compare with floats as if they were negative",
  demo=T('''	if r, _ := NewUintFastVal(1 << 63).Compare(NewFloatFastVal(1.5)); r != 1 {
		t.Fatal(r)
	}
	if r, _ := NewUintFastVal(7).Compare(NewFloatFastVal(1.5)); r != 1 {
		t.Fatal(r)
	}''')),
 dict(id="c11-invalid-utf8", property="C11", edits=[("fastval.go", """		quotedBytes := strconv.AppendQuote(nil, val.data.(string))
""", """		quotedBytes := strconv.AppendQuote(nil, strings.ToValidUTF8(val.data.(string), "\\uFFFD"))
""")],
  needs="a constant string that is not valid UTF-8",
  breaks="a member equal byte by byte to a constant does not compare equal to it",
  demo=T('''	var tr Transformer
	for _, s := range []string{"ab", "a\\xff", "\\u00e9"} {
		m := NewFastMatcher(tr.Transform([]Expression{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{s}}}))
		if r, err := m.Match([]byte(`{"a":"` + s + `"}`)); err != nil || !r {
			t.Fatalf("%q %v %v", s, r, err)
		}
	}''')),
 dict(id="c12-plane2", property="C12", edits=[("fastlitescape.go", """	return supplementalPlanesOffset + (high-highSurrogateOffset)<<10 + (low - lowSurrogateOffset)""", """	return supplementalPlanesOffset | (high-highSurrogateOffset)<<10 | (low - lowSurrogateOffset)""")],
  needs="a surrogate pair of a character in an even supplementary plane, such as U+20000",
  breaks="escaped characters of plane 2 decode to characters of plane 1",
  demo=T('''	var p fastLitParser
	if s := string(p.ParseEscString([]byte(`"\\ud840\\udc00"`))); s != "\\U00020000" {
		t.Fatalf("%q", s)
	}
	if s := string(p.ParseEscString([]byte(`"\\ud83d\\ude00"`))); s != "\\U0001f600" {
		t.Fatalf("%q", s)
	}''')),
 dict(id="c13-bool-math", property="C13", edits=[("fastval_math.go", """	if valid && val.IsNumeric() {
		return NewFloatFastVal(op(valFloat))""", """	if valid {
		return NewFloatFastVal(op(valFloat))""")],
  needs="a function of one operand applied to a boolean",
  breaks="SQRT(true) is 1 instead of having no valid result",
  demo=T('''	if v := FastValMathSqrt(NewBoolFastVal(true)); v.IsNumeric() {
		t.Fatal(v)
	}
	if demoMatch(t, `["equals",["func","mathSqrt",["field","a"]],["value",1]]`, `{"a":true}`) {
		t.Fatal("SQRT(true) = 1")
	}''')),
 dict(id="c14-overflow", property="C14", edits=[("fastlitparse.go", """	val, _ := strconv.ParseFloat(string(bytes), 64)
	return val
""", """	val, err := strconv.ParseFloat(string(bytes), 64)
	if err != nil {
		return 0
	}
	return val
""")],
  needs="a literal beyond the range of floats",
  breaks="1e400 decodes to 0 and is less than 5",
  demo=T('''	if demoMatch(t, `["lessthan",["field","a"],["value",5]]`, `{"a":1e400}`) {
		t.Fatal("1e400 < 5")
	}''')),
 dict(id="c15-count", property="C15", edits=[("jsonComposer.go", """			removed[keyToRemove] = src[valStart:valEnd]
			removedLen++
""", """			if _, ok := removed[keyToRemove]; !ok {
				removedLen++
			}
			removed[keyToRemove] = src[valStart:valEnd]
""")],
  needs="a name that occurs at two depths of the object",
  breaks="the number of removed members counts a name once only",
  demo=T('''	src := []byte(`{"a":1,"b":{"a":2,"c":3}}`)
	dst := make([]byte, len(src))
	n, cnt, left, err := MatchAndRemoveItemsFromJsonObject(src, []string{"a"}, dst, nil)
	if err != nil || string(dst[:n]) != `{"b":{"c":3}}` || cnt != 2 || !left {
		t.Fatal(n, cnt, left, err, string(dst[:n]))
	}''')),
 dict(id="c15-arr-comma", property="C15", edits=[("jsonComposer.go", """			if tknType4 == tknObjectEnd {
				err = composer.Write(tkn, tknType)""", """			if tknType4 == tknObjectEnd {
				if depth == 1 {
					composer.prevTokenType = tknType1
				}
				err = composer.Write(tkn, tknType)""")],
  needs="the last member of the outermost object is removed and others are kept", breaks="a trailing comma is left",
  demo=T('''	t.Fatal("unused")''')),
 dict(id="c16-eof-value", property="C16", edits=[("jsonComposer.go", """				case tknEnd:
					return handleError(ErrUnexpectedEOF)
				case tknUnknown:
					return handleError(ErrUnrecognisedToken)
				default:
					// can""", """				case tknEnd:
					if valueDepth == 0 {
						return handleError(ErrUnexpectedEOF)
					}
				case tknUnknown:
					return handleError(ErrUnrecognisedToken)
				default:
					// can""")],
  needs="a malformed object whose removed value opens more containers than it closes",
  breaks="removing never returns",
  demo=T('''	done := make(chan error, 1)
	go func() {
		src := []byte(`{"a":[[1}`)
		_, _, _, err := MatchAndRemoveItemsFromJsonObject(src, []string{"a"}, make([]byte, len(src)), nil)
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("does not return")
	}''', ("time",))),
 dict(id="c24-multiline", property="C24", edits=[("transform.go", """		regex, err := regexp.Compile(expr.Regex.(string))""", """		regex, err := regexp.Compile("(?m)" + expr.Regex.(string))""")],
  needs="a text with a line break and an anchored pattern",
  breaks="an anchor matches at line breaks inside the text",
  demo=T('''	e := LikeExpr{FieldExpr{0, []string{"a"}}, RegexExpr{"^b$"}}
	var tr Transformer
	for s, w := range map[string]bool{`b`: true, `a\\nb`: false, `b\\\\u000ac`: false} {
		m := NewFastMatcher(tr.Transform([]Expression{e}))
		if r, err := m.Match([]byte(`{"a":"` + s + `"}`)); err != nil || r != w {
			t.Fatal(s, r, err)
		}
	}''')),
]
SEEDS = [s for s in SEEDS if s["id"] != "c15-arr-comma"]
