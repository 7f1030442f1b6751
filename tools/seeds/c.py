def T(body, imports=()):
    imp = "import (\n" + "".join('\t"%s"\n' % i for i in ("testing",) + tuple(imports)) + ")\n"
    return "package gojsonsm\n\n" + imp + '''
func demoMatch(t *testing.T, exprText, doc string) bool {
	e, err := ParseJsonExpression([]byte(exprText))
	if err != nil {
		t.Fatal(err)
	}
	var tr Transformer
	m := NewFastMatcher(tr.Transform([]Expression{e}))
	r, err := m.Match([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func TestDemo(t *testing.T) {
''' + body + "\n}\n"


F = 'demoFilter'
def TT(body):
    t = T(body)
    i = t.index("func TestDemo")
    return t[:i] + """func demoText(t *testing.T, simple bool, text, doc string) bool {
	var e Expression
	var err error
	if simple {
		e, err = ParseSimpleExpression(text)
	} else {
		var fe *FilterExpression
		if _, fe, err = NewFilterExpressionParser(text); err == nil {
			e, err = fe.OutputExpression()
		}
	}
	if err != nil {
		t.Fatal(text, err)
	}
	var tr Transformer
	r, err := NewFastMatcher(tr.Transform([]Expression{e})).Match([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	return r
}

""" + t[i:]

SEEDS = [
 dict(id="c17-empty-name", property="C17", edits=[("expression_json.go", """		out.Path = append(out.Path, dataElem)
""", """		if dataElem != "" {
			out.Path = append(out.Path, dataElem)
		}
""")],
  needs="a field expression with an empty member name in its path",
  breaks="the empty name is dropped, so the expression looks at another member",
  demo=T("""	if !demoMatch(t, `["equals",["field","a",""],["value",1]]`, `{"a":{"":1}}`) {
		t.Error("the member with the empty name was not found")
	}
	if demoMatch(t, `["equals",["field","a",""],["value",1]]`, `{"a":1}`) {
		t.Error("another member matched")
	}""")),
 dict(id="c18-null-missing", property="C18", edits=[("filterExprParser.go", """	} else if f.IsNull() {
		return EqualsExpr{
			subExpr,
			ValueExpr{nil},
		}, nil
""", """	} else if f.IsNull() {
		return NotExpr{
			GreaterThanExpr{
				subExpr,
				ValueExpr{nil},
			},
		}, nil
""")],
  needs="IS NULL on a document that lacks the member",
  breaks="a missing member IS NULL",
  demo=TT("""	if !demoText(t, false, "a.b IS NULL", `{"a":{"b":null}}`) {
		t.Error("null is not null")
	}
	if demoText(t, false, "a.b IS NULL", `{"a":{"b":false}}`) {
		t.Error("false is null")
	}
	if demoText(t, false, "a.b IS NULL", `{"a":{}}`) {
		t.Error("a missing member is null")
	}""")),
 dict(id="c19-negated-pow", property="C19", edits=[("filterExprParser.go", """	if f.MathNeg != nil && *f.MathNeg {
		var negateExpr FuncExpr
		negateExpr.FuncName = MathFuncNeg
		negateExpr.Params = append(negateExpr.Params, constFuncExpr)
""", """	if f.MathNeg != nil && *f.MathNeg && f.ConstFuncTwoArgs == nil {
		var negateExpr FuncExpr
		negateExpr.FuncName = MathFuncNeg
		negateExpr.Params = append(negateExpr.Params, constFuncExpr)
""")],
  needs="a minus sign in front of a function of two arguments",
  breaks="-POW(a, 3) means POW(a, 3)",
  demo=TT("""	if !demoText(t, false, "b = -POW(a, 3)", `{"a":2,"b":-8}`) {
		t.Error("-POW(2, 3) is not -8")
	}""")),
 dict(id="c22-and-false", property="C22", edits=[("expression_compact.go", """		case FalseExpr:
			return FalseExpr{}
		default:
			newAndExpr""", """		case FalseExpr:
			if len(newAndExpr) == 0 {
				return FalseExpr{}
			}
		default:
			newAndExpr""")],
  needs="an AND with a constant false behind another condition",
  breaks="the constant false is dropped",
  demo=T("""	e := CompactExpression(AndExpr{EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{1}}, FalseExpr{}})
	var tr Transformer
	r, err := NewFastMatcher(tr.Transform([]Expression{e})).Match([]byte(`{"a":1}`))
	if err != nil || r {
		t.Error("matched", err)
	}""")),
 dict(id="c25-31st", property="C25", edits=[("fastval_date.go", """var iso8601CompleteDate *regexp.Regexp = regexp.MustCompile(`^(19|20)\\d\\d[- /.](0[1-9]|1[012])[- /.](0[1-9]|[12][0-9]|3[01])$`)""",
   """var iso8601CompleteDate *regexp.Regexp = regexp.MustCompile(`^(19|20)\\d\\d[- /.](0[1-9]|1[012])[- /.](0[1-9]|[12][0-9]|30)$`)""")],
  needs="the 31st of a month without a time",
  breaks="2019-12-31 is no date",
  demo=T("""	e := `["greaterthan",["func","date",["field","d"]],["time","2019-12-30"]]`
	if !demoMatch(t, e, `{"d":"2019-12-31"}`) {
		t.Error("2019-12-31 is not after 2019-12-30")
	}""")),
 dict(id="c25-equal-instants", property="C25", edits=[("fastval.go", """	if thisTime.Equal(*otherTime) {
		return 0, valid && valid2
	} else if""", """	if *thisTime == *otherTime {
		return 0, valid && valid2
	} else if""")],
  needs="two spellings of one instant with different offsets",
  breaks="they compare as different",
  demo=T("""	e := `["equals",["func","date",["field","d"]],["time","2019-12-30T12:00:00Z"]]`
	if !demoMatch(t, e, `{"d":"2019-12-30T14:30:00+02:30"}`) {
		t.Error("the same instant is not equal")
	}""")),
 dict(id="c26-loop-depth", property="C26", edits=[("expressionstats.go", """	case AnyEveryInExpr:
		stats.NumLoops++
		if loopDepth == 1 {
			stats.NumNestedLoops++
		}
		stats.scanOne(expr.InExpr, loopDepth)
		stats.scanOne(expr.SubExpr, loopDepth+1)""", """	case AnyEveryInExpr:
		stats.NumLoops++
		if loopDepth == 1 {
			stats.NumNestedLoops++
		}
		stats.scanOne(expr.InExpr, loopDepth)
		stats.scanOne(expr.SubExpr, 1)""")],
  needs="three loops in one another, the middle one ANY AND EVERY",
  breaks="the innermost loop counts as directly nested",
  demo=T("""	body := Expression(EqualsExpr{FieldExpr{3, nil}, ValueExpr{1}})
	body = AnyInExpr{3, FieldExpr{2, nil}, body}
	body = AnyEveryInExpr{2, FieldExpr{1, nil}, body}
	body = AnyInExpr{1, FieldExpr{0, []string{"a"}}, body}
	var s ExpressionStats
	s.Scan(body)
	if s.NumLoops != 3 || s.NumNestedLoops != 1 {
		t.Error(s)
	}""")),
 dict(id="c29-bool-order", property="C29", edits=[("slowmatcher.go", """			if lhsVal == true && rhsVal == false {
				return 1, nil
			} else if""", """			if lhsVal == true && rhsVal == false {
				return 0, nil
			} else if""")],
  needs="true on the left compared with false on the right",
  breaks="the slow matcher takes true for equal to false",
  demo=T("""	e := EqualsExpr{FieldExpr{0, []string{"a"}}, ValueExpr{false}}
	m := NewSlowMatcher([]Expression{e})
	r, err := m.Match([]byte(`{"a":true}`))
	if err != nil || r {
		t.Error("true equals false", err)
	}""")),
]
