exec(open('/verif/tools/seeds/c.py').read().split("SEEDS = [")[0])
TS = lambda body: T(body).replace("func TestDemo", '''func demoStatus(t *testing.T, exprText, doc string) int {
	e, err := ParseJsonExpression([]byte(exprText))
	if err != nil {
		t.Fatal(err)
	}
	var tr Transformer
	_, st, err := NewFastMatcher(tr.Transform([]Expression{e})).MatchWithStatus([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	return st
}

func TestDemo''')
SEEDS = [
 dict(id="c30-false-fallback", property="C30", edits=[("fastMatcher.go", """	if !validOp {
		m.collateUsed = true
	}
""", """	if !validOp && opRes {
		m.collateUsed = true
	}
""")],
  needs="a comparison that falls back on the order of kinds and does not hold",
  breaks="the status does not report the fallback",
  demo=TS("""	if demoStatus(t, `["lessthan",["field","a"],["value",5]]`, `{"a":"x"}`) != MatcherCollateUsed {
		t.Error("the fallback was not reported")
	}""")),
 dict(id="c30-bool-number", property="C30", edits=[("fastval.go", """	case IntValue:
		return val.GetInt() != 0, true
""", """	case IntValue:
		return val.GetInt() > 0, true
""")],
  needs="a negative number compared with a truth value",
  breaks="it is no truth value any more",
  demo=TS("""	if !demoMatch(t, `["equals",["field","a"],["value",true]]`, `{"a":-2}`) {
		t.Error("-2 is not true")
	}""")),
]
