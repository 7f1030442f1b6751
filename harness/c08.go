package gojsonsm

// Separate matchers and values share no mutable state.

import (
	"os"
	"sync"
)

// vz08Par repeats f in several goroutines at once when the race detector
// replays a finding.
func vz08Par(f func()) {
	if vzSymbolic() || os.Getenv("VZ_RACE") != "1" {
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { recover() }()
			for k := 0; k < 20; k++ {
				f()
			}
		}()
	}
	wg.Wait()
}

func vz08Defs() []vzDef {
	a, b := vzF("a"), vzF("b")
	v := func(p ...string) FieldExpr { return vzVar(1, p...) }
	fn := func(n string, p ...Expression) Expression { return FuncExpr{n, p} }
	return []vzDef{
		vzCompile(vzEq(a, vzN(1)), vzLt(b, ValueExpr{"x"})),
		vzCompile(vzLt(a, ValueExpr{true}), GreaterThanExpr{b, ValueExpr{uint(3)}}, vzEq(b, ValueExpr{1.5}), vzEq(b, ValueExpr{nil})),
		vzCompile(vzEq(a, b), AnyInExpr{1, a, vzEq(v("a"), v("b"))}, vzEq(vzF("a", "[0]"), vzN(2))),
		vzCompile(vzEq(fn(MathFuncAdd, a, b), vzN(7)), vzEq(fn(MathFuncNeg, a), b)),
		vzCompile(vzEq(fn(DateFunc, a), TimeExpr{"2018-10-01"}), LikeExpr{b, RegexExpr{"^x"}}),
	}
}

var vz08Docs = []string{
	`{"a":1,"b":2}`, `{"a":"x","b":"y"}`, `{"b":"\u0061","a":[{"a":1,"b":1},2]}`, `{"a":true,"b":null}`, `{"a":1.5,"b":-3}`, `{"a":{"b":[1]},"b":{}}`, `{"a":"2018-10-01","b":"3"}`, `[1,{"a":2}]`,
}

//vz:bound 5 compiled definitions (all operand kinds, slots, loops, arithmetic, DATE, regex), 8 documents with one byte replaced by any byte at any position: no store to a package-level variable or to anything reachable from the compiled definition while a matcher is created, used, reset
//vz:cover checked
func vz_C08_footprint() func() {
	defs := vz08Defs()
	return func() {
		d := defs[vzChoice(len(defs))]
		doc := []byte(vz08Docs[vzChoice(len(vz08Docs))])
		if p := vzChoice(len(doc) + 1); p < len(doc) {
			doc[p] = vzU8()
		}
		run := func() {
			m := NewFastMatcher(d.def)
			vzMatch(m, append([]byte{}, doc...))
			for i := range d.exprs {
				m.ExpressionMatched(i)
			}
			m.Reset()
			m.MatchWithStatus(append([]byte{}, doc...))
		}
		vzWatch(d.def)
		run()
		n := vzUnwatch()
		if n == 0 {
			vzCover("checked")
		}
		vzAssert(n == 0, "shared: matching stores to memory other matchers use")
		vz08Par(run)
	}
}

//vz:bound 5 definitions compiled (Transform) and 18 pairs of value kinds compared, converted and computed with: no store to a package-level variable
//vz:cover compiled compared
func vz_C08_api() func() {
	return func() {
		if vzChoice(2) == 0 {
			run := func() { vz08Defs() }
			vzWatch()
			run()
			n := vzUnwatch()
			vzCover("compiled")
			vzAssert(n == 0, "shared: compiling expressions stores to package-level memory")
			vz08Par(run)
			return
		}
		mk := func(k int) FastVal {
			switch k {
			case 0:
				return NewIntFastVal(-5)
			case 1:
				return NewUintFastVal(7)
			case 2:
				return NewFloatFastVal(1.5)
			case 3:
				return NewStringFastVal("x7")
			case 4:
				return NewBinStringFastVal([]byte("12"))
			case 5:
				return NewJsonStringFastVal([]byte("true"))
			case 6:
				return NewJsonIntFastVal([]byte("12"))
			case 7:
				return NewJsonFloatFastVal([]byte("1.5"))
			case 8:
				return NewBoolFastVal(true)
			case 9:
				return NewNullFastVal()
			case 10:
				return NewArrayFastVal([]byte("[1]"))
			}
			return NewMissingFastVal()
		}
		i, j := vzChoice(12), vzChoice(12)
		run := func() {
			defer func() { recover() }()
			x, y := mk(i), mk(j)
			x.Compare(y)
			x.Equals(y)
			x.ToJsonString()
			x.AsString()
			FastValMathAdd(x, y)
			FastValMathMul(x, y)
			FastValMathRound(x)
			FastValDateFunc(x)
		}
		vzWatch()
		run()
		n := vzUnwatch()
		vzCover("compared")
		vzAssert(n == 0, "shared: comparing values stores to package-level memory")
		vz08Par(run)
	}
}

//vz:bound 4 lists of expressions (slots, loops, multiple expressions, a function); after a match on any document of up to 3 (thorough: 4) nodes, a second matcher made from the same compiled expressions gives what it gives on its own, whatever the first one saw
//vz:cover same
func vz_C08_shared() func() {
	a, b := vzF("a"), vzF("b")
	v := func(p ...string) FieldExpr { return vzVar(1, p...) }
	exprs := [][]Expression{
		{vzEq(a, b), NotExpr{vzEq(a, b)}},
		{AnyInExpr{1, a, vzEq(v("a"), v("b"))}},
		{NotExpr{AnyEveryInExpr{1, a, vzEq(v(), vzN(1))}}, ExistsExpr{b}},
		{EqualsExpr{FuncExpr{MathFuncAdd, []Expression{a, b}}, vzN(7)}, vzLt(a, ValueExpr{"x"})},
	}
	shared, own := []vzDef{}, []vzDef{}
	for _, e := range exprs {
		shared = append(shared, vzCompile(e...))
		own = append(own, vzCompile(e...))
	}
	return func() {
		c := vzChoice(len(exprs))
		n, k := 3, 2
		if vzThorough() {
			n, k = 4, 3
		}
		g := &vzGen{nodes: n, keys: []string{"a", "b"}, elems: 2}
		doc1 := g.object(3).render(nil, "")
		h := &vzGen{nodes: k, keys: []string{"a", "b"}, elems: 2}
		doc2 := h.object(2).render(nil, "")
		m1, m2, f := NewFastMatcher(shared[c].def), NewFastMatcher(shared[c].def), NewFastMatcher(own[c].def)
		m1.Match(doc1)
		r2, st2, _ := m2.MatchWithStatus(doc2)
		rf, stf, _ := f.MatchWithStatus(doc2)
		vzAssert(r2 == rf && st2 == stf, "matchers made from the same expressions influence each other")
		for i := range exprs[c] {
			vzAssert(m2.ExpressionMatched(i) == f.ExpressionMatched(i), "matchers made from the same expressions influence each other")
		}
		vzCover("same")
	}
}

var _ = vzRegS("vz_C08_footprint", vz_C08_footprint)
var _ = vzRegS("vz_C08_api", vz_C08_api)
var _ = vzRegS("vz_C08_shared", vz_C08_shared)

// vz08Exprs has expressions of every kind.
func vz08Exprs() []Expression {
	a, b := vzF("a"), vzF("b")
	v := vzVar(1)
	fn := func(n string, p ...Expression) Expression { return FuncExpr{n, p} }
	return []Expression{
		AndExpr{OrExpr{vzEq(a, vzN(1)), FalseExpr{}}, NotExpr{vzLt(b, ValueExpr{"x"})}, TrueExpr{}},
		AnyInExpr{1, a, AnyEveryInExpr{2, v, OrExpr{vzEq(vzVar(2), vzF("b", "[3]")), TrueExpr{}}}},
		EveryInExpr{1, a, NotExpr{GreaterEqualsExpr{v, fn(MathFuncMul, b, vzN(3))}}},
		OrExpr{LikeExpr{a, RegexExpr{"^x"}}, NotEqualsExpr{fn(DateFunc, b), TimeExpr{"2018-10-01"}}, NotExistsExpr{a}, ExistsExpr{vzF("a", "b", "c")}},
		LessEqualsExpr{b, ValueExpr{2.5}},
	}
}

//vz:bound reading 5 JSON and 6 simple texts and 5 filter texts (the grammar's parser itself runs natively), compiling, compacting and counting 5 expressions of every kind, SlowMatcher on 4 documents, and removing members of 4 objects, each with a symbolic digit: no store to a package-level variable or to the expression
//vz:cover read compiled removed
func vz_C08_tools() func() {
	exprs := vz08Exprs()
	return func() {
		d := string([]byte{byte('0' + vzDigit())})
		var run func()
		var e Expression
		docs := []string{`{"a":` + d + `,"b":[1,2]}`, `{"b":"x\n","a":[[` + d + `],[]]}`, `{"c":{"a":` + d + `},"a":"` + d + `","b":null}`, `{"a":{"b":{"c":` + d + `,"a":[{}]}}}`}
		label := "compiled"
		switch k := vzChoice(6); k {
		case 0:
			label = "read"
			ts := []string{`["and",["equals",["field","a"],["value",` + d + `]],["like",["field","b"],["regex","` + d + `"]]]`,
				`["anyin",1,["field","a"],["not",["lessthan",["field",1,"b"],["func","mathAbs",["value",` + d + `]]]]]`,
				`["or",["notexists",["field","a"]],["greaterequals",["field","b"],["time","2018-10-0` + d + `"]]]`, `["nope",` + d + `]`, `["value",` + d}
			t := []byte(ts[vzChoice(len(ts))])
			run = func() { ParseJsonExpression(t) }
		case 1:
			label = "read"
			ts := []string{`a = ` + d + ` && ( b.c[1] >= 'x y' OR c EXISTS )`, `ABS(a) > POW(b, ` + d + `)`, `a LIKE "^x` + d + `" && b IS NOT NULL`, "`a b` = -1." + d + " || DATE(a) < DATE(\"2018-10-0" + d + "\")",
				`( a = ` + d, `a == PI() AND b =~ "` + d + `"`}
			t := ts[vzChoice(len(ts))]
			run = func() { ParseSimpleExpression(t) }
		case 2:
			label = "read"
			ts := []string{`a = 1 AND NOT b > 2.5`, `a.b[3] IS NULL OR (c IS MISSING AND TRUE)`, `REGEXP_CONTAINS(a, "^x")`, `POW(ABS(a), 2) + 1 >= b * 3`, `DATE(a) < DATE("2018-10-01")`}
			t := ts[vzChoice(len(ts))]
			doc := []byte(docs[vzChoice(len(docs))])
			run = func() {
				if m, err := GetFilterExpressionMatcher(t); err == nil {
					m.Match(append([]byte{}, doc...))
				}
			}
		case 3:
			e = exprs[vzChoice(len(exprs))]
			run = func() {
				var t Transformer
				t.Transform([]Expression{e})
				CompactExpression(e)
				var st ExpressionStats
				st.Scan(e)
				_ = e.String()
			}
		case 4:
			doc := []byte(docs[vzChoice(len(docs))])
			es := []Expression{AndExpr{vzEq(vzF("a"), ValueExpr{3.0}), vzLt(vzF("b"), vzF("a"))}, AnyInExpr{1, vzF("a"), vzEq(vzVar(1), ValueExpr{3.0})}}
			run = func() {
				s := NewSlowMatcher(es)
				s.Match(append([]byte{}, doc...))
				s.Reset()
			}
		case 5:
			label = "removed"
			doc := []byte(docs[vzChoice(len(docs))])
			names := vz15Lists[vzChoice(len(vz15Lists))]
			run = func() { vz15Run(append([]byte{}, doc...), append([]string{}, names...), make([]byte, len(doc)), map[string][]byte{}) }
		}
		both := func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(vzStop); ok {
						panic(s)
					}
				}
			}()
			run()
		}
		vzWatch(e)
		both()
		n := vzUnwatch()
		vzCover(label)
		vzAssert(n == 0, "shared: stores to memory others use")
		vz08Par(both)
	}
}

//vz:bound the same 5 definitions on documents with texts of 8 to 65 (thorough: 130) characters with escapes or digits, arrays of as many elements and members: no store to a package-level variable or to anything reachable from the compiled definition
//vz:cover checked
func vz_C08_long() func() {
	defs := vz08Defs()
	return func() {
		d := defs[vzChoice(len(defs))]
		ns := []int{8, 17, 33, 65}
		if vzThorough() {
			ns = append(ns, 9, 16, 32, 64, 130)
		}
		n := ns[vzChoice(len(ns))]
		val := func() string {
			s := ""
			k := vzChoice(5)
			for i := 0; i < n; i++ {
				switch k {
				case 0:
					s += "n"
				case 1:
					s += []string{"\\n", "x", "\\u00e9"}[i%3]
				case 2:
					s += "1"
				case 3, 4:
					if i > 0 {
						s += ","
					}
					s += `{"a":1,"b":"` + vzItoa(i) + `"}`
				}
			}
			switch k {
			case 2:
				if n > 17 {
					s = s[:18]
				}
				return s
			case 3, 4:
				return "[" + s + "]"
			}
			return `"` + s + `"`
		}
		doc := []byte(`{"a":` + val() + `,"b":` + val() + `}`)
		run := func() {
			m := NewFastMatcher(d.def)
			vzMatch(m, append([]byte{}, doc...))
			m.Reset()
			m.MatchWithStatus(append([]byte{}, doc...))
		}
		vzWatch(d.def)
		run()
		k := vzUnwatch()
		vzCover("checked")
		vzAssert(k == 0, "shared: matching stores to memory other matchers use")
		vz08Par(run)
	}
}

var _ = vzRegS("vz_C08_tools", vz_C08_tools)
var _ = vzRegS("vz_C08_long", vz_C08_long)
