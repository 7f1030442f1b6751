package gojsonsm

import (
	"regexp"
	"strconv"
	"strings"
)

// Expressions in JSON form.

var vz17Names = []string{"value", "field", "func", "not", "or", "and", "anyin", "everyin", "anyeveryin", "exists", "notexists",
	"equals", "notequals", "lessthan", "lessequals", "greaterthan", "greaterequals", "like", "regex", "time"}

func vz17Parse(text []byte) (e Expression, err error) {
	p := vzPanics(func() { e, err = ParseJsonExpression(text) })
	vzAssert(p == "", "parsing panicked: "+p)
	vzAssert((e == nil) == (err != nil), "parsing gives either an expression or an error")
	return
}

// vz17Whole: an expression has no gaps, so it can be written as text.
func vz17Whole(e Expression) {
	p := vzPanics(func() { _ = e.String() })
	vzAssert(p == "", "an accepted expression cannot be written: "+p)
}

var vz17Args = []string{`["field","a"]`, `["value",1]`, `"s"`, `1`, `null`, `true`, `[]`, `{}`, `["nope",1]`, `[1]`, `["not"]`, `["func","mathAbs",["field","a"]]`, `{"a":["field","b"]}`}

// vz17Arg tells whether an operand is acceptable in a place for an expression.
func vz17Arg(i int) bool { return i < 2 || i == 11 }

//vz:bound JSON arrays with any of the 20 expression types (or an unknown type, number, null, array or object in its place) and up to 3 operands (thorough: 4) out of 13, right and wrong ones
//vz:cover parsed rejected
func vz_C17_operands() {
	heads := []string{`"nope"`, `""`, `1`, `null`, `["field","a"]`, `{}`, `true`}
	h := vzChoice(len(vz17Names) + len(heads))
	name := ""
	text := "["
	if h < len(vz17Names) {
		name = vz17Names[h]
		text += `"` + name + `"`
	} else {
		text += heads[h-len(vz17Names)]
	}
	n := vzChoice(4)
	if vzThorough() {
		n = vzChoice(5)
	}
	args := []int{}
	for i := 0; i < n; i++ {
		a := vzChoice(len(vz17Args))
		args = append(args, a)
		text += "," + vz17Args[a]
	}
	e, err := vz17Parse([]byte(text + "]"))
	all := func(from, least int) bool {
		if n < least {
			return false
		}
		for i := from; i < n; i++ {
			if i < least || least == from {
				if !vz17Arg(args[i]) {
					return false
				}
			}
		}
		return true
	}
	want := false
	switch name {
	case "":
	case "value":
		want = n >= 1
	case "field":
		want = true
		for i, a := range args {
			if a != 2 && (a != 3 || i > 0) {
				want = false
			}
		}
	case "func":
		want = false // "s" is no function
	case "not", "exists", "notexists":
		want = all(0, 1)
	case "or", "and":
		want = all(0, 0)
	case "anyin", "everyin", "anyeveryin":
		want = n >= 3 && args[0] == 3 && vz17Arg(args[1]) && vz17Arg(args[2])
	case "regex":
		want = n >= 1 && args[0] == 2
	case "time":
		want = false
	default:
		want = all(0, 2)
	}
	vzAssert((err == nil) == want, "accepted or rejected wrongly: "+text+"]")
	if err != nil {
		vzCover("rejected")
		return
	}
	vzCover("parsed")
	vz17Whole(e)
}

// vz17Same compares two expressions.
func vz17Same(a, b Expression) bool {
	two := func(al, ar, bl, br Expression) bool {
		return vzAnd(vz17Same(al, bl), vz17Same(ar, br))
	}
	switch a := a.(type) {
	case ValueExpr:
		b, ok := b.(ValueExpr)
		return ok && vz17SameValue(a.Value, b.Value)
	case TimeExpr:
		b, ok := b.(TimeExpr)
		return ok && vz17SameValue(a.Time, b.Time)
	case RegexExpr:
		b, ok := b.(RegexExpr)
		return ok && vz17SameValue(a.Regex, b.Regex)
	case FieldExpr:
		b, ok := b.(FieldExpr)
		if !ok || a.Root != b.Root || len(a.Path) != len(b.Path) {
			return false
		}
		r := true
		for i := range a.Path {
			r = vzAnd(r, a.Path[i] == b.Path[i])
		}
		return r
	case FuncExpr:
		b, ok := b.(FuncExpr)
		return ok && a.FuncName == b.FuncName && vz17SameList(a.Params, b.Params)
	case AndExpr:
		b, ok := b.(AndExpr)
		return ok && vz17SameList(a, b)
	case OrExpr:
		b, ok := b.(OrExpr)
		return ok && vz17SameList(a, b)
	case NotExpr:
		b, ok := b.(NotExpr)
		return ok && vz17Same(a.SubExpr, b.SubExpr)
	case ExistsExpr:
		b, ok := b.(ExistsExpr)
		return ok && vz17Same(a.SubExpr, b.SubExpr)
	case NotExistsExpr:
		b, ok := b.(NotExistsExpr)
		return ok && vz17Same(a.SubExpr, b.SubExpr)
	case EqualsExpr:
		b, ok := b.(EqualsExpr)
		return ok && two(a.Lhs, a.Rhs, b.Lhs, b.Rhs)
	case NotEqualsExpr:
		b, ok := b.(NotEqualsExpr)
		return ok && two(a.Lhs, a.Rhs, b.Lhs, b.Rhs)
	case LessThanExpr:
		b, ok := b.(LessThanExpr)
		return ok && two(a.Lhs, a.Rhs, b.Lhs, b.Rhs)
	case LessEqualsExpr:
		b, ok := b.(LessEqualsExpr)
		return ok && two(a.Lhs, a.Rhs, b.Lhs, b.Rhs)
	case GreaterThanExpr:
		b, ok := b.(GreaterThanExpr)
		return ok && two(a.Lhs, a.Rhs, b.Lhs, b.Rhs)
	case GreaterEqualsExpr:
		b, ok := b.(GreaterEqualsExpr)
		return ok && two(a.Lhs, a.Rhs, b.Lhs, b.Rhs)
	case LikeExpr:
		b, ok := b.(LikeExpr)
		return ok && two(a.Lhs, a.Rhs, b.Lhs, b.Rhs)
	case AnyInExpr:
		b, ok := b.(AnyInExpr)
		return ok && a.VarId == b.VarId && two(a.InExpr, a.SubExpr, b.InExpr, b.SubExpr)
	case EveryInExpr:
		b, ok := b.(EveryInExpr)
		return ok && a.VarId == b.VarId && two(a.InExpr, a.SubExpr, b.InExpr, b.SubExpr)
	case AnyEveryInExpr:
		b, ok := b.(AnyEveryInExpr)
		return ok && a.VarId == b.VarId && two(a.InExpr, a.SubExpr, b.InExpr, b.SubExpr)
	}
	return false
}

func vz17SameList(a, b []Expression) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vzAnd(r, vz17Same(a[i], b[i]))
	}
	return r
}

func vz17SameValue(a, b interface{}) bool {
	switch a := a.(type) {
	case string:
		b, ok := b.(string)
		return ok && a == b
	case float64:
		b, ok := b.(float64)
		return ok && a == b
	case bool:
		b, ok := b.(bool)
		return ok && a == b
	}
	return a == nil && b == nil
}

// vz17Gen makes expressions together with their JSON text.
type vz17Gen struct {
	n    int // operators still allowed
	text []byte
}

func (g *vz17Gen) puts(s string) { g.text = append(g.text, s...) }

func (g *vz17Gen) digit() float64 {
	d := vzU8()
	vzAssume(d < 10)
	g.text = append(g.text, '0'+d)
	return float64(d)
}

func (g *vz17Gen) letters(n int) string {
	s := vzLetters(n)
	g.text = append(append(append(g.text, '"'), s...), '"')
	return string(s)
}

func (g *vz17Gen) operand(kinds string) Expression {
	g.puts("[")
	defer g.puts("]")
	k := int(kinds[vzChoice(len(kinds))] - '0')
	switch k {
	case 0:
		g.puts(`"field",`)
		return FieldExpr{0, []string{g.letters(1)}}
	case 1:
		v := VariableID(vzChoice(3))
		g.puts(`"field",` + strconv.Itoa(int(v)) + ",")
		a := g.letters(1)
		g.puts(",")
		// a JSON object may have a member whose name is the empty string
		return FieldExpr{v, []string{a, g.letters(vzChoice(2))}}
	case 2:
		g.puts(`"value",`)
		return ValueExpr{g.digit()}
	case 3:
		g.puts(`"value",`)
		return ValueExpr{g.letters(1)}
	case 4:
		b := vzChoice(2) == 1
		g.puts(`"value",` + strconv.FormatBool(b))
		return ValueExpr{b}
	case 5:
		g.puts(`"value",null`)
		return ValueExpr{nil}
	case 6:
		if vzChoice(2) == 0 {
			f := []string{"mathAbs", "date", "mathNegate", "mathTan"}[vzChoice(4)]
			g.puts(`"func","` + f + `",`)
			return FuncExpr{f, []Expression{g.operand("02")}}
		}
		f := []string{"mathAdd", "mathSubract", "mathAtan2"}[vzChoice(3)]
		g.puts(`"func","` + f + `",`)
		a := g.operand("02")
		g.puts(",")
		return FuncExpr{f, []Expression{a, g.operand("03")}}
	case 7:
		g.puts(`"time","2018-10-01"`)
		return TimeExpr{"2018-10-01"}
	}
	g.puts(`"field"`)
	return FieldExpr{}
}

// Inside of another expression the choice of comparisons is smaller.
func (g *vz17Gen) expr(depth int) Expression {
	g.puts("[")
	defer g.puts("]")
	g.n--
	all := ""
	kinds := []int{9, 6}
	if depth == 0 {
		all = "12345678"
		kinds = []int{6, 7, 8, 9, 10, 11, 12, 13, 14}
	}
	if g.n >= 0 {
		kinds = append(kinds, 0, 1, 2, 3, 4, 5)
	}
	k := kinds[vzChoice(len(kinds))]
	switch k {
	case 0, 1:
		g.puts([]string{`"and"`, `"or"`}[k])
		list := []Expression{}
		for i := vzChoice(3); i > 0; i-- {
			g.puts(",")
			list = append(list, g.expr(depth+1))
		}
		if k == 0 {
			return AndExpr(list)
		}
		return OrExpr(list)
	case 2:
		g.puts(`"not",`)
		return NotExpr{g.expr(depth + 1)}
	case 3, 4, 5:
		v := VariableID(vzChoice(2) + 1)
		g.puts([]string{`"anyin",`, `"everyin",`, `"anyeveryin",`}[k-3] + strconv.Itoa(int(v)) + ",")
		in := g.operand("018")
		g.puts(",")
		sub := g.expr(depth + 1)
		switch k {
		case 3:
			return AnyInExpr{v, in, sub}
		case 4:
			return EveryInExpr{v, in, sub}
		}
		return AnyEveryInExpr{v, in, sub}
	case 6:
		g.puts(`"exists",`)
		return ExistsExpr{g.operand("01" + all)}
	case 7:
		g.puts(`"notexists",`)
		return NotExistsExpr{g.operand("01" + all)}
	case 8:
		g.puts(`"like",`)
		l := g.operand("016")
		g.puts(`,["regex",`)
		r := g.letters(1)
		g.puts("]")
		return LikeExpr{l, RegexExpr{r}}
	}
	g.puts([]string{`"equals",`, `"notequals",`, `"lessthan",`, `"lessequals",`, `"greaterthan",`, `"greaterequals",`}[k-9])
	l := g.operand("0" + all)
	g.puts(",")
	r := g.operand(all[len(all)/8*5:] + "2")
	switch k {
	case 9:
		return EqualsExpr{l, r}
	case 10:
		return NotEqualsExpr{l, r}
	case 11:
		return LessThanExpr{l, r}
	case 12:
		return LessEqualsExpr{l, r}
	case 13:
		return GreaterThanExpr{l, r}
	}
	return GreaterEqualsExpr{l, r}
}

//vz:bound every expression of up to 2 (thorough: 3) nested AND, OR, NOT and loops over existence tests and comparisons of fields, values, functions, times and regular expressions; inner comparisons are equalities of members and numbers; names of one letter, numbers of one digit, all symbolic
//vz:cover parsed
func vz_C17_forms() {
	g := &vz17Gen{n: 2}
	if vzThorough() {
		g.n = 3
	}
	want := g.expr(0)
	got, err := vz17Parse(g.text)
	vzAssert(err == nil, "a well-formed expression is rejected")
	if err == nil {
		vzAssert(vz17Same(want, got), "the expression is not the one described")
		vzCover("parsed")
	}
}

var _ = vzReg("vz_C17_operands", vz_C17_operands)
var _ = vzReg("vz_C17_forms", vz_C17_forms)

//vz:bound the type of an expression: every text of 1 to 3 (thorough: 5) arbitrary bytes in front of two operands
//vz:cover parsed rejected
func vz_C17_type() {
	n := 3
	if vzThorough() {
		n = 5
	}
	n = 1 + vzChoice(n)
	name := vzBytes(n)
	esc := false
	for i := range name {
		esc = vzOr(esc, vzOr(name[i] == '\\', name[i] == '"'))
	}
	vzAssume(!esc)
	text := append([]byte(`["`), name...)
	text = append(text, `",["field","a"],["value",1]]`...)
	e, err := vz17Parse(text)
	known := false
	for _, k := range vz17Names {
		switch k {
		case "field", "func", "time", "regex", "anyin", "everyin", "anyeveryin":
		default:
			known = vzOr(known, string(name) == k)
		}
	}
	vzAssert((err == nil) == known, "accepted or rejected wrongly")
	if err != nil {
		vzCover("rejected")
		return
	}
	vzCover("parsed")
	vz17Whole(e)
}

var vz17Cuts = []string{``, `[`, `["`, `["and`, `["and"`, `["and",`, `["and",[`, `["and",["exists",["field"`, `["not",["exists",["field","a"]]]`, `[`, `{`, `"`, `1`, `n`, `t`, `["value",`, `["value",1`, `["value","`}

//vz:bound texts cut off after 18 beginnings, followed by up to 2 (thorough: 3) arbitrary bytes
//vz:cover parsed rejected
func vz_C17_text() {
	n := 2
	if vzThorough() {
		n = 3
	}
	n = vzChoice(n + 1)
	b := vzBytes(n)
	num := false
	for i := range b {
		num = vzOr(num, vzAnd(b[i] >= '0', b[i] <= '9'))
	}
	vzAssume(!num)
	text := append([]byte(vz17Cuts[vzChoice(len(vz17Cuts))]), b...)
	e, err := vz17Parse(text)
	if err != nil {
		vzCover("rejected")
		return
	}
	vzCover("parsed")
	vz17Whole(e)
}

var _ = vzReg("vz_C17_type", vz_C17_type)
var _ = vzReg("vz_C17_text", vz_C17_text)

//vz:bound every function name known to the package, an unknown one and the empty one, with 0 to 3 parameters; when accepted, it is compared with a value over a document whose member is a digit (symbolic), a string, null, an array or missing
//vz:cover ran rejected
func vz_C17_functions() {
	names := []string{DateFunc, MathFuncAbs, MathFuncAcos, MathFuncAsin, MathFuncAtan, MathFuncAtan2, MathFuncCeil, MathFuncCos, MathFuncDegrees, MathFuncE,
		MathFuncExp, MathFuncFloor, MathFuncLog, MathFuncLn, MathFuncPi, MathFuncPow, MathFuncRadians, MathFuncRound, MathFuncSin, MathFuncSqrt, MathFuncTan,
		MathFuncAdd, MathFuncSub, MathFuncMul, MathFuncDiv, MathFuncMod, MathFuncNeg, "", "nope", "ABS"}
	name := names[vzChoice(len(names))]
	text := `["equals",["func","` + name + `"`
	n := vzChoice(4)
	for i := 0; i < n; i++ {
		text += []string{`,["field","a"]`, `,["value",3]`}[i&1]
	}
	e, err := vz17Parse([]byte(text + `],["value",1]]`))
	need := 1
	switch name {
	case MathFuncAtan2, MathFuncPow, MathFuncAdd, MathFuncSub, MathFuncMul, MathFuncDiv, MathFuncMod:
		need = 2
	case MathFuncE, MathFuncPi: // not executed by matchers
		need = 9
	}
	if n >= need && len(name) > 3 && name != "nope" {
		vzAssert(err == nil, "a known function with its parameters is rejected")
	}
	if err != nil {
		vzCover("rejected")
		return
	}
	d := vzCompile(e)
	doc := &vzV{k: vzKObj}
	if k := vzChoice(5); k < 4 {
		v := &vzV{k: []int{vzKInt, vzKStr, vzKNull, vzKArr}[k], str: []byte("x")}
		if k == 0 {
			v.num = vzDigit()
		}
		doc.keys, doc.vals = []string{"a"}, []*vzV{v}
	}
	_, merr, p := vzMatch(NewFastMatcher(d.def), doc.render(nil, ""))
	vzAssert(p == "", "matching panicked: "+p)
	vzAssert(merr == nil, "matching failed")
	vzCover("ran")
}

var _ = vzReg("vz_C17_functions", vz_C17_functions)

//vz:bound patterns of one arbitrary ASCII byte in 8 surroundings (thorough: two bytes), as the operand of like; accepted exactly when it is a regular expression, and then compiled
//vz:cover ran rejected
func vz_C17_regex() {
	around := [][2]string{{``, ``}, {`(`, ``}, {`[`, ``}, {`a`, ``}, {`[a`, `]`}, {`a{`, `}`}, {`(?`, `)`}, {`\\`, ``}}
	c := around[vzChoice(len(around))]
	n := 1
	if vzThorough() {
		n = 2
	}
	pat := []byte(strings.Replace(c[0], `\\`, `\`, 1))
	text := []byte(`["like",["field","a"],["regex","` + c[0])
	for i := 0; i < n; i++ {
		b := vzU8()
		vzAssume(vzAnd(vzAnd(b >= ' ', b < 0x80), vzAnd(b != '"', b != '\\')))
		pat = append(pat, b)
		text = append(text, b)
	}
	pat = append(pat, c[1]...)
	text = append(text, c[1]+`"]]`...)
	_, rerr := regexp.Compile(string(pat))
	e, err := vz17Parse(text)
	vzAssert((err == nil) == (rerr == nil), "accepted exactly when the pattern is valid")
	if err != nil {
		vzCover("rejected")
		return
	}
	vz17Whole(e)
	p := vzPanics(func() { vzCompile(e) })
	vzAssert(p == "", "compiling panicked: "+p)
	vzCover("ran")
}

var _ = vzReg("vz_C17_regex", vz_C17_regex)

//vz:bound lists of 7 to 65 operands of AND and OR, 3 to 33 expressions in one another, fields of 8 to 65 names, functions of functions, texts and names of 8 to 130 characters with one (near either end or a power of two) any byte or escape, numbers of up to 17 digits
//vz:cover parsed
func vz_C17_many() {
	n := []int{7, 16, 33, 65}[vzChoice(4)]
	var want Expression
	text := ""
	switch vzChoice(5) {
	case 0:
		k := vzPick(n)
		d := vzDigit()
		var xs []Expression
		or := vzChoice(2)
		text = []string{`["and"`, `["or"`}[or]
		for i := 0; i < n; i++ {
			x := int64(i)
			if i == k {
				x = d
				text += `,["equals",["field","` + vzMember(i) + `"],["value",` + string([]byte{'0' + byte(d)}) + `]]`
			} else {
				text += `,["equals",["field","` + vzMember(i) + `"],["value",` + vzItoa(i) + `]]`
			}
			xs = append(xs, vzEq(vzF(vzMember(i)), ValueExpr{float64(x)}))
		}
		text += "]"
		want = AndExpr(xs)
		if or == 1 {
			want = OrExpr(xs)
		}
	case 1:
		text = `["exists",["field","a"]]`
		want = ExistsExpr{vzF("a")}
		k := vzChoice(3)
		for i := 1; i < n; i++ {
			v := VariableID(n - i)
			switch (i + k) % 6 {
			case 0:
				text, want = `["not",`+text+`]`, NotExpr{want}
			case 1:
				text, want = `["and",`+text+`,["exists",["field","b"]]]`, AndExpr{want, ExistsExpr{vzF("b")}}
			case 2:
				text, want = `["or",["exists",["field","b"]],`+text+`]`, OrExpr{ExistsExpr{vzF("b")}, want}
			case 3:
				text, want = `["anyin",`+vzItoa(n-i)+`,["field","l"],`+text+`]`, AnyInExpr{v, vzF("l"), want}
			case 4:
				text, want = `["everyin",`+vzItoa(n-i)+`,["field",`+vzItoa(n-i-1)+`,"l"],`+text+`]`, EveryInExpr{v, vzVar(v-1, "l"), want}
			case 5:
				text, want = `["anyeveryin",`+vzItoa(n-i)+`,["field","l"],`+text+`]`, AnyEveryInExpr{v, vzF("l"), want}
			}
		}
	case 2:
		path := []string{}
		text = `["exists",["field"`
		for i := 0; i < n; i++ {
			s := vzMember(i)
			if i%5 == 3 {
				s = "[" + vzItoa(i) + "]"
			}
			path = append(path, s)
			text += `,"` + s + `"`
		}
		text += `]]`
		want = ExistsExpr{vzF(path...)}
	case 3:
		var f Expression = vzF("a")
		ft := `["field","a"]`
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				f, ft = FuncExpr{MathFuncAbs, []Expression{f}}, `["func","`+MathFuncAbs+`",`+ft+`]`
			} else {
				f, ft = FuncExpr{MathFuncAdd, []Expression{ValueExpr{float64(i)}, f}}, `["func","`+MathFuncAdd+`",["value",`+vzItoa(i)+`],`+ft+`]`
			}
		}
		text = `["lessthan",` + ft + `,["value",12345678901234567]]`
		want = LessThanExpr{f, ValueExpr{float64(12345678901234567)}}
	case 4:
		raw := make([]byte, n)
		for i := range raw {
			raw[i] = 'n'
		}
		k := vzPick(n)
		val := raw
		if vzChoice(2) == 0 {
			c := vzU8()
			vzAssume(vzAnd(vzAnd(c >= 0x20, c < 0x80), vzAnd(c != '"', c != '\\')))
			raw[k] = c
		} else {
			val = append(append(append([]byte{}, raw[:k]...), "\n\u00e9"...), raw[k:]...)
			raw = append(append(append([]byte{}, raw[:k]...), `\n\u00e9`...), raw[k:]...)
		}
		if vzChoice(2) == 0 {
			text = `["equals",["field","a"],["value","` + string(raw) + `"]]`
			want = vzEq(vzF("a"), ValueExpr{string(val)})
		} else {
			text = `["equals",["field","` + string(raw) + `","b"],["value",true]]`
			want = vzEq(vzF(string(val), "b"), ValueExpr{true})
		}
	}
	got, err := vz17Parse([]byte(text))
	vzAssert(err == nil, "a well-formed expression is rejected")
	if err == nil {
		vzAssert(vz17Same(want, got), "the expression is not the one described")
		vzCover("parsed")
	}
}

var _ = vzReg("vz_C17_many", vz_C17_many)
