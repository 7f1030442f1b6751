package gojsonsm

// Documents as trees with symbolic leaves, their rendering as JSON text, and an
// independent evaluator of expressions over them.

const (
	vzKInt = iota
	vzKNull
	vzKTrue
	vzKFalse
	vzKStr
	vzKObj
	vzKArr
)

type vzV struct {
	k    int
	num  int64  // vzKInt, 0..9, may be symbolic
	str  []byte // vzKStr, letters, may be symbolic
	keys []string
	vals []*vzV
}

type vzGen struct {
	nodes int      // containers and leaves still allowed
	keys  []string // member names, each used at most once per object
	extra int      // further leaf kinds: bit0 null, bit1 true/false, bit2 string
	elems int      // most elements of an array
	noObj bool
	noArr bool
	obj1  bool // objects have at most one member
}

func vzDigit() int64 {
	b := vzU8()
	vzAssume(b < 10)
	return int64(b)
}

func vzLetters(n int) []byte {
	s := make([]byte, n)
	for i := range s {
		c := vzU8()
		vzAssume(vzAnd(c >= 'a', c <= 'z'))
		s[i] = c
	}
	return s
}

// value makes any value within the remaining node budget.
func (g *vzGen) value(depth int) *vzV {
	g.nodes--
	kinds := []int{vzKInt}
	if g.extra&1 != 0 {
		kinds = append(kinds, vzKNull)
	}
	if g.extra&2 != 0 {
		kinds = append(kinds, vzKTrue)
	}
	if g.extra&4 != 0 {
		kinds = append(kinds, vzKStr)
	}
	if depth > 0 && !g.noObj {
		kinds = append(kinds, vzKObj)
	}
	if depth > 0 && !g.noArr {
		kinds = append(kinds, vzKArr)
	}
	k := kinds[vzChoice(len(kinds))]
	switch k {
	case vzKObj:
		return g.object(depth)
	case vzKArr:
		return g.array(depth)
	case vzKInt:
		return &vzV{k: k, num: vzDigit()}
	case vzKStr:
		return &vzV{k: k, str: vzLetters(1)}
	case vzKTrue:
		if vzChoice(2) == 1 {
			k = vzKFalse
		}
	}
	return &vzV{k: k}
}

func (g *vzGen) object(depth int) *vzV {
	v := &vzV{k: vzKObj}
	left := append([]string{}, g.keys...)
	for len(left) > 0 && g.nodes > 0 {
		c := vzChoice(len(left) + 1)
		if c == len(left) {
			break
		}
		v.keys = append(v.keys, left[c])
		left = append(left[:c:c], left[c+1:]...)
		v.vals = append(v.vals, g.value(depth-1))
		if g.obj1 {
			break
		}
	}
	return v
}

func (g *vzGen) array(depth int) *vzV {
	v := &vzV{k: vzKArr}
	for len(v.vals) < g.elems && g.nodes > 0 && vzChoice(2) == 1 {
		v.vals = append(v.vals, g.value(depth-1))
	}
	return v
}

// render appends the JSON text; sp is put between all tokens.
func (v *vzV) render(b []byte, sp string) []byte {
	switch v.k {
	case vzKInt:
		return append(b, byte('0'+v.num))
	case vzKNull:
		return append(b, "null"...)
	case vzKTrue:
		return append(b, "true"...)
	case vzKFalse:
		return append(b, "false"...)
	case vzKStr:
		b = append(b, '"')
		b = append(b, v.str...)
		return append(b, '"')
	case vzKObj:
		b = append(b, '{')
		b = append(b, sp...)
		for i, x := range v.vals {
			if i > 0 {
				b = append(b, ',')
				b = append(b, sp...)
			}
			b = append(b, '"')
			b = append(b, v.keys[i]...)
			b = append(b, '"')
			b = append(b, sp...)
			b = append(b, ':')
			b = append(b, sp...)
			b = x.render(b, sp)
			b = append(b, sp...)
		}
		return append(b, '}')
	default:
		b = append(b, '[')
		b = append(b, sp...)
		for i, x := range v.vals {
			if i > 0 {
				b = append(b, ',')
				b = append(b, sp...)
			}
			b = x.render(b, sp)
			b = append(b, sp...)
		}
		return append(b, ']')
	}
}

func (v *vzV) get(step string) *vzV {
	if v == nil {
		return nil
	}
	switch v.k {
	case vzKObj:
		for i, k := range v.keys {
			if k == step {
				return v.vals[i]
			}
		}
	case vzKArr:
		if n := len(step); n >= 3 && step[0] == '[' && step[n-1] == ']' {
			i := 0
			for _, c := range step[1 : n-1] {
				i = i*10 + int(c-'0')
			}
			if i < len(v.vals) {
				return v.vals[i]
			}
		}
	}
	return nil
}

type vzEnv struct {
	root *vzV
	id   VariableID
	val  *vzV
	up   *vzEnv
}

func (e *vzEnv) field(f FieldExpr) *vzV {
	v := (*vzV)(nil)
	if f.Root == 0 {
		v = e.root
	} else {
		for x := e; x != nil; x = x.up {
			if x.id == f.Root {
				v = x.val
				break
			}
		}
	}
	for _, s := range f.Path {
		v = v.get(s)
	}
	return v
}

// vzRank orders the kinds: null, booleans, numbers, strings, arrays, objects.
func vzRank(k int) int {
	switch k {
	case vzKNull:
		return 0
	case vzKTrue, vzKFalse:
		return 1
	case vzKInt:
		return 2
	case vzKStr:
		return 3
	case vzKArr:
		return 4
	}
	return 5
}

func vzConst(x interface{}) *vzV {
	switch x := x.(type) {
	case int:
		return &vzV{k: vzKInt, num: int64(x)}
	case int64:
		return &vzV{k: vzKInt, num: x}
	case string:
		return &vzV{k: vzKStr, str: []byte(x)}
	case bool:
		if x {
			return &vzV{k: vzKTrue}
		}
		return &vzV{k: vzKFalse}
	}
	return &vzV{k: vzKNull}
}

// vzCmp compares two present values: lt, eq.  Only combinations the harnesses
// generate are given a meaning.
func vzCmp(a, b *vzV) (lt, eq bool) {
	if a.k != b.k {
		return vzRank(a.k) < vzRank(b.k), false
	}
	switch a.k {
	case vzKInt:
		return a.num < b.num, a.num == b.num
	case vzKStr:
		return string(a.str) < string(b.str), string(a.str) == string(b.str)
	case vzKArr, vzKObj:
		x, y := a.render(nil, ""), b.render(nil, "")
		if len(x) != len(y) {
			return len(x) < len(y), false
		}
		return string(x) < string(y), string(x) == string(y)
	}
	return false, true
}

func (e *vzEnv) operand(x Expression) (*vzV, bool) {
	switch x := x.(type) {
	case FieldExpr:
		v := e.field(x)
		return v, v != nil
	case ValueExpr:
		return vzConst(x.Value), true
	}
	panic("vz: operand")
}

// eval gives the value an expression has by its definition, without any
// early exit or three-valued shortcut.
func (e *vzEnv) eval(x Expression) bool {
	switch x := x.(type) {
	case TrueExpr:
		return true
	case FalseExpr:
		return false
	case AndExpr:
		r := true
		for _, s := range x {
			r = vzAnd(r, e.eval(s))
		}
		return r
	case OrExpr:
		r := false
		for _, s := range x {
			r = vzOr(r, e.eval(s))
		}
		return r
	case NotExpr:
		return !e.eval(x.SubExpr)
	case ExistsExpr:
		_, ok := e.operand(x.SubExpr)
		return ok
	case NotExistsExpr:
		_, ok := e.operand(x.SubExpr)
		return !ok
	case EqualsExpr:
		return e.cmp(x.Lhs, x.Rhs, 0)
	case NotEqualsExpr:
		return !e.cmp(x.Lhs, x.Rhs, 0)
	case LessThanExpr:
		return e.cmp(x.Lhs, x.Rhs, 1)
	case LessEqualsExpr:
		return e.cmp(x.Lhs, x.Rhs, 2)
	case GreaterThanExpr:
		return e.cmp(x.Lhs, x.Rhs, 3)
	case GreaterEqualsExpr:
		return e.cmp(x.Lhs, x.Rhs, 4)
	case AnyInExpr:
		any, _, _ := e.loop(x.VarId, x.InExpr, x.SubExpr)
		return any
	case EveryInExpr:
		_, every, ok := e.loop(x.VarId, x.InExpr, x.SubExpr)
		return ok && every
	case AnyEveryInExpr:
		any, every, _ := e.loop(x.VarId, x.InExpr, x.SubExpr)
		return vzAnd(any, every)
	}
	panic("vz: eval")
}

func (e *vzEnv) loop(id VariableID, over, body Expression) (any, every, ok bool) {
	v, ok := e.operand(over)
	if !ok || v.k != vzKArr {
		return false, false, false
	}
	any, every = false, true
	for _, x := range v.vals {
		r := (&vzEnv{root: e.root, id: id, val: x, up: e}).eval(body)
		any = vzOr(any, r)
		every = vzAnd(every, r)
	}
	return any, every, true
}

func (e *vzEnv) cmp(l, r Expression, op int) bool {
	a, oka := e.operand(l)
	b, okb := e.operand(r)
	if !oka || !okb {
		return false
	}
	lt, eq := vzCmp(a, b)
	switch op {
	case 0:
		return eq
	case 1:
		return lt
	case 2:
		return vzOr(lt, eq)
	case 3:
		return vzAnd(!lt, !eq)
	}
	return !lt
}

// shorthands

func vzF(path ...string) FieldExpr                  { return FieldExpr{0, path} }
func vzVar(id VariableID, path ...string) FieldExpr { return FieldExpr{id, path} }
func vzN(n int) ValueExpr                           { return ValueExpr{n} }
func vzEq(a, b Expression) Expression               { return EqualsExpr{a, b} }
func vzLt(a, b Expression) Expression               { return LessThanExpr{a, b} }
func vzMatcher(exprs ...Expression) *FastMatcher {
	var t Transformer
	return NewFastMatcher(t.Transform(exprs))
}

// vzMatch runs a matcher and turns panics into a verdict.
func vzMatch(m *FastMatcher, doc []byte) (res bool, err error, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vzStop); ok {
				panic(s)
			}
			panicked = "panic: " + vzPanicText(r)
		}
	}()
	res, err = m.Match(doc)
	return
}

// vzDef is a compiled list of expressions.
type vzDef struct {
	exprs []Expression
	def   *MatchDef
}

func vzCompile(exprs ...Expression) (d vzDef) {
	d.exprs = exprs
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vzStop); ok {
				panic(s)
			}
			vzAssert(false, "Transform panicked: "+vzPanicText(r))
		}
	}()
	var t Transformer
	d.def = t.Transform(exprs)
	return d
}

func vzCompileEach(exprs []Expression) []vzDef {
	r := []vzDef{}
	for _, e := range exprs {
		r = append(r, vzCompile(e))
	}
	return r
}

// vzSame asserts that matching doc gives exactly the reference verdicts.
func vzSame(d vzDef, root *vzV, sp string) {
	doc := root.render(nil, sp)
	m := NewFastMatcher(d.def)
	vzSameM(m, d, root, doc)
}

func vzSameM(m *FastMatcher, d vzDef, root *vzV, doc []byte) {
	res, err, p := vzMatch(m, doc)
	vzAssert(p == "", "Match panicked: "+p)
	vzObserve("res", res, err == nil)
	vzAssert(err == nil, "Match reported an error on a valid document")
	env := &vzEnv{root: root}
	any := false
	for i, e := range d.exprs {
		want := env.eval(e)
		any = vzOr(any, want)
		if len(d.exprs) > 1 {
			vzAssert(m.ExpressionMatched(i) == want, "wrong verdict for an expression")
		}
	}
	if any {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
	vzAssert(res == any, "wrong verdict")
}

// vzPanics runs f and gives the text of its panic.
func vzPanics(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vzStop); ok {
				panic(s)
			}
			p = "panic: " + vzPanicText(r)
		}
	}()
	f()
	return ""
}

// documents and expressions of many parts

// vzItoa is strconv.Itoa for 0 and up.
func vzItoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return vzItoa(n/10) + string(rune('0'+n%10))
}

func vzMember(i int) string { return "m" + vzItoa(i) }

func vzInt(n int) *vzV { return &vzV{k: vzKInt, num: int64(n)} }

// vzMany makes an object of members m0 to m(n-1), all x, in either order, but
// member k, which is any digit.
func vzMany(n, k int, x *vzV, down bool) *vzV {
	v := &vzV{k: vzKObj}
	for i := 0; i < n; i++ {
		j := i
		if down {
			j = n - 1 - i
		}
		v.keys = append(v.keys, vzMember(j))
		if j == k {
			v.vals = append(v.vals, &vzV{k: vzKInt, num: vzDigit()})
		} else {
			v.vals = append(v.vals, x)
		}
	}
	return v
}

// vzPick is a position from 0 to n-1: the first and last ones and those near
// powers of two.
func vzPick(n int) int {
	ks := []int{}
	for i := 0; i < n; i++ {
		if i < 2 || i > n-3 || i&(i-1) == 0 || i&(i+1) == 0 {
			ks = append(ks, i)
		}
	}
	return ks[vzChoice(len(ks))]
}

// vzDeep wraps v in n arrays, objects of one member, or both in turn.
func vzDeep(n, kind int, v *vzV) *vzV {
	for i := 0; i < n; i++ {
		if kind == 0 || kind == 2 && i%2 == 0 {
			v = &vzV{k: vzKArr, vals: []*vzV{v}}
		} else {
			v = &vzV{k: vzKObj, keys: []string{"a"}, vals: []*vzV{v}}
		}
	}
	return v
}

// vzBigNumber makes a comparison of member a with a number of many digits, a
// document whose a differs from that number in the last digit at most, and
// tells whether the comparison holds.
func vzBigNumber() (text string, doc []byte, want bool) {
	digits := []string{"12", "255", "65536", "2147483647", "2147483648", "4294967296", "9007199254740993", "123456789012345678", "1000000000000000000", "9223372036854775807"}[vzChoice(10)]
	op := vzChoice(6)
	frac := vzChoice(3) // none, one digit after the point, four
	if frac > 0 {
		if len(digits) > 15 {
			digits = digits[:15]
		}
		p := len(digits) - 1 // numbers closer than a millionth count as equal
		if frac == 2 && p > 4 {
			p -= 3
		}
		digits = digits[:p] + "." + digits[p:]
	}
	neg := vzChoice(2) == 1
	sign := ""
	if neg {
		sign = "-"
	}
	n := len(digits)
	var d byte
	if frac == 0 {
		d = byte('0' + vzDigit())
		vzAssume(vzOr(n < 19, d <= '7'))
	} else {
		d = byte('0' + vzChoice(10))
	}
	doc = append(append(append(append(doc, `{"a":`...), sign+digits[:n-1]...), d), '}')
	less, equal := d < digits[n-1], d == digits[n-1]
	if neg {
		less = d > digits[n-1]
	}
	switch op {
	case 0:
		want = equal
	case 1:
		want = !equal
	case 2:
		want = less
	case 3:
		want = vzOr(less, equal)
	case 4:
		want = !(vzOr(less, equal))
	case 5:
		want = !(less)
	}
	return "a " + []string{"=", "!=", "<", "<=", ">", ">="}[op] + " " + sign + digits, doc, want
}
