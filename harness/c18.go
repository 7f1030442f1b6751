package gojsonsm

// Filter texts: the structure of conditions.

type vz18Tok struct {
	k byte // ( ) ! & | or c for a condition
	v bool // of the condition
}

// vz18Eval gives the meaning of a token sequence: NOT before AND before OR.
type vz18Eval struct {
	toks []vz18Tok
	pos  int
}

func (e *vz18Eval) is(k byte) bool {
	if e.pos < len(e.toks) && e.toks[e.pos].k == k {
		e.pos++
		return true
	}
	return false
}

func (e *vz18Eval) or() bool {
	r := e.and()
	for e.is('|') {
		r = vzOr(r, e.and())
	}
	return r
}

func (e *vz18Eval) and() bool {
	r := e.one()
	for e.is('&') {
		r = vzAnd(r, e.one())
	}
	return r
}

func (e *vz18Eval) one() bool {
	if e.is('(') {
		r := e.or()
		e.pos++
		return r
	}
	if e.is('!') {
		return !e.one()
	}
	e.pos++
	return e.toks[e.pos-1].v
}

// vz18Text makes a text of up to n conditions, parens pairs and nots NOTs.
func vz18Text(n, parens, nots int, cond func(i int) (string, bool)) (string, []vz18Tok) {
	text := ""
	toks := []vz18Tok{}
	depth, i := 0, 0
	for {
		neg := false
		for {
			k := 0
			switch {
			case parens > 0 && !neg && nots > 0:
				k = vzChoice(3)
			case nots > 0:
				k = vzChoice(2)
			case parens > 0 && !neg:
				k = vzChoice(2) * 2
			}
			if k == 0 {
				break
			}
			if k == 1 {
				nots--
				neg = true
				text += "NOT "
				toks = append(toks, vz18Tok{k: '!'})
			} else {
				parens--
				depth++
				text += "("
				toks = append(toks, vz18Tok{k: '('})
			}
		}
		s, v := cond(i)
		i++
		text += s
		toks = append(toks, vz18Tok{k: 'c', v: v})
		for depth > 0 && (i == n || vzChoice(2) == 1) {
			depth--
			text += ")"
			toks = append(toks, vz18Tok{k: ')'})
		}
		if i == n || (depth == 0 && vzChoice(2) == 0) {
			return text, toks
		}
		if vzChoice(2) == 0 {
			text += " AND "
			toks = append(toks, vz18Tok{k: '&'})
		} else {
			text += " OR "
			toks = append(toks, vz18Tok{k: '|'})
		}
	}
}

//vz:bound every filter text of up to 3 (thorough: 4) conditions on different members, joined by AND and OR, with up to 2 pairs of parentheses anywhere and 2 NOTs before conditions; the first number compared with and the members are symbolic
//vz:cover matched unmatched
func vz_C18_structure() {
	n, nots := 3, 2
	if vzThorough() {
		n = 4
	}
	doc := []byte("{")
	vals := []int{}
	for i := 0; i < n; i++ {
		if i > 0 {
			doc = append(doc, ',')
		}
		b := vzU8()
		vzAssume(vzAnd(b >= '0', b <= '9'))
		vals = append(vals, int(b)-'0')
		doc = append(doc, '"', vzNames[i][0], '"', ':', b)
	}
	doc = append(doc, '}')
	text, toks := vz18Text(n, 2, nots, func(i int) (string, bool) {
		c := i + 3
		if i == 0 {
			c = int(vzU32())
		}
		return vzNames[i] + " = " + vzTextInt(c), c == vals[i]
	})
	e := vz18Eval{toks: toks}
	want := e.or()
	got := vzFilterMatch(text, doc)
	vzAssert(got == want, "wrong verdict")
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

var _ = vzReg("vz_C18_structure", vz_C18_structure)

// vz18Cond makes the k-th kind of condition on a member.
func vz18Cond(k int, x string, n int) (string, Expression) {
	f := FieldExpr{0, []string{x}}
	lit := func() (string, Expression) { return vzTextInt(n), vzN(n) }
	switch k {
	case 0:
		s, e := lit()
		return x + " = " + s, EqualsExpr{f, e}
	case 1:
		s, e := lit()
		return x + " != " + s, NotEqualsExpr{f, e}
	case 2:
		return "TRUE", TrueExpr{}
	case 3:
		return "FALSE", FalseExpr{}
	case 4:
		return "true", TrueExpr{}
	case 5:
		return "false", FalseExpr{}
	case 6:
		return "EXISTS(" + x + ")", ExistsExpr{f}
	case 7:
		return x + " IS NULL", EqualsExpr{f, ValueExpr{nil}}
	case 8:
		return x + " IS NOT NULL", NotExpr{EqualsExpr{f, ValueExpr{nil}}}
	case 9:
		return x + " IS MISSING", NotExistsExpr{f}
	case 10:
		return x + " IS NOT MISSING", ExistsExpr{f}
	case 11:
		return "EXISTS(" + x + ".b)", ExistsExpr{FieldExpr{0, []string{x, "b"}}}
	case 12:
		return x + "[1] IS NULL", EqualsExpr{FieldExpr{0, []string{x, "[1]"}}, ValueExpr{nil}}
	case 13:
		return x + ".b IS MISSING", NotExistsExpr{FieldExpr{0, []string{x, "b"}}}
	case 14:
		s, e := lit()
		return x + ".b >= " + s, GreaterEqualsExpr{FieldExpr{0, []string{x, "b"}}, e}
	}
	return x + ` = "k"`, EqualsExpr{f, ValueExpr{"k"}}
}

const vz18Conds = 16

func vz18State(k int) *vzV {
	switch k {
	case 0:
		return &vzV{k: vzKInt, num: vzDigit()}
	case 1:
		return &vzV{k: vzKNull}
	case 2:
		return &vzV{k: vzKObj, keys: []string{"c", "b"}, vals: []*vzV{{k: vzKNull}, {k: vzKInt, num: vzDigit()}}}
	case 3:
		return &vzV{k: vzKArr, vals: []*vzV{{k: vzKTrue}, {k: vzKNull}}}
	case 4:
		return &vzV{k: vzKStr, str: []byte("k")}
	case 5:
		return &vzV{k: vzKTrue}
	}
	return nil
}

//vz:bound one or two conditions of 16 kinds (the second one of 4) on members that are missing, numbers, null, texts, true, arrays or objects, joined by AND or OR, with up to one NOT and a pair of parentheses; thorough: both of all kinds
//vz:cover matched unmatched
func vz_C18_conditions() {
	kinds2 := []int{0, 3, 6, 8}
	nots := 1
	n := 2
	k0 := vzChoice(vz18Conds)
	root := &vzV{k: vzKObj}
	put := func(name string, states int) {
		if v := vz18State(vzChoice(states)); v != nil {
			root.keys = append(root.keys, name)
			root.vals = append(root.vals, v)
		}
	}
	put("a", 7)
	if vzThorough() {
		put("b", 4)
	} else if vzChoice(2) == 1 {
		put("b", 1)
	}
	env := &vzEnv{root: root}
	text, toks := vz18Text(n, 1, nots, func(i int) (string, bool) {
		k := k0
		if i == 1 {
			if vzThorough() {
				k = vzChoice(vz18Conds)
			} else {
				k = kinds2[vzChoice(4)]
			}
		}
		s, e := vz18Cond(k, vzNames[i], i+3)
		return s, env.eval(e)
	})
	e := vz18Eval{toks: toks}
	want := e.or()
	got := vzFilterMatch(text, root.render(nil, ""))
	vzAssert(got == want, "wrong verdict")
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

var _ = vzReg("vz_C18_conditions", vz_C18_conditions)

//vz:bound texts of 5 or 17 (thorough: 5 to 33) conditions on as many members, joined by AND, OR or both in turn, with parentheses around one run of them (thorough: any) 1 to 5 deep, NOT before every second condition or none; members all alike but one (near either end or a power of two), any digit
//vz:cover matched unmatched
func vz_C18_many() {
	sizes := []int{5, 17}
	if vzThorough() {
		sizes = []int{5, 6, 8, 9, 16, 17, 33}
	}
	n := sizes[vzChoice(len(sizes))]
	root := vzMany(n, vzPick(n), vzInt(1+vzChoice(2)), false)
	join, nots := vzChoice(4), vzChoice(2) == 1
	from := []int{0, 1, n / 2, n - 2}[vzChoice(4)]
	to := from + 1 + []int{0, 1, n - from - 1}[vzChoice(3)]
	if to > n {
		to = n
	}
	deep := []int{0, 1, 5}[vzChoice(3)]
	if deep == 0 {
		vzAssume(from == 0 && to == 1)
	}
	text := ""
	var e vz18Eval
	put := func(k byte, v bool) { e.toks = append(e.toks, vz18Tok{k: k, v: v}) }
	for i := 0; i < n; i++ {
		if i > 0 {
			if join == 0 || join == 2 && i%2 == 1 || join == 3 && i%3 > 0 {
				text += " AND "
				put('&', false)
			} else {
				text += " OR "
				put('|', false)
			}
		}
		for d := 0; i == from && d < deep; d++ {
			text += "("
			put('(', false)
		}
		if nots && i%2 == 0 {
			text += "NOT "
			put('!', false)
		}
		text += vzMember(i) + " = 1"
		put('c', root.vals[i].num == 1)
		for d := 0; i == to-1 && d < deep; d++ {
			text += ")"
			put(')', false)
		}
	}
	want := e.or()
	got := vzFilterMatch(text, root.render(nil, ""))
	vzAssert(got == want, "wrong verdict")
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

var _ = vzReg("vz_C18_many", vz_C18_many)
