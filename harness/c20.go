package gojsonsm

// Texts of the simple expression language.

// vz20Eval gives the meaning of tokens c ( ) & |, left to right.
func vz20Eval(e *vz20Toks) bool {
	v := e.one()
	for e.pos < len(e.k) && e.k[e.pos] != ')' {
		op := e.k[e.pos]
		e.pos++
		r := e.one()
		if op == '&' {
			v = vzAnd(v, r)
		} else {
			v = vzOr(v, r)
		}
	}
	return v
}

type vz20Toks struct {
	k   []byte
	v   []bool
	pos int
}

func (e *vz20Toks) add(k byte, v bool) { e.k = append(e.k, k); e.v = append(e.v, v) }

func (e *vz20Toks) one() bool {
	if e.k[e.pos] == '(' {
		e.pos++
		v := vz20Eval(e)
		e.pos++
		return v
	}
	e.pos++
	return e.v[e.pos-1]
}

// vz20Digits is a document of members a, b, ... of one digit each.
func vz20Digits(n int) (doc []byte, vals []int) {
	doc = []byte("{")
	for i := 0; i < n; i++ {
		if i > 0 {
			doc = append(doc, ',')
		}
		b := byte('0' + vzDigit())
		vals = append(vals, int(b)-'0')
		doc = append(doc, '"', vzNames[i][0], '"', ':', b)
	}
	return append(doc, '}'), vals
}

var vz20Ops = []string{" && ", " AND ", " || ", " OR ", "&&", "||"}

//vz:bound every text of up to 3 (thorough: 4) conditions on different members, joined by &&, AND, || and OR in any mix, the symbols with or without white space around them; the document's members are symbolic
//vz:cover matched unmatched
func vz_C20_chain() {
	n := 3
	if vzThorough() {
		n = 4
	}
	doc, vals := vz20Digits(n)
	var toks vz20Toks
	text := ""
	for i := 0; ; i++ {
		text += vzNames[i] + " = " + string(rune('3'+i))
		toks.add('c', vals[i] == 3+i)
		if i == n-1 || vzChoice(2) == 0 {
			break
		}
		k := vzChoice(6)
		text += vz20Ops[k]
		if k == 0 || k == 1 || k == 4 {
			toks.add('&', false)
		} else {
			toks.add('|', false)
		}
	}
	want := vz20Eval(&toks)
	got := vzSimpleVerdict(text, doc)
	vzAssert(got == want, "wrong verdict: "+text)
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

var _ = vzReg("vz_C20_chain", vz_C20_chain)

// vz20Text makes a text of up to n conditions and a number of pairs of parentheses.
func vz20Text(n, parens int, space, mixed bool, cond func(i int) (string, bool)) (string, *vz20Toks) {
	var toks vz20Toks
	text := ""
	depth := 0
	for i := 0; ; {
		for parens > 0 && vzChoice(2) == 1 {
			parens--
			depth++
			text += "("
			if space {
				text += " "
			}
			toks.add('(', false)
		}
		s, v := cond(i)
		i++
		text += s
		toks.add('c', v)
		for depth > 0 && (i == n || vzChoice(2) == 1) {
			depth--
			if space {
				text += " "
			}
			text += ")"
			toks.add(')', false)
		}
		if i == n || (depth == 0 && vzChoice(2) == 0) {
			return text, &toks
		}
		k := vzChoice(4)
		vzAssume(mixed || k == 0 || k == 3)
		text += vz20Ops[k]
		if k < 2 {
			toks.add('&', false)
		} else {
			toks.add('|', false)
		}
	}
}

//vz:bound every text of up to 3 (thorough: 4) conditions with up to 2 pairs of parentheses anywhere, joined by &&, AND, || and OR in any mix; the document's members are symbolic
//vz:cover matched unmatched
func vz_C20_parens() {
	n := 3
	if vzThorough() {
		n = 4
	}
	doc, vals := vz20Digits(n)
	text, toks := vz20Text(n, 2, vzChoice(2) == 1, true, func(i int) (string, bool) {
		return vzNames[i] + " = " + string(rune('3'+i)), vals[i] == 3+i
	})
	want := vz20Eval(toks)
	got := vzSimpleVerdict(text, doc)
	vzAssert(got == want, "wrong verdict: "+text)
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

var _ = vzReg("vz_C20_parens", vz_C20_parens)

//vz:bound every text of up to 3 conditions of which one, at any position, is EXISTS, IS MISSING, IS NULL, IS NOT NULL, true or false and the others are comparisons, with up to 1 pair (thorough: 2) of parentheses anywhere, joined by && and OR (thorough: &&, AND, || and OR) in any mix; the document's members are symbolic digits, the one's member also null or absent
//vz:cover matched unmatched
func vz_C20_kinds() {
	n, parens := 3, 1
	if vzThorough() {
		parens = 2
	}
	at := vzChoice(n)
	doc := []byte(`{"z":0`)
	vals := []int{}
	for i := 0; i < n; i++ {
		v := int(vzDigit())
		if i == at {
			switch vzChoice(3) {
			case 1:
				v = -10
			case 2:
				v = -20
			}
		}
		vals = append(vals, v)
		if v >= -10 {
			doc = append(doc, ',', '"', vzNames[i][0], '"', ':')
			if v >= 0 {
				doc = append(doc, byte('0'+v))
			} else {
				doc = append(doc, 'n', 'u', 'l', 'l')
			}
		}
	}
	doc = append(doc, '}')
	text, toks := vz20Text(n, parens, true, vzThorough(), func(i int) (string, bool) {
		f := vzNames[i]
		if i != at {
			return f + " = " + string(rune('3'+i)), vals[i] == 3+i
		}
		switch vzChoice(6) {
		case 0:
			return f + " EXISTS", vals[i] >= -10
		case 1:
			return f + " IS MISSING", vals[i] < -10
		case 2:
			return f + " IS NULL", vzAnd(vals[i] < 0, vals[i] >= -10)
		case 3:
			return f + " IS NOT NULL", vzOr(vals[i] >= 0, vals[i] < -10)
		case 4:
			return "true", true
		}
		return "false", false
	})
	vzAssume(toks.conds() > 1)
	want := vz20Eval(toks)
	got := vzSimpleVerdict(text, doc)
	vzAssert(got == want, "wrong verdict: "+text)
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

var _ = vzReg("vz_C20_kinds", vz_C20_kinds)

func (e *vz20Toks) conds() int {
	n := 0
	for _, k := range e.k {
		if k == 'c' {
			n++
		}
	}
	return n
}

//vz:bound texts of 5 or 17 (thorough: 5 to 33) conditions on as many members, joined by &&, OR or any of the four in turn, with parentheses around one run of them, 1 to 5 deep; members all alike but one (near either end or a power of two), any digit
//vz:cover matched unmatched
func vz_C20_many() {
	sizes := []int{5, 17}
	if vzThorough() {
		sizes = []int{5, 6, 8, 9, 16, 17, 33}
	}
	n := sizes[vzChoice(len(sizes))]
	root := vzMany(n, vzPick(n), vzInt(1+vzChoice(2)), false)
	join := vzChoice(4)
	from := []int{0, 1, n / 2, n - 2}[vzChoice(4)]
	to := from + 1 + []int{0, 1, n - from - 1}[vzChoice(3)]
	if to > n {
		to = n
	}
	deep := []int{0, 1, 5}[vzChoice(3)]
	if deep == 0 {
		vzAssume(from == 0 && to == 1)
	}
	text := ""
	var toks vz20Toks
	for i := 0; i < n; i++ {
		if i > 0 {
			k := 0
			switch join {
			case 1:
				k = 3
			case 2:
				k = i % 4
			case 3:
				k = (i / 3) % 4
			}
			text += vz20Ops[k]
			if k < 2 {
				toks.add('&', false)
			} else {
				toks.add('|', false)
			}
		}
		for d := 0; i == from && d < deep; d++ {
			text += "( "
			toks.add('(', false)
		}
		text += vzMember(i) + " = 1"
		toks.add('c', root.vals[i].num == 1)
		for d := 0; i == to-1 && d < deep; d++ {
			text += " )"
			toks.add(')', false)
		}
	}
	want := vz20Eval(&toks)
	got := vzSimpleVerdict(text, root.render(nil, ""))
	vzAssert(got == want, "wrong verdict: "+text)
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

var _ = vzReg("vz_C20_many", vz_C20_many)
