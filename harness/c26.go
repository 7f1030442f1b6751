package gojsonsm

// Statistics of expressions.

type vz26Counts struct {
	loops, nested, depth, ands, ors, fields, values int
}

func (c *vz26Counts) leaf() Expression {
	switch vzChoice(6) {
	case 0:
		c.fields++
		return vzF("a")
	case 1:
		c.values++
		return vzN(1)
	case 2:
		c.fields++
		return FuncExpr{MathFuncAbs, []Expression{vzVar(1, "b")}}
	case 3:
		c.values++
		c.fields++
		return FuncExpr{MathFuncAdd, []Expression{vzF(), vzN(1)}}
	case 4:
		return TimeExpr{"2018-01-01"}
	}
	return FuncExpr{DateFunc, nil}
}

// expr makes an expression of at most n operators and loops, and counts.
func (c *vz26Counts) expr(n *int, loop int, top bool) Expression {
	if loop > c.depth {
		c.depth = loop
	}
	kinds := []int{0, 1, 2, 3, 4, 5, 8, 11, 6, 7, 9, 10, 12, 13, 14, 15, 16}
	if !top {
		kinds = kinds[:8]
	}
	if *n == 0 {
		kinds = kinds[6:]
	}
	k := kinds[vzChoice(len(kinds))]
	if k < 6 {
		*n--
	}
	switch k {
	case 0, 1:
		list := []Expression{}
		for i := vzChoice(3); i > 0; i-- {
			list = append(list, c.expr(n, loop, false))
		}
		if k == 0 {
			c.ands++
			return AndExpr(list)
		}
		c.ors++
		return OrExpr(list)
	case 2:
		return NotExpr{c.expr(n, loop, false)}
	case 3, 4, 5:
		c.loops++
		if loop == 1 {
			c.nested++
		}
		in, body := Expression(vzF("l")), c.expr(n, loop+1, false)
		c.fields++
		if k == 3 {
			return AnyInExpr{1, in, body}
		}
		if k == 4 {
			return EveryInExpr{1, in, body}
		}
		return AnyEveryInExpr{1, in, body}
	case 6:
		return TrueExpr{}
	case 7:
		return FalseExpr{}
	case 8:
		c.fields++
		return ExistsExpr{vzF("a")}
	case 9:
		c.fields++
		return NotExistsExpr{vzF("a")}
	case 10:
		c.fields++
		return LikeExpr{vzF("a"), RegexExpr{"x"}}
	case 11:
		if !top {
			c.fields++
			c.values++
			return vzEq(vzF("a"), vzN(1))
		}
		return EqualsExpr{c.leaf(), c.leaf()}
	}
	c.fields++
	l, r := vzF("a"), c.leaf()
	switch k {
	case 12:
		return NotEqualsExpr{l, r}
	case 13:
		return LessThanExpr{l, r}
	case 14:
		return LessEqualsExpr{l, r}
	case 15:
		return GreaterThanExpr{l, r}
	}
	return GreaterEqualsExpr{l, r}
}

//vz:bound every expression of up to 3 (thorough: 4) nested AND, OR, NOT and loops, with up to 2 operands, over existence tests, comparisons of all kinds and constants (inner ones: EXISTS and = of a member and a value); the counts before the scan are symbolic
//vz:cover counted
func vz_C26_counts() {
	n := 3
	if vzThorough() {
		n = 4
	}
	c := vz26Counts{}
	e := c.expr(&n, 0, true)
	u := func() int {
		x := vzU32()
		return int(x)
	}
	old := ExpressionStats{u(), u(), u(), u(), u(), u(), u()}
	st := old
	var err error
	p := vzPanics(func() { err = st.Scan(e) })
	vzAssert(p == "", "scanning panicked: "+p)
	vzAssert(err == nil, "scanning failed")
	vzAssert(st.NumLoops == old.NumLoops+c.loops, "loops")
	vzAssert(st.NumNestedLoops == old.NumNestedLoops+c.nested, "nested loops")
	vzAssert(st.MaxLoopDepth >= old.MaxLoopDepth, "depth of loops decreased")
	vzAssert(st.MaxLoopDepth >= c.depth, "depth of loops is too small")
	vzAssert(vzOr(st.MaxLoopDepth == old.MaxLoopDepth, st.MaxLoopDepth == c.depth), "depth of loops")
	vzAssert(st.NumAnds == old.NumAnds+c.ands, "ANDs")
	vzAssert(st.NumOrs == old.NumOrs+c.ors, "ORs")
	vzAssert(st.NumFields == old.NumFields+c.fields, "fields")
	vzAssert(st.NumValues == old.NumValues+c.values, "values")
	vzCover("counted")
}

var _ = vzReg("vz_C26_counts", vz_C26_counts)

//vz:bound AND and OR of 7 to 33 operands, nested up to 33 deep with NOTs and loops of up to 9 in one another; the counts before the scan are symbolic
//vz:cover counted
func vz_C26_many() {
	n := []int{7, 16, 33}[vzChoice(3)]
	c := vz26Counts{}
	var xs []Expression
	for i := 0; i < n; i++ {
		xs = append(xs, vzEq(vzF(vzMember(i)), vzN(1)))
		c.fields++
		c.values++
	}
	var e Expression = AndExpr(xs)
	c.ands++
	if vzChoice(2) == 1 {
		e = OrExpr(xs)
		c.ands, c.ors = 0, 1
	}
	loops := []int{0, 1, 2, 5, 9}[vzChoice(5)]
	if loops > n {
		loops = n
	}
	k := vzChoice(3)
	for i := 0; i < n; i++ {
		switch {
		case i < loops:
			v := VariableID(loops - i)
			in := vzF("l")
			if v > 1 {
				in = vzVar(v - 1)
			}
			e = []Expression{AnyInExpr{v, in, e}, EveryInExpr{v, in, e}, AnyEveryInExpr{v, in, e}}[(i+k)%3]
			c.fields++
			c.loops++
		case (i+k)%3 == 0:
			e = NotExpr{e}
		case (i+k)%3 == 1:
			e = AndExpr{e, TrueExpr{}}
			c.ands++
		default:
			e = OrExpr{e}
			c.ors++
		}
	}
	c.depth = loops
	if loops > 1 {
		c.nested = loops - 1
	}
	u := func() int {
		x := vzU32()
		return int(x)
	}
	old := ExpressionStats{u(), u(), u(), u(), u(), u(), u()}
	st := old
	var err error
	p := vzPanics(func() { err = st.Scan(e) })
	vzAssert(p == "", "scanning panicked: "+p)
	vzAssert(err == nil, "scanning failed")
	vzAssert(st.NumLoops == old.NumLoops+c.loops, "loops")
	vzAssert(vzOr(st.NumNestedLoops == old.NumNestedLoops, loops > 1), "nested loops without one")
	vzAssert(st.MaxLoopDepth >= c.depth && st.MaxLoopDepth >= old.MaxLoopDepth, "depth of loops is too small")
	vzAssert(vzOr(st.MaxLoopDepth == old.MaxLoopDepth, st.MaxLoopDepth == c.depth), "depth of loops")
	vzAssert(st.NumAnds == old.NumAnds+c.ands, "ANDs")
	vzAssert(st.NumOrs == old.NumOrs+c.ors, "ORs")
	vzAssert(st.NumFields == old.NumFields+c.fields, "fields")
	vzAssert(st.NumValues == old.NumValues+c.values, "values")
	vzCover("counted")
}

var _ = vzReg("vz_C26_many", vz_C26_many)
