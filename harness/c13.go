package gojsonsm

import "math"

// Arithmetic on values.

var vz13Ops = []func(a, b FastVal) FastVal{FastValMathAdd, FastValMathSub, FastValMathMul, FastValMathDiv, FastValMathMod}

// vz13Int is the exact result of op, unless it does not fit 64 bits.
func vz13Int(op int, a, b vz10Num) (neg bool, mag uint64, fits bool) {
	bneg := b.neg
	switch op {
	case 1:
		bneg = !bneg
		fallthrough
	case 0:
		if a.neg == bneg {
			neg, mag = a.neg, a.mag+b.mag
			if mag < a.mag {
				return neg, 0, false
			}
		} else if a.mag >= b.mag {
			neg, mag = a.neg, a.mag-b.mag
		} else {
			neg, mag = bneg, b.mag-a.mag
		}
	case 2:
		if b.mag != 0 && a.mag > math.MaxUint64/b.mag {
			return false, 0, false
		}
		neg, mag = a.neg != b.neg, a.mag*b.mag
	case 3:
		neg, mag = a.neg != b.neg, a.mag/b.mag
	case 4:
		neg, mag = a.neg, a.mag%b.mag
	}
	if mag == 0 {
		neg = false
	}
	return neg, mag, !neg || mag <= 1<<63
}

// vz13IsInt checks that v is the given integer.
func vz13IsInt(v FastVal, neg bool, mag uint64) bool {
	if v.IsUInt() {
		u, ok := v.AsUint()
		return vzAnd(ok, vzAnd(!neg, u == mag))
	}
	if !v.IsInt() {
		return false
	}
	i, ok := v.AsInt()
	if neg {
		return vzAnd(ok, vzAnd(i < 0, uint64(-i) == mag))
	}
	return vzAnd(ok, vzAnd(i >= 0, uint64(i) == mag))
}

func vz13IsFloat(v FastVal, w float64) bool {
	if !v.IsFloat() {
		return false
	}
	f, ok := v.AsFloat()
	return vzAnd(ok, vzOr(f == w, vzAnd(f != f, w != w)))
}

func vz13Float(op int, x, y float64) float64 {
	switch op {
	case 0:
		return x + y
	case 1:
		return x - y
	case 2:
		return x * y
	}
	return x / y
}

func vz13Apply(f func(a, b FastVal) FastVal, a, b FastVal) (r FastVal, panicked string) {
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(vzStop); ok {
				panic(s)
			}
			panicked = "panic: " + vzPanicText(x)
		}
	}()
	r = f(a, b)
	return
}

func vz13Invalid(v FastVal) bool { return v.Type() == InvalidValue }

func vz13Check(op int, a, b FastVal, x, y vz10Num) {
	r, p := vz13Apply(vz13Ops[op], a, b)
	vzAssert(p == "", "arithmetic panics: "+p)
	switch {
	case x.float || y.float:
		vzCover("float")
		if op == 4 {
			vzAssert(vz13Invalid(r), "a remainder of floats is a number")
			return
		}
		if !x.float && op == 3 {
			// an integer by a float
			vzCover("mixed")
		}
		vzAssert(vz13IsFloat(r, vz13Float(op, x.f, y.f)), "wrong result of floating point arithmetic")
	case op >= 3 && y.mag == 0:
		vzCover("zero")
		vzAssert(vz13Invalid(r), "a division by zero has a result")
	default:
		neg, mag, fits := vz13Int(op, x, y)
		if fits {
			vzCover("exact")
			vzAssert(vz13IsInt(r, neg, mag), "wrong result of integer arithmetic")
		} else {
			vzCover("large")
			vzAssert(vz13IsFloat(r, vz13Float(op, x.f, y.f)), "the result of integer arithmetic beyond 64 bits is not the sum, difference or product as a float")
		}
	}
}

//vz:bound sum and difference of all pairs of 64-bit signed, unsigned and floating point numbers
//vz:cover exact large float
func vz_C13_sum() {
	a, x := vz10Make(vzChoice(3))
	b, y := vz10Make(vzChoice(3))
	vz13Check(vzChoice(2), a, b, x, y)
}

var vz13Consts = []uint64{0, 1, 2, 3, 10, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2, 1<<64 - 1<<31}

func vz13Const(k int) (FastVal, vz10Num) {
	c := vz13Consts[vzChoice(len(vz13Consts))]
	if k == 0 {
		x := int64(c)
		n := vz10Num{neg: x < 0, mag: c, f: float64(x)}
		if x < 0 {
			n.mag = -c
		}
		return NewIntFastVal(x), n
	}
	return NewUintFastVal(c), vz10Num{mag: c, f: float64(c)}
}

//vz:bound product, quotient and remainder of all 64-bit integers with 12 integers around the limits (0, 1, 2, 3, 10, 2^31, 2^32, 2^63-1, 2^63, 2^64-1, -1, -2, ...), in either order
//vz:cover exact large zero
func vz_C13_product() {
	a, x := vz10Make(vzChoice(2))
	b, y := vz13Const(vzChoice(2))
	op := 2 + vzChoice(3)
	if vzBool() {
		a, x, b, y = b, y, a, x
	}
	vz13Check(op, a, b, x, y)
}

func vz13Small() (FastVal, vz10Num) {
	mag := uint64(vzU16())
	if vzThorough() {
		mag = uint64(vzU32() >> 8)
	}
	switch vzChoice(3) {
	case 0:
		return NewIntFastVal(int64(mag)), vz10Num{mag: mag}
	case 1:
		return NewIntFastVal(-int64(mag)), vz10Num{neg: mag != 0, mag: mag}
	}
	return NewUintFastVal(mag), vz10Num{mag: mag}
}

//vz:bound product, quotient and remainder of all pairs of integers of 16 (thorough: 24) bits and sign
//vz:cover exact zero
func vz_C13_small() {
	a, x := vz13Small()
	b, y := vz13Small()
	vz13Check(2+vzChoice(3), a, b, x, y)
}

//vz:bound product and quotient of all floats with each other and with all 64-bit integers; their remainder
//vz:cover float mixed
func vz_C13_float() {
	k := vzChoice(3)
	a, x := vz10Make(k)
	l := 2
	if k == 2 {
		l = vzChoice(3)
	}
	b, y := vz10Make(l)
	vz13Check(2+vzChoice(3), a, b, x, y)
}

func vz13Apply1(f func(a FastVal) FastVal, a FastVal) (r FastVal, panicked string) {
	return vz13Apply(func(a, b FastVal) FastVal { return f(a) }, a, a)
}

var vz13Unary = []func(a FastVal) FastVal{FastValMathNeg, FastValMathAbs, FastValMathRound, FastValMathCeil, FastValMathFloor, FastValMathSqrt}

//vz:bound negation, absolute value, rounding, ceiling, floor and square root of every 64-bit signed, unsigned and floating point number
//vz:cover exact large float
func vz_C13_unary() {
	a, x := vz10Make(vzChoice(3))
	op := vzChoice(len(vz13Unary))
	r, p := vz13Apply1(vz13Unary[op], a)
	vzAssert(p == "", "arithmetic panics: "+p)
	if !x.float && op <= 2 {
		neg := x.neg
		switch op {
		case 0:
			neg = !neg
		case 1:
			neg = false
		}
		if x.mag == 0 {
			neg = false
		}
		if neg && x.mag > 1<<63 {
			vzCover("large")
			vzAssert(vz13IsFloat(r, -x.f), "wrong negation of a large number")
			return
		}
		vzCover("exact")
		vzAssert(vz13IsInt(r, neg, x.mag), "wrong negation, absolute value or rounding of an integer")
		return
	}
	vzCover("float")
	w := x.f
	switch op {
	case 0:
		w = -w
	case 1:
		w = math.Abs(w)
	case 2:
		w = math.Round(w)
	case 3:
		w = math.Ceil(w)
	case 4:
		w = math.Floor(w)
	case 5:
		w = math.Sqrt(w)
	}
	vzAssert(vz13IsFloat(r, w), "wrong result of a function of a float")
}

//vz:bound all functions of one and two operands applied to every combination of the 13 kinds of values with arbitrary contents where an operand is no number
//vz:cover one two
func vz_C13_kinds() {
	k := vzChoice(vz09Kinds)
	num := k >= 3 && k <= 5
	a := vzValue(k, 2, false)
	if vzBool() {
		vzCover("one")
		if num {
			return
		}
		fs := []func(a FastVal) FastVal{FastValMathNeg, FastValMathAbs, FastValMathRound, FastValMathCeil, FastValMathFloor, FastValMathSqrt, FastValMathAcos, FastValMathAsin, FastValMathAtan, FastValMathCos, FastValMathSin, FastValMathTan, FastValMathExp, FastValMathLn, FastValMathLog, FastValMathDegrees, FastValMathRadians}
		r, p := vz13Apply1(fs[vzChoice(len(fs))], a)
		vzAssert(p == "", "arithmetic panics: "+p)
		vzAssert(vz13Invalid(r), "a function of something that is no number has a result")
		return
	}
	vzCover("two")
	l := vzChoice(vz09Kinds)
	if num && l >= 3 && l <= 5 {
		return
	}
	b := vzValue(l, 2, false)
	fs := append([]func(a, b FastVal) FastVal{FastValMathPow, FastValMathAtan2}, vz13Ops...)
	r, p := vz13Apply(fs[vzChoice(len(fs))], a, b)
	vzAssert(p == "", "arithmetic panics: "+p)
	vzAssert(vz13Invalid(r), "arithmetic with something that is no number has a result")
}

var vz13Inputs = []float64{0.25, 1, 2.5, 0, -0.5}

var vz13Names1 = []string{"mathAbs", "mathAcos", "mathAsin", "mathAtan", "mathCeil", "mathCos", "mathDegrees", "mathExp", "mathFloor", "mathLog", "mathLn", "mathRadians", "mathRound", "mathSin", "mathSqrt", "mathTan", "mathNegate"}

func vz13Ref1(i int, x float64) float64 {
	switch i {
	case 0:
		return math.Abs(x)
	case 1:
		return math.Acos(x)
	case 2:
		return math.Asin(x)
	case 3:
		return math.Atan(x)
	case 4:
		return math.Ceil(x)
	case 5:
		return math.Cos(x)
	case 6:
		return x * 180 / math.Pi
	case 7:
		return math.Exp(x)
	case 8:
		return math.Floor(x)
	case 9:
		return math.Log10(x)
	case 10:
		return math.Log(x)
	case 11:
		return x * math.Pi / 180
	case 12:
		return math.Round(x)
	case 13:
		return math.Sin(x)
	case 14:
		return math.Sqrt(x)
	case 15:
		return math.Tan(x)
	}
	return -x
}

var vz13Texts = []string{"0.25", "1.0", "2.5", "0.0", "-0.5"}

//vz:bound every one-operand function by name, applied by a matcher to a member with each of 5 floats
//vz:cover number nan
func vz_C13_names1() {
	i, j := vzChoice(len(vz13Names1)), vzChoice(len(vz13Inputs))
	w := vz13Ref1(i, vz13Inputs[j])
	doc := []byte(`{"a":` + vz13Texts[j] + `}`)
	f := FuncExpr{vz13Names1[i], []Expression{vzF("a")}}
	vz13Result(f, doc, w)
}

// vz13Result checks that f has the value w for doc.
func vz13Result(f Expression, doc []byte, w float64) {
	eq, err, p := vzMatch(vzMatcher(EqualsExpr{f, ValueExpr{w}}), doc)
	vzAssert(p == "" && err == nil, "computing a function fails "+p)
	lt, err, p := vzMatch(vzMatcher(LessThanExpr{f, ValueExpr{w - 1e-3}}), doc)
	vzAssert(p == "" && err == nil, "computing a function fails "+p)
	gt, err, p := vzMatch(vzMatcher(GreaterThanExpr{f, ValueExpr{w + 1e-3}}), doc)
	vzAssert(p == "" && err == nil, "computing a function fails "+p)
	if w != w {
		vzCover("nan")
		vzAssert(!eq && !lt && !gt, "a function without a value equals something")
		return
	}
	vzCover("number")
	vzAssert(eq && !lt && !gt, "a function has another value")
}

var vz13Names2 = []string{"mathAdd", "mathSubract", "mathMultiply", "mathDivide", "mathModulo", "mathPow", "mathAtan2"}

//vz:bound every two-operand function by name, applied by a matcher to two members, to a member and a constant either way round, and nested
//vz:cover number
func vz_C13_names2() {
	i := vzChoice(len(vz13Names2))
	xs := []int{7, 2, -7, 3}
	x, y := xs[vzChoice(4)], xs[vzChoice(4)]
	texts := []string{"7", "2", "-7", "3"}
	tx, ty := "", ""
	for k, v := range xs {
		if v == x {
			tx = texts[k]
		}
		if v == y {
			ty = texts[k]
		}
	}
	doc := []byte(`{"a":` + tx + `,"b":` + ty + `}`)
	var pa, pb Expression = vzF("a"), vzF("b")
	switch vzChoice(4) {
	case 1:
		pa = ValueExpr{x}
	case 2:
		pb = ValueExpr{y}
	case 3:
		pb = FuncExpr{"mathNegate", []Expression{FuncExpr{"mathNegate", []Expression{pb}}}}
	}
	w := 0.0
	switch i {
	case 0:
		w = float64(x + y)
	case 1:
		w = float64(x - y)
	case 2:
		w = float64(x * y)
	case 3:
		w = float64(x / y)
	case 4:
		w = float64(x % y)
	case 5:
		w = math.Pow(float64(x), float64(y))
	case 6:
		w = math.Atan2(float64(x), float64(y))
	}
	vz13Result(FuncExpr{vz13Names2[i], []Expression{pa, pb}}, doc, w)
}

var _ = vzReg("vz_C13_sum", vz_C13_sum)
var _ = vzReg("vz_C13_product", vz_C13_product)
var _ = vzReg("vz_C13_small", vz_C13_small)
var _ = vzReg("vz_C13_float", vz_C13_float)
var _ = vzReg("vz_C13_unary", vz_C13_unary)
var _ = vzReg("vz_C13_kinds", vz_C13_kinds)
var _ = vzReg("vz_C13_names1", vz_C13_names1)
var _ = vzReg("vz_C13_names2", vz_C13_names2)
