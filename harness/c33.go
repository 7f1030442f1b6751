package gojsonsm

import "time"

// Constants of an expression given as Go values.

// vz33Number is a constant of one of the number types of Go, any value of it,
// and that value: negative, or the number itself.
func vz33Number() (val interface{}, neg bool, abs uint64) {
	x := vzU64()
	signed := func(i int64) (bool, uint64) {
		if i < 0 {
			return true, uint64(-i)
		}
		return false, uint64(i)
	}
	switch vzChoice(10) {
	case 0:
		val = int(x)
		neg, abs = signed(int64(x))
	case 1:
		vzAssume(x < 1<<8)
		i := int64(x) - 1<<7
		val = int8(i)
		neg, abs = signed(i)
	case 2:
		vzAssume(x < 1<<16)
		i := int64(x) - 1<<15
		val = int16(i)
		neg, abs = signed(i)
	case 3:
		vzAssume(x < 1<<32)
		i := int64(x) - 1<<31
		val = int32(i)
		neg, abs = signed(i)
	case 4:
		val = int64(x)
		neg, abs = signed(int64(x))
	case 5:
		val, abs = uint(x), x
	case 6:
		vzAssume(x < 1<<8)
		val, abs = uint8(x), x
	case 7:
		vzAssume(x < 1<<16)
		val, abs = uint16(x), x
	case 8:
		vzAssume(x < 1<<32)
		val, abs = uint32(x), x
	case 9:
		val, abs = x, x
	}
	return
}

func vz33Op(op int, l, r Expression) Expression {
	switch op {
	case 0:
		return EqualsExpr{l, r}
	case 1:
		return NotEqualsExpr{l, r}
	case 2:
		return LessThanExpr{l, r}
	case 3:
		return LessEqualsExpr{l, r}
	case 4:
		return GreaterThanExpr{l, r}
	}
	return GreaterEqualsExpr{l, r}
}

func vz33Want(op int, less, equal bool) bool {
	switch op {
	case 0:
		return equal
	case 1:
		return !equal
	case 2:
		return less
	case 3:
		return vzOr(less, equal)
	case 4:
		return !vzOr(less, equal)
	}
	return !less
}

func vz33Judge(op int, val interface{}, doc []byte, less, equal bool) {
	a := vzF("a")
	e := vz33Op(op, a, ValueExpr{val})
	want := vz33Want(op, less, equal)
	if vzChoice(2) == 1 { // the constant on the left
		e = vz33Op(op, ValueExpr{val}, a)
		want = vz33Want(op, vzAnd(!less, !equal), equal)
	}
	d := vzCompile(e)
	got, err, p := vzMatch(NewFastMatcher(d.def), doc)
	vzAssert(p == "", "Match panicked: "+p)
	vzAssert(err == nil, "matching failed")
	vzAssert(got == want, "wrong verdict")
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

//vz:bound constants of the 10 whole number types of Go, any value; a member of one or two digits (symbolic) with or without sign, or one of 18 numbers at the ends of the ranges of these types; six operators, the constant on either side
//vz:cover matched unmatched
func vz_C33_whole() {
	val, neg, abs := vz33Number()
	ends := []string{"127", "128", "-128", "-129", "255", "256", "32768", "-32769", "65535", "65536", "2147483647", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615"}
	doc := []byte(`{"a":`)
	mneg, m := false, uint64(0)
	if k := vzChoice(len(ends) + 4); k < len(ends) {
		s := ends[k]
		doc = append(doc, s...)
		if s[0] == '-' {
			mneg = true
			s = s[1:]
		}
		for _, c := range []byte(s) {
			m = m*10 + uint64(c-'0')
		}
	} else {
		k -= len(ends)
		if mneg = k%2 == 1; mneg {
			doc = append(doc, '-')
		}
		for i := 0; i <= k/2; i++ {
			d := vzDigit()
			vzAssume(vzOr(i > 0 || k/2 == 0, d > 0))
			m = m*10 + uint64(d)
			doc = append(doc, byte('0'+d))
		}
		if m == 0 {
			mneg = false
		}
	}
	doc = append(doc, '}')
	var less, equal bool
	if mneg != neg {
		less = mneg
	} else {
		equal = m == abs
		if less = m < abs; neg {
			less = m > abs
		}
	}
	vz33Judge(vzChoice(6), val, doc, less, equal)
}

var _ = vzReg("vz_C33_whole", vz_C33_whole)

//vz:bound constants float32 and float64 (6 values each), true, false, nil, texts of up to 3 letters (symbolic), points in time, against members of the same kind (symbolic digits and letters); six operators, the constant on either side
//vz:cover matched unmatched
func vz_C33_others() {
	op := vzChoice(6)
	d := vzDigit()
	doc := []byte(`{"a":`)
	switch vzChoice(5) {
	case 0:
		k, neg := vzChoice(6), vzChoice(2) == 1
		f := []float64{0, 0.5, 1, 2.25, 16777216, 0.1}[k]
		quarter := []int64{0, 2, 4, 9, 67108864, -1}[k] // four times
		if neg {
			doc = append(doc, '-')
			d = -d
		}
		doc = append(doc, byte('0'+vzAbs(d)), '}')
		var val interface{} = f
		if vzChoice(2) == 1 {
			val = float32(f)
		}
		if quarter < 0 {
			vz33Judge(op, val, doc, d <= 0, false)
		} else {
			vz33Judge(op, val, doc, 4*d < quarter, 4*d == quarter)
		}
	case 1:
		x, y := vzChoice(2), vzChoice(2)
		doc = append(append(doc, []string{"false", "true"}[x]...), '}')
		vz33Judge(op, y == 1, doc, x < y, x == y)
	case 2:
		doc = append(doc, "null}"...)
		vz33Judge(op, nil, doc, false, true)
	case 3:
		s, t := vzLetters(vzChoice(4)), vzLetters(vzChoice(4))
		doc = append(append(append(doc, '"'), t...), '"', '}')
		less, equal := len(t) < len(s), len(t) == len(s)
		for i := 0; i < len(s) && i < len(t); i++ {
			if s[i] != t[i] {
				less, equal = t[i] < s[i], false
				break
			}
		}
		vz33Judge(op, string(s), doc, less, equal)
	case 4:
		tm := time.Date(2018, 1, 5, 0, 0, 0, 0, time.UTC)
		vzAssume(d > 0)
		doc = append(append(doc, `"2018-01-0`...), byte('0'+d), '"', '}')
		vz33Judge(op, &tm, doc, d < 5, d == 5)
	}
}

func vzAbs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

var _ = vzReg("vz_C33_others", vz_C33_others)
