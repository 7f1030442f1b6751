package gojsonsm

import "math"

// Numbers compare by their mathematical value.

// vz10Cmp is the order of two numbers: integers exactly, otherwise as floats
// that are the same when closer than 1e-7.
func vz10Cmp(a, b vz10Num) (r int, valid bool) {
	if !a.float && !b.float {
		if a.neg != b.neg {
			if a.neg {
				return -1, true
			}
			return 1, true
		}
		if a.mag == b.mag {
			return 0, true
		}
		if (a.mag < b.mag) != a.neg {
			return -1, true
		}
		return 1, true
	}
	if a.f != a.f || b.f != b.f {
		return 0, false
	}
	if math.Abs(a.f-b.f) < 0.0000001 {
		return 0, true
	}
	if a.f < b.f {
		return -1, true
	}
	if a.f > b.f {
		return 1, true
	}
	return 0, true
}

//vz:bound all pairs of 64-bit signed, unsigned and floating point numbers, plain and with either one a constant of the expression
//vz:cover less greater same nan
func vz_C10_compare() {
	a, x := vz10Make(vzChoice(3))
	b, y := vz10Make(vzChoice(3))
	switch vzChoice(3) {
	case 1:
		a.userDefined = true
	case 2:
		b.userDefined = true
	}
	r, ok, p := vzCompare(a, b)
	vzAssert(p == "", "Compare panicked: "+p)
	vzObserve("cmp", r, ok)
	w, valid := vz10Cmp(x, y)
	vzAssert(ok == valid, "comparing two numbers is valid exactly when neither is NaN")
	eq, _ := a.Equals(b)
	vzAssert(eq == vzAnd(valid, w == 0), "wrong result of an equality of two numbers")
	if !valid {
		vzCover("nan")
		return
	}
	vzAssert(r == w, "wrong order of two numbers")
	if r < 0 {
		vzCover("less")
	} else if r > 0 {
		vzCover("greater")
	} else {
		vzCover("same")
	}
}

var _ = vzReg("vz_C10_compare", vz_C10_compare)
