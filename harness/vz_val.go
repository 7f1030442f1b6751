package gojsonsm

import (
	"math"
	"time"
)

// Values of all kinds.

var vz09Time = []time.Time{time.Unix(1500000000, 0), time.Unix(1500000000, 0).UTC(), time.Unix(1500000001, 0)}

var vz09Floats = []float64{0, 1.5, -2, 7, 12, 1e10, 1e300}

// vzValue makes a value of kind k; small keeps numbers in a range whose decimal
// text is short.
func vzValue(k int, n int, small bool) FastVal {
	switch k {
	case 0:
		return NewMissingFastVal()
	case 1:
		return NewNullFastVal()
	case 2:
		return NewBoolFastVal(vzBool())
	case 3:
		x := int64(vzU64())
		if small {
			vzAssume(vzAnd(x > -100, x < 100))
		}
		return NewIntFastVal(x)
	case 4:
		x := vzU64()
		if small {
			vzAssume(x < 100)
		}
		return NewUintFastVal(x)
	case 5:
		if small {
			return NewFloatFastVal(vz09Floats[vzChoice(len(vz09Floats))])
		}
		return NewFloatFastVal(math.Float64frombits(vzU64()))
	case 6:
		return NewBinStringFastVal(vzText(n))
	case 7:
		return NewStringFastVal(string(vzText(n)))
	case 8:
		v, _ := NewStringFastVal(string(vzText(n))).ToJsonString()
		return v
	case 9:
		return NewArrayFastVal(vzBytes(vzChoice(n + 1)))
	case 10:
		return NewObjectFastVal(vzBytes(vzChoice(n + 1)))
	case 11:
		return NewTimeFastVal(&vz09Time[vzChoice(3)])
	}
	return NewInvalidFastVal()
}

func vz09Str(k int) bool { return k >= 6 && k <= 8 }

const vz09Kinds = 13

// vzText makes up to n bytes of printable ASCII.
func vzText(n int) []byte {
	b := vzBytes(vzChoice(n + 1))
	for _, c := range b {
		vzAssume(vzAnd(c >= 0x20, c < 0x7f))
	}
	return b
}

func vzCompare(a, b FastVal) (r int, ok bool, panicked string) {
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(vzStop); ok {
				panic(s)
			}
			panicked = "panic: " + vzPanicText(x)
		}
	}()
	r, ok = a.Compare(b)
	return
}

// vz10Num is a number and what it is made of.
type vz10Num struct {
	neg   bool
	mag   uint64 // integers: the absolute value
	float bool
	f     float64
}

func vz10Make(k int) (FastVal, vz10Num) {
	switch k {
	case 0:
		x := int64(vzU64())
		return NewIntFastVal(x), vz10Num{neg: x < 0, mag: vzIte(x < 0, uint64(-x), uint64(x)), f: float64(x)}
	case 1:
		x := vzU64()
		return NewUintFastVal(x), vz10Num{mag: x, f: float64(x)}
	}
	f := math.Float64frombits(vzU64())
	return NewFloatFastVal(f), vz10Num{float: true, f: f}
}
