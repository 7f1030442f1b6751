package gojsonsm

import (
	"math"
	"strconv"
)

// Numeric literals decode to the number they denote.

func vz14Digits(n int) []byte {
	b := vzBytes(n)
	for _, c := range b {
		vzAssume(vzAnd(c >= '0', c <= '9'))
	}
	return b
}

// vz14Decode tokenizes text, which is one literal, and decodes it.
func vz14Decode(text []byte) FastVal {
	var tk jsonTokenizer
	tk.Reset(text)
	t, data, n, err := tk.Step()
	vzAssert(err == nil && n == len(text), "a number is not one token")
	vzAssert(t == tknInteger || t == tknNumber, "a number is another kind of token")
	var p fastLitParser
	return p.Parse(t, data)
}

// vz14Int checks that an integer literal has the value (-1)^neg * mag, mag
// being unknown when it does not fit 64 bits.
func vz14Int(v FastVal, neg bool, mag uint64, fits bool) {
	vzObserve("val", int(v.dataType), v.GetUint())
	switch {
	case fits && !neg && mag > 1<<63-1:
		vzCover("unsigned")
		u, ok := v.AsUint()
		vzAssert(v.IsUInt() && ok && u == mag, "an integer between 2^63 and 2^64 decodes to another number")
	case fits && (!neg || mag <= 1<<63):
		vzCover("signed")
		i, ok := v.AsInt()
		w := mag
		if neg {
			w = -mag
		}
		vzAssert(v.IsIntegral() && ok && uint64(i) == w, "an integer decodes to another number")
	default:
		vzCover("float")
		f, ok := v.AsFloat()
		vzAssert(v.IsFloat() && ok, "an integer beyond 64 bits is not decoded as a float")
		if neg {
			vzAssert(vzAnd(f <= -9223372036854775807, f >= -1e22), "an integer beyond 64 bits decodes to another number")
		} else {
			vzAssert(vzAnd(f >= 18446744073709551615, f <= 1e22), "an integer beyond 64 bits decodes to another number")
		}
	}
}

// vz14Value reads digits, telling whether the number fits 64 bits.
func vz14Value(d []byte) (v uint64, fits bool) {
	fits = true
	for _, c := range d {
		x := uint64(c - '0')
		if v > (1<<64-1-x)/10 {
			return 0, false
		}
		v = v*10 + x
	}
	return v, true
}

//vz:bound integers of 1 to 18 arbitrary digits (no leading zero), with and without sign
//vz:cover signed
func vz_C14_int() {
	d := vz14Digits(1 + vzChoice(18))
	if len(d) > 1 {
		vzAssume(d[0] != '0')
	}
	neg := vzChoice(2) == 1
	text := d
	if neg {
		text = append([]byte{'-'}, d...)
	}
	v := vz14Decode(text)
	mag := uint64(0)
	for _, c := range d {
		mag = mag*10 + uint64(c-'0')
	}
	vz14Int(v, neg, mag, true)
}

var vz14Limits = []string{"922337203685477", "1844674407370955", "184467440737095516", "1000000000000000000", "9223372036854775", "99999999999999999"}

//vz:bound integers of 18 to 20 digits around the 64-bit limits: 6 beginnings continued by 1 to 3 (thorough: 4) arbitrary digits, with and without sign, as long as they fit 64 bits
//vz:cover signed unsigned
func vz_C14_limits() {
	pre := vz14Limits[vzChoice(len(vz14Limits))]
	max := 3
	if vzThorough() {
		max = 4
	}
	n := 1 + vzChoice(max)
	if len(pre)+n > 20 {
		return
	}
	d := append([]byte(pre), vz14Digits(n)...)
	neg := vzChoice(2) == 1
	text := d
	if neg {
		text = append([]byte{'-'}, d...)
	}
	mag, fits := vz14Value(d)
	if !fits || neg && mag > 1<<63 {
		return
	}
	vz14Int(vz14Decode(text), neg, mag, fits)
}

var vz14Big = []string{"1844674407370955161", "1844674407370955162", "922337203685477580", "9999999999999999999", "18446744073709551615", "100000000000000000000"}

//vz:bound integers that do not fit 64 bits: 6 beginnings of 18 to 21 digits continued by one arbitrary digit, with and without sign
//vz:cover float
func vz_C14_big() {
	d := append([]byte(vz14Big[vzChoice(len(vz14Big))]), byte('0'+vzChoice(10)))
	text := d
	neg := vzChoice(2) == 1
	if neg {
		text = append([]byte{'-'}, d...)
	}
	mag, fits := vz14Value(d)
	vz14Int(vz14Decode(text), neg, mag, fits)
}

var vz14Pow = []float64{1, 10, 100, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10}

//vz:bound numbers with up to 5 (thorough: 8) digits, a decimal point after any of them and optionally an exponent of -2, +2, 3 or 0
//vz:cover point exponent
func vz_C14_float() {
	max := 5
	if vzThorough() {
		max = 8
	}
	n := 1 + vzChoice(max)
	point := vzChoice(n) // digits after the point
	exp := vzChoice(5)
	if point == 0 && exp == 0 {
		return
	}
	d := vz14Digits(n)
	if n-point > 1 {
		vzAssume(d[0] != '0')
	}
	neg := vzChoice(2) == 1
	text := []byte{}
	if neg {
		text = append(text, '-')
	}
	text = append(text, d[:n-point]...)
	if point > 0 {
		vzCover("point")
		text = append(text, '.')
		text = append(text, d[n-point:]...)
	}
	e := []int{0, -2, 2, 3, 0}[exp]
	if exp > 0 {
		vzCover("exponent")
		text = append(text, []string{"", "e-2", "E+2", "e3", "e0"}[exp]...)
	}
	v := vz14Decode(text)
	vzAssert(v.IsFloat(), "a number with fraction or exponent is not decoded as a float")
	f, _ := v.AsFloat()
	vzObserve("f", f)
	mag, _ := vz14Value(d)
	w := float64(mag)
	if e > point {
		w = w * vz14Pow[e-point]
	} else if e < point {
		w = w / vz14Pow[point-e]
	}
	if neg {
		w = -w
	}
	vzAssert(f == w, "a number decodes to another one")
}

//vz:bound numbers of one or two digits with any exponent of +-400 to +-999, which lie beyond the floats, with and without sign and point
//vz:cover huge tiny
func vz_C14_beyond() {
	text := []byte{}
	neg := vzChoice(2) == 1
	if neg {
		text = append(text, '-')
	}
	m := vz14Digits(1)
	vzAssume(m[0] != '0')
	text = append(text, m...)
	if vzChoice(2) == 1 {
		text = append(text, '.')
		text = append(text, vz14Digits(1)...)
	}
	e := vz14Digits(3)
	vzAssume(e[0] >= '4')
	sign := vzChoice(3)
	text = append(text, []string{"e", "E+", "e-"}[sign]...)
	text = append(text, e...)
	v := vz14Decode(text)
	vzAssert(v.IsFloat(), "a number with fraction or exponent is not decoded as a float")
	f, _ := v.AsFloat()
	vzObserve("f", f)
	w := 0.0
	if sign == 2 {
		vzCover("tiny")
	} else {
		vzCover("huge")
		w = math.Inf(1)
		if neg {
			w = math.Inf(-1)
		}
	}
	vzAssert(f == w, "a number beyond the floats decodes to another one")
}

var vz14Edges = []string{"1.7976931348623157e30", "1.797693134862315", "4.9406564584124654e-32", "2.4703282292062327e-32", "2.2250738585072014e-30", "0.1000000000000000055511151231257827", "9007199254740993.", "123456789012345678901234567890.", "1e2", "5e-32", "0.00000000000000000000000000000000000000000000000000"}

//vz:bound 11 beginnings of numbers (around the greatest and smallest floats, ties, more than 19 digits) continued by any one or two digits, with and without sign, against the standard library
//vz:cover edge
func vz_C14_edges() {
	text := []byte(vz14Edges[vzChoice(len(vz14Edges))])
	for n := 1 + vzChoice(2); n > 0; n-- {
		text = append(text, byte('0'+vzChoice(10)))
	}
	if vzChoice(2) == 1 {
		text = append([]byte{'-'}, text...)
	}
	v := vz14Decode(text)
	vzAssert(v.IsFloat(), "a number with fraction or exponent is not decoded as a float")
	f, _ := v.AsFloat()
	w, _ := strconv.ParseFloat(string(text), 64)
	vzCover("edge")
	vzAssert(f == w, "a number decodes to another one")
}

var _ = vzReg("vz_C14_int", vz_C14_int)
var _ = vzReg("vz_C14_limits", vz_C14_limits)
var _ = vzReg("vz_C14_big", vz_C14_big)
var _ = vzReg("vz_C14_float", vz_C14_float)
var _ = vzReg("vz_C14_beyond", vz_C14_beyond)
var _ = vzReg("vz_C14_edges", vz_C14_edges)
