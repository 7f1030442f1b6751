package gojsonsm

// Texts of JSON strings, piece by piece.

// vz12Piece is a part of the text of a JSON string.
type vz12Piece struct {
	text []byte
	code int // >= 0: the value of a \u escape
}

func vz12Hex() (byte, int) {
	c := vzU8()
	d := vzAnd(c >= '0', c <= '9')
	h := vzAnd(c|0x20 >= 'a', c|0x20 <= 'f')
	vzAssume(vzOr(d, h))
	return c, int(vzIte(d, uint64(c-'0'), uint64((c|0x20)-'a'+10)))
}

func vz12Piece1() vz12Piece {
	switch vzChoice(3) {
	case 0:
		c := vzU8()
		vzAssume(vzAnd(c >= 0x20, vzAnd(c != '"', c != '\\')))
		return vz12Piece{[]byte{c}, -1}
	case 1:
		k := vzChoice(8)
		return vz12Piece{[]byte{'\\', "\"\\/bfnrt"[k]}, -2 - int("\"\\/\b\f\n\r\t"[k])}
	}
	t := []byte{'\\', 'u'}
	v := 0
	for i := 0; i < 4; i++ {
		c, x := vz12Hex()
		t = append(t, c)
		v = v<<4 | x
	}
	return vz12Piece{t, v}
}

func vz12UTF8(out []byte, r int) []byte {
	switch {
	case r < 0x80:
		return append(out, byte(r))
	case r < 0x800:
		return append(out, 0xc0|byte(r>>6), 0x80|byte(r&0x3f))
	case r < 0x10000:
		return append(out, 0xe0|byte(r>>12), 0x80|byte(r>>6&0x3f), 0x80|byte(r&0x3f))
	}
	return append(out, 0xf0|byte(r>>18), 0x80|byte(r>>12&0x3f), 0x80|byte(r>>6&0x3f), 0x80|byte(r&0x3f))
}

// vz12Decode is what the pieces denote.
func vz12Decode(ps []vz12Piece) []byte {
	out := []byte{}
	for i := 0; i < len(ps); i++ {
		p := ps[i]
		switch {
		case p.code == -1:
			out = append(out, p.text...)
		case p.code < 0:
			out = append(out, byte(-2-p.code))
		case p.code < 0xd800 || p.code > 0xdfff:
			vzCover("plane0")
			out = vz12UTF8(out, p.code)
		case p.code < 0xdc00 && i+1 < len(ps) && ps[i+1].code >= 0xdc00 && ps[i+1].code <= 0xdfff:
			vzCover("pair")
			out = vz12UTF8(out, 0x10000+(p.code-0xd800)*0x400+ps[i+1].code-0xdc00)
			i++
		default:
			vzCover("unpaired")
			out = vz12UTF8(out, 0xfffd)
		}
	}
	return out
}

// vz12Quote puts pieces between quotes.
func vz12Quote(ps []vz12Piece) []byte {
	t := []byte{'"'}
	for _, p := range ps {
		t = append(t, p.text...)
	}
	return append(t, '"')
}

func vz12Pieces(n int) []vz12Piece {
	ps := []vz12Piece{}
	for i := 0; i < n; i++ {
		ps = append(ps, vz12Piece1())
	}
	return ps
}

// vz11Order is the order of two texts by their bytes: -1, 0 or 1.
func vz11Order(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

var vz11Ops = []func(a, b Expression) Expression{
	func(a, b Expression) Expression { return EqualsExpr{a, b} },
	func(a, b Expression) Expression { return NotEqualsExpr{a, b} },
	func(a, b Expression) Expression { return LessThanExpr{a, b} },
	func(a, b Expression) Expression { return LessEqualsExpr{a, b} },
	func(a, b Expression) Expression { return GreaterThanExpr{a, b} },
	func(a, b Expression) Expression { return GreaterEqualsExpr{a, b} },
}

// vz11Holds is what operator op says of an order.
func vz11Holds(op, r int) bool {
	switch op {
	case 0:
		return r == 0
	case 1:
		return r != 0
	case 2:
		return r < 0
	case 3:
		return r <= 0
	case 4:
		return r > 0
	}
	return r >= 0
}
