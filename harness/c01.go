package gojsonsm

// Tokenizer against an independent definition of JSON tokens (RFC 8259).

func vz01IsDigit(c byte) bool { return c >= '0' && c <= '9' }
func vz01IsHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// vz01Lex gives kind, start and end of the token at or after p; kind -1 for
// text that starts no token, -2 for a token cut off by the end of the text.
func vz01Lex(d []byte, p int) (int, int, int) {
	for p < len(d) && (d[p] == ' ' || d[p] == '\n' || d[p] == '\t' || d[p] == '\r') {
		p++
	}
	if p == len(d) {
		return int(tknEnd), p, p
	}
	s := p
	c := d[p]
	one := tknUnknown
	switch c {
	case '{':
		one = tknObjectStart
	case '}':
		one = tknObjectEnd
	case '[':
		one = tknArrayStart
	case ']':
		one = tknArrayEnd
	case ':':
		one = tknObjectKeyDelim
	case ',':
		one = tknListDelim
	}
	if one != tknUnknown {
		return int(one), s, s + 1
	}
	word := func(w string, k tokenType) (int, int, int) {
		for i := 0; i < len(w); i++ {
			if s+i >= len(d) {
				return -2, s, s
			}
			if d[s+i] != w[i] {
				return -1, s, s
			}
		}
		return int(k), s, s + len(w)
	}
	switch c {
	case 't':
		return word("true", tknTrue)
	case 'f':
		return word("false", tknFalse)
	case 'n':
		return word("null", tknNull)
	case '"':
		esc := false
		p++
		for {
			if p >= len(d) {
				return -2, s, s
			}
			c := d[p]
			if c == '"' {
				if esc {
					return int(tknEscString), s, p + 1
				}
				return int(tknString), s, p + 1
			}
			if c < 0x20 {
				return -1, s, s
			}
			if c != '\\' {
				p++
				continue
			}
			esc = true
			p++
			if p >= len(d) {
				return -2, s, s
			}
			switch d[p] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				p++
			case 'u':
				p++
				for i := 0; i < 4; i++ {
					if p >= len(d) {
						return -2, s, s
					}
					if !vz01IsHex(d[p]) {
						return -1, s, s
					}
					p++
				}
			default:
				return -1, s, s
			}
		}
	}
	if c != '-' && !vz01IsDigit(c) {
		return -1, s, s
	}
	// -?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?
	kind := tknInteger
	if c == '-' {
		p++
		if p >= len(d) {
			return -2, s, s
		}
		if !vz01IsDigit(d[p]) {
			return -1, s, s
		}
	}
	if d[p] == '0' {
		p++
	} else {
		for p < len(d) && vz01IsDigit(d[p]) {
			p++
		}
	}
	digits := func() int {
		if p >= len(d) {
			return -2
		}
		if !vz01IsDigit(d[p]) {
			return -1
		}
		for p < len(d) && vz01IsDigit(d[p]) {
			p++
		}
		return 0
	}
	if p < len(d) && d[p] == '.' {
		kind = tknNumber
		p++
		if r := digits(); r < 0 {
			return r, s, s
		}
	}
	if p < len(d) && (d[p] == 'e' || d[p] == 'E') {
		kind = tknNumber
		p++
		if p < len(d) && (d[p] == '+' || d[p] == '-') {
			p++
		}
		if r := digits(); r < 0 {
			return r, s, s
		}
	}
	return int(kind), s, p
}

// vz01Step runs one step at position pos and compares; false at an error or the end.
func vz01Step(tok *jsonTokenizer, d []byte, pos int) bool {
	want, ws, we := vz01Lex(d, pos)
	t, data, n, err := tok.Step()
	if want < 0 {
		vzAssert(err != nil, "text that is no JSON token is refused")
		vzAssert(tok.Position() == pos, "a refused token leaves the position")
		return false
	}
	vzAssert(err == nil, "a JSON token is accepted")
	vzAssert(int(t) == want, "token kind")
	vzAssert(n == len(data), "token length")
	vzAssert(n == we-ws, "token extent")
	if want == int(tknEnd) {
		vzCover("end")
		return false
	}
	vzAssert(tok.Position() == we, "position after the token")
	same := true
	for i := 0; i < n; i++ {
		same = vzAnd(same, data[i] == d[ws+i])
	}
	vzAssert(same, "token bytes are the document's")
	vzObserve("token", int(t), data)
	switch t {
	case tknEscString:
		vzCover("esc")
	case tknNumber:
		vzCover("num")
	}
	return true
}

//vz:bound one token at the head of every byte string of length 0..10 (thorough 16); the tokenizer's behaviour depends only on the text from its position on
//vz:cover end esc num
func vz_C01_token() {
	max := 10
	if vzThorough() {
		max = 16
	}
	n := vzChoice(max + 1)
	d := vzBytes(n)
	var tok jsonTokenizer
	tok.Reset(d)
	vz01Step(&tok, d, 0)
}

//vz:bound the whole token sequence of every byte string of length 0..4 (thorough 5), with a seek back to a chosen earlier token
//vz:cover end
func vz_C01_stream() {
	max := 4
	if vzThorough() {
		max = 5
	}
	n := vzChoice(max + 1)
	d := vzBytes(n)
	var tok jsonTokenizer
	tok.Reset([]byte("[1,"))
	tok.Step()
	tok.Reset(d)
	var starts []int
	for {
		p := tok.Position()
		starts = append(starts, p)
		if !vz01Step(&tok, d, p) {
			break
		}
	}
	back := starts[vzChoice(len(starts))]
	tok.Seek(back)
	vzAssert(tok.Position() == back, "seek")
	vz01Step(&tok, d, back)
}

var _ = vzReg("vz_C01_token", vz_C01_token)
var _ = vzReg("vz_C01_stream", vz_C01_stream)

// vz01Pieces: a string's text of up to max pieces, and its possible endings.
func vz01Pieces(max int) []byte {
	d := []byte{'"'}
	n := vzChoice(max + 1)
	for i := 0; i < n; i++ {
		switch vzChoice(3) {
		case 0:
			c := vzU8()
			vzAssume(vzAnd(c != '"', c != '\\'))
			d = append(d, c)
		case 1:
			d = append(d, '\\', vzU8())
		default:
			d = append(d, '\\', 'u')
			if i == n-1 {
				d = append(d, vzBytes(4)...)
			} else {
				d = append(d, '0', vzU8(), 'a', 'F')
			}
		}
	}
	switch vzChoice(3) {
	case 0:
		d = append(d, '"')
	case 1:
		d = append(d, '"', vzU8())
	}
	return d
}

//vz:bound strings of up to 5 (thorough: 7) pieces, each any byte, a backslash with any byte or a \u escape with arbitrary bytes for digits; numbers of every form of up to 3 (thorough: 5) arbitrary digits in each part; up to 12 white space characters in front; then the end or any byte
//vz:cover end esc num
func vz_C01_long() {
	max, parts := 5, 3
	if vzThorough() {
		max, parts = 7, 5
	}
	var d []byte
	switch vzChoice(3) {
	case 0:
		d = vz01Pieces(max)
	case 1:
		if vzChoice(2) == 1 {
			d = append(d, '-')
		}
		digit := func(min byte) byte {
			c := vzU8()
			vzAssume(vzAnd(c >= min, c <= '9'))
			return c
		}
		if vzChoice(2) == 1 {
			d = append(d, '0')
		} else {
			d = append(d, digit('1'))
			for n := vzChoice(parts); n > 0; n-- {
				d = append(d, digit('0'))
			}
		}
		if vzChoice(2) == 1 {
			d = append(d, '.')
			for n := vzChoice(parts + 1); n > 0; n-- {
				d = append(d, digit('0'))
			}
		}
		if e := vzChoice(3); e > 0 {
			d = append(d, "eE"[e-1])
			if e := vzChoice(3); e > 0 {
				d = append(d, "+-"[e-1])
			}
			for n := vzChoice(parts + 1); n > 0; n-- {
				d = append(d, digit('0'))
			}
		}
		if vzChoice(2) == 1 {
			d = append(d, vzU8())
		}
	default:
		for n := vzChoice(13); n > 0; n-- {
			d = append(d, " \t\r\n"[vzU8()&3])
		}
		d = append(d, vzU8())
	}
	var tok jsonTokenizer
	tok.Reset(d)
	vz01Step(&tok, d, 0)
	if vzChoice(2) == 1 {
		vz01Step(&tok, d, tok.Position())
	}
}

//vz:bound strings, integers, fractions, exponents and white space of 9 to 40 (thorough: 270) characters of which the one at any (thorough: near either end or a power of two) position is any byte
//vz:cover esc num
func vz_C01_far() {
	var at, n int
	if vzThorough() {
		ns := []int{17, 33, 65, 130, 270}
		n = ns[vzChoice(len(ns))]
		ats := []int{1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, n - 3, n - 2, n - 1}
		at = ats[vzChoice(len(ats))]
		vzAssume(at < n)
	} else {
		ns := []int{9, 16, 33, 40}
		n = ns[vzChoice(len(ns))]
		at = 1 + vzChoice(n-1)
	}
	beg := []string{"\"", "1", "1.", "1e", "-1", "\"\\n", " "}[vzChoice(7)]
	d := []byte(beg)
	for len(d) < n {
		if beg[0] == ' ' {
			d = append(d, ' ')
		} else {
			d = append(d, '1')
		}
	}
	if beg[0] == '"' {
		d[n-1] = '"'
	}
	d = append(d, ',')
	d[at] = vzU8()
	var tok jsonTokenizer
	tok.Reset(d)
	vz01Step(&tok, d, 0)
}

var _ = vzReg("vz_C01_long", vz_C01_long)
var _ = vzReg("vz_C01_far", vz_C01_far)
