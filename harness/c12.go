package gojsonsm

// Escaped strings decode to the characters they denote.

//vz:bound strings of up to 3 (thorough: 4) pieces, each any unescaped byte, a two-character escape or a \u escape with arbitrary hexadecimal digits
//vz:cover plane0 pair unpaired
func vz_C12_string() {
	max := 3
	if vzThorough() {
		max = 4
	}
	n := vzChoice(max + 1)
	ps := []vz12Piece{}
	text := []byte{'"'}
	esc := false
	for i := 0; i < n; i++ {
		p := vz12Piece1()
		ps = append(ps, p)
		text = append(text, p.text...)
		esc = esc || p.code != -1
	}
	text = append(text, '"')
	var tk jsonTokenizer
	tk.Reset(text)
	t, data, l, err := tk.Step()
	vzAssert(err == nil && l == len(text), "a string is not one token")
	vzAssert(t == tknString && !esc || t == tknEscString && esc, "a string is another kind of token")
	var p fastLitParser
	v := p.Parse(t, data)
	got, ok := v.AsString()
	want := vz12Decode(ps)
	vzObserve("text", got)
	vzAssert(ok && v.IsString(), "a string is not decoded as a string")
	vzAssert(len(got) == len(want), "a string decodes to a text of another length")
	for i := range want {
		vzAssert(got[i] == want[i], "a string decodes to another text")
	}
}

var vz12Lens = []int{0, 1, 2, 30, 61, 62, 63, 64, 65, 66, 130}

//vz:bound strings of lengths around the size of the parser's buffer, of one repeated arbitrary character, with an escape at the beginning, in the middle or at the end
//vz:cover long short
func vz_C12_long() {
	n := vz12Lens[vzChoice(len(vz12Lens))]
	at := []int{0, n / 2, n}[vzChoice(3)]
	c := vzU8()
	vzAssume(vzAnd(c >= 0x20, vzAnd(c != '"', c != '\\')))
	text := []byte{'"'}
	want := []byte{}
	for i := 0; i < n; i++ {
		if i == at {
			text = append(text, "\\u00e9"...)
			want = append(want, "\xc3\xa9"...)
		}
		text = append(text, c)
		want = append(want, c)
	}
	if at == n {
		text = append(text, "\\u00e9"...)
		want = append(want, "\xc3\xa9"...)
	}
	text = append(text, '"')
	if n > 60 {
		vzCover("long")
	} else {
		vzCover("short")
	}
	var p fastLitParser
	v := p.Parse(tknEscString, text)
	vzAssert(v.IsString() && len(v.sliceData) == len(want), "a long string decodes to a text of another length")
	for i := range want {
		vzAssert(v.sliceData[i] == want[i], "a long string decodes to another text")
	}
}

var _ = vzReg("vz_C12_string", vz_C12_string)
var _ = vzReg("vz_C12_long", vz_C12_long)
