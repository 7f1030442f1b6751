package gojsonsm

import "bytes"

// Removing members from arbitrary bytes, with any size of destination.

func vz16Check(src []byte, size int, names []string) {
	const guard = 4
	keep := append([]byte{}, src...)
	buf := make([]byte, size+guard)
	for i := range buf {
		buf[i] = 0xEE
	}
	removed := map[string][]byte{}
	n, cnt, left, err, p := vz15Run(src, names, buf[:size], removed)
	vzAssert(p == "", "removing panicked: "+p)
	vzObserve("r", n, cnt, left, err == nil)
	vzAssert(bytes.Equal(src, keep), "removing altered the source")
	for i := size; i < len(buf); i++ {
		vzAssert(buf[i] == 0xEE, "removing wrote behind the destination")
	}
	if err != nil {
		vzCover("error")
		vzAssert(n == 0 && cnt == 0 && !left, "an error comes with a result")
		return
	}
	vzCover("ok")
	vzAssert(n >= 2 && n <= size, "length outside the destination")
	vzAssert(n <= len(src), "the remaining object is longer than the source")
	vzAssert(buf[0] == '{', "the remaining object does not start with a brace")
	vzAssert(buf[n-1] == '}', "the remaining object does not end with a brace")
	vzAssert(left == (n > 2), "wrong report whether members are left")
	if cnt == 0 {
		vzAssert(len(removed) == 0, "a removed value without a count")
	}
}

//vz:bound all byte sequences of up to 6 (thorough: 7) bytes after an opening brace; a destination of the same length
//vz:cover error ok
func vz_C16_bytes() {
	n := 6
	if vzThorough() {
		n = 7
	}
	n = vzChoice(n + 1)
	src := append([]byte{'{'}, vzBytes(n)...)
	vz16Check(src, len(src), []string{"a", "b"})
}

var vz16Starts = []string{`{"a":`, `{"a":[`, `{"b":1,"a":`, `{"c":{"a":"x"`, `{"c":["a",`, `{"c":"a",`, `{"c":[{"a":2`, `{"a":{"a":`, `{"c":`, `{"c":1,"`, `{"a"`, `{"c"`}

//vz:bound 12 beginnings of an object followed by up to 4 (thorough: 5) arbitrary bytes and any of "", "}", "]}", ":1}", ":1,}"; a destination of the same length
//vz:cover error ok
func vz_C16_tails() {
	n := 4
	if vzThorough() {
		n = 5
	}
	src := []byte(vz16Starts[vzChoice(len(vz16Starts))])
	src = append(src, vzBytes(vzChoice(n+1))...)
	src = append(src, []string{"", "}", "]}", ":1}", ":1,}"}[vzChoice(5)]...)
	vz16Check(src, len(src), []string{"a"})
}

//vz:bound objects of up to 3 (thorough: 4) values nested up to 3 deep; destinations of every size from 0 to the length of the text
//vz:cover error ok
func vz_C16_short() {
	names := vz15Lists[vzChoice(len(vz15Lists))]
	g := &vzGen{nodes: 3, keys: []string{"a", "b"}, extra: 4, elems: 2}
	if vzThorough() {
		g.nodes = 4
	}
	root := g.object(3)
	src := root.render(nil, "")
	size := vzChoice(len(src) + 1)
	r := &vz15Rem{names: names, last: map[string][]byte{}}
	want := r.without(root, "").render(nil, "")
	vz16Check(src, size, names)
	dst := make([]byte, size)
	n, _, _, err, _ := vz15Run(src, names, dst, nil)
	if err == nil {
		vzAssert(n == len(want) && bytes.Equal(dst[:n], want), "wrong remaining object")
	} else {
		vzAssert(size < len(src), "removing failed with a destination as long as the source")
		vzAssert(err == ErrInsufficientMemory, "a short destination is reported as something else")
		// one separator may be written before it is taken back
		vzAssert(size < len(want)+1, "the destination was long enough")
	}
}

var _ = vzReg("vz_C16_bytes", vz_C16_bytes)
var _ = vzReg("vz_C16_tails", vz_C16_tails)
var _ = vzReg("vz_C16_short", vz_C16_short)

//vz:bound objects of 3 to 17 members with values nested up to 12 deep, cut off after a byte (near either end or a power of two; thorough: every fourth) and continued by one arbitrary byte or by closing brackets, or with that byte replaced by any byte
//vz:cover error ok
func vz_C16_long() {
	n := []int{3, 9, 17}[vzChoice(3)]
	root := vzMany(n, -1, vzInt(1), false)
	root.vals[1] = vzDeep(12, vzChoice(3), &vzV{k: vzKStr, str: []byte("m1")})
	root.vals[2] = &vzV{k: vzKArr, vals: []*vzV{vzInt(1), {k: vzKStr, str: []byte("}]")}, vzMany(2, -1, vzInt(1), false)}}
	src := root.render(nil, "")
	names := [][]string{{"m1"}, {"m2", "m1", "m0"}, {"a"}, {"m0", "m2"}}[vzChoice(4)]
	at := vzPick(len(src))
	if vzThorough() {
		at = 4 * vzChoice(len(src)/4)
	}
	switch vzChoice(3) {
	case 0:
		src[at] = vzU8()
	case 1:
		src = append(src[:at:at], vzU8())
	case 2:
		src = append(src[:at:at], []string{"}", "]}", "}}}}}}}}", "\"}"}[vzChoice(4)]...)
	}
	vzAssume(len(src) > 0 && src[0] == '{')
	vz16Check(src, len(src), names)
}

var _ = vzReg("vz_C16_long", vz_C16_long)
