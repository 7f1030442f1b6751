package gojsonsm

import "bytes"

// Removing members of an object against a reference on the tree.

func vz15Check(root *vzV, sp string, names []string) {
	src := root.render(nil, sp)
	keep := append([]byte{}, src...)
	dst := make([]byte, len(src))
	removed := map[string][]byte{}
	n, cnt, left, err, p := vz15Run(src, names, dst, removed)
	vzAssert(p == "", "removing panicked: "+p)
	vzObserve("r", n, cnt, left, err == nil)
	vzAssert(err == nil, "removing failed on a valid object")
	vzAssert(bytes.Equal(src, keep), "removing altered the source")
	r := &vz15Rem{names: names, last: map[string][]byte{}}
	want := r.without(root, sp).render(nil, "")
	vzAssert(n == len(want), "wrong length of the remaining object")
	vzAssert(bytes.Equal(dst[:n], want), "wrong remaining object")
	vzAssert(cnt == r.count, "wrong number of removed members")
	vzAssert(left == (len(want) > 2), "wrong report whether members are left")
	vzAssert(len(removed) == len(r.last), "wrong set of removed names")
	for k, x := range r.last {
		got, ok := removed[k]
		vzAssert(ok, "a removed name is not reported")
		if ok {
			vzAssert(bytes.Equal(bytes.TrimLeft(got, " \t\r\n"), x), "wrong text of a removed value")
		}
	}
	if r.count > 0 {
		vzCover("removed")
	} else {
		vzCover("nothing")
	}
}

//vz:bound objects of up to 4 (thorough: 5) values nested up to 3 deep: members a, b, integers, null, strings, booleans, arrays of up to 3, objects; 7 lists of names to remove, with duplicates and absent ones; compact text
//vz:cover removed nothing
func vz_C15_trees() {
	names := vz15Lists[vzChoice(len(vz15Lists))]
	g := &vzGen{nodes: 4, keys: []string{"a", "b"}, extra: 7, elems: 3}
	if vzThorough() {
		g.nodes = 5
	}
	vz15Check(g.object(3), "", names)
}

//vz:bound objects of up to 4 values with members a, b, abc: nested up to 3 deep; whitespace of one or two bytes between all tokens; 4 lists of names
//vz:cover removed nothing
func vz_C15_space() {
	sp := []string{" ", "\n\t", "\r "}[vzChoice(3)]
	names := [][]string{{"a"}, {"abc"}, {"b", "a"}, {"ab", "abc", "b"}}[vzChoice(4)]
	g := &vzGen{nodes: 3, keys: []string{"a", "b", "abc"}, extra: 4, elems: 2}
	if vzThorough() {
		g.nodes = 4
	}
	vz15Check(g.object(3), sp, names)
}

//vz:bound objects whose two members have names of two arbitrary letters, nested once; lists of one or two names of two arbitrary letters
//vz:cover removed nothing
func vz_C15_names() {
	k := func() string { return string(vzLetters(2)) }
	x := &vzV{k: vzKInt, num: 1}
	in := &vzV{k: vzKObj, keys: []string{k()}, vals: []*vzV{x}}
	root := &vzV{k: vzKObj, keys: []string{k(), k()}, vals: []*vzV{in, {k: vzKStr, str: vzLetters(1)}}}
	vzAssume(root.keys[0] != root.keys[1])
	names := []string{k()}
	if vzChoice(2) == 1 {
		names = append(names, k())
	}
	vz15Check(root, "", names)
}

var _ = vzReg("vz_C15_trees", vz_C15_trees)
var _ = vzReg("vz_C15_space", vz_C15_space)
var _ = vzReg("vz_C15_names", vz_C15_names)

//vz:bound objects of 7 to 33 (thorough: 65) members whose values are numbers, texts of up to 40 characters with brackets and commas, or values nested up to 20 deep with a removed name inside; one to all of the names to remove, 0 to 8 others before them; one name of two arbitrary letters
//vz:cover removed nothing
func vz_C15_many() {
	sizes := []int{7, 17, 33}
	if vzThorough() {
		sizes = []int{7, 8, 9, 16, 32, 33, 65}
	}
	n := sizes[vzChoice(len(sizes))]
	k := vzPick(n)
	kind := vzChoice(4)
	root := vzMany(n, -1, vzInt(1), vzChoice(2) == 1)
	root.keys[k] = string(vzLetters(2))
	switch kind {
	case 1:
		root.vals[k] = &vzV{k: vzKStr, str: []byte(`m1,}],m1:{[,,}}}}]]]]mmmmmm mm1m1m1m1m1m1`)}
	case 2:
		root.vals[k] = vzDeep(20, 2, &vzV{k: vzKObj, keys: []string{"m1", "m2"}, vals: []*vzV{vzInt(1), vzInt(2)}})
		root.vals[k].str = nil
	case 3:
		root.vals[k] = &vzV{k: vzKArr, vals: []*vzV{vzMany(3, -1, vzInt(1), false), {k: vzKStr, str: vzLetters(1)}}}
	}
	names := []string{}
	for i := vzChoice(3) * 4; i > 0; i-- {
		names = append(names, "x"+vzItoa(i))
	}
	switch vzChoice(5) {
	case 0:
		names = append(names, "m1")
	case 1:
		for i := 0; i < n; i++ {
			names = append(names, vzMember(i))
		}
	case 2:
		for i := n - 1; i > 0; i -= 2 {
			names = append(names, vzMember(i))
		}
	case 3:
		names = append(names, root.keys[0], root.keys[n-1], root.keys[k])
	case 4:
		names = append(names, "qq")
	}
	vz15Check(root, "", names)
}

var _ = vzReg("vz_C15_many", vz_C15_many)
