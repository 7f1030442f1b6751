package gojsonsm

// Result tree: any order of leaf outcomes gives three-valued logic.

type vz21Node struct {
	typ  BinTreeNodeType
	l, r *vz21Node
	idx  int
	par  *vz21Node
}

func vz21Build(budget *int, depth int) *vz21Node {
	n := &vz21Node{}
	k := 1
	if depth > 0 {
		k = 5
		if *budget < 2 {
			k = 3 // leaf, not, loop
		}
	}
	switch vzChoice(k) {
	case 0:
		n.typ = nodeTypeLeaf
	case 1:
		n.typ = nodeTypeNot
	case 2:
		n.typ = nodeTypeLoop
	case 3:
		n.typ = nodeTypeOr
	case 4:
		n.typ = nodeTypeAnd
	}
	switch n.typ {
	case nodeTypeNot, nodeTypeLoop:
		n.l = vz21Build(budget, depth-1)
		n.l.par = n
	case nodeTypeOr, nodeTypeAnd:
		*budget--
		n.l = vz21Build(budget, depth-1)
		n.l.par = n
		n.r = vz21Build(budget, depth-1)
		n.r.par = n
	}
	return n
}

func vz21Layout(n *vz21Node, par int, out *[]binTreeNode, nodes *[]*vz21Node) int {
	idx := len(*out)
	n.idx = idx
	*out = append(*out, *NewBinTreeNode(n.typ, par, 0, 0))
	*nodes = append(*nodes, n)
	if n.l != nil {
		c := vz21Layout(n.l, idx, out, nodes)
		(*out)[idx].Left = c
	}
	if n.r != nil {
		c := vz21Layout(n.r, idx, out, nodes)
		(*out)[idx].Right = c
	}
	return idx
}

// 0 unknown, 1 false, 2 true
func vz21Eval(n *vz21Node, leaf []int) int {
	switch n.typ {
	case nodeTypeLeaf:
		return leaf[n.idx]
	case nodeTypeNot:
		switch vz21Eval(n.l, leaf) {
		case 1:
			return 2
		case 2:
			return 1
		}
		return 0
	case nodeTypeLoop:
		return vz21Eval(n.l, leaf)
	}
	a, b := vz21Eval(n.l, leaf), vz21Eval(n.r, leaf)
	dom := 2
	if n.typ == nodeTypeAnd {
		dom = 1
	}
	if a == dom || b == dom {
		return dom
	}
	if a == 0 || b == 0 {
		return 0
	}
	return 3 - dom
}

// vz21Forced is the value once everything still open counts as false; a loop
// that never ran is open as a whole.
func vz21Forced(n *vz21Node, leaf []int) int {
	if v := vz21Eval(n, leaf); v != 0 {
		return v
	}
	switch n.typ {
	case nodeTypeLeaf, nodeTypeLoop:
		return 1
	case nodeTypeNot:
		return 3 - vz21Forced(n.l, leaf)
	}
	a, b := vz21Forced(n.l, leaf), vz21Forced(n.r, leaf)
	if n.typ == nodeTypeAnd && a == 2 && b == 2 || n.typ == nodeTypeOr && (a == 2 || b == 2) {
		return 2
	}
	return 1
}

// a node is decided when itself or any ancestor has a value
func vz21Decided(n *vz21Node, leaf []int) bool {
	for x := n; x != nil; x = x.par {
		if vz21Eval(x, leaf) != 0 {
			return true
		}
	}
	return false
}

func vz21Check(st *binTreeState, nodes []*vz21Node, leaf []int) {
	for _, n := range nodes {
		v := vz21Eval(n, leaf)
		if n.idx == 0 {
			vzAssert(st.IsResolved(0) == (v != 0), "root is decided exactly when three-valued logic decides it")
			vzAssert(st.IsTrue(0) == (v == 2), "root has the three-valued value")
		}
		vzAssert(st.IsResolved(n.idx) == vz21Decided(n, leaf), "a node is settled exactly when it or an ancestor is decided")
	}
}

func vz21Run(leaves, depth int) {
	budget := leaves - 1
	root := vz21Build(&budget, depth)
	var data []binTreeNode
	var nodes []*vz21Node
	vz21Layout(root, 0, &data, &nodes)
	tree := &binTree{data}
	st := tree.NewState()
	if vzChoice(2) == 1 {
		// a used then reset state is as good as new
		for _, n := range nodes {
			if n.typ == nodeTypeLeaf && !st.IsResolved(n.idx) {
				st.MarkNode(n.idx, true)
			}
		}
		st.Reset()
	}
	leaf := make([]int, len(data))
	vz21Check(st, nodes, leaf)
	for {
		var open []int
		for _, n := range nodes {
			if n.typ == nodeTypeLeaf && !st.IsResolved(n.idx) {
				open = append(open, n.idx)
			}
		}
		if len(open) == 0 {
			break
		}
		k := vzChoice(len(open) + 1)
		if k == len(open) {
			want := vz21Forced(root, leaf)
			st.Resolve()
			vzCover("resolve")
			vzAssert(st.IsResolved(0), "resolving settles the root")
			vzAssert(st.IsTrue(0) == (want == 2), "resolving treats open outcomes as false")
			return
		}
		v := vzBool()
		if v {
			leaf[open[k]] = 2
		} else {
			leaf[open[k]] = 1
		}
		st.MarkNode(open[k], v)
		vz21Check(st, nodes, leaf)
	}
	vzObserve("root", st.IsTrue(0))
	vzCover("settled")
}

//vz:bound all and/or/not/loop trees with at most 3 leaves (depth <= 3, thorough: 4 leaves), every order of leaf outcomes, every outcome, optional Resolve at every point, fresh and reset state
//vz:cover resolve settled
func vz_C21_tree() {
	if vzThorough() {
		vz21Run(4, 4)
		return
	}
	vz21Run(3, 3)
}

var _ = vzReg("vz_C21_tree", vz_C21_tree)

// vz21Chain joins leaves from..to of a tree: a list to the left or right, or halves.
func vz21Chain(typ BinTreeNodeType, from, to, shape, alt int) *vz21Node {
	if to-from == 1 {
		n := &vz21Node{typ: nodeTypeLeaf}
		if alt == 2 && from%3 == 1 {
			p := &vz21Node{typ: nodeTypeNot, l: n}
			n.par = p
			n = p
		}
		return n
	}
	at := from + 1
	switch shape {
	case 1:
		at = to - 1
	case 2:
		at = (from + to) / 2
	}
	n := &vz21Node{typ: typ}
	if alt > 0 {
		typ = nodeTypeAnd + nodeTypeOr - typ
	}
	n.l = vz21Chain(typ, from, at, shape, alt)
	n.r = vz21Chain(typ, at, to, shape, alt)
	n.l.par, n.r.par = n, n
	return n
}

// vz21CheckMany is vz21Check in one pass over the nodes, which are listed parents first.
func vz21CheckMany(st *binTreeState, nodes []*vz21Node, leaf []int) {
	val := make([]int, len(nodes))
	for i := len(nodes) - 1; i >= 0; i-- {
		n := nodes[i]
		switch n.typ {
		case nodeTypeLeaf:
			val[i] = leaf[i]
		case nodeTypeNot:
			if v := val[n.l.idx]; v != 0 {
				val[i] = 3 - v
			}
		default:
			a, b, dom := val[n.l.idx], val[n.r.idx], 2
			if n.typ == nodeTypeAnd {
				dom = 1
			}
			if a == dom || b == dom {
				val[i] = dom
			} else if a != 0 && b != 0 {
				val[i] = 3 - dom
			}
		}
	}
	vzAssert(st.IsResolved(0) == (val[0] != 0), "root is decided exactly when three-valued logic decides it")
	vzAssert(st.IsTrue(0) == (val[0] == 2), "root has the three-valued value")
	decided := make([]bool, len(nodes))
	for i, n := range nodes {
		decided[i] = val[i] != 0 || n.par != nil && decided[n.par.idx]
		vzAssert(st.IsResolved(i) == decided[i], "a node is settled exactly when it or an ancestor is decided")
	}
}

//vz:bound trees of 7 to 33 (thorough: 65) leaves - lists to the left or right or halved, all AND, all OR, alternating, or with NOTs - whose leaves are decided from the first or last on or from the middle outwards, one of them (near either end or a power of two) with any outcome and the others all alike, as long as they are open; checked at every step
//vz:cover settled
func vz_C21_many() {
	sizes := []int{7, 16, 33}
	if vzThorough() {
		sizes = []int{7, 8, 9, 16, 17, 31, 32, 33, 65}
	}
	n := sizes[vzChoice(len(sizes))]
	typ := nodeTypeAnd
	if vzChoice(2) == 1 {
		typ = nodeTypeOr
	}
	root := vz21Chain(typ, 0, n, vzChoice(3), vzChoice(3))
	var data []binTreeNode
	var nodes, leaves []*vz21Node
	vz21Layout(root, 0, &data, &nodes)
	for _, x := range nodes {
		if x.typ == nodeTypeLeaf {
			leaves = append(leaves, x)
		}
	}
	st := (&binTree{data}).NewState()
	leaf := make([]int, len(data))
	order, pick, v, rest := vzChoice(3), vzPick(n), vzBool(), vzChoice(2) == 1
	for i := 0; i < n; i++ {
		k := i
		switch order {
		case 1:
			k = n - 1 - i
		case 2:
			k = (n/2 + i) % n
		}
		x := leaves[k]
		if st.IsResolved(x.idx) {
			continue
		}
		b := rest
		if k == pick {
			b = v
		}
		leaf[x.idx] = 1
		if b {
			leaf[x.idx] = 2
		}
		st.MarkNode(x.idx, b)
		vz21CheckMany(st, nodes, leaf)
	}
	vzObserve("root", st.IsTrue(0))
	vzCover("settled")
}

var _ = vzReg("vz_C21_many", vz_C21_many)

//vz:bound all and/or/not/loop trees with at most 3 leaves (depth <= 3, thorough: 4 leaves), a state copied to another one of its tree after any number of leaf outcomes, the copy then given more outcomes
//vz:cover copied
func vz_C21_copy() {
	budget, depth := 2, 3
	if vzThorough() {
		budget, depth = 3, 4
	}
	root := vz21Build(&budget, depth)
	var data []binTreeNode
	var nodes []*vz21Node
	vz21Layout(root, 0, &data, &nodes)
	tree := &binTree{data}
	st := tree.NewState()
	leaf := make([]int, len(data))
	to := tree.NewState()
	var old []int
	for _, n := range nodes {
		if n.typ != nodeTypeLeaf {
			continue
		}
		if old == nil && vzChoice(2) == 1 {
			if vzChoice(2) == 1 {
				to.MarkNode(n.idx, vzBool()) // whatever it was
			}
			to.CopyFrom(st)
			old = append([]int{}, leaf...)
			st, to = to, st
			vz21Check(st, nodes, leaf)
		}
		if st.IsResolved(n.idx) {
			continue
		}
		v := vzBool()
		leaf[n.idx] = 1
		if v {
			leaf[n.idx] = 2
		}
		st.MarkNode(n.idx, v)
		vz21Check(st, nodes, leaf)
	}
	if old != nil {
		vz21Check(to, nodes, old)
		vzCover("copied")
	}
}

var _ = vzReg("vz_C21_copy", vz_C21_copy)
