package main

import (
	"regexp"
	"regexp/syntax"
)

// A compiled NFA and the runes of a text with symbolic bytes.
type reSym struct {
	rs    []*Term // the runes
	off   []int   // where each of them starts, and the length of the text
	prog  *syntax.Prog
	empty func(i int, op syntax.EmptyOp) *Term
	rune  func(ins *syntax.Inst, r *Term) *Term
}

// rePrep decodes b into runes.  Whether all bytes are ASCII is forked; each
// further fork fixes the UTF-8 shape of other texts.
func (in *Interp) rePrep(re *regexp.Regexp, b []*Term) *reSym {
	tt := in.tt
	var rs []*Term
	var off []int
	asciiAll := tt.tr
	for _, x := range b {
		asciiAll = tt.And(asciiAll, tt.Ult(x, tt.C(8, 0x80)))
	}
	if in.fork([]*Term{asciiAll, tt.Not(asciiAll)}) == 0 {
		for i, x := range b {
			rs = append(rs, tt.Zext(x, 32))
			off = append(off, i)
		}
	} else {
		for i := 0; i < len(b); {
			r, n := in.decodeRune(b[i:])
			rs = append(rs, r)
			off = append(off, i)
			i += n
		}
	}
	off = append(off, len(b))
	px, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		panic(unsupported{"regexp parse"})
	}
	prog, err := syntax.Compile(px.Simplify())
	if err != nil {
		panic(unsupported{"regexp compile"})
	}
	isWord := func(r *Term) *Term {
		rg := func(lo, hi rune) *Term {
			return tt.And(tt.Ule(tt.C(32, uint64(lo)), r), tt.Ule(r, tt.C(32, uint64(hi))))
		}
		return tt.Or(tt.Or(rg('A', 'Z'), rg('a', 'z')), tt.Or(rg('0', '9'), tt.Eq(r, tt.C(32, '_'))))
	}
	// at position i, cond of each empty-width assertion
	empty := func(i int, op syntax.EmptyOp) *Term {
		c := tt.tr
		nl := tt.C(32, '\n')
		if op&syntax.EmptyBeginText != 0 {
			c = tt.And(c, tt.Bool(i == 0))
		}
		if op&syntax.EmptyEndText != 0 {
			c = tt.And(c, tt.Bool(i == len(rs)))
		}
		if op&syntax.EmptyBeginLine != 0 && i > 0 {
			c = tt.And(c, tt.Eq(rs[i-1], nl))
		}
		if op&syntax.EmptyEndLine != 0 && i < len(rs) {
			c = tt.And(c, tt.Eq(rs[i], nl))
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			a, z := tt.fa, tt.fa
			if i > 0 {
				a = isWord(rs[i-1])
			}
			if i < len(rs) {
				z = isWord(rs[i])
			}
			same := tt.Eq(a, z)
			if op&syntax.EmptyWordBoundary != 0 {
				c = tt.And(c, tt.Not(same))
			}
			if op&syntax.EmptyNoWordBoundary != 0 {
				c = tt.And(c, same)
			}
		}
		return c
	}
	runeCond := func(ins *syntax.Inst, r *Term) *Term {
		switch ins.Op {
		case syntax.InstRuneAny:
			return tt.tr
		case syntax.InstRuneAnyNotNL:
			return tt.Not(tt.Eq(r, tt.C(32, '\n')))
		}
		if syntax.Flags(ins.Arg)&syntax.FoldCase != 0 && len(ins.Rune) == 1 {
			c := tt.fa
			for x := rune(0); x < 0x250; x++ {
				if ins.MatchRune(x) {
					c = tt.Or(c, tt.Eq(r, tt.C(32, uint64(x))))
				}
			}
			for _, x := range []rune{0x212a, 0x17f} {
				if ins.MatchRune(x) {
					c = tt.Or(c, tt.Eq(r, tt.C(32, uint64(x))))
				}
			}
			return c
		}
		if len(ins.Rune) == 1 {
			return tt.Eq(r, tt.C(32, uint64(ins.Rune[0])))
		}
		c := tt.fa
		for j := 0; j+1 < len(ins.Rune); j += 2 {
			c = tt.Or(c, tt.And(tt.Ule(tt.C(32, uint64(ins.Rune[j])), r), tt.Ule(r, tt.C(32, uint64(ins.Rune[j+1])))))
		}
		return c
	}
	return &reSym{rs, off, prog, empty, runeCond}
}

// reMatch builds the formula "re matches somewhere in b" by running the
// compiled NFA over symbolic bytes.
func (in *Interp) reMatch(re *regexp.Regexp, b []*Term) *Term {
	tt := in.tt
	m := in.rePrep(re, b)
	rs, prog, empty, runeCond := m.rs, m.prog, m.empty, m.rune
	n := len(prog.Inst)
	matched := tt.fa
	cur := make([]*Term, n) // condition of reaching each pc at position i
	for i := range cur {
		cur[i] = tt.fa
	}
	for i := 0; i <= len(rs); i++ {
		// epsilon closure
		type pc2 struct {
			pc uint32
			c  *Term
		}
		seen := map[pc2]bool{}
		src := cur
		cl := make([]*Term, n)
		for k := range cl {
			cl[k] = tt.fa
		}
		var walk func(pc uint32, c *Term, d int)
		walk = func(pc uint32, c *Term, d int) {
			if c.isC() && c.c == 0 || d > 200 {
				return
			}
			if !c.isC() {
				c = tt.intern(c)
			} else {
				c = tt.tr
			}
			if seen[pc2{pc, c}] || (cl[pc].isC() && cl[pc].c == 1) {
				return
			}
			seen[pc2{pc, c}] = true
			cl[pc] = tt.Or(cl[pc], c)
			ins := &prog.Inst[pc]
			switch ins.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				walk(ins.Out, c, d+1)
				walk(ins.Arg, c, d+1)
			case syntax.InstCapture, syntax.InstNop:
				walk(ins.Out, c, d+1)
			case syntax.InstEmptyWidth:
				walk(ins.Out, tt.And(c, empty(i, syntax.EmptyOp(ins.Arg))), d+1)
			}
		}
		walk(uint32(prog.Start), tt.tr, 0)
		for pc := range prog.Inst {
			walk(uint32(pc), src[pc], 0)
		}
		cur = cl
		for pc := range prog.Inst {
			if prog.Inst[pc].Op == syntax.InstMatch {
				matched = tt.Or(matched, cur[pc])
			}
		}
		if i == len(rs) {
			break
		}
		nxt := make([]*Term, n)
		for k := range nxt {
			nxt[k] = tt.fa
		}
		for pc := range prog.Inst {
			ins := &prog.Inst[pc]
			switch ins.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if c := cur[pc]; !(c.isC() && c.c == 0) {
					nxt[ins.Out] = tt.Or(nxt[ins.Out], tt.And(c, runeCond(ins, rs[i])))
				}
			}
		}
		cur = nxt
	}
	return matched
}

// reFind is the leftmost-first match of re in b as regexp finds it, with the
// bounds of the groups as byte offsets (-1 for a group that took no part), or
// nil.  Every test of a symbolic rune that the path leaves open is forked.
func (in *Interp) reFind(re *regexp.Regexp, b []*Term) []int {
	tt := in.tt
	m := in.rePrep(re, b)
	holds := func(c *Term) bool {
		if c.isC() {
			return c.c == 1
		}
		return in.fork([]*Term{c, tt.Not(c)}) == 0
	}
	caps := make([]int, 2*(re.NumSubexp()+1))
	type at struct {
		pc uint32
		i  int
	}
	var seen map[at]bool
	var try func(pc uint32, i int) bool
	try = func(pc uint32, i int) bool {
		for {
			if seen[at{pc, i}] {
				return false
			}
			seen[at{pc, i}] = true
			ins := &m.prog.Inst[pc]
			switch ins.Op {
			case syntax.InstMatch:
				caps[1] = m.off[i]
				return true
			case syntax.InstFail:
				return false
			case syntax.InstAlt, syntax.InstAltMatch:
				if try(ins.Out, i) {
					return true
				}
				pc = ins.Arg
			case syntax.InstCapture:
				if int(ins.Arg) >= len(caps) {
					pc = ins.Out
					continue
				}
				old := caps[ins.Arg]
				caps[ins.Arg] = m.off[i]
				if try(ins.Out, i) {
					return true
				}
				caps[ins.Arg] = old
				return false
			case syntax.InstNop:
				pc = ins.Out
			case syntax.InstEmptyWidth:
				if !holds(m.empty(i, syntax.EmptyOp(ins.Arg))) {
					return false
				}
				pc = ins.Out
			default:
				if i == len(m.rs) || !holds(m.rune(ins, m.rs[i])) {
					return false
				}
				pc, i = ins.Out, i+1
			}
		}
	}
	for s := 0; s <= len(m.rs); s++ {
		// the states that failed from an earlier start fail from here too
		if seen == nil {
			seen = map[at]bool{}
		}
		for k := range caps {
			caps[k] = -1
		}
		caps[0] = m.off[s]
		if try(uint32(m.prog.Start), s) {
			return caps
		}
	}
	return nil
}
