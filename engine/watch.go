package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// watcher records writes to memory that is shared between independent users:
// every package-level variable and everything reachable from given roots.
type watcher struct {
	cells map[*Value]bool
	maps  map[*MapObj]bool
	hits  int
}

func (in *Interp) startWatch(roots []Value) {
	w := &watcher{cells: map[*Value]bool{}, maps: map[*MapObj]bool{}}
	var mark func(v Value, d int)
	markCell := func(p *Value, d int) {
		if p == nil || w.cells[p] {
			return
		}
		w.cells[p] = true
		mark(*p, d+1)
	}
	elems := func(s []Value, d int) {
		full := s[:cap(s)]
		for i := range full {
			markCell(&full[i], d)
		}
	}
	mark = func(v Value, d int) {
		if d > 5000 {
			return
		}
		switch v := v.(type) {
		case *Value:
			markCell(v, d)
		case Struct:
			for i := range v {
				markCell(&v[i], d)
			}
		case Array:
			for i := range v {
				markCell(&v[i], d)
			}
		case Slice:
			elems(v, d)
		case Iface:
			// boxed values are immutable, but may hold references
			switch x := v.v.(type) {
			case Struct:
				for _, y := range x {
					mark(y, d+1)
				}
			case Array:
				for _, y := range x {
					mark(y, d+1)
				}
			default:
				mark(x, d+1)
			}
		case *MapObj:
			if v == nil || w.maps[v] {
				return
			}
			w.maps[v] = true
			for i := range v.keys {
				mark(v.keys[i], d+1)
				mark(v.vals[i], d+1)
			}
		case *Closure:
			if v != nil {
				for _, e := range v.env {
					mark(e, d+1)
				}
			}
		case Tuple:
			for _, e := range v {
				mark(e, d+1)
			}
		}
	}
	for _, m := range in.sh.pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			markCell(in.global(g), 0)
		}
	}
	for _, r := range roots {
		mark(r, 0)
	}
	in.watch = w
	in.watchSite = ""
}

func (in *Interp) noteStore(p *Value) {
	if in.locked > 0 || !in.watch.cells[p] {
		return
	}
	in.watch.hits++
	if in.watchSite == "" {
		in.watchSite = "shared cell"
	}
}

func (in *Interp) noteMapStore(m *MapObj) {
	if in.locked > 0 || !in.watch.maps[m] {
		return
	}
	in.watch.hits++
	if in.watchSite == "" {
		in.watchSite = fmt.Sprintf("shared map")
	}
}

func (in *Interp) noteLoad(p *Value) {}
