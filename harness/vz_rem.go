package gojsonsm

// Shared by the checks of removing members.

type vz15Rem struct {
	names []string
	last  map[string][]byte
	count int
}

func (r *vz15Rem) has(k string) bool {
	for _, n := range r.names {
		if n == k {
			return true
		}
	}
	return false
}

// without gives the tree without the members to remove.
func (r *vz15Rem) without(v *vzV, sp string) *vzV {
	if v.k != vzKObj && v.k != vzKArr {
		return v
	}
	w := &vzV{k: v.k}
	for i, x := range v.vals {
		if v.k == vzKObj {
			if r.has(v.keys[i]) {
				r.count++
				r.last[v.keys[i]] = x.render(nil, sp)
				continue
			}
			w.keys = append(w.keys, v.keys[i])
		}
		w.vals = append(w.vals, r.without(x, sp))
	}
	return w
}

func vz15Run(src []byte, names []string, dst []byte, removed map[string][]byte) (n, cnt int, left bool, err error, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vzStop); ok {
				panic(s)
			}
			panicked = "panic: " + vzPanicText(r)
		}
	}()
	n, cnt, left, err = MatchAndRemoveItemsFromJsonObject(src, names, dst, removed)
	return
}

var vz15Lists = [][]string{{"a"}, {"b"}, {"a", "b"}, {"b", "b"}, {"c"}, {}, {"b", "a", "b"}}
