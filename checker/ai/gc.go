package ai

import "strings"

// refs calls f with the objects a value refers to.
func refs(v Val, f func(obj string)) {
	all := func(vs []Val) {
		for _, x := range vs {
			refs(x, f)
		}
	}
	switch x := v.(type) {
	case *Sym:
		all(x.Args)
	case *Ptr:
		f(x.Obj)
	case *Agg:
		all(x.Elems)
	case *Arr:
		for _, y := range x.M {
			refs(y, f)
		}
		if x.Rest != nil {
			refs(x.Rest, f)
		}
	case *Bag:
		all(x.Must)
		all(x.May)
	case *Slice:
		f(x.Obj)
		refs(x.Len, f)
		refs(x.Cap, f)
	case *Iface:
		refs(x.V, f)
	case *Func:
		all(x.Free)
	case *Map:
		all(x.Keys)
		all(x.Vals)
	case *Set:
		all(x.Alts)
	case *Tuple:
		all(x.Elems)
	}
}

// collect drops the objects created since the entry state that neither the roots nor
// the objects of the entry state refer to.
func (s *State) collect(entry *State, roots func(f func(obj string))) {
	live := map[string]bool{}
	var work []string
	mark := func(obj string) {
		if !live[obj] {
			live[obj] = true
			work = append(work, obj)
		}
	}
	roots(mark)
	dead := 0
	s.heap.each(func(k string, v Val) {
		if !strings.HasPrefix(k, "o") && !strings.HasPrefix(k, "J") {
			mark(k)
			return
		}
		if _, ok := entry.heap.get(k); ok {
			mark(k)
			return
		}
		dead++
	})
	if dead == 0 {
		return
	}
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		if v, ok := s.heap.get(k); ok {
			refs(v, mark)
		}
	}
	n := pmap[Val]{}
	s.heap.each(func(k string, v Val) {
		if live[k] {
			n.set(k, v)
		}
	})
	s.heap = n
}
