package ai

// pmap is a map with cheap copies: immutable layers shared by the copies,
// below the entries written since the last copy.
type pmap[V any] struct {
	base *layer[V]
	own  map[string]V
}

type layer[V any] struct {
	parent *layer[V]
	m      map[string]V
}

func (p *pmap[V]) get(k string) (V, bool) {
	if v, ok := p.own[k]; ok {
		return v, true
	}
	for l := p.base; l != nil; l = l.parent {
		if v, ok := l.m[k]; ok {
			return v, true
		}
	}
	var zero V
	return zero, false
}

func (p *pmap[V]) set(k string, v V) {
	if p.own == nil {
		p.own = map[string]V{}
	}
	p.own[k] = v
}

// freeze moves the own entries to the shared layers, whose sizes at least
// double downwards.
func (p *pmap[V]) freeze() {
	if len(p.own) == 0 {
		return
	}
	m, parent := p.own, p.base
	p.own = nil
	for parent != nil && len(parent.m) < 2*len(m) {
		n := make(map[string]V, len(m)+len(parent.m))
		for k, v := range parent.m {
			n[k] = v
		}
		for k, v := range m {
			n[k] = v
		}
		m, parent = n, parent.parent
	}
	p.base = &layer[V]{parent, m}
}

// clone copies the map.
func (p *pmap[V]) clone() pmap[V] {
	p.freeze()
	return pmap[V]{base: p.base}
}

// each visits every entry; the visit may write to the map.
func (p *pmap[V]) each(f func(k string, v V)) {
	p.freeze()
	p.above(nil, f)
}

// above visits the entries that are not in the layers from l on.
func (p *pmap[V]) above(l *layer[V], f func(k string, v V)) {
	p.freeze()
	top := p.base
	if top == l {
		return
	}
	if top.parent == l {
		for k, v := range top.m {
			f(k, v)
		}
		return
	}
	seen := map[string]bool{}
	for x := top; x != l; x = x.parent {
		for k, v := range x.m {
			if !seen[k] {
				seen[k] = true
				f(k, v)
			}
		}
	}
}

// common is the topmost layer shared by two maps.
func (p *pmap[V]) common(q *pmap[V]) *layer[V] {
	p.freeze()
	q.freeze()
	in := map[*layer[V]]bool{}
	for l := p.base; l != nil; l = l.parent {
		in[l] = true
	}
	for l := q.base; l != nil; l = l.parent {
		if in[l] {
			return l
		}
	}
	return nil
}
