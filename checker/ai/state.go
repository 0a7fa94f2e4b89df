package ai

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"
)

// Fact is what is known about a symbol on the current paths.
type Fact struct {
	Eq     Val             // known constant (or nil) value
	NeAll  bool            // a string different from every constant of the program
	Ne     map[string]bool // keys of excluded constants
	NonNil bool
	HasLo  bool
	HasHi  bool
	Lo, Hi int64
	Dyn    types.Type      // known dynamic type of a symbolic interface
	NotDyn map[string]bool // excluded dynamic types
	F32    bool            // a float64 that is exactly a float32
}

func (f *Fact) key() string {
	var sb strings.Builder
	if f.Eq != nil {
		sb.WriteString("=" + f.Eq.Key())
	}
	var ks []string
	for k := range f.Ne {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sb.WriteString("!" + strings.Join(ks, ","))
	if f.NonNil {
		sb.WriteString(" nn")
	}
	if f.NeAll {
		sb.WriteString(" neall")
	}
	if f.F32 {
		sb.WriteString(" f32")
	}
	if f.HasLo {
		fmt.Fprintf(&sb, " lo%d", f.Lo)
	}
	if f.HasHi {
		fmt.Fprintf(&sb, " hi%d", f.Hi)
	}
	if f.Dyn != nil {
		sb.WriteString(" dyn" + typeKey(f.Dyn))
	}
	ks = ks[:0]
	for k := range f.NotDyn {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sb.WriteString(" nd" + strings.Join(ks, ","))
	return sb.String()
}

func (f *Fact) clone() *Fact {
	g := *f
	g.Ne = copySet(f.Ne)
	g.NotDyn = copySet(f.NotDyn)
	return &g
}

func copySet(m map[string]bool) map[string]bool {
	if m == nil {
		return nil
	}
	n := make(map[string]bool, len(m))
	for k := range m {
		n[k] = true
	}
	return n
}

// State is an abstract state: heap, facts, events and client typestate.
type State struct {
	E     *Engine
	heap  pmap[Val]
	facts pmap[*Fact]
	Must  map[string]bool
	May   map[string]bool
	Ghost map[string]string
}

// NewState returns an empty state over the engine's initial heap.
func (e *Engine) NewState() *State {
	return &State{E: e, Must: map[string]bool{}, May: map[string]bool{}, Ghost: map[string]string{}}
}

// Clone copies the state.
func (s *State) Clone() *State {
	n := &State{E: s.E, heap: s.heap.clone(), facts: s.facts.clone(), Must: copySet(s.Must), May: copySet(s.May), Ghost: make(map[string]string, len(s.Ghost))}
	for k, v := range s.Ghost {
		n.Ghost[k] = v
	}
	return n
}

// Event records an event on the current paths.
func (s *State) Event(k string) { s.Must[k] = true; s.May[k] = true }

// EventMay records an event that may have happened.
func (s *State) EventMay(k string) { s.May[k] = true }

func (s *State) ghostKey() string {
	if len(s.Ghost) == 0 {
		return ""
	}
	var ks []string
	for k, v := range s.Ghost {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// Fact returns the fact known for a symbol (never nil; do not modify).
func (s *State) Fact(id string) *Fact {
	if f, _ := s.facts.get(id); f != nil {
		return f
	}
	if f := s.E.BaseFacts[id]; f != nil {
		return f
	}
	if f := s.E.errFacts[id]; f != nil {
		return f
	}
	if s.E.errAtoms[id] {
		return nonNilFact
	}
	if s.E.DefaultFact != nil {
		if f := s.E.DefaultFact(id); f != nil {
			return f
		}
	}
	return noFact
}

var noFact, nonNilFact = &Fact{}, &Fact{NonNil: true}

func (s *State) updFact(id string, fn func(*Fact)) {
	f := s.Fact(id).clone()
	fn(f)
	s.facts.set(id, f)
}

// Assume records the value of a symbol.
func (s *State) Assume(id string, v Val) { s.updFact(id, func(f *Fact) { f.Eq = v }) }

// AssumeNe excludes a constant.
func (s *State) AssumeNe(id string, v Val) {
	s.updFact(id, func(f *Fact) {
		if f.Ne == nil {
			f.Ne = map[string]bool{}
		}
		f.Ne[v.Key()] = true
		if IsNil(v) {
			f.NonNil = true
		}
	})
}

// AssumeRange bounds an integer symbol.
func (s *State) AssumeRange(id string, lo, hi *int64) {
	s.updFact(id, func(f *Fact) {
		if lo != nil && (!f.HasLo || *lo > f.Lo) {
			f.HasLo, f.Lo = true, *lo
		}
		if hi != nil && (!f.HasHi || *hi < f.Hi) {
			f.HasHi, f.Hi = true, *hi
		}
		if f.HasLo && f.HasHi && f.Lo == f.Hi {
			f.Eq = Int(f.Lo)
		}
	})
}

// AssumeF32 records that a float symbol has a float32 value.
func (s *State) AssumeF32(id string) { s.updFact(id, func(f *Fact) { f.F32 = true }) }

// EqPairs lists the pairs of values known to be equal on the current paths.
func (s *State) EqPairs() [][2]Val {
	var out [][2]Val
	s.facts.each(func(id string, f *Fact) {
		if f.Eq == nil {
			return
		}
		if b, ok := ConstBool(f.Eq); ok && b {
			if t := s.E.eqTerms[id]; t != nil {
				out = append(out, [2]Val{t.Args[0], t.Args[1]})
			}
		}
	})
	return out
}

// AssumeDyn records the dynamic type of a symbolic interface.
func (s *State) AssumeDyn(id string, t types.Type) {
	s.updFact(id, func(f *Fact) { f.Dyn = t; f.NonNil = true })
}

func (s *State) root(obj string) (Val, bool) {
	if v, ok := s.heap.get(obj); ok {
		return v, true
	}
	v, ok := s.E.base[obj]
	return v, ok
}

// SetRoot sets the whole content of an object.
func (s *State) SetRoot(obj string, v Val) { s.heap.set(obj, v) }

// Root returns the whole content of an object.
func (s *State) Root(obj string) Val { v, _ := s.root(obj); return v }

func fieldName(t types.Type, i int) (string, types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return "." + st.Field(i).Name(), st.Field(i).Type()
	}
	return fmt.Sprintf(".?%d", i), types.Typ[types.Invalid]
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Basic:
		return types.Typ[types.Byte]
	case *types.Map:
		return u.Elem()
	}
	return types.Typ[types.Invalid]
}

func (s *State) sel(v Val, i int) Val {
	switch v := v.(type) {
	case *Agg:
		if i == Star {
			if len(v.Elems) == 0 {
				return &Top{T: elemOf(v.T)}
			}
			return mkSet(v.Elems)
		}
		if i < len(v.Elems) {
			return v.Elems[i]
		}
		return &Top{T: nil}
	case *Arr:
		if i != Star {
			if x, ok := v.M[i]; ok {
				if v.Rest != nil {
					return x // Rest joined in at weak store time
				}
				return x
			}
		}
		var alts []Val
		if i == Star {
			for _, x := range v.M {
				alts = append(alts, x)
			}
		}
		if v.Rest != nil {
			alts = append(alts, v.Rest)
		}
		if v.Sym != "" {
			if i == Star {
				// The summary element stands for any element not singled out.
				return &Sym{ID: v.Sym + "[*]", T: v.Elem}
			}
			alts = append(alts, &Sym{ID: fmt.Sprintf("%s[%d]", v.Sym, i), T: v.Elem})
		} else if v.Rest == nil || len(alts) == 0 {
			alts = append(alts, Zero(v.Elem))
		}
		return mkSet(alts)
	case *Bag:
		if len(v.May) == 0 {
			return Zero(v.Elem)
		}
		return mkSet(v.May)
	case *Sym:
		if st, ok := v.T.Underlying().(*types.Struct); ok {
			if i >= 0 && i < st.NumFields() {
				n, t := fieldName(v.T, i)
				return SymSel(v, n, t)
			}
			return &Top{Prov: ProvAll(v)}
		}
		t := elemOf(v.T)
		if i == Star {
			return SymSel(v, "[*]", t)
		}
		return SymSel(v, fmt.Sprintf("[%d]", i), t)
	case *Set:
		var alts []Val
		for _, a := range v.Alts {
			alts = append(alts, s.sel(a, i))
		}
		return mkSet(alts)
	case *Top:
		var t types.Type
		if v.T != nil {
			if st, ok := v.T.Underlying().(*types.Struct); ok && i >= 0 && i < st.NumFields() {
				t = st.Field(i).Type()
			} else if _, ok := v.T.Underlying().(*types.Struct); !ok {
				t = elemOf(v.T)
			}
		}
		return &Top{T: t, Prov: v.Prov}
	case *Bytes:
		return &Sym{ID: fmt.Sprintf("%q[%d]", v.S, i), T: types.Typ[types.Byte]}
	}
	return &Top{Prov: ProvAll(v)}
}

// expand turns a symbolic aggregate into an explicit one so that it can be
// updated.
func (s *State) expand(v Val) Val {
	switch v := v.(type) {
	case *Sym:
		switch u := v.T.Underlying().(type) {
		case *types.Struct:
			a := &Agg{T: v.T, Elems: make([]Val, u.NumFields())}
			for i := range a.Elems {
				a.Elems[i] = s.sel(v, i)
			}
			return a
		case *types.Array:
			if u.Len() <= 64 {
				a := &Agg{T: v.T, Elems: make([]Val, u.Len())}
				for i := range a.Elems {
					a.Elems[i] = s.sel(v, i)
				}
				return a
			}
			return &Arr{Elem: u.Elem(), Sym: v.ID, M: map[int]Val{}}
		}
	case *Top:
		if v.T == nil {
			return v
		}
		switch u := v.T.Underlying().(type) {
		case *types.Struct:
			a := &Agg{T: v.T, Elems: make([]Val, u.NumFields())}
			for i := range a.Elems {
				a.Elems[i] = &Top{T: u.Field(i).Type(), Prov: v.Prov}
			}
			return a
		}
	case *Set:
		var out Val
		for _, a := range v.Alts {
			x := s.expand(a)
			if out == nil {
				out = x
			} else {
				out = joinStruct(out, x)
			}
		}
		return out
	}
	return v
}

// joinStruct joins two values without reference to the heap.
func joinStruct(a, b Val) Val {
	if a == nil {
		return b
	}
	if b == nil || a.Key() == b.Key() {
		return a
	}
	if x, ok := a.(*Agg); ok {
		if y, ok := b.(*Agg); ok && len(x.Elems) == len(y.Elems) {
			n := &Agg{T: x.T, Elems: make([]Val, len(x.Elems))}
			for i := range n.Elems {
				n.Elems[i] = joinStruct(x.Elems[i], y.Elems[i])
			}
			return n
		}
	}
	return mkSet([]Val{a, b})
}

func (s *State) put(v Val, path []int, x Val, weak bool) Val {
	if len(path) == 0 {
		if weak {
			return joinStruct(v, x)
		}
		return x
	}
	i := path[0]
	switch c := s.expand(v).(type) {
	case *Agg:
		n := &Agg{T: c.T, Elems: append([]Val(nil), c.Elems...)}
		if i == Star {
			for j := range n.Elems {
				n.Elems[j] = s.put(n.Elems[j], path[1:], x, true)
			}
		} else if i < len(n.Elems) {
			n.Elems[i] = s.put(n.Elems[i], path[1:], x, weak)
		}
		return n
	case *Arr:
		n := &Arr{Elem: c.Elem, Rest: c.Rest, Sym: c.Sym, Src: c.Src, M: map[int]Val{}}
		for k, e := range c.M {
			n.M[k] = e
		}
		if i == Star {
			for k, e := range c.M {
				n.M[k] = s.put(e, path[1:], x, true)
			}
			var base Val
			if c.Rest != nil {
				base = c.Rest
			} else if c.Sym != "" {
				base = &Sym{ID: c.Sym + "[*]", T: c.Elem}
			} else {
				base = Zero(c.Elem)
			}
			n.Rest = s.put(base, path[1:], x, true)
		} else {
			n.M[i] = s.put(s.sel(c, i), path[1:], x, weak)
		}
		return n
	case *Bag:
		n := &Bag{Elem: c.Elem}
		if len(path) == 1 {
			n.May = addVal(c.May, x)
			return n
		}
		for _, e := range c.May {
			n.May = addVal(n.May, s.put(e, path[1:], x, true))
		}
		return n
	}
	return &Top{T: ValType(v), Prov: ProvAll(v, x)}
}

func addVal(l []Val, v Val) []Val {
	k := v.Key()
	for _, x := range l {
		if x.Key() == k {
			return l
		}
	}
	n := append(append([]Val(nil), l...), v)
	sort.Slice(n, func(i, j int) bool { return n[i].Key() < n[j].Key() })
	return n
}

// symRoot is the content of the object a symbolic pointer refers to.
func symPointee(p *Sym) (string, Val) {
	et := types.Type(types.Typ[types.Invalid])
	if pt, ok := p.T.Underlying().(*types.Pointer); ok {
		et = pt.Elem()
	}
	obj := "*" + p.ID
	if p.Op == "" {
		return obj, &Sym{ID: p.ID + "^", T: et}
	}
	return obj, &Sym{ID: p.ID + "^", T: et, Op: "sel", Args: []Val{p}, dep: p.dep}
}

// LoadPtr reads through a pointer value.
func (s *State) LoadPtr(p Val) Val {
	switch p := p.(type) {
	case *Ptr:
		v, ok := s.root(p.Obj)
		if !ok {
			return &Top{}
		}
		for _, i := range p.Path {
			v = s.sel(v, i)
		}
		return v
	case *Sym:
		obj, def := symPointee(p)
		if v, ok := s.root(obj); ok {
			return v
		}
		return def
	case *Set:
		var alts []Val
		for _, a := range p.Alts {
			if IsNil(a) {
				continue
			}
			alts = append(alts, s.LoadPtr(a))
		}
		if len(alts) == 0 {
			return &Top{}
		}
		out := alts[0]
		for _, a := range alts[1:] {
			out = joinStruct(out, a)
		}
		return out
	}
	return &Top{Prov: ProvAll(p)}
}

// StorePtr writes through a pointer value.
func (s *State) StorePtr(p Val, v Val, weak bool) {
	switch p := p.(type) {
	case *Ptr:
		root, ok := s.root(p.Obj)
		if !ok {
			return
		}
		for _, i := range p.Path {
			if i == Star {
				weak = true
			}
		}
		if strings.HasSuffix(p.Obj, "#old") {
			weak = true
		}
		s.heap.set(p.Obj, s.put(root, p.Path, v, weak))
		if s.E.OnStore != nil {
			s.E.OnStore(s, p, v)
		}
	case *Sym:
		obj, def := symPointee(p)
		if _, ok := s.root(obj); !ok {
			s.heap.set(obj, def)
		}
		s.StorePtr(&Ptr{Obj: obj}, v, weak)
	case *Set:
		n := 0
		for _, a := range p.Alts {
			if !IsNil(a) {
				n++
			}
		}
		for _, a := range p.Alts {
			if !IsNil(a) {
				s.StorePtr(a, v, weak || n > 1)
			}
		}
	}
}

// FieldPtr is the address of a component of what p points to.
func (s *State) FieldPtr(p Val, i int) Val {
	switch p := p.(type) {
	case *Ptr:
		return &Ptr{Obj: p.Obj, Path: append(append([]int(nil), p.Path...), i)}
	case *Sym:
		obj, def := symPointee(p)
		if _, ok := s.root(obj); !ok {
			s.heap.set(obj, def)
		}
		return &Ptr{Obj: obj, Path: []int{i}}
	case *Set:
		var alts []Val
		for _, a := range p.Alts {
			if !IsNil(a) {
				alts = append(alts, s.FieldPtr(a, i))
			}
		}
		if len(alts) > 0 {
			return mkSet(alts)
		}
	}
	return &Top{Prov: ProvAll(p)}
}

// sliceElems returns the elements of a slice value when its length is known.
func (s *State) SliceElems(v Val) ([]Val, bool) {
	switch v := v.(type) {
	case *Const:
		if v.V == nil {
			return nil, true
		}
	case *Slice:
		n, ok := ConstInt(v.Len)
		if !ok || n > 4096 {
			return nil, false
		}
		out := make([]Val, n)
		for i := range out {
			out[i] = s.LoadPtr(&Ptr{Obj: v.Obj, Path: append(append([]int(nil), v.Path...), v.Off+i)})
		}
		return out, true
	case *Sym:
		if f := s.Fact("len(" + v.ID + ")"); f.Eq != nil {
			if n, ok := ConstInt(f.Eq); ok {
				out := make([]Val, n)
				for i := range out {
					out[i] = s.LoadPtr(s.ElemPtr(v, Int(int64(i))))
				}
				return out, true
			}
		}
	}
	return nil, false
}

// bagOf views any slice value as a bag (nil when nothing is known).
func (s *State) bagOf(v Val) *Bag {
	switch v := v.(type) {
	case *Const:
		if v.V == nil {
			return &Bag{}
		}
	case *Slice:
		if el, ok := s.SliceElems(v); ok {
			b := &Bag{Elem: elemOf(v.T)}
			for _, x := range el {
				b.Must = addVal(b.Must, x)
				b.May = addVal(b.May, x)
			}
			return b
		}
		c := s.LoadPtr(&Ptr{Obj: v.Obj, Path: v.Path})
		switch c := c.(type) {
		case *Bag:
			return c
		default:
			return &Bag{Elem: elemOf(v.T), May: []Val{s.sel(c, Star)}}
		}
	case *Sym:
		e := &Sym{ID: v.ID + "[...]", T: elemOf(v.T), Op: "elems", Args: []Val{v}}
		return &Bag{Elem: elemOf(v.T), Must: []Val{e}, May: []Val{e}}
	case *Set:
		var b *Bag
		for _, a := range v.Alts {
			x := s.bagOf(a)
			if x == nil {
				return nil
			}
			if b == nil {
				b = x
			} else {
				b = joinBag(b, x)
			}
		}
		return b
	case *Top:
		e := &Top{T: elemOf(types.NewSlice(types.Typ[types.Invalid])), Prov: v.Prov}
		return &Bag{May: []Val{e}}
	}
	return nil
}

func joinBag(a, b *Bag) *Bag {
	n := &Bag{Elem: a.Elem}
	if n.Elem == nil {
		n.Elem = b.Elem
	}
	in := map[string]bool{}
	for _, x := range b.Must {
		in[x.Key()] = true
	}
	for _, x := range a.Must {
		if in[x.Key()] {
			n.Must = addVal(n.Must, x)
		}
	}
	n.May = a.May
	for _, x := range b.May {
		n.May = addVal(n.May, x)
	}
	for _, x := range n.May {
		if t, ok := x.(*Top); ok {
			n.May = []Val{t}
			break
		}
	}
	if len(n.May) > 40 {
		n.May = []Val{&Top{T: n.Elem, Prov: ProvAll(n.May...)}}
	}
	return n
}

// ElemPtr is the address of element idx of a slice value.
func (s *State) ElemPtr(sl Val, idx Val) Val {
	i := Star
	if n, ok := ConstInt(idx); ok {
		i = int(n)
	}
	switch v := sl.(type) {
	case *Slice:
		j := i
		if i != Star {
			j = v.Off + i
		}
		return &Ptr{Obj: v.Obj, Path: append(append([]int(nil), v.Path...), j)}
	case *Sym:
		obj := "[]" + v.ID
		if _, ok := s.root(obj); !ok {
			if v.Op == "" {
				s.heap.set(obj, &Arr{Elem: elemOf(v.T), Sym: v.ID, M: map[int]Val{}})
			} else {
				s.heap.set(obj, &Sym{ID: v.ID, T: v.T, Op: "sel", Args: []Val{v}, dep: v.dep})
			}
		}
		return &Ptr{Obj: obj, Path: []int{i}}
	case *Set:
		var alts []Val
		for _, a := range v.Alts {
			if !IsNil(a) {
				alts = append(alts, s.ElemPtr(a, idx))
			}
		}
		if len(alts) > 0 {
			return mkSet(alts)
		}
	case *Ptr: // pointer to array
		return s.FieldPtr(v, i)
	}
	return &Top{Prov: ProvAll(sl, idx)}
}

// Len is the length of v.
func (s *State) Len(v Val) Val {
	switch v := v.(type) {
	case *Const:
		if v.V == nil {
			return Int(0)
		}
		if v.V.Kind() == constant.String {
			return Int(int64(len(constant.StringVal(v.V))))
		}
	case *Bytes:
		return Int(int64(len(v.S)))
	case *Slice:
		return v.Len
	case *Agg:
		return Int(int64(len(v.Elems)))
	case *Ptr:
		if m, ok := s.LoadPtr(v).(*Map); ok {
			if m.Exact {
				return Int(int64(len(m.Keys)))
			}
			if m.Sym != "" {
				return &Sym{ID: "len(" + m.Sym + ")", T: types.Typ[types.Int], Op: "len", Args: []Val{Atom(m.Sym, m.T)}}
			}
		}
	case *Sym:
		if a, ok := v.T.Underlying().(*types.Array); ok {
			return Int(a.Len())
		}
		id := "len(" + v.ID + ")"
		if f := s.Fact(id); f.Eq != nil {
			return f.Eq
		}
		if f := s.Fact(v.ID); f.Eq != nil {
			return s.Len(f.Eq)
		}
		return &Sym{ID: id, T: types.Typ[types.Int], Op: "len", Args: []Val{v}, dep: v.dep}
	case *Set:
		var alts []Val
		for _, a := range v.Alts {
			alts = append(alts, s.Len(a))
		}
		return mkSet(alts)
	}
	return &Top{T: types.Typ[types.Int], Prov: ProvAll(v)}
}

// ---- join ----

type joiner struct {
	a, b, out *State
	tag       string
	memo      map[string]Val
	fixed     map[string]bool
	n         int
}

func (j *joiner) val(a, b Val) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.Key() == b.Key() {
		return a
	}
	switch x := a.(type) {
	case *Agg:
		if y, ok := b.(*Agg); ok && len(x.Elems) == len(y.Elems) {
			n := &Agg{T: x.T, Elems: make([]Val, len(x.Elems))}
			for i := range n.Elems {
				n.Elems[i] = j.val(x.Elems[i], y.Elems[i])
			}
			return n
		}
		if y, ok := b.(*Sym); ok {
			if e, ok := j.b.expand(y).(*Agg); ok {
				return j.val(x, e)
			}
		}
	case *Tuple:
		if y, ok := b.(*Tuple); ok && len(x.Elems) == len(y.Elems) {
			n := &Tuple{Elems: make([]Val, len(x.Elems))}
			for i := range n.Elems {
				n.Elems[i] = j.val(x.Elems[i], y.Elems[i])
			}
			return n
		}
	case *Sym:
		if y, ok := b.(*Agg); ok {
			if e, ok := j.a.expand(x).(*Agg); ok {
				return j.val(e, y)
			}
		}
	case *Iface:
		if y, ok := b.(*Iface); ok && types.Identical(x.Dyn, y.Dyn) {
			return &Iface{Dyn: x.Dyn, V: j.val(x.V, y.V)}
		}
	case *Arr:
		if y, ok := b.(*Arr); ok && x.Sym == y.Sym {
			n := &Arr{Elem: x.Elem, Sym: x.Sym, Src: x.Src, M: map[int]Val{}}
			if x.Rest != nil || y.Rest != nil {
				n.Rest = x.Rest
				if n.Rest == nil {
					n.Rest = y.Rest
				} else if y.Rest != nil {
					n.Rest = j.val(x.Rest, y.Rest)
				}
			}
			for i := range x.M {
				n.M[i] = j.val(x.M[i], j.b.sel(y, i))
			}
			for i := range y.M {
				if _, ok := x.M[i]; !ok {
					n.M[i] = j.val(j.a.sel(x, i), y.M[i])
				}
			}
			return n
		}
	case *Bag:
		if y, ok := b.(*Bag); ok {
			return joinBag(x, y)
		}
	case *Map:
		if y, ok := b.(*Map); ok {
			n := &Map{T: x.T, Sym: x.Sym}
			for i, k := range x.Keys {
				n.Keys = append(n.Keys, k)
				n.Vals = append(n.Vals, x.Vals[i])
			}
			for i, k := range y.Keys {
				f := false
				for q, k2 := range n.Keys {
					if k.Key() == k2.Key() {
						n.Vals[q] = j.val(n.Vals[q], y.Vals[i])
						f = true
					}
				}
				if !f {
					n.Keys = append(n.Keys, k)
					n.Vals = append(n.Vals, y.Vals[i])
				}
			}
			return n
		}
	}
	if j.sliceLike(a) && j.sliceLike(b) {
		if v := j.slices(a, b); v != nil {
			return v
		}
	}
	return mkSet([]Val{a, b})
}

func (j *joiner) sliceLike(v Val) bool {
	switch v := v.(type) {
	case *Slice:
		return true
	case *Const:
		if v.V == nil && v.T != nil {
			_, ok := v.T.Underlying().(*types.Slice)
			return ok
		}
	case *Sym:
		_, ok := v.T.Underlying().(*types.Slice)
		return ok
	}
	return false
}

// slices joins two different slice values of non-pointer-identity relevance
// into a fresh object holding what is common to both.
func (j *joiner) slices(a, b Val) Val {
	_, sa := a.(*Slice)
	_, sb := b.(*Slice)
	if !sa && !sb {
		return nil // nil | sym: keep as a set
	}
	mk := a.Key() + "~" + b.Key()
	if v, ok := j.memo[mk]; ok {
		return v
	}
	var t types.Type
	if x, ok := a.(*Slice); ok {
		t = x.T
	} else {
		t = b.(*Slice).T
	}
	la, lb := j.a.Len(a), j.b.Len(b)
	ln := j.val(la, lb)
	if x, ok := a.(*Slice); ok {
		if y, ok := b.(*Slice); ok && x.Obj == y.Obj && fmt.Sprint(x.Path) == fmt.Sprint(y.Path) && x.Off == y.Off {
			return &Slice{T: x.T, Obj: x.Obj, Path: x.Path, Off: x.Off, Len: ln, Cap: j.val(x.Cap, y.Cap)}
		}
	}
	ea, oka := j.a.SliceElems(a)
	eb, okb := j.b.SliceElems(b)
	var obj string
	if x, ok := a.(*Slice); ok && strings.HasPrefix(x.Obj, "J"+j.tag+".") && len(x.Path) == 0 && x.Off == 0 {
		obj = x.Obj
	} else if y, ok := b.(*Slice); ok && j.a.E.Coarse && strings.HasPrefix(y.Obj, "J"+j.tag+".") && len(y.Path) == 0 && y.Off == 0 {
		obj = y.Obj
	} else {
		if dbgFix {
			fmt.Fprintf(os.Stderr, "NEWJ %s a %.200s b %.200s\n", j.tag, a.Key(), b.Key())
		}
		for {
			j.n++
			obj = fmt.Sprintf("J%s.%d", j.tag, j.n)
			if _, ok := j.a.heap.get(obj); !ok {
				if _, ok := j.b.heap.get(obj); !ok {
					break
				}
			}
		}
	}
	var content Val
	if oka && okb && len(ea) == len(eb) {
		n := &Arr{Elem: elemOf(t), M: map[int]Val{}}
		for i := range ea {
			n.M[i] = j.val(ea[i], eb[i])
		}
		content = n
	} else {
		ba, bb := j.a.bagOf(a), j.b.bagOf(b)
		if ba == nil || bb == nil {
			return nil
		}
		nb := joinBag(ba, bb)
		nb.Elem = elemOf(t)
		content = nb
	}
	j.out.heap.set(obj, content)
	j.fixed[obj] = true
	v := &Slice{T: t, Obj: obj, Len: ln, Cap: &Top{T: types.Typ[types.Int]}}
	j.memo[mk] = v
	return v
}

func joinFact(a, b *Fact) *Fact {
	n := &Fact{}
	if a.Eq != nil && b.Eq != nil && a.Eq.Key() == b.Eq.Key() {
		n.Eq = a.Eq
	}
	ne := func(f, g *Fact) {
		for k := range f.Ne {
			if g.Ne[k] || g.Eq != nil && g.Eq.Key() != k {
				if n.Ne == nil {
					n.Ne = map[string]bool{}
				}
				n.Ne[k] = true
			}
		}
	}
	ne(a, b)
	ne(b, a)
	isNN := func(f *Fact) bool { return f.NonNil || f.Eq != nil && !IsNil(f.Eq) }
	n.NonNil = isNN(a) && isNN(b) && (a.NonNil || b.NonNil)
	n.NeAll = a.NeAll && b.NeAll
	n.F32 = a.F32 && b.F32
	lo := func(f *Fact) (int64, bool) {
		if f.HasLo {
			return f.Lo, true
		}
		if f.Eq != nil {
			return ConstInt(f.Eq)
		}
		return 0, false
	}
	hi := func(f *Fact) (int64, bool) {
		if f.HasHi {
			return f.Hi, true
		}
		if f.Eq != nil {
			return ConstInt(f.Eq)
		}
		return 0, false
	}
	if x, ok := lo(a); ok {
		if y, ok := lo(b); ok {
			n.HasLo, n.Lo = true, min(x, y)
		}
	}
	if x, ok := hi(a); ok {
		if y, ok := hi(b); ok {
			n.HasHi, n.Hi = true, max(x, y)
		}
	}
	if a.Dyn != nil && b.Dyn != nil && types.Identical(a.Dyn, b.Dyn) {
		n.Dyn = a.Dyn
	}
	for k := range a.NotDyn {
		if b.NotDyn[k] {
			if n.NotDyn == nil {
				n.NotDyn = map[string]bool{}
			}
			n.NotDyn[k] = true
		}
	}
	return n
}

// Join merges two states (with the same ghost partition).
func Join(a, b *State, tag string) (*State, *joiner) {
	common, commonFacts := a.heap.common(&b.heap), a.facts.common(&b.facts)
	out := &State{E: a.E, heap: pmap[Val]{base: common}, facts: pmap[*Fact]{base: commonFacts}, Must: map[string]bool{}, May: copySet(a.May), Ghost: a.Ghost}
	j := &joiner{a: a, b: b, out: out, tag: tag, memo: map[string]Val{}, fixed: map[string]bool{}}
	var ks []string
	inA := map[string]bool{}
	a.heap.above(common, func(k string, _ Val) {
		ks = append(ks, k)
		inA[k] = true
	})
	b.heap.above(common, func(k string, _ Val) {
		if !inA[k] {
			ks = append(ks, k)
		}
	})
	sort.Strings(ks)
	for _, k := range ks {
		va, oka := a.heap.get(k)
		vb, okb := b.heap.get(k)
		if !oka {
			if base, ok := a.E.base[k]; ok {
				va, oka = base, true
			} else if d := symDefault(k, vb); d != nil {
				va, oka = d, true
			}
		}
		if !okb {
			if base, ok := a.E.base[k]; ok {
				vb, okb = base, true
			} else if d := symDefault(k, va); d != nil {
				vb, okb = d, true
			}
		}
		if j.fixed[k] {
			continue
		}
		switch {
		case oka && okb:
			if va == vb || va.Key() == vb.Key() {
				out.heap.set(k, va)
			} else {
				out.heap.set(k, j.val(va, vb))
			}
		case oka:
			out.heap.set(k, va)
		default:
			out.heap.set(k, vb)
		}
	}
	done := map[string]bool{}
	fact := func(k string, _ *Fact) {
		if done[k] {
			return
		}
		done[k] = true
		fa, fb := a.Fact(k), b.Fact(k)
		if fa == fb {
			out.facts.set(k, fa)
			return
		}
		f := joinFact(fa, fb)
		_, shared := out.facts.get(k)
		if shared || f.key() != noFactKey || a.E.BaseFacts[k] != nil {
			out.facts.set(k, f)
		}
	}
	a.facts.above(commonFacts, fact)
	b.facts.above(commonFacts, fact)
	for k := range a.Must {
		if b.Must[k] {
			out.Must[k] = true
		}
	}
	for k := range b.May {
		out.May[k] = true
	}
	return out, j
}

// widenTo forgets in n, a join of s with something, what differs from s.
func (s *State) widenTo(n *State) {
	type kv struct {
		k string
		v Val
	}
	var vs []kv
	n.heap.each(func(k string, v Val) {
		o, ok := s.heap.get(k)
		if !ok || o == v || o.Key() == v.Key() {
			return
		}
		if w := widenVal(o, v); w != v {
			vs = append(vs, kv{k, w})
		}
	})
	for _, x := range vs {
		n.heap.set(x.k, x.v)
	}
	var fs []string
	n.facts.each(func(k string, f *Fact) {
		if o := s.Fact(k); o != f && o.key() != f.key() {
			fs = append(fs, k)
		}
	})
	for _, k := range fs {
		f := *n.Fact(k)
		if f.Eq != nil && !IsNil(f.Eq) {
			f.Eq = nil
		}
		f.HasLo, f.HasHi, f.Lo, f.Hi = false, false, 0, 0
		n.facts.set(k, &f)
	}
}

func widenVal(o, n Val) Val {
	if o != nil && o.Key() == n.Key() {
		return n
	}
	sub := func(o Val, i int) Val {
		switch x := o.(type) {
		case *Agg:
			if i < len(x.Elems) {
				return x.Elems[i]
			}
		case *Arr:
			if i < 0 {
				return x.Rest
			}
			return x.M[i]
		}
		return nil
	}
	switch x := n.(type) {
	case *Agg:
		w := &Agg{T: x.T, Elems: make([]Val, len(x.Elems))}
		for i := range x.Elems {
			w.Elems[i] = widenVal(sub(o, i), x.Elems[i])
		}
		return w
	case *Arr:
		w := &Arr{Elem: x.Elem, Sym: x.Sym, Src: x.Src, M: map[int]Val{}}
		if x.Rest != nil {
			w.Rest = widenVal(sub(o, -1), x.Rest)
		}
		for i, v := range x.M {
			w.M[i] = widenVal(sub(o, i), v)
		}
		return w
	case *Iface:
		if y, ok := o.(*Iface); ok {
			return &Iface{Dyn: x.Dyn, V: widenVal(y.V, x.V)}
		}
	case *Set:
		t := ValType(x)
		if t == nil && len(x.Alts) > 0 {
			t = ValType(x.Alts[0])
		}
		if t != nil {
			if _, basic := t.Underlying().(*types.Basic); basic {
				return &Top{T: t}
			}
		}
	case *Top:
		return &Top{T: x.T}
	case *Bag:
		if len(x.May) > 0 {
			return &Bag{Elem: x.Elem, May: []Val{&Top{T: x.Elem}}}
		}
	}
	return n
}

var noFactKey = noFact.key()

// symDefault is the untouched content of a symbolic object known to only one
// side of a join.
func symDefault(obj string, other Val) Val {
	if strings.HasPrefix(obj, "*") {
		if t := ValType(other); t != nil {
			return &Sym{ID: obj[1:] + "^", T: t}
		}
	}
	if strings.HasPrefix(obj, "[]") {
		if a, ok := other.(*Arr); ok && a.Sym == obj[2:] {
			return &Arr{Elem: a.Elem, Sym: a.Sym, M: map[int]Val{}}
		}
	}
	return nil
}

func (s *State) equalKey() string {
	var sb strings.Builder
	var ks []string
	s.heap.each(func(k string, v Val) { ks = append(ks, k+"="+v.Key()) })
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, "\n"))
	ks = ks[:0]
	s.facts.each(func(k string, v *Fact) { ks = append(ks, k+"="+v.key()) })
	sort.Strings(ks)
	sb.WriteString("\n|")
	sb.WriteString(strings.Join(ks, "\n"))
	ks = ks[:0]
	for k := range s.Must {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sb.WriteString("\n|")
	sb.WriteString(strings.Join(ks, "\n"))
	ks = ks[:0]
	for k := range s.May {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sb.WriteString("\n|")
	sb.WriteString(strings.Join(ks, "\n"))
	sb.WriteString(s.ghostKey())
	return sb.String()
}

// Sel selects component i of an aggregate value.
func (s *State) Sel(v Val, i int) Val { return s.sel(v, i) }

// Resolve replaces a symbol by its known constant value.
func (s *State) Resolve(v Val) Val { return s.resolve(v) }

// Fits tells whether a numeric symbol has a value of the given type.
func (s *State) Fits(x *Sym, to *types.Basic) bool {
	xb, ok := x.T.Underlying().(*types.Basic)
	return ok && s.fits(x, xb, to)
}
