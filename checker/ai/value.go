// Package ai is an abstract interpreter for go/ssa programs.
//
// It is a conventional forward abstract interpretation: a lattice of abstract
// values (constants, finite sets, symbolic input atoms and uninterpreted terms
// over them, pointers into an allocation-site heap), joins at control-flow
// merges, bounded loop peeling followed by a widened fixpoint, and trace
// partitioning by finite keys (nilness of live error values, live booleans and
// a client typestate). No program under analysis is executed and no path
// condition is handed to a solver.
package ai

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Key is canonical: equal keys mean equal values.
type Val interface{ Key() string }

// Const is a Go constant, or nil when V is nil.
type Const struct {
	T types.Type
	V constant.Value
	k string
}

// Bytes is a []byte whose content is the known string S.
type Bytes struct{ S string }

// Sym is a symbolic input atom (Op == "") or an uninterpreted term.
type Sym struct {
	ID   string
	T    types.Type
	Op   string
	Args []Val
	dep  int
}

// Ptr is a pointer to a path inside an abstract object.
type Ptr struct {
	Obj  string
	Path []int // field or element index; Star for an unknown element
	k    string
}

// Star is the unknown index.
const Star = -1

// Agg is a struct or small array held by value.
type Agg struct {
	T     types.Type
	Elems []Val
	k     string
}

// Arr is the content of an array object of statically unknown size.
type Arr struct {
	Elem types.Type
	M    map[int]Val
	Rest Val    // join of all the writes at unknown index; nil: none
	Sym  string // non-empty: unset elements are the symbolic Sym[i]
	Src  *Sym   // the symbol the content is a copy of, with Sym
	k    string
}

// Bag is the content of an array object whose length and order are unknown:
// Must are the elements it holds on every path, May all it can hold.
type Bag struct {
	Elem types.Type
	Must []Val
	May  []Val
	k    string
}

// Slice refers to (part of) an array object.
type Slice struct {
	T    types.Type
	Obj  string
	Path []int
	Off  int
	Len  Val
	Cap  Val
	k    string
}

// Iface is a non-nil interface value of known dynamic type.
type Iface struct {
	Dyn types.Type
	V   Val
	k   string
}

// Func is a function value.
type Func struct {
	Fn   *ssa.Function
	Free []Val
	Bi   *ssa.Builtin
	k    string
}

// Map is the content of a map object.
type Map struct {
	T     *types.Map
	Keys  []Val
	Vals  []Val
	Exact bool   // exactly these entries
	Sym   string // symbolic input map
	k     string
}

// Set is a finite union.
type Set struct {
	Alts []Val
	k    string
}

// Top is any value of type T computed from the atoms in Prov.
type Top struct {
	T    types.Type
	Prov []string
	k    string
}

// Tuple is a multi-value result.
type Tuple struct {
	Elems []Val
	k     string
}

const maxSet = 8
const maxDepth = 14

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func (c *Const) Key() string {
	if c.k == "" {
		if c.V == nil {
			c.k = "nil"
		} else {
			v := c.V
			if v.Kind() == constant.Float {
				if i := constant.ToInt(v); i.Kind() == constant.Int {
					v = i
				}
			}
			if v.Kind() == constant.Float {
				f, _ := constant.Float64Val(v)
				c.k = fmt.Sprintf("cf%v", f)
			} else {
				c.k = "c" + v.ExactString()
			}
		}
	}
	return c.k
}
func (b *Bytes) Key() string { return "bytes(" + b.S + ")" }
func (s *Sym) Key() string   { return "$" + s.ID }
func (p *Ptr) Key() string {
	if p.k == "" {
		p.k = "&" + p.Obj + fmt.Sprint(p.Path)
	}
	return p.k
}
func keys(vs []Val) string {
	var sb strings.Builder
	for i, v := range vs {
		if i > 0 {
			sb.WriteByte(',')
		}
		if v == nil {
			sb.WriteString("<nil>")
		} else {
			sb.WriteString(v.Key())
		}
	}
	return sb.String()
}
func (a *Agg) Key() string {
	if a.k == "" {
		a.k = "{" + keys(a.Elems) + "}"
	}
	return a.k
}
func (a *Arr) Key() string {
	if a.k == "" {
		var idx []int
		for i := range a.M {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		var sb strings.Builder
		fmt.Fprintf(&sb, "arr(%s;", a.Sym)
		for _, i := range idx {
			fmt.Fprintf(&sb, "%d:%s,", i, a.M[i].Key())
		}
		if a.Rest != nil {
			sb.WriteString(";" + a.Rest.Key())
		}
		sb.WriteByte(')')
		a.k = sb.String()
	}
	return a.k
}
func (b *Bag) Key() string {
	if b.k == "" {
		b.k = "bag(" + keys(b.Must) + "|" + keys(b.May) + ")"
	}
	return b.k
}
func (s *Slice) Key() string {
	if s.k == "" {
		s.k = fmt.Sprintf("sl(%s%v+%d,%s,%s)", s.Obj, s.Path, s.Off, s.Len.Key(), s.Cap.Key())
	}
	return s.k
}
func (i *Iface) Key() string {
	if i.k == "" {
		i.k = "if<" + typeKey(i.Dyn) + ">" + i.V.Key()
	}
	return i.k
}
func (f *Func) Key() string {
	if f.k == "" {
		n := ""
		if f.Fn != nil {
			n = f.Fn.String()
		} else {
			n = f.Bi.Name()
		}
		f.k = "fn:" + n + "(" + keys(f.Free) + ")"
	}
	return f.k
}
func (m *Map) Key() string {
	if m.k == "" {
		m.k = fmt.Sprintf("map(%v,%s,%s=>%s)", m.Exact, m.Sym, keys(m.Keys), keys(m.Vals))
	}
	return m.k
}
func (s *Set) Key() string {
	if s.k == "" {
		s.k = "{|" + keys(s.Alts) + "|}"
	}
	return s.k
}
func (t *Top) Key() string {
	if t.k == "" {
		t.k = "T(" + strings.Join(t.Prov, " ") + ")"
	}
	return t.k
}
func (t *Tuple) Key() string {
	if t.k == "" {
		t.k = "(" + keys(t.Elems) + ")"
	}
	return t.k
}

// Constructors.

func Int(i int64) *Const                { return &Const{T: types.Typ[types.Int], V: constant.MakeInt64(i)} }
func Str(s string) *Const               { return &Const{T: types.Typ[types.String], V: constant.MakeString(s)} }
func Bool(b bool) *Const                { return &Const{T: types.Typ[types.Bool], V: constant.MakeBool(b)} }
func NilOf(t types.Type) *Const         { return &Const{T: t} }
func Atom(id string, t types.Type) *Sym { return &Sym{ID: id, T: t} }

// Term builds an uninterpreted application.
func Term(t types.Type, op string, args ...Val) Val {
	d := 0
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			sb.WriteString(", ")
		}
		switch a := a.(type) {
		case *Sym:
			sb.WriteString(a.ID)
			if a.dep >= d {
				d = a.dep + 1
			}
		case nil:
			sb.WriteString("nil")
		default:
			sb.WriteString(a.Key())
			if d < 1 {
				d = 1
			}
		}
	}
	sb.WriteByte(')')
	if d > maxDepth || sb.Len() > 4000 {
		return &Top{T: t, Prov: ProvAll(args...)}
	}
	return &Sym{ID: sb.String(), T: t, Op: op, Args: args, dep: d}
}

// SymSel selects a component of a symbolic aggregate.
func SymSel(s *Sym, name string, t types.Type) Val {
	id := strings.TrimSuffix(s.ID, "^") + name
	if s.Op == "" {
		return &Sym{ID: id, T: t}
	}
	return &Sym{ID: id, T: t, Op: "sel", Args: []Val{s}, dep: s.dep}
}

// IsNil tells if v is the nil constant.
func IsNil(v Val) bool { c, ok := v.(*Const); return ok && c.V == nil }

// ConstStr returns the constant string value.
func ConstStr(v Val) (string, bool) {
	switch c := v.(type) {
	case *Const:
		if c.V != nil && c.V.Kind() == constant.String {
			return constant.StringVal(c.V), true
		}
	case *Bytes:
		return c.S, true
	}
	return "", false
}

// ConstInt returns the constant int value.
func ConstInt(v Val) (int64, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.Int {
		return constant.Int64Val(c.V)
	}
	return 0, false
}

// ConstBool returns the constant bool value.
func ConstBool(v Val) (val, ok bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}

// ProvAll is the set of input atoms the values derive from (values only, not
// through the heap).
func ProvAll(vs ...Val) []string {
	m := map[string]bool{}
	for _, v := range vs {
		provInto(v, m)
	}
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func provInto(v Val, m map[string]bool) {
	switch v := v.(type) {
	case *Sym:
		if v.Op == "" {
			m[v.ID] = true
			return
		}
		for _, a := range v.Args {
			provInto(a, m)
		}
	case *Agg:
		for _, a := range v.Elems {
			provInto(a, m)
		}
	case *Tuple:
		for _, a := range v.Elems {
			provInto(a, m)
		}
	case *Set:
		for _, a := range v.Alts {
			provInto(a, m)
		}
	case *Iface:
		provInto(v.V, m)
	case *Top:
		for _, p := range v.Prov {
			m[p] = true
		}
	case *Bag:
		for _, a := range v.May {
			provInto(a, m)
		}
	case *Arr:
		for _, a := range v.M {
			provInto(a, m)
		}
		if v.Rest != nil {
			provInto(v.Rest, m)
		}
	case *Func:
		for _, a := range v.Free {
			provInto(a, m)
		}
	}
}

// Zero is the zero value of t.
func Zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &Const{T: t, V: constant.MakeString("")}
		case u.Info()&types.IsBoolean != 0:
			return &Const{T: t, V: constant.MakeBool(false)}
		case u.Info()&types.IsNumeric != 0:
			return &Const{T: t, V: constant.MakeInt64(0)}
		}
		return NilOf(t)
	case *types.Struct:
		a := &Agg{T: t, Elems: make([]Val, u.NumFields())}
		for i := range a.Elems {
			a.Elems[i] = Zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		if u.Len() > 64 {
			return &Arr{Elem: u.Elem(), M: map[int]Val{}}
		}
		a := &Agg{T: t, Elems: make([]Val, u.Len())}
		for i := range a.Elems {
			a.Elems[i] = Zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := &Tuple{}
		for i := 0; i < u.Len(); i++ {
			tp.Elems = append(tp.Elems, Zero(u.At(i).Type()))
		}
		return tp
	}
	return NilOf(t)
}

// ValType is the best known type of v.
func ValType(v Val) types.Type {
	switch v := v.(type) {
	case *Const:
		return v.T
	case *Sym:
		return v.T
	case *Agg:
		return v.T
	case *Slice:
		return v.T
	case *Top:
		return v.T
	case *Iface:
		return v.Dyn
	case *Set:
		return ValType(v.Alts[0])
	}
	return nil
}

func mkSet(vs []Val) Val {
	m := map[string]Val{}
	var add func(v Val) bool
	var top *Top
	add = func(v Val) bool {
		switch v := v.(type) {
		case *Set:
			for _, a := range v.Alts {
				add(a)
			}
		case *Top:
			top = v
		default:
			m[v.Key()] = v
		}
		return true
	}
	for _, v := range vs {
		add(v)
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var alts []Val
	for _, k := range ks {
		alts = append(alts, m[k])
	}
	if top != nil || len(alts) > maxSet {
		all := append([]Val{}, vs...)
		t := ValType(vs[0])
		return &Top{T: t, Prov: ProvAll(all...)}
	}
	if len(alts) == 1 {
		return alts[0]
	}
	return &Set{Alts: alts}
}

// ConstOf is a constant of type int.
func ConstOf(n int) *Const { return &Const{T: types.Typ[types.Int], V: constant.MakeInt64(int64(n))} }
