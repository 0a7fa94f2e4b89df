package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// Shape chooses, for every place of a model, what the abstract model holds.
type Shape struct {
	Name string
	// Leaf: 'f' any value different from the zero value, 'z' the zero value,
	// 'u' any value.
	Leaf func(path string) byte
	// Cell: the only cell of a matrix that differs from the identity; -1: all may.
	Cell func(path string) int
	// Floats tells that numbers with decimals vary.
	Floats bool
	// Distinct makes the numbers of different leaves different.
	Distinct bool
	// Len is the length of a list.
	Len func(path string) int
	// Enum is the index of the constant of an enumeration.
	Enum func(path string, n int) int
	// Nil tells whether a pointer is nil.
	Nil func(path string) bool
	// Give may supply the value of a place.
	Give func(b *ModelBuilder, path string, t types.Type) (ai.Val, bool)
}

// ModelBuilder builds abstract models by walking the Go types.
type ModelBuilder struct {
	W     *World
	St    *ai.State
	Sh    *Shape
	Pfx   string // prefix of the abstract objects
	Leafs []string
	Lists []string
	Enums map[string]int
	Ptrs  []string
	Mats  []string
	// Numeric tells which leaves are numbers.
	Numeric map[string]bool
	// Floats tells which leaves hold numbers with decimals.
	Floats map[string]bool

	owners []string
}

// NewBuilder prepares a builder in a state.
func (w *World) NewBuilder(st *ai.State, sh *Shape, pfx string) *ModelBuilder {
	return &ModelBuilder{W: w, St: st, Sh: sh, Pfx: pfx, Enums: map[string]int{}, Numeric: map[string]bool{}, Floats: map[string]bool{}}
}

// enumConsts lists the named constants of an integer type, by value.
func (w *World) enumConsts(t types.Type) []*ssa.NamedConst {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	b, ok := n.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	p := w.P.ByPath[n.Obj().Pkg().Path()]
	if p == nil {
		return nil
	}
	var out []*ssa.NamedConst
	for _, m := range p.Members {
		if c, ok := m.(*ssa.NamedConst); ok && types.Identical(c.Type(), t) {
			out = append(out, c)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, _ := ai.ConstInt(&ai.Const{T: t, V: out[i].Value.Value})
		b, _ := ai.ConstInt(&ai.Const{T: t, V: out[j].Value.Value})
		return a < b || a == b && out[i].Name() < out[j].Name()
	})
	return out
}

func namedType(t types.Type) (pkg, name string) {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path(), n.Obj().Name()
	}
	return "", ""
}

// Leaf creates a leaf of a basic type.
func (b *ModelBuilder) Leaf(path string, t types.Type) ai.Val {
	b.Leafs = append(b.Leafs, path)
	mode := b.Sh.Leaf(path)
	z := ai.Zero(t)
	u := t.Underlying().(*types.Basic)
	b.Numeric[path] = u.Info()&types.IsNumeric != 0
	b.Floats[path] = u.Info()&types.IsFloat != 0
	if mode == 'z' {
		return z
	}
	if u.Info()&types.IsBoolean != 0 {
		if mode == 'f' {
			return &ai.Const{T: t, V: ai.Bool(true).V}
		}
		return ai.Atom(b.Pfx+path, t)
	}
	v := b.SymLeaf(b.Pfx+path, t, mode == 'f')
	if mode == 'f' && u.Info()&types.IsNumeric != 0 && b.Sh.Distinct {
		// values of different leaves differ
		n := int64(len(b.Leafs))
		lo, hi := n<<20, (n+1)<<20-1
		if u.Kind() == types.Uint8 {
			lo, hi = 0, 255
		}
		b.St.AssumeRange(b.Pfx+path, &lo, &hi)
	}
	return v
}

// SymLeaf creates a symbolic value of a basic type.
func (b *ModelBuilder) SymLeaf(id string, t types.Type, nonZero bool) ai.Val {
	s := ai.Atom(id, t)
	symFacts(b.St, id, t, nonZero)
	return s
}

func symFacts(st *ai.State, id string, t types.Type, nonZero bool) {
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	if u.Info()&types.IsInteger != 0 {
		lo, hi := int64(0), int64(0)
		switch u.Kind() {
		case types.Uint8:
			hi = 255
		case types.Uint16:
			hi = 65535
		case types.Uint32:
			hi = 1<<32 - 1
		case types.Int32:
			lo, hi = -1<<31, 1<<31-1
		default:
			hi = 1<<62 - 1
		}
		if nonZero {
			lo = 1
		}
		st.AssumeRange(id, &lo, &hi)
	}
	if u.Kind() == types.Float32 {
		st.AssumeF32(id)
		if strings.Contains(id, "Radius") {
			z := int64(0)
			st.AssumeRange(id, &z, nil)
		}
	}
	if nonZero {
		st.AssumeNe(id, ai.Zero(t))
		if u.Info()&types.IsString != 0 {
			st.AssumeNe("copy("+id+")", ai.Zero(t))
			one := int64(1)
			st.AssumeRange("len("+id+")", &one, nil)
		}
	}
}

// New allocates an abstract object holding v.
func (b *ModelBuilder) New(path string, v ai.Val) ai.Val {
	obj := b.Pfx + "obj:" + path
	b.St.SetRoot(obj, v)
	return &ai.Ptr{Obj: obj}
}

// Slice makes a slice of the given elements.
func (b *ModelBuilder) Slice(path string, t types.Type, vs []ai.Val) ai.Val {
	et := t.Underlying().(*types.Slice).Elem()
	if len(vs) == 0 {
		return ai.NilOf(t)
	}
	arr := &ai.Arr{Elem: et, M: map[int]ai.Val{}}
	for i, v := range vs {
		arr.M[i] = v
	}
	obj := b.Pfx + "arr:" + path
	b.St.SetRoot(obj, arr)
	n := ai.Int(int64(len(vs)))
	return &ai.Slice{T: t, Obj: obj, Len: n, Cap: n}
}

// Owner names the type of the struct whose fields are being built.
func (b *ModelBuilder) Owner() string {
	if len(b.owners) == 0 {
		return ""
	}
	return b.owners[len(b.owners)-1]
}

// Build creates the value of a place.
func (b *ModelBuilder) Build(path string, t types.Type) ai.Val {
	if b.Sh.Give != nil {
		if v, ok := b.Sh.Give(b, path, t); ok {
			return v
		}
	}
	pkg, name := namedType(t)
	switch {
	case pkg == "image/color" && name == "RGBA":
		return b.color(path, t)
	case name == "Matrix":
		return b.matrix(path, t)
	}
	if cs := b.W.enumConsts(t); len(cs) > 1 {
		b.Enums[path] = len(cs)
		i := b.Sh.Enum(path, len(cs))
		if i < 0 || i >= len(cs) {
			// the default is the zero value, unless it is not a valid one
			if n, ok := ai.ConstInt(&ai.Const{T: t, V: cs[0].Value.Value}); !ok || n <= 0 {
				return ai.Zero(t)
			}
			i = 0
		}
		return &ai.Const{T: t, V: cs[i].Value.Value}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return b.Leaf(path, t)
	case *types.Struct:
		b.owners = append(b.owners, name)
		defer func() { b.owners = b.owners[:len(b.owners)-1] }()
		a := &ai.Agg{T: t, Elems: make([]ai.Val, u.NumFields())}
		for i := range a.Elems {
			f := u.Field(i)
			if !f.Exported() {
				a.Elems[i] = ai.Zero(f.Type())
				continue
			}
			a.Elems[i] = b.Build(path+"."+f.Name(), f.Type())
		}
		return a
	case *types.Array:
		if u.Len() > 16 {
			return ai.Zero(t)
		}
		a := &ai.Agg{T: t, Elems: make([]ai.Val, u.Len())}
		for i := range a.Elems {
			a.Elems[i] = b.Build(fmt.Sprintf("%s(%d)", path, i), u.Elem())
		}
		return a
	case *types.Pointer:
		b.Ptrs = append(b.Ptrs, path)
		if b.Sh.Nil(path) {
			return ai.NilOf(t)
		}
		return b.New(path, b.Build(path, u.Elem()))
	case *types.Slice:
		b.Lists = append(b.Lists, path)
		n := b.Sh.Len(path)
		var vs []ai.Val
		for i := 0; i < n; i++ {
			vs = append(vs, b.Build(fmt.Sprintf("%s[%d]", path, i), u.Elem()))
		}
		return b.Slice(path, t, vs)
	}
	return ai.Zero(t)
}

func (b *ModelBuilder) color(path string, t types.Type) ai.Val {
	b.Leafs = append(b.Leafs, path)
	if b.Sh.Leaf(path) == 'z' {
		return ai.Zero(t)
	}
	u := t.Underlying().(*types.Struct)
	a := &ai.Agg{T: t, Elems: make([]ai.Val, u.NumFields())}
	for i := range a.Elems {
		a.Elems[i] = b.SymLeaf(b.Pfx+path+"."+u.Field(i).Name(), u.Field(i).Type(), false)
	}
	return a
}

// matrix is an affine transformation that is not the identity ('f' and 'u'),
// the zero value, or the identity (odd paths in 'z').
func (b *ModelBuilder) matrix(path string, t types.Type) ai.Val {
	b.Leafs = append(b.Leafs, path)
	z := ai.Zero(t)
	if b.Sh.Leaf(path) == 'z' {
		return z
	}
	u, ok := t.Underlying().(*types.Array)
	if !ok || u.Len() != 16 {
		return z
	}
	b.Mats = append(b.Mats, path)
	b.Floats[path] = true
	cell := -1
	if b.Sh.Cell != nil {
		cell = b.Sh.Cell(path)
	}
	a := &ai.Agg{T: t, Elems: make([]ai.Val, 16)}
	for i := range a.Elems {
		switch {
		case cell >= 0 && i != cell:
			k := int64(0)
			if i%5 == 0 {
				k = 1
			}
			a.Elems[i] = f32Const(u.Elem(), k)
		case cell >= 0:
			id := fmt.Sprintf("%s%s[%d]", b.Pfx, path, i)
			b.SymLeaf(id, u.Elem(), false)
			b.St.AssumeNe(id, f32Const(u.Elem(), 0))
			b.St.AssumeNe(id, f32Const(u.Elem(), 1))
			a.Elems[i] = ai.Atom(id, u.Elem())
		case i == 15:
			a.Elems[i] = f32Const(u.Elem(), 1)
		case i%4 == 3:
			a.Elems[i] = f32Const(u.Elem(), 0)
		default:
			id := fmt.Sprintf("%s%s[%d]", b.Pfx, path, i)
			b.SymLeaf(id, u.Elem(), false)
			if i == 0 {
				b.St.AssumeNe(id, f32Const(u.Elem(), 0))
				b.St.AssumeNe(id, f32Const(u.Elem(), 1))
			}
			a.Elems[i] = ai.Atom(id, u.Elem())
		}
	}
	return a
}

func f32Const(t types.Type, n int64) ai.Val { return &ai.Const{T: t, V: ai.Int(n).V} }
