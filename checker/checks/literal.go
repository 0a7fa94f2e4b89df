package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"verif/checker/ai"
)

// F is a literal of a struct by field names; missing fields are zero.
type F map[string]any

// L is a literal of a list, M of a map.
type (
	L []any
	M []MapEntry
)

// MapEntry is an entry of a map literal.
type MapEntry struct {
	Key string
	Val any
}

// Dyn is a pointer to a struct of a named type held in an interface.
type Dyn struct {
	Pkg, Type string
	F         F
}

// literal turns literals into abstract values of Go types.
type literal struct {
	w   *World
	st  *ai.State
	pfx string
	n   int
	err error
}

func (b *literal) fail(f string, a ...any) {
	if b.err == nil {
		b.err = fmt.Errorf(f, a...)
	}
}

func (b *literal) id() string {
	b.n++
	return fmt.Sprintf("%s%d", b.pfx, b.n)
}

// val converts x to a value of type t.
func (b *literal) val(t types.Type, x any) ai.Val {
	switch v := x.(type) {
	case nil:
		return ai.Zero(t)
	case ai.Val:
		return v
	case Dyn:
		nt := b.w.Type(v.Pkg, v.Type)
		if nt == nil {
			b.fail("type %s.%s not found", v.Pkg, v.Type)
			return ai.Zero(t)
		}
		return &ai.Iface{Dyn: types.NewPointer(nt), V: b.val(types.NewPointer(nt), v.F)}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		id := b.id()
		b.st.SetRoot(id, b.val(u.Elem(), x))
		return &ai.Ptr{Obj: id}
	case *types.Struct:
		f, ok := x.(F)
		if !ok {
			b.fail("%T given for %s", x, t)
			return ai.Zero(t)
		}
		z := ai.Zero(t).(*ai.Agg)
		n := &ai.Agg{T: z.T, Elems: append([]ai.Val(nil), z.Elems...)}
		for _, k := range sortedKeys(f) {
			i := fieldIndex(t, k)
			if i < 0 {
				b.fail("%s has no field %s", t, k)
				continue
			}
			n.Elems[i] = b.val(u.Field(i).Type(), f[k])
		}
		return n
	case *types.Slice:
		l, ok := x.(L)
		if !ok {
			b.fail("%T given for %s", x, t)
			return ai.Zero(t)
		}
		if len(l) == 0 {
			return ai.Zero(t)
		}
		id := b.id()
		arr := &ai.Arr{Elem: u.Elem(), M: map[int]ai.Val{}}
		for i, e := range l {
			arr.M[i] = b.val(u.Elem(), e)
		}
		b.st.SetRoot(id, arr)
		return &ai.Slice{T: t, Obj: id, Len: ai.Int(int64(len(l))), Cap: ai.Int(int64(len(l)))}
	case *types.Array:
		l, ok := x.(L)
		z, isAgg := ai.Zero(t).(*ai.Agg)
		if !ok || !isAgg || len(l) > len(z.Elems) {
			b.fail("%T given for %s", x, t)
			return ai.Zero(t)
		}
		n := &ai.Agg{T: z.T, Elems: append([]ai.Val(nil), z.Elems...)}
		for i, e := range l {
			n.Elems[i] = b.val(u.Elem(), e)
		}
		return n
	case *types.Map:
		l, ok := x.(M)
		if !ok {
			b.fail("%T given for %s", x, t)
			return ai.Zero(t)
		}
		m := &ai.Map{T: u, Exact: true}
		for _, e := range l {
			m.Keys = append(m.Keys, ai.Str(e.Key))
			m.Vals = append(m.Vals, b.val(u.Elem(), e.Val))
		}
		id := b.id()
		b.st.SetRoot(id, m)
		return &ai.Ptr{Obj: id}
	case *types.Basic:
		switch v := x.(type) {
		case string:
			if u.Info()&types.IsString != 0 {
				return &ai.Const{T: t, V: constant.MakeString(v)}
			}
		case int:
			if u.Info()&types.IsNumeric != 0 {
				return &ai.Const{T: t, V: ai.Int(int64(v)).V}
			}
		case bool:
			if u.Info()&types.IsBoolean != 0 {
				return &ai.Const{T: t, V: ai.Bool(v).V}
			}
		}
	}
	b.fail("%T given for %s", x, t)
	return ai.Zero(t)
}

// cloneLit copies a literal.
func cloneLit(x any) any {
	switch v := x.(type) {
	case F:
		n := F{}
		for k, e := range v {
			n[k] = cloneLit(e)
		}
		return n
	case L:
		n := L{}
		for _, e := range v {
			n = append(n, cloneLit(e))
		}
		return n
	case M:
		n := M{}
		for _, e := range v {
			n = append(n, MapEntry{e.Key, cloneLit(e.Val)})
		}
		return n
	case Dyn:
		return Dyn{v.Pkg, v.Type, cloneLit(v.F).(F)}
	}
	return x
}

// litStep splits a path like "Resources.Objects[1].Mesh" or "Childs{/a}.Any".
func litStep(p string) (head string, rest string) {
	switch {
	case strings.HasPrefix(p, "."):
		p = p[1:]
	case strings.HasPrefix(p, "["):
		i := strings.Index(p, "]")
		return p[:i+1], p[i+1:]
	case strings.HasPrefix(p, "{"):
		i := strings.Index(p, "}")
		return p[:i+1], p[i+1:]
	}
	if i := strings.IndexAny(p, ".[{"); i >= 0 {
		return p[:i], p[i:]
	}
	return p, ""
}

// litSet replaces the place p of a literal by what f gives for what is there.
func litSet(x any, p string, f func(old any) any) any {
	if p == "" {
		return f(x)
	}
	h, rest := litStep(p)
	switch v := x.(type) {
	case Dyn:
		v.F = litSet(v.F, p, f).(F)
		return v
	case F:
		v[h] = litSet(v[h], rest, f)
		return v
	case L:
		var i int
		if _, err := fmt.Sscanf(h, "[%d]", &i); err != nil || i >= len(v) {
			panic("literal: no place " + p)
		}
		v[i] = litSet(v[i], rest, f)
		return v
	case M:
		for i := range v {
			if "{"+v[i].Key+"}" == h {
				v[i].Val = litSet(v[i].Val, rest, f)
				return v
			}
		}
	}
	panic(fmt.Sprintf("literal: no place %s in %T", p, x))
}

// litGet returns the place p of a literal.
func litGet(x any, p string) (r any) {
	litSet(cloneLit(x), p, func(old any) any { r = old; return old })
	return r
}
