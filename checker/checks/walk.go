package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// Walk visits every value reachable from v; visit returns false to prune.
func Walk(st *ai.State, v ai.Val, visit func(path string, v ai.Val) bool) {
	seen := map[string]bool{}
	var rec func(p string, v ai.Val)
	rec = func(p string, v ai.Val) {
		if v == nil {
			return
		}
		if s, ok := v.(*ai.Sym); ok {
			v = st.Resolve(s)
		}
		if !visit(p, v) {
			return
		}
		switch x := v.(type) {
		case *ai.Agg:
			for i, e := range x.Elems {
				rec(p+comp(x.T, i), e)
			}
		case *ai.Tuple:
			for i, e := range x.Elems {
				rec(fmt.Sprintf("%s#%d", p, i), e)
			}
		case *ai.Set:
			for _, e := range x.Alts {
				rec(p, e)
			}
		case *ai.Iface:
			rec(p, x.V)
		case *ai.Func:
			for _, e := range x.Free {
				rec(p+"(closure)", e)
			}
		case *ai.Ptr:
			k := x.Key()
			if seen[k] {
				return
			}
			seen[k] = true
			rec(p, st.LoadPtr(x))
		case *ai.Slice:
			k := x.Key()
			if seen[k] {
				return
			}
			seen[k] = true
			if el, ok := st.SliceElems(x); ok {
				for i, e := range el {
					rec(fmt.Sprintf("%s[%d]", p, i), e)
				}
				return
			}
			rec(p+"[]", st.LoadPtr(&ai.Ptr{Obj: x.Obj, Path: x.Path}))
		case *ai.Arr:
			var ks []int
			for i := range x.M {
				ks = append(ks, i)
			}
			sort.Ints(ks)
			for _, i := range ks {
				rec(fmt.Sprintf("%s[%d]", p, i), x.M[i])
			}
			if x.Rest != nil {
				rec(p+"[*]", x.Rest)
			}
		case *ai.Bag:
			for _, e := range x.May {
				rec(p+"[*]", e)
			}
		case *ai.Map:
			for i := range x.Keys {
				kp := p + "{" + strings.Trim(x.Keys[i].Key(), "c\"") + "}"
				rec(kp+".key", x.Keys[i])
				rec(kp, x.Vals[i])
			}
		}
	}
	rec("", v)
}

// Nearest visits the values reachable from v, the nearest first, until found.
func Nearest(st *ai.State, v ai.Val, found func(v ai.Val) bool) {
	seen := map[string]bool{}
	queue := []ai.Val{v}
	for len(queue) > 0 {
		v, queue = queue[0], queue[1:]
		if v == nil {
			continue
		}
		if s, ok := v.(*ai.Sym); ok {
			v = st.Resolve(s)
		}
		if found(v) {
			return
		}
		switch x := v.(type) {
		case *ai.Agg:
			queue = append(queue, x.Elems...)
		case *ai.Tuple:
			queue = append(queue, x.Elems...)
		case *ai.Set:
			queue = append(queue, x.Alts...)
		case *ai.Iface:
			queue = append(queue, x.V)
		case *ai.Func:
			queue = append(queue, x.Free...)
		case *ai.Ptr:
			if k := x.Key(); !seen[k] {
				seen[k] = true
				queue = append(queue, st.LoadPtr(x))
			}
		case *ai.Slice:
			if st, ok := x.T.Underlying().(*types.Slice); ok {
				if _, ok := st.Elem().Underlying().(*types.Basic); ok {
					continue
				}
			}
			if k := x.Key(); !seen[k] {
				seen[k] = true
				if el, ok := st.SliceElems(x); ok {
					queue = append(queue, el...)
				} else {
					queue = append(queue, st.LoadPtr(&ai.Ptr{Obj: x.Obj, Path: x.Path}))
				}
			}
		case *ai.Arr:
			for _, e := range x.M {
				queue = append(queue, e)
			}
			queue = append(queue, x.Rest)
		case *ai.Bag:
			queue = append(queue, x.May...)
		case *ai.Map:
			queue = append(append(queue, x.Keys...), x.Vals...)
		}
	}
}

func comp(t types.Type, i int) string {
	if t != nil {
		if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
			return "." + s.Field(i).Name()
		}
	}
	return fmt.Sprintf("[%d]", i)
}

// analysedFns names the functions an engine interpreted.
func (r *Report) engineFns(e *ai.Engine) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for fn := range e.Fns {
		r.fns[fnLabel(fn)] = true
	}
}

func fnLabel(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), "github.com/hpinc/go3mf", "go3mf")
}

// limits reports analysis limits as undecided obligations.
func (r *Report) limits(e *ai.Engine, what string) {
	var ks []string
	for k := range e.Limits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.Fail("undecided: "+k, what, "the analysis reached a limit (%s) while interpreting %s; the obligation is undecided", k, what)
	}
}
