package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/load"
)

// World is the analysed program with its package-level state initialised.
type World struct {
	P   *load.Program
	Eng *ai.Engine // template: holds the heap after package initialisation
}

// NewWorld abstractly runs the package initialisers of the repository.
func NewWorld(p *load.Program) (*World, error) {
	w := &World{P: p, Eng: ai.New(p.SSA, load.InRepo)}
	d := newPolys()
	w.Eng.Intercept = func(c *ai.CallCtx) ([]ai.Out, bool) {
		if c.Fn != nil && c.Fn.Name() == "Inf" {
			return d.intercept(c)
		}
		return nil, false
	}
	st := w.Eng.NewState()
	var paths []string
	for pp := range p.ByPath {
		paths = append(paths, pp)
	}
	sort.Strings(paths)
	for _, pp := range paths {
		fn := p.ByPath[pp].Func("init")
		if fn == nil {
			continue
		}
		outs := w.Eng.Call(st, fn, nil, nil, "init:"+pp, nil)
		if len(outs) != 1 {
			return nil, fmt.Errorf("package initialiser of %s is not deterministic (%d outcomes)", pp, len(outs))
		}
		st = outs[0].St
	}
	w.Eng.Intercept = nil
	w.Eng.SetBase(st)
	return w, nil
}

// Engine returns a fresh engine over the initialised program.
func (w *World) Engine() *ai.Engine {
	e := w.Eng.Clone()
	e.BaseFacts["io.EOF"] = &ai.Fact{NonNil: true}
	return e
}

// Type finds a named type: Type("materials", "Texture2D").
func (w *World) Type(rel, name string) types.Type {
	p := w.P.Pkg(rel)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// Func finds a package-level function.
func (w *World) Func(rel, name string) *ssa.Function {
	p := w.P.Pkg(rel)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// Method finds a method of a named type (pointer receiver set).
func (w *World) Method(rel, typ, name string) *ssa.Function {
	t := w.Type(rel, typ)
	if t == nil {
		return nil
	}
	return w.P.SSA.LookupMethod(types.NewPointer(t), w.P.Pkg(rel).Pkg, name)
}

// ConstString returns the value of a package-level string constant.
func (w *World) ConstString(rel, name string) string {
	p := w.P.Pkg(rel)
	if p == nil {
		return ""
	}
	c := p.Const(name)
	if c == nil || c.Value == nil {
		return ""
	}
	s, _ := ai.ConstStr(&ai.Const{T: c.Type(), V: c.Value.Value})
	return s
}

func fieldIndex(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// GetPath reads a dotted path (fields, [i], * through pointers) from a
// pointer value.
func GetPath(st *ai.State, v ai.Val, path string) ai.Val {
	for path != "" {
		switch {
		case path[0] == '.':
			path = path[1:]
			end := strings.IndexAny(path, ".[")
			if end < 0 {
				end = len(path)
			}
			name := path[:end]
			path = path[end:]
			v = deref(st, v)
			t := ai.ValType(v)
			if t == nil {
				return nil
			}
			i := fieldIndex(t, name)
			if i < 0 {
				return nil
			}
			v = st.Sel(v, i)
		case path[0] == '[':
			end := strings.IndexByte(path, ']')
			var n int
			fmt.Sscanf(path[1:end], "%d", &n)
			path = path[end+1:]
			if ag, ok := v.(*ai.Agg); ok {
				v = st.Sel(ag, n)
				continue
			}
			el, ok := st.SliceElems(v)
			if ok {
				if n >= len(el) {
					return nil
				}
				v = el[n]
				continue
			}
			v = st.LoadPtr(st.ElemPtr(v, ai.Int(int64(n))))
		default:
			return nil
		}
		v = st.Resolve(v)
	}
	return v
}

func deref(st *ai.State, v ai.Val) ai.Val {
	for {
		if i, ok := v.(*ai.Iface); ok {
			v = i.V
			continue
		}
		switch x := v.(type) {
		case *ai.Ptr:
			v = st.LoadPtr(x)
			continue
		case *ai.Sym:
			if _, ok := x.T.Underlying().(*types.Pointer); ok {
				v = st.LoadPtr(x)
				continue
			}
		}
		return v
	}
}
