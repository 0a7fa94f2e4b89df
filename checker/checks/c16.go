package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/ai"
)

const theModel = "MODEL"

// readOnly lists the operations that must not change the model they are
// given: receivers and parameters that are part of a model are named by atoms
// of the model.
func (r *Report) readOnly() (fns []*ssa.Function) {
	names := func(n string) bool {
		for _, p := range []string{"Find", "Walk", "Validate", "BoundingBox", "Marshal", "Identify", "Len", "String", "ObjectPath", "PathOrDefault", "XMLName", "HasTransform", "UnusedID", "Encode"} {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && len(f.Blocks) > 0 && f.Object() != nil && f.Object().Exported() && f.Synthetic == "" && names(f.Name()) && !seen[f] {
			seen[f] = true
			fns = append(fns, f)
		}
	}
	var paths []string
	for pp := range r.W.P.ByPath {
		if !strings.Contains(pp, "/internal/") && !strings.Contains(pp, "/importer/") && !strings.HasSuffix(pp, "/errors") && !strings.HasSuffix(pp, "/cmd") {
			paths = append(paths, pp)
		}
	}
	sort.Strings(paths)
	for _, pp := range paths {
		p := r.W.P.ByPath[pp]
		for _, n := range sortedKeys(p.Members) {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok || !m.Object().Exported() || nt.TypeParams().Len() > 0 || types.IsInterface(nt) {
					continue
				}
				ms := types.NewMethodSet(types.NewPointer(nt))
				for i := 0; i < ms.Len(); i++ {
					if o, ok := ms.At(i).Obj().(*types.Func); ok {
						add(r.W.P.SSA.FuncValue(o))
					}
				}
			}
		}
	}
	return fns
}

// pure lists functions outside the repository that change nothing reachable
// from their arguments, except streams and writers.
func pureExternal(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "fmt.Sprint", "fmt.Errorf", "errors.", "math.", "unicode", "sort.Search", "encoding/xml.Escape", "(encoding/xml.Name)", "(*bufio.Writer).", "bufio.", "io.", "path.", "path/filepath.", "(image/color.", "image/color.", "github.com/qmuntal/opc.", "(*github.com/qmuntal/opc.", "bytes.Equal", "bytes.NewReader", "os.", "(*os.File)", "(*strings.Builder)", "(*bytes.Buffer)", "(*sync.", "sync."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func mutable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Interface:
		return !types.Identical(t, errorT)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mutable(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

type effects struct {
	r     *Report
	e     *ai.Engine
	fails map[string]string
	sites map[string]bool
	found map[effectJob]bool
	errs  *ssa.Package
}

func (w *effects) fail(key, f string, a ...any) {
	if w.fails[key] == "" {
		w.fails[key] = fmt.Sprintf(f, a...)
	}
}

// memoryKey names the kind of memory a pointer, slice or map gives access to.
func memoryKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem().String()
	case *types.Slice:
		return u.Elem().String()
	case *types.Map:
		return u.String()
	}
	return t.String()
}

// modelMemory lists the types of memory that may be part of a model.
func (r *Report) modelMemory() map[string]bool {
	out, seen := map[string]bool{}, map[string]bool{}
	var visit func(t types.Type)
	var inner func(t types.Type)
	var ifaces []*types.Interface
	inner = func(t types.Type) { // t is stored in memory
		out[t.String()] = true
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				inner(u.Field(i).Type())
			}
		case *types.Array:
			inner(u.Elem())
		}
		visit(t)
	}
	visit = func(t types.Type) {
		if seen[t.String()] {
			return
		}
		seen[t.String()] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			inner(u.Elem())
		case *types.Slice:
			inner(u.Elem())
		case *types.Map:
			out[u.String()] = true
			visit(u.Key())
			visit(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				visit(u.Field(i).Type())
			}
		case *types.Interface:
			if u.NumMethods() > 0 && !types.Identical(t, errorT) {
				pk, _ := namedType(t)
				if strings.HasPrefix(pk, modulePath(r)) {
					ifaces = append(ifaces, u)
					for _, it := range r.W.implementations(u) {
						visit(it)
						inner(elemType(it))
					}
				}
			} else if u.NumMethods() == 0 { // tokens
				for _, n := range []string{"StartElement", "EndElement", "CharData", "Comment", "ProcInst", "Directive"} {
					if p := r.W.P.SSA.ImportedPackage("encoding/xml"); p != nil && p.Type(n) != nil {
						inner(p.Type(n).Type())
					}
				}
			}
		}
	}
	inner(r.W.Type("", "Model"))
	return out
}

// inModel tells whether a value refers to memory of the model.
func inModel(v ai.Val) string {
	worse := func(vs []ai.Val) string {
		res := "no"
		for _, x := range vs {
			switch inModel(x) {
			case "yes":
				return "yes"
			case "unknown":
				res = "unknown"
			}
		}
		return res
	}
	ref := func(k string) string {
		for again := true; again; {
			again = false
			for _, p := range []string{"*", "[]", "$", "lookup(", "{}"} {
				if strings.HasPrefix(k, p) {
					k, again = k[len(p):], true
				}
			}
		}
		if strings.HasPrefix(k, theModel) {
			return "yes"
		}
		return "no"
	}
	switch x := v.(type) {
	case nil, *ai.Const, *ai.Bytes, *ai.Func:
		return "no"
	case *ai.Top:
		return "unknown"
	case *ai.Set:
		return worse(x.Alts)
	case *ai.Iface:
		return inModel(x.V)
	case *ai.Agg:
		return worse(x.Elems)
	case *ai.Ptr:
		return ref(x.Obj)
	case *ai.Slice:
		return ref(x.Obj)
	case *ai.Sym:
		return ref(x.ID)
	}
	return "unknown"
}

// contract replaces a call of an interface method of the library by Top and
// puts each implementation on the list of functions to judge, and does the
// same with recursive calls.
func (w *effects) contract(c *ai.CallCtx) ([]ai.Out, bool) {
	var vs []ai.Val
	top := func() []ai.Out {
		for i := 0; i < c.Res.Len(); i++ {
			vs = append(vs, &ai.Top{T: c.Res.At(i).Type()})
		}
		return result(c.St, vs)
	}
	classes := func(vals []ai.Val) string {
		s := ""
		for _, v := range vals {
			if inModel(v) == "no" {
				s += "-"
			} else {
				s += "m"
			}
		}
		return s
	}
	if c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg == w.errs && c.Fn.Name() != "Error" {
		return top(), true
	}
	if c.Fn != nil && len(c.Fn.FreeVars) == 0 {
		for _, f := range c.Stack {
			if f == c.Fn && w.e.InRepo(f) {
				w.found[effectJob{f, classes(c.Args)}] = true
				return top(), true
			}
		}
	}
	if c.Fn != nil || c.Method == nil {
		return nil, false
	}
	switch x := c.Recv.(type) {
	case *ai.Iface, *ai.Set:
		return nil, false
	case *ai.Sym:
		if c.St.Fact(x.ID).Dyn != nil {
			return nil, false
		}
	}
	pk, _ := namedType(c.IType)
	if !strings.HasPrefix(pk, modulePath(w.r)) {
		return nil, false
	}
	cl := classes(append([]ai.Val{c.Recv}, c.Args...))
	for _, t := range w.r.W.implementors(c.IType.Underlying().(*types.Interface)) {
		if f := w.r.W.P.SSA.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); f != nil {
			w.found[effectJob{f, cl}] = true
		}
	}
	return top(), true
}

// effectJob is a function to judge and which of its parameters belong to the
// model.
type effectJob struct {
	fn      *ssa.Function
	classes string
}

func result(st *ai.State, vs []ai.Val) []ai.Out {
	switch len(vs) {
	case 0:
		return []ai.Out{{St: st}}
	case 1:
		return []ai.Out{{St: st, Res: vs[0]}}
	}
	return []ai.Out{{St: st, Res: &ai.Tuple{Elems: vs}}}
}

// errorEffects checks that the functions of the errors package write no kind
// of memory a model may contain, except what they allocate.
func (r *Report) errorEffects(p *ssa.Package, memory map[string]bool) {
	for fn := range ssautil.AllFunctions(r.W.P.SSA) {
		if fn.Pkg != p {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var t types.Type
				what := "store"
				switch in := in.(type) {
				case *ssa.Store:
					a := ai.BaseOf(in.Addr)
					switch a.(type) {
					case *ssa.Alloc, *ssa.MakeSlice, *ssa.Global:
						continue
					}
					t = a.Type()
				case *ssa.MapUpdate:
					t, what = in.Map.Type(), "map update"
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear":
							t, what = in.Call.Args[0].Type(), bi.Name()
						}
					}
				}
				if t != nil {
					r.Assert(!memory[memoryKey(t)], "the errors package changes only errors", "errors: "+what+" in "+fnLabel(fn), fnLabel(fn), "%s at %s may change memory of a model", what, r.W.P.Pos(r.W.P.SSA.Fset.Position(in.Pos())))
				}
			}
		}
	}
}

func (r *Report) c16Run(job effectJob, memory map[string]bool) map[effectJob]bool {
	fn := job.fn
	w := &effects{r: r, e: r.W.Engine(), fails: map[string]string{}, sites: map[string]bool{}, found: map[effectJob]bool{}, errs: r.W.P.Pkg("errors")}
	e := w.e
	label := fnLabel(fn)
	e.Peel, e.WidenAfter, e.Coarse = 0, 2, true
	e.Debug = os.Getenv("AIDBG") != ""
	e.OnTarget = func(st *ai.State, in *ssa.Function, pos token.Position, kind string, target ai.Val, t types.Type) {
		at := r.W.P.Pos(pos)
		w.sites[kind+" at "+at] = true
		if !memory[memoryKey(t)] {
			return // no model contains memory of this type
		}
		switch inModel(target) {
		case "yes":
			w.fail(kind+" in "+fnLabel(in), "%s: %s at %s changes memory of the model (%s)", label, kind, at, short(target))
		case "unknown":
			w.fail("undecided "+kind+" in "+fnLabel(in), "%s: %s at %s: cannot tell what memory is changed (%s)", label, kind, at, short(target))
		}
	}
	e.Intercept = func(c *ai.CallCtx) ([]ai.Out, bool) { return w.contract(c) }
	e.OnExternal = func(c *ai.CallCtx, name string) {
		if pureExternal(name) || c.Method == nil && c.Fn == nil {
			if _, top := c.Recv.(*ai.Top); top && c.Fn == nil && c.Method == nil {
				w.fail("undecided call at "+r.W.P.Pos(c.Pos()), "%s: cannot tell which function is called at %s", label, r.W.P.Pos(c.Pos()))
			}
			return
		}
		if c.Method != nil {
			switch c.IType.String() {
			case "io.Writer", "io.Reader", "io.Closer", "error", "io.ReadCloser", "io.WriteCloser", "fmt.Stringer":
				return
			}
			name = c.IType.String() + "." + name
		}
		for i, a := range append([]ai.Val{c.Recv}, c.Args...) {
			if a == nil {
				continue
			}
			t := ai.ValType(a)
			if i > 0 && c.Sig != nil && i-1 < c.Sig.Params().Len() {
				t = c.Sig.Params().At(i - 1).Type()
			}
			if t != nil && !mutable(t) {
				continue
			}
			if x := inModel(a); x != "no" {
				w.fail("call of "+shortName(name), "%s: %s at %s is given memory of the model (%s)", label, shortName(name), r.W.P.Pos(c.Pos()), short(a))
			}
		}
	}
	st := e.NewState()
	var args []ai.Val
	for i, p := range fn.Params {
		id := fmt.Sprintf("arg%d", i)
		if i < len(job.classes) && job.classes[i] == 'm' {
			id = fmt.Sprintf("%s%d", theModel, i)
		}
		if _, ok := p.Type().Underlying().(*types.Pointer); ok && i == 0 && fn.Signature.Recv() != nil {
			st.NonNil(id)
		}
		args = append(args, ai.Atom(id, p.Type()))
	}
	outs := e.Call(st, fn, args, nil, label, nil)
	r.Assert(len(outs) > 0, "the operation returns", label, label, "no path of %s returns (limits %v)", label, e.Limits)
	r.limits(e, label)
	r.engineFns(e)
	r.Count("writing instructions judged", len(w.sites))
	if len(w.fails) == 0 {
		r.OK("the operation changes nothing reachable from the model", label)
	}
	for _, k := range sortedKeys(w.fails) {
		r.Fail(k, label, "%s", w.fails[k])
	}
	return w.found
}

// publicClasses tells which parameters of an operation belong to a model.
func (r *Report) publicClasses(fn *ssa.Function) string {
	s := ""
	for i, p := range fn.Params {
		pk, n := namedType(elemType(p.Type()))
		c := "-"
		if _, ok := p.Type().Underlying().(*types.Interface); strings.HasPrefix(pk, modulePath(r)) && n != "Encoder" && (!ok || n == "Asset") || n == "" && i == 0 {
			c = "m"
		}
		s += c
	}
	return s
}

func modulePath(r *Report) string {
	if p := r.W.P.Pkg(""); p != nil {
		return p.Pkg.Path()
	}
	return "?"
}

func checkC16(r *Report) {
	r.Rule("effect analysis by abstract interpretation: for a model of any content, no store, map update, append or copy reached from a read-only operation may have memory reachable from the model as its target")
	fns := r.readOnly()
	memory := r.modelMemory()
	if p := r.W.P.Pkg("errors"); p != nil {
		r.errorEffects(p, memory)
	}
	r.Count("types of memory of a model", len(memory))
	seen := map[effectJob]bool{}
	var jobs []effectJob
	for _, f := range fns {
		j := effectJob{f, r.publicClasses(f)}
		seen[j] = true
		jobs = append(jobs, j)
	}
	for len(jobs) > 0 {
		found := make([]map[effectJob]bool, len(jobs))
		parallel(len(jobs), func(i int) { found[i] = r.c16Run(jobs[i], memory) })
		jobs = nil
		for _, f := range found {
			for j := range f {
				if !seen[j] {
					seen[j] = true
					jobs = append(jobs, j)
				}
			}
		}
	}
	r.Count("functions judged as entries", len(seen))
}
