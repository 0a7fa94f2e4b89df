package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/ai"
)

// goSites lists the places of the library that start goroutines.
func (r *Report) goSites() []string {
	var out []string
	for fn := range ssautil.AllFunctions(r.W.P.SSA) {
		if fn.Pkg == nil && fn.Parent() == nil || !r.W.Eng.InRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
					out = append(out, r.W.P.Pos(r.W.P.SSA.Fset.Position(in.Pos())))
				case *ssa.Call:
					if f := in.Call.StaticCallee(); f != nil && f.String() == "(*sync.WaitGroup).Go" {
						out = append(out, r.W.P.Pos(r.W.P.SSA.Fset.Position(in.Pos())))
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// several is the shape of a model with two of everything and arbitrary
// contents.
func (r *Report) several(pfx string) *Shape {
	child := r.W.Type("", "ChildModel")
	return &Shape{Name: "several", Leaf: func(string) byte { return 'u' }, Cell: func(string) int { return -1 }, Enum: func(string, int) int { return -1 },
		Nil: func(string) bool { return false },
		Len: func(p string) int {
			switch lastComp(p) {
			case ".Objects", ".Items", ".Component", ".Vertex", ".Triangle":
				return 2
			}
			return 0
		},
		Give: func(b *ModelBuilder, p string, t types.Type) (ai.Val, bool) {
			switch {
			case lastComp(p) == ".Childs":
				m := &ai.Map{T: t.Underlying().(*types.Map), Exact: true}
				for _, k := range []string{"/3D/b.model", "/3D/a.model"} {
					cp := p + "{" + k + "}"
					m.Keys = append(m.Keys, ai.Str(k))
					m.Vals = append(m.Vals, b.New(cp, b.Build(cp, child)))
				}
				return b.New(p, m), true
			}
			return nil, false
		}}
}

func (r *Report) c22Method(typ, op string) *conc {
	fn := r.W.Method("", typ, op)
	label := typ + "." + op
	if fn == nil {
		r.Fail("undecided: "+label, label, "%s not found", label)
		return nil
	}
	e := r.W.Engine()
	st := e.NewState()
	b := r.W.NewBuilder(st, r.several(op), "m")
	m := b.New(typ, b.Build(typ, r.W.Type("", typ)))
	args := []ai.Val{m}
	for _, p := range fn.Params[1:] {
		id := "arg:" + p.Name()
		st.NonNil(id)
		args = append(args, ai.Atom(id, p.Type()))
	}
	w := r.newConc(e, label)
	outs := e.Call(st, fn, args, nil, label, nil)
	w.outs(outs)
	return w
}

func (w *conc) outs(outs []ai.Out) {
	if len(outs) == 0 && len(w.fails) == 0 {
		w.fail("undecided: "+w.label, "no path of %s returns (limits %v)", w.label, w.e.Limits)
	}
	w.finish(outs)
	w.r.limits(w.e, w.label)
	w.r.engineFns(w.e)
}

// c22Decode decodes a package with two child parts, each with every element.
func (r *Report) c22Decode(strict bool, bad bool, failing string) *conc {
	val := func(a *AttrSpec, name string) ai.Val { return BytesVal(goodText(a)) }
	if bad {
		val = func(a *AttrSpec, name string) ai.Val {
			if a.Kind == "u32" {
				return BytesVal("x")
			}
			return BytesVal(goodText(a))
		}
	}
	label := fmt.Sprintf("DecodeContext (strict %v, malformed values %v)", strict, bad)
	doc := func() []Tok { return fullDoc(val) }
	if failing != "" {
		label = "DecodeContext (" + failing + ")"
		doc = func() []Tok { return Elem(nsCore, "model", nil, Elem(nsCore, "resources", nil)) }
	}
	names := []string{"/3D/a.model", "/3D/b.model", "/3D/c.model"}
	if failing != "" {
		names = names[:2]
	}
	pkg := &AbsPkg{Rels: []AbsRel{{"r0", relModel, "/3D/3dmodel.model"}}}
	root := AbsFile{Name: "/3D/3dmodel.model", ContentType: ct3DModel, Tokens: doc()}
	for i, n := range names {
		root.Rels = append(root.Rels, AbsRel{fmt.Sprintf("r%d", i+1), relModel, n})
	}
	pkg.Files = append(pkg.Files, root)
	for _, n := range names {
		pkg.Files = append(pkg.Files, AbsFile{Name: n, ContentType: ct3DModel, Tokens: doc()})
	}
	rd := r.W.NewReader(nil)
	rd.Pkg = pkg
	rd.Parse = func(ai.Val) string { return "ok" }
	rd.E.MaxRec = 4
	switch failing {
	case "parts that cannot be opened":
		rd.Fails = func(s string) bool { return strings.HasPrefix(s, "open ") && !strings.HasSuffix(s, "3dmodel.model") }
	case "parts that cannot be parsed":
		rd.TokenErr = func(c *ai.CallCtx, part string, pos int) ai.Val { return ai.ErrAtom(c.St, "err:token") }
	case "cancelled contexts":
		rd.E.OnSelect, rd.E.MaxParts = nil, 512
	}
	w := r.newConc(rd.E, label)
	outs, err := rd.RunPackage(strict)
	if err != nil {
		w.fail("undecided: "+label, "%s: %v", label, err)
	}
	w.outs(outs)
	return w
}

func checkC22(r *Report) {
	r.Rule("goroutines are interpreted where they start; each access to memory is recorded with the goroutine, the locks held and the goroutines it is not ordered with (start, Done/Wait, send/receive and Once order accesses): two accesses to overlapping memory, one of them a write, by goroutines that are not ordered need a common lock; at return every goroutine has been waited for and every lock released")
	runs := []func() *conc{
		func() *conc { return r.c22Method("Model", "BoundingBox") },
		func() *conc { return r.c22Method("Model", "ValidateCoherency") },
		func() *conc { return r.c22Decode(true, false, "") },
		func() *conc { return r.c22Decode(false, true, "") },
		func() *conc { return r.c22Decode(true, true, "") },
		func() *conc { return r.c22Decode(true, false, "parts that cannot be opened") },
		func() *conc { return r.c22Decode(true, false, "parts that cannot be parsed") },
		func() *conc { return r.c22Decode(true, false, "cancelled contexts") },
	}
	ws := make([]*conc, len(runs))
	parallel(len(runs), func(i int) { ws[i] = runs[i]() })
	reached := map[string]bool{}
	for _, w := range ws {
		if w == nil {
			continue
		}
		for s := range w.sites {
			reached[s] = true
		}
		bad, pairs := w.conflicts(true)
		r.Count("goroutines interpreted", len(w.insts))
		r.Count("objects shared or not accessed while goroutines run", len(w.recs))
		r.Count("pairs of unordered accesses compared", pairs)
		for _, s := range bad {
			r.Fail("race: "+s, w.label, "%s: %s", w.label, s)
		}
		for _, k := range sortedKeys(w.fails) {
			r.Fail(k, w.label, "%s: %s", w.label, w.fails[k])
		}
		if len(bad)+len(w.fails) == 0 {
			r.OK("no unordered conflicting accesses; goroutines awaited; locks released", w.label)
		}
	}
	for _, s := range r.goSites() {
		r.Assert(reached[s], "goroutines started here are analysed", s, s, "the goroutine started at %s is not reached by the analysed operations (%s)", s, strings.Join(sortedKeys(reached), ", "))
	}
}
