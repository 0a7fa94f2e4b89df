package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// graph is a model given by what its objects refer to.
type graph struct {
	edges  [][]int // by object
	part   []int   // of each object: the root part, or a child part
	meshes bool    // whether objects without components have a mesh with a vertex
	bare   bool    // whether the path of the root part is left out of the model
	only   int     // the only object of the build, or all if negative
}

func (g graph) String() string {
	var sb strings.Builder
	for i, l := range g.edges {
		if i > 0 {
			sb.WriteString(", ")
		}
		fmt.Fprintf(&sb, "%d (in %s) -> %v", i, []string{rootPart, childPart, otherPart}[g.part[i]], l)
	}
	return sb.String()
}

// model builds the model of the graph.
func (g graph) model(w *World) F {
	parts := []string{rootPart, childPart, otherPart}
	res := make([]F, 3)
	for p := range res {
		stack := F{"ID": 7, "Refs": L{F{"SliceStackID": 7, "Path": parts[(p+1)%3]}, F{"SliceStackID": 7, "Path": parts[(p+2)%3]}}}
		res[p] = F{"Assets": L{Dyn{"slices", "SliceStack", stack}}, "Objects": L{}}
	}
	var items L
	for i, l := range g.edges {
		f := F{"ID": 10 + i, "AnyAttr": L{Dyn{"production", "ObjectAttr", F{"UUID": goodUUID}}, Dyn{"slices", "ObjectAttr", F{"SliceStackID": 7}}}}
		if len(l) > 0 {
			var cs L
			for _, to := range l {
				c := F{"ObjectID": 10 + to}
				if to < 0 || to >= len(g.edges) {
					c["ObjectID"] = 99
				} else if g.part[to] != g.part[i] {
					c["AnyAttr"] = L{Dyn{"production", "ComponentAttr", F{"UUID": goodUUID, "Path": parts[g.part[to]]}}}
				}
				cs = append(cs, c)
			}
			f["Components"] = F{"Component": cs}
		} else if g.meshes {
			f["Mesh"] = F{"Vertices": F{"Vertex": L{L{1, 2, 3}}}}
		}
		p := g.part[i]
		res[p]["Objects"] = append(res[p]["Objects"].(L), f)
		if g.only < 0 || g.only == i {
			it := F{"ObjectID": 10 + i}
			if p != 0 {
				it["AnyAttr"] = L{Dyn{"production", "ItemAttr", F{"UUID": goodUUID, "Path": parts[p]}}}
			}
			items = append(items, it)
		}
	}
	ext := func(pkg string) F {
		return F{"Namespace": w.ConstString(pkg, "Namespace"), "LocalName": pkg[:1]}
	}
	m := F{
		"Path":       rootPart,
		"Extensions": L{ext("slices"), ext("production"), ext("materials"), ext("beamlattice")},
		"Resources":  res[0],
		"Build":      F{"Items": items},
		"Childs":     M{{childPart, F{"Resources": res[1]}}, {otherPart, F{"Resources": res[2]}}},
	}
	if g.bare {
		delete(m, "Path")
	}
	return m
}

// graphs enumerates the graphs of up to three objects and longer cycles.
func (r *Report) graphs() []graph {
	var out []graph
	add := func(g graph) { out = append(out, g) }
	sub := func(n, mask int) []int {
		var l []int
		for i := 0; i < n; i++ {
			if mask>>i&1 == 1 {
				l = append(l, i)
			}
		}
		return l
	}
	add(graph{edges: [][]int{{0}}, part: []int{0}, only: -1})
	add(graph{edges: [][]int{{0, 0}}, part: []int{1}, only: -1})
	add(graph{edges: [][]int{{0, 9, 0}}, part: []int{0}, only: -1, bare: true})
	for k := 0; k < 16; k++ {
		for pi, part := range [][]int{{0, 0}, {0, 1}, {1, 1}, {1, 2}} {
			add(graph{edges: [][]int{sub(2, k), sub(2, k>>2)}, part: part, meshes: (k+pi)%2 == 0, bare: k%3 == 0, only: -1})
		}
	}
	parts3 := [][]int{{0, 0, 0}, {0, 1, 2}, {1, 1, 0}, {0, 1, 1}, {1, 2, 1}, {0, 0, 1}}
	for k := 0; k < 512; k++ {
		for pi, part := range parts3 {
			if !r.Thorough() && (k*5+k/7+k/64)%len(parts3) != pi {
				continue
			}
			add(graph{edges: [][]int{sub(3, k), sub(3, k>>3), sub(3, k>>6)}, part: part, meshes: (k+pi)%2 == 0, bare: k%5 == 0, only: []int{-1, -1, 0, 1}[(k+k/9)%4]})
		}
	}
	// cycles with a way in
	max := 7
	if r.Thorough() {
		max = 10
	}
	for n := 3; n <= max; n++ {
		for back := 0; back < n; back++ {
			for v := 0; v < 3; v++ {
				g := graph{edges: make([][]int, n), part: make([]int, n), only: []int{-1, 0, n - 1}[v], bare: v == 1}
				for i := 0; i < n; i++ {
					g.edges[i] = []int{i + 1}
					g.part[i] = (i * v) % 3
				}
				g.edges[n-1] = []int{back}
				if v == 2 {
					g.edges[n-1] = []int{99, back}
				}
				add(g)
			}
		}
	}
	return out
}

// onModels lists the operations on a whole model: they are given a model and,
// at most, functions to call.
func (r *Report) onModels() []*ssa.Function {
	mt := r.W.Type("", "Model")
	if mt == nil {
		return nil
	}
	fits := func(fn *ssa.Function) bool {
		if fn == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() || len(fn.Params) == 0 || !types.Identical(fn.Params[0].Type(), types.NewPointer(mt)) {
			return false
		}
		for _, p := range fn.Params[1:] {
			if _, ok := p.Type().Underlying().(*types.Signature); !ok {
				return false
			}
		}
		return true
	}
	var out []*ssa.Function
	for _, pp := range sortedKeys(r.W.P.ByPath) {
		p := r.W.P.ByPath[pp]
		if strings.Contains(pp, "/internal/") || !strings.HasPrefix(pp, r.W.P.Pkg("").Pkg.Path()) {
			continue
		}
		for _, n := range sortedKeys(p.Members) {
			if f, ok := p.Members[n].(*ssa.Function); ok && fits(f) {
				out = append(out, f)
			}
		}
	}
	ms := types.NewMethodSet(types.NewPointer(mt))
	for i := 0; i < ms.Len(); i++ {
		if o, ok := ms.At(i).Obj().(*types.Func); ok {
			if f := r.W.P.SSA.FuncValue(o); fits(f) {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// finishes interprets an operation on a model.
func (r *Report) finishes(fn *ssa.Function, m F, objects, result int) error {
	e := r.W.Engine()
	e.PathSensitive, e.MaxParts, e.TrackNarrow = true, 256, true
	e.Peel, e.WidenAfter, e.MaxRec, e.MaxDepth, e.MaxSteps = 200, 300, 2*objects+8, 600, 400_000
	e.MapPerm = func(_ *ssa.Function, _ *ssa.Next, n int) []int { return permutation(n, 0) }
	panics := map[string]bool{}
	e.OnPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string) {
		panics[fmt.Sprintf("%s in %s (%s)", what, fnLabel(fn), r.W.P.Pos(pos))] = true
	}
	e.Intercept = func(c *ai.CallCtx) ([]ai.Out, bool) {
		if c.Fn == nil && c.Method == nil { // a callback
			if c.Res.Len() == 0 {
				return []ai.Out{{St: c.St}}, true
			}
			if c.Res.Len() == 1 && types.Identical(c.Res.At(0).Type(), errorT) {
				return []ai.Out{{St: c.St, Res: ai.NilOf(errorT)}}, true
			}
		}
		if c.Fn != nil && c.Fn.Pkg == r.W.P.Pkg("uuid") && c.Fn.Name() == "New" { // C29
			return []ai.Out{{St: c.St, Res: ai.Atom("uuid", types.Typ[types.String])}}, true
		}
		if c.Fn != nil && arithmetic(c.Fn.Signature) { // what it computes does not matter, only that it comes to an end
			return []ai.Out{{St: c.St, Res: number(c.Res.At(0).Type(), result)}}, true
		}
		return nil, false
	}
	st := e.NewState()
	b := &literal{w: r.W, st: st, pfx: "m"}
	v := b.val(r.W.Type("", "Model"), m)
	if b.err != nil {
		return b.err
	}
	st.SetRoot("model", v)
	args := []ai.Val{&ai.Ptr{Obj: "model"}}
	for i, p := range fn.Params[1:] {
		n := fmt.Sprintf("callback%d", i)
		st.NonNil(n)
		args = append(args, ai.Atom(n, p.Type()))
	}
	outs := e.Call(st, fn, args, nil, fn.Name(), nil)
	r.engineFns(e)
	for _, k := range sortedKeys(e.Limits) {
		if strings.HasPrefix(k, "recursion at ") {
			return fmt.Errorf("%s calls itself more than %d times deep", strings.TrimPrefix(k, "recursion at "), e.MaxRec)
		}
	}
	for _, k := range sortedKeys(e.Limits) {
		return fmt.Errorf("the analysis does not come to an end (%s)", k)
	}
	if len(outs) == 0 || len(panics) > 0 {
		return fmt.Errorf("%d outcomes, panics %v", len(outs), sortedKeys(panics))
	}
	r.Count("operations", 1)
	return nil
}

// arithmetic tells whether a function takes and gives numbers only.
func arithmetic(sig *types.Signature) bool {
	flat := func(t *types.Tuple) bool {
		for i := 0; i < t.Len(); i++ {
			if !floats(t.At(i).Type()) {
				return false
			}
		}
		return t.Len() > 0
	}
	if sig.Results().Len() != 1 || !flat(sig.Results()) {
		return false
	}
	if sig.Recv() != nil && !floats(sig.Recv().Type()) {
		return false
	}
	return sig.Params().Len() == 0 && sig.Recv() != nil || flat(sig.Params())
}

// number builds a value whose numbers are all n.
func number(t types.Type, n int) ai.Val {
	switch u := t.Underlying().(type) {
	case *types.Array:
		a := &ai.Agg{}
		for i := int64(0); i < u.Len(); i++ {
			a.Elems = append(a.Elems, number(u.Elem(), n))
		}
		return a
	case *types.Struct:
		a := &ai.Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.Elems = append(a.Elems, number(u.Field(i).Type(), n))
		}
		return a
	}
	return &ai.Const{T: t, V: constant.ToFloat(constant.MakeInt64(int64(n)))}
}

func floats(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsFloat != 0
	case *types.Array:
		return floats(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !floats(u.Field(i).Type()) {
				return false
			}
		}
		return u.NumFields() > 0
	}
	return false
}

func checkC26(r *Report) {
	r.Rule("abstract interpretation of every exported operation on a model, on models whose objects, slice stacks and properties refer to each other in cycles: no function may call itself more often than there are objects to visit, and the operation must come to an end")
	fns := r.onModels()
	names := map[string]bool{}
	for _, f := range fns {
		names[f.Name()] = true
	}
	for _, n := range []string{"BoundingBox", "Validate", "ValidateCoherency", "WalkObjects"} {
		if !names[n] {
			r.Fail("undecided: "+n, n, "the operation %s on models was not found", n)
		}
	}
	type job struct {
		what string
		m    F
		n    int
	}
	var jobs []job
	for _, g := range r.graphs() {
		jobs = append(jobs, job{"objects " + g.String(), g.model(r.W), len(g.edges)})
	}
	for _, x := range r.otherCycles() {
		jobs = append(jobs, job{x.what, x.m, 6})
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		for _, fn := range fns {
			if o := os.Getenv("ONLY"); o != "" && !strings.Contains(fn.String()+" "+j.what, o) {
				continue
			}
			err := r.finishes(fn, j.m, j.n, i%3)
			if err != nil {
				r.Fail("endless: "+fn.String(), j.what, "%s may not come to an end for %s: %v", fn, j.what, err)
				continue
			}
			r.OK("operations on models come to an end", fn.String())
		}
		r.Count("models", 1)
	})
}

type cyclic struct {
	what string
	m    F
}

// otherCycles gives models in which other things than objects refer to each
// other.
func (r *Report) otherCycles() []cyclic {
	var out []cyclic
	edit := func(what string, edits ...edit) {
		m := r.W.valid()
		for _, e := range edits {
			m = litSet(m, e.path, e.f).(F)
		}
		out = append(out, cyclic{what, m})
	}
	for _, p := range []string{rootPart, childPart} {
		at := partPlace(p) + "Resources."
		edit("a group of multiple properties that refers to itself in "+p, put(at+"Assets[5].PIDs", L{6, 6}))
		edit("groups of multiple properties that refer to each other in "+p, put(at+"Assets[5].PIDs", L{9, 1}), put(at+"Assets[6].PIDs", L{6, 9}))
		edit("composite materials that refer to themselves in "+p, put(at+"Assets[4].MaterialID", 5))
		edit("multiple properties and composite materials that refer to each other in "+p, put(at+"Assets[4].MaterialID", 6), put(at+"Assets[5].PIDs", L{5, 5}))
		edit("a texture group that refers to itself in "+p, put(at+"Assets[3].TextureID", 4))
		edit("slice stacks that refer to each other in "+p, put(at+"Assets[7].Refs", L{F{"SliceStackID": 7, "Path": childPart}, F{"SliceStackID": 7, "Path": rootPart}, F{"SliceStackID": 8, "Path": rootPart}}))
		edit("lattices that are clipped by each other in "+p, put(at+"Objects[1].Mesh.Any[0].ClippingMeshID", 11), put(at+"Objects[1].Mesh.Any[0].RepresentationMeshID", 11))
		edit("a mesh with a property that is an object in "+p, put(at+"Objects[1].PID", 11), put(at+"Objects[0].PID", 11))
		edit("components within a cycle of parts in "+p, put(at+"Objects[2].Components.Component[0].ObjectID", 12), put(at+"Objects[2].Components.Component[1].AnyAttr", L{Dyn{"production", "ComponentAttr", F{"UUID": goodUUID, "Path": childPart}}}), put(at+"Objects[2].Components.Component[1].ObjectID", 12))
	}
	return out
}
