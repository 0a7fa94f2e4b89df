package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// library is a model whose parts hold resources with given identifiers.
type library struct {
	root  string // Model.Path
	parts []libPart
}

type libPart struct {
	path    string // "" for the root
	assets  []int
	objects []int
}

func (l *library) String() string {
	return fmt.Sprintf("root part %q, resources %v", l.root, l.parts)
}

var assetKinds = []Dyn{{"", "BaseMaterials", nil}, {"materials", "ColorGroup", nil}, {"materials", "Texture2D", nil}, {"slices", "SliceStack", nil}, {"materials", "Texture2DGroup", nil}, {"materials", "CompositeMaterials", nil}, {"materials", "MultiProperties", nil}}

func libraries() []library {
	var out []library
	for _, root := range []string{"", "/3D/3dmodel.model", "/other/root.model"} {
		out = append(out,
			library{root, []libPart{{"", nil, nil}}},
			library{root, []libPart{{"", []int{1, 2}, []int{3, 4}}}},
			library{root, []libPart{{"", nil, []int{1, 2, 1}}, {"/3D/b.model", []int{3, 1}, []int{5, 2}}}},
			library{root, []libPart{{"", []int{7, 1, 2, 3, 4, 5, 6}, []int{9}}, {"/3D/b.model", []int{7}, nil}, {"/3D/a.model", []int{8, 9}, []int{1, 9, 7}}, {"c.model", nil, nil}, {"/3D/B.model", []int{math.MaxUint32}, []int{0, math.MaxUint32}}}},
		)
	}
	// a child part with the name the root part has by default
	out = append(out, library{"/other/root.model", []libPart{{"", []int{1}, []int{2}}, {"/3D/3dmodel.model", []int{3}, []int{4}}}})
	return out
}

func (l *library) part(path string) *libPart {
	root := l.root
	if root == "" {
		root = "/3D/3dmodel.model"
	}
	if path == root {
		path = ""
	}
	for i := range l.parts {
		if l.parts[i].path == path {
			return &l.parts[i]
		}
	}
	return nil
}

// build adds the model to a state, and returns the values of the resources
// by part, kind and position.
func (l *library) build(r *Report, st *ai.State) (model ai.Val, res map[string]ai.Val, err error) {
	b := &literal{w: r.W, st: st, pfx: "m"}
	res = map[string]ai.Val{}
	objT := r.W.Type("", "Object")
	if objT == nil {
		return nil, nil, fmt.Errorf("type Object not found")
	}
	resources := func(p libPart) F {
		var as, os L
		for i, id := range p.assets {
			k := assetKinds[i%len(assetKinds)]
			t := r.W.Type(k.Pkg, k.Type)
			if t == nil {
				b.fail("type %s not found", k.Type)
				continue
			}
			v := &ai.Iface{Dyn: types.NewPointer(t), V: b.val(types.NewPointer(t), F{"ID": id})}
			res[fmt.Sprintf("asset %d of %q", i, p.path)] = v
			as = append(as, ai.Val(v))
		}
		for i, id := range p.objects {
			v := b.val(types.NewPointer(objT), F{"ID": id})
			res[fmt.Sprintf("object %d of %q", i, p.path)] = v
			os = append(os, v)
		}
		return F{"Assets": as, "Objects": os}
	}
	f := F{"Path": l.root}
	var childs M
	for _, p := range l.parts {
		if p.path == "" {
			f["Resources"] = resources(p)
		} else {
			childs = append(childs, MapEntry{p.path, F{"Resources": resources(p)}})
		}
	}
	if childs != nil {
		f["Childs"] = childs
	}
	model = b.val(types.NewPointer(r.W.Type("", "Model")), f)
	return model, res, b.err
}

// lookup is an engine that reads a model.
func (r *Report) lookupEngine(panics map[string]bool) *ai.Engine {
	e := r.W.Engine()
	e.PathSensitive, e.MaxParts, e.TrackNarrow = true, 512, true
	e.Peel, e.WidenAfter, e.MaxRec = 64, 100, 8
	e.OnPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string) {
		panics[fmt.Sprintf("%s in %s (%s)", what, fnLabel(fn), r.W.P.Pos(pos))] = true
	}
	return e
}

func (r *Report) c38Find(l *library, op, kind string, path string, id int) {
	what := fmt.Sprintf("Model.%s(%q, %d) with %s", op, path, id, l)
	fn := r.W.Method("", "Model", op)
	if fn == nil || len(fn.Params) != 3 {
		r.Fail("undecided: "+op, op, "Model.%s was not found", op)
		return
	}
	panics := map[string]bool{}
	e := r.lookupEngine(panics)
	st := e.NewState()
	m, res, err := l.build(r, st)
	if err == nil {
		name := func(v ai.Val) string {
			for k, x := range res {
				if x.Key() == v.Key() {
					return k
				}
			}
			return "another value"
		}
		var want []string
		if p := l.part(path); p != nil {
			ids := p.objects
			if kind == "asset" {
				ids = p.assets
			}
			for i, x := range ids {
				if x == id {
					want = append(want, fmt.Sprintf("%s %d of %q", kind, i, p.path))
				}
			}
		}
		outs := e.Call(st, fn, []ai.Val{m, ai.Str(path), &ai.Const{T: fn.Params[2].Type(), V: ai.Int(int64(id)).V}}, nil, op, nil)
		r.engineFns(e)
		if len(outs) == 0 || len(panics) > 0 || len(e.Limits) > 0 {
			err = fmt.Errorf("%d outcomes, panics %v, limits %v", len(outs), sortedKeys(panics), sortedKeys(e.Limits))
		}
		for _, o := range outs {
			t, ok := o.Res.(*ai.Tuple)
			if !ok || len(t.Elems) != 2 {
				err = fmt.Errorf("the result is not known")
				break
			}
			found, known := ai.ConstBool(o.St.Resolve(t.Elems[1]))
			if !known {
				err = fmt.Errorf("whether something is found is not known")
				break
			}
			if !r.Assert(found == (len(want) > 0), "a resource is found exactly if it exists", op, what, "%s finds something: %v, instead of %v", what, found, len(want) > 0) || !found {
				continue
			}
			got := name(o.St.Resolve(t.Elems[0]))
			good := false
			for _, w := range want {
				good = good || w == got
			}
			r.Assert(good, "the resource of the part with that identifier is found", op, what, "%s finds %s instead of %s", what, got, strings.Join(want, " or "))
		}
	}
	if err != nil {
		r.Fail("undecided: "+op, what, "%s: %v", what, err)
		return
	}
	r.Count("lookups", 1)
}

func (r *Report) c38Resources(l *library, path string) {
	op := "FindResources"
	what := fmt.Sprintf("Model.%s(%q) with %s", op, path, l)
	fn := r.W.Method("", "Model", op)
	if fn == nil || len(fn.Params) != 2 {
		r.Fail("undecided: "+op, op, "Model.%s was not found", op)
		return
	}
	panics := map[string]bool{}
	e := r.lookupEngine(panics)
	st := e.NewState()
	m, res, err := l.build(r, st)
	if err == nil {
		outs := e.Call(st, fn, []ai.Val{m, ai.Str(path)}, nil, op, nil)
		r.engineFns(e)
		if len(outs) == 0 || len(panics) > 0 || len(e.Limits) > 0 {
			err = fmt.Errorf("%d outcomes, panics %v, limits %v", len(outs), sortedKeys(panics), sortedKeys(e.Limits))
		}
		p := l.part(path)
		for _, o := range outs {
			t, ok := o.Res.(*ai.Tuple)
			if !ok || len(t.Elems) != 2 {
				err = fmt.Errorf("the result is not known")
				break
			}
			found, known := ai.ConstBool(o.St.Resolve(t.Elems[1]))
			if !known {
				err = fmt.Errorf("whether something is found is not known")
				break
			}
			if !r.Assert(found == (p != nil), "resources are found exactly if there is such a part", op, what, "%s finds something: %v, instead of %v", what, found, p != nil) || !found {
				continue
			}
			// the resources themselves, and not those of another part
			ptr := o.St.Resolve(t.Elems[0])
			for _, k := range []struct {
				field, kind string
				n           int
			}{{".Assets", "asset", len(p.assets)}, {".Objects", "object", len(p.objects)}} {
				v := GetPath(o.St, ptr, k.field)
				var el []ai.Val
				if v != nil && !ai.IsNil(o.St.Resolve(v)) {
					el, ok = o.St.SliceElems(o.St.Resolve(v))
				} else {
					ok = v != nil
				}
				if !ok {
					err = fmt.Errorf("the resources are not known")
					break
				}
				good := len(el) == k.n
				for i := 0; good && i < k.n; i++ {
					good = o.St.Resolve(el[i]).Key() == res[fmt.Sprintf("%s %d of %q", k.kind, i, p.path)].Key()
				}
				r.Assert(good, "the resources are those of the part", op, what, "%s does not return the %ss of that part", what, k.kind)
			}
		}
	}
	if err != nil {
		r.Fail("undecided: "+op, what, "%s: %v", what, err)
		return
	}
	r.Count("lookups", 1)
}

func (r *Report) c38Walk(l *library, op, kind string, order int) {
	what := fmt.Sprintf("Model.%s with %s", op, l)
	fn := r.W.Method("", "Model", op)
	if fn == nil || len(fn.Params) != 2 {
		r.Fail("undecided: "+op, op, "Model.%s was not found", op)
		return
	}
	panics := map[string]bool{}
	e := r.lookupEngine(panics)
	e.MapPerm = func(_ *ssa.Function, _ *ssa.Next, n int) []int { return permutation(n, order) }
	st := e.NewState()
	m, res, err := l.build(r, st)
	if err != nil {
		r.Fail("undecided: "+op, what, "%s: %v", what, err)
		return
	}
	// the parts in lexical order, the root comes last
	parts := append([]libPart(nil), l.parts...)
	sort.Slice(parts, func(i, j int) bool {
		if parts[i].path == "" || parts[j].path == "" {
			return parts[j].path == "" && parts[i].path != ""
		}
		return parts[i].path < parts[j].path
	})
	var want []string
	for _, p := range parts {
		n := len(p.objects)
		if kind == "asset" {
			n = len(p.assets)
		}
		for i := 0; i < n; i++ {
			want = append(want, fmt.Sprintf("%q: %s %d of %q", p.path, kind, i, p.path))
		}
	}
	names := map[string]string{}
	for k, v := range res {
		names[v.Key()] = k
	}
	st.NonNil("callback")
	e.Intercept = func(c *ai.CallCtx) ([]ai.Out, bool) {
		if c.Fn != nil || c.Method != nil {
			return nil, false
		}
		call := "?"
		if len(c.Args) == 2 {
			p, ok := ai.ConstStr(c.St.Resolve(c.Args[0]))
			n := names[c.St.Resolve(c.Args[1]).Key()]
			if ok && n != "" {
				call = strconv.Quote(p) + ": " + n
			}
		}
		c.St.Ghost["calls"] += call + "\n"
		bad := c.St.Clone()
		res := ai.ErrAtom(bad, "err:callback")
		if bad.Ghost["failed"] != "" {
			bad.Ghost["failed"] = "again"
		} else {
			bad.Ghost["failed"] = "once"
		}
		return []ai.Out{{St: c.St, Res: ai.NilOf(errorT)}, {St: bad, Res: res}}, true
	}
	outs := e.Call(st, fn, []ai.Val{m, ai.Atom("callback", fn.Params[1].Type())}, nil, op, nil)
	r.engineFns(e)
	if len(outs) == 0 || len(panics) > 0 || len(e.Limits) > 0 {
		r.Fail("undecided: "+op, what, "%s: %d outcomes, panics %v, limits %v", what, len(outs), sortedKeys(panics), sortedKeys(e.Limits))
		return
	}
	complete := false
	for _, o := range outs {
		var calls []string
		if s := strings.TrimSuffix(o.St.Ghost["calls"], "\n"); s != "" {
			calls = strings.Split(s, "\n")
		}
		res := o.St.Resolve(o.Res)
		if o.St.Ghost["failed"] == "" {
			complete = true
			r.Assert(strings.Join(calls, ", ") == strings.Join(want, ", "), "every resource is visited once, in order", op, what, "%s visits [%s] instead of [%s]", what, strings.Join(calls, ", "), strings.Join(want, ", "))
			r.Assert(ai.IsNil(res), "a walk without errors succeeds", op, what, "%s returns %s although the function never fails", what, short(res))
			continue
		}
		prefix := len(calls) <= len(want) && strings.Join(calls, ", ") == strings.Join(want[:len(calls)], ", ")
		r.Assert(prefix && o.St.Ghost["failed"] == "once", "a walk stops at the first error", op, what, "%s goes on after the function failed: [%s]", what, strings.Join(calls, ", "))
		same := false
		Walk(o.St, res, func(_ string, y ai.Val) bool {
			if s, ok := y.(*ai.Sym); ok && strings.HasPrefix(s.ID, "err:callback") {
				same = true
			}
			return !same
		})
		r.Assert(same, "a walk returns the error of the function", op, what, "%s returns %s instead of the error of the function", what, short(res))
	}
	r.Assert(complete, "a walk without errors ends", op, what, "%s never ends without an error", what)
	r.Count("walks", 1)
}

// c38Transform decides which matrices are transformations.
func (r *Report) c38Transform(typ string) {
	one := func(m [16]int) L {
		var l L
		for _, x := range m {
			l = append(l, x)
		}
		return l
	}
	identity := [16]int{0: 1, 5: 1, 10: 1, 15: 1}
	type c struct {
		m    [16]int
		want bool
	}
	cases := []c{{identity, false}, {[16]int{}, false}}
	for i := 0; i < 16; i++ {
		for _, base := range [][16]int{identity, {}} {
			for _, d := range []int{1, -2} {
				m := base
				m[i] += d
				cases = append(cases, c{m, true})
			}
		}
	}
	for _, x := range cases {
		what := fmt.Sprintf("%s.HasTransform with the matrix %v", typ, x.m)
		u, err := r.onLiteral("", typ, "HasTransform", func(*literal) any { return F{"Transform": one(x.m)} }, nil)
		if err != nil {
			r.Fail("undecided: HasTransform", what, "%s: %v", what, err)
			return
		}
		for _, o := range u.outs {
			got, ok := ai.ConstBool(o.St.Resolve(o.Res))
			r.Assert(ok && got == x.want, "transformations are all matrices but the identity and an unset one", typ+".HasTransform", what, "%s is %s instead of %v", what, short(o.Res), x.want)
		}
		r.Count("matrices", 1)
	}
}

func checkC38(r *Report) {
	r.Rule("abstract interpretation of the lookups and walks of Model on models with concrete parts and identifiers, which repeat within and across parts: what is found, and what a walk visits under every outcome of the function, is compared with the definition")
	if r.W.Type("", "Model") == nil {
		r.Fail("undecided: Model", "Model", "type Model not found")
		return
	}
	libs := libraries()
	var jobs []func()
	for i := range libs {
		l := &libs[i]
		paths := []string{"", "/3D/3dmodel.model", "/other/root.model", "/3D/none.model", "3D/b.model", "/3d/b.model"}
		seen := map[string]bool{}
		for _, p := range paths {
			seen[p] = true
		}
		for _, p := range l.parts {
			if !seen[p.path] {
				paths = append(paths, p.path)
			}
		}
		jobs = append(jobs, func() {
			for _, p := range paths {
				r.c38Resources(l, p)
			}
		})
		for _, p := range paths {
			p := p
			jobs = append(jobs, func() {
				for _, id := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, math.MaxUint32} {
					r.c38Find(l, "FindAsset", "asset", p, id)
					r.c38Find(l, "FindObject", "object", p, id)
				}
			})
		}
		for order := 0; order < 4; order++ {
			order := order
			jobs = append(jobs, func() {
				r.c38Walk(l, "WalkAssets", "asset", order)
				r.c38Walk(l, "WalkObjects", "object", order)
			})
		}
	}
	parallel(len(jobs), func(i int) { jobs[i]() })
	r.c38Transform("Item")
	r.c38Transform("Component")
}
