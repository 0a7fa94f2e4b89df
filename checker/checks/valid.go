package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/load"
)

const (
	rootPart  = "/3D/3dmodel.model"
	childPart = "/3D/a.model"
	otherPart = "/3D/b.model"
	goodUUID  = "f47ac10b-58cc-4372-a567-0e02b2c3d479"
)

// valid is a literal of a model in which every rule of validation that looks at
// lists, references and mandatory data has something to look at, and is met.
func (w *World) valid() F {
	rgba := func(n int) F { return F{"R": n, "G": 2, "B": 3, "A": 255} }
	base := func(n string) F { return F{"Name": n, "Color": rgba(len(n))} }
	beam := func(a, b int) F { return F{"Indices": L{a, b}, "Radius": L{0, 0}} }
	prod := func(t, path string) Dyn {
		f := F{"UUID": goodUUID}
		if path != "" {
			f["Path"] = path
		}
		return Dyn{"production", t, f}
	}
	tri := func(a, b, c, pid, p1, p2, p3 int) F {
		return F{"V1": a, "V2": b, "V3": c, "PID": pid, "P1": p1, "P2": p2, "P3": p3}
	}
	pts := func(n int) F {
		l := L{}
		for i := 0; i < n; i++ {
			l = append(l, nil)
		}
		return F{"Vertex": l}
	}
	slice := func(z int) F {
		return F{"TopZ": z, "Vertices": pts(3), "Polygons": L{
			F{"StartV": 0, "Segments": L{F{"V2": 1}, F{"V2": 2}, F{"V2": 0}}},
			F{"StartV": 1, "Segments": L{F{"V2": 2}, F{"V2": 1}}},
		}}
	}
	resources := func(root bool) F {
		assets := L{
			Dyn{"", "BaseMaterials", F{"ID": 1, "Materials": L{base("a"), base("bb"), base("ccc")}}},
			Dyn{"materials", "ColorGroup", F{"ID": 2, "Colors": L{rgba(1), rgba(2)}}},
			Dyn{"materials", "Texture2D", F{"ID": 3, "Path": "/tex.png", "ContentType": 1}},
			Dyn{"materials", "Texture2DGroup", F{"ID": 4, "TextureID": 3, "Coords": L{nil, nil, nil, nil}}},
			Dyn{"materials", "CompositeMaterials", F{"ID": 5, "MaterialID": 1, "Indices": L{0, 2, 1}, "Composites": L{F{"Values": L{1}}, F{"Values": L{1}}}}},
			Dyn{"materials", "MultiProperties", F{"ID": 6, "PIDs": L{1, 4, 2}, "BlendMethods": L{0, 0}, "Multis": L{F{"PIndices": L{2, 3, 1}}, F{"PIndices": L{0, 1}}, F{"PIndices": L{1, 0, 0}}}}},
			Dyn{"materials", "MultiProperties", F{"ID": 9, "PIDs": L{5, 4}, "Multis": L{F{"PIndices": L{1, 3}}}}},
			Dyn{"slices", "SliceStack", F{"ID": 7, "Slices": L{slice(1), slice(2)}}},
		}
		if root { // the lists of the root part are longer than those of the child parts
			more := func(i int, f string, v any) {
				l := assets[i].(Dyn)
				l.F[f] = append(l.F[f].(L), v)
			}
			more(0, "Materials", base("dddd"))
			more(1, "Colors", rgba(3))
			more(3, "Coords", nil)
			more(4, "Composites", F{"Values": L{1}})
			more(5, "Multis", F{"PIndices": L{1}})
			assets = append(assets, Dyn{"slices", "SliceStack", F{"ID": 8, "Refs": L{F{"SliceStackID": 7, "Path": childPart}, F{"SliceStackID": 17, "Path": otherPart}}}})
		}
		mesh := func(lattice bool) F {
			m := F{"Vertices": pts(4), "Triangles": F{"Triangle": L{
				tri(0, 1, 2, 0, 0, 0, 0), tri(0, 2, 3, 4, 3, 0, 1), tri(0, 3, 1, 5, 1, 0, 1), tri(1, 3, 2, 6, 2, 1, 0), tri(1, 2, 0, 1, 0, 1, 2), tri(1, 2, 3, 2, 0, 1, 1),
			}}}
			if lattice {
				m["Any"] = L{Dyn{"beamlattice", "BeamLattice", F{"ClipMode": 1, "ClippingMeshID": 10, "RepresentationMeshID": 10, "MinLength": 1, "Radius": 2,
					"Beams":    F{"Beam": L{beam(0, 1), beam(1, 2), beam(3, 0)}},
					"BeamSets": F{"BeamSet": L{F{"Name": "a", "Identifier": "a", "Refs": L{0, 1}}, F{"Name": "b", "Identifier": "b", "Refs": L{2}}}}}}}
			}
			return m
		}
		comp := func(id int, path string) F {
			return F{"ObjectID": id, "AnyAttr": L{prod("ComponentAttr", path)}}
		}
		comps := L{comp(10, ""), comp(11, "")}
		if root {
			comps = append(comps, comp(10, childPart), comp(20, otherPart))
		}
		return F{"Assets": assets, "Objects": L{
			F{"ID": 10, "PID": 1, "PIndex": 2, "Mesh": mesh(false), "AnyAttr": L{prod("ObjectAttr", ""), Dyn{"slices", "ObjectAttr", F{"SliceStackID": 7}}}},
			F{"ID": 11, "PID": 4, "PIndex": 3, "Mesh": mesh(true), "AnyAttr": L{prod("ObjectAttr", "")}},
			F{"ID": 12, "Components": F{"Component": comps}, "AnyAttr": L{prod("ObjectAttr", "")}},
			F{"ID": 13, "Type": 2, "Mesh": mesh(false), "AnyAttr": L{prod("ObjectAttr", "")}},
		}}
	}
	rels := func() L {
		return L{F{"Type": "http://x/one", "Path": "/one.bin"}, F{"Type": "http://x/two", "Path": "/one.bin"}, F{"Type": "http://x/one", "Path": "/tex.png"}}
	}
	ext := func(pkg string, required bool) F {
		return F{"Namespace": w.ConstString(pkg, "Namespace"), "LocalName": pkg[:1], "IsRequired": required}
	}
	meta := func() L {
		return L{F{"Name": F{"Local": "Title"}}, F{"Name": F{"Local": "Designer"}}, F{"Name": F{"Space": w.ConstString("slices", "Namespace"), "Local": "Title"}}}
	}
	item := func(id int, path string) F {
		return F{"ObjectID": id, "AnyAttr": L{prod("ItemAttr", path)}, "Metadata": F{"Metadata": meta()}}
	}
	return F{
		"Extensions":        L{ext("materials", false), ext("beamlattice", true), ext("slices", true), ext("production", false)},
		"Metadata":          meta(),
		"Attachments":       L{F{"Path": "/one.bin"}, F{"Path": "/tex.png"}, F{"Path": "/last.bin"}},
		"RootRelationships": rels(), "Relationships": rels(),
		"Resources": resources(true),
		"Build":     F{"AnyAttr": L{prod("BuildAttr", "")}, "Items": L{item(12, ""), item(10, childPart), item(20, otherPart)}},
		"Childs": M{
			{childPart, F{"Resources": resources(false), "Relationships": rels()}},
			{otherPart, F{"Resources": F{"Assets": L{Dyn{"slices", "SliceStack", F{"ID": 17, "Slices": L{slice(5)}}}}, "Objects": L{F{"ID": 20, "Mesh": F{"Vertices": pts(3), "Triangles": F{"Triangle": L{tri(0, 1, 2, 0, 0, 0, 0), tri(0, 1, 2, 0, 0, 0, 0), tri(0, 1, 2, 0, 0, 0, 0), tri(0, 1, 2, 0, 0, 0, 0)}}}, "AnyAttr": L{prod("ObjectAttr", "")}}}}}},
		},
	}
}

// verr is an error that validation reports.
type verr struct {
	cause string // the variable of a package, or the type, of the cause
	xpath string
	part  string
	known bool
}

func (v verr) String() string { return fmt.Sprintf("%s at %s%s", v.cause, v.part, v.xpath) }

// validation interprets Model.Validate on a literal.
type validation struct {
	r      *Report
	e      *ai.Engine
	st     *ai.State
	model  ai.Val
	panics map[string]bool
	errT   *errWorld
}

// validate prepares a run; facts may restrict the symbols of the literal.
func (r *Report) validate(model F, op string, facts func(st *ai.State)) ([][]verr, error) {
	fn := r.W.Method("", "Model", op)
	mt := r.W.Type("", "Model")
	if fn == nil || mt == nil {
		return nil, fmt.Errorf("Model.%s not found", op)
	}
	e := r.W.Engine()
	e.PathSensitive, e.MaxParts, e.TrackNarrow = true, 64, true
	e.Peel, e.WidenAfter, e.MaxRec = 64, 100, 8
	e.Debug = os.Getenv("AIDBG") != ""
	e.MapPerm = func(_ *ssa.Function, _ *ssa.Next, n int) []int { return permutation(n, 0) } // C14: the order does not matter
	panics := map[string]bool{}
	e.OnPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string) {
		panics[fmt.Sprintf("%s in %s (%s)", what, fnLabel(fn), r.W.P.Pos(pos))] = true
	}
	st := e.NewState()
	b := &literal{w: r.W, st: st, pfx: "m"}
	v := b.val(mt, model)
	if b.err != nil {
		return nil, b.err
	}
	st.SetRoot("model", v)
	if facts != nil {
		facts(st)
	}
	w := r.errWorldOf(e)
	if w == nil {
		return nil, fmt.Errorf("the types of errors were not found")
	}
	outs := e.Call(st, fn, []ai.Val{&ai.Ptr{Obj: "model"}}, nil, op, nil)
	r.engineFns(e)
	for k := range e.Limits {
		return nil, fmt.Errorf("the analysis reached a limit (%s)", k)
	}
	if len(outs) == 0 || len(panics) > 0 {
		return nil, fmt.Errorf("%d outcomes, panics %v", len(outs), sortedKeys(panics))
	}
	var res [][]verr
	for _, o := range outs {
		var l []verr
		for _, x := range w.flat(o.St, o.Res) {
			l = append(l, r.verr(w, o.St, x))
		}
		if w.undecided != "" {
			return nil, fmt.Errorf("%s", w.undecided)
		}
		res = append(res, l)
	}
	return res, nil
}

// verr describes an error.
func (r *Report) verr(w *errWorld, st *ai.State, x ai.Val) verr {
	var v verr
	if t := w.text(st, x, "XPath"); t != nil {
		if s, ok := ai.ConstStr(t); ok {
			v.xpath = s
		} else {
			v.xpath = "?" + short(t)
		}
	}
	if p := GetPath(st, x, ".Path"); p != nil {
		if s, ok := ai.ConstStr(st.Resolve(p)); ok {
			v.part = s
		}
	}
	v.cause = r.causeName(w, st, x)
	return v
}

// checkValid demands that the literal model has no error.
func (r *Report) checkValid() bool {
	outs, err := r.validate(r.W.valid(), "Validate", nil)
	if err != nil {
		r.Fail("undecided: valid model", "Model.Validate", "validating a valid model: %v", err)
		return false
	}
	ok := true
	for _, l := range outs {
		for _, v := range l {
			r.Fail("valid model: "+v.cause+" at "+v.xpath, "Model.Validate", "a model whose references, indices and mandatory data are fine is reported: %s", v)
			ok = false
		}
	}
	if ok {
		r.OK("no error is reported for a valid model", "Model.Validate")
	}
	return ok
}

// within tells whether an error is located at the steps, in this order.
func (v verr) within(part string, steps ...string) bool {
	if part != "" && v.part != part && !(part == rootPart && v.part == "") {
		return false
	}
	have := strings.Split(strings.Trim(v.xpath, "/"), "/")
	for _, s := range steps {
		found := false
		for i, h := range have {
			if ok, _ := regexp.MatchString("^"+strings.NewReplacer("[", `\[`, "]", `\]`).Replace(s)+"$", h); ok {
				have, found = have[i+1:], true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// causeName names the cause of an error: the package-level variable that holds
// it, or its type.
func (r *Report) causeName(w *errWorld, st *ai.State, v ai.Val) string {
	for n := 0; n < 8; n++ {
		v = st.Resolve(v)
		x, ok := v.(*ai.Iface)
		if !ok {
			break
		}
		m := w.method(x.Dyn, "Unwrap")
		if m == nil {
			break
		}
		outs := w.e.Call(st.Clone(), m, []ai.Val{x.V}, nil, "Unwrap", nil)
		if len(outs) != 1 {
			return "?"
		}
		v = outs[0].Res
	}
	k := v.Key()
	if i, ok := v.(*ai.Iface); ok {
		if p, ok := i.Dyn.(*types.Pointer); ok {
			if pkg, name := namedType(p.Elem()); name != "" && strings.HasPrefix(pkg, load.Module) {
				return name
			}
		}
	}
	for _, g := range r.errorVars() {
		if gv := st.LoadPtr(ai.GlobalPtr(g)); gv != nil && st.Resolve(gv).Key() == k {
			return g.Name()
		}
	}
	return "?" + k
}

func (r *Report) errorVars() []*ssa.Global {
	var out []*ssa.Global
	for _, pp := range sortedKeys(r.W.P.ByPath) {
		if !strings.HasPrefix(pp, load.Module) {
			continue
		}
		p := r.W.P.ByPath[pp]
		for _, n := range sortedKeys(p.Members) {
			if g, ok := p.Members[n].(*ssa.Global); ok && types.Identical(g.Type().(*types.Pointer).Elem(), errorT) {
				out = append(out, g)
			}
		}
	}
	return out
}
