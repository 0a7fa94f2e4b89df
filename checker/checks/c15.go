package checks

import (
	"fmt"
	"go/types"
	"os"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// relRef is a reference of a part to another one.
type relRef struct {
	kind string // "child", "thumbnail", "object thumbnail", "texture"
	path string
	typ  string
}

// relScenario is a model with concrete paths and relationships.
type relScenario struct {
	name   string
	root   string // Model.Path
	thumb  string
	rels   map[string][]AbsRel // "root": Model.RootRelationships, "": Model.Relationships, child key: ChildModel.Relationships
	thumbs map[string][]string // thumbnails of the objects of a part
	tex    map[string][]string // paths of the textures of a part
	childs []string
}

// c15Scenarios combines the ways paths are shared with the relationships that
// exist already.
func (r *Report) c15Scenarios(tModel, tThumb, tTex string) []relScenario {
	type pool struct {
		name string
		pick func(part int, kind string, i int) string
	}
	ext := func(kind string) string {
		if kind == "tex" {
			return ".png"
		}
		return ".jpg"
	}
	pools := []pool{
		{"all paths distinct", func(p int, k string, i int) string { return fmt.Sprintf("/%s%d_%d%s", k, p, i, ext(k)) }},
		{"parts share paths", func(p int, k string, i int) string { return fmt.Sprintf("/%s%d%s", k, i, ext(k)) }},
		{"same path within a part", func(p int, k string, i int) string { return fmt.Sprintf("/%s%d%s", k, p, ext(k)) }},
		{"textures and thumbnails share paths", func(p int, k string, i int) string { return fmt.Sprintf("/img%d_%d.png", p, i) }},
		{"first and last share a path", func(p int, k string, i int) string { return fmt.Sprintf("/%s%d_%d%s", k, p, i%2, ext(k)) }},
		{"one path for everything", func(int, string, int) string { return "/img.png" }},
		{"relative paths and a root of its own", func(p int, k string, i int) string { return fmt.Sprintf("%s%d_%d%s", k, p, i, ext(k)) }},
	}
	olds := []string{"no relationships yet", "the same relationships already", "relationships of other types to the same parts", "relationships to other parts", "duplicated relationships", "relationships with the ids the writer may choose"}
	var out []relScenario
	for pi, p := range pools {
		for oi, old := range olds {
			root, a, b := "", "/3D/a.model", "/3D/b.model"
			if pi == len(pools)-1 {
				root, a, b = "/models/root.model", "a.model", "sub/b.model"
			}
			s := relScenario{name: p.name + ", " + old, root: root, thumb: p.pick(3, "thumb", 0), rels: map[string][]AbsRel{}, thumbs: map[string][]string{}, tex: map[string][]string{}, childs: []string{a, b}}
			for i, k := range []string{"", a, b} {
				for n := 0; n < 3; n++ {
					s.thumbs[k] = append(s.thumbs[k], p.pick(i, "thumb", n))
					s.tex[k] = append(s.tex[k], p.pick(i, "tex", n))
				}
				s.thumbs[k] = append(s.thumbs[k], "") // an object without
			}
			refs := map[string][]AbsRel{"root": {{"", tThumb, s.thumb}, {"", tModel, s.rootName()}}, "": {{"", tModel, a}, {"", tModel, b}}}
			for _, k := range []string{"", a, b} {
				for n := 0; n < 3; n++ {
					refs[k] = append(refs[k], AbsRel{"", tThumb, s.thumbs[k][n]}, AbsRel{"", tTex, s.tex[k][n]})
				}
			}
			for k, l := range refs {
				seen := map[string]bool{}
				add := func(id, typ, target string) { s.rels[k] = append(s.rels[k], AbsRel{id, typ, target}) }
				for i, x := range l {
					switch oi {
					case 1:
						if !seen[x.Type+x.URI] {
							add(fmt.Sprintf("old%d", i), x.Type, x.URI)
						}
						seen[x.Type+x.URI] = true
					case 2:
						if !seen[x.URI] {
							add(fmt.Sprintf("old%d", i), "http://example.com/other", x.URI)
						}
						seen[x.URI] = true
					case 3:
						add(fmt.Sprintf("old%d", i), x.Type, fmt.Sprintf("/unrelated%d", i))
					case 4:
						if !seen[x.Type+x.URI] && i%2 == 0 {
							add(fmt.Sprintf("old%da", i), x.Type, x.URI)
							add(fmt.Sprintf("old%db", i), x.Type, x.URI)
							add(fmt.Sprintf("old%dc", i), "http://example.com/other", x.URI)
						}
						seen[x.Type+x.URI] = true
					case 5:
						add(fmt.Sprintf("rId%d", i+1), "http://example.com/other", fmt.Sprintf("/unrelated%d", i))
					}
				}
			}
			out = append(out, s)
		}
	}
	// a single reference of a kind, which nothing else can satisfy
	for _, k := range []string{"", "/3D/a.model", "/3D/b.model"} {
		for _, kind := range []string{"thumbnail", "object thumbnail", "texture", "nothing"} {
			s := relScenario{name: "only a " + kind + " in " + k, rels: map[string][]AbsRel{}, thumbs: map[string][]string{}, tex: map[string][]string{}}
			if k != "" {
				s.childs = []string{"/3D/a.model", "/3D/b.model"}
			}
			switch kind {
			case "thumbnail":
				s.thumb = "/only.png"
			case "object thumbnail":
				s.thumbs[k] = []string{"", "/only.png", ""}
			case "texture":
				s.tex[k] = []string{"/only.png"}
			}
			out = append(out, s)
		}
	}
	return out
}

func (s *relScenario) rootName() string {
	if s.root == "" {
		return "/3D/3dmodel.model"
	}
	return s.root
}

func (r *Report) relShape(s *relScenario) *Shape {
	relT, objT, texT, baseT, childT := r.W.Type("", "Relationship"), r.W.Type("", "Object"), r.W.Type("materials", "Texture2D"), r.W.Type("", "BaseMaterials"), r.W.Type("", "ChildModel")
	str := func(t types.Type, v string) ai.Val { return &ai.Const{T: t, V: ai.Str(v).V} }
	sh := &Shape{Name: s.name, Leaf: func(string) byte { return 'z' }, Cell: func(string) int { return -1 }, Enum: func(p string, n int) int {
		for i := 0; i < 8; i++ { // the kinds of objects and textures vary
			if strings.Contains(p, fmt.Sprintf("s[%d]", i)) {
				return i % n
			}
		}
		return 0
	}, Nil: func(p string) bool {
		components := strings.Contains(p, "Objects[1]")
		return !(lastComp(p) == ".Mesh" && !components || lastComp(p) == ".Components" && components)
	}, Len: func(string) int { return 0 }}
	partOf := func(p string) string {
		for _, c := range s.childs {
			if strings.Contains(p, "{"+c+"}") {
				return c
			}
		}
		return ""
	}
	with := func(v ai.Val, kv map[string]string) ai.Val {
		z := v.(*ai.Agg)
		t := z.T
		n := &ai.Agg{T: z.T, Elems: append([]ai.Val(nil), z.Elems...)}
		for f, v := range kv {
			if i := fieldIndex(t, f); i >= 0 {
				n.Elems[i] = str(t.Underlying().(*types.Struct).Field(i).Type(), v)
			}
		}
		return n
	}
	sh.Give = func(b *ModelBuilder, p string, t types.Type) (ai.Val, bool) {
		switch last := lastComp(p); {
		case p == "Model.Extensions":
			return coreGive(b, p, t)
		case p == "Model.Path":
			return str(t, s.root), true
		case p == "Model.Thumbnail":
			return str(t, s.thumb), true
		case last == ".RootRelationships", last == ".Relationships":
			k := partOf(p)
			if last == ".RootRelationships" {
				k = "root"
			}
			var vs []ai.Val
			for _, x := range s.rels[k] {
				vs = append(vs, with(ai.Zero(relT), map[string]string{"ID": x.ID, "Type": x.Type, "Path": x.URI}))
			}
			return b.Slice(p, t, vs), true
		case last == ".Childs":
			m := &ai.Map{T: t.Underlying().(*types.Map), Exact: true}
			for _, k := range s.childs {
				cp := p + "{" + k + "}"
				m.Keys = append(m.Keys, ai.Str(k))
				m.Vals = append(m.Vals, b.New(cp, b.Build(cp, childT)))
			}
			return b.New(p, m), true
		case last == ".Objects":
			var vs []ai.Val
			for i, x := range s.thumbs[partOf(p)] {
				ep := fmt.Sprintf("%s[%d]", p, i)
				vs = append(vs, b.New(ep, with(b.Build(ep, objT), map[string]string{"Thumbnail": x})))
			}
			return b.Slice(p, t, vs), true
		case last == ".Assets":
			var vs []ai.Val
			for i, x := range s.tex[partOf(p)] {
				ep := fmt.Sprintf("%s[%d]", p, i)
				vs = append(vs, &ai.Iface{Dyn: types.NewPointer(baseT), V: b.New(ep+"b", b.Build(ep+"b", baseT))}, &ai.Iface{Dyn: types.NewPointer(texT), V: b.New(ep, with(b.Build(ep, texT), map[string]string{"Path": x}))})
			}
			return b.Slice(p, t, vs), true
		}
		return nil, false
	}
	return sh
}

func (r *Report) c15Scenario(s *relScenario, tModel, tThumb, tTex string) {
	t := r.W.NewRoundTrip(r.relShape(s))
	t.E.Peel, t.E.WidenAfter = 200, 300
	t.E.MapPerm = func(_ *ssa.Function, _ *ssa.Next, n int) []int { return permutation(n, 0) } // C14: the order does not matter
	t.NoDec = true
	outs, err := t.Encode()
	r.limits(t.E, "Encode")
	r.engineFns(t.E)
	if err == nil && (len(outs) != 1 || len(t.Panics) > 0 || !ai.IsNil(outs[0].Res)) {
		err = fmt.Errorf("%d outcomes, panics %v", len(outs), sortedKeys(t.Panics))
		if len(outs) > 0 {
			err = fmt.Errorf("%v, result %s", err, shown(outs[0].St, outs[0].Res))
		}
	}
	for p := range t.X.Problems {
		err = fmt.Errorf("%s", p)
	}
	if err != nil {
		r.Fail("undecided: Encode", s.name, "encoding a model with %s: %v", s.name, err)
		return
	}
	st := outs[0].St
	resolve := func(base, p string) string {
		if strings.HasPrefix(p, "/") {
			return p
		}
		return path.Join(path.Dir(base), p)
	}
	rootName := s.rootName()
	parts := map[string]string{"root": "", "": rootName}
	for _, c := range s.childs {
		parts[c] = resolve(rootName, c)
	}
	created := map[string]bool{}
	for _, p := range t.X.Parts(st) {
		created[p] = true
	}
	has := func(l []AbsRel, base, typ, target string) bool {
		for _, x := range l {
			if (typ == "" || x.Type == typ) && resolve(base, x.URI) == resolve(base, target) {
				return true
			}
		}
		return false
	}
	label := func(k string) string {
		switch k {
		case "root":
			return "the package"
		case "":
			return "the root part"
		}
		return "a child part"
	}
	for _, k := range append([]string{"root", ""}, s.childs...) {
		part := parts[k]
		if k != "root" && !created[part] {
			r.Fail("undecided: part", s.name, "the part %s is not written with %s", part, s.name)
			continue
		}
		base := part
		if k == "root" {
			base = "/"
		}
		got := t.X.Rels(st, part)
		seen := map[string]bool{}
		for _, x := range got {
			id := x.Type + " to " + resolve(base, x.URI)
			r.Assert(!seen[id], "no relationship is written twice", label(k), s.name, "with %s, %s has the relationship %s more than once", s.name, label(k), id)
			seen[id] = true
			r.Assert(!strings.HasPrefix(x.URI, "?") && !strings.HasPrefix(x.Type, "?"), "relationships are known", label(k), s.name, "a relationship of %s is not known: %v", label(k), x)
		}
		for _, x := range s.rels[k] {
			r.Assert(has(got, base, x.Type, x.URI), "relationships of the model are written", label(k), s.name, "with %s, the relationship of type %s to %s of %s is lost", s.name, x.Type, x.URI, label(k))
		}
		// references
		need := func(kind, typ, target string, lists ...[]AbsRel) {
			if target == "" {
				return
			}
			old := false
			for _, x := range s.rels[k] {
				old = old || resolve(base, x.URI) == resolve(base, target)
			}
			// another reference may have made it a target first
			others := 0
			for _, ty := range []string{tModel, tThumb, tTex} {
				if ty != typ && has(append(append([]AbsRel(nil), got...), s.rels[k]...), base, ty, target) {
					others++
				}
			}
			ok := false
			for _, l := range append(lists, got) {
				if old || others > 0 {
					ok = ok || has(l, base, "", target)
				} else {
					ok = ok || has(l, base, typ, target)
				}
			}
			r.Assert(ok, "referenced parts are targets", kind+" of "+label(k), s.name, "with %s, %s refers to %s (%s) without a relationship to it: %v", s.name, label(k), target, kind, got)
		}
		switch k {
		case "root":
			need("root part", tModel, rootName)
			need("thumbnail", tThumb, s.thumb, t.X.Rels(st, rootName))
		case "":
			for _, c := range s.childs {
				need("child part", tModel, c)
			}
		}
		if k != "root" {
			for _, x := range s.thumbs[k] {
				need("object thumbnail", tThumb, x)
			}
			for _, x := range s.tex[k] {
				need("texture", tTex, x)
			}
		}
	}
	r.Count("models", 1)
}

func checkC15(r *Report) {
	r.Rule("abstract interpretation of Encoder.Encode on models with concrete paths and relationships (every way references of one and several parts share paths, combined with every kind of relationship already there): the relationships the package and each part have when they are completed contain every relationship of the model, every referenced path, and none twice")
	tModel, tThumb, tTex := r.W.ConstString("", "RelType3DModel"), r.W.ConstString("", "RelTypeThumbnail"), r.W.ConstString("materials", "RelTypeTexture3D")
	for n, v := range map[string]string{"RelType3DModel": tModel, "RelTypeThumbnail": tThumb, "RelTypeTexture3D": tTex} {
		if v == "" {
			r.Fail("undecided: "+n, n, "the constant %s was not found", n)
			return
		}
	}
	for _, n := range []string{"Relationship", "Object", "BaseMaterials", "ChildModel"} {
		if r.W.Type("", n) == nil {
			r.Fail("undecided: types", n, "type %s not found", n)
			return
		}
	}
	if r.W.Type("materials", "Texture2D") == nil {
		r.Fail("undecided: types", "Texture2D", "type Texture2D not found")
		return
	}
	ss := r.c15Scenarios(tModel, tThumb, tTex)
	parallel(len(ss), func(i int) {
		if o := os.Getenv("ONLY"); o != "" && ss[i].name != o {
			return
		}
		r.c15Scenario(&ss[i], tModel, tThumb, tTex)
	})
}
