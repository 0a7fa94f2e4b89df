package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"path"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

const relOther = "http://example.com/other"

// testPackage is a package with a root part, child parts in several folders
// and attachments of each of them, some shared, with relationships that are
// absolute, relative, repeated or lead nowhere.
func testPackage(doc func(part string) []Tok, order int, rootFirst bool) *AbsPkg {
	rels := func(pfx string, l ...AbsRel) []AbsRel {
		for i := range l {
			l[i].ID = fmt.Sprint(pfx, i)
		}
		return l
	}
	model := func(name string, rels []AbsRel) AbsFile {
		return AbsFile{Name: name, ContentType: ct3DModel, Tokens: doc(name), Rels: rels}
	}
	other := func(name, typ string) AbsFile {
		return AbsFile{Name: name, ContentType: typ}
	}
	const a, b, c = "/3D/a.model", "/3D/sub/b.model", "/other/c.model"
	childs := []string{a, b, c}
	var rootRels []AbsRel
	for _, i := range permutation(3, order) {
		rootRels = append(rootRels, AbsRel{Type: relModel, URI: childs[i]})
	}
	rootRels = append(rootRels[:1], append([]AbsRel{
		{Type: relTexture, URI: "Texture/t1.png"},
		{Type: relTexture, URI: "/3D/Texture/shared.png"},
	}, rootRels[1:]...)...)
	rootRels = append(rootRels,
		AbsRel{Type: relModel, URI: "sub/b.model"},
		AbsRel{Type: relOther, URI: "/3D/Texture/shared.png"},
		AbsRel{Type: relThumb, URI: "/Metadata/thumb.png"},
		AbsRel{Type: relTexture, URI: "/3D/missing.png"},
		AbsRel{Type: relOther, URI: "t.png"})
	p := &AbsPkg{
		Rels: []AbsRel{
			{Type: relThumb, URI: "/Metadata/thumb.png"},
			{Type: relModel, URI: rootPart},
			{Type: relOther, URI: "docProps/core.xml"},
			{Type: relOther, URI: "/nothing.xml"},
		},
		Files: []AbsFile{
			other("/t.png", "image/decoy"),
			model(rootPart, rels("root", rootRels...)),
			model(a, rels("a", AbsRel{Type: relTexture, URI: "/3D/Texture/shared.png"}, AbsRel{Type: relTexture, URI: "t.png"})),
			model(b, rels("b", AbsRel{Type: relTexture, URI: "t.png"}, AbsRel{Type: relOther, URI: "/3D/Texture/b.png"}, AbsRel{Type: relModel, URI: "/3D/a.model"})),
			model(c, nil),
			other("/3D/t.png", "image/t"),
			other("/3D/sub/t.png", "image/sub"),
			other("/3D/Texture/t1.png", "image/t1"),
			other("/3D/Texture/shared.png", "image/shared"),
			other("/3D/Texture/b.png", "image/b"),
			other("/Metadata/thumb.png", "image/thumb"),
			other("/docProps/core.xml", "text/core"),
			other("/3D/unreachable.bin", "bin"),
		},
	}
	p.Rels = rels("rel", p.Rels...)
	if rootFirst {
		p.Rels[0], p.Rels[1] = p.Rels[1], p.Rels[0]
	}
	return p
}

// relTypes are the relationship types the library knows, and another one.
func (w *World) relTypes() []string {
	known := map[string]bool{relOther: true, relThumb: true, relTexture: true}
	for _, pkg := range w.P.Pkgs {
		scope := pkg.Types.Scope()
		for _, n := range scope.Names() {
			if c, ok := scope.Lookup(n).(*types.Const); ok && strings.HasPrefix(strings.ToLower(n), "reltype") && c.Val().Kind() == constant.String {
				known[constant.StringVal(c.Val())] = true
			}
		}
	}
	delete(known, relModel)
	return sortedKeys(known)
}

// relateEverything adds, to the package and to each of its parts of the list,
// a relationship of each type to an attachment of its own.
func (p *AbsPkg) relateEverything(relTypes []string, parts ...string) {
	add := func(owner string, l []AbsRel) []AbsRel {
		for i, t := range relTypes {
			name := fmt.Sprintf("/types%s/%d.bin", strings.TrimSuffix(owner, ".model"), i)
			p.Files = append(p.Files, AbsFile{Name: name, ContentType: "type/" + strconv.Itoa(i)})
			l = append(l, AbsRel{ID: fmt.Sprint("type", i), Type: t, URI: name})
		}
		return l
	}
	p.Rels = add("/package", p.Rels)
	for _, part := range parts {
		for i := range p.Files {
			if p.Files[i].Name == part {
				rels := add(part, p.Files[i].Rels)
				p.Files[i].Rels = rels
			}
		}
	}
}

// target is the part a relationship of a part ("/": the package) refers to.
func (p *AbsPkg) target(source, uri string) *AbsFile {
	if !strings.HasPrefix(uri, "/") {
		uri = path.Join(path.Dir(source), uri)
	}
	for i := range p.Files {
		if p.Files[i].Name == uri {
			return &p.Files[i]
		}
	}
	return nil
}

// partReader drives the decoder over a package, with concrete orders.
func (r *Report) partReader(p *AbsPkg) *Reader {
	rd := r.W.NewReader(nil)
	rd.Pkg = p
	e := rd.E
	e.PathSensitive, e.MaxParts = true, 256
	e.Peel, e.WidenAfter, e.MaxRec = 800, 900, 4
	e.MapPerm = func(_ *ssa.Function, _ *ssa.Next, n int) []int { return permutation(n, 0) }
	return rd
}

// markedDoc is a document with every element whose values tell the part.
func markedDoc(part string) []Tok {
	n := 0
	for _, c := range part {
		n = n*7 + int(c)
	}
	n = n%1000*10000 + 1
	doc := func() []Tok {
		return fullDoc(func(a *AttrSpec, name string) ai.Val {
			n++
			switch a.Kind {
			case "u32":
				return BytesVal(strconv.Itoa(n))
			case "f32":
				return BytesVal(strconv.Itoa(n) + ".5")
			case "str":
				return BytesVal("v" + strconv.Itoa(n) + part)
			}
			return BytesVal(goodText(a))
		})
	}
	return doc()
}

// decoded is what a decoded model holds.
type decoded struct {
	fields map[string]string // the fields of the model
	childs map[string]map[string]string
	att    []string            // attachments: path, type, content
	rels   map[string][]string // relationships by owner
}

func (r *Report) decoded(st *ai.State, m ai.Val) (*decoded, string) {
	d := &decoded{fields: map[string]string{}, childs: map[string]map[string]string{}, rels: map[string][]string{}}
	v := st.LoadPtr(m)
	mt := ai.ValType(v)
	if mt == nil {
		return nil, "the model is unknown"
	}
	problem := ""
	rels := func(owner string, l ai.Val) {
		el, ok := st.SliceElems(st.Resolve(l))
		if !ok {
			problem = "the relationships of " + owner + " are not known"
		}
		for _, x := range el {
			s := ""
			for _, f := range []string{"ID", "Type", "Path"} {
				t, ok := ai.ConstStr(GetPath(st, x, "."+f))
				if !ok {
					problem = "a relationship of " + owner + " is not known"
				}
				s += t + " "
			}
			d.rels[owner] = append(d.rels[owner], strings.TrimSpace(s))
		}
	}
	for _, n := range fieldNames(mt) {
		f := GetPath(st, v, "."+n)
		switch n {
		case "Attachments":
			el, ok := st.SliceElems(f)
			if !ok {
				return nil, "the attachments are not known"
			}
			for _, x := range el {
				p, ok1 := ai.ConstStr(GetPath(st, x, ".Path"))
				t, ok2 := ai.ConstStr(GetPath(st, x, ".ContentType"))
				if !ok1 || !ok2 {
					problem = "an attachment is not known"
				}
				data := ""
				Nearest(st, GetPath(st, x, ".Stream"), func(y ai.Val) bool {
					if b, ok := y.(*ai.Bytes); ok && strings.HasPrefix(b.S, "content of ") {
						data += b.S
					}
					return data != ""
				})
				d.att = append(d.att, p+" ("+t+"): "+data)
			}
		case "Relationships":
			rels("the root part", f)
		case "RootRelationships":
			rels("the package", f)
		case "Childs":
			if ai.IsNil(f) {
				continue
			}
			m, ok := r.mapOf(st, f)
			if !ok || !m.Exact {
				return nil, "the child parts are not known"
			}
			{
				for i, c := range m.Vals {
					k, ok := ai.ConstStr(m.Keys[i])
					if !ok {
						return nil, "the name of a child part is not known"
					}
					fs := map[string]string{}
					cv := deref(st, c)
					for _, cn := range fieldNames(ai.ValType(cv)) {
						if cn == "Relationships" {
							rels(k, GetPath(st, cv, "."+cn))
							continue
						}
						fs[cn] = shown(st, GetPath(st, cv, "."+cn))
					}
					d.childs[k] = fs
				}
			}
		default:
			d.fields[n] = shown(st, f)
		}
	}
	return d, problem
}

func fieldNames(t types.Type) []string {
	var out []string
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, s.Field(i).Name())
		}
	}
	return out
}

func checkC31(r *Report) {
	r.Rule("abstract interpretation of the decoder on packages with several model parts, attachments and relationships whose values tell the part they are in: the resources and extension elements of each part must be those that decoding this part alone gives, in the place of that part, and attachments and relationships those of the package")
	docs := []struct {
		name string
		doc  func(part string) []Tok
	}{
		{"complete parts", markedDoc},
		{"parts with one object", func(part string) []Tok {
			return Elem(nsCore, "model", nil, Elem(nsCore, "resources", nil, Elem(nsCore, "object", []Attr{{Local: "id", Val: BytesVal("7")}, {Local: "name", Val: BytesVal("in " + part)}})))
		}},
		{"no resources in child parts", func(part string) []Tok {
			if part != rootPart {
				return Elem(nsCore, "model", nil, Elem(nsCore, "build", nil), Elem(nsCore, "metadata", []Attr{{Local: "name", Val: BytesVal("in " + part)}}))
			}
			return markedDoc(part)
		}},
		{"no resources in the root part", func(part string) []Tok {
			if part == rootPart {
				return Elem(nsCore, "model", nil)
			}
			return markedDoc(part)
		}},
	}
	for _, d := range docs {
		alone := map[string]*decoded{}
		for _, part := range []string{rootPart, "/3D/a.model", "/3D/sub/b.model", "/other/c.model"} {
			p := &AbsPkg{Files: []AbsFile{{Name: part, ContentType: ct3DModel, Tokens: d.doc(part)}}, Rels: []AbsRel{{"rel0", relModel, part}}}
			alone[part] = r.c31Decode(p, true, d.name+" of "+part+" alone")
		}
		type job struct {
			order     int
			rootFirst bool
			strict    bool
		}
		var jobs []job
		for order := 0; order < 6; order++ {
			jobs = append(jobs, job{order, order%2 == 0, order%3 != 0})
			if r.Thorough() {
				jobs = append(jobs, job{order, order%2 != 0, order%3 != 0}, job{order, order%2 == 0, order%3 == 0}, job{order, order%2 != 0, order%3 == 0})
			}
		}
		parallel(len(jobs), func(i int) {
			j := jobs[i]
			p := testPackage(d.doc, j.order, j.rootFirst)
			p.relateEverything(r.W.relTypes(), rootPart, "/3D/a.model")
			label := fmt.Sprintf("%s (child parts in order %v, root first: %v, strict: %v)", d.name, permutation(3, j.order), j.rootFirst, j.strict)
			if got := r.c31Decode(p, j.strict, label); got != nil {
				r.c31Compare(label, p, got, alone)
			}
			r.Count("packages", 1)
		})
	}
}

func (r *Report) c31Decode(p *AbsPkg, strict bool, label string) *decoded {
	rd := r.partReader(p)
	outs, err := rd.RunPackage(strict)
	r.engineFns(rd.E)
	r.limits(rd.E, label)
	if err != nil || len(outs) != 1 || len(rd.Panics) > 0 {
		r.Fail("undecided: package", label, "decoding %s: %v, %d outcomes, panics %v", label, err, len(outs), sortedKeys(rd.Panics))
		return nil
	}
	bad, known := failed(outs[0])
	if !known || bad {
		r.Fail("decoding fails", label, "decoding %s fails with %s", label, short(outs[0].Res))
		return nil
	}
	d, problem := r.decoded(outs[0].St, rd.Model)
	if problem != "" {
		r.Fail("undecided: model", label, "decoding %s: %s", label, problem)
		return nil
	}
	return d
}

func (r *Report) c31Compare(label string, p *AbsPkg, got *decoded, alone map[string]*decoded) {
	// the content of the parts
	for part, want := range alone {
		if want == nil {
			return // reported already
		}
		if part == rootPart {
			for f, w := range want.fields {
				r.Assert(got.fields[f] == w, "the root part is in the model", "root "+f, label, "%s: %s of the model is not that of the root part: %s", label, f, difference(w, got.fields[f]))
			}
			continue
		}
		child, ok := got.childs[part]
		r.Assert(ok, "every child part is registered", "child missing", label, "%s: there is no child part %s in the model, but %v", label, part, sortedKeys(got.childs))
		for f, g := range child {
			w, ok := want.fields[f]
			if !ok {
				r.Fail("undecided: field "+f, label, "the model has no field %s as its child parts have", f)
				continue
			}
			r.Assert(g == w, "a child part is in its place", "child "+f, label, "%s: %s of the child part %s is not what the part holds: %s", label, f, part, difference(w, g))
		}
	}
	r.Assert(len(got.childs) == len(alone)-1, "nothing else is a child part", "childs", label, "%s: the child parts are %v", label, sortedKeys(got.childs))

	// attachments and relationships
	want := map[string]bool{}
	rels := map[string][]string{}
	note := func(owner, source string, l []AbsRel) {
		for _, x := range l {
			t := p.target(source, x.URI)
			if t == nil || x.Type == relModel {
				continue
			}
			want[t.Name+" ("+t.ContentType+"): content of "+t.Name] = true
			rels[owner] = append(rels[owner], x.ID+" "+x.Type+" "+x.URI)
		}
	}
	note("the package", "/", p.Rels)
	for _, f := range p.Files {
		owner := f.Name
		if owner == rootPart {
			owner = "the root part"
		}
		note(owner, f.Name, f.Rels)
	}
	n := map[string]int{}
	for _, a := range got.att {
		n[a]++
		r.Assert(want[a], "only what relationships refer to is attached", "attached", label, "%s: the attachment %q is not one", label, a)
	}
	for _, a := range sortedKeys(want) {
		r.Assert(n[a] == 1, "every part that is referred to is attached once", "attachments", label, "%s: there are %d attachments %q", label, n[a], a)
	}
	for _, o := range append(sortedKeys(got.childs), "the package", "the root part") {
		g, w := fmt.Sprint(got.rels[o]), fmt.Sprint(rels[o])
		r.Assert(g == w, "relationships are those of their owner", "relationships", label, "%s: the relationships of %s are %s instead of %s", label, o, g, w)
	}
}
