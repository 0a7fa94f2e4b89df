package checks

import (
	"fmt"
	"go/types"
	"math"

	"verif/checker/ai"
)

// edit changes a place of the valid model.
type edit struct {
	path string
	f    func(old any) any
}

func put(path string, v any) edit { return edit{path, func(any) any { return v }} }

func add(path string, v any) edit {
	return edit{path, func(old any) any {
		l, _ := old.(L)
		return append(append(L{}, l...), v)
	}}
}

func cut(path string, i int) edit {
	return edit{path, func(old any) any {
		l := old.(L)
		return append(append(L{}, l[:i]...), l[i+1:]...)
	}}
}

// vcase is an edited valid model, and what validation says about it.
type vcase struct {
	what  string
	edits []edit
	part  string
	loc   []string
	// causes that are accepted; none at all if the model is still valid
	causes []string
	lo, hi int64 // range of the symbol "id"
}

func (r *Report) runCase(rule, okRule string, c vcase) {
	m := r.W.valid()
	for _, e := range c.edits {
		m = litSet(m, e.path, e.f).(F)
	}
	label := c.what
	outs, err := r.validate(m, "Validate", func(st *ai.State) {
		if c.hi != 0 {
			st.AssumeRange("id", &c.lo, &c.hi)
		}
	})
	if err != nil {
		r.Fail("undecided: "+c.what, label, "validating a model with %s: %v", c.what, err)
		return
	}
	for _, l := range outs {
		if len(c.causes) == 0 {
			r.Assert(len(l) == 0, okRule, "reported: "+c.what, label, "a model with %s is reported: %v", c.what, l)
			continue
		}
		found := false
		for _, v := range l {
			if !v.within(c.part, c.loc...) {
				continue
			}
			for _, k := range c.causes {
				found = found || v.cause == k
			}
		}
		at := fmt.Sprint(c.loc)
		if c.part != "" {
			at += " of " + c.part
		}
		r.Assert(found, rule, "not reported: "+c.what, label, "a model with %s is accepted: no such error is reported at %s (errors: %v)", c.what, at, l)
	}
	r.Count("models", 1)
}

func symbolicID() ai.Val { return ai.Atom("id", types.Typ[types.Uint32]) }

var (
	danglingCauses = []string{"ErrMissingResource", "ErrTextureReference", "ErrMissingTexturePart", "ErrOPCRelTarget", "ErrRequiredExt"}
	wrongCauses    = []string{"ErrMissingResource", "ErrTextureReference", "ErrCompositeBase", "ErrNonSliceStack", "ErrMultiRefMulti", "ErrLatticeInvalidMesh", "ErrRecursion", "ErrNonObject", "ErrSliceRefRef"}
)

// reference is a place of the valid model that holds an identifier.
type reference struct {
	place string
	loc   []string
	wrong []int // identifiers of other kinds of things
	right []int // other identifiers that are fine
	with  []edit
	kind  string // what has to be added to another part
}

// references within a part.
func references(part string) []reference {
	res := partPlace(part) + "Resources."
	var out []reference
	obj := func(i int) string { return fmt.Sprintf("object[%d]", i) }
	// identifiers of objects are no properties
	objects := []int{10, 11, 13}
	groups := []int{1, 2, 4, 5, 6, 9}
	// 9 has a single entry
	for _, o := range []int{0, 1, 3} {
		p := fmt.Sprintf("%sObjects[%d].", res, o)
		out = append(out, reference{place: p + "PID", loc: []string{obj(o)}, wrong: objects, right: groups, with: []edit{put(p+"PIndex", 0)}, kind: "base"})
		for t := 0; t < 6; t++ {
			tp := fmt.Sprintf("%sMesh.Triangles.Triangle[%d].", p, t)
			out = append(out, reference{place: tp + "PID", loc: []string{obj(o), fmt.Sprintf("triangle[%d]", t)}, wrong: objects, right: groups, with: []edit{put(tp+"P1", 0), put(tp+"P2", 0), put(tp+"P3", 0)}, kind: "base"})
		}
	}
	out = append(out,
		reference{place: res + "Assets[3].TextureID", loc: []string{"texture2dgroup[3]"}, wrong: []int{1, 2, 4, 5, 6, 7, 10}, kind: "texture"},
		reference{place: res + "Assets[4].MaterialID", loc: []string{"compositematerials[4]"}, wrong: []int{2, 3, 4, 5, 6, 7, 10}, with: []edit{put(res+"Assets[4].Indices", L{0})}, kind: "base"},
		reference{place: res + "Objects[0].AnyAttr[1].SliceStackID", loc: []string{obj(0)}, wrong: []int{1, 2, 3, 4, 5, 6, 10}, kind: "stack"},
		reference{place: res + "Objects[1].Mesh.Any[0].ClippingMeshID", loc: []string{obj(1)}, wrong: []int{1, 7, 11, 12}, kind: "first object"},
		reference{place: res + "Objects[1].Mesh.Any[0].RepresentationMeshID", loc: []string{obj(1)}, wrong: []int{1, 7, 11, 12}, right: []int{0}, kind: "first object"})
	for a, n := range map[int]int{5: 3, 6: 2} {
		for k := 0; k < n; k++ {
			p := fmt.Sprintf("%sAssets[%d].PIDs[%d]", res, a, k)
			multi := F{"PIndices": L{0}}
			fix := []edit{put(fmt.Sprintf("%sAssets[%d].Multis", res, a), L{multi, multi, multi, multi})}
			ref := reference{place: p, loc: []string{fmt.Sprintf("multiproperties[%d]", a)}, wrong: []int{9, 10}, with: fix, kind: "base"}
			if a == 6 {
				ref.wrong = []int{6, 10}
			}
			if k > 0 {
				ref.kind = "coords"
				ref.right = []int{4}
			} else {
				ref.right = []int{1, 5, 4}
			}
			out = append(out, ref)
		}
	}
	return out
}

// only gives the edit that defines an identifier in a part.
func only(part, kind string, id int) edit {
	res := partPlace(part) + "Resources."
	switch kind {
	case "texture":
		return add(res+"Assets", Dyn{"materials", "Texture2D", F{"ID": id, "Path": "/tex.png", "ContentType": 1}})
	case "coords":
		return add(res+"Assets", Dyn{"materials", "Texture2DGroup", F{"ID": id, "TextureID": 3, "Coords": L{nil}}})
	case "stack":
		return add(res+"Assets", Dyn{"slices", "SliceStack", F{"ID": id, "Slices": L{F{"TopZ": 1}}}})
	case "object", "first object":
		return edit{res + "Objects", func(old any) any {
			o := F{"ID": id, "Mesh": F{"Vertices": F{"Vertex": L{nil, nil, nil, nil}}, "Triangles": F{"Triangle": L{
				F{"V1": 0, "V2": 1, "V3": 2}, F{"V1": 0, "V2": 2, "V3": 3}, F{"V1": 0, "V2": 1, "V3": 3}, F{"V1": 1, "V2": 2, "V3": 3},
			}}}, "AnyAttr": L{Dyn{"production", "ObjectAttr", F{"UUID": goodUUID}}}}
			if kind == "first object" {
				return append(L{o}, old.(L)...)
			}
			return append(append(L{}, old.(L)...), o)
		}}
	}
	return add(res+"Assets", Dyn{"", "BaseMaterials", F{"ID": id, "Materials": L{F{"Name": "x", "Color": F{"A": 255}}}}})
}

func (r *Report) c19Cases() []vcase {
	var out []vcase
	bad := func(c vcase) { out = append(out, c) }
	parts := []string{rootPart, childPart}
	name := func(part string) string {
		if part == rootPart {
			return "the root part"
		}
		return "a child part"
	}
	for _, part := range parts {
		other := childPart
		if part == childPart {
			other = rootPart
		}
		for _, ref := range references(part) {
			where := ref.place + " in " + name(part)
			with := func(e ...edit) []edit { return append(append([]edit{}, ref.with...), e...) }
			bad(vcase{what: "an identifier that does not exist at " + where, edits: with(put(ref.place, symbolicID())), part: part, loc: ref.loc, causes: danglingCauses, lo: 1000, hi: math.MaxUint32})
			bad(vcase{what: "an identifier of another part at " + where, edits: with(put(ref.place, 500), only(other, ref.kind, 500)), part: part, loc: ref.loc, causes: danglingCauses})
			if part == rootPart && ref.kind == "stack" {
				bad(vcase{what: "an identifier of another part at " + where, edits: with(put(ref.place, 17)), part: part, loc: ref.loc, causes: danglingCauses})
			}
			for _, id := range ref.wrong {
				bad(vcase{what: fmt.Sprintf("the identifier %d of something else at %s", id, where), edits: with(put(ref.place, id)), part: part, loc: ref.loc, causes: wrongCauses})
			}
			for _, id := range ref.right {
				bad(vcase{what: fmt.Sprintf("the identifier %d at %s", id, where), edits: with(put(ref.place, id))})
			}
			if ref.kind != "first object" {
				bad(vcase{what: "a resource at the end of the list at " + where, edits: with(only(part, ref.kind, 500), put(ref.place, 500))})
			}
		}
		res := partPlace(part) + "Resources."
		// meshes that lattices refer to
		for _, f := range []string{"ClippingMeshID", "RepresentationMeshID"} {
			p := res + "Objects[1].Mesh.Any[0]." + f
			loc := []string{"object[1]"}
			bad(vcase{what: p + " that refers to a support", edits: []edit{put(res+"Objects[0].Type", 2)}, part: part, loc: loc, causes: wrongCauses})
			bad(vcase{what: p + " that refers to a later object", edits: []edit{put(p, 13), put(res+"Objects[3].Type", 0)}, part: part, loc: loc, causes: wrongCauses})
			bad(vcase{what: p + " that refers to a mesh with a lattice", edits: []edit{put(res+"Objects[0].Mesh.Any", L{Dyn{"beamlattice", "BeamLattice", F{"ClipMode": 1, "MinLength": 1, "Radius": 1}}})}, part: part, loc: loc, causes: wrongCauses})
		}
		// textures
		bad(vcase{what: "a texture without attachment in " + name(part), edits: []edit{put(res+"Assets[2].Path", "/none.png")}, part: part, loc: []string{"texture2d[2]"}, causes: danglingCauses})
		bad(vcase{what: "a texture at a part of another name in " + name(part), edits: []edit{put(res+"Assets[2].Path", "/tex.pn")}, part: part, loc: []string{"texture2d[2]"}, causes: danglingCauses})
		bad(vcase{what: "a texture at a part of a longer name in " + name(part), edits: []edit{put(res+"Assets[2].Path", "/tex.png2")}, part: part, loc: []string{"texture2d[2]"}, causes: danglingCauses})
		bad(vcase{what: "a texture in another case in " + name(part), edits: []edit{put(res+"Assets[2].Path", "/TEX.png")}})
		bad(vcase{what: "a texture at the last attachment in " + name(part), edits: []edit{put(res+"Assets[2].Path", "/last.bin")}})
		// components
		n := 2
		if part == rootPart {
			n = 4
		}
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("%sObjects[2].Components.Component[%d].ObjectID", res, i)
			loc := []string{"object[2]", fmt.Sprintf("component[%d]", i)}
			where := p + " in " + name(part)
			bad(vcase{what: "an object that does not exist at " + where, edits: []edit{put(p, symbolicID())}, part: part, loc: loc, causes: danglingCauses, lo: 1000, hi: math.MaxUint32})
			var wrong, right []int
			switch i {
			case 0, 1:
				wrong, right = []int{1, 3, 5, 7, 20, 17}, []int{10, 11, 13}
				bad(vcase{what: "an object of another part at " + where, edits: []edit{put(p, 500), only(other, "object", 500)}, part: part, loc: loc, causes: danglingCauses})
			case 2:
				wrong, right = []int{1, 7, 20, 17, 500}, []int{10, 11, 12, 13}
			case 3:
				wrong = []int{1, 10, 11, 17, 500}
			}
			for _, id := range wrong {
				e := []edit{put(p, id)}
				if id == 500 { // exists, but not in the part that is named
					e = append(e, only(rootPart, "object", 500))
				}
				bad(vcase{what: fmt.Sprintf("the identifier %d of something else at %s", id, where), edits: e, part: part, loc: loc, causes: wrongCauses})
			}
			for _, id := range right {
				bad(vcase{what: fmt.Sprintf("the object %d at %s", id, where), edits: []edit{put(p, id)}})
			}
		}
		// the targets of relationships
		for i := 0; i < 3; i++ {
			for _, list := range []string{partPlace(part) + "Relationships", "RootRelationships"} {
				at := part
				if list == "RootRelationships" {
					if part != rootPart {
						continue
					}
					at = ""
				}
				for _, t := range []string{"/none.bin", "/one.bin2", "/one.bi"} {
					bad(vcase{what: fmt.Sprintf("the target %s at %s[%d]", t, list, i), edits: []edit{put(fmt.Sprintf("%s[%d].Path", list, i), t)}, part: at, loc: []string{fmt.Sprintf(`relationship[%d]`, i)}, causes: danglingCauses})
				}
				for _, t := range []string{"/last.bin", "/LAST.bin"} {
					bad(vcase{what: fmt.Sprintf("the target %s at %s[%d]", t, list, i), edits: []edit{put(fmt.Sprintf("%s[%d].Path", list, i), t)}})
				}
			}
		}
	}
	// components with paths
	for i, path := range map[int]string{2: otherPart, 3: childPart} {
		p := fmt.Sprintf("Resources.Objects[2].Components.Component[%d].AnyAttr[0].Path", i)
		loc := []string{"object[2]", fmt.Sprintf("component[%d]", i)}
		bad(vcase{what: "a part that does not exist at " + p, edits: []edit{put(p, "/3D/none.model")}, part: rootPart, loc: loc, causes: danglingCauses})
		bad(vcase{what: "the wrong part at " + p, edits: []edit{put(p, path)}, part: rootPart, loc: loc, causes: danglingCauses})
	}
	bad(vcase{what: "the path of the own part at a component", edits: []edit{put("Resources.Objects[2].Components.Component[2].AnyAttr[0].Path", rootPart)}})
	// items
	items := "Build.Items"
	for i := 0; i < 3; i++ {
		p := fmt.Sprintf("%s[%d].", items, i)
		loc := []string{"build", fmt.Sprintf("item[%d]", i)}
		bad(vcase{what: "an object that does not exist at " + p, edits: []edit{put(p+"ObjectID", symbolicID())}, part: rootPart, loc: loc, causes: danglingCauses, lo: 1000, hi: math.MaxUint32})
		bad(vcase{what: "a part that does not exist at " + p, edits: []edit{put(p+"AnyAttr[0].Path", "/3D/none.model")}, part: rootPart, loc: loc, causes: danglingCauses})
		for _, x := range []struct {
			path string
			ids  []int
			ok   bool
		}{
			{"", []int{10, 11, 12, 13}, true}, {rootPart, []int{10, 12}, true}, {childPart, []int{10, 11, 12, 13}, true}, {otherPart, []int{20}, true},
			{"", []int{1, 7, 8, 20, 17, 501}, false}, {rootPart, []int{20, 501}, false}, {childPart, []int{1, 20, 500}, false}, {otherPart, []int{10, 17, 500, 501}, false},
		} {
			for _, id := range x.ids {
				e := []edit{put(p+"ObjectID", id), put(p+"AnyAttr[0].Path", x.path)}
				switch id {
				case 500:
					e = append(e, only(rootPart, "object", 500))
				case 501:
					e = append(e, only(childPart, "object", 501))
				}
				c := vcase{what: fmt.Sprintf("the identifier %d and part %q at %s", id, x.path, p), edits: e, part: rootPart, loc: loc, causes: danglingCauses}
				if x.ok {
					c.causes = nil
				}
				bad(c)
			}
		}
		bad(vcase{what: "no attributes at " + p + " and an object of another part", edits: []edit{put(p+"ObjectID", 20), put(p+"AnyAttr", L{})}, part: rootPart, loc: loc, causes: danglingCauses})
	}
	// slices of other parts
	for i := 0; i < 2; i++ {
		p := fmt.Sprintf("Resources.Assets[8].Refs[%d].", i)
		loc := []string{"slicestack[8]", fmt.Sprintf("sliceref[%d]", i)}
		bad(vcase{what: "a stack that does not exist at " + p, edits: []edit{put(p+"SliceStackID", symbolicID())}, part: rootPart, loc: loc, causes: danglingCauses, lo: 1000, hi: math.MaxUint32})
		bad(vcase{what: "a part that does not exist at " + p, edits: []edit{put(p+"Path", "/3D/none.model")}, part: rootPart, loc: loc, causes: danglingCauses})
		for _, x := range []struct {
			path string
			ids  []int
		}{{childPart, []int{1, 4, 6, 10, 17, 500}}, {otherPart, []int{7, 20, 500}}} {
			for _, id := range x.ids {
				e := []edit{put(p+"SliceStackID", id), put(p+"Path", x.path)}
				if id == 500 {
					e = append(e, only(rootPart, "stack", 500))
				}
				bad(vcase{what: fmt.Sprintf("the identifier %d of part %s at %s", id, x.path, p), edits: e, part: rootPart, loc: loc, causes: wrongCauses})
			}
		}
		bad(vcase{what: "a stack that refers to others at " + p, edits: []edit{put("Childs{"+childPart+"}.Resources.Assets[7].Slices", L{}), put("Childs{"+childPart+"}.Resources.Assets[7].Refs", L{F{"SliceStackID": 17, "Path": otherPart}}),
			put(p+"SliceStackID", 7), put(p+"Path", childPart)}, part: rootPart, loc: loc, causes: wrongCauses})
	}
	// the path of the root part
	bad(vcase{what: "an explicit path", edits: []edit{put("Path", rootPart)}})
	bad(vcase{what: "another path of the root part", edits: []edit{put("Path", "/3D/other.model")}})
	bad(vcase{what: "another path of the root part named by an item", edits: []edit{put("Path", "/3D/other.model"), put("Build.Items[0].AnyAttr[0].Path", "/3D/other.model")}})
	bad(vcase{what: "the default path although the root part has another one", edits: []edit{put("Path", "/3D/other.model"), put("Build.Items[0].AnyAttr[0].Path", rootPart)}, part: "", loc: []string{"item[0]"}, causes: danglingCauses})
	// extensions
	unknown := func(req bool) F { return F{"Namespace": "http://unknown", "LocalName": "u", "IsRequired": req} }
	for i := 0; i <= 4; i++ {
		i := i
		at := func(x F) edit {
			return edit{"Extensions", func(old any) any {
				l := old.(L)
				return append(append(append(L{}, l[:i]...), x), l[i:]...)
			}}
		}
		bad(vcase{what: fmt.Sprintf("an unknown required extension at position %d", i), edits: []edit{at(unknown(true))}, causes: danglingCauses})
		bad(vcase{what: fmt.Sprintf("an unknown optional extension at position %d", i), edits: []edit{at(unknown(false))}})
	}
	for i := 0; i < 4; i++ {
		bad(vcase{what: fmt.Sprintf("a required extension at position %d", i), edits: []edit{put(fmt.Sprintf("Extensions[%d].IsRequired", i), true)}})
	}
	return out
}

func checkC19(r *Report) {
	r.Rule("abstract interpretation of Model.Validate on a valid model with one reference replaced: by every identifier that does not exist (a symbol), by identifiers of other parts and of other kinds of things, by paths that do not exist - which must be reported at the element that holds it -, and by other references that resolve, for which nothing is reported")
	if !r.checkValid() {
		return
	}
	cs := r.c19Cases()
	parallel(len(cs), func(i int) {
		r.runCase("references that do not resolve are reported", "nothing is reported for references that resolve", cs[i])
	})
}
