package checks

import "fmt"

var (
	missingField = []string{"MissingFieldError"}
	missingID    = []string{"ErrMissingID"}
	emptyList    = []string{"ErrEmptyResourceProps", "MissingFieldError", "ErrSlicesAndRefs", "ErrInvalidObject", "ErrInsufficientVertices", "ErrInsufficientTriangles", "ErrSliceInsufficientVertices", "ErrSliceInsufficientPolygons", "ErrSliceInsufficientSegments"}
	missingUUID  = []string{"MissingFieldError", "ErrUUID"}
	duplicateID  = []string{"ErrDuplicatedID"}
)

// c20Cases gives the models with something missing or duplicated.
func (r *Report) c20Cases() []vcase {
	var out []vcase
	names := []string{"basematerials[0]", "colorgroup[1]", "texture2d[2]", "texture2dgroup[3]", "compositematerials[4]", "multiproperties[5]", "multiproperties[6]", "slicestack[7]", "slicestack[8]"}
	for _, part := range []string{rootPart, childPart} {
		part := part
		res := partPlace(part) + "Resources."
		where := " in the root part"
		if part != rootPart {
			where = " in a child part"
		}
		put1 := func(what, place string, v any, causes []string, loc ...string) {
			out = append(out, vcase{what: what + " at " + place + where, edits: []edit{put(res+place, v)}, part: part, loc: loc, causes: causes})
		}
		several := func(what string, causes []string, loc []string, e ...edit) {
			out = append(out, vcase{what: what + where, edits: e, part: part, loc: loc, causes: causes})
		}
		assets, comps := 8, 2
		if part == rootPart {
			assets, comps = 9, 4
		}
		obj := func(i int) string { return fmt.Sprintf("object[%d]", i) }
		// identifiers
		for i := 0; i < assets; i++ {
			put1("no identifier", fmt.Sprintf("Assets[%d].ID", i), 0, missingID, names[i])
		}
		for i := 0; i < 4; i++ {
			put1("no identifier", fmt.Sprintf("Objects[%d].ID", i), 0, missingID, obj(i))
		}
		ids := []int{1, 2, 3, 4, 5, 6, 9, 7, 8}
		for i := 0; i < assets; i++ {
			for j := i + 1; j < assets; j++ {
				put1(fmt.Sprintf("the identifier %d twice", ids[i]), fmt.Sprintf("Assets[%d].ID", j), ids[i], duplicateID, names[j])
			}
			for j := 0; j < 4; j++ {
				put1(fmt.Sprintf("the identifier %d twice", ids[i]), fmt.Sprintf("Objects[%d].ID", j), ids[i], duplicateID, obj(j))
			}
		}
		for i := 0; i < 4; i++ {
			for j := i + 1; j < 4; j++ {
				put1(fmt.Sprintf("the identifier %d twice", 10+i), fmt.Sprintf("Objects[%d].ID", j), 10+i, duplicateID, obj(j))
			}
		}
		several("an identifier three times", duplicateID, []string{obj(3)}, put(res+"Objects[1].ID", 10), put(res+"Objects[3].ID", 10))
		several("two identifiers twice", duplicateID, []string{obj(1)}, put(res+"Objects[1].ID", 1), put(res+"Assets[6].ID", 4))
		several("two identifiers twice", duplicateID, []string{names[6]}, put(res+"Objects[1].ID", 1), put(res+"Assets[6].ID", 4))
		several("an asset without identifier between two of the same", duplicateID, []string{names[6]}, put(res+"Assets[6].ID", 1), put(res+"Assets[3].ID", 0))
		// core materials
		for i := 0; i < 3; i++ {
			put1("no name", fmt.Sprintf("Assets[0].Materials[%d].Name", i), "", missingField, names[0], fmt.Sprintf("base[%d]", i))
			put1("no colour", fmt.Sprintf("Assets[0].Materials[%d].Color", i), F{}, missingField, names[0], fmt.Sprintf("base[%d]", i))
		}
		put1("no materials", "Assets[0].Materials", L{}, emptyList, names[0])
		// materials
		for i := 0; i < 2; i++ {
			put1("no colour", fmt.Sprintf("Assets[1].Colors[%d]", i), F{}, missingField, names[1], fmt.Sprintf("color[%d]", i))
		}
		put1("no colours", "Assets[1].Colors", L{}, emptyList, names[1])
		put1("no path", "Assets[2].Path", "", missingField, names[2])
		put1("no content type", "Assets[2].ContentType", 0, missingField, names[2])
		put1("no texture", "Assets[3].TextureID", 0, missingField, names[3])
		put1("no coordinates", "Assets[3].Coords", L{}, emptyList, names[3])
		put1("no material", "Assets[4].MaterialID", 0, missingField, names[4])
		put1("no indices", "Assets[4].Indices", L{}, missingField, names[4])
		put1("no composites", "Assets[4].Composites", L{}, emptyList, names[4])
		for i := 5; i < 7; i++ {
			put1("no groups", fmt.Sprintf("Assets[%d].PIDs", i), L{}, missingField, names[i])
			put1("no entries", fmt.Sprintf("Assets[%d].Multis", i), L{}, emptyList, names[i])
		}
		// slices
		put1("no slices", "Assets[7].Slices", L{}, emptyList, names[7])
		for i := 0; i < 2; i++ {
			at := fmt.Sprintf("Assets[7].Slices[%d].", i)
			loc := []string{names[7], fmt.Sprintf("slice[%d]", i)}
			put1("no top", at+"TopZ", 0, missingField, loc...)
			put1("no vertices", at+"Vertices", F{}, emptyList, loc...)
			put1("no polygons", at+"Polygons", L{}, emptyList, loc...)
			for j := 0; j < 2; j++ {
				put1("no segments", fmt.Sprintf("%sPolygons[%d].Segments", at, j), L{}, emptyList, append(append([]string{}, loc...), fmt.Sprintf("polygon[%d]", j))...)
			}
		}
		put1("no slice stack", "Objects[0].AnyAttr[1].SliceStackID", 0, missingField, obj(0))
		if part == rootPart {
			for i := 0; i < 2; i++ {
				at := fmt.Sprintf("Assets[8].Refs[%d].", i)
				loc := []string{names[8], fmt.Sprintf("sliceref[%d]", i)}
				put1("no path", at+"Path", "", missingField, loc...)
				put1("no slice stack", at+"SliceStackID", 0, missingField, loc...)
			}
			put1("no references", "Assets[8].Refs", L{}, emptyList, names[8])
		}
		// objects
		for _, i := range []int{0, 1, 3} {
			at := fmt.Sprintf("Objects[%d].", i)
			put1("no mesh", at+"Mesh", nil, emptyList, obj(i))
			if i == 0 {
				for _, t := range []int{0, 3} {
					several(fmt.Sprintf("no vertices at an object of type %d", t), emptyList, []string{obj(i)}, put(res+at+"Mesh.Vertices", F{}), put(res+at+"Type", t))
					several(fmt.Sprintf("no triangles at an object of type %d", t), emptyList, []string{obj(i)}, put(res+at+"Mesh.Triangles", F{}), put(res+at+"Type", t))
				}
			}
			several(fmt.Sprintf("an index without property at object %d", i), missingField, []string{obj(i)}, put(res+at+"PIndex", 1), put(res+at+"PID", 0))
		}
		put1("no components", "Objects[2].Components", nil, emptyList, obj(2))
		put1("an empty list of components", "Objects[2].Components.Component", L{}, emptyList, obj(2))
		for i := 0; i < comps; i++ {
			at := fmt.Sprintf("Objects[2].Components.Component[%d].", i)
			loc := []string{obj(2), fmt.Sprintf("component[%d]", i)}
			put1("no object", at+"ObjectID", 0, missingField, loc...)
			put1("no UUID", at+"AnyAttr[0].UUID", "", missingUUID, loc...)
			put1("no attributes", at+"AnyAttr", L{}, missingUUID, loc...)
		}
		for i := 0; i < 4; i++ {
			at := fmt.Sprintf("Objects[%d].AnyAttr", i)
			put1("no UUID", at+"[0].UUID", "", missingUUID, obj(i))
			out = append(out, vcase{what: "no attributes at " + at + where, edits: []edit{cut(res+at, 0)}, part: part, loc: []string{obj(i)}, causes: missingUUID})
		}
		// lattices
		put1("no minimum length", "Objects[1].Mesh.Any[0].MinLength", 0, missingField, obj(1))
		put1("no radius", "Objects[1].Mesh.Any[0].Radius", 0, missingField, obj(1))
	}
	build := func(what string, e edit, causes []string, loc ...string) {
		out = append(out, vcase{what: what, edits: []edit{e}, part: "", loc: loc, causes: causes})
	}
	build("no UUID at the build", put("Build.AnyAttr[0].UUID", ""), missingUUID, "build")
	build("no attributes at the build", cut("Build.AnyAttr", 0), missingUUID, "build")
	for i := 0; i < 3; i++ {
		at := fmt.Sprintf("Build.Items[%d].", i)
		loc := []string{"build", fmt.Sprintf("item[%d]", i)}
		build("no object at "+at, put(at+"ObjectID", 0), missingField, loc...)
		build("no UUID at "+at, put(at+"AnyAttr[0].UUID", ""), missingUUID, loc...)
		build("no attributes at "+at, put(at+"AnyAttr", L{}), missingUUID, loc...)
	}
	// metadata
	type list struct {
		place string
		loc   []string
	}
	lists := []list{{"Metadata", nil}}
	for i := 0; i < 3; i++ {
		lists = append(lists, list{fmt.Sprintf("Build.Items[%d].Metadata.Metadata", i), []string{"build", fmt.Sprintf("item[%d]", i)}})
	}
	for _, l := range lists {
		at := func(i int) []string { return append(append([]string{}, l.loc...), fmt.Sprintf("metadata[%d]", i)) }
		for j := 0; j < 3; j++ {
			out = append(out, vcase{what: fmt.Sprintf("no name at %s[%d]", l.place, j), edits: []edit{put(fmt.Sprintf("%s[%d].Name", l.place, j), F{})}, loc: at(j), causes: missingField})
			for i := 0; i < j; i++ {
				from := litGet(r.W.valid(), fmt.Sprintf("%s[%d].Name", l.place, i))
				out = append(out, vcase{what: fmt.Sprintf("the name of %s[%d] at [%d]", l.place, i, j), edits: []edit{put(fmt.Sprintf("%s[%d].Name", l.place, j), from)}, loc: at(j), causes: []string{"ErrMetadataDuplicated"}})
			}
		}
		n := litGet(r.W.valid(), l.place+"[2].Name")
		out = append(out, vcase{what: "a name with a name space twice at " + l.place, edits: []edit{add(l.place, F{"Name": n, "Value": "other"})}, loc: at(3), causes: []string{"ErrMetadataDuplicated"}})
	}
	// relationships
	for _, l := range []struct{ place, part string }{{"RootRelationships", ""}, {"Relationships", rootPart}, {"Childs{" + childPart + "}.Relationships", childPart}} {
		for j := 0; j < 3; j++ {
			loc := []string{fmt.Sprintf(`relationship[%d]`, j)}
			out = append(out, vcase{what: fmt.Sprintf("no target at %s[%d]", l.place, j), edits: []edit{put(fmt.Sprintf("%s[%d].Path", l.place, j), "")}, part: l.part, loc: loc, causes: []string{"ErrOPCPartName", "ErrOPCRelTarget", "MissingFieldError"}})
			for i := 0; i < j; i++ {
				from := litGet(r.W.valid(), fmt.Sprintf("%s[%d]", l.place, i))
				out = append(out, vcase{what: fmt.Sprintf("the relationship of %s[%d] at [%d]", l.place, i, j), edits: []edit{put(fmt.Sprintf("%s[%d]", l.place, j), from)}, part: l.part, loc: loc, causes: []string{"ErrOPCDuplicatedRel"}})
			}
		}
		for _, t := range []string{"", "http://x/ticket"} {
			x := F{"ID": "x", "Type": t, "Path": "/one.bin"}
			y := F{"ID": "y", "Type": t, "Path": "/one.bin"}
			out = append(out, vcase{what: fmt.Sprintf("a relationship of type %q twice at %s, with different identifiers", t, l.place), edits: []edit{add(l.place, x), add(l.place, y)}, part: l.part, loc: []string{`relationship[4]`}, causes: []string{"ErrOPCDuplicatedRel"}})
		}
	}
	// what is neither missing nor duplicated
	res := "Resources."
	for _, c := range []struct {
		what  string
		edits []edit
	}{
		{"identifiers of the root part in a child part", []edit{put("Childs{"+otherPart+"}.Resources.Objects[0].ID", 12), put("Build.Items[2].ObjectID", 12), put("Resources.Objects[2].Components.Component[3].ObjectID", 12)}},
		{"items with the same object", []edit{put("Build.Items[1].ObjectID", 10), put("Build.Items[1].AnyAttr[0].Path", "")}},
		{"components with the same object", []edit{put(res+"Objects[2].Components.Component[1].ObjectID", 10)}},
		{"materials with the same name and colour", []edit{put(res+"Assets[0].Materials[1]", litGet(r.W.valid(), res+"Assets[0].Materials[0]"))}},
		{"a slice without content", []edit{put(res+"Assets[7].Slices[0].Vertices", F{}), put(res+"Assets[7].Slices[0].Polygons", L{})}},
		{"objects without properties", []edit{put(res+"Objects[0].PID", 0), put(res+"Objects[0].PIndex", 0)}},
		{"no metadata", []edit{put("Metadata", L{}), put("Build.Items[1].Metadata", F{})}},
		{"no relationships", []edit{put("Relationships", L{}), put("RootRelationships", L{})}},
		{"no items", []edit{put("Build.Items", L{})}},
		{"no childs", []edit{put("Childs", M{}), put("Build.Items", L{}), put(res+"Objects[2].Components.Component", L{F{"ObjectID": 10, "AnyAttr": L{Dyn{"production", "ComponentAttr", F{"UUID": goodUUID}}}}}), cut(res+"Assets", 8)}},
		{"a large identifier", []edit{put(res+"Assets[8].ID", 1<<32-1)}},
		{"transparent black with an opaque one", []edit{put(res+"Assets[1].Colors[0]", F{"A": 1})}},
	} {
		out = append(out, vcase{what: c.what, edits: c.edits})
	}
	return out
}

func checkC20(r *Report) {
	r.Rule("abstract interpretation of Model.Validate on a valid model from which one mandatory piece is taken away, or in which one identifier, name or relationship is repeated: an error of that kind must be located at the element (and its index) that lacks or repeats it, in its part; models with nothing missing have no error")
	if !r.checkValid() {
		return
	}
	cs := r.c20Cases()
	parallel(len(cs), func(i int) {
		r.runCase("what is missing or duplicated is reported where it is", "nothing is reported for models with everything", cs[i])
	})
}
