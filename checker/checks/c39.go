package checks

import "fmt"

// c39Cases gives the models that break one of the structural rules, and the
// ones at the border of a rule that meet it.
func (r *Report) c39Cases() []vcase {
	var out []vcase
	str := func(l []string, s string) []string { return append(append([]string{}, l...), s) }
	for _, part := range []string{rootPart, childPart} {
		part := part
		res := partPlace(part) + "Resources."
		where := " in the root part"
		if part != rootPart {
			where = " in a child part"
		}
		bad := func(what, cause string, loc []string, e ...edit) {
			out = append(out, vcase{what: what + where, edits: e, part: part, loc: loc, causes: []string{cause}})
		}
		ok := func(what string, e ...edit) {
			out = append(out, vcase{what: what + where, edits: e})
		}
		obj := func(i int) []string { return []string{fmt.Sprintf("object[%d]", i)} }
		at := func(i int, f string) string { return fmt.Sprintf("%sObjects[%d].%s", res, i, f) }

		// meshes
		for _, o := range []int{0, 1, 3} {
			for t := 0; t < 6; t++ {
				tri := at(o, fmt.Sprintf("Mesh.Triangles.Triangle[%d].", t))
				for _, s := range [][3]int{{1, 1, 2}, {1, 2, 1}, {2, 1, 1}, {3, 3, 3}, {0, 0, 1}, {1, 0, 0}, {0, 2, 0}} {
					bad(fmt.Sprintf("the triangle %v as %d of object %d", s, t, o), "ErrDuplicatedIndices", str(obj(o), fmt.Sprintf("triangle[%d]", t)), put(tri+"V1", s[0]), put(tri+"V2", s[1]), put(tri+"V3", s[2]))
				}
			}
		}
		for _, s := range [][3]int{{3, 2, 1}, {1, 2, 3}, {0, 3, 1}} {
			ok(fmt.Sprintf("the triangle %v", s), put(at(0, "Mesh.Triangles.Triangle[5].V1"), s[0]), put(at(0, "Mesh.Triangles.Triangle[5].V2"), s[1]), put(at(0, "Mesh.Triangles.Triangle[5].V3"), s[2]))
		}
		flat := F{"V1": 0, "V2": 1, "V3": 2}
		list := func(n int, v any) L {
			l := L{}
			for i := 0; i < n; i++ {
				l = append(l, v)
			}
			return l
		}
		alone := []edit{put(at(1, "Mesh.Any[0].ClippingMeshID"), 0), put(at(1, "Mesh.Any[0].RepresentationMeshID"), 0)}
		for typ, name := range []string{"model", "other", "support", "solidsupport", "surface"} {
			if typ == 1 {
				continue // an item of this object is no longer fine
			}
			mesh := func(points, faces int) []edit {
				return append(append([]edit{}, alone...), put(at(0, "Type"), typ), put(at(0, "Mesh.Vertices.Vertex"), list(points, nil)), put(at(0, "Mesh.Triangles.Triangle"), list(faces, flat)))
			}
			solid := name == "model" || name == "solidsupport"
			for n := 0; n <= 5; n++ {
				what := fmt.Sprintf("%d triangles of a %s", n, name)
				if solid && n < 4 {
					bad(what, "ErrInsufficientTriangles", obj(0), mesh(3, n)...)
				} else {
					ok(what, mesh(3, n)...)
				}
			}
			for n := 0; n <= 4; n++ {
				faces := 4
				if n < 3 {
					faces = 0
				}
				what := fmt.Sprintf("%d vertices of a %s", n, name)
				if solid && n < 3 {
					bad(what, "ErrInsufficientVertices", obj(0), mesh(n, faces)...)
				} else {
					ok(what, mesh(n, faces)...)
				}
			}
			ok(fmt.Sprintf("an object of components of type %s", name), put(at(2, "Type"), typ))
			ok(fmt.Sprintf("a mesh of type %s that nothing refers to", name), put(at(3, "Type"), typ))
		}
		for n := 0; n < 4; n++ {
			ok(fmt.Sprintf("a lattice with %d triangles", n), put(at(1, "Mesh.Triangles.Triangle"), list(n, flat)))
		}
		ok("a mesh of type other that nothing refers to", put(at(3, "Type"), 1))
		// objects
		comp := func(id int) F {
			return F{"ObjectID": id, "AnyAttr": L{Dyn{"production", "ComponentAttr", F{"UUID": goodUUID}}}}
		}
		bad("a mesh with a component", "ErrInvalidObject", obj(3), put(at(3, "Components"), F{"Component": L{comp(10)}}))
		bad("components with a mesh", "ErrInvalidObject", obj(2), put(at(2, "Mesh"), F{"Vertices": F{"Vertex": list(3, nil)}, "Triangles": F{"Triangle": list(4, flat)}}))
		bad("components with a property", "ErrComponentsPID", obj(2), put(at(2, "PID"), 1))
		bad("components with a property and an index", "ErrComponentsPID", obj(2), put(at(2, "PID"), 4), put(at(2, "PIndex"), 1))
		for i := 0; i < 2; i++ {
			bad(fmt.Sprintf("a component %d that is its object", i), "ErrRecursion", str(obj(2), fmt.Sprintf("component[%d]", i)), put(at(2, fmt.Sprintf("Components.Component[%d].ObjectID", i)), 12))
		}
		bad("two components that are the object", "ErrRecursion", str(obj(2), "component[1]"), put(at(2, "Components.Component[0].ObjectID"), 12), put(at(2, "Components.Component[1].ObjectID"), 12))
		if part == rootPart {
			bad("a component with the path of the root part that is its object", "ErrRecursion", str(obj(2), "component[2]"), put(at(2, "Components.Component[2].ObjectID"), 12), put(at(2, "Components.Component[2].AnyAttr[0].Path"), rootPart))
			ok("a component of another part with the same identifier", put(at(2, "Components.Component[2].ObjectID"), 12))
		} else {
			for i := 0; i < 2; i++ {
				p := at(2, fmt.Sprintf("Components.Component[%d].", i))
				bad(fmt.Sprintf("a path of a component %d", i), "ErrProdRefInNonRoot", str(obj(2), fmt.Sprintf("component[%d]", i)), put(p+"ObjectID", 20), put(p+"AnyAttr[0].Path", otherPart))
				bad(fmt.Sprintf("the path of the own part at a component %d", i), "ErrProdRefInNonRoot", str(obj(2), fmt.Sprintf("component[%d]", i)), put(p+"AnyAttr[0].Path", part))
			}
		}
		// universally unique identifiers
		for _, u := range []string{"x", goodUUID[1:], goodUUID + "0", "g" + goodUUID[1:], goodUUID[:35] + "g", goodUUID[:8] + "0" + goodUUID[9:]} {
			for o := 0; o < 4; o++ {
				bad(fmt.Sprintf("the UUID %s at object %d", u, o), "ErrUUID", obj(o), put(at(o, "AnyAttr[0].UUID"), u))
			}
			for i := 0; i < 2; i++ {
				bad(fmt.Sprintf("the UUID %s at component %d", u, i), "ErrUUID", str(obj(2), fmt.Sprintf("component[%d]", i)), put(at(2, fmt.Sprintf("Components.Component[%d].AnyAttr[0].UUID", i)), u))
			}
		}
		// multi-properties
		multi := func(e ...edit) []edit {
			return append([]edit{put(res+"Assets[5].Multis", list(4, F{"PIndices": L{0}}))}, e...)
		}
		five := []string{"multiproperties[5]"}
		for n := 0; n <= 5; n++ {
			for _, p := range []L{{1}, {1, 4}, {1, 4, 2}, {1, 4, 4, 2}} {
				what := fmt.Sprintf("%d blend methods for %d groups", n, len(p))
				e := multi(put(res+"Assets[5].PIDs", p), put(res+"Assets[5].BlendMethods", list(n, 0)))
				if n > len(p)-1 {
					bad(what, "ErrMultiBlend", five, e...)
				} else {
					ok(what, e...)
				}
			}
		}
		blends := 0
		groups := func(l L) []edit {
			return multi(put(res+"Assets[5].PIDs", l), put(res+"Assets[5].BlendMethods", list(blends*(len(l)-1), 0)))
		}
		// 5 itself refers to no multi-properties; the multi-properties 6 are at 5
		for blends = 0; blends < 2; blends++ {
			for _, l := range []L{{4, 1, 2}, {2, 1}, {4, 4, 1}, {1, 1}, {1, 4, 1}, {1, 5}, {5, 1}, {4, 5}, {4, 4, 4, 5}} {
				bad(fmt.Sprintf("the groups %v (blend methods: %v)", l, blends == 1), "ErrMaterialMulti", five, groups(l)...)
			}
			for _, l := range []L{{2, 2}, {1, 2, 2}, {2, 4, 2}, {4, 2, 4, 2}, {2, 2, 2}} {
				bad(fmt.Sprintf("the groups %v (blend methods: %v)", l, blends == 1), "ErrMultiColors", five, groups(l)...)
			}
			for _, l := range []L{{6, 4}, {1, 6}, {1, 4, 6}, {9, 4}, {1, 9}, {1, 4, 9}, {4, 9, 4}} {
				bad(fmt.Sprintf("the groups %v (blend methods: %v)", l, blends == 1), "ErrMultiRefMulti", five, groups(l)...)
			}
			for _, l := range []L{{1}, {5}, {4}, {2}, {1, 4}, {1, 2}, {5, 2, 4}, {5, 4, 2}, {4, 4}, {4, 2}, {2, 4}, {4, 4, 4, 2}} {
				ok(fmt.Sprintf("the groups %v (blend methods: %v)", l, blends == 1), groups(l)...)
			}
		}
		// lattices
		for _, typ := range []int{1, 2, 4} {
			bad(fmt.Sprintf("a lattice of an object of type %d", typ), "ErrLatticeObjType", obj(1), put(at(1, "Type"), typ))
		}
		ok("a lattice of a solid support", put(at(1, "Type"), 3))
		for i := 0; i < 3; i++ {
			for _, v := range []int{0, 1, 3} {
				bad(fmt.Sprintf("a beam %d from vertex %d to itself", i, v), "ErrLatticeSameVertex", str(obj(1), fmt.Sprintf("beam[%d]", i)), put(at(1, fmt.Sprintf("Mesh.Any[0].Beams.Beam[%d].Indices", i)), L{v, v}))
			}
			ok(fmt.Sprintf("a beam %d the other way round", i), put(at(1, fmt.Sprintf("Mesh.Any[0].Beams.Beam[%d].Indices", i)), L{2, 1}))
		}
		// slices
		stack := []string{"slicestack[7]"}
		slice := func(i int) []string { return str(stack, fmt.Sprintf("slice[%d]", i)) }
		top := func(i int) string { return fmt.Sprintf("%sAssets[7].Slices[%d].TopZ", res, i) }
		high := put("Childs{"+otherPart+"}.Resources.Assets[0].Slices[0].TopZ", 100)
		bottom := func(z int) edit { return put(res+"Assets[7].BottomZ", z) }
		bad("a bottom above the first slice", "ErrSliceSmallTopZ", slice(0), bottom(2))
		bad("a bottom above both slices", "ErrSliceSmallTopZ", slice(0), bottom(3))
		bad("a bottom above both slices, at the second", "ErrSliceSmallTopZ", slice(1), bottom(3))
		bad("a negative slice below the bottom", "ErrSliceSmallTopZ", slice(0), put(top(0), -1))
		bad("a negative slice below a negative bottom", "ErrSliceSmallTopZ", slice(0), bottom(-4), put(top(0), -5))
		bad("a slice after an empty one that is higher", "ErrSliceNoMonotonic", slice(2), high, put(res+"Assets[7].Slices[1]", F{"TopZ": 5}), add(res+"Assets[7].Slices", F{"TopZ": 3}))
		bad("a slice after one without polygons that is higher", "ErrSliceNoMonotonic", slice(2), high, put(res+"Assets[7].Slices[1].TopZ", 5), put(res+"Assets[7].Slices[1].Polygons", L{}), add(res+"Assets[7].Slices", F{"TopZ": 3}))
		ok("a bottom at the first slice", bottom(1))
		ok("a negative bottom", bottom(-4))
		ok("a negative bottom at the first slice", bottom(-4), put(top(0), -4))
		ok("negative slices", bottom(-4), put(top(0), -3), put(top(1), -2))
		bad("negative slices downwards", "ErrSliceNoMonotonic", slice(1), bottom(-4), put(top(0), -2), put(top(1), -3))
		bad("two slices of the same height", "ErrSliceNoMonotonic", slice(1), put(top(1), 1))
		bad("slices downwards", "ErrSliceNoMonotonic", slice(1), put(top(0), 3))
		for _, z := range []int{-1, 1, 2} {
			bad(fmt.Sprintf("a third slice at %d", z), "ErrSliceNoMonotonic", slice(2), high, add(res+"Assets[7].Slices", F{"TopZ": z}))
		}
		ok("a third slice", high, add(res+"Assets[7].Slices", F{"TopZ": 3}))
		bad("an empty slice of the same height", "ErrSliceNoMonotonic", slice(1), put(res+"Assets[7].Slices[1]", F{"TopZ": 1}))
		bad("slices and references", "ErrSlicesAndRefs", stack, high, put(res+"Assets[7].Refs", L{F{"SliceStackID": 17, "Path": otherPart}}))
		bad("neither slices nor references", "ErrSlicesAndRefs", stack, put(res+"Assets[7].Slices", L{}))
		// the polygons of the stack of an object
		stacked := []int{7}
		if part == rootPart {
			stacked = []int{7, 8}
		}
		for _, id := range stacked {
			use := put(at(0, "AnyAttr[1].SliceStackID"), id)
			of := []string{res + "Assets[7].Slices[0].", res + "Assets[7].Slices[1]."}
			if id == 8 {
				c := "Childs{" + childPart + "}.Resources.Assets[7]."
				of = []string{c + "Slices[0].", c + "Slices[1].", "Childs{" + otherPart + "}.Resources.Assets[0].Slices[0]."}
			}
			for typ, name := range []string{"model", "other", "support", "solidsupport", "surface"} {
				if typ == 1 {
					continue
				}
				base := append(append([]edit{}, alone...), use, put(at(0, "Type"), typ))
				ok(fmt.Sprintf("closed polygons of the stack %d of a %s", id, name), base...)
				for _, s := range of {
					for _, n := range []int{1, 4} {
						segs := list(n, F{"V2": 2})
						e := append(append([]edit{}, base...), put(s+"Polygons[1].Segments", segs))
						what := fmt.Sprintf("an open polygon of %d segments at %s, of the stack %d of a %s", n, s, id, name)
						if name == "model" || name == "solidsupport" {
							bad(what, "ErrSlicePolygonNotClosed", obj(0), e...)
						}
					}
					for _, p := range []string{"Polygons[0].Segments[2].V2", "Polygons[1].Segments[1].V2"} {
						v := 0
						if p[9] == '0' {
							v = 1
						}
						e := append(append([]edit{}, base...), put(s+p, v))
						what := fmt.Sprintf("an open polygon at %s%s, of the stack %d of a %s", s, p, id, name)
						if name == "model" || name == "solidsupport" {
							bad(what, "ErrSlicePolygonNotClosed", obj(0), e...)
						} else if part == rootPart && id == 7 {
							ok(what, e...)
						}
					}
				}
			}
		}
		// resolutions
		low := put(at(0, "AnyAttr[1].MeshResolution"), 1)
		ok("a low resolution and a required extension", low)
		bad("a low resolution and no required extension", "ErrSliceExtRequired", obj(0), low, put("Extensions[2].IsRequired", false))
		bad("a low resolution and other required extensions", "ErrSliceExtRequired", obj(0), low, put("Extensions[2].IsRequired", false), put("Extensions[0].IsRequired", true), put("Extensions[3].IsRequired", true))
		ok("a low resolution and only this extension required", low, put("Extensions[1].IsRequired", false))
		ok("a high resolution and no required extension", put("Extensions[2].IsRequired", false))
		// transforms
		type place struct {
			what  string
			path  string
			edits []edit
		}
		places := []place{{"the only component", "Resources.Objects[2].Components.Component[0]", nil}, {"an item", "Build.Items[2]", []edit{put("Build.Items[2].ObjectID", 10), put("Build.Items[2].AnyAttr[0].Path", "")}}}
		if part != rootPart {
			places = []place{{"a component of another part", "Resources.Objects[2].Components.Component[2]", nil}, {"an item of another part", "Build.Items[1]", nil},
				{"a component of an item of another part", at(2, "Components.Component[0]"), []edit{put("Build.Items[1].ObjectID", 12)}},
				{"a component of a component", at(2, "Components.Component[0]"), []edit{put("Resources.Objects[2].Components.Component[2].ObjectID", 12)}},
				{"a second component of a component", at(2, "Components.Component[1]"), []edit{put("Resources.Objects[2].Components.Component[2].ObjectID", 12), put(at(2, "Components.Component[1].ObjectID"), 10)}},
			}
		}
		planar := func() L { return L{2, 3, 0, 0, 4, 5, 0, 0, 0, 0, 1, 0, 7, 8, 9, 1} }
		again := F{"ObjectID": 10, "Transform": L{1, 0, 1, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, "AnyAttr": L{Dyn{"production", "ItemAttr", F{"UUID": goodUUID}}}}
		if part != rootPart {
			again["AnyAttr"] = L{Dyn{"production", "ItemAttr", F{"UUID": goodUUID, "Path": part}}}
		}
		fine := F{"ObjectID": 10, "Transform": planar(), "AnyAttr": again["AnyAttr"]}
		bad("a tilted item after others of the object", "ErrSliceInvalidTranform", obj(0), add("Build.Items", fine), add("Build.Items", again))
		bad("a tilted item before others of the object", "ErrSliceInvalidTranform", obj(0), add("Build.Items", again), add("Build.Items", fine))
		if part == rootPart { // a model of a single part
			single := func(e ...edit) []edit {
				return append([]edit{put("Childs", M{}), put("Build.Items", L{}), put(at(2, "Components.Component"), L{comp(10)}), cut(res+"Assets", 8)}, e...)
			}
			ok("planar items of a single part", single(add("Build.Items", fine), add("Build.Items", fine))...)
			bad("a tilted item of a single part", "ErrSliceInvalidTranform", obj(0), single(add("Build.Items", again))...)
			bad("a tilted item after others of the object in a single part", "ErrSliceInvalidTranform", obj(0), single(add("Build.Items", fine), add("Build.Items", again))...)
			bad("a tilted item before others of the object in a single part", "ErrSliceInvalidTranform", obj(0), single(add("Build.Items", again), add("Build.Items", fine))...)
		}
		for _, p := range places {
			with := func(m L) []edit { return append(append([]edit{}, p.edits...), put(p.path+".Transform", m)) }
			ok("a planar transform of "+p.what, with(planar())...)
			for _, k := range []int{2, 6, 8, 9, 10} {
				for _, v := range []int{-1, 3} {
					m := planar()
					m[k] = v
					bad(fmt.Sprintf("a transform with %d at %d of %s", v, k, p.what), "ErrSliceInvalidTranform", obj(0), with(m)...)
				}
			}
		}
		tilted := L{1, 0, 1, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}
		ok("a tilted object without slices", put(at(2, "Components.Component[1].Transform"), tilted), put("Build.Items[2].Transform", tilted))
		// relationships
		rels := partPlace(part) + "Relationships"
		ticket := func(path string) F {
			return F{"Type": r.W.ConstString("", "RelTypePrintTicket"), "Path": path}
		}
		isTicket := func(i int) edit {
			return put(fmt.Sprintf("Attachments[%d].ContentType", i), r.W.ConstString("", "ContentTypePrintTicket"))
		}
		lists := []struct{ list, part string }{{rels, part}}
		if part == rootPart {
			lists = append(lists, struct{ list, part string }{"RootRelationships", ""})
		}
		for _, l := range lists {
			l := l
			bad := func(what, cause, loc string, e ...edit) {
				out = append(out, vcase{what: what + " at " + l.list, edits: e, part: l.part, loc: []string{loc}, causes: []string{cause}})
			}
			for _, t := range []string{"one.bin", "x", "/.one", "/a/.one", "/./one.bin", "/../one.bin", "/a/../one.bin"} {
				for i := 0; i < 3; i++ {
					bad(fmt.Sprintf("the target %s (%d)", t, i), "ErrOPCPartName", fmt.Sprintf("relationship[%d]", i), add("Attachments", F{"Path": t}), put(fmt.Sprintf("%s[%d].Path", l.list, i), t))
				}
			}
			for _, t := range []string{"/a.b/c.d", "/a", "/a b", "/a..b"} {
				ok(fmt.Sprintf("the target %s at %s", t, l.list), add("Attachments", F{"Path": t}), put(l.list+"[1].Path", t))
			}
			ok("a ticket at "+l.list, isTicket(2), add(l.list, ticket("/last.bin")))
			ok("a ticket before the others at "+l.list, isTicket(2), put(l.list, L{ticket("/last.bin"), F{"Type": "http://x/one", "Path": "/last.bin"}}))
			bad("a ticket of another type", "ErrOPCContentType", "relationship[3]", add(l.list, ticket("/last.bin")))
			bad("a ticket of another type after one", "ErrOPCContentType", "relationship[4]", isTicket(2), add(l.list, ticket("/last.bin")), add(l.list, ticket("/one.bin")))
			bad("a ticket that is nearly of the type", "ErrOPCContentType", "relationship[3]", put("Attachments[2].ContentType", r.W.ConstString("", "ContentTypePrintTicket")+"x"), add(l.list, ticket("/last.bin")))
			bad("a ticket without type", "ErrOPCContentType", "relationship[3]", put("Attachments[2].ContentType", ""), add(l.list, ticket("/last.bin")))
			bad("two tickets", "ErrOPCDuplicatedTicket", "relationship[4]", isTicket(0), isTicket(2), add(l.list, ticket("/last.bin")), add(l.list, ticket("/one.bin")))
			bad("two tickets with another between", "ErrOPCDuplicatedTicket", "relationship[2]", isTicket(0), isTicket(2), put(l.list+"[0]", ticket("/last.bin")), put(l.list+"[2]", ticket("/one.bin")))
			bad("three tickets", "ErrOPCDuplicatedTicket", "relationship[5]", isTicket(0), isTicket(1), isTicket(2), add(l.list, ticket("/last.bin")), add(l.list, ticket("/one.bin")), add(l.list, ticket("/tex.png")))
		}
	}
	bad := func(what, cause, part string, loc []string, e ...edit) {
		out = append(out, vcase{what: what, edits: e, part: part, loc: loc, causes: []string{cause}})
	}
	ok := func(what string, e ...edit) { out = append(out, vcase{what: what, edits: e}) }
	tk := func(path string) F {
		return F{"Type": r.W.ConstString("", "RelTypePrintTicket"), "Path": path}
	}
	ok("a ticket in every list of relationships", put("Attachments[2].ContentType", r.W.ConstString("", "ContentTypePrintTicket")), put("Attachments[0].ContentType", r.W.ConstString("", "ContentTypePrintTicket")),
		add("RootRelationships", tk("/last.bin")), add("Relationships", tk("/one.bin")), add("Childs{"+childPart+"}.Relationships", tk("/last.bin")))
	// items
	item := func(i int) []string { return []string{"build", fmt.Sprintf("item[%d]", i)} }
	for i, p := range []string{"Resources.Objects[2].Type", "Childs{" + childPart + "}.Resources.Objects[0].Type", "Childs{" + otherPart + "}.Resources.Objects[0].Type"} {
		bad(fmt.Sprintf("an item %d of type other", i), "ErrOtherItem", "", item(i), put(p, 1))
		for _, typ := range []int{0, 2, 3, 4} {
			e := []edit{put(p, typ)}
			if i == 1 {
				lattice := "Childs{" + childPart + "}.Resources.Objects[1].Mesh.Any[0]."
				e = append(e, put(lattice+"ClippingMeshID", 0), put(lattice+"RepresentationMeshID", 0))
			}
			ok(fmt.Sprintf("an item %d of type %d", i, typ), e...)
		}
	}
	ok("an item with the identifier of another object that is of type other", put("Resources.Objects[3].Type", 1), put("Build.Items[1].ObjectID", 13))
	for _, u := range []string{"x", goodUUID[1:], goodUUID + "0", "g" + goodUUID[1:]} {
		bad("the UUID "+u+" at the build", "ErrUUID", "", []string{"build"}, put("Build.AnyAttr[0].UUID", u))
		for i := 0; i < 3; i++ {
			bad(fmt.Sprintf("the UUID %s at the item %d", u, i), "ErrUUID", "", item(i), put(fmt.Sprintf("Build.Items[%d].AnyAttr[0].UUID", i), u))
		}
	}
	// metadata
	allowed := []string{"Application", "Copyright", "CreationDate", "Description", "Designer", "LicenseTerms", "ModificationDate", "Rating", "Title"}
	type list struct {
		place string
		loc   []string
	}
	metas := []list{{"Metadata", nil}}
	for i := 0; i < 3; i++ {
		metas = append(metas, list{fmt.Sprintf("Build.Items[%d].Metadata.Metadata", i), item(i)})
	}
	for _, l := range metas {
		var all L
		for _, n := range allowed {
			all = append(all, F{"Name": F{"Local": n}})
		}
		ok("every well-known name at "+l.place, put(l.place, all))
		for _, n := range []string{"titl", "titles", "a", "zz", "Foo", "Rating ", "Application1", "License", " "} {
			for _, i := range []int{0, 1} {
				bad(fmt.Sprintf("the name %q at %s[%d]", n, l.place, i), "ErrMetadataName", "", str(l.loc, fmt.Sprintf("metadata[%d]", i)), put(fmt.Sprintf("%s[%d].Name", l.place, i), F{"Local": n}))
			}
			space := litGet(r.W.valid(), "Metadata[2].Name.Space")
			ok(fmt.Sprintf("the name %q with a name space at %s", n, l.place), put(l.place+"[1].Name", F{"Local": n, "Space": space}))
		}
	}
	// references of stacks
	ref := func(i int) []string { return []string{"slicestack[8]", fmt.Sprintf("sliceref[%d]", i)} }
	refs := "Resources.Assets[8].Refs"
	last := "Childs{" + otherPart + "}.Resources.Assets[0].Slices[0].TopZ"
	for _, z := range []int{1, 2} {
		bad(fmt.Sprintf("a stack that starts at %d after one that ends at 2", z), "ErrSliceNoMonotonic", rootPart, ref(1), put(last, z))
	}
	ok("a stack that starts at 3 after one that ends at 2", put(last, 3))
	a, b := F{"SliceStackID": 7, "Path": childPart}, F{"SliceStackID": 17, "Path": otherPart}
	bad("stacks in the other order", "ErrSliceNoMonotonic", rootPart, ref(1), put(refs, L{b, a}))
	bad("the same stack twice", "ErrSliceNoMonotonic", rootPart, ref(1), put(refs, L{b, b}))
	bad("the first stack again", "ErrSliceNoMonotonic", rootPart, ref(2), put(refs, L{a, b, a}))
	ok("one reference", put(refs, L{b}))
	for i := 0; i < 2; i++ {
		p := fmt.Sprintf("%s[%d].", refs, i)
		bad(fmt.Sprintf("a reference %d to the own part", i), "ErrSliceRefSamePart", rootPart, ref(i), put(p+"Path", rootPart), put(p+"SliceStackID", 7))
		bad(fmt.Sprintf("a reference %d to a stack of references", i), "ErrSliceRefRef", rootPart, ref(i), put(p+"Path", childPart), put(p+"SliceStackID", 30), add("Childs{"+childPart+"}.Resources.Assets", Dyn{"slices", "SliceStack", F{"ID": 30, "Refs": L{b}}}))
	}
	// the name of the root part
	again := func(path string) edit {
		return edit{"Childs", func(old any) any {
			return append(append(M{}, old.(M)...), M{{path, F{}}}...)
		}}
	}
	bad("a child part with the name of the root part", "ErrOPCDuplicatedModelName", "", nil, again(rootPart))
	bad("a child part with the explicit name of the root part", "ErrOPCDuplicatedModelName", "", nil, again("/3D/x.model"), put("Path", "/3D/x.model"))
	ok("an empty child part", again("/3D/x.model"))
	ok("a child part with the default name of the root part, which has another one", again(rootPart), put("Path", "/3D/x.model"))
	return out
}

func checkC39(r *Report) {
	r.Rule("abstract interpretation of Model.Validate on a valid model changed so that it breaks one structural rule (degenerate triangles and beams, sizes of meshes by type of object, objects with both contents, recursion, types of items, names of metadata, parts and tickets, order and heights of slices, closed polygons, planar transforms, groups of multi-properties, UUIDs): that very error must be located at the element, its index and part; and on models at the other side of each border, for which nothing is reported")
	if !r.checkValid() {
		return
	}
	cs := r.c39Cases()
	parallel(len(cs), func(i int) {
		r.runCase("a broken structural rule is reported where it is broken", "nothing is reported at the right side of the border of a rule", cs[i])
	})
}
