package checks

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"verif/checker/ai"
)

// indexPlace is a place of the valid model that holds an index.
type indexPlace struct {
	path string
	n    int      // length of the list it refers to
	loc  []string // elements that the error is within
	// also lists the changes that make other indices mean the same
	also map[string]any
	// with lists the places that hold the same index
	with []string
}

// partsOf gives the places of a part in the literal.
func partPlace(part string) string {
	if part == rootPart {
		return ""
	}
	return "Childs{" + part + "}."
}

func (r *Report) indexPlaces() []indexPlace {
	var out []indexPlace
	groups := []struct {
		id, n int
		name  string
	}{{1, 3, "base materials"}, {2, 2, "colours"}, {4, 4, "texture coordinates"}, {5, 2, "composites"}, {6, 3, "multi-properties"}}
	for _, part := range []string{rootPart, childPart} {
		res := partPlace(part) + "Resources."
		add := func(n int, path string, also map[string]any, loc ...string) {
			a := map[string]any{}
			for k, v := range also {
				a[res+k] = v
			}
			out = append(out, indexPlace{res + path, n, loc, a, nil})
		}
		for _, o := range []int{0, 1, 3} {
			for t := 0; t < 6; t++ {
				for _, f := range []string{"V1", "V2", "V3"} {
					add(4, fmt.Sprintf("Objects[%d].Mesh.Triangles.Triangle[%d].%s", o, t, f), nil, fmt.Sprintf("object[%d]", o), fmt.Sprintf("triangle[%d]", t))
				}
			}
		}
		x := 0 // the lists of the root part are longer
		if part == rootPart {
			x = 1
		}
		for _, g := range groups {
			g.n += x
			for _, o := range []int{0, 3} {
				op := fmt.Sprintf("Objects[%d].", o)
				add(g.n, op+"PIndex", map[string]any{op + "PID": g.id}, fmt.Sprintf("object[%d]", o))
				for _, t := range []int{0, 3, 5} {
					tp := fmt.Sprintf("%sMesh.Triangles.Triangle[%d].", op, t)
					for i, f := range []string{"P1", "P2", "P3"} {
						also := map[string]any{tp + "PID": g.id, tp + "P1": 0, tp + "P2": 0, tp + "P3": 0}
						delete(also, tp+f)
						add(g.n, tp+f, also, fmt.Sprintf("object[%d]", o), fmt.Sprintf("triangle[%d]", t))
						// with the property and index of the object at the others
						same := map[string]any{tp + "PID": g.id, tp + "P1": 1, tp + "P2": 1, tp + "P3": 1, op + "PID": g.id, op + "PIndex": 1}
						delete(same, tp+f)
						if i == t%3 {
							add(g.n, tp+f, same, fmt.Sprintf("object[%d]", o), fmt.Sprintf("triangle[%d]", t))
						}
					}
				}
			}
		}
		for i := 0; i < 3; i++ {
			for j := 0; j < 2; j++ {
				add(4, fmt.Sprintf("Objects[1].Mesh.Any[0].Beams.Beam[%d].Indices[%d]", i, j), nil, "object[1]", fmt.Sprintf("beam[%d]", i))
			}
		}
		add(3, "Objects[1].Mesh.Any[0].BeamSets.BeamSet[0].Refs[0]", nil, "object[1]", "beamset[0]")
		add(3, "Objects[1].Mesh.Any[0].BeamSets.BeamSet[0].Refs[1]", nil, "object[1]", "beamset[0]")
		add(3, "Objects[1].Mesh.Any[0].BeamSets.BeamSet[1].Refs[0]", nil, "object[1]", "beamset[1]")
		for i := 0; i < 3; i++ {
			add(3+x, fmt.Sprintf("Assets[4].Indices[%d]", i), nil, "compositematerials[4]")
		}
		for m, l := range [][]int{{3, 4, 2}, {3, 4}, {3, 4, 2}} {
			for k, n := range l {
				add(n+x, fmt.Sprintf("Assets[5].Multis[%d].PIndices[%d]", m, k), nil, "multiproperties[5]", fmt.Sprintf("multi[%d]", m))
			}
		}
		for k, n := range []int{2, 4} {
			add(n+x, fmt.Sprintf("Assets[6].Multis[0].PIndices[%d]", k), nil, "multiproperties[6]", "multi[0]")
		}
		for s := 0; s < 2; s++ {
			for p, k := range []int{3, 2} {
				loc := []string{"slicestack[7]", fmt.Sprintf("slice[%d]", s), fmt.Sprintf("polygon[%d]", p)}
				pp := fmt.Sprintf("Assets[7].Slices[%d].Polygons[%d].", s, p)
				add(3, pp+"StartV", nil, loc...)
				for i := 0; i < k; i++ {
					add(3, fmt.Sprintf("%sSegments[%d].V2", pp, i), nil, loc...)
				}
			}
		}
	}
	// lists that are empty
	for _, part := range []string{rootPart, childPart} {
		res := partPlace(part) + "Resources."
		x := 0
		if part == rootPart {
			x = 1
		}
		out = append(out,
			indexPlace{res + "Assets[4].Indices[0]", 0, []string{"compositematerials[4]"}, map[string]any{res + "Assets[0].Materials": L{}, res + "Assets[4].Indices": L{0}}, nil},
			indexPlace{res + "Assets[5].Multis[0].PIndices[2]", 0, []string{"multiproperties[5]"}, map[string]any{res + "Assets[1].Colors": L{}}, nil},
			indexPlace{res + "Objects[0].PIndex", 0, []string{"object[0]"}, map[string]any{res + "Assets[0].Materials": L{}}, nil},
			indexPlace{res + "Objects[3].Mesh.Triangles.Triangle[0].V1", 0, []string{"object[3]"}, map[string]any{res + "Objects[3].Mesh.Vertices": nil}, nil},
			indexPlace{res + "Objects[1].Mesh.Any[0].BeamSets.BeamSet[0].Refs[1]", 0, []string{"object[1]"}, map[string]any{res + "Objects[1].Mesh.Any[0].Beams": nil}, nil},
			// several indices of an element at once
			indexPlace{res + "Objects[1].Mesh.Any[0].Beams.Beam[1].Indices[0]", 4, []string{"object[1]", "beam[1]"}, nil, []string{res + "Objects[1].Mesh.Any[0].Beams.Beam[1].Indices[1]"}},
			indexPlace{res + "Objects[0].Mesh.Triangles.Triangle[1].V1", 4, []string{"object[0]", "triangle[1]"}, nil, []string{res + "Objects[0].Mesh.Triangles.Triangle[1].V2", res + "Objects[0].Mesh.Triangles.Triangle[1].V3"}},
			indexPlace{res + "Objects[0].Mesh.Triangles.Triangle[1].P1", 4 + x, []string{"object[0]", "triangle[1]"}, nil, []string{res + "Objects[0].Mesh.Triangles.Triangle[1].P2", res + "Objects[0].Mesh.Triangles.Triangle[1].P3"}},
			indexPlace{res + "Assets[7].Slices[1].Polygons[1].StartV", 3, []string{"slicestack[7]", "slice[1]", "polygon[1]"}, nil, []string{res + "Assets[7].Slices[1].Polygons[1].Segments[1].V2"}},
			indexPlace{res + "Assets[7].Slices[1].Polygons[1].StartV", 3, []string{"slicestack[7]", "slice[1]", "polygon[1]"}, nil, []string{res + "Assets[7].Slices[1].Polygons[1].Segments[0].V2", res + "Assets[7].Slices[1].Polygons[1].Segments[1].V2"}})
	}
	return out
}

const indexError = "ErrIndexOutOfBounds"

func (r *Report) c18Place(p indexPlace) {
	field := p.path[strings.LastIndexAny(p.path, ".")+1:]
	what := field
	if i := strings.Index(p.path, "Resources."); i >= 0 {
		what = strings.NewReplacer("0", "#", "1", "#", "2", "#", "3", "#", "4", "#", "5", "#", "6", "#", "7", "#").Replace(p.path[i+10:])
		what = strings.NewReplacer("V#", "V", "P#", "P").Replace(what)
	}
	where := "the root part"
	if strings.HasPrefix(p.path, "Childs") {
		where = "a child part"
	}
	max := int64(math.MaxUint32)
	for _, in := range []bool{true, false} {
		lo, hi := int64(0), int64(p.n-1)
		if !in {
			lo, hi = int64(p.n), max
		}
		if hi < lo {
			continue
		}
		m := r.W.valid()
		for _, k := range sortedKeys(p.also) {
			m = litSet(m, k, func(any) any { return p.also[k] }).(F)
		}
		t := types.Typ[types.Uint32]
		m = litSet(m, p.path, func(any) any { return ai.Atom("index", t) }).(F)
		for _, k := range p.with {
			m = litSet(m, k, func(any) any { return ai.Atom("index", t) }).(F)
		}
		label := fmt.Sprintf("%s of %s with a list of %d", p.path, where, p.n)
		outs, err := r.validate(m, "Validate", func(st *ai.State) { st.AssumeRange("index", &lo, &hi) })
		if err != nil {
			r.Fail("undecided: "+what, label, "validating %s between %d and %d: %v", label, lo, hi, err)
			continue
		}
		for _, l := range outs {
			n := 0
			at := false
			for _, v := range l {
				if v.cause == indexError {
					n++
					at = at || v.within("", p.loc...)
				}
				if strings.HasPrefix(v.cause, "?") {
					r.Fail("undecided: "+what, label, "an error of unknown cause is reported: %s", v)
				}
			}
			// an empty list leaves other indices without what they refer to
			if in {
				r.Assert(n == 0, "indices within the list are accepted", what, label, "%s: an index within the list is reported (%v)", label, l)
			} else {
				r.Assert(at, "indices outside the list are reported", what, label, "%s: an index that is not smaller than the length is not reported (errors: %v)", label, l)
				if p.n > 0 {
					r.Assert(n == 1, "only the wrong index is reported", what, label, "%s: %d index errors are reported for one wrong index (%v)", label, n, l)
				}
			}
		}
	}
	r.Count("index places", 1)
}

func checkC18(r *Report) {
	r.Rule("abstract interpretation of Model.Validate on a model that meets every rule, with one index made symbolic: for every value below the length of the list it refers to no index error is reported, for every other value of its type one is, within the element that holds the index")
	if !r.checkValid() {
		return
	}
	ps := r.indexPlaces()
	parallel(len(ps), func(i int) { r.c18Place(ps[i]) })
}
