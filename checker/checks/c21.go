package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// edgeMatched is the oracle: every edge is used once in each direction.
func edgeMatched(tris [][3]int) bool {
	n := map[[2]int]int{}
	for _, t := range tris {
		for j := 0; j < 3; j++ {
			n[[2]int{t[j], t[(j+1)%3]}]++
		}
	}
	for e, k := range n {
		if k != 1 || e[0] == e[1] || n[[2]int{e[1], e[0]}] != 1 {
			return false
		}
	}
	return true
}

// meshCase is a mesh and the numbers of its vertices.
type meshCase struct {
	what string
	tris [][3]int
	ids  []func(b *literal, i int) ai.Val
}

// vertexNumbers gives the numbers of the vertices 0..n-1: symbols of disjoint
// ranges in the order of the permutation, or constants.
func vertexNumbers(n int, order []int, base, step, width int64) []func(b *literal, i int) ai.Val {
	t := types.Typ[types.Uint32]
	out := make([]func(b *literal, i int) ai.Val, n)
	for i := range out {
		lo := base + int64(order[i])*step
		hi := lo + width
		out[i] = func(b *literal, i int) ai.Val {
			if width == 0 {
				return b.val(t, int(lo))
			}
			id := fmt.Sprintf("vertex%d", i)
			b.st.AssumeRange(id, &lo, &hi)
			return ai.Atom(id, t)
		}
	}
	return out
}

// coherent interprets the check of a mesh.
func (r *Report) coherent(c meshCase) (accepts, rejects bool, err error) {
	fn := r.W.Method("", "Mesh", "ValidateCoherency")
	mt := r.W.Type("", "Mesh")
	if fn == nil || mt == nil {
		return false, false, fmt.Errorf("Mesh.ValidateCoherency not found")
	}
	e := r.W.Engine()
	e.PathSensitive, e.MaxParts, e.TrackNarrow = true, 64, true
	e.Peel, e.WidenAfter, e.MaxRec = 200, 300, 8
	e.MapPerm = func(_ *ssa.Function, _ *ssa.Next, n int) []int { return permutation(n, 0) }
	panics := map[string]bool{}
	e.OnPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string) {
		panics[fmt.Sprintf("%s in %s (%s)", what, fnLabel(fn), r.W.P.Pos(pos))] = true
	}
	st := e.NewState()
	b := &literal{w: r.W, st: st, pfx: "m"}
	var tl, vl L
	for _, t := range c.tris {
		tl = append(tl, F{"V1": c.ids[t[0]](b, t[0]), "V2": c.ids[t[1]](b, t[1]), "V3": c.ids[t[2]](b, t[2])})
	}
	for range c.ids {
		vl = append(vl, nil)
	}
	v := b.val(mt, F{"Vertices": F{"Vertex": vl}, "Triangles": F{"Triangle": tl}})
	if b.err != nil {
		return false, false, b.err
	}
	st.SetRoot("mesh", v)
	outs := e.Call(st, fn, []ai.Val{&ai.Ptr{Obj: "mesh"}}, nil, "coherency", nil)
	r.engineFns(e)
	for k := range e.Limits {
		return false, false, fmt.Errorf("the analysis reached a limit (%s)", k)
	}
	if len(outs) == 0 || len(panics) > 0 {
		return false, false, fmt.Errorf("%d outcomes, panics %v", len(outs), sortedKeys(panics))
	}
	for _, o := range outs {
		switch n, known := ai.ConstBool(o.St.IsNilCond(o.Res)); {
		case !known:
			accepts, rejects = true, true
		case n:
			accepts = true
		default:
			rejects = true
		}
	}
	return accepts, rejects, nil
}

func rotated(t [3]int, k int) [3]int { return [3]int{t[k%3], t[(k+1)%3], t[(k+2)%3]} }
func flipped(t [3]int) [3]int        { return [3]int{t[0], t[2], t[1]} }

// c21Meshes gives the meshes.
func (r *Report) c21Meshes() []meshCase {
	tetra := [][3]int{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}}
	with := func(l [][3]int, more ...[3]int) [][3]int { return append(append([][3]int{}, l...), more...) }
	moved := func(l [][3]int, to ...int) [][3]int {
		var out [][3]int
		for _, t := range l {
			out = append(out, [3]int{to[t[0]], to[t[1]], to[t[2]]})
		}
		return out
	}
	turned := func(l [][3]int) [][3]int {
		var out [][3]int
		for _, t := range l {
			out = append(out, flipped(t))
		}
		return out
	}
	bipyramid := [][3]int{{0, 1, 3}, {1, 2, 3}, {2, 0, 3}, {1, 0, 4}, {2, 1, 4}, {0, 2, 4}}
	octahedron := [][3]int{{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}, {1, 0, 5}, {2, 1, 5}, {3, 2, 5}, {0, 3, 5}}
	shapes := []struct {
		what string
		tris [][3]int
		n    int
	}{
		{"a tetrahedron", tetra, 4},
		{"a bipyramid", bipyramid, 5},
		{"an octahedron", octahedron, 6},
		{"a tetrahedron inside out", turned(tetra), 4},
		{"a tetrahedron twice", with(tetra, tetra...), 4},
		{"a tetrahedron and its inside", with(tetra, turned(tetra)...), 4},
		{"two tetrahedra", with(tetra, moved(tetra, 4, 5, 6, 7)...), 8},
		{"two tetrahedra with a common vertex", with(tetra, moved(tetra, 0, 4, 5, 6)...), 7},
		{"two tetrahedra with a common edge", with(tetra, moved(tetra, 0, 1, 4, 5)...), 6},
		{"two tetrahedra with a common face", with(tetra, moved(tetra, 0, 1, 2, 4)...), 5},
		{"a triangle and its back twice", [][3]int{{0, 1, 2}, {0, 2, 1}, {0, 1, 2}, {0, 2, 1}}, 3},
		{"two triangles and their backs", [][3]int{{0, 1, 2}, {0, 2, 1}, {3, 4, 5}, {3, 5, 4}}, 6},
		{"the same triangle four times", [][3]int{{0, 1, 2}, {0, 1, 2}, {1, 2, 0}, {2, 0, 1}}, 3},
		{"a tetrahedron and a point", with(tetra, [3]int{0, 0, 0}), 4},
		{"a tetrahedron and an edge", with(tetra, [3]int{0, 1, 0}), 4},
		{"a tetrahedron and an edge apart", with(tetra, [3]int{4, 4, 5}), 6},
		{"an octahedron and a triangle apart", with(octahedron, [3]int{6, 7, 8}), 9},
		{"an octahedron and a triangle and its back", with(octahedron, [3]int{6, 7, 8}, [3]int{8, 7, 6}), 9},
		{"a Moebius strip", [][3]int{{0, 1, 2}, {1, 3, 2}, {2, 3, 4}, {3, 0, 4}, {4, 0, 1}}, 5},
	}
	for i := range bipyramid {
		for _, s := range []struct {
			what string
			tris [][3]int
			n    int
		}{{"a bipyramid", bipyramid, 5}, {"an octahedron", octahedron, 6}} {
			without := append(append([][3]int{}, s.tris[:i]...), s.tris[i+1:]...)
			shapes = append(shapes,
				struct {
					what string
					tris [][3]int
					n    int
				}{fmt.Sprintf("%s without triangle %d", s.what, i), without, s.n},
				struct {
					what string
					tris [][3]int
					n    int
				}{fmt.Sprintf("%s with triangle %d flipped", s.what, i), with(without, flipped(s.tris[i])), s.n},
				struct {
					what string
					tris [][3]int
					n    int
				}{fmt.Sprintf("%s with triangle %d twice", s.what, i), with(s.tris, rotated(s.tris[i], i)), s.n},
				struct {
					what string
					tris [][3]int
					n    int
				}{fmt.Sprintf("%s with the back of triangle %d", s.what, i), with(s.tris, flipped(s.tris[i])), s.n},
				struct {
					what string
					tris [][3]int
					n    int
				}{fmt.Sprintf("%s with triangle %d twice and its back twice", s.what, i), with(s.tris, s.tris[i], flipped(s.tris[i])), s.n})
		}
	}
	var out []meshCase
	perms := func(n int) [][]int {
		total := 1
		for i := 2; i <= n; i++ {
			total *= i
		}
		var l [][]int
		step := 1
		if max := 24; total > max && !r.Thorough() {
			step = total/max + 1
		} else if max := 720; total > max {
			step = total/max + 1
		}
		for k := 0; k < total; k += step {
			l = append(l, permutation(n, k))
		}
		return l
	}
	for k, s := range shapes {
		for i, order := range perms(s.n) {
			var tris [][3]int
			for j, t := range s.tris {
				tris = append(tris, rotated(t, (i+j*(k+1))%3))
			}
			step := int64(math.MaxUint32) / int64(s.n)
			out = append(out, meshCase{fmt.Sprintf("%s whose vertices are in the order %v", s.what, order), tris, vertexNumbers(s.n, order, 0, step, step-1)})
			if i == 0 {
				out = append(out,
					meshCase{s.what + " with consecutive vertices", tris, vertexNumbers(s.n, order, 0, 1, 0)},
					meshCase{s.what + " with the largest vertices", tris, vertexNumbers(s.n, order, math.MaxUint32-int64(s.n)+1, 1, 0)},
					meshCase{s.what + " with vertices of the same low bits", tris, vertexNumbers(s.n, order, 1, 1<<16, 0)})
			}
		}
	}
	// every mesh of four triangles over four vertices
	var all [][3]int
	for i := 0; i < 4; i++ {
		for j := i + 1; j < 4; j++ {
			for k := j + 1; k < 4; k++ {
				all = append(all, [3]int{i, j, k}, [3]int{i, k, j})
			}
		}
	}
	n := len(all)
	step := int64(1) << 30
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for c := 0; c < n; c++ {
				for d := 0; d < n; d++ {
					if !r.Thorough() && !(a <= b && b <= c && c <= d) {
						continue
					}
					tris := [][3]int{rotated(all[a], b), rotated(all[b], c), rotated(all[c], d), rotated(all[d], a)}
					k := (a + 2*b + 3*c + 5*d) % 4
					tris = append(append([][3]int{}, tris[k:]...), tris[:k]...)
					out = append(out, meshCase{fmt.Sprintf("the triangles %v", tris), tris, vertexNumbers(4, permutation(4, (a*7+b*5+c*3+d)%24), 0, step, step-1)})
				}
			}
		}
	}
	return out
}

func checkC21(r *Report) {
	r.Rule("abstract interpretation of Mesh.ValidateCoherency on small meshes with symbolic vertex numbers in every order: it must succeed exactly if every edge of every triangle is used once in each direction (edges are counted by the checker); Model.ValidateCoherency must report the mesh of every object of a solid type")
	cs := r.c21Meshes()
	parallel(len(cs), func(i int) {
		c := cs[i]
		a, n, err := r.coherent(c)
		want := edgeMatched(c.tris)
		switch {
		case err != nil:
			r.Fail("undecided: "+c.what, c.what, "checking %s: %v", c.what, err)
		case want:
			r.Assert(!n, "meshes whose edges match are coherent", "rejected", c.what, "%s (%v) may be rejected although each edge is used once in each direction", c.what, c.tris)
		default:
			r.Assert(!a, "meshes whose edges do not match are not coherent", "accepted", c.what, "%s (%v) may be accepted although some edge is not used once in each direction", c.what, c.tris)
		}
		r.Count("meshes", 1)
	})
	r.c21Model()
}

// c21Model checks that the meshes of all objects are looked at.
func (r *Report) c21Model() {
	tetra := [][3]int{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}}
	list := func(l [][3]int) L {
		var out L
		for _, t := range l {
			out = append(out, F{"V1": t[0], "V2": t[1], "V3": t[2]})
		}
		return out
	}
	obj := func(typ int, good bool) F {
		l := list(tetra)
		if !good {
			l[3] = F{"V1": 1, "V2": 2, "V3": 3}
		}
		return F{"ID": 1, "Type": typ, "Mesh": F{"Vertices": F{"Vertex": L{nil, nil, nil, nil}}, "Triangles": F{"Triangle": l}}}
	}
	parts := []string{rootPart, childPart, otherPart}
	for _, part := range parts {
		for i := 0; i < 3; i++ {
			for typ := 0; typ < 5; typ++ {
				var bad = typ == 0 || typ == 3 // model, solid support
				res := map[string]L{}
				for _, p := range parts {
					l := L{obj(0, true), F{"ID": 4, "Components": F{"Component": L{F{"ObjectID": 1}}}}, obj(3, true)}
					if p == part {
						l = append(append(append(L{}, l[:i]...), obj(typ, false)), l[i:]...)
					}
					res[p] = l
				}
				m := F{"Resources": F{"Objects": res[rootPart]}, "Childs": M{{childPart, F{"Resources": F{"Objects": res[childPart]}}}, {otherPart, F{"Resources": F{"Objects": res[otherPart]}}}}}
				label := fmt.Sprintf("an incoherent mesh of type %d as object %d of part %s", typ, i, part)
				outs, err := r.validate(m, "ValidateCoherency", nil)
				if err != nil {
					r.Fail("undecided: Model.ValidateCoherency", label, "checking a model with %s: %v", label, err)
					continue
				}
				for _, l := range outs {
					if !bad {
						r.Assert(len(l) == 0, "meshes of objects that are no solids need not be coherent", "Model.ValidateCoherency", label, "%s is reported: %v", label, l)
						continue
					}
					r.Assert(len(l) == 1 && l[0].within(part, fmt.Sprintf("object[%d]", i)) && l[0].cause == "ErrMeshConsistency", "the mesh of every solid object is checked", "Model.ValidateCoherency", label, "%s is not reported at its place: %v", label, l)
				}
			}
		}
	}
}
