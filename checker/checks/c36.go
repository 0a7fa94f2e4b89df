package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// solid is a list of facets: points by number, which have symbolic coordinates.
type solid struct {
	name   string
	points func(d *polys) []point
	facets [][3]int
}

var nearby = big.NewRat(11, 10_000_000) // a bit more than a micron in millimetres

func solids() []solid {
	free := func(n int) func(d *polys) []point {
		return func(d *polys) []point {
			var l []point
			for i := 0; i < n; i++ {
				l = append(l, d.point(fmt.Sprintf("p%d.", i)))
			}
			return l
		}
	}
	out := []solid{
		{"no facet", free(0), nil},
		{"one facet", free(3), [][3]int{{0, 1, 2}}},
		{"two facets that share an edge", free(4), [][3]int{{0, 1, 2}, {2, 1, 3}}},
		{"two facets that share nothing", free(6), [][3]int{{0, 1, 2}, {3, 4, 5}}},
		{"a facet and its back", free(3), [][3]int{{0, 1, 2}, {0, 2, 1}}},
		{"a facet twice", free(3), [][3]int{{0, 1, 2}, {0, 1, 2}}},
		{"a facet that starts at each corner", free(3), [][3]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}}},
		{"a tetrahedron", free(4), [][3]int{{0, 1, 2}, {0, 3, 1}, {1, 3, 2}, {2, 3, 0}}},
		{"a degenerated facet", free(3), [][3]int{{0, 1, 2}, {0, 0, 1}, {2, 2, 2}}},
	}
	for axis := 0; axis < 3; axis++ {
		axis := axis
		for _, near := range []bool{false, true} {
			near := near
			how := "far from each other"
			if near {
				how = "little more than a micron from each other"
			}
			out = append(out, solid{fmt.Sprintf("corners that only differ in coordinate %d and are %s", axis, how), func(d *polys) []point {
				l := []point{d.point("p0."), {}, {}}
				for i := 1; i < 3; i++ {
					l[i] = l[0]
					if near {
						step := poly{"": new(big.Rat).Mul(nearby, big.NewRat(int64(i), 1))}
						l[i][axis] = l[0][axis].plus(step, 1)
					} else {
						l[i][axis] = d.quantity(fmt.Sprintf("other%d.%d", i, axis), 0, 0)
					}
				}
				return l
			}, [][3]int{{0, 1, 2}, {1, 0, 2}}})
		}
	}
	for axis := 0; axis < 3; axis++ {
		axis := axis
		for _, at := range []int64{0, 3, -7, 1_000_000} {
			at := at
			out = append(out, solid{fmt.Sprintf("corners that only differ in coordinate %d and are around %d·2⁻²⁰", axis, at), func(d *polys) []point {
				p := d.point("p0.")
				var l []point
				for _, quarter := range []int64{-10, -2, 3, 9} {
					q := p
					q[axis] = poly{"": big.NewRat(4*at+quarter, 1<<22)}
					l = append(l, q)
				}
				return l
			}, [][3]int{{0, 1, 2}, {1, 0, 3}, {2, 0, 1}}})
		}
	}
	out = append(out, solid{"corners with the same coordinates in another order", func(d *polys) []point {
		p := d.point("p0.")
		return []point{p, {p[1], p[2], p[0]}, {p[1], p[0], p[2]}}
	}, [][3]int{{0, 1, 2}, {2, 0, 1}}})
	out = append(out, solid{"corners with the opposite coordinates", func(d *polys) []point {
		p := d.point("p0.")
		var q point
		for i := range q {
			q[i] = poly{}.plus(p[i], -1)
		}
		return []point{p, q, {p[0], q[1], p[2]}}
	}, [][3]int{{0, 1, 2}, {2, 0, 1}}})
	return out
}

// stlCoords lets an STL file have the coordinates of a solid.
func (s *stlRun) solid(d *polys, sol solid) []point {
	pts := sol.points(d)
	s.facets = len(sol.facets)
	s.coord = func(f, corner, axis int) poly { return pts[sol.facets[f][corner]][axis] }
	s.hook = func(e *ai.Engine) {
		e.Floats = d
		inner := e.Intercept
		e.Intercept = func(c *ai.CallCtx) ([]ai.Out, bool) {
			if outs, ok := d.intercept(c); ok {
				return outs, true
			}
			if c.Fn != nil {
				switch ai.FnName(c.Fn) {
				case "strconv.ParseFloat":
					if text, ok := ai.ConstStr(c.Args[0]); ok && strings.HasPrefix(text, "@") {
						var f, k, a int
						if n, _ := fmt.Sscanf(text, "@%d.%d.%d", &f, &k, &a); n == 3 {
							return result(c.St, []ai.Val{d.val(s.coord(f, k, a), types.Typ[types.Float64]), ai.NilOf(errorT)}), true
						}
					}
				case "(encoding/binary.littleEndian).Uint32":
					el, ok := c.St.SliceElems(c.Args[len(c.Args)-1])
					if ok && len(el) >= 4 {
						if y, ok := c.St.Resolve(el[0]).(*ai.Sym); ok && strings.HasPrefix(y.ID, "byte@") {
							for i := 1; i < 4; i++ {
								if z, ok := c.St.Resolve(el[i]).(*ai.Sym); !ok || z.ID != nextByte(y.ID, i) {
									return nil, false
								}
							}
							return []ai.Out{{St: c.St, Res: &ai.Sym{ID: "word" + y.ID[4:], T: types.Typ[types.Uint32]}}}, true
						}
					}
				case "math.Float32frombits":
					if y, ok := c.Args[0].(*ai.Sym); ok && strings.HasPrefix(y.ID, "word@") {
						var f, o int
						if n, _ := fmt.Sscanf(y.ID, "word@%d.%d", &f, &o); n == 2 && o%4 == 0 && o < 48 {
							return []ai.Out{{St: c.St, Res: d.val(s.number(d, f, o/4), float32Type)}}, true
						}
					}
				}
			}
			if inner != nil {
				return inner(c)
			}
			return nil, false
		}
	}
	s.real = func(f, i int) ai.Val { return d.val(s.number(d, f, i), float32Type) }
	return pts
}

func nextByte(id string, n int) string {
	i := strings.LastIndexByte(id, '.')
	k, _ := strconv.Atoi(id[i+1:])
	return fmt.Sprintf("%s.%d", id[:i], k+n)
}

// number is the i'th number of a facet: the normal comes before the corners.
func (s *stlRun) number(d *polys, f, i int) poly {
	if i < 3 || f >= s.facets {
		return d.quantity(fmt.Sprintf("normal%d.%d", f, i), 0, 0)
	}
	return s.coord(f, i/3-1, i%3)
}

func checkC36(r *Report) {
	r.Rule("abstract interpretation of the STL decoders and of MeshBuilder over symbolic coordinates: comparing cells of a grid is decided from how far apart coordinates are, and a conversion that cannot hold every cell decides nothing; on every path the corners of the triangles must be those of the facets")
	type job struct {
		s     solid
		ascii bool
	}
	var jobs []job
	for _, s := range solids() {
		jobs = append(jobs, job{s, false}, job{s, true})
	}
	parallel(len(jobs), func(i int) { r.c36Import(jobs[i].s, jobs[i].ascii) })
	for _, s := range solids() {
		r.c36Builder(s, true)
		r.c36Builder(s, false)
	}
}

// corners checks the vertices of a mesh and the triangles, which are given by
// the numbers of vertices.
func (r *Report) corners(d *polys, what string, verts []ai.Val, tris [][3]int, sol solid, pts []point, shared bool) {
	key := "facets"
	if !r.Assert(len(tris) == len(sol.facets), "there is a triangle for every facet", key, what, "%s: there are %d triangles for %d facets", what, len(tris), len(sol.facets)) {
		return
	}
	var got []point
	for _, v := range verts {
		l, ok := d.floats(v)
		if !ok || len(l) != 3 {
			r.Fail("undecided: vertex", what, "%s: the vertex %s is not known", what, short(v))
			return
		}
		got = append(got, point{l[0], l[1], l[2]})
	}
	used := map[int]bool{}
	for i, f := range sol.facets {
		for k, p := range f {
			v := tris[i][k]
			if v < 0 || v >= len(got) {
				r.Fail(key, what, "%s: corner %d of triangle %d is vertex %d of %d", what, k, i, v, len(got))
				return
			}
			for a := range got[v] {
				if len(got[v][a].plus(pts[p][a], -1)) != 0 {
					r.Fail(key, what, "%s: corner %d of triangle %d is at (%s) instead of (%s)", what, k, i, shownPoint(got[v]), shownPoint(pts[p]))
					return
				}
			}
			used[p] = true
		}
	}
	n := len(used)
	if !shared {
		n = 3 * len(sol.facets)
	}
	r.Assert(len(got) == n, "corners share a vertex exactly if they coincide", "shared vertices", what, "%s: the mesh has %d vertices instead of %d", what, len(got), n)
}

func shownPoint(p point) string { return fmt.Sprintf("%s, %s, %s", p[0], p[1], p[2]) }

func (r *Report) c36Import(sol solid, ascii bool) {
	d := newPolys()
	s := &stlRun{r: r, ascii: ascii, cancel: -1}
	pts := s.solid(d, sol)
	kind := "binary"
	if ascii {
		kind = "ASCII"
	}
	what := fmt.Sprintf("importing a %s file with %s", kind, sol.name)
	outs, err := s.run()
	if err != nil {
		r.Fail("undecided: import", what, "%s: %v", what, err)
		return
	}
	for _, o := range outs {
		bad, known := failed(o)
		if bad || !known {
			r.Fail("import fails", what, "%s fails: %s", what, short(o.Res))
			continue
		}
		objs, _, diff := s.same(o)
		if diff != "" || len(objs) != 1 {
			r.Fail("object", what, "%s: %d objects were added (%s)", what, len(objs), diff)
			continue
		}
		verts, ok1 := o.St.SliceElems(o.St.Resolve(GetPath(o.St, objs[0], ".Mesh.Vertices.Vertex")))
		tl, ok2 := o.St.SliceElems(o.St.Resolve(GetPath(o.St, objs[0], ".Mesh.Triangles.Triangle")))
		if !ok1 || !ok2 {
			r.Fail("undecided: mesh", what, "%s: the vertices or triangles are not known", what)
			continue
		}
		var tris [][3]int
		for _, t := range tl {
			var x [3]int
			for k := range x {
				n, ok := ai.ConstInt(o.St.Resolve(GetPath(o.St, t, fmt.Sprintf(".V%d", k+1))))
				if !ok {
					n = -1
				}
				x[k] = int(n)
			}
			tris = append(tris, x)
		}
		for i := range verts {
			verts[i] = o.St.Resolve(verts[i])
		}
		r.corners(d, what, verts, tris, sol, pts, true)
	}
	r.Count("imports", 1)
}

// c36Builder adds the corners with a MeshBuilder.
func (r *Report) c36Builder(sol solid, shared bool) {
	d := newPolys()
	pts := sol.points(d)
	what := fmt.Sprintf("building a mesh with %s (connectivity: %v)", sol.name, shared)
	nb, av := r.W.Func("", "NewMeshBuilder"), r.W.Method("", "MeshBuilder", "AddVertex")
	if nb == nil || av == nil {
		r.Fail("undecided: builder", what, "NewMeshBuilder or MeshBuilder.AddVertex was not found")
		return
	}
	e := d.engine(r)
	panics := 0
	e.OnPanic = func(*ai.State, *ssa.Function, token.Position, string) { panics++ }
	st := e.NewState()
	b := &literal{w: r.W, st: st, pfx: "m"}
	st.SetRoot("mesh", b.val(r.W.Type("", "Mesh"), F{}))
	outs := e.Call(st, nb, []ai.Val{&ai.Ptr{Obj: "mesh"}}, nil, "NewMeshBuilder", nil)
	type path struct {
		st *ai.State
		ix []int
		mb ai.Val
	}
	var paths []path
	for _, o := range outs {
		if !shared {
			p, ok := o.St.Resolve(o.Res).(*ai.Ptr)
			i := fieldIndex(r.W.Type("", "MeshBuilder"), "CalculateConnectivity")
			if !ok || i < 0 {
				r.Fail("undecided: builder", what, "%s: the field CalculateConnectivity was not found", what)
				return
			}
			o.St.StorePtr(o.St.FieldPtr(p, i), ai.Bool(false), false)
		}
		paths = append(paths, path{o.St, nil, o.Res})
	}
	for _, f := range sol.facets {
		for _, p := range f {
			var next []path
			for _, w := range paths {
				v := (&literal{w: r.W, st: w.st, pfx: "v"}).val(av.Signature.Params().At(0).Type(), pts[p].lit(d))
				for _, o := range e.Call(w.st, av, []ai.Val{w.mb, v}, nil, "AddVertex", nil) {
					n, ok := ai.ConstInt(o.St.Resolve(o.Res))
					if !ok {
						n = -1
					}
					next = append(next, path{o.St, append(append([]int{}, w.ix...), int(n)), w.mb})
				}
			}
			paths = next
		}
	}
	r.engineFns(e)
	for _, k := range sortedKeys(e.Limits) {
		r.Fail("undecided: builder", what, "%s: the analysis reached a limit (%s)", what, k)
		return
	}
	if len(paths) == 0 || panics > 0 {
		r.Fail("undecided: builder", what, "%s: %d outcomes and %d panics", what, len(paths), panics)
		return
	}
	for _, w := range paths {
		l, ok := w.st.SliceElems(w.st.Resolve(GetPath(w.st, w.st.Root("mesh"), ".Vertices.Vertex")))
		if !ok {
			r.Fail("undecided: mesh", what, "%s: the vertices are not known", what)
			return
		}
		var tris [][3]int
		for i := 0; i < len(w.ix); i += 3 {
			tris = append(tris, [3]int{w.ix[i], w.ix[i+1], w.ix[i+2]})
		}
		r.corners(d, what, l, tris, sol, pts, shared)
	}
	r.Count("meshes built", 1)
}
