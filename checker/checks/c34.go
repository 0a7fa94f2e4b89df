package checks

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

type (
	point [3]poly
	box   struct{ min, max point }
	affin [4][3]poly // rows of the matrix without the last column
)

func checkC34(r *Report) {
	r.Rule("abstract interpretation of the matrix and box functions over polynomials in symbolic coordinates and matrix entries, for every combination of the signs of the entries and every order of the coordinates: comparisons are decided from signs alone, and the result must be the polynomial that the definition gives")
	r.c34Algebra()
	r.c34Box()
	r.c34Mesh()
	r.c34Model()
}

func (p point) lit(d *polys) L {
	return L{d.val(p[0], float32Type), d.val(p[1], float32Type), d.val(p[2], float32Type)}
}

func (b box) lit(d *polys) F { return F{"Min": b.min.lit(d), "Max": b.max.lit(d)} }

func (m affin) lit(d *polys) L {
	var l L
	for i := range m {
		l = append(l, m.row(i).lit(d)...)
		l = append(l, d.val(whole(int64(i/3)), float32Type))
	}
	return l
}

func (d *polys) point(name string) point {
	var p point
	for i := range p {
		p[i] = d.quantity(fmt.Sprintf("%s%d", name, i), 0, 0)
	}
	return p
}

// affin is an affine map whose entries have the given signs.
func (d *polys) affin(name string, sign func(i, j int) int) affin {
	var m affin
	for i := range m {
		for j := range m[i] {
			s := anySign
			if i < 3 {
				s = sign(i, j)
			}
			switch s {
			case 0:
				m[i][j] = poly{}
				continue
			case anySign:
				s = 0
			}
			lv := 0
			if s != 0 {
				lv = d.spread(100_000)
			}
			m[i][j] = d.quantity(fmt.Sprintf("%s%d%d", name, i, j), s, lv)
		}
	}
	return m
}

const anySign = 7

func (m affin) apply(p point) point {
	var out point
	for j := range out {
		out[j] = m[3][j]
		for i := range p {
			out[j] = out[j].plus(p[i].times(m[i][j]), 1)
		}
	}
	return out
}

// image is the smallest box around the image of a box.
func (d *polys) image(m affin, b box) (box, error) {
	out := box{point{m[3][0], m[3][1], m[3][2]}, point{m[3][0], m[3][1], m[3][2]}}
	for j := range out.min {
		for i := range b.min {
			x, y := m[i][j].times(b.min[i]), m[i][j].times(b.max[i])
			if s, ok := d.sign(y.plus(x, -1)); !ok {
				return out, fmt.Errorf("order of %s and %s", x, y)
			} else if s < 0 {
				x, y = y, x
			}
			out.min[j], out.max[j] = out.min[j].plus(x, 1), out.max[j].plus(y, 1)
		}
	}
	return out, nil
}

// around is the smallest box around boxes.
func (d *polys) around(bs []box) (box, error) {
	out := bs[0]
	for _, b := range bs[1:] {
		for j := range out.min {
			if s, ok := d.sign(b.min[j].plus(out.min[j], -1)); !ok {
				return out, fmt.Errorf("order of %s and %s", b.min[j], out.min[j])
			} else if s < 0 {
				out.min[j] = b.min[j]
			}
			if s, ok := d.sign(b.max[j].plus(out.max[j], -1)); !ok {
				return out, fmt.Errorf("order of %s and %s", b.max[j], out.max[j])
			} else if s > 0 {
				out.max[j] = b.max[j]
			}
		}
	}
	return out, nil
}

// method calls a method of a value or a pointer with literal arguments.
func (r *Report) polyCall(d *polys, typ, method string, recv any, args ...any) ([]ai.Out, error) {
	fn := r.W.Method("", typ, method)
	t := r.W.Type("", typ)
	if fn == nil || t == nil {
		return nil, fmt.Errorf("%s.%s not found", typ, method)
	}
	e := d.engine(r)
	var panics []string
	e.OnPanic = func(_ *ai.State, fn *ssa.Function, pos token.Position, what string) {
		panics = append(panics, fmt.Sprintf("%s in %s (%s)", what, fnLabel(fn), r.W.P.Pos(pos)))
	}
	st := e.NewState()
	b := &literal{w: r.W, st: st, pfx: "m"}
	sig := fn.Signature
	if sig.Params().Len() != len(args) {
		return nil, fmt.Errorf("%s.%s has %d parameters", typ, method, sig.Params().Len())
	}
	vals := []ai.Val{b.val(sig.Recv().Type(), recv)}
	for i, a := range args {
		vals = append(vals, b.val(sig.Params().At(i).Type(), a))
	}
	if b.err != nil {
		return nil, b.err
	}
	outs := e.Call(st, fn, vals, nil, fn.Name(), nil)
	r.engineFns(e)
	for k := range e.Limits {
		return nil, fmt.Errorf("the analysis reached a limit (%s)", k)
	}
	if len(panics) > 0 {
		return nil, fmt.Errorf("panic: %s", panics[0])
	}
	if len(outs) == 0 {
		return nil, fmt.Errorf("it does not return")
	}
	return outs, nil
}

// floats are the numbers of a vector, matrix or box.
func (d *polys) floats(v ai.Val) ([]poly, bool) {
	if a, ok := v.(*ai.Agg); ok {
		var out []poly
		for _, e := range a.Elems {
			l, ok := d.floats(e)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
		return out, true
	}
	p, ok := d.poly(v)
	return []poly{p}, ok
}

func (b box) floats() []poly { return append(append([]poly{}, b.min[:]...), b.max[:]...) }

// same checks that all the results are the wanted numbers.
func (r *Report) same(d *polys, rule, key, what string, outs []ai.Out, err error, want []poly) {
	if err != nil {
		r.Fail("undecided: "+key, what, "%s: %v", what, err)
		return
	}
	for _, o := range outs {
		got, ok := d.floats(o.St.Resolve(o.Res))
		if !ok || len(got) != len(want) {
			r.Fail("undecided: "+key, what, "%s: the result is %s", what, short(o.Res))
			return
		}
		for i := range got {
			if len(got[i].plus(want[i], -1)) != 0 {
				r.Fail(key, what, "%s: number %d of the result is %s instead of %s", what, i, got[i], want[i])
				return
			}
		}
	}
	r.OK(rule, what)
}

func (r *Report) c34Algebra() {
	const rule, key = "matrices act as affine maps", "matrix algebra"
	d := newPolys()
	every := func(int, int) int { return anySign }
	m, n := d.affin("m", every), d.affin("n", every)
	p, t := d.point("p"), d.point("t")
	mp := m.apply(p)
	outs, err := r.polyCall(d, "Matrix", "Mul3D", m.lit(d), p.lit(d))
	r.same(d, rule, key, "a point times a matrix", outs, err, mp[:])
	flat := m.apply(point{p[0], p[1], poly{}})
	outs, err = r.polyCall(d, "Matrix", "Mul2D", m.lit(d), p.lit(d)[:2])
	r.same(d, rule, key, "a point of a slice times a matrix", outs, err, flat[:2])

	var prod []poly
	for i := 0; i < 4; i++ {
		row := m.apply(n.row(i))
		if i < 3 { // a direction
			for j := range row {
				row[j] = row[j].plus(m[3][j], -1)
			}
		}
		prod = append(append(prod, row[:]...), whole(int64(i/3)))
	}
	outs, err = r.polyCall(d, "Matrix", "Mul", m.lit(d), n.lit(d))
	r.same(d, rule, key, "the product of two matrices, which first applies the second", outs, err, prod)

	var shifted []poly
	for i := 0; i < 4; i++ {
		for j := 0; j < 3; j++ {
			e := m[i][j]
			if i == 3 {
				e = e.plus(t[j], 1)
			}
			shifted = append(shifted, e)
		}
		shifted = append(shifted, whole(int64(i/3)))
	}
	tl := t.lit(d)
	outs, err = r.polyCall(d, "Matrix", "Translate", m.lit(d), tl[0], tl[1], tl[2])
	r.same(d, rule, key, "a translated matrix", outs, err, shifted)

	var id []poly
	for i := 0; i < 16; i++ {
		id = append(id, whole(int64(b2i(i%5 == 0))))
	}
	if fn := r.W.Func("", "Identity"); fn == nil {
		r.Fail("undecided: identity", "Identity", "the function Identity was not found")
	} else {
		e := d.engine(r)
		outs := e.Call(e.NewState(), fn, nil, nil, "Identity", nil)
		r.same(d, rule, key, "the identity matrix", outs, nil, id)
	}
	r.Count("identities", 5)
}

func (m affin) row(i int) point { return point{m[i][0], m[i][1], m[i][2]} }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var signs = [3]int{1, -1, 0}

func (r *Report) c34Box() {
	const rule, key = "the image of a box is enclosed tightly", "image of a box"
	type job struct{ pat [3]int }
	var jobs []job
	for i := 0; i < 27; i++ {
		for _, sh := range []int{0, 1} {
			jobs = append(jobs, job{[3]int{i, (i*7 + 5 + 11*sh) % 27, (26 - i + 4*sh) % 27}})
		}
		if r.Thorough() {
			for k := 0; k < 27; k++ {
				for l := 0; l < 27; l++ {
					jobs = append(jobs, job{[3]int{i, k, l}})
				}
			}
		}
	}
	parallel(len(jobs), func(n int) {
		pat := jobs[n].pat
		for _, flat := range []int{-1, n % 3} {
			d := newPolys()
			d.seed = uint32(n)
			m := d.affin("m", func(i, j int) int {
				x := pat[j]
				for ; i > 0; i-- {
					x /= 3
				}
				return signs[x%3]
			})
			var b box
			b.min, b.max = d.point("p"), d.point("p")
			for i := range b.max {
				if i != flat {
					b.max[i] = b.min[i].plus(d.quantity(fmt.Sprintf("size%d", i), 1, d.spread(1_000_000)), 1)
				}
			}
			want, err := d.image(m, b)
			what := fmt.Sprintf("a box times a matrix with the signs %v", signsOf(m, d))
			if flat >= 0 {
				what = fmt.Sprintf("a box that is flat along axis %d times a matrix with the signs %v", flat, signsOf(m, d))
			}
			var outs []ai.Out
			if err == nil {
				outs, err = r.polyCall(d, "Matrix", "MulBox", m.lit(d), b.lit(d))
			}
			r.same(d, rule, key, what, outs, err, want.floats())
			r.Count("boxes", 1)
		}
	})
	d := newPolys()
	b := box{d.point("p"), d.point("p")}
	for i := range b.max {
		b.max[i] = b.min[i].plus(d.quantity(fmt.Sprintf("size%d", i), 1, d.spread(1_000_000)), 1)
	}
	zero := make(L, 16)
	for i := range zero {
		zero[i] = d.val(poly{}, float32Type)
	}
	outs, err := r.polyCall(d, "Matrix", "MulBox", zero, b.lit(d))
	r.same(d, rule, key, "a box times a matrix that was not set", outs, err, b.floats())
}

func signsOf(m affin, d *polys) string {
	s := ""
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			x, _ := d.sign(m[i][j])
			s += string("-0+"[x+1])
		}
		if i < 2 {
			s += " "
		}
	}
	return s
}

// ranked are n numbers whose order is given by their ranks.
func (d *polys) ranked(name string, ranks []int, level int) []poly {
	var out, gaps []poly
	for _, k := range ranks {
		p := d.quantity(name, 0, 0)
		for i := 0; i < k; i++ {
			if i == len(gaps) {
				gaps = append(gaps, d.quantity(fmt.Sprintf("%s+%d", name, i+1), 1, level+d.spread(level/10)))
			}
			p = p.plus(gaps[i], 1)
		}
		out = append(out, p)
	}
	return out
}

func moved(l []int) []int {
	out := make([]int, len(l))
	for i, k := range l {
		out[i] = k + 1
	}
	return out
}

// ranks are all the ways to order n numbers with repetitions.
func ranks(n int) [][]int {
	out := [][]int{{}}
	for i := 0; i < n; i++ {
		var next [][]int
		for _, l := range out {
			for k := 0; k < n; k++ {
				next = append(next, append(append([]int{}, l...), k))
			}
		}
		out = next
	}
	return out
}

func (r *Report) c34Mesh() {
	const rule, key = "the box of a mesh encloses its vertices tightly", "box of a mesh"
	var jobs [][]int
	max := 4
	if r.Thorough() {
		max = 5
	}
	for n := 0; n <= max; n++ {
		jobs = append(jobs, ranks(n)...)
	}
	parallel(len(jobs), func(n int) {
		rk := jobs[n]
		d := newPolys()
		rev := make([]int, len(rk))
		neg := make([]int, len(rk))
		for i, k := range rk {
			rev[len(rk)-1-i] = k
			neg[i] = len(rk) - 1 - k
		}
		axes := [3][]poly{d.ranked("x", rk, 0), d.ranked("y", rev, 0), d.ranked("z", neg, 0)}
		verts := L{}
		var bs []box
		for i := range rk {
			p := point{axes[0][i], axes[1][i], axes[2][i]}
			verts = append(verts, p.lit(d))
			bs = append(bs, box{p, p})
		}
		want := box{}
		var err error
		if len(bs) > 0 {
			want, err = d.around(bs)
		}
		var outs []ai.Out
		if err == nil {
			outs, err = r.polyCall(d, "Mesh", "BoundingBox", F{"Vertices": F{"Vertex": verts}})
		}
		r.same(d, rule, key, fmt.Sprintf("the bounding box of a mesh with the vertices ordered %v", rk), outs, err, want.floats())
		r.Count("meshes", 1)
	})
}

// placed is a use of an object.
type placed struct {
	obj int
	own bool // it has a matrix
}

// shape is an object: a mesh of vertices, or components.
type shape struct {
	id    int
	child bool // defined in the child part
	verts int
	comps []placed
}

func (r *Report) c34Model() {
	const rule, key = "the box of a model encloses all that is built", "box of a model"
	a, b := shape{id: 1, verts: 2}, shape{id: 2, verts: 2}
	empty := shape{id: 3}
	none := shape{id: 6, comps: []placed{{3, true}, {99, true}}}
	ca, cb := shape{id: 11, child: true, verts: 2}, shape{id: 12, child: true, comps: []placed{{11, true}, {11, true}}}
	type scen struct {
		name  string
		objs  []shape
		items []placed
	}
	scens := []scen{
		{"no item", []shape{a}, nil},
		{"an item", []shape{a}, []placed{{1, true}}},
		{"an item without a matrix", []shape{a}, []placed{{1, false}}},
		{"items of the same object", []shape{a}, []placed{{1, true}, {1, true}}},
		{"items of several objects", []shape{a, b}, []placed{{1, true}, {2, true}, {1, true}}},
		{"items of objects that are missing or empty", []shape{a, empty, none}, []placed{{3, true}, {1, true}, {6, true}, {98, true}}},
		{"only items of objects that are missing or empty", []shape{a, empty, none}, []placed{{3, true}, {6, true}, {98, true}}},
		{"components", []shape{a, b, {id: 4, comps: []placed{{1, true}, {2, true}}}}, []placed{{4, true}}},
		{"components without a matrix", []shape{a, b, {id: 4, comps: []placed{{1, false}, {2, true}}}}, []placed{{4, false}}},
		{"components that are missing or empty", []shape{a, empty, none, {id: 4, comps: []placed{{3, true}, {6, true}, {1, true}, {98, true}}}}, []placed{{4, true}}},
		{"components of the same object", []shape{a, {id: 4, comps: []placed{{1, true}, {1, true}}}}, []placed{{4, true}}},
		{"components of components", []shape{a, b, {id: 4, comps: []placed{{1, true}, {2, true}}}, {id: 5, comps: []placed{{4, true}, {4, true}}}}, []placed{{5, true}}},
		{"an object used at several depths", []shape{a, {id: 4, comps: []placed{{1, true}}}, {id: 5, comps: []placed{{4, true}, {1, true}, {4, true}}}}, []placed{{5, true}, {4, true}}},
		{"items of a child part", []shape{a, ca}, []placed{{11, true}, {1, true}}},
		{"components of a child part", []shape{a, ca, cb}, []placed{{12, true}, {1, true}}},
		{"components in a child part", []shape{a, ca, cb, {id: 4, comps: []placed{{12, true}, {1, true}, {11, true}}}}, []placed{{4, true}}},
	}
	type job struct {
		s    scen
		seed int
	}
	var jobs []job
	seeds := 24
	if r.Thorough() {
		seeds = 300
	}
	for _, s := range scens {
		for i := 0; i < seeds; i++ {
			jobs = append(jobs, job{s, i})
		}
	}
	parallel(len(jobs), func(n int) {
		s, seed := jobs[n].s, jobs[n].seed
		d := newPolys()
		d.seed = uint32(n)
		x := uint32(seed*7919 + 17)
		rnd := func(n int) int { x = x*1664525 + 1013904223; return int(x>>16) % n }
		maps := 0
		level := map[int]int{}
		byID := map[int]shape{}
		for _, o := range s.objs {
			byID[o.id] = o
		}
		var height func(id int) int
		height = func(id int) int {
			h := 1
			for _, c := range byID[id].comps {
				if k := height(c.obj) + 1; k > h {
					h = k
				}
			}
			return h
		}
		for _, o := range s.objs {
			level[o.id] = height(o.id)
		}
		// the places of a list lie far from each other along every axis
		place := func(l []placed, lv int) []*affin {
			out := make([]*affin, len(l))
			maps++
			alike, axis, first := rnd(3), rnd(4), -1
			for _, c := range l {
				if c.obj != l[0].obj || !c.own {
					axis = 3 // not along one axis only
				}
			}
			var off [3][]poly
			for j := range off {
				off[j] = d.ranked(fmt.Sprintf("at%d.%d", maps, j), moved(permutation(len(l), rnd(24))), lv*100_000_000)
			}
			for i, c := range l {
				if !c.own {
					continue
				}
				m := d.affin(fmt.Sprintf("m%d.%d.", maps, i), func(i, j int) int {
					if i == j {
						return signs[rnd(2)]
					}
					return signs[rnd(3)]
				})
				if first < 0 {
					first = i
				} else if alike > 0 { // the matrices only differ in the translation
					m = *out[first]
				}
				for j := range off {
					m[3][j] = off[j][i]
					if alike > 1 && axis < 3 && axis != j {
						m[3][j] = off[j][first]
					}
				}
				out[i] = &m
			}
			return out
		}
		boxes := map[int]*box{}
		var fail error
		enclose := func(l []placed, at []*affin) *box {
			var bs []box
			for i, c := range l {
				b := boxes[c.obj]
				if b == nil {
					continue
				}
				img := *b
				if at[i] != nil {
					var err error
					if img, err = d.image(*at[i], *b); err != nil {
						fail = err
					}
				}
				bs = append(bs, img)
			}
			if len(bs) == 0 {
				return nil
			}
			out, err := d.around(bs)
			if err != nil {
				fail = err
			}
			return &out
		}
		uses := func(l []placed, at []*affin, id, attr string, from bool) L {
			out := L{}
			for i, c := range l {
				f := F{id: c.obj}
				if at[i] != nil {
					f["Transform"] = at[i].lit(d)
				}
				if o, ok := byID[c.obj]; ok && o.child && !from {
					f["AnyAttr"] = L{Dyn{"production", attr, F{"UUID": goodUUID, "Path": childPart}}}
				}
				out = append(out, f)
			}
			return out
		}
		root, child := L{}, L{}
		for _, o := range s.objs {
			f := F{"ID": o.id}
			if len(o.comps) > 0 {
				at := place(o.comps, level[o.id])
				f["Components"] = F{"Component": uses(o.comps, at, "ObjectID", "ComponentAttr", o.child)}
				boxes[o.id] = enclose(o.comps, at)
			} else {
				var axes [3][]poly
				for j := range axes {
					axes[j] = d.ranked(fmt.Sprintf("v%d.%d", o.id, j), permutation(o.verts, rnd(2)), 10_000_000)
				}
				verts := L{}
				var bs []box
				for i := 0; i < o.verts; i++ {
					p := point{axes[0][i], axes[1][i], axes[2][i]}
					verts = append(verts, p.lit(d))
					bs = append(bs, box{p, p})
				}
				f["Mesh"] = F{"Vertices": F{"Vertex": verts}}
				if len(bs) > 0 {
					b, err := d.around(bs)
					if err != nil {
						fail = err
					}
					boxes[o.id] = &b
				}
			}
			if o.child {
				child = append(child, f)
			} else {
				root = append(root, f)
			}
		}
		at := place(s.items, 4)
		items := uses(s.items, at, "ObjectID", "ItemAttr", false)
		want := box{}
		if b := enclose(s.items, at); b != nil {
			want = *b
		}
		what := fmt.Sprintf("the bounding box of a model with %s (arrangement %d)", s.name, seed)
		if fail != nil {
			r.Fail("undecided: "+key, what, "%s: %v", what, fail)
			return
		}
		model := F{"Resources": F{"Objects": root}, "Build": F{"Items": items}}
		if len(child) > 0 {
			model["Childs"] = M{{childPart, F{"Resources": F{"Objects": child}}}}
		}
		outs, err := r.polyCall(d, "Model", "BoundingBox", model)
		r.same(d, rule, key, what, outs, err, want.floats())
		r.Count("models", 1)
	})
}
