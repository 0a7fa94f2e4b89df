package checks

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"
	"time"

	"verif/checker/ai"
	"verif/checker/load"
)

// codecShape is the default shape: the first and last element of every list
// is filled in, the middle one is empty.
func codecShape(give func(b *ModelBuilder, path string, t types.Type) (ai.Val, bool)) *Shape {
	s := &Shape{Name: "all fields set", Distinct: true}
	s.Leaf = func(p string) byte {
		if minimalPath(p) {
			return 'z'
		}
		return 'f'
	}
	s.Len = func(p string) int {
		if minimalPath(p) {
			return 0
		}
		return 3
	}
	s.Enum = func(p string, n int) int {
		if minimalPath(p) {
			return -1
		}
		return n - 1
	}
	s.Nil = func(p string) bool {
		return minimalPath(p) && strings.HasPrefix(lastComp(p), ".")
	}
	s.Give = func(b *ModelBuilder, p string, t types.Type) (ai.Val, bool) {
		if give != nil {
			if v, ok := give(b, p, t); ok {
				return v, true
			}
		}
		return coreGive(b, p, t)
	}
	return s
}

// emptyShape is the opposite: the middle element of every list is filled in.
func emptyShape(give func(b *ModelBuilder, path string, t types.Type) (ai.Val, bool)) *Shape {
	f := codecShape(give)
	s := *f
	s.Name = "few fields set"
	s.Leaf = func(p string) byte {
		if minimalPath(p) {
			return 'f'
		}
		return 'z'
	}
	s.Enum = func(p string, n int) int {
		if minimalPath(p) {
			return n - 1
		}
		return -1
	}
	s.Len = func(p string) int {
		if strings.Count(p, "[") > 1 {
			return 2
		}
		return 3
	}
	s.Nil = func(p string) bool { return false }
	return &s
}

func opposite(c byte) byte {
	if c == 'z' {
		return 'f'
	}
	return 'z'
}

func minimalPath(p string) bool { return strings.Contains(p, "[1]") }

func lastComp(p string) string {
	i := strings.LastIndexAny(p, ".[{")
	if i < 0 {
		return p
	}
	return p[i:]
}

const specPath = load.Module + "/spec"

// declaredExts are the extensions every abstract model declares.
var declaredExts = []struct {
	ns, prefix string
	required   bool
}{
	{nsMat, "m", false}, {nsBeam, "b", true}, {nsSlice, "s", true}, {nsProd, "p", false}, {nsFresh, "u", true}, {nsFresh2, "v", false},
}

// coreGive fixes the places of a model that cannot be arbitrary.
func coreGive(b *ModelBuilder, p string, t types.Type) (ai.Val, bool) {
	pkg, name := namedType(t)
	switch {
	case p == "Model.Path":
		return ai.Zero(t), true
	case lastComp(p) == ".Thumbnail" && t.Underlying() == types.Typ[types.String]:
		b.Leafs = append(b.Leafs, p)
		if b.Sh.Leaf(p) == 'z' {
			return ai.Zero(t), true
		}
		return ai.Str("/Metadata/" + partName(p) + ".png"), true
	case p == "Model.Attachments" || p == "Model.Relationships" || p == "Model.RootRelationships" || lastComp(p) == ".Relationships":
		return ai.Zero(t), true
	case p == "Model.Extensions":
		et := t.Underlying().(*types.Slice).Elem()
		var vs []ai.Val
		for _, x := range declaredExts {
			a := ai.Zero(et).(*ai.Agg)
			n := &ai.Agg{T: a.T, Elems: append([]ai.Val(nil), a.Elems...)}
			set := func(f string, v ai.Val) {
				if i := fieldIndex(et, f); i >= 0 {
					n.Elems[i] = v
				}
			}
			set("Namespace", ai.Str(x.ns))
			set("LocalName", ai.Str(x.prefix))
			set("IsRequired", ai.Bool(x.required))
			vs = append(vs, n)
		}
		return b.Slice(p, t, vs), true
	case pkg == "encoding/xml" && name == "Name":
		sp, lo := "", "Title"
		if strings.Contains(p, "[0]") {
			sp, lo = "u", "Custom"
		}
		return &ai.Agg{T: t, Elems: []ai.Val{ai.Str(sp), ai.Str(lo)}}, true
	case p == "Model.Resources.Objects[2].Mesh":
		b.Ptrs = append(b.Ptrs, p)
		return ai.NilOf(t), true
	case lastComp(p) == ".Components" && !strings.HasPrefix(p, "Model.Resources.Objects[2]"):
		b.Ptrs = append(b.Ptrs, p)
		return ai.NilOf(t), true
	}
	if u, ok := t.Underlying().(*types.Slice); ok {
		if _, ok := u.Elem().Underlying().(*types.Interface); ok {
			return ai.Zero(t), true
		}
	}
	return nil, false
}

func partName(p string) string {
	return strings.NewReplacer(".", "_", "[", "", "]", "", "{", "", "}", "", "/", "").Replace(p)
}

// giveList makes a list of pointers to values of the given types.
func giveList(b *ModelBuilder, p string, t types.Type, elems []types.Type) ai.Val {
	var vs []ai.Val
	for i, et := range elems {
		pt := types.NewPointer(et)
		ep := fmt.Sprintf("%s[%d]", p, i)
		vs = append(vs, &ai.Iface{Dyn: pt, V: b.New(ep, b.Build(ep, et))})
	}
	return b.Slice(p, t, vs)
}

func isZeroLeaf(c *comparer, v ai.Val) bool {
	k := c.find(c.leaf(v))
	return k == c.find("c:0") || k == c.find("s:")
}

// coreRules are the places where different models mean the same.
func coreRules(skip func(path string, t types.Type) bool) func(c *comparer, path string, t types.Type, n, m ai.Val) bool {
	type objCtx struct{ n, m ai.Val }
	var obj, lattice objCtx
	return func(c *comparer, path string, t types.Type, n, m ai.Val) bool {
		if skip != nil && skip(path, t) {
			return true
		}
		pkg, name := namedType(t)
		fld := func(st *ai.State, v ai.Val, f string) ai.Val {
			r := GetPath(st, v, "."+f)
			if r == nil {
				return ai.Atom("no field "+f, types.Typ[types.Int])
			}
			return c.m.Resolve(r)
		}
		fieldT := func(f string) types.Type {
			if i := fieldIndex(t, f); i >= 0 {
				return t.Underlying().(*types.Struct).Field(i).Type()
			}
			return types.Typ[types.Int]
		}
		each := func(except ...string) {
			u := t.Underlying().(*types.Struct)
		next:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				for _, e := range except {
					if f.Name() == e {
						continue next
					}
				}
				if f.Exported() {
					c.same(path+"."+f.Name(), f.Type(), c.n.Sel(n, i), c.m.Sel(m, i))
				}
			}
		}
		zero := func(v ai.Val) bool { return isZeroLeaf(c, v) }
		switch {
		case path == "Model.Path" || path == "Model.Attachments" || path == "Model.RootRelationships" || lastComp(path) == ".Relationships":
			return true
		case name == "Matrix":
			if noTransform(c, n) {
				c.count++
				if !noTransform(c, m) {
					c.differ(path, "no transformation written, read back %s", short(m))
				}
				return true
			}
		case pkg == load.Module && name == "Object":
			obj = objCtx{n, m}
			ex := []string{}
			if ai.IsNil(fld(c.n, n, "Mesh")) {
				ex = append(ex, "PID", "PIndex")
			} else {
				ex = append(ex, "Components")
			}
			each(ex...)
			return true
		case pkg == load.Module && name == "Triangle" && c.floats:
			return true
		case pkg == load.Module && name == "Triangle":
			for _, f := range []string{"V1", "V2", "V3", "AnyAttr"} {
				c.same(path+"."+f, fieldT(f), fld(c.n, n, f), fld(c.m, m, f))
			}
			eff := func(st *ai.State, v, o ai.Val) []ai.Val {
				pid := fld(st, v, "PID")
				if zero(pid) {
					opid := fld(st, o, "PID")
					if zero(opid) {
						return []ai.Val{ai.Int(0)}
					}
					pi := fld(st, o, "PIndex")
					return []ai.Val{opid, pi, pi, pi}
				}
				return []ai.Val{pid, fld(st, v, "P1"), fld(st, v, "P2"), fld(st, v, "P3")}
			}
			a, b := eff(c.n, n, obj.n), eff(c.m, m, obj.m)
			c.count++
			if len(a) != len(b) {
				c.differ(path, "the properties of the triangle are not preserved: written pid %s, read back %s", c.show(a[0]), c.show(b[0]))
				return true
			}
			for i := range a {
				if !c.eq(a[i], b[i]) {
					c.differ(path+"."+[]string{"PID", "P1", "P2", "P3"}[i], "effective value written %s, read back %s", c.show(a[i]), c.show(b[i]))
				}
			}
			return true
		case strings.HasSuffix(pkg, "/slices") && name == "Segment":
			if zero(fld(c.n, n, "PID")) {
				each("P1", "P2")
				return true
			}
		case strings.HasSuffix(pkg, "/beamlattice") && name == "BeamLattice":
			lattice = objCtx{n, m}
		case strings.HasSuffix(pkg, "/beamlattice") && name == "Beam":
			eff := func(st *ai.State, v, l ai.Val) []ai.Val {
				var rs []ai.Val
				for i := 0; i < 2; i++ {
					r := GetPath(st, v, fmt.Sprintf(".Radius[%d]", i))
					if r == nil {
						return nil
					}
					r = c.m.Resolve(r)
					if zero(r) {
						if i == 1 {
							r = rs[0]
						} else {
							r = fld(st, l, "Radius")
						}
					}
					rs = append(rs, r)
				}
				return rs
			}
			a, b := eff(c.n, n, lattice.n), eff(c.m, m, lattice.m)
			c.count++
			if len(a) != 2 || len(b) != 2 {
				c.differ(path+".Radius", "radius not found")
				return true
			}
			for i := range a {
				if !c.eq(a[i], b[i]) {
					c.differ(fmt.Sprintf("%s.Radius[%d]", path, i), "effective value written %s, read back %s", c.show(a[i]), c.show(b[i]))
				}
			}
			each("Radius")
			return true
		}
		return false
	}
}

func noTransform(c *comparer, v ai.Val) bool {
	allZero, ident := true, true
	a, ok := v.(*ai.Agg)
	if !ok {
		return false
	}
	for i := range a.Elems {
		l := c.find(c.leaf(a.Elems[i]))
		want := c.find("c:0")
		if i%5 == 0 {
			want = c.find("c:1")
		}
		if l != c.find("c:0") {
			allZero = false
		}
		if l != want {
			ident = false
		}
	}
	return allZero || ident
}

// codecRun round-trips a shape and compares the models.
func (r *Report) codecRun(sh *Shape, cfg *codecConfig, each func(t *RoundTrip, o RTOut)) *RoundTrip {
	t0 := time.Now()
	if r.enough() {
		return nil
	}
	t := r.W.NewRoundTrip(sh)
	t.NoDec = cfg.doc != nil
	outs, err := t.Run()
	where := sh.Name
	r.engineFns(t.E)
	if err != nil {
		r.Fail("undecided: "+where, where, "%v", err)
		return t
	}
	for k := range t.Panics {
		r.Fail("panic: "+k, where, "encoding or decoding panics: %s", k)
	}
	r.limits(t.E, where)
	for k := range t.X.Problems {
		r.Fail("undecided: "+k, where, "%s", k)
	}
	mt := r.W.Type("", "Model")
	for _, o := range outs {
		if each != nil {
			each(t, o)
			continue
		}
		if !ai.IsNil(o.Err) {
			r.Fail("encoding fails: "+genericPath(where), where, "encoding a valid model returns %s", short(o.Err))
			continue
		}
		for _, p := range o.Probs {
			if cfg.doc == nil && p.kind != "C12" || cfg.doc[p.kind] {
				r.Fail("document: "+p.msg, where, "%s", p.msg)
			}
		}
		for _, p := range o.Dirty {
			r.Fail("not flushed: "+p, where, "part %s is not flushed", p)
		}
		if cfg.doc != nil {
			for part, toks := range o.Docs {
				r.OK("the output of the part is a document without such defects", where+" "+part)
				r.Count("tokens of output documents", len(toks))
			}
			if len(o.Docs) == 0 {
				r.Fail("undecided: no document", where, "encoding writes no model part")
			}
			continue
		}
		if o.RunErr != nil || len(o.Decs) == 0 {
			r.Fail("undecided: decoding "+where, where, "%v", o.RunErr)
			continue
		}
		for _, d := range o.Decs {
			if !ai.IsNil(d.St.Resolve(d.Res)) {
				r.Fail("decoding fails: "+errShort(d.Res), where, "decoding what was encoded from a valid model returns %s", short(d.Res))
				continue
			}
			c := newComparer(t.St0, d.St)
			bad := 0
			c.diff = func(p, what string) {
				bad++
				r.Fail("not preserved: "+genericPath(p), where+" at "+p, "%s: %s", p, what)
			}
			core := coreRules(cfg.skip)
			c.rules = core
			if cfg.rules != nil {
				c.rules = func(c *comparer, path string, t types.Type, n, m ai.Val) bool {
					return cfg.rules(c, path, t, n, m) || core(c, path, t, n, m)
				}
			}
			c.floats = cfg.floats
			c.same("Model", mt, t.St0.LoadPtr(t.Model), d.St.LoadPtr(o.Decoded))
			r.Count("values compared", c.count)
			if bad == 0 {
				r.OK("on this path every field of the model read back equals the field written", where)
			}
		}
	}
	r.Count("abstract models", 1)
	if d := time.Since(t0); d > 20*time.Second {
		r.Count("slow models", 1)
	}
	return t
}

func errShort(v ai.Val) string {
	s := short(v)
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

// genericPath drops the indices of a path.
func genericPath(p string) string {
	var sb strings.Builder
	skip := false
	for _, r := range p {
		switch {
		case r == '[':
			skip = true
			sb.WriteString("[]")
		case r == ']':
			skip = false
		case !skip:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

// codecShapes lists the shapes to try: everything set, little set, each place
// varied, in both contexts.
func (r *Report) codecShapes(cfg *codecConfig) []*Shape {
	give, under := cfg.give, cfg.under
	var out []*Shape
	mt := r.W.Type("", "Model")
	for _, base := range []*Shape{codecShape(give), emptyShape(give)} {
		base := base
		if cfg.len != nil {
			l := base.Len
			base.Len = func(p string) int { return cfg.len(p, l(p)) }
		}
		e := r.W.Engine()
		b := r.W.NewBuilder(e.NewState(), base, "m")
		b.Build("Model", mt)
		base.Floats = true
		out = append(out, base)
		seen := map[string]bool{}
		structs := map[string][]string{}
		first := func(p string) bool {
			g := genericPath(p) + fmt.Sprint(minimalPath(p))
			if seen[g] {
				return false
			}
			seen[g] = true
			return true
		}
		for _, p := range b.Leafs {
			if i := strings.LastIndex(p, "."); i > 0 && under(p) {
				structs[p[:i]] = append(structs[p[:i]], p)
			}
			last := ""
			if strings.HasSuffix(p, "[2]") {
				last = "last"
			}
			if !under(p) || !first(p+last) {
				continue
			}
			p := p
			s := *base
			s.Floats = b.Floats[p]
			s.Name = base.Name + ", any " + p
			s.Leaf = func(q string) byte {
				if q == p {
					return 'u'
				}
				return base.Leaf(q)
			}
			out = append(out, &s)
		}
		for _, sp := range sortedKeys(structs) {
			ps := structs[sp]
			if !first(sp + " struct") {
				continue
			}
			in := map[string]bool{}
			for i, p := range ps {
				in[p] = i < 8
			}
			any := func(q string) byte {
				if in[q] {
					return 'u'
				}
				return base.Leaf(q)
			}
			floats := false
			for _, p := range ps {
				floats = floats || b.Floats[p]
			}
			if len(ps) > 1 {
				s := *base
				s.Floats = floats
				s.Name = base.Name + ", any fields of " + sp
				s.Leaf = any
				out = append(out, &s)
			}
			// and one number of an enclosing struct is zero, or not
			for up := sp; strings.Contains(up, "."); {
				up = up[:strings.LastIndex(up, ".")]
				for _, f := range structs[up] {
					if !b.Numeric[f] {
						continue
					}
					f := f
					s := *base
					s.Floats = floats && b.Floats[f]
					s.Name = base.Name + ", any fields of " + sp + ", opposite " + f
					s.Leaf = func(q string) byte {
						if q == f {
							return opposite(base.Leaf(q))
						}
						return any(q)
					}
					out = append(out, &s)
				}
			}
		}
		seen = map[string]bool{}
		for _, p := range b.Lists {
			if !under(p) || !first(p) || base.Len(p) == 0 {
				continue
			}
			for n := 0; n < 3; n++ {
				p, n := p, n
				s := *base
				s.Floats = false
				s.Name = fmt.Sprintf("%s, %d elements in %s", base.Name, n, p)
				s.Len = func(q string) int {
					if q == p {
						return n
					}
					return base.Len(q)
				}
				out = append(out, &s)
			}
		}
		for _, p := range sortedKeys(b.Enums) {
			if !under(p) || !first(p) {
				continue
			}
			for k := 0; k < b.Enums[p]; k++ {
				p, k := p, k
				s := *base
				s.Floats = false
				s.Name = fmt.Sprintf("%s, constant %d in %s", base.Name, k, p)
				s.Enum = func(q string, n int) int {
					if q == p {
						return k
					}
					return base.Enum(q, n)
				}
				out = append(out, &s)
			}
		}
		for _, p := range b.Mats {
			if !under(p) || !first(p+" matrix") {
				continue
			}
			for k := 0; k < 15; k++ {
				if k%4 == 3 {
					continue
				}
				p, k := p, k
				s := *base
				s.Name = fmt.Sprintf("%s, only cell %d of %s", base.Name, k, p)
				s.Cell = func(q string) int {
					if q == p {
						return k
					}
					return -1
				}
				out = append(out, &s)
			}
		}
		for k := 0; k < 6; k++ {
			k := k
			s := *base
			s.Floats = false
			s.Name = fmt.Sprintf("%s, constant %d everywhere", base.Name, k)
			s.Enum = func(q string, n int) int { return k % n }
			out = append(out, &s)
		}
		for _, p := range b.Ptrs {
			if !under(p) || strings.HasSuffix(p, "]") || !first(p) {
				continue
			}
			p := p
			s := *base
			s.Floats = false
			s.Name = base.Name + ", no " + p
			s.Nil = func(q string) bool { return q == p || base.Nil(q) }
			out = append(out, &s)
		}
	}
	return out
}

// codecConfig selects the content and the places of a round trip check.
type codecConfig struct {
	give  func(b *ModelBuilder, path string, t types.Type) (ai.Val, bool)
	under func(path string) bool               // the places to vary
	len   func(path string, n int) int         // overrides list lengths
	skip  func(path string, t types.Type) bool // places not compared
	// rules are tried before those of the core model.
	rules func(c *comparer, path string, t types.Type, n, m ai.Val) bool
	// floats restricts the check to numbers with decimals.
	floats bool
	// doc restricts the check to these defects of the output.
	doc map[string]bool
}

// codecCheck runs all shapes.
func (r *Report) codecCheck(cfg *codecConfig) {
	r.Rule("abstract interpretation of Encoder.Encode over abstract models (symbolic leaves), reading the abstract output as XML, then of Decoder.DecodeContext over that document; strconv format/parse pairs are inverse when base, bit size and precision agree; every field of the model read back must be the same symbol as the field written, on every path")
	shapes := r.codecShapes(cfg)
	if cfg.floats {
		var keep []*Shape
		for _, sh := range shapes {
			if sh.Floats {
				keep = append(keep, sh)
			}
		}
		shapes = keep
	}
	shapes = chosen(shapes)
	parallel(len(shapes), func(i int) { r.codecRun(shapes[i], cfg, nil) })
}

func checkC04(r *Report) {
	if cfg := r.coreConfig(); cfg != nil {
		r.codecCheck(cfg)
	}
}

func (r *Report) coreConfig() *codecConfig {
	base := r.W.Type("", "BaseMaterials")
	child := r.W.Type("", "ChildModel")
	if base == nil || child == nil {
		r.Fail("undecided: types", "core", "BaseMaterials or ChildModel not found")
		return nil
	}
	give := func(b *ModelBuilder, p string, t types.Type) (ai.Val, bool) {
		switch {
		case lastComp(p) == ".Assets":
			n := []types.Type{base, base, base}
			if !strings.HasPrefix(p, "Model.Resources") {
				n = n[:1]
			}
			return giveList(b, p, t, n), true
		case p == "Model.Childs":
			mp := t.Underlying().(*types.Map)
			c := b.New("Model.Childs{c}", b.Build("Model.Childs{c}", child))
			m := &ai.Map{T: mp, Keys: []ai.Val{ai.Str("/3D/child.model")}, Vals: []ai.Val{c}, Exact: true}
			return b.New("Model.Childs", m), true
		}
		return nil, false
	}
	return &codecConfig{give: give, under: func(p string) bool { return true }}
}

// chosen restricts the shapes while debugging.
func chosen(shapes []*Shape) []*Shape {
	if n, err := strconv.Atoi(os.Getenv("SHAPES")); err == nil && n < len(shapes) {
		fmt.Println(len(shapes), "shapes")
		shapes = shapes[:n]
	}
	if only := os.Getenv("ONLY"); only != "" {
		var keep []*Shape
		for _, sh := range shapes {
			if strings.Contains(sh.Name, only) {
				keep = append(keep, sh)
			}
		}
		shapes = keep
	}
	return shapes
}
