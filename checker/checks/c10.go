package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/ai"
)

// nsLoose is not declared by the models.
const nsLoose = "http://example.org/undeclared"

// unknowns builds content of namespaces nobody registered.
type unknowns struct {
	attrs, tokens, asset      types.Type // spec.UnknownAttrs, spec.UnknownTokens, UnknownAsset
	attr, start, end, charDat types.Type // of encoding/xml
}

func (r *Report) unknowns() *unknowns {
	u := &unknowns{attrs: r.W.Type("spec", "UnknownAttrs"), tokens: r.W.Type("spec", "UnknownTokens"), asset: r.W.Type("", "UnknownAsset")}
	if u.attrs == nil || u.tokens == nil || u.asset == nil {
		r.Fail("undecided: types", "spec", "UnknownAttrs, UnknownTokens or UnknownAsset not found")
		return nil
	}
	i := fieldIndex(u.attrs, "Attr")
	if i < 0 {
		r.Fail("undecided: types", "spec", "UnknownAttrs has no field Attr")
		return nil
	}
	u.attr = u.attrs.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice).Elem()
	sc := u.attr.(*types.Named).Obj().Pkg().Scope()
	u.start, u.end, u.charDat = sc.Lookup("StartElement").Type(), sc.Lookup("EndElement").Type(), sc.Lookup("CharData").Type()
	return u
}

func (u *unknowns) name(space, local string) ai.Val {
	nt := u.attr.Underlying().(*types.Struct).Field(0).Type()
	return nameVal(nt, space, local)
}

func (u *unknowns) attribute(space, local string, v ai.Val) ai.Val {
	return &ai.Agg{T: u.attr, Elems: []ai.Val{u.name(space, local), v}}
}

// group is a group of attributes of one namespace.
func (u *unknowns) group(b *ModelBuilder, p, ns string) ai.Val {
	st := u.attrs.Underlying().(*types.Struct)
	a := &ai.Agg{T: u.attrs, Elems: make([]ai.Val, st.NumFields())}
	for i := range a.Elems {
		f := st.Field(i)
		switch f.Name() {
		case "Space":
			a.Elems[i] = ai.Str(ns)
		case "Attr":
			a.Elems[i] = b.Slice(p+".Attr", f.Type(), []ai.Val{
				u.attribute(ns, "a0", b.SymLeaf(b.Pfx+p+".a0", types.Typ[types.String], false)),
				u.attribute(ns, "id", b.SymLeaf(b.Pfx+p+".a1", types.Typ[types.String], false)),
			})
		default:
			a.Elems[i] = ai.Zero(f.Type())
		}
	}
	return &ai.Iface{Dyn: types.NewPointer(u.attrs), V: b.New(p, a)}
}

// content is a list of tokens of an element.
func (u *unknowns) content(b *ModelBuilder, p, ns string, kind int) ai.Val {
	tok := u.tokens.Underlying().(*types.Struct).Field(0).Type()
	iface := func(t types.Type, v ai.Val) ai.Val { return &ai.Iface{Dyn: t, V: v} }
	n := 0
	str := func() ai.Val {
		n++
		return b.SymLeaf(fmt.Sprintf("%s%s.v%d", b.Pfx, p, n), types.Typ[types.String], false)
	}
	start := func(space, local string, attrs ...ai.Val) ai.Val {
		n++
		at := u.start.Underlying().(*types.Struct).Field(1).Type()
		return iface(u.start, &ai.Agg{T: u.start, Elems: []ai.Val{u.name(space, local), b.Slice(fmt.Sprintf("%s.s%d", p, n), at, attrs)}})
	}
	end := func(space, local string) ai.Val {
		return iface(u.end, &ai.Agg{T: u.end, Elems: []ai.Val{u.name(space, local)}})
	}
	text := func() ai.Val {
		n++
		return iface(u.charDat, &ai.Bytes{S: fmt.Sprintf(" <text %d> & ", n)})
	}
	var ts []ai.Val
	switch kind {
	case 0: // text, same-named children, children of other namespaces
		ts = []ai.Val{
			start(ns, "item", u.attribute(ns, "id", str()), u.attribute("", "id", ai.Str("7")), u.attribute(nsFresh2, "x", str())),
			text(),
			start(ns, "item", u.attribute("", "k", str()), u.attribute(ns, "k", str()), u.attribute(nsFresh2, "x", str()), u.attribute(nsXML, "lang", str())),
			text(), text(),
			start(nsCore, "object", u.attribute("", "id", str()), u.attribute(nsProd, "UUID", str()), u.attribute(ns, "id", str())),
			end(nsCore, "object"),
			end(ns, "item"),
			text(),
			start(nsFresh2, "item"), text(), end(nsFresh2, "item"),
			end(ns, "item"),
		}
	case 1: // empty
		ts = []ai.Val{start(ns, "model"), end(ns, "model")}
	case 2: // a namespace the model does not declare, declared inside
		ts = []ai.Val{
			start(nsLoose, "resources", u.attribute("xmlns", "w", ai.Str(nsLoose)), u.attribute(nsLoose, "k", str())),
			start(nsLoose, "resources"), text(), end(nsLoose, "resources"),
			text(),
			end(nsLoose, "resources"),
		}
	}
	return &ai.Agg{T: u.tokens, Elems: []ai.Val{b.Slice(p+".Token", tok, ts)}}
}

// flat is the canonical form of unknown content: nil when v is not unknown
// content.
func (u *unknowns) flat(c *comparer, st *ai.State, v ai.Val) (kind string, items []string, ok bool) {
	i, isI := c.m.Resolve(v).(*ai.Iface)
	if !isI {
		return "", nil, false
	}
	t := elemType(i.Dyn)
	in := deref1(st, i)
	get := func(v ai.Val, f string) ai.Val {
		x := GetPath(st, v, "."+f)
		if x == nil {
			return ai.Atom("missing "+f, types.Typ[types.String])
		}
		return x
	}
	switch {
	case types.Identical(t, u.attrs):
		for _, a := range list(st, c, get(in, "Attr")) {
			items = append(items, u.attrKey(c, st, a))
		}
		return "attrs " + c.leaf(get(in, "Space")), items, true
	case types.Identical(t, u.asset):
		in = get(in, "UnknownTokens")
		fallthrough
	case types.Identical(t, u.tokens):
		text := ""
		for _, k := range list(st, c, get(in, "Token")) {
			ki, ok := c.m.Resolve(k).(*ai.Iface)
			if !ok {
				items = append(items, "? "+short(k))
				continue
			}
			if types.Identical(ki.Dyn, u.charDat) {
				// adjacent pieces are one text
				if s, ok := ai.ConstStr(c.m.Resolve(ki.V)); ok {
					text += s
				} else if s := c.leaf(ki.V); s != "" {
					text += "+" + s
				}
				continue
			}
			if text != "" {
				items = append(items, "text "+text)
				text = ""
			}
			switch {
			case types.Identical(ki.Dyn, u.start):
				s := "start " + u.nameKey(c, st, ki.V)
				for _, a := range list(st, c, get(ki.V, "Attr")) {
					if k := u.attrKey(c, st, a); k != "" {
						s += " " + k
					}
				}
				items = append(items, s)
			case types.Identical(ki.Dyn, u.end):
				items = append(items, "end "+u.nameKey(c, st, ki.V))
			default:
				items = append(items, "? "+ki.Dyn.String())
			}
		}
		if text != "" {
			items = append(items, "text "+text)
		}
		return "tokens", items, true
	}
	return "", nil, false
}

func list(st *ai.State, c *comparer, v ai.Val) []ai.Val {
	v = c.m.Resolve(v)
	if v == nil || ai.IsNil(v) {
		return nil
	}
	if a, ok := v.(*ai.Agg); ok {
		return a.Elems
	}
	el, ok := st.SliceElems(v)
	if !ok {
		return []ai.Val{ai.Atom("a list that is not determined: "+short(v), types.Typ[types.String])}
	}
	return el
}

func (u *unknowns) nameKey(c *comparer, st *ai.State, v ai.Val) string {
	f := func(p string) string {
		x := GetPath(st, v, p)
		if x == nil {
			return "?"
		}
		return strings.TrimPrefix(c.leaf(x), "s:")
	}
	return "{" + f(".Name.Space") + "}" + f(".Name.Local")
}

// attrKey is "" for declarations of prefixes.
func (u *unknowns) attrKey(c *comparer, st *ai.State, v ai.Val) string {
	n := u.nameKey(c, st, v)
	if strings.HasPrefix(n, "{xmlns}") || n == "{}xmlns" {
		return ""
	}
	x := GetPath(st, v, ".Value")
	if x == nil {
		return n + "=?"
	}
	return n + "=" + c.leaf(x)
}

// lists compares two lists of groups, elements or resources.
func (u *unknowns) sameList(c *comparer, path string, n, m ai.Val) {
	type entry struct {
		kind  string
		items []string
		v     ai.Val
	}
	read := func(st *ai.State, v ai.Val) []entry {
		var out []entry
		for _, x := range list(st, c, v) {
			k, it, ok := u.flat(c, st, x)
			if ok && k == "attrs s:xmlns" {
				continue // declarations of prefixes
			}
			if !ok {
				k = "other"
				if i, ok := c.m.Resolve(x).(*ai.Iface); ok {
					k = "other " + elemType(i.Dyn).String()
				}
			}
			out = append(out, entry{k, it, x})
		}
		return out
	}
	a, b := read(c.n, n), read(c.m, m)
	isAttr := lastComp(path) == ".AnyAttr"
	if isAttr {
		// groups are sets
		merge := func(in []entry) (out []entry) {
			at := map[string]int{}
			for _, e := range in {
				if i, ok := at[e.kind]; ok && strings.HasPrefix(e.kind, "attrs") {
					out[i].items = append(append([]string(nil), out[i].items...), e.items...)
					continue
				}
				at[e.kind] = len(out)
				out = append(out, e)
			}
			return
		}
		a, b = merge(a), merge(b)
	}
	show := func(es []entry) string {
		var s []string
		for _, e := range es {
			s = append(s, e.kind)
		}
		return strings.Join(s, ", ")
	}
	c.count++
	if len(a) != len(b) {
		c.differ(path, "%d entries written (%s), %d read back (%s)", len(a), show(a), len(b), show(b))
		return
	}
	for i, e := range a {
		f := b[i]
		if isAttr {
			found := false
			for _, g := range b {
				if g.kind == e.kind {
					f, found = g, true
				}
			}
			if !found {
				c.differ(path, "group %s is lost", e.kind)
				continue
			}
		}
		if e.kind != f.kind {
			c.differ(path, "entry %d written as %s, read back as %s", i, e.kind, f.kind)
			continue
		}
		if strings.HasPrefix(e.kind, "other") {
			it, _ := c.m.Resolve(e.v).(*ai.Iface)
			if it == nil {
				c.differ(path, "undecided entry %d", i)
				continue
			}
			c.same(fmt.Sprintf("%s[%d]", path, i), elemType(it.Dyn), deref1(c.n, c.m.Resolve(e.v)), deref1(c.m, c.m.Resolve(f.v)))
			continue
		}
		c.count += len(e.items)
		if d := firstDiff(e.items, f.items); d != "" {
			c.differ(path, "entry %d (%s): %s", i, e.kind, d)
		}
	}
}

func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("item %d written %q, read back %q", i, x, y)
		}
	}
	return ""
}

// extensionPoint tells whether a place holds extension content.
func extensionPoint(path string) bool {
	l := lastComp(path)
	return l == ".AnyAttr" || l == ".Any" || l == ".Assets"
}

// c10Shapes are models with unknown content in every extension point.
func (r *Report) c10Shapes(u *unknowns) ([]*Shape, *codecConfig) {
	var exts []*extension
	for _, e := range []struct{ rel, ns string }{{"materials", nsMat}, {"beamlattice", nsBeam}, {"slices", nsSlice}, {"production", nsProd}} {
		x, err := r.W.extension(e.rel, e.ns)
		if err != nil {
			r.Fail("undecided: extension", e.rel, "%v", err)
			return nil, nil
		}
		exts = append(exts, x)
	}
	child := r.W.Type("", "ChildModel")
	base := r.W.Type("", "BaseMaterials")
	// variants: what surrounds the unknown content
	const (
		alone = iota
		mixed
		first
		several
		loose
	)
	names := []string{"alone", "between content of registered extensions", "before content of registered extensions", "several in a row", "in a namespace that the model does not declare"}
	shape := func(variant int, under string, empty bool) *Shape {
		give := func(b *ModelBuilder, p string, t types.Type) (ai.Val, bool) {
			if strings.Contains(p, "<") {
				if b.Owner() == "UnknownAsset" {
					return nil, false
				}
				for _, x := range exts {
					if v, ok := x.give(r)(b, p, t); ok {
						return v, true
					}
				}
				return nil, false
			}
			here := under == "" || genericPath(p) == genericPath(under)
			switch lastComp(p) {
			case ".Childs":
				c := b.New("Model.Childs{c}", b.Build("Model.Childs{c}", child))
				m := &ai.Map{T: t.Underlying().(*types.Map), Keys: []ai.Val{ai.Str("/3D/child.model")}, Vals: []ai.Val{c}, Exact: true}
				return b.New("Model.Childs", m), true
			case ".AnyAttr":
				b.Lists = append(b.Lists, p)
				var reg []ai.Val
				if variant == mixed || variant == first {
					for _, x := range exts {
						if et := x.groups[elementOf[b.Owner()]]; et != nil {
							ep := fmt.Sprintf("%s<%s>", p, x.pkg)
							reg = append(reg, &ai.Iface{Dyn: types.NewPointer(et), V: b.New(ep, b.Build(ep, et))})
						}
					}
				}
				if !here {
					return b.Slice(p, t, reg), true
				}
				g1, g2 := u.group(b, p+"<u1>", nsFresh), u.group(b, p+"<u2>", nsFresh2)
				switch variant {
				case mixed:
					return b.Slice(p, t, append(append([]ai.Val{g1}, reg...), g2)), true
				case first:
					return b.Slice(p, t, append([]ai.Val{g1}, reg...)), true
				case several:
					return b.Slice(p, t, []ai.Val{g1, g2}), true
				case loose:
					return b.Slice(p, t, []ai.Val{u.group(b, p+"<u3>", nsLoose)}), true
				}
				return b.Slice(p, t, []ai.Val{g1}), true
			case ".Any", ".Assets":
				b.Lists = append(b.Lists, p)
				asset := lastComp(p) == ".Assets"
				wrap := func(k string, ns string, kind int) ai.Val {
					ep := p + "<" + k + ">"
					v := u.content(b, ep, ns, kind)
					if !asset {
						return &ai.Iface{Dyn: types.NewPointer(u.tokens), V: b.New(ep, v)}
					}
					z := ai.Zero(u.asset).(*ai.Agg)
					a := &ai.Agg{T: z.T, Elems: append([]ai.Val(nil), z.Elems...)}
					a.Elems[fieldIndex(u.asset, "UnknownTokens")] = v
					return &ai.Iface{Dyn: types.NewPointer(u.asset), V: b.New(ep, a)}
				}
				var reg []ai.Val
				if variant == mixed || variant == first {
					add := func(pkg string, et types.Type) {
						_, n := namedType(et)
						ep := fmt.Sprintf("%s<%s>%s", p, pkg, n)
						reg = append(reg, &ai.Iface{Dyn: types.NewPointer(et), V: b.New(ep, b.Build(ep, et))})
					}
					if asset {
						add("core", base)
					}
					for _, x := range exts {
						if asset && len(x.assets) > 0 {
							add(x.pkg, x.assets[0])
						}
						if !asset && strings.HasSuffix(p, ".Mesh.Any") {
							for _, et := range x.elems {
								add(x.pkg, et)
							}
						}
					}
				}
				if !here {
					return b.Slice(p, t, reg), true
				}
				switch variant {
				case mixed:
					return b.Slice(p, t, append(append([]ai.Val{wrap("u1", nsFresh, 0)}, reg...), wrap("u2", nsFresh2, 0))), true
				case first:
					return b.Slice(p, t, append([]ai.Val{wrap("u1", nsFresh, 1)}, reg...)), true
				case several:
					return b.Slice(p, t, []ai.Val{wrap("u1", nsFresh, 1), wrap("u2", nsFresh2, 0), wrap("u3", nsFresh, 0), wrap("u4", nsFresh2, 1)}), true
				case loose:
					return b.Slice(p, t, []ai.Val{wrap("u1", nsLoose, 2), wrap("u2", nsFresh, 0)}), true
				}
				return b.Slice(p, t, []ai.Val{wrap("u1", nsFresh, 0)}), true
			}
			return nil, false
		}
		var s *Shape
		if empty {
			s = emptyShape(give)
		} else {
			s = codecShape(give)
		}
		l := s.Len
		s.Len = func(p string) int {
			if n := l(p); n < 2 || !empty && !strings.Contains(p, "[") {
				return n
			}
			return 2
		}
		where := "everywhere"
		if under != "" {
			where = "at " + under
		}
		s.Name = fmt.Sprintf("%s, unknown content %s, %s", s.Name, where, names[variant])
		return s
	}
	var shapes []*Shape
	for v := range names {
		for _, empty := range []bool{false, true} {
			s := shape(v, "", empty)
			shapes = append(shapes, s)
			b := r.W.NewBuilder(r.W.Engine().NewState(), s, "m")
			b.Build("Model", r.W.Type("", "Model"))
			seen := map[string]bool{}
			for _, p := range b.Lists {
				g := genericPath(p)
				if !extensionPoint(p) || strings.Contains(p, "<") || seen[g] {
					continue
				}
				seen[g] = true
				shapes = append(shapes, shape(v, p, empty))
			}
		}
	}
	r.Count("extension points × variants", len(shapes))
	cfg := &codecConfig{rules: func(c *comparer, path string, t types.Type, n, m ai.Val) bool {
		if extensionPoint(path) {
			u.sameList(c, path, n, m)
			return true
		}
		if path == "Model.Extensions" {
			// a prefix the encoder had to declare is one more extension
			a := list(c.n, c, n)
			var b []ai.Val
			for _, x := range list(c.m, c, m) {
				if ns, _ := ai.ConstStr(GetPath(c.m, x, ".Namespace")); ns != nsLoose {
					b = append(b, x)
				}
			}
			if len(a) == len(b) {
				et := t.Underlying().(*types.Slice).Elem()
				for i := range a {
					c.same(fmt.Sprintf("%s[%d]", path, i), et, a[i], b[i])
				}
				return true
			}
		}
		return false
	}}
	return shapes, cfg
}

// c10RoundTrip writes them and reads them back.
func (r *Report) c10RoundTrip(u *unknowns) {
	shapes, cfg := r.c10Shapes(u)
	shapes = chosen(shapes)
	parallel(len(shapes), func(i int) { r.codecRun(shapes[i], cfg, nil) })
}

func checkC10(r *Report) {
	u := r.unknowns()
	if u == nil {
		return
	}
	r.c10RoundTrip(u)
	r.c10Decode(u)
}

// docGen writes documents of constants, one per value.
type docGen struct {
	n      int
	target []*ElemSpec // chain of the element that gets unknown content
	attrs  bool        // unknown attributes
	place  int         // unknown elements before the i-th child, -1: none, -2: at all places
	mark   string      // the text that identifies the target
	placed []int       // places where elements were inserted
	local  string      // local name of the inserted elements, "": another name
}

func (g *docGen) val(a *AttrSpec) ai.Val {
	g.n++
	switch a.Kind {
	case "str":
		return BytesVal(fmt.Sprintf("s%d", 1000+g.n))
	case "u32":
		return BytesVal(fmt.Sprint(1000 + g.n))
	case "f32":
		return BytesVal(fmt.Sprint(1000 + g.n))
	}
	return BytesVal(goodText(a))
}

// attributes of a namespace nobody registered, to be put before and after an
// attribute.
func unknownAttrsOf(l string) []Attr {
	return []Attr{
		{nsFresh, l, BytesVal("<" + l + "&")},
		{nsFresh2, l, BytesVal("other " + l)},
		{nsFresh, "b", BytesVal("")},
	}
}

func (g *docGen) element(e *ElemSpec, depth int, bare bool) []Tok {
	isTarget := !bare && depth == len(g.target)-1 && g.target[depth] == e
	var attrs []Attr
	first := true
	for i := range e.Attrs {
		a := &e.Attrs[i]
		if isTarget && g.attrs && i == 0 {
			attrs = append(attrs, Attr{nsFresh, a.Local, BytesVal("<first>")})
		}
		v := g.val(a)
		if isTarget && first && (a.Kind == "u32" || a.Kind == "str" || a.Kind == "f32") {
			g.mark, _ = ai.ConstStr(v)
			first = false
		}
		attrs = append(attrs, Attr{a.Space, a.Local, v})
		if isTarget && g.attrs && i == 0 {
			attrs = append(attrs, unknownAttrsOf(a.Local)[1:]...)
		}
	}
	if isTarget && g.attrs && len(e.Attrs) == 0 {
		attrs = append(attrs, unknownAttrsOf("id")...)
	}
	if bare {
		return Elem(e.Space, e.Local, attrs)
	}
	var kids [][]Tok
	pos := 0
	unknown := func() {
		if isTarget && (g.place == pos || g.place == -2) {
			kids = append(kids, g.unknown(e, pos))
			g.placed = append(g.placed, pos)
		}
		pos++
	}
	for _, c := range e.Children {
		onPath := depth+1 < len(g.target) && g.target[depth+1] == c && g.target[depth] == e
		if onPath && repeatable[c.Local] {
			kids = append(kids, g.element(c, depth+1, true))
			unknown()
			kids = append(kids, g.element(c, depth+1, false))
			unknown()
			kids = append(kids, g.element(c, depth+1, true))
			continue
		}
		unknown()
		d := depth + 1
		if !onPath {
			d = 1 << 20
		}
		kids = append(kids, g.element(c, d, false))
	}
	unknown()
	if e.Text {
		g.n++
		kids = append(kids, Text(BytesVal(fmt.Sprintf("t%d", 1000+g.n))))
	}
	return Elem(e.Space, e.Local, attrs, kids...)
}

// unknown is an element of another namespace with content that looks like
// known content.
func (g *docGen) unknown(in *ElemSpec, pos int) []Tok {
	l := g.local
	if l == "" {
		l = "thing"
	}
	id := []Attr{{"", "id", BytesVal(fmt.Sprint(77 + pos))}, {nsFresh, "id", BytesVal("x & y")}, {nsFresh2, "z", BytesVal("")}}
	var inner [][]Tok
	inner = append(inner,
		Text(BytesVal(fmt.Sprintf(" text <%d> ", pos))),
		Elem(nsFresh, l, []Attr{{"", "index", BytesVal("v")}, {nsFresh, "index", BytesVal("w")}, {nsFresh2, l, BytesVal("x")}, {nsCore, "id", BytesVal("y")}}, Text(BytesVal("inner")), Elem(nsFresh, l, nil)))
	for _, c := range in.Children {
		var as []Attr
		for i := range c.Attrs {
			as = append(as, Attr{c.Attrs[i].Space, c.Attrs[i].Local, BytesVal(goodText(&c.Attrs[i]))})
		}
		inner = append(inner, Elem(c.Space, c.Local, as))
	}
	inner = append(inner,
		Elem(in.Space, in.Local, []Attr{{nsProd, "UUID", BytesVal("not one")}, {"", "id", BytesVal("5")}, {nsFresh, "id", BytesVal("6")}}, Elem(nsFresh2, in.Local, nil, Text(BytesVal("deep")))),
		Text(BytesVal("after")))
	return Elem(nsFresh, l, id, inner...)
}

// repeatable elements may occur several times under one parent.
var repeatable = map[string]bool{}

func init() {
	for _, n := range strings.Fields("metadata object vertex triangle component item basematerials base texture2d texture2dgroup tex2coord colorgroup color compositematerials composite multiproperties multi slicestack slice polygon segment sliceref beam beamset ref") {
		repeatable[n] = true
	}
}

// extra is one unknown thing found in a decoded model.
type extra struct {
	path, kind string
	owner      string
	items      []string
	index, of  int
	marked     bool
}

// c10Decode reads documents with and without unknown content.
func (r *Report) c10Decode(u *unknowns) {
	mt := r.W.Type("", "Model")
	type job struct {
		name string
		gen  docGen
	}
	var jobs []job
	for _, p := range Schema().Paths() {
		n := pathName(p)
		jobs = append(jobs, job{"attributes on " + n, docGen{target: p, attrs: true, place: -1}})
		last := p[len(p)-1]
		pl := len(last.Children)
		for i := 0; i <= pl; i++ {
			if !r.Thorough() && i > 1 && i < pl-1 {
				continue
			}
			jobs = append(jobs, job{fmt.Sprintf("an element at position %d of %s", i, n), docGen{target: p, place: i}})
		}
		jobs = append(jobs, job{"same-named elements everywhere in " + n, docGen{target: p, place: -2, attrs: true, local: last.Local}})
		if pl > 0 {
			jobs = append(jobs, job{"elements named as a child everywhere in " + n, docGen{target: p, place: -2, local: last.Children[0].Local}})
		}
	}
	run := func(g docGen, clean bool) (*Reader, []ai.Out, docGen, error) {
		if clean {
			g.attrs, g.place = false, -1
		}
		doc := g.element(Schema(), 0, false)
		rd := r.W.NewReader(doc)
		outs, err := rd.Run()
		return rd, outs, g, err
	}
	r.Count("documents with unknown content", len(jobs))
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		where := "a document with unknown " + j.name
		r0, o0, _, err0 := run(j.gen, true)
		r1, o1, g, err1 := run(j.gen, false)
		r.engineFns(r1.E)
		if err0 != nil || err1 != nil || len(o0) == 0 || len(o1) == 0 {
			r.Fail("undecided: "+where, where, "%v %v", err0, err1)
			return
		}
		for k := range r1.Panics {
			r.Fail("panic: "+k, where, "%s", k)
		}
		r.limits(r1.E, where)
		if !ai.IsNil(o0[0].St.Resolve(o0[0].Res)) || len(o0) != 1 {
			r.Fail("undecided: "+where, where, "the document without unknown content is not accepted: %s", short(o0[0].Res))
			return
		}
		bad := false
		for _, o := range o1 {
			if !ai.IsNil(o.St.Resolve(o.Res)) {
				r.Fail("decoding fails: "+j.name, where, "decoding returns %s", short(o.Res))
				bad = true
				continue
			}
			n := o0[0].St
			c := newComparer(n, o.St)
			c.diff = func(p, what string) {
				bad = true
				r.Fail("changed by unknown content: "+genericPath(p), where, "%s: %s", p, strings.NewReplacer("written", "without it", "read back", "with it").Replace(what))
			}
			var found []extra
			c.rules = func(c *comparer, path string, t types.Type, nv, mv ai.Val) bool {
				if !extensionPoint(path) {
					return false
				}
				a := list(n, c, nv)
				var b []ai.Val
				all := list(o.St, c, mv)
				for i, x := range all {
					if k, items, ok := u.flat(c, o.St, x); ok {
						if k != "attrs s:xmlns" {
							found = append(found, extra{path: path, kind: k, items: items, index: i, of: len(all)})
						}
						continue
					}
					b = append(b, x)
				}
				if len(a) != len(b) {
					c.differ(path, "%d entries written, %d read back", len(a), len(b))
					return true
				}
				for i := range a {
					x, _ := c.m.Resolve(a[i]).(*ai.Iface)
					y, _ := c.m.Resolve(b[i]).(*ai.Iface)
					if x == nil || y == nil || !types.Identical(x.Dyn, y.Dyn) {
						c.differ(fmt.Sprintf("%s[%d]", path, i), "written %s, read back %s", short(a[i]), short(b[i]))
						continue
					}
					c.same(fmt.Sprintf("%s[%d]", path, i), elemType(x.Dyn), deref1(n, x), deref1(o.St, y))
				}
				return true
			}
			c.same("Model", mt, n.LoadPtr(r0.Model), o.St.LoadPtr(r1.Model))
			r.Count("values compared", c.count)
			for _, w := range r.c10Expected(u, c, o.St, g, o.St.LoadPtr(r1.Model), found) {
				bad = true
				r.Fail("unknown content: "+j.name, where, "%s", w)
			}
		}
		if !bad {
			r.OK("the document decodes to the same model plus the unknown content", where)
		}
	})
}

// flatToks is the canonical form of document content.
func (u *unknowns) flatToks(toks []Tok) []string {
	var out []string
	text := ""
	flush := func() {
		if strings.TrimSpace(text) != "" {
			out = append(out, "text "+text)
		}
		text = ""
	}
	key := func(s, l string) string { return "{" + s + "}" + l }
	for _, t := range toks {
		switch t.Kind {
		case 'c':
			s, _ := ai.ConstStr(t.Text)
			text += s
		case 's':
			flush()
			s := "start " + key(t.Space, t.Local)
			for _, a := range t.Attrs {
				v, _ := ai.ConstStr(a.Val)
				s += " " + key(a.Space, a.Local) + "=s:" + v
			}
			out = append(out, s)
		case 'e':
			flush()
			out = append(out, "end "+key(t.Space, t.Local))
		}
	}
	flush()
	return out
}

// c10Expected compares the unknown content found in a model with the content
// of the document.
func (r *Report) c10Expected(u *unknowns, c *comparer, st *ai.State, g docGen, model ai.Val, found []extra) (bad []string) {
	target := g.target[len(g.target)-1]
	// the struct that the target is decoded to, when it has extension points
	owner := ""
	for t, l := range elementOf {
		if l == target.Local && target.Space == nsCore {
			owner = t
		}
	}
	has := func(f string) bool {
		t := r.W.Type("", owner)
		return owner != "" && t != nil && fieldIndex(t, f) >= 0
	}
	marked := func(path string) bool {
		if g.mark == "" {
			return true
		}
		ok := false
		Walk(st, GetPath(st, model, strings.TrimPrefix(path, "Model")), func(_ string, v ai.Val) bool {
			switch x := v.(type) {
			case *ai.Const:
				if x.V != nil && (strings.Trim(x.V.ExactString(), "\"") == g.mark) {
					ok = true
				}
			}
			return !ok
		})
		return ok
	}
	var groups, elems []extra
	for _, f := range found {
		if strings.HasPrefix(f.kind, "attrs") {
			groups = append(groups, f)
		} else {
			elems = append(elems, f)
		}
	}
	// attributes
	if g.attrs && has("AnyAttr") {
		want := map[string][]string{}
		doc := (&docGen{target: g.target, attrs: true, place: -1}).element(Schema(), 0, false)
		for _, t := range doc {
			for _, a := range t.Attrs {
				if a.Space == nsFresh || a.Space == nsFresh2 {
					v, _ := ai.ConstStr(a.Val)
					k := "attrs s:" + a.Space
					want[k] = append(want[k], "{"+a.Space+"}"+a.Local+"=s:"+v)
				}
			}
		}
		for k, w := range want {
			var f *extra
			for i := range groups {
				if groups[i].kind == k {
					if f != nil {
						bad = append(bad, "attributes of one namespace are in several groups")
					}
					f = &groups[i]
				}
			}
			if f == nil {
				bad = append(bad, fmt.Sprintf("the attributes of %s are lost", k))
				continue
			}
			if d := firstDiff(w, f.items); d != "" {
				bad = append(bad, fmt.Sprintf("attributes of %s: %s", k, d))
			}
			if !marked(strings.TrimSuffix(f.path, ".AnyAttr")) {
				bad = append(bad, fmt.Sprintf("the attributes are kept at %s, which is not the element they are on", f.path))
			}
		}
		if len(groups) > len(want) {
			bad = append(bad, "attributes are kept more than once")
		}
	} else if len(groups) > 0 && !g.attrs {
		bad = append(bad, fmt.Sprintf("attributes appear at %s that no element carries", groups[0].path))
	}
	// elements
	point := ""
	for _, f := range []string{"Any", "Assets"} {
		if has(f) {
			point = f
		}
	}
	if len(g.placed) > 0 && point != "" {
		if len(elems) != len(g.placed) {
			return append(bad, fmt.Sprintf("%d unknown elements, %d are kept", len(g.placed), len(elems)))
		}
		for i, f := range elems {
			if d := firstDiff(u.flatToks(g.unknown(target, g.placed[i])), f.items); d != "" {
				bad = append(bad, fmt.Sprintf("element at position %d: %s", g.placed[i], d))
			}
			if lastComp(f.path) != "."+point || !marked(strings.TrimSuffix(f.path, "."+point)) {
				bad = append(bad, fmt.Sprintf("the element is kept at %s, which is not where it occurs", f.path))
			}
			if i == 0 && g.placed[0] == 0 && f.index != 0 {
				bad = append(bad, fmt.Sprintf("the first element is kept at index %d of %s", f.index, f.path))
			}
			if i == len(elems)-1 && g.placed[i] == len(target.Children) && f.index != f.of-1 {
				bad = append(bad, fmt.Sprintf("the last element is kept at index %d of %d of %s", f.index, f.of, f.path))
			}
		}
	} else if len(elems) > 0 && len(g.placed) == 0 {
		bad = append(bad, fmt.Sprintf("elements appear at %s that the document does not have there", elems[0].path))
	}
	return bad
}
