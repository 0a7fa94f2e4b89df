package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// enumUse is an attribute that carries an enumeration.
type enumUse struct {
	rel, typ string
	path     string // schema path
	attr     string
}

var enumUses = []enumUse{
	{"", "Units", "model", "unit"},
	{"", "ObjectType", "model/resources/object", "type"},
	{"materials", "Texture2DType", "model/resources/texture2d", "contenttype"},
	{"materials", "TileStyle", "model/resources/texture2d", "tilestyleu"},
	{"materials", "TileStyle", "model/resources/texture2d", "tilestylev"},
	{"materials", "TextureFilter", "model/resources/texture2d", "filter"},
	{"materials", "BlendMethod", "model/resources/multiproperties", "blendmethods"},
	{"beamlattice", "ClipMode", "model/resources/object/mesh/beamlattice", "clippingmode"},
	{"beamlattice", "CapMode", "model/resources/object/mesh/beamlattice", "cap"},
	{"beamlattice", "CapMode", "model/resources/object/mesh/beamlattice/beams/beam", "cap1"},
	{"beamlattice", "CapMode", "model/resources/object/mesh/beamlattice/beams/beam", "cap2"},
	{"slices", "MeshResolution", "model/resources/object", "meshresolution"},
}

func checkC09(r *Report) {
	r.Rule("constant propagation through String() and through the reader: each named constant has a distinct non-empty text and decoding the attribute with that text stores that constant; any text different from all of them (a symbolic text, and every other string constant of the package) makes decoding report the attribute")
	// every enumeration (a named integer type with a String method) must be in the table
	have := map[string]bool{}
	for _, u := range enumUses {
		have[u.rel+"."+u.typ] = true
	}
	for _, rel := range []string{"", "materials", "beamlattice", "slices", "production", "spec"} {
		p := r.W.P.Pkg(rel)
		if p == nil {
			continue
		}
		for n, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok || !t.Object().Exported() {
				continue
			}
			b, ok := t.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 || r.W.Method(rel, n, "String") == nil {
				continue
			}
			if !have[rel+"."+n] {
				r.Fail("undecided: enumeration "+rel+"."+n, n, "an enumeration with a text form that the attribute table does not list")
			}
		}
	}
	texts := map[string][]string{} // type -> text of each constant
	consts := map[string][]constant.Value{}
	for _, u := range enumUses {
		id := u.rel + "." + u.typ
		if _, done := texts[id]; done {
			continue
		}
		t := r.W.Type(u.rel, u.typ)
		str := r.W.Method(u.rel, u.typ, "String")
		if t == nil || str == nil {
			r.Fail("undecided: "+id, id, "enumeration or its String method not found")
			continue
		}
		p := r.W.P.Pkg(u.rel)
		var names []string
		for n, m := range p.Members {
			if c, ok := m.(*ssa.NamedConst); ok && types.Identical(c.Type(), t) {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		texts[id] = nil
		seen := map[string]string{}
		for _, n := range names {
			v := p.Const(n).Value.Value
			e := r.W.Engine()
			st := e.NewState()
			var recv ai.Val = &ai.Const{T: t, V: v}
			if _, isPtr := str.Params[0].Type().(*types.Pointer); isPtr {
				st.SetRoot("enum", recv)
				recv = &ai.Ptr{Obj: "enum"}
			}
			outs := e.Call(st, str, []ai.Val{recv}, nil, "String", nil)
			r.engineFns(e)
			txt, ok := "", len(outs) == 1
			if ok {
				txt, ok = ai.ConstStr(outs[0].St.Resolve(outs[0].Res))
			}
			where := fnLabel(str)
			if !r.Assert(ok, "the text form of a constant is a constant", id+"."+n, where, "the text of %s cannot be determined", n) {
				continue
			}
			r.Assert(txt != "", "text form not empty", id+"."+n, where, "the text form of %s is empty", n)
			r.Assert(seen[txt] == "", "text form distinct", id+"."+n, where, "%s and %s have the same text form %q", n, seen[txt], txt)
			seen[txt] = n
			texts[id] = append(texts[id], txt)
			consts[id] = append(consts[id], v)
		}
		r.Assert(len(names) > 1, "enumeration has named values", id, id, "no named values")
	}
	paths := map[string][]*ElemSpec{}
	for _, p := range Schema().Paths() {
		paths[pathName(p)] = p
	}
	for _, u := range enumUses {
		id := u.rel + "." + u.typ
		t := r.W.Type(u.rel, u.typ)
		p := paths[u.path]
		if t == nil || p == nil {
			continue
		}
		e := p[len(p)-1]
		a := e.attr(u.attr)
		where := u.path + "@" + u.attr
		// places of the decoded model that hold the constant, for every constant
		var places map[string]bool
		for i, txt := range texts[id] {
			rd := r.W.NewReader(Chain(p, []Attr{{a.Space, a.Local, BytesVal(txt)}}))
			rd.E.MaxRec = 4
			outs, err := rd.Run()
			if err != nil || len(outs) != 1 {
				r.Fail("undecided: "+where+"="+txt, where, "%v, %d outcomes", err, len(outs))
				continue
			}
			r.limits(rd.E, where)
			r.engineFns(rd.E)
			o := outs[0]
			r.Assert(ai.IsNil(o.Res), "the text form of a named value is accepted", where+"="+txt, where, "decoding %q returns %s", txt, short(o.Res))
			here := map[string]bool{}
			Walk(o.St, rd.Model, func(pth string, v ai.Val) bool {
				if c, ok := v.(*ai.Const); ok && c.V != nil && types.Identical(c.T, t) && constant.Compare(constant.ToInt(c.V), token.EQL, constant.ToInt(consts[id][i])) {
					here[pth] = true
				}
				return true
			})
			if places == nil {
				places = here
			}
			for k := range places {
				if !here[k] {
					delete(places, k)
				}
			}
			r.Assert(len(places) > 0, "the reader maps the text form back to the value", where+"="+txt, where, "no field of the decoded model holds the value whose text form is %q", txt)
		}
		// anything else is malformed
		known := map[string]bool{}
		for _, x := range texts[id] {
			known[x] = true
		}
		others := []badAttr{{"any other text", ai.Atom("bad:"+a.Local, bytesT)}}
		for _, s := range packageStrings(r.W.P.Pkg(u.rel)) {
			if !known[s] && !strings.ContainsAny(s, " \t\n") {
				others = append(others, badAttr{fmt.Sprintf("%q", s), BytesVal(s)})
			}
		}
		for _, x := range texts[id] {
			others = append(others, badAttr{fmt.Sprintf("%q", strings.ToUpper(x)), BytesVal(strings.ToUpper(x))}, badAttr{fmt.Sprintf("%q", x+"x"), BytesVal(x + "x")})
		}
		for _, b := range others {
			if s, ok := b.val.(*ai.Sym); ok && a.Kind == "enumlist" {
				_ = s
				continue // lists are split on a constant text only
			}
			if s, ok := ai.ConstStr(b.val); ok && s == "" && a.Kind == "enumlist" {
				continue // an empty list
			}
			r.decodeMalformed(malformed{where + " = " + b.name, Chain(p, []Attr{{a.Space, a.Local, b.val}}), []string{a.Local}, where}, false)
		}
	}
}

// packageStrings lists every string constant used in a package.
func packageStrings(p *ssa.Package) []string {
	m := map[string]bool{"": true}
	add := func(v ssa.Value) {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
			m[constant.StringVal(c.Value)] = true
		}
	}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != nil {
						add(*op)
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, mem := range p.Members {
		switch x := mem.(type) {
		case *ssa.Function:
			visit(x)
		case *ssa.NamedConst:
			add(x.Value)
		case *ssa.Type:
			ms := p.Prog.MethodSets.MethodSet(types.NewPointer(x.Type()))
			for i := 0; i < ms.Len(); i++ {
				if fn := p.Prog.MethodValue(ms.At(i)); fn != nil && fn.Pkg == p {
					visit(fn)
				}
			}
		}
	}
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}
