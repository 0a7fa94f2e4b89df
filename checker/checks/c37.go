package checks

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// attached is an attachment of a model.
type attached struct{ path, typ string }

type partScenario struct {
	relScenario
	atts []attached
}

func c37Scenarios() []partScenario {
	var out []partScenario
	lists := []struct {
		name string
		atts []attached
	}{
		{"no attachment", nil},
		{"one attachment", []attached{{"/Metadata/thumb.png", "image/png"}}},
		{"attachments of several types", []attached{{"/a.png", "image/png"}, {"/b.jpg", "image/jpeg"}, {"/sub/c.xml", "application/vnd.ms-printing.printticket+xml"}, {"/c.bin", "application/octet-stream"}}},
		{"attachments of one type", []attached{{"/x.png", "image/png"}, {"/sub/x.png", "image/png"}, {"/X2.png", "image/png"}}},
		{"an attachment without extension", []attached{{"/data", "application/x-data"}, {"/3D/data", ""}}},
		{"an attachment that is a model", []attached{{"/3D/other.model", "application/vnd.ms-package.3dmanufacturing-3dmodel+xml"}, {"/z.model", "application/x-other"}}},
	}
	for _, l := range lists {
		for _, root := range []string{"", "/other/root.model"} {
			for _, childs := range [][]string{nil, {"/3D/a.model"}, {"/3D/b.model", "/3D/a.model", "/deep/er/c.model"}, {"rel.model", "sub/rel2.model"}} {
				s := partScenario{relScenario: relScenario{root: root, rels: map[string][]AbsRel{}, thumbs: map[string][]string{"": {"", ""}}, tex: map[string][]string{}, childs: childs}, atts: l.atts}
				for i, c := range childs {
					s.thumbs[c] = make([]string, i)
					s.tex[c] = make([]string, 1-i%2)
					for n := range s.tex[c] {
						s.tex[c][n] = "/tex.png"
					}
				}
				for _, a := range l.atts {
					s.rels["root"] = append(s.rels["root"], AbsRel{"", "http://example.com/att", a.path})
				}
				s.name = fmt.Sprintf("%s, the root part %q and %d child parts %v", l.name, s.rootName(), len(childs), childs)
				out = append(out, s)
			}
		}
	}
	return out
}

// stream is the name of the content of an attachment.
func stream(i int) string { return fmt.Sprintf("content%d", i) }

func (r *Report) c37Scenario(s *partScenario) {
	attT := r.W.Type("", "Attachment")
	sh := r.relShape(&s.relScenario)
	give := sh.Give
	sh.Give = func(b *ModelBuilder, p string, t types.Type) (ai.Val, bool) {
		if p != "Model.Attachments" {
			return give(b, p, t)
		}
		var vs []ai.Val
		for i, a := range s.atts {
			z := ai.Zero(attT).(*ai.Agg)
			n := &ai.Agg{T: z.T, Elems: append([]ai.Val(nil), z.Elems...)}
			su := attT.Underlying().(*types.Struct)
			for f, v := range map[string]ai.Val{"Path": ai.Str(a.path), "ContentType": ai.Str(a.typ)} {
				if k := fieldIndex(attT, f); k >= 0 {
					n.Elems[k] = v
				}
			}
			if k := fieldIndex(attT, "Stream"); k >= 0 {
				b.St.NonNil(stream(i))
				n.Elems[k] = ai.Atom(stream(i), su.Field(k).Type())
			}
			vs = append(vs, n)
		}
		return b.Slice(p, t, vs), true
	}
	t := r.W.NewRoundTrip(sh)
	t.E.Peel, t.E.WidenAfter = 200, 300
	t.E.MapPerm = func(_ *ssa.Function, _ *ssa.Next, n int) []int { return permutation(n, 0) }
	t.NoDec = true
	t.X.OnEmit = func(st *ai.State, part string) {
		if ps := t.X.Parts(st); !strings.HasPrefix(part, "@") && (len(ps) == 0 || ps[len(ps)-1] != part) {
			st.Ghost["late"] = part
		}
		if st.Ghost["closed"] != "" {
			st.Ghost["late"] = part
		}
	}
	more := t.X.More
	t.X.More = func(c *ai.CallCtx) ([]ai.Out, bool) {
		if c.Fn != nil {
			switch ai.FnName(c.Fn) {
			case "io.ReadAll", "io/ioutil.ReadAll": // the content itself
				if y, ok := c.St.Resolve(c.Args[0]).(*ai.Sym); ok && strings.HasPrefix(y.ID, "content") {
					return []ai.Out{{St: c.St, Res: &ai.Tuple{Elems: []ai.Val{ai.Atom(y.ID+".bytes", types.NewSlice(types.Typ[types.Byte])), ai.NilOf(errorT)}}}}, true
				}
			case opcPath + ".NormalizePartName":
				if n, ok := ai.ConstStr(c.Args[0]); ok && n != "" && n == path.Clean(n) && !strings.HasPrefix(n, ".") {
					return []ai.Out{{St: c.St, Res: ai.Str(path.Join("/", n))}}, true
				}
			}
		}
		if more != nil {
			return more(c)
		}
		return nil, false
	}
	outs, err := t.Encode()
	r.limits(t.E, "Encode")
	r.engineFns(t.E)
	if err == nil && (len(outs) == 0 || len(t.Panics) > 0) {
		err = fmt.Errorf("%d outcomes, panics %v", len(outs), sortedKeys(t.Panics))
	}
	for p := range t.X.Problems {
		err = fmt.Errorf("%s", p)
	}
	if err != nil {
		r.Fail("undecided: Encode", s.name, "encoding a model with %s: %v", s.name, err)
		return
	}
	for _, o := range outs {
		if r.Assert(ai.IsNil(o.Res), "the model is encoded", "result", s.name, "encoding a model with %s returns %s", s.name, shown(o.St, o.Res)) {
			r.c37Package(s, t, o.St)
		}
	}
	r.Count("models", 1)
}

// c37Package compares the package that was written with the model.
func (r *Report) c37Package(s *partScenario, t *RoundTrip, st *ai.State) {
	late := st.Ghost["late"]
	r.Assert(late == "", "a part is complete before the next one begins", "order", s.name, "encoding a model with %s: %s is written to after the next part was begun or the package was closed", s.name, late)
	r.Assert(st.Ghost["closed"] != "", "the package is closed", "closed", s.name, "encoding a model with %s does not close the package", s.name)

	model := r.W.ConstString("", "ContentType3DModel")
	type part struct {
		typ string
		att int
	}
	root := s.rootName()
	want := map[string]part{root: {model, -1}}
	for _, c := range s.childs {
		if !strings.HasPrefix(c, "/") {
			c = path.Join(path.Dir(root), c)
		}
		want[c] = part{model, -1}
	}
	for i, a := range s.atts {
		want[a.path] = part{a.typ, i}
	}
	got := map[string]bool{}
	for _, n := range t.X.Parts(st) {
		got[n] = true
		p, ok := want[n]
		kind := "a model part"
		if p.att >= 0 {
			kind = "an attachment"
		}
		if !r.Assert(ok, "only parts of the model are written", "unexpected part", s.name, "encoding a model with %s writes the part %s, which does not belong to it", s.name, n) {
			continue
		}
		r.Assert(st.Ghost["ct:"+n] == p.typ, "parts have their content type", "type of "+kind, s.name, "encoding a model with %s: the part %s has type %q instead of %q", s.name, n, st.Ghost["ct:"+n], p.typ)
		var text strings.Builder
		for _, x := range t.X.Stream(st, n) {
			if c, ok := ai.ConstStr(x.v); ok {
				text.WriteString(c)
			} else if y, ok := x.v.(*ai.Sym); ok {
				text.WriteString("\x00" + strings.TrimSuffix(y.ID, ".bytes") + "\x00")
			} else if c, ok := literalBytes(st, x.v); ok {
				text.WriteString(c)
			} else {
				text.WriteString("\x00" + x.v.Key() + "\x00")
			}
		}
		body := text.String()
		if p.att >= 0 {
			r.Assert(body == "\x00"+stream(p.att)+"\x00", "attachments have their content", "content of an attachment", s.name, "encoding a model with %s: the part %s holds %q instead of the content of the attachment", s.name, n, short2(body))
			continue
		}
		one := strings.HasPrefix(body, "<?xml") && strings.Count(body, "<?xml") == 1 && strings.Count(body, "<model") == 1 && strings.HasSuffix(strings.TrimSpace(body), "</model>")
		r.Assert(one, "a model part is one document", "content of a model part", s.name, "encoding a model with %s: the part %s is not a single document with a declaration and a model: %q", s.name, n, short2(body))
	}
	var missing []string
	for n := range want {
		if !got[n] {
			missing = append(missing, n)
		}
	}
	sort.Strings(missing)
	r.Assert(len(missing) == 0, "every part is written", "missing part", s.name, "encoding a model with %s does not write %s", s.name, strings.Join(missing, ", "))
}

// literalBytes is the text of a byte slice whose elements are known.
func literalBytes(st *ai.State, v ai.Val) (string, bool) {
	el, ok := st.SliceElems(v)
	if !ok {
		return "", false
	}
	var b []byte
	for _, e := range el {
		n, ok := ai.ConstInt(st.Resolve(e))
		if !ok {
			return "", false
		}
		b = append(b, byte(n))
	}
	return string(b), true
}

func short2(s string) string {
	if len(s) > 160 {
		return s[:80] + "…" + s[len(s)-80:]
	}
	return s
}

func checkC37(r *Report) {
	r.Rule("abstract interpretation of Encoder.Encode on models with attachments and child parts: the parts created in the package, their types and the streams written to them are exactly those of the model, one after the other")
	for _, n := range []string{"Attachment", "Relationship", "Object", "BaseMaterials", "ChildModel"} {
		if r.W.Type("", n) == nil {
			r.Fail("undecided: types", n, "type %s not found", n)
			return
		}
	}
	if r.W.Type("materials", "Texture2D") == nil || r.W.ConstString("", "ContentType3DModel") == "" {
		r.Fail("undecided: types", "Texture2D", "the type Texture2D or ContentType3DModel was not found")
		return
	}
	ss := c37Scenarios()
	parallel(len(ss), func(i int) { r.c37Scenario(&ss[i]) })
}
