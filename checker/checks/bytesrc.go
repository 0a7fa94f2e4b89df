package checks

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"verif/checker/ai"
)

// stretch is a stretch of the text of a part: what it says, or how many
// arbitrary bytes that are not markup.
type stretch struct {
	text string
	any  int
}

// byteSource gives the parts of a package byte by byte, until they end or
// fail.
type byteSource struct {
	r     *Report
	parts map[string][]stretch
	cut   map[string]int // the bytes of a part that can be read
	fail  bool           // reading then fails; otherwise the part ends
	with  bool           // the last bytes come together with the end or the failure
	chunk int            // how many bytes are read at once

	at string // the part that ends early or fails

	hook   func(e *ai.Engine)
	panics map[string]bool
}

var byteT = types.Typ[types.Uint8]

// bytesOf gives the bytes of a part.
func (s *byteSource) bytesOf(st *ai.State, part string) []ai.Val {
	var out []ai.Val
	for _, p := range s.parts[part] {
		for i := 0; i < len(p.text); i++ {
			out = append(out, &ai.Const{T: byteT, V: ai.Int(int64(p.text[i])).V})
		}
		for i := 0; i < p.any; i++ {
			id := fmt.Sprintf("byte %d of %s", len(out), part)
			st.AssumeRange(id, i64('A'), i64(0xff))
			out = append(out, ai.Atom(id, byteT))
		}
	}
	return out
}

func i64(n int64) *int64 { return &n }

// run decodes the package.
func (s *byteSource) run(strict bool) ([]ai.Out, error) {
	p := &AbsPkg{Rels: []AbsRel{{"rel0", relModel, rootPart}}}
	root := AbsFile{Name: rootPart, ContentType: ct3DModel, Tokens: []Tok{}}
	for _, n := range sortedKeys(s.parts) {
		if n != rootPart {
			root.Rels = append(root.Rels, AbsRel{"r" + n, relModel, n})
			p.Files = append(p.Files, AbsFile{Name: n, ContentType: ct3DModel, Tokens: []Tok{}})
		}
	}
	p.Files = append(p.Files, root)
	rd := s.r.partReader(p)
	rd.Bytes = true
	rd.E.Peel, rd.E.WidenAfter = 5000, 6000
	if p := s.r.W.P.SSA.ImportedPackage("errors"); p != nil && p.Type("errorString") != nil {
		rd.E.BaseFacts["io.EOF"] = &ai.Fact{NonNil: true, Dyn: types.NewPointer(p.Type("errorString").Type())}
	}
	st := rd.E.NewState()
	given := map[string][]ai.Val{}
	for n := range s.parts {
		given[n] = s.bytesOf(st, n)
	}
	rd.More = func(c *ai.CallCtx) ([]ai.Out, bool) {
		if outs, ok := buffer(c); ok {
			return outs, true
		}
		if c.Fn != nil || c.Method == nil || c.Method.Name() != "Read" || len(c.Args) != 1 {
			return nil, false
		}
		part := rd.partOf(c.St, c.Recv)
		all, ok := given[part]
		if !ok {
			return nil, false
		}
		return s.read(c, part, all)
	}
	if s.hook != nil {
		s.hook(rd.E)
	}
	outs, err := rd.RunPackageIn(st, "M", strict)
	s.panics = rd.Panics
	s.r.engineFns(rd.E)
	s.r.limits(rd.E, fmt.Sprint(s.cut))
	return outs, err
}

func (s *byteSource) read(c *ai.CallCtx, part string, all []ai.Val) ([]ai.Out, bool) {
	st := c.St
	end := s.cut[part]
	if end > len(all) {
		end = len(all)
	}
	at, _ := strconv.Atoi(st.Ghost["at "+part])
	n := end - at
	if n > s.chunk {
		n = s.chunk
	}
	if size, ok := ai.ConstInt(st.Len(c.Args[0])); !ok || int64(n) > size {
		n = int(size)
	}
	for i := 0; i < n; i++ {
		st.StorePtr(st.ElemPtr(c.Args[0], ai.Int(int64(i))), all[at+i], false)
	}
	st.Ghost["at "+part] = strconv.Itoa(at + n)
	var err ai.Val = ai.NilOf(errorT)
	if n == 0 || s.with && at+n == end {
		err = ai.Atom("io.EOF", errorT)
		if s.fail && part == s.at {
			err = ai.ErrAtom(st, "err:read")
			st.AssumeCond(st.Equal(err, ai.Atom("io.EOF", errorT)), false)
		}
		st.Ghost["ended "+part] = "1"
	}
	return result(st, []ai.Val{ai.Int(int64(n)), err}), true
}

// buffer models the methods of bytes.Buffer on known lists of bytes.
func buffer(c *ai.CallCtx) ([]ai.Out, bool) {
	if c.Fn == nil || !strings.HasPrefix(ai.FnName(c.Fn), "(*bytes.Buffer).") {
		return nil, false
	}
	st := c.St
	key := "buffer " + c.Args[0].Key()
	obj := st.Ghost[key]
	content := func() []ai.Val {
		if obj == "" {
			return nil
		}
		arr, ok := st.Root(obj).(*ai.Arr)
		if !ok {
			return nil
		}
		var out []ai.Val
		for i := 0; i < len(arr.M); i++ {
			out = append(out, arr.M[i])
		}
		return out
	}
	set := func(l []ai.Val) {
		n, _ := strconv.Atoi(st.Ghost["buffers"])
		st.Ghost["buffers"] = strconv.Itoa(n + 1)
		arr := &ai.Arr{Elem: byteT, M: map[int]ai.Val{}}
		for i, v := range l {
			arr.M[i] = v
		}
		obj = fmt.Sprint("buffer", n)
		st.SetRoot(obj, arr)
		st.Ghost[key] = obj
	}
	view := func() ai.Val {
		if obj == "" {
			set(nil)
		}
		n := ai.Int(int64(len(content())))
		return &ai.Slice{T: types.NewSlice(byteT), Obj: obj, Len: n, Cap: n}
	}
	write := func(v ai.Val) ([]ai.Out, bool) {
		l := content()
		var more []ai.Val
		if b, ok := v.(*ai.Bytes); ok {
			for i := 0; i < len(b.S); i++ {
				more = append(more, &ai.Const{T: byteT, V: ai.Int(int64(b.S[i])).V})
			}
		} else if t, ok := ai.ConstStr(v); ok {
			for i := 0; i < len(t); i++ {
				more = append(more, &ai.Const{T: byteT, V: ai.Int(int64(t[i])).V})
			}
		} else if el, ok := st.SliceElems(v); ok {
			more = el
		} else {
			return nil, false
		}
		set(append(l, more...))
		return result(st, []ai.Val{ai.Int(int64(len(more))), ai.NilOf(errorT)}), true
	}
	switch c.Fn.Name() {
	case "Reset":
		set(nil)
		return []ai.Out{{St: st}}, true
	case "WriteByte":
		set(append(content(), c.Args[1]))
		return result(st, []ai.Val{ai.NilOf(errorT)}), true
	case "Write", "WriteString":
		return write(c.Args[1])
	case "Len":
		return result(st, []ai.Val{ai.Int(int64(len(content())))}), true
	case "Bytes":
		return result(st, []ai.Val{view()}), true
	case "Truncate":
		n, ok := ai.ConstInt(c.Args[1])
		if !ok {
			return nil, false
		}
		set(content()[:n])
		return []ai.Out{{St: st}}, true
	}
	return nil, false
}

// partTexts are texts of model parts with every construct of the tokenizer.
func partTexts() [][]stretch {
	t := func(s string) stretch { return stretch{text: s} }
	any := func(n int) stretch { return stretch{any: n} }
	return [][]stretch{
		{t("<?xml version=\"1.0\"?>\n<model xmlns=\"" + nsCore + "\" xmlns:o='http://o' unit=\"inch\">\n <metadata name=\"x\" type=\""), any(3), t("\">&lt;&#65;&#x42;"), any(2), t("</metadata><resources><object id='5' name=\"a&amp;b\"/></resources> <o:x o:y = \"1\"><z/></o:x>\r\n<build></build ></model>\n")},
		{t("<model xmlns='" + nsCore + "'\t>"), any(2), t("<resources><object id=\"1\" type=\"model\"><mesh><vertices><vertex x=\"1\" y=\"2\" z=\"3\"/><vertex x=\"1\" y=\"2\" z=\"4\" /></vertices><triangles><triangle v1=\"0\" v2=\"1\" v3=\"0\" pid=\"2\" p1=\"1\"></triangle></triangles></mesh></object><object id='2'><components><component objectid='1'/></components></object></resources></model>")},
		{t("<m:model xmlns:m=\"" + nsCore + "\"><m:resources/><other xmlns='"), any(1), t("' a='"), any(2), t("'><b>"), any(3), t("&quot;\r\n"), any(1), t("</b></other></m:model>\n\n")},
	}
}
