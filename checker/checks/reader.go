package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/load"
)

// Attr is an attribute of an abstract document.
type Attr struct {
	Space, Local string
	Val          ai.Val
}

// Tok is a token of an abstract document: an element start, an element end or
// character data.
type Tok struct {
	Kind         byte // 's', 'e', 'c'
	Space, Local string
	Attrs        []Attr
	Text         ai.Val
}

// Elem builds a document element.
func Elem(space, local string, attrs []Attr, body ...[]Tok) []Tok {
	out := []Tok{{Kind: 's', Space: space, Local: local, Attrs: attrs}}
	for _, b := range body {
		out = append(out, b...)
	}
	return append(out, Tok{Kind: 'e', Space: space, Local: local})
}

// Text is character data.
func Text(v ai.Val) []Tok { return []Tok{{Kind: 'c', Text: v}} }

// BytesVal is a constant []byte.
func BytesVal(s string) ai.Val { return &ai.Bytes{S: s} }

const (
	rawTokenFn = "(*" + load.Module + "/internal/xml.Decoder).RawToken"
	opcPath    = "github.com/qmuntal/opc"
)

// AbsRel is a relationship of an abstract package.
type AbsRel struct{ ID, Type, URI string }

// AbsFile is a part of an abstract package.
type AbsFile struct {
	Name, ContentType string
	Rels              []AbsRel
	Tokens            []Tok
}

// AbsPkg is an abstract OPC package.
type AbsPkg struct {
	Files []AbsFile
	Rels  []AbsRel
}

// Reader drives the decoder over abstract documents.
type Reader struct {
	W      *World
	E      *ai.Engine
	Script []Tok
	Pkg    *AbsPkg
	AtEnd  func(st *ai.State) ai.Val // error returned after the last token
	Panics map[string]bool
	Driven int
	Model  ai.Val
	// Start prepares the model before decoding.
	Start func(st *ai.State, model ai.Val)
	// OnToken runs before a token is delivered.
	OnToken func(c *ai.CallCtx, part string, pos int)
	// Size is the size that the package declares for each part.
	Size int64
	// OnOpen is told when the stream of a part is opened.
	OnOpen func(c *ai.CallCtx, st *ai.State, part string)
	// TokenErr may make RawToken fail at a token.
	TokenErr func(c *ai.CallCtx, part string, pos int) ai.Val
	// Bytes keeps the tokenizer of the library, for parts given as bytes.
	Bytes bool
	// More is consulted before the standard interceptions.
	More func(c *ai.CallCtx) ([]ai.Out, bool)
	// Parse decides how textual parsing of a symbolic value ends: "ok",
	// "bad", "" (both).
	Parse func(arg ai.Val) string
	// OpenFails makes opening / copying parts fail: called with the step.
	Fails func(step string) bool
}

// NewReader prepares a reader over one root part.
func (w *World) NewReader(script []Tok) *Reader {
	r := &Reader{W: w, E: w.Engine(), Script: script, Panics: map[string]bool{}}
	r.E.OnPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string) {
		r.Panics[fmt.Sprintf("%s in %s (%s)", what, fn.String(), w.P.Pos(pos))] = true
	}
	r.E.OnSelect = noCancel
	r.E.Intercept = r.Intercept
	return r
}

// noCancel assumes that contexts are not cancelled: only the default clause
// of a select on Done is taken.
func noCancel(st *ai.State, fn *ssa.Function, sel *ssa.Select, get func(ssa.Value) ai.Val) ([]int, bool) {
	var others []int
	for i, s := range sel.States {
		if y, ok := get(s.Chan).(*ai.Sym); !ok || y.Op != "Done" {
			others = append(others, i)
		}
	}
	if len(others) == len(sel.States) || sel.Blocking && len(others) == 0 {
		return nil, false
	}
	if !sel.Blocking {
		others = append(others, -1)
	}
	return others, true
}

// contextErr is the error of a context that is not cancelled.
func contextErr(c *ai.CallCtx) ([]ai.Out, bool) {
	if c.Fn == nil && c.Method != nil && c.Method.FullName() == "(context.Context).Err" || c.Fn != nil && ai.FnName(c.Fn) == "context.Cause" {
		return []ai.Out{{St: c.St, Res: ai.NilOf(errorT)}}, true
	}
	return nil, false
}

// Run decodes the script through UnmarshalModel (not strict) into the model.
func (r *Reader) Run() ([]ai.Out, error) {
	fn := r.W.Func("", "UnmarshalModel")
	mt := r.W.Type("", "Model")
	if fn == nil || mt == nil {
		return nil, fmt.Errorf("UnmarshalModel not found")
	}
	st := r.E.NewState()
	st.SetRoot("M", ai.Zero(mt))
	r.Model = &ai.Ptr{Obj: "M"}
	if r.Start != nil {
		r.Start(st, r.Model)
	}
	outs := r.E.Call(st, fn, []ai.Val{ai.Atom("data", types.NewSlice(types.Typ[types.Byte])), r.Model}, nil, "UnmarshalModel", nil)
	if len(outs) == 0 && len(r.Panics) == 0 {
		return nil, fmt.Errorf("no outcome (limits %v)", r.E.Limits)
	}
	return outs, nil
}

// OnePart is a package with only a root part holding the tokens.
func OnePart(toks []Tok) *AbsPkg {
	return &AbsPkg{
		Files: []AbsFile{{Name: "/3D/3dmodel.model", ContentType: "application/vnd.ms-package.3dmanufacturing-3dmodel+xml", Tokens: toks}},
		Rels:  []AbsRel{{"rel0", relModel, "/3D/3dmodel.model"}},
	}
}

const (
	relModel   = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"
	relThumb   = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"
	relTexture = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dtexture"
)

// RunPackage decodes an abstract package with Decoder.DecodeContext.
func (r *Reader) RunPackage(strict bool) ([]ai.Out, error) {
	return r.RunPackageIn(r.E.NewState(), "M", strict)
}

// RunPackageIn decodes the package from a given state into the object root.
func (r *Reader) RunPackageIn(st *ai.State, root string, strict bool) ([]ai.Out, error) {
	nd := r.W.Func("", "NewDecoder")
	dc := r.W.Method("", "Decoder", "DecodeContext")
	mt := r.W.Type("", "Model")
	dt := r.W.Type("", "Decoder")
	if nd == nil || dc == nil || mt == nil || dt == nil {
		return nil, fmt.Errorf("NewDecoder, Decoder.DecodeContext or Model not found")
	}
	st.SetRoot(root, ai.Zero(mt))
	r.Model = &ai.Ptr{Obj: root}
	if r.Start != nil {
		r.Start(st, r.Model)
	}
	ra := ai.Atom("input", nd.Signature.Params().At(0).Type())
	st.NonNil("input")
	o := r.E.Call(st, nd, []ai.Val{ra, ai.Atom("size", types.Typ[types.Int64])}, nil, "NewDecoder", nil)
	if len(o) != 1 {
		return nil, fmt.Errorf("NewDecoder: %d outcomes", len(o))
	}
	st = o[0].St
	si := fieldIndex(dt, "Strict")
	if si < 0 {
		return nil, fmt.Errorf("Decoder has no Strict field")
	}
	st.StorePtr(st.FieldPtr(o[0].Res, si), ai.Bool(strict), false)
	ctx := ai.Atom("ctx", dc.Signature.Params().At(0).Type())
	st.NonNil("ctx")
	outs := r.E.Call(st, dc, []ai.Val{o[0].Res, ctx, r.Model}, nil, "DecodeContext", nil)
	if len(outs) == 0 && len(r.Panics) == 0 {
		return nil, fmt.Errorf("no outcome (limits %v)", r.E.Limits)
	}
	return outs, nil
}

// buildOPC materialises the abstract package as an opc.Reader.
func (r *Reader) buildOPC(st *ai.State, rt types.Type) ai.Val {
	rd := rt.Underlying().(*types.Pointer).Elem()
	sl := func(elem types.Type, name string, vs []ai.Val) ai.Val {
		arr := &ai.Arr{Elem: elem, M: map[int]ai.Val{}}
		for i, v := range vs {
			arr.M[i] = v
		}
		st.SetRoot(name, arr)
		n := ai.Int(int64(len(vs)))
		return &ai.Slice{T: types.NewSlice(elem), Obj: name, Len: n, Cap: n}
	}
	field := func(t types.Type, n string) int { return fieldIndex(t, n) }
	mkRels := func(relPtrT types.Type, base string, rels []AbsRel) ai.Val {
		rtT := relPtrT.Underlying().(*types.Pointer).Elem()
		var vs []ai.Val
		for i, x := range rels {
			z := ai.Zero(rtT).(*ai.Agg)
			a := &ai.Agg{T: z.T, Elems: append([]ai.Val(nil), z.Elems...)}
			a.Elems[field(rtT, "ID")] = ai.Str(x.ID)
			a.Elems[field(rtT, "Type")] = ai.Str(x.Type)
			a.Elems[field(rtT, "TargetURI")] = ai.Str(x.URI)
			obj := fmt.Sprintf("%s.rel%d", base, i)
			st.SetRoot(obj, a)
			vs = append(vs, &ai.Ptr{Obj: obj})
		}
		return sl(relPtrT, base+".rels", vs)
	}
	z := ai.Zero(rd).(*ai.Agg)
	root := &ai.Agg{T: z.T, Elems: append([]ai.Val(nil), z.Elems...)}
	filesT := rd.Underlying().(*types.Struct).Field(field(rd, "Files")).Type().Underlying().(*types.Slice).Elem()
	relT := rd.Underlying().(*types.Struct).Field(field(rd, "Relationships")).Type().Underlying().(*types.Slice).Elem()
	var files []ai.Val
	fT := filesT.Underlying().(*types.Pointer).Elem()
	partPtrT := fT.Underlying().(*types.Struct).Field(field(fT, "Part")).Type()
	pT := partPtrT.Underlying().(*types.Pointer).Elem()
	for i, f := range r.Pkg.Files {
		pz := ai.Zero(pT).(*ai.Agg)
		pa := &ai.Agg{T: pz.T, Elems: append([]ai.Val(nil), pz.Elems...)}
		pa.Elems[field(pT, "Name")] = ai.Str(f.Name)
		pa.Elems[field(pT, "ContentType")] = ai.Str(f.ContentType)
		pa.Elems[field(pT, "Relationships")] = mkRels(relT, fmt.Sprintf("opcpart%d", i), f.Rels)
		st.SetRoot(fmt.Sprintf("opcpart%d", i), pa)
		fz := ai.Zero(fT).(*ai.Agg)
		fa := &ai.Agg{T: fz.T, Elems: append([]ai.Val(nil), fz.Elems...)}
		if k := field(fT, "Size"); k >= 0 && r.Size != 0 {
			fa.Elems[k] = &ai.Const{T: fT.Underlying().(*types.Struct).Field(k).Type(), V: constant.MakeInt64(r.Size)}
		}
		fa.Elems[field(fT, "Part")] = &ai.Ptr{Obj: fmt.Sprintf("opcpart%d", i)}
		st.SetRoot(fmt.Sprintf("opcfile%d", i), fa)
		files = append(files, &ai.Ptr{Obj: fmt.Sprintf("opcfile%d", i)})
	}
	root.Elems[field(rd, "Files")] = sl(filesT, "opc.files", files)
	root.Elems[field(rd, "Relationships")] = mkRels(relT, "opc", r.Pkg.Rels)
	st.SetRoot("opcreader", root)
	return &ai.Ptr{Obj: "opcreader"}
}

// resolveRel is opc.ResolveRelationship for known strings.
func resolveRel(c *ai.CallCtx) (ai.Val, bool) {
	s, ok1 := ai.ConstStr(c.Args[0])
	t, ok2 := ai.ConstStr(c.Args[1])
	if !ok1 || !ok2 {
		return nil, false
	}
	if s == "/" && !strings.HasPrefix(t, "/") {
		t = "/" + t
	}
	if !strings.HasPrefix(t, "/") {
		t = path.Dir(s) + "/" + t
	}
	return ai.Str(t), true
}

func (r *Reader) fails(step string) bool { return r.Fails != nil && r.Fails(step) }

// partOf finds the package part a value derives from ("" when unknown).
func (r *Reader) partOf(st *ai.State, v ai.Val) string {
	found := ""
	Nearest(st, v, func(x ai.Val) bool {
		if y, ok := x.(*ai.Sym); ok {
			for _, a := range ai.ProvAll(y) {
				if strings.HasPrefix(a, "stream:") {
					found = strings.TrimPrefix(a, "stream:")
				}
			}
		}
		return found != ""
	})
	return found
}

// Intercept models the OPC library, the XML parser (by the token scripts) and
// the outcome of parsing text.
func (r *Reader) Intercept(c *ai.CallCtx) ([]ai.Out, bool) {
	if r.More != nil {
		if o, ok := r.More(c); ok {
			return o, true
		}
	}
	if r.E.OnSelect != nil {
		if o, ok := contextErr(c); ok {
			return o, true
		}
	}
	if c.Fn == nil {
		return nil, false
	}
	st := c.St
	name := ai.FnName(c.Fn)
	switch name {
	case "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader", "strings.NewReader":
		b, ok := st.Resolve(c.Args[0]).(*ai.Bytes)
		if !ok || !strings.HasPrefix(b.S, "content of ") {
			break
		}
		z, ok := ai.Zero(c.Res.At(0).Type().Underlying().(*types.Pointer).Elem()).(*ai.Agg)
		if !ok {
			break
		}
		a := &ai.Agg{T: z.T, Elems: append([]ai.Val(nil), z.Elems...)}
		for _, f := range []string{"buf", "s"} {
			if k := fieldIndex(a.T, f); k >= 0 {
				a.Elems[k] = b
			}
		}
		obj := fmt.Sprintf("reader of %s at %s", b.S, c.Site)
		st.SetRoot(obj, a)
		return []ai.Out{{St: st, Res: &ai.Ptr{Obj: obj}}}, true
	case rawTokenFn:
		if r.Bytes {
			return nil, false
		}
		return r.rawToken(c), true
	case opcPath + ".NewReader":
		if r.Pkg == nil {
			return nil, false
		}
		if r.fails("opc.NewReader") {
			return []ai.Out{{St: st, Res: &ai.Tuple{Elems: []ai.Val{ai.NilOf(c.Res.At(0).Type()), ai.ErrAtom(st, "err:opc.NewReader")}}}}, true
		}
		return []ai.Out{{St: st, Res: &ai.Tuple{Elems: []ai.Val{r.buildOPC(st, c.Res.At(0).Type()), ai.NilOf(c.Res.At(1).Type())}}}}, true
	case "(*" + opcPath + ".Reader).SetDecompressor":
		return []ai.Out{{St: st}}, true
	case "(*" + opcPath + ".File).Open":
		p, ok := c.Args[0].(*ai.Ptr)
		if !ok || r.Pkg == nil {
			return nil, false
		}
		i, err := strconv.Atoi(strings.TrimPrefix(p.Obj, "opcfile"))
		if err != nil {
			return nil, false
		}
		f := r.Pkg.Files[i]
		if r.fails("open " + f.Name) {
			return []ai.Out{{St: st, Res: &ai.Tuple{Elems: []ai.Val{ai.NilOf(c.Res.At(0).Type()), ai.ErrAtom(st, "err:open "+f.Name)}}}}, true
		}
		id := "stream:" + f.Name
		st.NonNil(id)
		st.Event("opened " + f.Name)
		if r.OnOpen != nil {
			r.OnOpen(c, st, f.Name)
		}
		return []ai.Out{{St: st, Res: &ai.Tuple{Elems: []ai.Val{ai.Atom(id, c.Res.At(0).Type()), ai.NilOf(c.Res.At(1).Type())}}}}, true
	case opcPath + ".ResolveRelationship":
		if v, ok := resolveRel(c); ok {
			return []ai.Out{{St: st, Res: v}}, true
		}
	case "io.Copy", "io.ReadAll", "io/ioutil.ReadAll", "(*bytes.Buffer).ReadFrom":
		if r.Pkg == nil {
			return nil, false
		}
		src := c.Args[len(c.Args)-1]
		if part := r.partOf(st, src); part != "" {
			ok := st
			var outs []ai.Out
			content := &ai.Bytes{S: "content of " + part}
			mk := func(s *ai.State, e ai.Val, data bool) {
				t := &ai.Tuple{}
				for i := 0; i < c.Res.Len(); i++ {
					rt := c.Res.At(i).Type()
					switch {
					case types.Identical(rt, types.Universe.Lookup("error").Type()):
						t.Elems = append(t.Elems, e)
					case data && strings.HasSuffix(name, "ReadAll"):
						t.Elems = append(t.Elems, content)
					default:
						t.Elems = append(t.Elems, &ai.Top{T: rt})
					}
				}
				outs = append(outs, ai.Out{St: s, Res: t})
			}
			if r.fails("read " + part) {
				mk(ok, ai.ErrAtom(ok, "err:read "+part), false)
				return outs, true
			}
			if !strings.HasSuffix(name, "ReadAll") {
				dst := c.Args[0]
				if i, isI := dst.(*ai.Iface); isI {
					dst = i.V
				}
				if bt, isAgg := st.LoadPtr(dst).(*ai.Agg); isAgg {
					if k := fieldIndex(bt.T, "buf"); k >= 0 {
						st.StorePtr(st.FieldPtr(dst, k), content, false)
					}
				}
			}
			mk(ok, ai.NilOf(types.Universe.Lookup("error").Type()), true)
			return outs, true
		}
	case "strconv.ParseBool", "strconv.ParseUint", "strconv.ParseInt", "strconv.ParseFloat", "strconv.Atoi":
		if r.Parse == nil {
			return nil, false
		}
		if _, isConst := ai.ConstStr(c.Args[0]); isConst {
			return nil, false
		}
		t := c.Res.At(0).Type()
		switch r.Parse(c.Args[0]) {
		case "ok":
			return []ai.Out{{St: st, Res: &ai.Tuple{Elems: []ai.Val{ai.Term(t, name, c.Args...), ai.NilOf(c.Res.At(1).Type())}}}}, true
		case "bad":
			return []ai.Out{{St: st, Res: &ai.Tuple{Elems: []ai.Val{ai.Term(t, "garbage", c.Args[0]), ai.ErrAtom(st, "err:"+name)}}}}, true
		}
	}
	return nil, false
}

func (r *Reader) rawToken(c *ai.CallCtx) []ai.Out {
	r.Driven++
	st := c.St
	part := ""
	script := r.Script
	if r.Pkg != nil {
		part = r.partOf(st, c.Args[0])
		script = nil
		for _, f := range r.Pkg.Files {
			if f.Name == part {
				script = f.Tokens
			}
		}
	}
	gk := "tok" + part
	pos := 0
	if g := st.Ghost[gk]; g != "" {
		pos, _ = strconv.Atoi(g)
	}
	errT := c.Res.At(0).Type()
	if r.OnToken != nil {
		r.OnToken(c, part, pos)
	}
	if r.TokenErr != nil {
		if e := r.TokenErr(c, part, pos); e != nil {
			return []ai.Out{{St: st, Res: e}}
		}
	}
	if pos >= len(script) {
		if r.AtEnd != nil {
			return []ai.Out{{St: st, Res: r.AtEnd(st)}}
		}
		return []ai.Out{{St: st, Res: ai.Atom("io.EOF", errT)}}
	}
	st.Ghost[gk] = strconv.Itoa(pos + 1)
	t := script[pos]
	dec := st.LoadPtr(c.Args[0])
	dt := ai.ValType(dec)
	cb := map[byte]string{'s': "OnStart", 'e': "OnEnd", 'c': "OnChar"}[t.Kind]
	i := fieldIndex(dt, cb)
	if i < 0 {
		panic("internal/xml.Decoder has no " + cb)
	}
	fv := st.Sel(dec, i)
	if ai.IsNil(fv) {
		return []ai.Out{{St: st, Res: ai.NilOf(errT)}}
	}
	sig := dt.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Signature)
	at := sig.Params().At(0).Type()
	var arg ai.Val
	switch t.Kind {
	case 's':
		stt := at.Underlying().(*types.Struct)
		nt := stt.Field(0).Type()
		slt := stt.Field(1).Type()
		et := slt.Underlying().(*types.Slice).Elem()
		obj := fmt.Sprintf("tok%s%d", part, pos)
		arr := &ai.Arr{Elem: et, M: map[int]ai.Val{}}
		for k, a := range t.Attrs {
			arr.M[k] = &ai.Agg{T: et, Elems: []ai.Val{nameVal(nt, a.Space, a.Local), a.Val}}
		}
		st.SetRoot(obj, arr)
		n := ai.Int(int64(len(t.Attrs)))
		var sl ai.Val = &ai.Slice{T: slt, Obj: obj, Len: n, Cap: n}
		arg = &ai.Agg{T: at, Elems: []ai.Val{nameVal(nt, t.Space, t.Local), sl}}
	case 'e':
		stt := at.Underlying().(*types.Struct)
		arg = &ai.Agg{T: at, Elems: []ai.Val{nameVal(stt.Field(0).Type(), t.Space, t.Local)}}
	case 'c':
		arg = t.Text
	}
	outs := c.CallFn(st, fv, []ai.Val{arg}, "tok")
	for k := range outs {
		outs[k].Res = ai.NilOf(errT)
	}
	return outs
}

func nameVal(t types.Type, space, local string) ai.Val {
	return &ai.Agg{T: t, Elems: []ai.Val{ai.Str(space), ai.Str(local)}}
}

var _ = constant.MakeInt64
