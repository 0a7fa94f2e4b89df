package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/load"
)

var bytesT = types.NewSlice(types.Typ[types.Byte])

// rawBuf is a []byte that lives in the parser's reused buffers.
func rawBuf(what string) ai.Val { return ai.Atom("tok:"+what, bytesT) }

func isRawAtom(id string) bool { return strings.HasPrefix(id, "tok") }

func stringLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return true
	}
	return false
}

// freshOps build new memory whatever their operands share.
func freshOp(op string) bool {
	switch op {
	case "copy", "string", "fmt.Sprintf", "fmt.Sprint":
		return true
	}
	return strings.HasPrefix(op, "strconv.Format") || strings.HasPrefix(op, "strconv.Quote")
}

// sharesRaw tells whether v may share memory with a raw token buffer.
func sharesRaw(v ai.Val) (string, bool) {
	switch x := v.(type) {
	case *ai.Sym:
		if !stringLike(x.T) && x.Op != "sel" && x.Op != "alias" {
			if _, isIface := x.T.Underlying().(*types.Interface); !isIface {
				if _, isPtr := x.T.Underlying().(*types.Pointer); !isPtr {
					return "", false // a scalar
				}
			}
		}
		if x.Op == "" {
			if isRawAtom(x.ID) {
				return x.ID, true
			}
			return "", false
		}
		if freshOp(x.Op) {
			return "", false
		}
		for _, a := range x.Args {
			if id, ok := sharesRaw(a); ok {
				return id, true
			}
		}
	case *ai.Top:
		if b, ok := scalarType(x.T); ok && b {
			return "", false
		}
		for _, p := range x.Prov {
			if isRawAtom(p) {
				return p, true
			}
		}
	case *ai.Slice:
		if isRawAtom(x.Obj) {
			return "the attribute list of the token", true
		}
	case *ai.Ptr:
		if isRawAtom(x.Obj) {
			return "the attribute list of the token", true
		}
	case *ai.Agg:
		for _, e := range x.Elems {
			if id, ok := sharesRaw(e); ok {
				return id, true
			}
		}
	case *ai.Bag:
		for _, e := range x.May {
			if id, ok := sharesRaw(e); ok {
				return id, true
			}
		}
	}
	return "", false
}

func scalarType(t types.Type) (bool, bool) {
	if t == nil {
		return false, false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false, true
	}
	return b.Info()&(types.IsNumeric|types.IsBoolean) != 0, true
}

// validateUUIDBoth lets uuid.Validate of a symbolic string accept and reject.
func validateUUIDBoth(c *ai.CallCtx) ([]ai.Out, bool) {
	if c.Fn == nil || ai.FnName(c.Fn) != load.Module+"/uuid.Validate" {
		return nil, false
	}
	if _, ok := ai.ConstStr(c.Args[0]); ok {
		return nil, false
	}
	bad := c.St.Clone()
	return []ai.Out{{St: c.St, Res: ai.NilOf(c.Res.At(0).Type())}, {St: bad, Res: ai.ErrAtom(bad, "err:uuid.Validate")}}, true
}

func (r *Report) privateModel(rd *Reader, st *ai.State, doc string) {
	n := 0
	Walk(st, rd.Model, func(p string, v ai.Val) bool {
		n++
		if id, ok := sharesRaw(v); ok {
			r.Fail("aliases "+p, doc, "model value Model%s shares memory with the parser's buffer (%s) when decoding %s: value %s", p, id, doc, short(v))
			return false
		}
		return true
	})
	r.Count("model values walked", n)
	r.OK("no value reachable from the model shares a token buffer", doc)
}

func short(v ai.Val) string {
	if v == nil {
		return "<nil>"
	}
	s := v.Key()
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}

func checkC01(r *Report) {
	r.Rule("value flow: every string or slice reachable from the decoded model is a constant, a fresh allocation or an explicit copy (string conversion, Clone, CharData.Copy, append/copy into a fresh slice); an unsafe cast, sub-slice or retained attribute list of a token buffer is a violation")
	r.Rule("parser: names delivered by the tokenizer are constants or converted copies of its buffer (see internal/xml name interning)")
	run := func(doc string, toks []Tok) {
		rd := r.W.NewReader(toks)
		rd.More = chain(validateUUIDBoth, errSummary)
		rd.Parse = func(ai.Val) string { return "ok" }
		outs, err := rd.Run()
		if err != nil {
			r.Fail("undecided: "+doc, doc, "%v", err)
			return
		}
		r.limits(rd.E, doc)
		if rd.Driven == 0 {
			r.Fail("undecided: token source", doc, "the decoder does not read tokens through internal/xml.Decoder.RawToken")
		}
		for _, o := range outs {
			r.privateModel(rd, o.St, doc)
			if id, ok := sharesRawDeep(o.St, o.Res); ok {
				r.Fail("error aliases", doc, "the returned error holds parser memory (%s) when decoding %s", id, doc)
			}
		}
		r.engineFns(rd.E)
	}
	allAttrs := func(e *ElemSpec, pfx string) []Attr {
		var out []Attr
		for _, a := range e.Attrs {
			out = append(out, Attr{a.Space, a.Local, rawBuf(pfx + "@" + a.Local)})
		}
		// every registered namespace and unknown ones, on every element
		for _, ns := range []string{nsProd, nsSlice, nsMat, nsBeam, nsFresh} {
			out = append(out, Attr{ns, "foreign", rawBuf(pfx + "@foreign")})
		}
		return append(out, Attr{nsFresh2, "foreign2", rawBuf(pfx + "@foreign2")}, Attr{"", "unknown", rawBuf(pfx + "@unknown")}, Attr{"xmlns", "pfx", rawBuf(pfx + "@xmlns")})
	}
	unknown := func(ns, pfx string) []Tok {
		return Elem(ns, "unk", []Attr{{"", "id", rawBuf(pfx + ".unk@id")}, {ns, "a", rawBuf(pfx + ".unk@a")}},
			Text(rawBuf(pfx+".unk#1")), Elem(ns, "inner", []Attr{{"", "b", rawBuf(pfx + ".inner@b")}}, Text(rawBuf(pfx+".inner#"))), Text(rawBuf(pfx+".unk#2")))
	}
	for _, p := range Schema().Paths() {
		e := p[len(p)-1]
		name := pathName(p)
		var body [][]Tok
		body = append(body, Text(rawBuf(name+"#text")))
		body = append(body, unknown(nsFresh, name+"/fresh"), unknown(nsCore, name+"/core"), unknown(nsMat, name+"/mat"))
		body = append(body, Text(rawBuf(name+"#text2")))
		run("element "+name, Chain(p, allAttrs(e, name), body...))
	}
	// metadata names with a declared prefix
	md := Elem(nsCore, "model", []Attr{{"xmlns", "pre", BytesVal("http://x")}},
		Elem(nsCore, "metadata", []Attr{{"", "name", rawBuf("md@name")}, {"", "type", rawBuf("md@type")}}, Text(rawBuf("md#"))))
	run("metadata with prefix", md)
	md2 := Elem(nsCore, "model", []Attr{{"xmlns", "pre", rawBuf("uri")}},
		Elem(nsCore, "metadata", []Attr{{"", "name", BytesVal("pre:local")}}, Text(rawBuf("md#"))))
	run("metadata with symbolic prefix uri", md2)
	r.tokenizerNames()
}

func sharesRawDeep(st *ai.State, v ai.Val) (string, bool) {
	id, bad := "", false
	Walk(st, v, func(p string, x ai.Val) bool {
		if i, ok := sharesRaw(x); ok && !bad {
			id, bad = i, true
		}
		return !bad
	})
	return id, bad
}

var _ = fmt.Sprint

// tokenizerNames decides that names produced by the tokenizer cannot share
// its buffer: in Go a string shares mutable memory only when made through
// package unsafe, so every such string in internal/xml must be consumed by a
// comparison or a lookup.
func (r *Report) tokenizerNames() {
	p := r.W.P.Pkg("internal/xml")
	if p == nil {
		r.Fail("undecided: tokenizer", "internal/xml", "package internal/xml not found")
		return
	}
	for _, fn := range r.W.P.Funcs("internal/xml") {
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || !unsafeString(v) {
					continue
				}
				n++
				for _, ref := range *v.Referrers() {
					switch x := ref.(type) {
					case *ssa.BinOp, *ssa.DebugRef:
					case *ssa.Lookup:
						if x.Index != v {
							n = -1
						}
					default:
						r.Fail("tokenizer string aliases its buffer in "+fnLabel(fn), r.W.P.Pos(r.W.P.Fset.Position(in.Pos())), "a string made from the parser's buffer without copying escapes")
					}
				}
			}
		}
		r.OK("tokenizer function makes no escaping unsafe string", fnLabel(fn))
		r.Fns(fnLabel(fn))
	}
}

// unsafeString tells whether v is a string made through package unsafe.
func unsafeString(v ssa.Value) bool {
	b, ok := v.Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.String {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if c, ok := x.X.(*ssa.Convert); ok {
				if pb, ok := c.X.Type().Underlying().(*types.Basic); ok && pb.Kind() == types.UnsafePointer {
					return true
				}
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "String" {
			return true
		}
	}
	return false
}
