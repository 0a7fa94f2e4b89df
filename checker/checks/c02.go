package checks

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// checkC02 decides that no reachable decoding construct panics on the
// structure of a document.
func checkC02(r *Report) {
	r.Rule("abstract interpretation of the decoder over classes of documents: type assertions, nil dereferences, index and slice expressions, nil map writes and explicit panics reached by any element nesting must be proved impossible")
	paths := Schema().Paths()
	nss := []string{"", nsCore, nsMat, nsBeam, nsSlice, nsProd, nsFresh}
	any := func(n string) ai.Val { return ai.Atom("val:"+n, bytesT) }
	attrsOf := func(e *ElemSpec) []Attr {
		var out []Attr
		for _, a := range e.Attrs {
			out = append(out, Attr{a.Space, a.Local, any(a.Local)})
		}
		return out
	}
	run := func(doc string, toks []Tok, start func(st *ai.State, m ai.Val)) {
		rd := r.W.NewReader(toks)
		rd.More = chain(validateUUIDBoth, errSummary)
		rd.Start = start
		rd.E.OnPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string) {
			r.Fail("panic: "+what+" in "+fnLabel(fn), r.W.P.Pos(pos), "decoding %s panics: %s", doc, what)
		}
		rd.E.OnMayPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string, x, idx, ln ai.Val) {
			r.Fail("may panic: "+what+" in "+fnLabel(fn), r.W.P.Pos(pos), "decoding %s: %s not proved within bounds (index %s, length %s)", doc, what, short(idx), short(ln))
		}
		outs, err := rd.Run()
		if err != nil {
			r.Fail("undecided: "+doc, doc, "%v", err)
			return
		}
		r.limits(rd.E, doc)
		if len(outs) == 0 {
			r.Fail("undecided: no return, "+doc, doc, "no path returns")
			return
		}
		r.OK("every path of decoding the document class returns without panicking", doc)
		r.Count("return states", len(outs))
		r.engineFns(rd.E)
	}
	// known local names
	locals := map[string]bool{}
	var elems []*ElemSpec
	for _, p := range paths {
		e := p[len(p)-1]
		if k := e.Space + " " + e.Local; !locals[k] {
			locals[k] = true
			elems = append(elems, e)
		}
	}
	unk := func(ns string) []Tok {
		return Elem(ns, "unk", []Attr{{ns, "a", any("u")}, {"", "b", any("u2")}}, Text(any("t")), Elem(ns, "unk", nil))
	}
	for _, p := range paths {
		e := p[len(p)-1]
		name := pathName(p)
		// attributes of every namespace on the element, before and after its own
		for i, ns := range nss {
			f := []Attr{{ns, "foreign", any("f1")}}
			for _, a := range []string{"UUID", "path", "slicestackid", "meshresolution", "id", "lang"} {
				f = append(f, Attr{ns, a, any("f2" + a)})
			}
			a := append(append(append([]Attr{}, f...), attrsOf(e)...), f...)
			run(fmt.Sprintf("%s with attributes of namespace %d", name, i), Chain(p, a), nil)
		}
		// every known element, twice, and unknown ones, as children
		var kids [][]Tok
		for _, k := range elems {
			kids = append(kids, Elem(k.Space, k.Local, attrsOf(k)), Elem(k.Space, k.Local, nil, Elem(k.Space, k.Local, attrsOf(k)), Text(any("t"))))
		}
		run(name+" with every known element as child", Chain(p, attrsOf(e), append(kids, Text(any("t")))...), nil)
		for i, ns := range nss {
			kids = [][]Tok{unk(ns)}
			for _, k := range elems {
				if k.Space != ns {
					kids = append(kids, Elem(ns, k.Local, nil))
				}
			}
			run(fmt.Sprintf("%s with elements of namespace %d as children", name, i), Chain(p, nil, kids...), nil)
		}
		// repeated
		one := Elem(e.Space, e.Local, attrsOf(e), unk(nsFresh))
		if len(p) > 1 {
			run(name+" repeated", Chain(p[:len(p)-1], nil, one, one, one), nil)
		}
		// as the root
		run(name+" as the root element", one, nil)
		// two roots
	}
	full := func() []Tok { return fullDoc(func(a *AttrSpec, n string) ai.Val { return any(n + a.Local) }) }
	run("a document with every element", full(), nil)
	run("two documents in a row", append(full(), full()...), nil)
	run("no tokens", nil, nil)
	run("an unclosed root", full()[:1], nil)
	run("text before the root", append(Text(any("t")), full()...), nil)
	// truncated at every token
	doc := full()
	for i := range doc {
		if i%7 == 3 || r.Thorough() {
			run(fmt.Sprintf("the full document truncated after token %d", i), doc[:i], nil)
		}
	}
	r.c02Models(run, full)
}

// fullDoc has every element of the schema once, with every attribute.
func fullDoc(val func(a *AttrSpec, name string) ai.Val) []Tok {
	var rec func(e *ElemSpec, pfx string) []Tok
	rec = func(e *ElemSpec, pfx string) []Tok {
		var attrs []Attr
		for i := range e.Attrs {
			attrs = append(attrs, Attr{e.Attrs[i].Space, e.Attrs[i].Local, val(&e.Attrs[i], pfx+e.Local)})
		}
		var kids [][]Tok
		for _, c := range e.Children {
			kids = append(kids, rec(c, pfx+e.Local+"."))
		}
		if e.Text {
			kids = append(kids, Text(val(&AttrSpec{Kind: "str", Local: "#text"}, pfx+e.Local)))
		}
		return Elem(e.Space, e.Local, attrs, kids...)
	}
	return rec(Schema(), "")
}

// c02Models decodes into models that already hold data.
func (r *Report) c02Models(run func(string, []Tok, func(*ai.State, ai.Val)), full func() []Tok) {
	// decoding twice into the same model is covered by "two documents in a
	// row"; here the model holds unusual values.
	mt := r.W.Type("", "Model")
	stt, ok := mt.Underlying().(*types.Struct)
	if !ok {
		r.Fail("undecided: model", "Model", "Model is not a struct")
		return
	}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		i := i
		if !f.Exported() {
			continue
		}
		switch f.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			run("a full document into a model whose "+f.Name()+" is an unknown value", full(), func(st *ai.State, m ai.Val) {
				st.StorePtr(st.FieldPtr(m, i), ai.Atom("given:"+f.Name(), f.Type()), false)
			})
		}
	}
}
