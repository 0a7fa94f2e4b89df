package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// failWatch follows failures of the steps of encoding to the result.
type failWatch struct {
	r       *Report
	e       *ai.Engine
	encoder *types.Interface
	steps   map[string]bool
	fails   map[string]string
	tokens  bool // judging the token encoder itself
}

func (r *Report) newFailWatch(enc *types.Interface) *failWatch {
	w := &failWatch{r: r, e: r.W.Engine(), encoder: enc, steps: map[string]bool{}, fails: map[string]string{}}
	w.e.Intercept = w.intercept
	w.e.OnFail = func(c *ai.CallCtx, name string, failed *ai.State) {
		if name == "(*bufio.Writer).Flush" {
			return
		}
		w.step(c, name)
		failed.Ghost["failed"] = fmt.Sprintf("%s at %s", shortName(name), w.r.W.P.Pos(c.Pos()))
	}
	w.e.Peel, w.e.WidenAfter, w.e.Coarse = 0, 2, true
	return w
}

func shortName(n string) string {
	return strings.NewReplacer("github.com/hpinc/go3mf", "go3mf", "github.com/qmuntal/opc", "opc").Replace(n)
}

func (w *failWatch) step(c *ai.CallCtx, name string) {
	w.steps[shortName(name)+" at "+w.r.W.P.Pos(c.Pos())] = true
}

func (w *failWatch) fail(key, f string, a ...any) {
	if w.fails[key] == "" {
		w.fails[key] = fmt.Sprintf(f, a...)
	}
}

// bufferedWrite tells whether a call writes to a buffered writer, which
// remembers its failure until it is flushed.
func bufferedWrite(c *ai.CallCtx) bool {
	if c.Fn == nil || len(c.Args) == 0 {
		return false
	}
	name := ai.FnName(c.Fn)
	if strings.HasPrefix(name, "(*bufio.Writer).") {
		switch c.Fn.Name() {
		case "Write", "WriteByte", "WriteString", "WriteRune":
			return true
		}
		return false
	}
	switch name {
	case "encoding/xml.EscapeText", "encoding/xml.Escape", "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		i, ok := c.Args[0].(*ai.Iface)
		return ok && isBuffered(i.Dyn)
	}
	return false
}

// isBuffered tells whether the Write method of a type is that of a buffered
// writer.
func isBuffered(t types.Type) bool {
	sel := types.NewMethodSet(t).Lookup(nil, "Write")
	if sel == nil {
		return false
	}
	f, ok := sel.Obj().(*types.Func)
	return ok && f.FullName() == "(*bufio.Writer).Write"
}

func (w *failWatch) intercept(c *ai.CallCtx) ([]ai.Out, bool) {
	st := c.St
	if bufferedWrite(c) {
		st.Ghost["dirty"] = "1"
		res := c.Res
		var vs []ai.Val
		for i := 0; i < res.Len(); i++ {
			if types.Identical(res.At(i).Type(), errorT) {
				vs = append(vs, ai.NilOf(errorT))
			} else {
				vs = append(vs, &ai.Top{T: res.At(i).Type()})
			}
		}
		switch len(vs) {
		case 0:
			return []ai.Out{{St: st}}, true
		case 1:
			return []ai.Out{{St: st, Res: vs[0]}}, true
		}
		return []ai.Out{{St: st, Res: &ai.Tuple{Elems: vs}}}, true
	}
	if c.Fn != nil {
		switch ai.FnName(c.Fn) {
		case "(*bufio.Writer).Flush":
			w.step(c, "flushing")
			bad := st.Clone()
			bad.Ghost["failed"] = "flushing at " + w.r.W.P.Pos(c.Pos())
			delete(st.Ghost, "dirty")
			return []ai.Out{{St: st, Res: ai.NilOf(errorT)}, {St: bad, Res: ai.ErrAtom(bad, "err:flush")}}, true
		case "(*" + opcPath + ".Writer).CreatePart", "(*" + opcPath + ".Writer).Create", "(*" + opcPath + ".Writer).Close":
			w.clean(st, "when the next part is created or the package is closed")
			return nil, false
		}
		if textOnly(c.Fn) {
			return []ai.Out{{St: st, Res: &ai.Top{T: c.Fn.Signature.Results().At(0).Type()}}}, true
		}
	}
	call, _ := encoderCall(c, w.encoder)
	switch {
	case call == "EncodeToken" && !w.tokens:
		st.Ghost["dirty"] = "1"
		return []ai.Out{{St: st}}, true
	case call == "Flush" && c.Fn == nil:
		bad := st.Clone()
		bad.Ghost["failed"] = "flushing at " + w.r.W.P.Pos(c.Pos())
		delete(st.Ghost, "dirty")
		return []ai.Out{{St: st, Res: ai.NilOf(errorT)}, {St: bad, Res: ai.ErrAtom(bad, "err:flush")}}, true
	case call == "" && c.Fn == nil && c.Method != nil && c.Method.Name() == "Marshal3MF":
		w.step(c, "Marshal3MF")
		bad := st.Clone()
		st.Ghost["dirty"] = "1"
		bad.Ghost["failed"] = "Marshal3MF at " + w.r.W.P.Pos(c.Pos())
		return []ai.Out{{St: st, Res: ai.NilOf(errorT)}, {St: bad, Res: ai.ErrAtom(bad, "err:marshal")}}, true
	}
	return nil, false
}

func (w *failWatch) clean(st *ai.State, when string) {
	if st.Ghost["dirty"] != "" && st.Ghost["failed"] == "" {
		w.fail("not flushed "+when, "what was written is not flushed %s, so failing to write it would not be noticed", when)
	}
}

// judge looks at the outcomes of an operation.
func (w *failWatch) judge(label string, outs []ai.Out, flushed bool) {
	r := w.r
	ok, bad := 0, map[string]bool{}
	for _, o := range outs {
		res := o.Res
		if t, isT := res.(*ai.Tuple); isT {
			res = t.Elems[len(t.Elems)-1]
		}
		f := o.St.Ghost["failed"]
		v := o.St.Resolve(res)
		nonNil := false
		switch x := v.(type) {
		case *ai.Sym:
			nonNil = o.St.Fact(x.ID).NonNil
		case *ai.Iface:
			nonNil = true
		case *ai.Set:
			nonNil = true
			for _, a := range x.Alts {
				switch y := a.(type) {
				case *ai.Sym:
					nonNil = nonNil && o.St.Fact(y.ID).NonNil
				case *ai.Iface:
				default:
					nonNil = false
				}
			}
		}
		switch {
		case f == "":
			if ai.IsNil(v) {
				ok++
				if flushed {
					w.clean(o.St, "when "+label+" succeeds")
				}
			}
		case nonNil:
			bad[f] = true
		default:
			w.fail("swallowed: "+f, "%s may report success although %s failed", label, f)
		}
	}
	for f := range bad {
		r.OK("the failure of a step makes the operation fail", label+": "+f)
	}
	r.Assert(ok > 0, "the operation can succeed", label, label, "no path of %s returns without an error (limits %v)", label, w.e.Limits)
	r.limits(w.e, label)
	r.engineFns(w.e)
	r.Count("steps that may fail", len(w.steps))
	var ks []string
	for k := range w.fails {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.Fail(k, label, "%s", w.fails[k])
	}
}

func checkC13(r *Report) {
	r.Rule("abstract interpretation of encoding a model of any size, with every fallible step (creating a part, writing, copying, flushing, marshalling an asset, element or attribute group, closing) failing or not: a failure on a path must reach the result as a non-nil error, and everything written to the buffer is flushed before the part ends; every implementation of Marshal3MF is judged on its own")
	et, at := r.W.Type("spec", "Encoder"), r.W.Type("spec", "Marshaler")
	ne, enc, mm := r.W.Func("", "NewEncoder"), r.W.Method("", "Encoder", "Encode"), r.W.Func("", "MarshalModel")
	mt := r.W.Type("", "Model")
	if et == nil || at == nil || ne == nil || enc == nil || mt == nil || mm == nil {
		r.Fail("undecided: anchors", "encoder", "spec.Encoder, Marshaler, NewEncoder, Encoder.Encode, MarshalModel or Model not found")
		return
	}
	ei, mi := et.Underlying().(*types.Interface), at.Underlying().(*types.Interface)
	// the token encoder
	for _, pt := range r.W.implementors(ei) {
		for _, name := range []string{"EncodeToken", "Flush"} {
			fn := r.W.P.SSA.LookupMethod(pt, nil, name)
			_, n := namedType(elemType(pt))
			label := n + "." + name
			if fn == nil || len(fn.Blocks) == 0 {
				r.Fail("undecided: "+label, label, "%s has no body", label)
				continue
			}
			w := r.newFailWatch(ei)
			w.tokens = true
			st := w.e.NewState()
			st.NonNil("enc")
			args := []ai.Val{ai.Atom("enc", pt)}
			if name == "EncodeToken" {
				args = append(args, ai.Atom("token", fn.Signature.Params().At(0).Type()))
			}
			outs := w.e.Call(st, fn, args, nil, label, nil)
			if fn.Signature.Results().Len() == 0 {
				for i := range outs {
					outs[i].Res = ai.NilOf(errorT)
				}
			}
			w.judge(label, outs, false)
		}
	}
	// implementations of Marshal3MF
	for _, pt := range r.W.implementations(mi) {
		p, n := namedType(elemType(pt))
		fn := r.W.P.SSA.LookupMethod(pt, nil, "Marshal3MF")
		label := p[strings.LastIndex(p, "/")+1:] + "." + n + ".Marshal3MF"
		if fn == nil {
			r.Fail("undecided: "+label, label, "%s not found", label)
			continue
		}
		w := r.newFailWatch(ei)
		st := w.e.NewState()
		for _, id := range []string{"x", "start", "recv"} {
			st.NonNil(id)
		}
		ps := fn.Signature.Params()
		outs := w.e.Call(st, fn, []ai.Val{ai.Atom("recv", pt), ai.Atom("x", ps.At(0).Type()), ai.Atom("start", ps.At(1).Type())}, nil, label, nil)
		w.judge(label, outs, false)
	}
	// encoding
	model := ai.Atom("m", types.NewPointer(mt))
	w := r.newFailWatch(ei)
	st := w.e.NewState()
	st.NonNil("output")
	st.NonNil("m")
	o := w.e.Call(st, ne, []ai.Val{ai.Atom("output", ne.Signature.Params().At(0).Type())}, nil, "NewEncoder", nil)
	if len(o) != 1 {
		r.Fail("undecided: NewEncoder", "NewEncoder", "%d outcomes", len(o))
		return
	}
	w.judge("Encode", w.e.Call(o[0].St, enc, []ai.Val{o[0].Res, model}, nil, "Encode", nil), true)
	w = r.newFailWatch(ei)
	st = w.e.NewState()
	st.NonNil("m")
	w.judge("MarshalModel", w.e.Call(st, mm, []ai.Val{model}, nil, "MarshalModel", nil), true)
	// writers that own a file
	if wc, cl := r.W.Type("", "WriteCloser"), r.W.Method("", "WriteCloser", "Close"); wc != nil && cl != nil {
		w = r.newFailWatch(ei)
		st = w.e.NewState()
		st.NonNil("w")
		w.judge("WriteCloser.Close", w.e.Call(st, cl, []ai.Val{ai.Atom("w", types.NewPointer(wc))}, nil, "Close", nil), true)
	}
	if cw := r.W.Func("", "CreateWriter"); cw != nil {
		w = r.newFailWatch(ei)
		st = w.e.NewState()
		w.judge("CreateWriter", w.e.Call(st, cw, []ai.Val{ai.Atom("name", types.Typ[types.String])}, nil, "CreateWriter", nil), true)
	}
}

// implementors lists all struct types of the repository, exported or not,
// whose pointers implement an interface.
func (w *World) implementors(it *types.Interface) []types.Type {
	var out []types.Type
	var paths []string
	for pp := range w.P.ByPath {
		paths = append(paths, pp)
	}
	sort.Strings(paths)
	for _, pp := range paths {
		p := w.P.ByPath[pp]
		for _, n := range sortedKeys(p.Members) {
			if _, ok := p.Members[n].(*ssa.Type); !ok {
				continue
			}
			nt, ok := p.Members[n].Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if pt := types.NewPointer(nt); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	return out
}
