package checks

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/load"
)

// modeWatch follows the tokens that encoding a model of any size hands to the
// token encoder, with the open elements and the modes of the encoder as
// typestate.
type modeWatch struct {
	r       *Report
	e       *ai.Engine
	sites   map[string]bool
	fails   map[string]string
	encoder *types.Interface
	group   *types.Interface
}

func (m *modeWatch) fail(key, f string, a ...any) {
	if m.fails[key] == "" {
		m.fails[key] = fmt.Sprintf(f, a...)
	}
}

// implementations lists the exported struct types of the repository whose
// pointers implement an interface.
func (w *World) implementations(it *types.Interface) []types.Type {
	var out []types.Type
	var paths []string
	for pp := range w.P.ByPath {
		paths = append(paths, pp)
	}
	sort.Strings(paths)
	for _, pp := range paths {
		p := w.P.ByPath[pp]
		var names []string
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Type); ok && m.Object().Exported() {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			nt, ok := p.Members[n].Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, ok := nt.Underlying().(*types.Struct); !ok {
				continue
			}
			if pt := types.NewPointer(nt); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	return out
}

func (m *modeWatch) place(c *ai.CallCtx) string {
	return m.r.W.P.Pos(c.Pos())
}

func nameKey(st *ai.State, v ai.Val) string {
	n := GetPath(st, v, ".Name.Local")
	s := GetPath(st, v, ".Name.Space")
	f := func(v ai.Val) string {
		if v == nil {
			return "?"
		}
		v = st.Resolve(v)
		if t, ok := ai.ConstStr(v); ok {
			return t
		}
		return v.Key()
	}
	return f(s) + ":" + f(n)
}

func (m *modeWatch) intercept(c *ai.CallCtx) ([]ai.Out, bool) {
	st := c.St
	name := ""
	if c.Fn != nil {
		name = ai.FnName(c.Fn)
	}
	if name == "(*"+opcPath+".Writer).CreatePart" || name == "(*"+opcPath+".Writer).Create" {
		m.between(st, "when the next part is created")
		return nil, false
	}
	if c.Fn != nil && len(c.Fn.Blocks) == 0 {
		return nil, false
	}
	if c.Fn != nil && textOnly(c.Fn) {
		return []ai.Out{{St: st, Res: &ai.Top{T: c.Fn.Signature.Results().At(0).Type()}}}, true
	}
	call, args := encoderCall(c, m.encoder)
	switch {
	case call == "" && c.Fn == nil && c.Method != nil && c.Method.Name() == "Marshal3MF":
		return m.summary(c)
	case call == "":
		return nil, false
	}
	flag := func(k string) ([]ai.Out, bool) {
		b, ok := ai.ConstBool(st.Resolve(args[0]))
		if !ok {
			m.fail("undecided: mode", "a mode of the encoder is set to a value that is not constant at %s", m.place(c))
			return nil, false
		}
		delete(st.Ghost, k)
		if b {
			st.Ghost[k] = "on"
		}
		return []ai.Out{{St: st}}, true
	}
	switch call {
	case "SetAutoClose":
		return flag("auto")
	case "SetSkipAttrEscape":
		return flag("skip")
	case "EncodeToken":
		m.sites[m.place(c)+c.Site] = true
		m.token(c, args[0])
		return []ai.Out{{St: st}}, true
	}
	return nil, false
}

// between judges a place where no element may be open.
func (m *modeWatch) between(st *ai.State, when string) {
	if s := st.Ghost["open"]; s != "" {
		m.fail("open: "+s, "element %s is still open %s", s, when)
	}
	for _, k := range []string{"auto", "skip"} {
		if st.Ghost[k] != "" {
			m.fail("mode: "+k, "mode %s is still on %s", modeName[k], when)
		}
	}
}

var modeName = map[string]string{"auto": "self-closing", "skip": "escape-skipping"}

// encoderCall is the method of an implementation of the encoder interface that
// is called, and its arguments.
func encoderCall(c *ai.CallCtx, encoder *types.Interface) (string, []ai.Val) {
	switch {
	case c.Fn == nil && c.Method != nil:
		if it, ok := c.IType.Underlying().(*types.Interface); ok && types.Implements(it, encoder) {
			return c.Method.Name(), c.Args
		}
	case c.Fn != nil && c.Fn.Signature.Recv() != nil && types.Implements(c.Fn.Signature.Recv().Type(), encoder):
		return c.Fn.Name(), c.Args[1:]
	}
	return "", nil
}

// textOnly tells whether a function of the repository computes text and cannot
// reach the encoder.
func textOnly(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	if res.Len() != 1 || len(fn.FreeVars) > 0 || !load.InRepo(fn) {
		return false
	}
	b, ok := res.At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsString == 0 {
		return false
	}
	for _, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Basic, *types.Array:
		case *types.Slice:
			if _, ok := t.Elem().Underlying().(*types.Basic); !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (m *modeWatch) token(c *ai.CallCtx, tok ai.Val) {
	st := c.St
	tok = st.Resolve(tok)
	alts := []ai.Val{tok}
	if s, ok := tok.(*ai.Set); ok {
		alts = s.Alts
	}
	open := st.Ghost["open"]
	for _, t := range alts {
		i, ok := t.(*ai.Iface)
		if !ok {
			m.fail("undecided: token "+m.place(c), "the token written at %s is not determined", m.place(c))
			return
		}
		_, n := namedType(i.Dyn)
		switch n {
		case "StartElement":
			delete(st.Ghost, "closed")
			if st.Ghost["auto"] != "" {
				st.Ghost["closed"] = "1"
				continue
			}
			open += "/" + nameKey(st, i.V)
			if strings.Count(open, "/") > 40 {
				m.fail("nesting "+m.place(c), "elements are opened without bound at %s", m.place(c))
				return
			}
		case "EndElement":
			delete(st.Ghost, "closed")
			k := "/" + nameKey(st, i.V)
			if !strings.HasSuffix(open, k) {
				m.fail("pair "+m.place(c), "the end tag of %s is written at %s while %q is open", k[1:], m.place(c), open)
				return
			}
			open = strings.TrimSuffix(open, k)
		case "CharData":
			if st.Ghost["closed"] != "" {
				m.fail("content "+m.place(c), "text is written at %s after an element that closed itself", m.place(c))
			}
		}
	}
	if len(alts) > 1 && open != st.Ghost["open"] {
		m.fail("undecided: token "+m.place(c), "different tokens may be written at %s", m.place(c))
	}
	if open == "" {
		delete(st.Ghost, "open")
	} else {
		st.Ghost["open"] = open
	}
}

// summary is what a call of an element, resource or attribute group may do:
// fail or leave open elements and modes as they were. Every implementation of
// the repository is judged on its own.
func (m *modeWatch) summary(c *ai.CallCtx) ([]ai.Out, bool) {
	st := c.St
	if it, ok := c.IType.Underlying().(*types.Interface); ok && !types.Implements(it, m.group) {
		for _, k := range []string{"auto", "skip"} {
			if st.Ghost[k] != "" {
				m.fail("mode "+k+" at "+m.place(c), "mode %s is on while the element at %s is asked to write itself", modeName[k], m.place(c))
			}
		}
		if st.Ghost["open"] == "" {
			m.fail("outside "+m.place(c), "the element at %s is asked to write itself while no element is open", m.place(c))
		}
	}
	delete(st.Ghost, "closed")
	m.r.OK("modes are off when an element is asked to write itself", m.place(c))
	bad := st.Clone()
	return []ai.Out{{St: st, Res: ai.NilOf(errorT)}, {St: bad, Res: ai.ErrAtom(bad, "err:marshal")}}, true
}

// c11Marshal judges every implementation of Marshal3MF.
func (r *Report) c11Marshal(enc, marsh, group *types.Interface) {
	for _, pt := range r.W.implementations(marsh) {
		if os.Getenv("AITRACE") != "" {
			fmt.Fprintln(os.Stderr, pt)
		}
		p, n := namedType(elemType(pt))
		isGroup := types.Implements(pt, group)
		if strings.HasSuffix(p, "/spec") && n == "UnknownTokens" || n == "UnknownAsset" {
			continue // writes the tokens it was given: C10
		}
		fn := r.W.P.SSA.LookupMethod(pt, nil, "Marshal3MF")
		if fn == nil {
			r.Fail("undecided: "+n, n, "%s.Marshal3MF not found", n)
			continue
		}
		label := p[strings.LastIndex(p, "/")+1:] + "." + n + ".Marshal3MF"
		e := r.W.Engine()
		m := &modeWatch{r: r, e: e, sites: map[string]bool{}, fails: map[string]string{}, encoder: enc, group: group}
		e.Intercept = m.intercept
		e.Peel, e.WidenAfter, e.Coarse = 0, 2, true
		e.Debug = os.Getenv("AIDBG") != ""
		st := e.NewState()
		for _, id := range []string{"x", "start", "recv"} {
			st.NonNil(id)
		}
		sig := fn.Signature
		st.Ghost["open"] = "/caller"
		outs := e.Call(st, fn, []ai.Val{ai.Atom("recv", pt), ai.Atom("x", sig.Params().At(0).Type()), ai.Atom("start", sig.Params().At(1).Type())}, nil, "Marshal3MF", nil)
		ok := 0
		for _, o := range outs {
			if !ai.IsNil(o.St.Resolve(o.Res)) {
				continue // encoding fails
			}
			ok++
			if g := o.St.Ghost["open"]; g != "/caller" {
				m.fail("open after "+label, "%s leaves %q open", label, strings.TrimPrefix(g, "/caller"))
			}
			for _, k := range []string{"auto", "skip"} {
				if o.St.Ghost[k] != "" {
					m.fail("mode "+k+" after "+label, "%s leaves the %s mode on", label, modeName[k])
				}
			}
		}
		if isGroup && len(m.sites) > 0 {
			m.fail("tokens in "+label, "%s writes tokens, but the element is not written yet", label)
		}
		r.Assert(ok > 0, "marshalling ends with the elements and modes as before", label, label, "no path of %s returns without an error (limits %v)", label, e.Limits)
		m.finish(label)
	}
}

func (m *modeWatch) finish(where string) {
	m.r.limits(m.e, where)
	m.r.engineFns(m.e)
	for s := range m.sites {
		m.r.OK("tokens are written in balance", s)
	}
	m.r.Count("places that write tokens", len(m.sites))
	for k, f := range m.fails {
		m.r.Fail(k, where, "%s", f)
	}
}

// c11Typestate interprets the encoder over models of any size.
func (r *Report) c11Typestate() {
	et, gt, at := r.W.Type("spec", "Encoder"), r.W.Type("spec", "AttrGroup"), r.W.Type("spec", "Marshaler")
	ne, enc := r.W.Func("", "NewEncoder"), r.W.Method("", "Encoder", "Encode")
	mm := r.W.Func("", "MarshalModel")
	mt := r.W.Type("", "Model")
	if et == nil || gt == nil || at == nil || ne == nil || enc == nil || mt == nil || mm == nil {
		r.Fail("undecided: anchors", "encoder", "spec.Encoder, AttrGroup, Marshaler, NewEncoder, Encoder.Encode, MarshalModel or Model not found")
		return
	}
	ei, gi, mi := et.Underlying().(*types.Interface), gt.Underlying().(*types.Interface), at.Underlying().(*types.Interface)
	r.c11Marshal(ei, mi, gi)
	for k, entry := range []string{"Encode", "MarshalModel"} {
		e := r.W.Engine()
		m := &modeWatch{r: r, e: e, sites: map[string]bool{}, fails: map[string]string{}, encoder: ei, group: gi}
		e.Intercept = m.intercept
		e.Peel, e.WidenAfter, e.Coarse = 0, 2, true
		e.Debug = os.Getenv("AIDBG") != ""
		if os.Getenv("AITRACE") != "" {
			n := map[string]int{}
			e.OnEnter = func(fn *ssa.Function, st *ai.State, args []ai.Val) {
				n[fn.String()]++
				if k := n[fn.String()]; k&(k-1) == 0 {
					fmt.Fprintln(os.Stderr, k, fn.String(), st.Ghost)
				}
			}
		}
		st := e.NewState()
		out := ai.Atom("output", ne.Signature.Params().At(0).Type())
		st.NonNil("output")
		model := ai.Atom("m", types.NewPointer(mt))
		st.NonNil("m")
		var outs []ai.Out
		if k == 0 {
			o := e.Call(st, ne, []ai.Val{out}, nil, "NewEncoder", nil)
			if len(o) != 1 {
				r.Fail("undecided: NewEncoder", "NewEncoder", "%d outcomes", len(o))
				return
			}
			outs = e.Call(o[0].St, enc, []ai.Val{o[0].Res, model}, nil, "Encode", nil)
		} else {
			outs = e.Call(st, mm, []ai.Val{model}, nil, "MarshalModel", nil)
		}
		ok := 0
		for _, o := range outs {
			res := o.Res
			if t, isT := res.(*ai.Tuple); isT {
				res = t.Elems[1]
			}
			if ai.IsNil(o.St.Resolve(res)) {
				ok++
				m.between(o.St, "when encoding ends")
			}
		}
		r.Assert(ok > 0, "encoding ends", entry, entry, "no path of %s returns without an error (limits %v)", entry, e.Limits)
		m.finish(entry)
	}
}

func checkC11(r *Report) {
	r.Rule("typestate analysis of the token encoder (open elements, self-closing, escape-skipping) over all paths of Encode and MarshalModel for a model of any size")
	r.c11Typestate()
	r.Rule("reading the abstract output of encoding abstract models as XML: elements balance, names and attributes are well-formed and not repeated, prefixes are declared")
	r.documents("C11", "dup", "ns")
}

// documents encodes the models of the codec checks and reads their parts.
func (r *Report) documents(kinds ...string) {
	doc := map[string]bool{}
	for _, k := range kinds {
		doc[k] = true
	}
	type job struct {
		sh  *Shape
		cfg *codecConfig
	}
	var jobs []job
	add := func(cfg *codecConfig, shapes []*Shape) {
		if cfg == nil {
			return
		}
		c := *cfg
		c.doc = doc
		for _, sh := range chosen(shapes) {
			jobs = append(jobs, job{sh, &c})
		}
	}
	if cfg := r.coreConfig(); cfg != nil {
		add(cfg, r.codecShapes(cfg))
	}
	for _, x := range extLists {
		if cfg := r.extConfig(x.rel, x.ns, x.lists); cfg != nil {
			add(cfg, r.codecShapes(cfg))
		}
	}
	if u := r.unknowns(); u != nil {
		shapes, cfg := r.c10Shapes(u)
		add(cfg, shapes)
	}
	parallel(len(jobs), func(i int) { r.codecRun(jobs[i].sh, jobs[i].cfg, nil) })
}

func checkC12(r *Report) {
	r.Rule("abstract interpretation of Encoder.Encode over abstract models (every text of the model is a distinct unconstrained symbol): every piece of the output that stems from a symbol of the model is either written through the XML escaping of the standard library or is the text of a number, and no constant written unescaped in text or in an attribute value holds markup")
	r.documents("C12")
}

var extLists = []struct {
	rel, ns string
	lists   func(string) int
}{{"materials", nsMat, noLists}, {"beamlattice", nsBeam, objectLists}, {"slices", nsSlice, objectLists}, {"production", nsProd, productionLists}}
