package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/ai"
)

// resources follows what the library opens: a call of a function outside of
// the library whose result can be closed, and that is not given something to
// read from or write to that somebody else opened, opens a resource.
type resources struct {
	r      *Report
	closer *types.Interface
	given  []*types.Interface
	mu     sync.Mutex
	sites  map[token.Pos]bool // opened at some time
}

func newResources(r *Report) *resources {
	s := &resources{r: r, sites: map[token.Pos]bool{}}
	iface := func(pkg, name string) *types.Interface {
		if p := r.W.P.SSA.ImportedPackage(pkg); p != nil {
			if t := p.Type(name); t != nil {
				return t.Type().Underlying().(*types.Interface)
			}
		}
		return nil
	}
	s.closer = iface("io", "Closer")
	for _, n := range []string{"Reader", "Writer", "ReaderAt", "Closer"} {
		if t := iface("io", n); t != nil {
			s.given = append(s.given, t)
		}
	}
	return s
}

// opens tells whether a call of a function with this signature opens a
// resource, and which result that is.
func (s *resources) opens(sig *types.Signature) int {
	for i := 0; i < sig.Params().Len(); i++ {
		for _, t := range s.given {
			if types.Implements(sig.Params().At(i).Type(), t) {
				return -1
			}
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if types.Implements(sig.Results().At(i).Type(), s.closer) {
			return i
		}
	}
	return -1
}

// external tells whether a call leaves the library, and to which signature.
func (s *resources) external(cc *ssa.CallCommon) *types.Signature {
	if cc.IsInvoke() {
		if p := cc.Method.Pkg(); p != nil && s.r.W.P.ByPath[p.Path()] == nil {
			return cc.Signature()
		}
		return nil
	}
	if fn := cc.StaticCallee(); fn != nil && fn.Pkg != nil && s.r.W.P.ByPath[fn.Pkg.Pkg.Path()] == nil {
		return cc.Signature()
	}
	return nil
}

// calledPkg is the package that declares what is called.
func calledPkg(c *ai.CallCtx) *types.Package {
	switch {
	case c.Fn != nil && c.Fn.Pkg != nil:
		return c.Fn.Pkg.Pkg
	case c.Fn == nil && c.Method != nil:
		return c.Method.Pkg()
	}
	return nil
}

const opened = "open resource "

func (s *resources) open(c *ai.CallCtx, st *ai.State, id string) {
	s.mu.Lock()
	s.sites[c.Instr.Pos()] = true
	s.mu.Unlock()
	st.Ghost[opened+id] = strconv.Itoa(ghostInt(st, opened+id) + 1)
}

// left are the resources that are open.
func (s *resources) left(st *ai.State) []string {
	var out []string
	for k := range st.Ghost {
		if strings.HasPrefix(k, opened) && ghostInt(st, k) > 0 {
			out = append(out, strings.TrimPrefix(k, opened))
		}
	}
	sort.Strings(out)
	return out
}

// intercept models the functions that open and close; part tells to which
// stream of the package something belongs.
func (s *resources) intercept(c *ai.CallCtx, part func(v ai.Val) string) ([]ai.Out, bool) {
	st := c.St
	var recv ai.Val
	name := ""
	switch {
	case c.Fn == nil && c.Method != nil:
		name, recv = c.Method.Name(), c.Recv
	case c.Fn != nil && c.Fn.Signature.Recv() != nil && len(c.Args) > 0:
		name, recv = c.Fn.Name(), c.Args[0]
	}
	if p := calledPkg(c); p == nil || s.r.W.P.ByPath[p.Path()] != nil {
		return nil, false
	}
	if name == "Close" && recv != nil {
		id := ""
		if i, ok := recv.(*ai.Iface); ok {
			recv = i.V
		}
		if y, ok := recv.(*ai.Sym); ok && strings.HasPrefix(y.ID, "resource ") {
			id = y.ID
		} else if p := part(recv); ok && p != "" {
			id = "stream of " + p
		}
		if id != "" {
			if n := ghostInt(st, opened+id); n > 0 {
				st.Ghost[opened+id] = strconv.Itoa(n - 1)
			}
		}
		return nil, false
	}
	if c.Instr == nil || c.Res == nil {
		return nil, false
	}
	sig := c.Sig
	if c.Fn != nil {
		sig = c.Fn.Signature
	}
	k := s.opens(sig)
	if k < 0 || c.Fn != nil && ai.FnName(c.Fn) == "(*"+opcPath+".File).Open" {
		return nil, false
	}
	id := fmt.Sprintf("resource %s %d", s.r.W.P.Pos(c.Pos()), len(st.Ghost))
	mk := func(st *ai.State, ok bool) ai.Out {
		t := &ai.Tuple{}
		for i := 0; i < c.Res.Len(); i++ {
			rt := c.Res.At(i).Type()
			switch {
			case i == k && ok:
				st.NonNil(id)
				t.Elems = append(t.Elems, ai.Atom(id, rt))
			case i == k:
				t.Elems = append(t.Elems, ai.NilOf(rt))
			case types.Identical(rt, errorT) && ok:
				t.Elems = append(t.Elems, ai.NilOf(rt))
			case types.Identical(rt, errorT):
				t.Elems = append(t.Elems, ai.ErrAtom(st, "err:"+id))
			default:
				t.Elems = append(t.Elems, ai.Atom(fmt.Sprint(id, " result ", i), rt))
			}
		}
		if ok {
			s.open(c, st, id)
		}
		if len(t.Elems) == 1 {
			return ai.Out{St: st, Res: t.Elems[0]}
		}
		return ai.Out{St: st, Res: t}
	}
	return []ai.Out{mk(st.Clone(), false), mk(st, true)}, true
}

func checkC24(r *Report) {
	r.Rule("typestate of what is opened, by abstract interpretation: every call that opens something (a function outside of the library whose result can be closed and that is not given a stream) is followed on all paths of the functions that reach it, with each step that can fail failing or not: at the end it must have been closed, or closing the result must close it; a call that opens something and is not reached by any of these analyses is a violation")
	s := newResources(r)
	if s.closer == nil {
		r.Fail("undecided: io", "io", "io.Closer not found")
		return
	}
	s.package_()
	s.files()
	s.reached()
}

// package_ follows the streams of the parts of packages.
func (s *resources) package_() {
	r := s.r
	judge := func(label, kind string, happened bool, rd *Reader, outs []ai.Out) {
		for _, o := range outs {
			for _, id := range s.left(o.St) {
				r.Fail("left open: "+kind, label, "decoding %s returns without closing the %s", label, id)
			}
			r.OK("streams are closed", label)
		}
		r.Count("decoded packages", 1)
	}
	prepare := func(rd *Reader) {
		more := rd.More
		rd.More = func(c *ai.CallCtx) ([]ai.Out, bool) {
			if out, ok := s.intercept(c, func(v ai.Val) string { return rd.partOf(c.St, v) }); ok {
				return out, true
			}
			if more != nil {
				return more(c)
			}
			return nil, false
		}
		rd.OnOpen = func(c *ai.CallCtx, st *ai.State, part string) { s.open(c, st, "stream of "+part) }
	}
	r.faultRuns(prepare, judge)

	// without failures, cancelled, or with parts that are wrong
	type job struct {
		order, at int
		strict    bool
		what      string
	}
	var jobs []job
	for order := 0; order < 6; order++ {
		for _, strict := range []bool{true, false} {
			jobs = append(jobs, job{order, 0, strict, "complete"})
			if order == 0 || r.Thorough() {
				for at := 0; at < 60; at += 4 {
					jobs = append(jobs, job{order, at, strict, "cancelled"})
				}
			}
			for i := range []string{rootPart, "/3D/a.model", "/3D/sub/b.model", "/other/c.model"} {
				jobs = append(jobs, job{order, i, strict, "wrong"})
			}
		}
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		wrong := ""
		if j.what == "wrong" {
			wrong = []string{rootPart, "/3D/a.model", "/3D/sub/b.model", "/other/c.model"}[j.at]
		}
		doc := func(part string) []Tok {
			id := "7"
			if part == wrong {
				id = "x"
			}
			return Elem(nsCore, "model", nil,
				Elem(nsCore, "resources", nil,
					Elem(nsCore, "object", []Attr{{Local: "id", Val: BytesVal(id)}}, Elem(nsCore, "mesh", nil))),
				Elem("http://other", "x", nil, Text(BytesVal("y"))))
		}
		rd := r.partReader(testPackage(doc, j.order, j.order%2 == 0))
		label := fmt.Sprintf("a %s package (order %d, strict: %v", j.what, j.order, j.strict)
		if j.what != "complete" {
			label += fmt.Sprint(", ", j.at)
		}
		label += ")"
		ctxs := &stlRun{r: r, cancel: 1 << 30}
		if j.what == "cancelled" {
			ctxs.cancel = j.at
		}
		rd.E.OnSelect = onCancelled(func(st *ai.State) bool { return ghostInt(st, "units") >= ctxs.cancel })
		rd.More = func(c *ai.CallCtx) ([]ai.Out, bool) {
			if c.Fn == nil || ai.FnName(c.Fn) == "context.WithCancel" {
				return ctxs.intercept(c)
			}
			return nil, false
		}
		rd.OnToken = func(c *ai.CallCtx, part string, pos int) { ctxs.took(c.St) }
		prepare(rd)
		st := rd.E.NewState()
		scale(r.W, rd.E, st, []string{""}, scaledEvery)
		outs, err := rd.RunPackageIn(st, "M", j.strict)
		r.engineFns(rd.E)
		r.limits(rd.E, label)
		if err != nil || len(outs) == 0 || len(rd.Panics) > 0 {
			r.Fail("undecided: package", label, "decoding %s: %v, %d outcomes, panics %v", label, err, len(outs), sortedKeys(rd.Panics))
			return
		}
		judge(label, j.what, true, rd, outs)
	})
}

// files follows what exported functions open.
func (s *resources) files() {
	r := s.r
	reach := map[*ssa.Function]bool{}
	var opensSomething func(fn *ssa.Function, seen map[*ssa.Function]bool) bool
	opensSomething = func(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
		if seen[fn] {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Pkg != nil && r.W.P.ByPath[g.Pkg.Pkg.Path()] != nil && opensSomething(g, seen) {
						return true
					}
				}
				if cc, ok := in.(ssa.CallInstruction); ok {
					if sig := s.external(cc.Common()); sig != nil && s.opens(sig) >= 0 {
						return true
					}
				}
			}
		}
		return false
	}
	for _, p := range r.W.P.Pkgs {
		sp := r.W.P.ByPath[p.PkgPath]
		for _, n := range sp.Pkg.Scope().Names() {
			fn := sp.Func(n)
			if fn != nil && token.IsExported(n) && opensSomething(fn, map[*ssa.Function]bool{}) {
				reach[fn] = true
			}
		}
	}
	var fns []*ssa.Function
	for fn := range reach {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return ai.FnName(fns[i]) < ai.FnName(fns[j]) })
	for _, fn := range fns {
		name := ai.FnName(fn)
		e := r.W.Engine()
		e.PathSensitive, e.MaxParts = true, 256
		panics := false
		e.OnPanic = func(*ai.State, *ssa.Function, token.Position, string) { panics = true }
		e.Intercept = func(c *ai.CallCtx) ([]ai.Out, bool) {
			return s.intercept(c, func(ai.Val) string { return "" })
		}
		st := e.NewState()
		var args []ai.Val
		for i, p := range fn.Params {
			args = append(args, ai.Atom(fmt.Sprint("arg", i), p.Type()))
		}
		outs := e.Call(st, fn, args, nil, name, nil)
		r.engineFns(e)
		r.limits(e, name)
		if len(outs) == 0 || panics {
			r.Fail("undecided: "+name, name, "%s: %d outcomes (panics: %v)", name, len(outs), panics)
			continue
		}
		for _, o := range outs {
			for _, f := range s.closeResults(e, o, fn.Signature.Results()) {
				for _, id := range s.left(f.St) {
					r.Fail("left open: "+name, name, "%s returns %s without closing %s, and closing the result does not either", name, short(o.Res), id)
				}
				r.OK("files are closed or handed out", name)
			}
		}
		r.Count("functions that open files", 1)
	}
}

// closeResults closes the results that can be closed.
func (s *resources) closeResults(e *ai.Engine, o ai.Out, res *types.Tuple) []ai.Out {
	vals := []ai.Val{o.Res}
	if t, ok := o.Res.(*ai.Tuple); ok {
		vals = t.Elems
	}
	outs := []ai.Out{{St: o.St}}
	for i, v := range vals {
		if i >= res.Len() || !types.Implements(res.At(i).Type(), s.closer) {
			continue
		}
		var next []ai.Out
		for _, x := range outs {
			if isNil, known := ai.ConstBool(x.St.IsNilCond(v)); known && isNil {
				next = append(next, x)
				continue
			}
			v, t := v, res.At(i).Type()
			if f, ok := v.(*ai.Iface); ok && f.Dyn != nil {
				v, t = f.V, f.Dyn
			}
			if y, ok := v.(*ai.Sym); ok && strings.HasPrefix(y.ID, "resource ") {
				x.St.Ghost[opened+y.ID] = "0"
				next = append(next, x)
				continue
			}
			fn := s.r.W.P.SSA.LookupMethod(t, nil, "Close")
			if types.IsInterface(t) || fn == nil {
				s.r.Fail("undecided: result", short(v), "%s cannot be closed by the analysis", short(v))
				continue
			}
			next = append(next, e.Call(x.St, fn, []ai.Val{v}, nil, "Close", nil)...)
		}
		outs = next
	}
	return outs
}

// reached requires that every call that opens something was followed.
func (s *resources) reached() {
	r := s.r
	n := 0
	for fn := range ssautil.AllFunctions(r.W.P.SSA) {
		if fn.Pkg == nil || r.W.P.ByPath[fn.Pkg.Pkg.Path()] == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if sig := s.external(cc.Common()); sig == nil || s.opens(sig) < 0 {
					continue
				}
				n++
				place := r.W.P.Pos(r.W.P.Fset.Position(cc.Pos()))
				r.Assert(s.sites[cc.Pos()], "every opening is followed", "not followed "+ai.FnName(fn), fmt.Sprint(place), "%s opens something at %v that the analysis does not reach", ai.FnName(fn), place)
			}
		}
	}
	r.Count("places that open something", n)
	if n == 0 {
		r.Fail("undecided: nothing opened", "library", "no place of the library opens anything")
	}
}
