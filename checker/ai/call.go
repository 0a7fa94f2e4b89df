package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (a *activation) call(n *node, in ssa.Instruction, cc *ssa.CallCommon, f *frame, res ssa.Value) []*frame {
	return a.callWith(n, in, cc, f, res, false)
}

func (a *activation) callWith(n *node, in ssa.Instruction, cc *ssa.CallCommon, f *frame, res ssa.Value, isGo bool) []*frame {
	var args []Val
	for _, x := range cc.Args {
		args = append(args, a.get(f, x))
	}
	var fn, recv Val
	if cc.IsInvoke() {
		recv = a.get(f, cc.Value)
	} else {
		fn = a.get(f, cc.Value)
	}
	return a.dispatch(n, in, cc, f, fn, recv, args, res, isGo)
}

func (a *activation) dispatch(n *node, in ssa.Instruction, cc *ssa.CallCommon, f *frame, fn, recv Val, args []Val, res ssa.Value, isGo bool) []*frame {
	site := a.e.id(a.site + "/" + a.fn.String() + "/" + n.key + "/" + fmt.Sprint(in.Pos()) + posTag(in))
	ctx := &CallCtx{E: a.e, St: f.st, Args: args, Instr: in, Caller: a.fn, Site: site, Res: cc.Signature().Results(), Depth: a.depth, Sig: cc.Signature(), Stack: a.stack}
	finish := func(g *frame, outs []Out) []*frame {
		if isGo && a.e.OnGoEnd != nil {
			for _, o := range outs {
				a.e.OnGoEnd(ctx, o.St)
			}
		}
		var frames []*frame
		for i, o := range outs {
			h := g
			if i < len(outs)-1 {
				h = &frame{regs: make(map[ssa.Value]Val, len(g.regs)), defers: g.defers}
				for k, v := range g.regs {
					h.regs[k] = v
				}
				if g.inexact != nil {
					h.inexact = map[*ssa.BasicBlock]bool{}
					for k := range g.inexact {
						h.inexact[k] = true
					}
				}
			}
			h.st = o.St
			if res != nil {
				if o.Res == nil {
					h.regs[res] = &Top{T: res.Type()}
				} else {
					h.regs[res] = o.Res
				}
			}
			frames = append(frames, h)
		}
		return frames
	}
	_, s1 := fn.(*Set)
	_, s2 := recv.(*Set)
	if isGo && a.e.OnGo != nil && !s1 && !s2 {
		a.e.OnGo(ctx)
	}
	if cc.IsInvoke() {
		ctx.Method = cc.Method
		ctx.IType = cc.Value.Type()
		ctx.Recv = recv
		if s, ok := recv.(*Set); ok {
			var frames []*frame
			for _, alt := range s.Alts {
				frames = append(frames, a.dispatch(n, in, cc, f.clone(), nil, alt, args, res, isGo)...)
			}
			return frames
		}
		if a.e.Intercept != nil {
			if outs, ok := a.e.Intercept(ctx); ok {
				return finish(f, outs)
			}
		}
		switch r := recv.(type) {
		case *Const:
			a.panicAt(f, in, "method "+cc.Method.Name()+" called on a nil interface")
			return nil
		case *Iface:
			if m := a.e.Prog.LookupMethod(r.Dyn, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				ctx.Fn = m
				ctx.Args = append([]Val{r.V}, args...)
				return finish(f, a.invokeFn(ctx, m, nil))
			}
		case *Sym:
			ft := f.st.Fact(r.ID)
			if ft.Eq != nil && IsNil(ft.Eq) {
				a.panicAt(f, in, "method "+cc.Method.Name()+" called on a nil interface")
				return nil
			}
			if ft.Dyn != nil {
				if m := a.e.Prog.LookupMethod(ft.Dyn, cc.Method.Pkg(), cc.Method.Name()); m != nil {
					ctx.Fn = m
					ctx.Args = append([]Val{&Sym{ID: r.ID, T: ft.Dyn, Op: r.Op, Args: r.Args, dep: r.dep}}, args...)
					return finish(f, a.invokeFn(ctx, m, nil))
				}
			}
			if a.e.SymImpl != nil {
				if ts := a.e.SymImpl(f.st, r, cc.Value.Type()); ts != nil {
					var frames []*frame
					for _, t := range ts {
						g := f.clone()
						g.st.AssumeDyn(r.ID, t)
						frames = append(frames, a.dispatch(n, in, cc, g, nil, r, args, res, isGo)...)
					}
					return frames
				}
			}
		}
		return finish(f, a.e.External(ctx))
	}
	switch c := fn.(type) {
	case *Func:
		if c.Bi != nil {
			return a.builtin(n, in, c.Bi, cc, f, args, res)
		}
		ctx.Fn = c.Fn
		return finish(f, a.invokeFn(ctx, c.Fn, c.Free))
	case *Set:
		var frames []*frame
		for _, alt := range c.Alts {
			frames = append(frames, a.dispatch(n, in, cc, f.clone(), alt, nil, args, res, isGo)...)
		}
		return frames
	case *Const:
		if c.V == nil {
			a.panicAt(f, in, "call of a nil function")
			return nil
		}
	}
	// unknown function value
	ctx.Recv = fn
	if a.e.Intercept != nil {
		if outs, ok := a.e.Intercept(ctx); ok {
			return finish(f, outs)
		}
	}
	return finish(f, a.e.External(ctx))
}

func posTag(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return v.Name()
	}
	return fmt.Sprintf("%T%d", in, in.Pos())
}

// CallFn calls fn from a client model (as if from the intercepted site).
func (c *CallCtx) CallFn(st *State, fv Val, args []Val, tag string) []Out {
	switch f := fv.(type) {
	case *Func:
		if f.Fn == nil {
			return []Out{{st, nil}}
		}
		cc := *c
		cc.St = st
		cc.Site = c.E.id(c.Site + tag)
		cc.Fn = f.Fn
		cc.Args = args
		cc.Res = f.Fn.Signature.Results()
		cc.Sig = f.Fn.Signature
		return c.E.invoke(&cc, f.Fn, f.Free)
	case *Set:
		var outs []Out
		for _, a := range f.Alts {
			outs = append(outs, c.CallFn(st.Clone(), a, args, tag)...)
		}
		return outs
	}
	return []Out{{st, nil}}
}

func (a *activation) invokeFn(ctx *CallCtx, fn *ssa.Function, free []Val) []Out {
	return a.e.invoke(ctx, fn, free)
}

func (e *Engine) invoke(ctx *CallCtx, fn *ssa.Function, free []Val) []Out {
	ctx.Fn = fn
	if e.Intercept != nil {
		if outs, ok := e.Intercept(ctx); ok {
			return outs
		}
	}
	if outs, ok := e.stdModel(ctx); ok {
		return outs
	}
	inline := len(fn.Blocks) > 0 && (fn.Pkg == nil || e.InRepo(fn) || searches[FnName(outermost(fn))])
	if inline {
		n := 0
		for _, s := range ctx.Stack {
			if s == fn {
				n++
			}
		}
		if n >= e.MaxRec || len(ctx.Stack) > e.MaxDepth {
			e.Limits["recursion at "+fn.String()]++
			return e.External(ctx)
		}
		st := ctx.St
		outs := e.Call(st, fn, ctx.Args, free, ctx.Site, ctx.Stack)
		if e.Debug && len(outs) > 1 {
			fmt.Fprintln(os.Stderr, "DBG", len(ctx.Stack), fn.String(), ctx.Site, len(outs))
			for _, o := range outs {
				fmt.Fprintln(os.Stderr, "   ", o.Res, o.St.ghostKey())
			}
		}
		return outs
	}
	return e.External(ctx)
}

// Spawn runs fn as a goroutine started by an intercepted call.
// before runs at its end.
func (c *CallCtx) Spawn(st *State, fv Val, args []Val, tag string, before func(*State)) []Out {
	cc := *c
	cc.St = st
	if c.E.OnGo != nil {
		c.E.OnGo(&cc)
	}
	outs := c.CallFn(st, fv, args, tag)
	if before != nil {
		for _, o := range outs {
			before(o.St)
		}
	}
	if c.E.OnGoEnd != nil {
		for _, o := range outs {
			c.E.OnGoEnd(&cc, o.St)
		}
	}
	return outs
}

// External is the default model of a call without analysable body: results
// are uninterpreted functions of the arguments, errors may be nil or not.
func (e *Engine) External(ctx *CallCtx) []Out {
	name := ""
	args := ctx.Args
	switch {
	case ctx.Method != nil:
		name = ctx.Method.Name()
		if ctx.Recv != nil {
			args = append([]Val{ctx.Recv}, args...)
		}
	case ctx.Fn != nil:
		name = ctx.Fn.String()
	default:
		name = "dyn"
	}
	if e.OnExternal != nil {
		e.OnExternal(ctx, name)
	}
	var sargs []Val
	for _, x := range args {
		sargs = append(sargs, e.snapshot(ctx.St, x, 0))
	}
	res := ctx.Res
	n := res.Len()
	mkRes := func(st *State, failed bool) Val {
		var vs []Val
		for i := 0; i < n; i++ {
			t := res.At(i).Type()
			if isErr(t) {
				if failed {
					id := fmt.Sprintf("err:%s@%s", name, ctx.Site)
					e.errAtoms[id] = true
					vs = append(vs, Atom(id, t))
				} else {
					vs = append(vs, NilOf(t))
				}
				continue
			}
			op := name
			if n > 1 {
				op = fmt.Sprintf("%s#%d", name, i)
			}
			v := Term(t, op, sargs...)
			if y, ok := v.(*Sym); ok && e.FreshResults != nil && e.FreshResults(ctx) {
				v = Term(t, op+"@"+ctx.Site, sargs...)
				y = v.(*Sym)
			} else if ok {
				_ = y
			}
			vs = append(vs, v)
		}
		switch n {
		case 0:
			return nil
		case 1:
			return vs[0]
		}
		return &Tuple{Elems: vs}
	}
	hasErr := false
	for i := 0; i < n; i++ {
		if isErr(res.At(i).Type()) {
			hasErr = true
		}
	}
	if !hasErr {
		return []Out{{ctx.St, mkRes(ctx.St, false)}}
	}
	ok := ctx.St.Clone()
	bad := ctx.St
	r1 := mkRes(ok, false)
	r2 := mkRes(bad, true)
	if e.OnFail != nil {
		e.OnFail(ctx, name, bad)
	}
	return []Out{{ok, r1}, {bad, r2}}
}

// snapshot replaces slices of locally built content by the content, so that
// terms built from them are meaningful.
func (e *Engine) snapshot(st *State, v Val, d int) Val {
	if d > 3 {
		return v
	}
	switch x := v.(type) {
	case *Slice:
		if el, ok := st.SliceElems(x); ok && len(el) <= 32 {
			a := &Agg{T: x.T}
			for _, y := range el {
				a.Elems = append(a.Elems, e.snapshot(st, y, d+1))
			}
			return a
		}
		if b := st.bagOf(x); b != nil {
			return b
		}
	case *Iface:
		return e.snapshot(st, x.V, d+1)
	case *Agg:
		n := &Agg{T: x.T}
		for _, y := range x.Elems {
			n.Elems = append(n.Elems, e.snapshot(st, y, d+1))
		}
		return n
	}
	return v
}

func (a *activation) builtin(n *node, in ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, f *frame, args []Val, res ssa.Value) []*frame {
	one := []*frame{f}
	set := func(v Val) []*frame {
		if res != nil {
			f.regs[res] = v
		}
		return one
	}
	st := f.st
	switch b.Name() {
	case "len":
		x := args[0]
		if y, ok := x.(*Sym); ok {
			if _, isMap := y.T.Underlying().(*types.Map); isMap {
				x = st.mapObj(y)
			}
		}
		if _, isMap := cc.Args[0].Type().Underlying().(*types.Map); isMap {
			a.reads(st, in, "len", x, cc.Args[0].Type())
		}
		return set(st.resolve(st.Len(x)))
	case "cap":
		if s, ok := args[0].(*Slice); ok {
			return set(s.Cap)
		}
		return set(&Top{T: types.Typ[types.Int]})
	case "append":
		return set(a.appendVals(n, in, f, args, res))
	case "clear":
		a.target(st, in, "clear", args[0], cc.Args[0].Type())
		if p, ok := args[0].(*Ptr); ok {
			if m, ok := st.LoadPtr(p).(*Map); ok {
				st.StorePtr(p, &Map{T: m.T, Exact: true}, false)
			}
		} else if sl, ok := args[0].(*Slice); ok {
			st.StorePtr(st.ElemPtr(sl, &Top{T: types.Typ[types.Int]}), Zero(elemOf(sl.T)), true)
		}
		return one
	case "copy":
		a.target(st, in, "copy", args[0], cc.Args[0].Type())
		a.reads(st, in, "copy", args[1], cc.Args[1].Type())
		a.copyBuiltin(f, args[0], args[1])
		ln := st.Len(args[1])
		return set(ln)
	case "delete":
		a.target(st, in, "delete", args[0], cc.Args[0].Type())
		if p, ok := args[0].(*Ptr); ok {
			if m, ok := st.LoadPtr(p).(*Map); ok {
				nm := &Map{T: m.T, Exact: m.Exact, Sym: m.Sym}
				for i, k := range m.Keys {
					eq := st.cmpEq(k, args[1])
					if b, ok := ConstBool(eq); ok && b {
						continue
					} else if !ok {
						nm.Exact = false
					}
					nm.Keys = append(nm.Keys, k)
					nm.Vals = append(nm.Vals, m.Vals[i])
				}
				st.StorePtr(p, nm, false)
			}
		}
		return one
	case "close":
		a.onChan(st, in, "close", args[0])
		if p, ok := args[0].(*Ptr); ok {
			if q, ok := st.LoadPtr(p).(*Agg); ok && len(q.Elems) == 2 {
				st.StorePtr(p, &Agg{Elems: []Val{q.Elems[0], Bool(true)}}, false)
			}
		}
		return one
	case "print", "println":
		return one
	case "panic":
		a.panicAt(f, in, "explicit panic")
		return nil
	case "recover":
		return set(NilOf(types.NewInterfaceType(nil, nil)))
	case "min", "max":
		return set(Term(res.Type(), b.Name(), args...))
	}
	if strings.HasPrefix(b.Name(), "ssa:wrapnilchk") {
		return set(args[0])
	}
	if res != nil {
		return set(&Top{T: res.Type(), Prov: ProvAll(args...)})
	}
	return one
}

func (a *activation) copyBuiltin(f *frame, dst, src Val) {
	st := f.st
	if d, ok := dst.(*Slice); ok {
		if str, ok := ConstStr(src); ok {
			for i := range str {
				st.StorePtr(st.ElemPtr(d, Int(int64(i))), &Const{T: types.Typ[types.Byte], V: constant.MakeInt64(int64(str[i]))}, false)
			}
			return
		}
		if el, ok := st.SliceElems(src); ok {
			if n, ok := ConstInt(d.Len); ok && int(n) >= len(el) {
				for i, x := range el {
					st.StorePtr(st.ElemPtr(d, Int(int64(i))), x, false)
				}
				return
			}
		}
		if s, ok := src.(*Sym); ok && len(d.Path) == 0 && d.Off == 0 {
			// a copy of a whole symbolic slice into a fresh one of its length
			if ls, ok := d.Len.(*Sym); ok && ls.ID == "len("+s.ID+")" {
				st.heap.set(d.Obj, &Arr{Elem: elemOf(s.T), Sym: s.ID, Src: s, M: map[int]Val{}})
				return
			}
		}
		if b := st.bagOf(src); b != nil && len(b.May) > 0 {
			st.StorePtr(st.ElemPtr(d, &Top{T: types.Typ[types.Int]}), mkSet(b.May), true)
			return
		}
		if len(ProvAll(src)) > 0 {
			st.StorePtr(st.ElemPtr(d, &Top{T: types.Typ[types.Int]}), &Top{T: elemOf(d.T), Prov: ProvAll(src)}, true)
		}
	}
}

func (a *activation) appendVals(n *node, in ssa.Instruction, f *frame, args []Val, res ssa.Value) Val {
	st := f.st
	var t types.Type = types.Typ[types.Invalid]
	if res != nil {
		t = res.Type()
	} else {
		t = in.(*ssa.Call).Type()
	}
	dst := args[0]
	if len(args) == 1 {
		return dst
	}
	src := args[1]
	if IsNil(src) {
		return dst
	}
	if n, ok := ConstInt(st.Len(src)); ok && n == 0 {
		return dst
	}
	a.alloc(st, in, "append", st.Len(src))
	a.reads(st, in, "append", src, t)
	a.reads(st, in, "append", dst, t)
	if s, ok := dst.(*Set); ok {
		var alts []Val
		for _, d := range s.Alts {
			alts = append(alts, d)
		}
		_ = alts
	}
	if !IsNil(dst) {
		// a full slice leaves no room to write in place
		d, isSlice := dst.(*Slice)
		if !isSlice || d.Cap == nil || d.Len == nil || d.Cap.Key() != d.Len.Key() {
			a.target(st, in, "append", dst, t)
		}
	}
	el := elemOf(t)
	id := a.allocID(n, in.(ssa.Value), "")
	de, dok := st.SliceElems(dst)
	var se []Val
	sok := false
	if str, ok := ConstStr(src); ok {
		sok = true
		for i := range str {
			se = append(se, &Const{T: types.Typ[types.Byte], V: constant.MakeInt64(int64(str[i]))})
		}
	} else {
		se, sok = st.SliceElems(src)
	}
	if dok && sok {
		// in place when the capacity is known to suffice
		if d, ok := dst.(*Slice); ok {
			if c, ok := ConstInt(d.Cap); ok && int64(len(de)+len(se)) <= c {
				for i, x := range se {
					st.StorePtr(&Ptr{Obj: d.Obj, Path: append(append([]int(nil), d.Path...), d.Off+len(de)+i)}, x, false)
				}
				return &Slice{T: t, Obj: d.Obj, Path: d.Path, Off: d.Off, Len: Int(int64(len(de) + len(se))), Cap: d.Cap}
			}
		}
		arr := &Arr{Elem: el, M: map[int]Val{}}
		for i, x := range de {
			arr.M[i] = x
		}
		for i, x := range se {
			arr.M[len(de)+i] = x
		}
		a.freshKeep(f, id, arr)
		ln := Int(int64(len(de) + len(se)))
		return &Slice{T: t, Obj: id, Len: ln, Cap: ln}
	}
	if y, ok := src.(*Sym); ok && dok && len(de) == 0 {
		// append to an empty slice: a copy of a whole symbolic slice or string
		if _, isArr := dst.(*Slice); !isArr || func() bool { c, ok := ConstInt(dst.(*Slice).Cap); return ok && c == 0 }() {
			a.freshKeep(f, id, &Arr{Elem: el, Sym: y.ID, Src: y, M: map[int]Val{}})
			return &Slice{T: t, Obj: id, Len: st.Len(y), Cap: &Top{T: types.Typ[types.Int]}}
		}
	}
	db, sb := st.bagOf(dst), st.bagOf(src)
	if db == nil || sb == nil {
		return &Top{T: t, Prov: ProvAll(dst, src)}
	}
	nb := &Bag{Elem: el, Must: db.Must, May: db.May}
	for _, x := range sb.Must {
		nb.Must = addVal(nb.Must, x)
	}
	for _, x := range sb.May {
		nb.May = addVal(nb.May, x)
	}
	if len(nb.May) > 40 {
		nb.May = []Val{&Top{T: el, Prov: ProvAll(nb.May...)}}
	}
	a.freshKeep(f, id, nb)
	ln := st.binop(token.ADD, st.Len(dst), st.Len(src), types.Typ[types.Int])
	if _, ok := ln.(*Const); ok {
		ln = &Top{T: types.Typ[types.Int]}
	}
	if y, ok := ln.(*Sym); ok && y.dep > 3 {
		ln = &Top{T: types.Typ[types.Int]}
	}
	lo, _ := st.lower(st.Len(dst))
	lo2, _ := st.lower(st.Len(src))
	if y, ok := ln.(*Sym); ok && lo+lo2 > 0 {
		m := lo + lo2
		st.AssumeRange(y.ID, &m, nil)
	}
	return &Slice{T: t, Obj: id, Len: ln, Cap: &Top{T: types.Typ[types.Int]}}
}

// freshKeep installs append results; an older incarnation at the same site is
// superseded unless something still refers to it.
func (a *activation) freshKeep(f *frame, id string, v Val) { a.fresh(f, id, v) }
