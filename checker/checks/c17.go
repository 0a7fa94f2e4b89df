package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// errOperand is a kind of error given to the functions under test.
type errOperand struct {
	name string
	// make builds the error and lists the causes it holds, with the locations
	// they already have (outermost first, "" for none).
	make func(st *ai.State, id string) (v ai.Val, causes []string, paths []string)
}

type errWorld struct {
	r          *Report
	e          *ai.Engine
	listT      types.Type // errors.List
	errorT     types.Type // errors.Error
	levelT     types.Type
	leafT      types.Type // errors.MissingFieldError
	panics     map[string]bool
	listIdx    int
	errIdx     int
	targetIdx  int
	nameIdx    int
	indexIdx   int
	undecided  string
	elementsOf map[string]bool
}

func (r *Report) errWorld() *errWorld {
	w := r.errWorldOf(r.W.Engine())
	if w == nil {
		return nil
	}
	w.e.OnPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string) {
		w.panics[fmt.Sprintf("%s in %s (%s)", what, fnLabel(fn), r.W.P.Pos(pos))] = true
	}
	w.e.PathSensitive, w.e.MaxParts = true, 256
	w.e.MaxRec = 4
	w.e.Peel = 5
	return w
}

func (r *Report) errWorldOf(e *ai.Engine) *errWorld {
	w := &errWorld{r: r, e: e, panics: map[string]bool{}}
	w.listT, w.errorT, w.levelT = r.W.Type("errors", "List"), r.W.Type("errors", "Error"), r.W.Type("errors", "Level")
	w.leafT = r.W.Type("errors", "MissingFieldError")
	if w.listT == nil || w.errorT == nil || w.levelT == nil || w.leafT == nil || fieldIndex(w.leafT, "Name") < 0 {
		r.Fail("undecided: types", "errors", "errors.List, errors.Error, errors.Level or errors.MissingFieldError not found")
		return nil
	}
	w.listIdx, w.errIdx, w.targetIdx = fieldIndex(w.listT, "Errors"), fieldIndex(w.errorT, "Err"), fieldIndex(w.errorT, "Target")
	w.nameIdx, w.indexIdx = fieldIndex(w.levelT, "Name"), fieldIndex(w.levelT, "Index")
	if w.listIdx < 0 || w.errIdx < 0 || w.targetIdx < 0 || w.nameIdx < 0 || w.indexIdx < 0 {
		r.Fail("undecided: fields", "errors", "List.Errors, Error.Err, Error.Target, Level.Name or Level.Index not found")
		return nil
	}
	return w
}

func setField(t types.Type, i int, v ai.Val) *ai.Agg {
	z := ai.Zero(t).(*ai.Agg)
	n := &ai.Agg{T: z.T, Elems: append([]ai.Val(nil), z.Elems...)}
	n.Elems[i] = v
	return n
}

func (w *errWorld) slice(st *ai.State, elem types.Type, id string, vs []ai.Val, spare int) ai.Val {
	arr := &ai.Arr{Elem: elem, M: map[int]ai.Val{}}
	for i, v := range vs {
		arr.M[i] = v
	}
	st.SetRoot(id, arr)
	return &ai.Slice{T: types.NewSlice(elem), Obj: id, Len: ai.Int(int64(len(vs))), Cap: ai.Int(int64(len(vs) + spare))}
}

// atom is an error of its own type, which no other error equals.
func (w *errWorld) atom(st *ai.State, id string) ai.Val {
	st.SetRoot("err:"+id, setField(w.leafT, fieldIndex(w.leafT, "Name"), ai.Str("err:"+id)))
	return &ai.Iface{Dyn: types.NewPointer(w.leafT), V: &ai.Ptr{Obj: "err:" + id}}
}

func (w *errWorld) wrapped(st *ai.State, id string, cause ai.Val, index int64) ai.Val {
	a := setField(w.errorT, w.errIdx, cause)
	l := setField(w.levelT, w.nameIdx, ai.Str("inner"))
	l.Elems[w.indexIdx] = ai.Int(index)
	l.Elems[w.indexIdx] = &ai.Const{T: w.levelT.Underlying().(*types.Struct).Field(w.indexIdx).Type(), V: l.Elems[w.indexIdx].(*ai.Const).V}
	a.Elems[w.targetIdx] = w.slice(st, w.levelT, id+".target", []ai.Val{l}, 1)
	st.SetRoot(id, a)
	return &ai.Iface{Dyn: types.NewPointer(w.errorT), V: &ai.Ptr{Obj: id}}
}

func (w *errWorld) list(st *ai.State, id string, spare int, vs ...ai.Val) ai.Val {
	var l ai.Val = ai.NilOf(types.NewSlice(errorT))
	if len(vs) > 0 {
		l = w.slice(st, errorT, id+".errors", vs, spare)
	}
	st.SetRoot(id, setField(w.listT, w.listIdx, l))
	return &ai.Iface{Dyn: types.NewPointer(w.listT), V: &ai.Ptr{Obj: id}}
}

func (w *errWorld) operands() []errOperand {
	const in = "inner[4]"
	return []errOperand{
		{"nil", func(st *ai.State, id string) (ai.Val, []string, []string) { return ai.NilOf(errorT), nil, nil }},
		{"an error", func(st *ai.State, id string) (ai.Val, []string, []string) {
			return w.atom(st, id), []string{"err:" + id}, []string{""}
		}},
		{"a located error", func(st *ai.State, id string) (ai.Val, []string, []string) {
			return w.wrapped(st, id, w.atom(st, id), 4), []string{"err:" + id}, []string{in}
		}},
		{"an empty list", func(st *ai.State, id string) (ai.Val, []string, []string) { return w.list(st, id, 0), nil, nil }},
		{"a list of one", func(st *ai.State, id string) (ai.Val, []string, []string) {
			return w.list(st, id, 0, w.atom(st, id)), []string{"err:" + id}, []string{""}
		}},
		{"a list of three with spare capacity", func(st *ai.State, id string) (ai.Val, []string, []string) {
			return w.list(st, id, 2, w.atom(st, id+"a"), w.wrapped(st, id+"b", w.atom(st, id+"b"), 4), w.atom(st, id+"c")), []string{"err:" + id + "a", "err:" + id + "b", "err:" + id + "c"}, []string{"", in, ""}
		}},
		{"a list with a list in it", func(st *ai.State, id string) (ai.Val, []string, []string) {
			return w.list(st, id, 0, w.atom(st, id+"a"), w.list(st, id+"l", 1, w.wrapped(st, id+"b", w.atom(st, id+"b"), 4), w.atom(st, id+"c"))), []string{"err:" + id + "a", "err:" + id + "b", "err:" + id + "c"}, []string{"", in, ""}
		}},
		{"a nil *List", func(st *ai.State, id string) (ai.Val, []string, []string) {
			return &ai.Iface{Dyn: types.NewPointer(w.listT), V: ai.NilOf(types.NewPointer(w.listT))}, nil, nil
		}},
	}
}

// flat lists the errors a result holds: the lists are flattened, the other
// errors are named by what unwrapping them ends with.
func (w *errWorld) flat(st *ai.State, v ai.Val) (out []ai.Val) {
	w.undecided = ""
	var rec func(v ai.Val)
	rec = func(v ai.Val) {
		v = st.Resolve(v)
		switch x := v.(type) {
		case *ai.Const:
			return
		case *ai.Iface:
			if types.Identical(x.Dyn, types.NewPointer(w.listT)) {
				if ai.IsNil(x.V) {
					return
				}
				f := st.LoadPtr(st.FieldPtr(x.V, w.listIdx))
				if ai.IsNil(f) {
					return
				}
				el, ok := st.SliceElems(st.Resolve(f))
				if !ok {
					w.undecided = "the list is not known: " + short(f)
				}
				for _, e := range el {
					rec(e)
				}
				return
			}
			out = append(out, v)
		case *ai.Sym:
			out = append(out, v)
		default:
			w.undecided = "not a known error: " + short(v)
		}
	}
	rec(v)
	return out
}

func (w *errWorld) method(t types.Type, name string) *ssa.Function {
	if types.NewMethodSet(t).Lookup(nil, name) == nil {
		return nil
	}
	return w.e.Prog.LookupMethod(t, nil, name)
}

// cause unwraps an error by its Unwrap methods.
func (w *errWorld) cause(st *ai.State, v ai.Val) string {
	for n := 0; n < 8; n++ {
		v = st.Resolve(v)
		x, ok := v.(*ai.Iface)
		if !ok {
			return v.Key()
		}
		m := w.method(x.Dyn, "Unwrap")
		if m == nil {
			if p, ok := x.V.(*ai.Ptr); ok {
				return p.Obj
			}
			return v.Key()
		}
		outs := w.e.Call(st.Clone(), m, []ai.Val{x.V}, nil, "Unwrap", nil)
		if len(outs) != 1 {
			return "?"
		}
		v = outs[0].Res
	}
	return "?"
}

func (w *errWorld) text(st *ai.State, v ai.Val, method string) ai.Val {
	x, ok := st.Resolve(v).(*ai.Iface)
	if !ok {
		return nil
	}
	m := w.method(x.Dyn, method)
	if m == nil {
		return nil
	}
	outs := w.e.Call(st.Clone(), m, []ai.Val{x.V}, nil, method, nil)
	if len(outs) != 1 {
		return nil
	}
	return outs[0].Res
}

// mentions tells whether a text is made from something that contains s: a
// text, or an error that is printed.
func mentions(st *ai.State, v ai.Val, s string) bool {
	return mentionsAny(st, v, func(t string) bool { return strings.Contains(t, s) }, 0)
}

func mentionsAny(st *ai.State, v ai.Val, has func(string) bool, depth int) bool {
	if depth > 12 || v == nil {
		return false
	}
	switch x := st.Resolve(v).(type) {
	case *ai.Const:
		t, ok := ai.ConstStr(x)
		return ok && has(t)
	case *ai.Sym:
		if has(x.ID) {
			return true
		}
		for _, a := range x.Args {
			if mentionsAny(st, a, has, depth+1) {
				return true
			}
		}
	case *ai.Agg:
		for _, a := range x.Elems {
			if mentionsAny(st, a, has, depth+1) {
				return true
			}
		}
	case *ai.Slice:
		el, _ := st.SliceElems(x)
		for _, a := range el {
			if mentionsAny(st, a, has, depth+1) {
				return true
			}
		}
	case *ai.Iface:
		return mentionsAny(st, x.V, has, depth+1)
	case *ai.Ptr:
		return has(x.Obj) || mentionsAny(st, st.LoadPtr(x), has, depth+1)
	case *ai.Bytes:
		return has(x.S)
	}
	return false
}

func (r *Report) c17Append() {
	fn := r.W.Func("errors", "Append")
	if fn == nil {
		r.Fail("undecided: Append", "errors", "errors.Append not found")
		return
	}
	w := r.errWorld()
	if w == nil {
		return
	}
	ops := w.operands()
	max := 2
	if r.Thorough() {
		max = 3
	}
	var run func(sel []int)
	run = func(sel []int) {
		if len(sel) > 0 {
			r.appendCase(w, fn, ops, sel)
		}
		if len(sel) <= max {
			for i := range ops {
				run(append(append([]int(nil), sel...), i))
			}
		}
	}
	run(nil)
	r.limits(w.e, "errors.Append")
	r.engineFns(w.e)
}

func (r *Report) appendCase(w *errWorld, fn *ssa.Function, ops []errOperand, sel []int) {
	var names []string
	for _, i := range sel {
		names = append(names, ops[i].name)
	}
	label := "Append(" + strings.Join(names, ", ") + ")"
	st := w.e.NewState()
	var want []string
	var vals []ai.Val
	for k, i := range sel {
		v, c, _ := ops[i].make(st, fmt.Sprintf("op%d", k))
		vals = append(vals, v)
		want = append(want, c...)
	}
	var rest ai.Val = ai.NilOf(types.NewSlice(errorT))
	if len(vals) > 1 {
		rest = w.slice(st, errorT, "operands", vals[1:], 0)
	}
	w.panics = map[string]bool{}
	outs := w.e.Call(st, fn, []ai.Val{vals[0], rest}, nil, "Append", nil)
	key := "Append of " + strings.Join(names[:1], "") + " and others"
	if len(outs) != 1 || len(w.panics) > 0 {
		r.Fail("undecided: "+key, label, "%s has %d outcomes (%v)", label, len(outs), sortedKeys(w.panics))
		return
	}
	o := outs[0]
	names2 := func(st *ai.State, v ai.Val) []string {
		var out []string
		for _, e := range w.flat(st, v) {
			out = append(out, w.cause(st, e))
		}
		if w.undecided != "" {
			out = append(out, w.undecided)
		}
		return out
	}
	got := names2(o.St, o.Res)
	if !r.Assert(fmt.Sprint(got) == fmt.Sprint(want), "every error is kept once and in order", key, label, "%s holds %v instead of %v", label, got, want) {
		return
	}
	r.Assert(len(want) == 0 || !ai.IsNil(o.Res), "the result is nil only when nothing failed", key, label, "%s is nil although something failed", label)
	if len(want) == 0 {
		onlyNil := true
		for _, i := range sel {
			onlyNil = onlyNil && ops[i].name == "nil"
		}
		if onlyNil {
			r.Assert(ai.IsNil(o.Res), "the result of combining nothing is nil", key, label, "%s is not nil", label)
		}
	}
	// the other operands keep their errors
	for k, i := range sel[1:] {
		_, c, _ := ops[i].make(w.e.NewState(), fmt.Sprintf("op%d", k+1))
		if got := names2(o.St, vals[k+1]); fmt.Sprint(got) != fmt.Sprint(c) {
			r.Fail("operand changed: "+key, label, "%s changes its operand %d: it holds %v instead of %v", label, k+2, got, c)
		}
	}
	// appending again must not change what was returned
	if len(sel) > 1 && len(want) > 0 {
		st := o.St.Clone()
		var all []string
		res := o.Res
		for n := 0; n < 2; n++ {
			x := w.atom(st, fmt.Sprintf("more%d", n))
			outs := w.e.Call(st, fn, []ai.Val{res, w.slice(st, errorT, fmt.Sprintf("again%d", n), []ai.Val{x}, 0)}, nil, fmt.Sprintf("Append%d", n), nil)
			if len(outs) != 1 {
				r.Fail("undecided: "+key, label, "%s, then more: %d outcomes", label, len(outs))
				return
			}
			st, res = outs[0].St, outs[0].Res
			all = append(all, fmt.Sprintf("err:more%d", n))
		}
		got := names2(st, res)
		want := append(append([]string(nil), want...), all...)
		r.Assert(fmt.Sprint(got) == fmt.Sprint(want), "appending one after the other keeps all", key, label, "%s, then two more, holds %v instead of %v", label, got, want)
	}
	if t := w.text(o.St, o.Res, "Error"); len(want) > 0 {
		for _, c := range want {
			r.Assert(t != nil && mentions(o.St, t, c), "the text of a list mentions every error", key, label, "the text of %s does not mention %s", label, c)
		}
	}
}

func (r *Report) c17Wrap() {
	w := r.errWorld()
	if w == nil {
		return
	}
	type call struct {
		fn   string
		args []ai.Val
		loc  string
		path string
	}
	i := func(n int64) ai.Val { return ai.Int(n) }
	var calls []call
	for _, n := range []string{"outer", "inner"} { // "inner": a location of the operands too
		calls = append(calls,
			call{"Wrap", []ai.Val{ai.Str(n)}, n, ""},
			call{"WrapIndex", []ai.Val{ai.Str(n), i(0)}, n + "[0]", ""},
			call{"WrapIndex", []ai.Val{ai.Str(n), i(4)}, n + "[4]", ""},
			call{"WrapPath", []ai.Val{ai.Str(n), ai.Str("/3D/x.model")}, n, "/3D/x.model"})
	}
	for _, c := range calls {
		fn := r.W.Func("errors", c.fn)
		if fn == nil {
			r.Fail("undecided: "+c.fn, "errors", "errors.%s not found", c.fn)
			continue
		}
		for _, op := range w.operands() {
			if op.name == "a nil *List" {
				continue
			}
			label := fmt.Sprintf("%s(%s) at %s", c.fn, op.name, c.loc)
			key := c.fn + " of " + op.name
			st := w.e.NewState()
			v, causes, paths := op.make(st, "op")
			w.panics = map[string]bool{}
			outs := w.e.Call(st, fn, append([]ai.Val{v}, c.args...), nil, c.fn, nil)
			if len(outs) != 1 || len(w.panics) > 0 {
				r.Fail("undecided: "+key, label, "%s has %d outcomes (%v)", label, len(outs), sortedKeys(w.panics))
				continue
			}
			o := outs[0]
			if op.name == "nil" {
				r.Assert(ai.IsNil(o.Res), "wrapping nothing gives nothing", key, label, "%s is not nil", label)
				continue
			}
			r.wrapped(w, o, label, key, c.loc, c.path, causes, paths)
			// once more, which adds the next location outside
			outs = w.e.Call(o.St, r.W.Func("errors", "WrapIndex"), []ai.Val{o.Res, ai.Str("top"), ai.Int(0)}, nil, "again", nil)
			if len(outs) != 1 {
				r.Fail("undecided: "+key, label, "%s, then WrapIndex, has %d outcomes", label, len(outs))
				continue
			}
			r.wrapped(w, outs[0], label+", then at top[0]", key+" twice", "top[0]/"+c.loc, c.path, causes, paths)
		}
	}
	r.limits(w.e, "errors.Wrap")
	r.engineFns(w.e)
}

// wrapped judges the result of wrapping errors with the given causes and
// locations at loc.
func (r *Report) wrapped(w *errWorld, o ai.Out, label, key, loc, path string, causes, paths []string) {
	errs := w.flat(o.St, o.Res)
	if w.undecided != "" || len(errs) != len(causes) {
		r.Fail("errors lost: "+key, label, "%s holds %d errors instead of %d %s", label, len(errs), len(causes), w.undecided)
		return
	}
	for k, e := range errs {
		got := w.cause(o.St, e)
		r.Assert(got == causes[k], "the cause is reached by unwrapping", key, label, "%s: unwrapping error %d ends with %s instead of %s", label, k, got, causes[k])
		want := "/" + loc
		if paths[k] != "" {
			want += "/" + paths[k]
		}
		t := w.text(o.St, e, "Error")
		r.Assert(t != nil && mentionsAny(o.St, t, func(s string) bool {
			return s == want || strings.HasSuffix(s, " "+want) || strings.Contains(s, want+":")
		}, 0), "the location is added outside of the one an error has", key, label, "%s: the text of error %d does not mention %s (%s)", label, k, want, short(t))
		r.Assert(t != nil && mentions(o.St, t, causes[k]), "the text mentions the cause", key, label, "%s: the text of error %d does not mention its cause", label, k)
		if path != "" {
			r.Assert(t != nil && mentions(o.St, t, path), "the part is recorded", key, label, "%s: the text of error %d does not mention the part", label, k)
		}
	}
}

func checkC17(r *Report) {
	r.Rule("abstract interpretation of errors.Append on every combination of up to three (thorough: four) operands (nil, an error, a located error, lists of length 0, 1, 3, nil list): the result holds exactly the causes of the operands in order, is nil only if there are none, other operands keep theirs, appending to a result keeps all")
	r.Rule("abstract interpretation of Wrap, WrapIndex and WrapPath on each kind: every error still unwraps to its cause and its text has the new location before the old one")
	r.c17Append()
	r.c17Wrap()
}
