package ai

import (
	"fmt"
	"go/constant"
	"go/types"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// FnName is the canonical name of a function, e.g. strconv.ParseUint or
// (*sync.Mutex).Lock.
func FnName(fn *ssa.Function) string { return fn.String() }

func ret(st *State, v Val) []Out { return []Out{{st, v}} }

// ErrAtom is a fresh non-nil error symbol.
func ErrAtom(st *State, id string) Val {
	st.E.errAtoms[id] = true
	return Atom(id, errType)
}

// NonNil records that the symbol is not nil.
func (s *State) NonNil(id string) { s.updFact(id, func(f *Fact) { f.NonNil = true }) }

// searches are library functions that are interpreted from their source.
var searches = map[string]bool{"sort.Search": true, "sort.SearchStrings": true, "sort.SearchInts": true, "sort.Find": true}

func outermost(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// pure are library functions that are evaluated on constants.
var pure = map[string]any{
	"strings.EqualFold": strings.EqualFold, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
	"strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune, "strings.Count": strings.Count, "strings.Compare": strings.Compare,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.Index": strings.Index, "strings.IndexAny": strings.IndexAny, "strings.IndexRune": strings.IndexRune, "strings.LastIndex": strings.LastIndex,
	"strings.LastIndexByte": strings.LastIndexByte, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.Cut": strings.Cut, "path.Base": path.Base, "path.Dir": path.Dir, "path.Ext": path.Ext, "path.Clean": path.Clean, "path.IsAbs": path.IsAbs,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper,
}

// folded evaluates a pure function of constants.
func folded(name string, args []Val, res *types.Tuple) (Val, bool) {
	f, ok := pure[name]
	if !ok {
		return nil, false
	}
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	if ft.NumIn() != len(args) || ft.NumOut() != res.Len() {
		return nil, false
	}
	var in []reflect.Value
	for i, a := range args {
		c, ok := a.(*Const)
		if !ok || c.V == nil {
			return nil, false
		}
		v := reflect.New(ft.In(i)).Elem()
		switch ft.In(i).Kind() {
		case reflect.String:
			s, ok := ConstStr(c)
			if !ok {
				return nil, false
			}
			v.SetString(s)
		case reflect.Int, reflect.Int32, reflect.Int64:
			n, ok := ConstInt(c)
			if !ok {
				return nil, false
			}
			v.SetInt(n)
		case reflect.Uint8:
			n, ok := ConstInt(c)
			if !ok {
				return nil, false
			}
			v.SetUint(uint64(n))
		case reflect.Float64:
			x, _ := constant.Float64Val(constant.ToFloat(c.V))
			v.SetFloat(x)
		default:
			return nil, false
		}
		in = append(in, v)
	}
	var outs []Val
	for i, o := range fv.Call(in) {
		t := res.At(i).Type()
		switch o.Kind() {
		case reflect.String:
			outs = append(outs, &Const{T: t, V: constant.MakeString(o.String())})
		case reflect.Bool:
			outs = append(outs, &Const{T: t, V: constant.MakeBool(o.Bool())})
		case reflect.Int, reflect.Int32, reflect.Int64:
			outs = append(outs, &Const{T: t, V: constant.MakeInt64(o.Int())})
		case reflect.Float64:
			outs = append(outs, &Const{T: t, V: constant.MakeFloat64(o.Float())})
		default:
			return nil, false
		}
	}
	if len(outs) == 1 {
		return outs[0], true
	}
	return &Tuple{Elems: outs}, true
}

// stdModel gives a more precise abstract semantics to some library functions.
func (e *Engine) stdModel(ctx *CallCtx) ([]Out, bool) {
	st, args := ctx.St, ctx.Args
	name := FnName(ctx.Fn)
	if e.InRepo(ctx.Fn) || len(ctx.Fn.Blocks) > 0 && ctx.Fn.Pkg == nil && !strings.HasPrefix(name, "slices.Clone[") {
		return nil, false
	}
	T := func(i int) types.Type { return ctx.Res.At(i).Type() }
	if out, ok := folded(name, args, ctx.Res); ok {
		return ret(st, out), true
	}
	if strings.HasPrefix(name, "slices.Clone[") || name == "bytes.Clone" || name == "strings.Clone" || name == "(encoding/xml.CharData).Copy" {
		switch x := args[0].(type) {
		case *Const, *Bytes:
			return ret(st, x), true
		case *Sym:
			if _, ok := bytesOrString(x.T); ok {
				return ret(st, Term(T(0), "copy", x)), true
			}
		}
	}
	if o, ok := e.constText(ctx, name); ok {
		return o, true
	}
	switch name {
	case "(encoding/xml.StartElement).End":
		if a, ok := st.Resolve(args[0]).(*Agg); ok && len(a.Elems) > 0 {
			return ret(st, &Agg{T: T(0), Elems: []Val{a.Elems[0]}}), true
		}
	case "errors.New", "fmt.Errorf":
		id := "err:" + name + "@" + ctx.Site
		if s, ok := ConstStr(args[0]); ok && name == "errors.New" {
			id = "err:" + s
			if p := e.Prog.ImportedPackage("errors"); p != nil && p.Type("errorString") != nil {
				e.errFacts[id] = &Fact{NonNil: true, Dyn: types.NewPointer(p.Type("errorString").Type())}
			}
		}
		return ret(st, ErrAtom(st, id)), true
	case "strings.EqualFold":
		if args[0].Key() == args[1].Key() {
			return ret(st, Bool(true)), true
		}
	case "bytes.IndexByte", "strings.IndexByte":
		if x, ok := ConstStr(args[0]); ok {
			if c, ok := ConstInt(args[1]); ok {
				return ret(st, Int(int64(strings.IndexByte(x, byte(c))))), true
			}
		}
	case "strings.Fields":
		if x, ok := ConstStr(args[0]); ok {
			fs := strings.Fields(x)
			arr := &Arr{Elem: types.Typ[types.String], M: map[int]Val{}}
			for i, f := range fs {
				arr.M[i] = Str(f)
			}
			obj := "o" + e.id("fields"+ctx.Site)
			st.heap.set(obj, arr)
			return ret(st, &Slice{T: T(0), Obj: obj, Len: Int(int64(len(fs))), Cap: Int(int64(len(fs)))}), true
		}
	case "strconv.ParseBool", "strconv.ParseUint", "strconv.ParseInt", "strconv.ParseFloat", "strconv.Atoi":
		if x, ok := ConstStr(args[0]); ok {
			if v, err, ok := constParse(name, x, args, T(0)); ok {
				if err {
					return ret(st, &Tuple{Elems: []Val{v, ErrAtom(st, "err:"+name+"@"+ctx.Site)}}), true
				}
				return ret(st, &Tuple{Elems: []Val{v, NilOf(errType)}}), true
			}
		}
		ok := st.Clone()
		v := Term(T(0), name, args...)
		bad := st
		bv := Zero(T(0))
		_ = bv
		badv := Term(T(0), "garbage", args[0])
		return []Out{{ok, &Tuple{Elems: []Val{v, NilOf(errType)}}}, {bad, &Tuple{Elems: []Val{badv, ErrAtom(bad, "err:"+name+"@"+ctx.Site)}}}}, true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		return ret(st, nil), true
	case "(*sync.WaitGroup).Go":
		return ctx.Spawn(st, args[1], nil, "wg.Go", nil), true
	case "(*sync.Once).Do":
		k := "once:" + args[0].Key()
		if st.Ghost[k] != "" {
			return ret(st, nil), true
		}
		st.Ghost[k] = "done"
		return ctx.CallFn(st, args[1], nil, "once"), true
	case "strings.Join":
		sep, ok := ConstStr(args[1])
		if el, ok2 := st.SliceElems(args[0]); ok && ok2 {
			all := true
			var parts []string
			for _, x := range el {
				s, ok := ConstStr(st.resolve(x))
				all = all && ok
				parts = append(parts, s)
			}
			if all {
				return ret(st, Str(strings.Join(parts, sep))), true
			}
			if len(el) == 1 {
				return ret(st, el[0]), true
			}
		}
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable":
		if outs, ok := ctx.sorted(); ok {
			return outs, true
		}
	case "sort.Strings", "sort.Ints":
		if e.OnTarget != nil {
			e.OnTarget(st, ctx.Caller, ctx.Pos(), "sort", args[0], ctx.Sig.Params().At(0).Type())
		}
		if el, ok := st.SliceElems(args[0]); ok && name == "sort.Strings" {
			all := true
			var parts []string
			for _, x := range el {
				s, ok := ConstStr(st.resolve(x))
				all = all && ok
				parts = append(parts, s)
			}
			if all {
				sort.Strings(parts)
				for i, s := range parts {
					st.StorePtr(st.ElemPtr(args[0], Int(int64(i))), Str(s), false)
				}
				return ret(st, nil), true
			}
		}
		// sorting permutes: exact content of two or more elements loses order
		if el, ok := st.SliceElems(args[0]); ok && len(el) > 1 {
			for i := range el {
				st.StorePtr(st.ElemPtr(args[0], Int(int64(i))), Term(elemOf(ctx.Sig.Params().At(0).Type()), fmt.Sprintf("sorted%d", i), el...), false)
			}
		}
		return ret(st, nil), true
	case "fmt.Sprintf":
		f, ok := ConstStr(args[0])
		if ok {
			if el, ok := st.SliceElems(args[1]); ok {
				if t, ok := constSprintf(f, el); ok {
					return ret(st, Str(t)), true
				}
				vs := []Val{Str(f)}
				for _, x := range el {
					vs = append(vs, e.snapshot(st, x, 0))
				}
				return ret(st, Term(T(0), "fmt.Sprintf", vs...)), true
			}
		}
	case "strconv.Itoa":
		if n, ok := ConstInt(args[0]); ok {
			return ret(st, Str(strconv.FormatInt(n, 10))), true
		}
	case "strconv.FormatInt", "strconv.FormatUint":
		n, ok := ConstInt(args[0])
		if b, ok2 := ConstInt(args[1]); ok && ok2 && b >= 2 && b <= 36 && (n >= 0 || name == "strconv.FormatInt") {
			return ret(st, Str(strconv.FormatInt(n, int(b)))), true
		}
	case "strconv.FormatBool":
		if b, ok := ConstBool(args[0]); ok {
			return ret(st, Str(strconv.FormatBool(b))), true
		}
	case "context.Background", "context.TODO":
		v := Atom(name+"()", T(0))
		st.NonNil(v.ID)
		return ret(st, v), true
	}
	return nil, false
}

func constParse(name, s string, args []Val, t types.Type) (v Val, failed, ok bool) {
	base, bits := 10, 64
	if len(args) == 3 {
		b, ok1 := ConstInt(args[1])
		w, ok2 := ConstInt(args[2])
		if !ok1 || !ok2 {
			return nil, false, false
		}
		base, bits = int(b), int(w)
	}
	if len(args) == 2 {
		w, ok := ConstInt(args[1])
		if !ok {
			return nil, false, false
		}
		bits = int(w)
	}
	switch name {
	case "strconv.ParseBool":
		b, err := strconv.ParseBool(s)
		return Bool(b), err != nil, true
	case "strconv.ParseUint":
		n, err := strconv.ParseUint(s, base, bits)
		return &Const{T: t, V: constant.MakeUint64(n)}, err != nil, true
	case "strconv.ParseInt":
		n, err := strconv.ParseInt(s, base, bits)
		return &Const{T: t, V: constant.MakeInt64(n)}, err != nil, true
	case "strconv.ParseFloat":
		f, err := strconv.ParseFloat(s, bits)
		if err != nil {
			f = 0
		}
		return &Const{T: t, V: constant.MakeFloat64(f)}, err != nil, true
	}
	return nil, false, false
}

// sorted interprets sorting of a list of known length by insertion, with the
// comparison of the caller; elements that compare equal stay in order.
func (c *CallCtx) sorted() ([]Out, bool) {
	st := c.St
	x, ok := c.Args[0].(*Iface)
	if !ok {
		return nil, false
	}
	var n int
	var less func(st *State, i, j int) []Out
	var swap func(st *State, i, j int) []Out
	idx := func(i, j int) []Val { return []Val{Int(int64(i)), Int(int64(j))} }
	if len(c.Args) == 2 {
		el, ok := st.SliceElems(x.V)
		if !ok {
			return nil, false
		}
		n = len(el)
		less = func(st *State, i, j int) []Out { return c.CallFn(st, c.Args[1], idx(i, j), fmt.Sprint("less", i, j)) }
		swap = func(st *State, i, j int) []Out {
			p, q := st.ElemPtr(x.V, Int(int64(i))), st.ElemPtr(x.V, Int(int64(j)))
			a, b := st.LoadPtr(p), st.LoadPtr(q)
			st.StorePtr(p, b, false)
			st.StorePtr(q, a, false)
			return []Out{{St: st}}
		}
	} else {
		if x.Dyn.String() == "sort.StringSlice" {
			return c.E.stdSort(c, x.V)
		}
		method := func(name string) func(st *State, args []Val, tag string) []Out {
			m := c.E.Prog.LookupMethod(x.Dyn, nil, name)
			if m == nil {
				return nil
			}
			return func(st *State, args []Val, tag string) []Out {
				return c.CallFn(st, &Func{Fn: m}, append([]Val{x.V}, args...), name+tag)
			}
		}
		l, ls, sw := method("Len"), method("Less"), method("Swap")
		if l == nil || ls == nil || sw == nil {
			return nil, false
		}
		outs := l(st, nil, "")
		if len(outs) != 1 {
			return nil, false
		}
		k, ok := ConstInt(outs[0].Res)
		if !ok {
			return nil, false
		}
		st, n = outs[0].St, int(k)
		less = func(st *State, i, j int) []Out { return ls(st, idx(i, j), fmt.Sprint(i, j)) }
		swap = func(st *State, i, j int) []Out { return sw(st, idx(i, j), fmt.Sprint(i, j)) }
	}
	if n > 8 {
		return nil, false
	}
	if c.E.OnTarget != nil {
		c.E.OnTarget(st, c.Caller, c.Pos(), "sort", x.V, x.Dyn)
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			outs := less(st, j, j-1)
			if len(outs) != 1 {
				return nil, false
			}
			st = outs[0].St
			b, ok := ConstBool(outs[0].Res)
			if !ok {
				return nil, false
			}
			if !b {
				break
			}
			if outs = swap(st, j, j-1); len(outs) != 1 {
				return nil, false
			}
			st = outs[0].St
		}
	}
	return []Out{{St: st}}, true
}

func (e *Engine) stdSort(c *CallCtx, v Val) ([]Out, bool) {
	f := c.E.Prog.ImportedPackage("sort")
	if f == nil || f.Func("Strings") == nil {
		return nil, false
	}
	if s, ok := v.(*Slice); ok {
		k := *s
		k.T = types.NewSlice(types.Typ[types.String])
		v = &k
	}
	return c.CallFn(c.St, &Func{Fn: f.Func("Strings")}, []Val{v}, "sort"), true
}

// constSprintf formats known values of basic types.
func constSprintf(f string, el []Val) (string, bool) {
	var args []interface{}
	for _, x := range el {
		i, ok := x.(*Iface)
		if !ok {
			return "", false
		}
		if _, basic := i.Dyn.(*types.Basic); !basic {
			return "", false
		}
		c, ok := i.V.(*Const)
		if !ok || c.V == nil {
			return "", false
		}
		switch c.V.Kind() {
		case constant.String:
			args = append(args, constant.StringVal(c.V))
		case constant.Bool:
			args = append(args, constant.BoolVal(c.V))
		case constant.Int:
			n, ok := constant.Int64Val(c.V)
			if !ok {
				return "", false
			}
			args = append(args, n)
		default:
			return "", false
		}
	}
	return fmt.Sprintf(f, args...), true
}
