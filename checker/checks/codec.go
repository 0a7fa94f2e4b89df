package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
	"verif/checker/load"
)

const ct3DModel = "application/vnd.ms-package.3dmanufacturing-3dmodel+xml"

// RoundTrip encodes an abstract model and decodes the abstract documents that
// this produces.
type RoundTrip struct {
	W      *World
	X      *Writer
	E      *ai.Engine
	St0    *ai.State // before encoding
	Model  ai.Val
	B      *ModelBuilder
	Panics map[string]bool
	prec   ai.Val
	mode   int
	rd     *Reader
	NoDec  bool
}

// RTOut is an outcome of encoding and what decoding it gives.
type RTOut struct {
	Enc     *ai.State
	Err     ai.Val
	Docs    map[string][]Tok
	Probs   []xmlProblem
	Dirty   []string
	Pkg     *AbsPkg
	Decs    []ai.Out
	Decoded ai.Val
	RunErr  error
}

// NewRoundTrip builds the abstract model of a shape.
func (w *World) NewRoundTrip(sh *Shape) *RoundTrip {
	t := &RoundTrip{W: w, X: w.NewWriter(), Panics: map[string]bool{}}
	t.E = t.X.E
	t.E.MaxParts = 256
	t.E.PathSensitive = true
	t.E.Debug = os.Getenv("AIDBG") != ""
	t.E.OnSelect = noCancel
	t.E.OnPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string) {
		t.Panics[fmt.Sprintf("%s in %s (%s)", what, fnLabel(fn), w.P.Pos(pos))] = true
	}
	t.E.Intercept = func(c *ai.CallCtx) ([]ai.Out, bool) {
		if t.mode == 0 {
			if o, ok := codecHook(c, nil); ok {
				return o, true
			}
			return t.X.Intercept(c)
		}
		return t.rd.Intercept(c)
	}
	t.St0 = t.E.NewState()
	t.B = w.NewBuilder(t.St0, sh, "m")
	mt := w.Type("", "Model")
	t.Model = t.B.New("Model", t.B.Build("Model", mt))
	t.prec = ai.Atom("prec", types.Typ[types.Int])
	return t
}

// Encode runs NewEncoder and Encoder.Encode.
func (t *RoundTrip) Encode() ([]ai.Out, error) {
	ne := t.W.Func("", "NewEncoder")
	enc := t.W.Method("", "Encoder", "Encode")
	et := t.W.Type("", "Encoder")
	if ne == nil || enc == nil || et == nil {
		return nil, fmt.Errorf("NewEncoder or Encoder.Encode not found")
	}
	st := t.St0.Clone()
	out := ai.Atom("output", ne.Signature.Params().At(0).Type())
	st.NonNil("output")
	o := t.E.Call(st, ne, []ai.Val{out}, nil, "NewEncoder", nil)
	if len(o) != 1 {
		return nil, fmt.Errorf("NewEncoder: %d outcomes", len(o))
	}
	st = o[0].St
	if i := fieldIndex(et, "FloatPrecision"); i >= 0 {
		st.StorePtr(st.FieldPtr(o[0].Res, i), t.prec, false)
	}
	outs := t.E.Call(st, enc, []ai.Val{o[0].Res, t.Model}, nil, "Encode", nil)
	if len(outs) == 0 {
		return nil, fmt.Errorf("encoding has no outcome (panics %v, limits %v)", t.Panics, t.E.Limits)
	}
	return outs, nil
}

// Run encodes and decodes.
func (t *RoundTrip) Run() ([]RTOut, error) {
	outs, err := t.Encode()
	if err != nil {
		return nil, err
	}
	var res []RTOut
	for _, o := range outs {
		x := RTOut{Enc: o.St, Err: o.Res}
		t.documents(&x)
		if t.NoDec || !ai.IsNil(o.Res) {
			res = append(res, x)
			continue
		}
		st := o.St.Clone()
		for k := range st.Ghost {
			if !strings.HasPrefix(k, "keep:") {
				delete(st.Ghost, k)
			}
		}
		t.rd = &Reader{W: t.W, E: t.E, Panics: t.Panics, Pkg: x.Pkg}
		t.rd.More = func(c *ai.CallCtx) ([]ai.Out, bool) {
			if o, ok := codecHook(c, t.prec); ok {
				return o, true
			}
			return nil, false
		}
		t.mode = 1
		x.Decs, x.RunErr = t.rd.RunPackageIn(st, "D", true)
		t.mode = 0
		x.Decoded = t.rd.Model
		res = append(res, x)
	}
	return res, nil
}

// documents reads the parts of an outcome.
func (t *RoundTrip) documents(x *RTOut) {
	st := x.Enc
	x.Docs = map[string][]Tok{}
	x.Pkg = &AbsPkg{Rels: t.X.Rels(st, "")}
	for _, p := range t.X.Parts(st) {
		f := AbsFile{Name: p, ContentType: st.Ghost["ct:"+p], Rels: t.X.Rels(st, p)}
		if st.Ghost["dirty:"+p] != "" {
			x.Dirty = append(x.Dirty, p)
		}
		if f.ContentType == ct3DModel {
			toks, probs := parseOut(st, t.X.Stream(st, p))
			for i := range probs {
				probs[i].msg = "part " + p + ": " + probs[i].msg
			}
			x.Docs[p] = toks
			if os.Getenv("DUMP") != "" {
				for _, k := range toks {
					fmt.Printf("%s %c %s %s", p, k.Kind, k.Space, k.Local)
					for _, a := range k.Attrs {
						fmt.Printf(" {%s}%s=%s", a.Space, a.Local, a.Val.Key())
					}
					if k.Text != nil {
						fmt.Print(" ", k.Text.Key())
					}
					fmt.Println()
				}
			}
			x.Probs = append(x.Probs, probs...)
			f.Tokens = toks
		}
		x.Pkg.Files = append(x.Pkg.Files, f)
	}
}

// codecHook models the inverse pairs of formatting and parsing.
func codecHook(c *ai.CallCtx, prec ai.Val) ([]ai.Out, bool) {
	if c.Fn == nil {
		return nil, false
	}
	st := c.St
	name := ai.FnName(c.Fn)
	nilErr := ai.NilOf(errorT)
	pair := func(v, e ai.Val) ([]ai.Out, bool) {
		return []ai.Out{{St: st, Res: &ai.Tuple{Elems: []ai.Val{v, e}}}}, true
	}
	switch name {
	case load.Module + "/spec.FormatRGBA":
		v := st.Resolve(c.Args[0])
		a, ok := v.(*ai.Agg)
		if !ok {
			return nil, false
		}
		n := &ai.Agg{T: a.T}
		for _, e := range a.Elems {
			n.Elems = append(n.Elems, st.Resolve(e))
		}
		return []ai.Out{{St: st, Res: ai.Term(types.Typ[types.String], "rgba", n)}}, true
	case load.Module + "/spec.ParseRGBA":
		fs := frags(st, c.Args[0])
		if len(fs) != 1 {
			return nil, false
		}
		if y, ok := fs[0].(*ai.Sym); ok && y.Op == "rgba" {
			return pair(y.Args[0], nilErr)
		}
	case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
		v, kind := formatted(st, c.Args[0], prec)
		if kind != "int" {
			return nil, false
		}
		to := c.Res.At(0).Type()
		fit := types.Typ[types.Int]
		if name != "strconv.Atoi" {
			base, ok := ai.ConstInt(c.Args[1])
			bits, ok2 := ai.ConstInt(c.Args[2])
			if !ok || !ok2 || base != 10 && base != 0 {
				return nil, false
			}
			fit = intOf(name == "strconv.ParseInt", bits)
		}
		if c, ok := v.(*ai.Const); ok {
			return pair(&ai.Const{T: to, V: c.V}, nilErr)
		}
		y, ok := v.(*ai.Sym)
		if !ok {
			return nil, false
		}
		n := *y
		n.T = to
		if !st.Fits(y, fit) {
			bad := st.Clone()
			return []ai.Out{
				{St: st, Res: &ai.Tuple{Elems: []ai.Val{&n, nilErr}}},
				{St: bad, Res: &ai.Tuple{Elems: []ai.Val{ai.Term(to, "garbage", y), ai.ErrAtom(bad, "err:out of range")}}},
			}, true
		}
		return pair(&n, nilErr)
	case "strconv.ParseFloat":
		v, kind := formatted(st, c.Args[0], prec)
		if kind != "float" && kind != "int" {
			return nil, false
		}
		to := c.Res.At(0).Type()
		switch y := v.(type) {
		case *ai.Const:
			return pair(&ai.Const{T: to, V: y.V}, nilErr)
		case *ai.Sym:
			n := *y
			n.T = to
			return pair(&n, nilErr)
		}
	case "strconv.ParseBool":
		v, kind := formatted(st, c.Args[0], prec)
		if kind == "bool" {
			return pair(v, nilErr)
		}
	case "strings.Fields", "bytes.Fields":
		if _, ok := ai.ConstStr(c.Args[0]); ok {
			return nil, false
		}
		fs, ok := fieldsOf(st, c.Args[0])
		if !ok {
			return nil, false
		}
		rt := c.Res.At(0).Type()
		et := rt.Underlying().(*types.Slice).Elem()
		arr := &ai.Arr{Elem: et, M: map[int]ai.Val{}}
		for i, f := range fs {
			arr.M[i] = asText(f, et)
		}
		obj := "fields:" + c.Args[0].Key()
		st.SetRoot(obj, arr)
		n := ai.Int(int64(len(fs)))
		return []ai.Out{{St: st, Res: &ai.Slice{T: rt, Obj: obj, Len: n, Cap: n}}}, true
	}
	// the validity of identifiers is property C29
	if c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == load.Module+"/uuid" && c.Fn.Signature.Recv() == nil && len(c.Args) == 1 && c.Res.Len() == 1 && types.Identical(c.Res.At(0).Type(), errorT) {
		if _, ok := ai.ConstStr(c.Args[0]); !ok {
			return []ai.Out{{St: st, Res: nilErr}}, true
		}
	}
	return nil, false
}

func intOf(signed bool, bits int64) *types.Basic {
	k := types.Uint64
	switch bits {
	case 8:
		k = types.Uint8
	case 16:
		k = types.Uint16
	case 32:
		k = types.Uint32
	}
	if signed {
		k = map[types.BasicKind]types.BasicKind{types.Uint8: types.Int8, types.Uint16: types.Int16, types.Uint32: types.Int32, types.Uint64: types.Int64}[k]
	}
	return types.Typ[k]
}

// comparer compares a model with what was decoded.
type comparer struct {
	n, m  *ai.State // loads of the original, of the decoded; facts are in m
	uf    map[string]string
	rules func(c *comparer, path string, t types.Type, n, m ai.Val) bool
	diff  func(path, what string)
	count int
	// floats restricts the comparison to numbers with decimals.
	floats bool
}

func newComparer(n, m *ai.State) *comparer {
	c := &comparer{n: n, m: m, uf: map[string]string{}}
	for _, p := range m.EqPairs() {
		a, b := c.find(c.leaf(p[0])), c.find(c.leaf(p[1]))
		if a != b {
			c.uf[a] = b
		}
	}
	return c
}

func (c *comparer) find(k string) string {
	for c.uf[k] != "" {
		k = c.uf[k]
	}
	return k
}

// leaf is the canonical content of a scalar or text.
func (c *comparer) leaf(v ai.Val) string {
	if v == nil {
		return "?"
	}
	v = c.m.Resolve(v)
	switch x := v.(type) {
	case *ai.Const:
		if x.V == nil {
			return "nil"
		}
		if x.V.Kind() == constant.String {
			return "s:" + constant.StringVal(x.V)
		}
		return "c:" + x.V.ExactString()
	case *ai.Bytes:
		return "s:" + x.S
	case *ai.Sym:
		var s []string
		for _, f := range frags(c.m, x) {
			if t, ok := ai.ConstStr(f); ok {
				s = append(s, "s:"+t)
			} else {
				s = append(s, f.Key())
			}
		}
		return strings.Join(s, "+")
	}
	return v.Key()
}

// eq tells whether two scalars are the same.
func (c *comparer) eq(a, b ai.Val) bool { return c.find(c.leaf(a)) == c.find(c.leaf(b)) }

func (c *comparer) differ(path, f string, a ...any) { c.diff(path, fmt.Sprintf(f, a...)) }

func (c *comparer) show(v ai.Val) string {
	s := c.leaf(v)
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	return s
}

// loadN and loadM dereference pointers.
func deref1(st *ai.State, v ai.Val) ai.Val {
	v = st.Resolve(v)
	if i, ok := v.(*ai.Iface); ok {
		v = i.V
	}
	if _, ok := v.(*ai.Ptr); ok {
		return st.LoadPtr(v)
	}
	return v
}

// same compares the values of a place.
func (c *comparer) same(path string, t types.Type, n, m ai.Val) {
	n, m = c.m.Resolve(n), c.m.Resolve(m)
	if c.rules != nil && c.rules(c, path, t, n, m) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if c.floats && u.Info()&types.IsFloat == 0 {
			return
		}
		c.count++
		if !c.eq(n, m) {
			c.differ(path, "written %s, read back %s", c.show(n), c.show(m))
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			c.same(path+"."+f.Name(), f.Type(), c.n.Sel(n, i), c.m.Sel(m, i))
		}
	case *types.Array:
		for i := 0; i < int(u.Len()); i++ {
			c.same(fmt.Sprintf("%s(%d)", path, i), u.Elem(), c.n.Sel(n, i), c.m.Sel(m, i))
		}
	case *types.Pointer:
		if ai.IsNil(n) || ai.IsNil(m) {
			if ai.IsNil(n) != ai.IsNil(m) {
				c.differ(path, "written %s, read back %s", nilness(n), nilness(m))
			}
			return
		}
		c.same(path, u.Elem(), c.n.LoadPtr(n), c.m.LoadPtr(m))
	case *types.Slice:
		ne, ok1 := c.n.SliceElems(n)
		me, ok2 := c.m.SliceElems(m)
		if ai.IsNil(n) {
			ne, ok1 = nil, true
		}
		if ai.IsNil(m) {
			me, ok2 = nil, true
		}
		if b, ok := u.Elem().(*types.Basic); ok && b.Kind() == types.Uint8 {
			c.count++
			if !c.eq(n, m) {
				c.differ(path, "written %s, read back %s", c.show(n), c.show(m))
			}
			return
		}
		if !ok1 || !ok2 {
			c.differ(path, "the list read back is not determined")
			return
		}
		if len(ne) != len(me) {
			c.differ(path, "%d elements written, %d read back", len(ne), len(me))
			return
		}
		for i := range ne {
			c.same(fmt.Sprintf("%s[%d]", path, i), u.Elem(), ne[i], me[i])
		}
	case *types.Interface:
		if ai.IsNil(n) || ai.IsNil(m) {
			if ai.IsNil(n) != ai.IsNil(m) {
				c.differ(path, "written %s, read back %s", nilness(n), nilness(m))
			}
			return
		}
		ni, ok1 := n.(*ai.Iface)
		mi, ok2 := m.(*ai.Iface)
		if !ok1 || !ok2 {
			c.count++
			if !c.eq(n, m) {
				c.differ(path, "written %s, read back %s", c.show(n), c.show(m))
			}
			return
		}
		nt, mt := elemType(ni.Dyn), elemType(mi.Dyn)
		if !types.Identical(nt, mt) {
			c.differ(path, "written as %s, read back as %s", nt, mt)
			return
		}
		c.same(path, nt, deref1(c.n, n), deref1(c.m, m))
	case *types.Map:
		c.maps(path, u, n, m)
	}
}

func elemType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func nilness(v ai.Val) string {
	if ai.IsNil(v) {
		return "nothing"
	}
	return "a value"
}

func mapEntries(st *ai.State, v ai.Val) (map[string]ai.Val, bool) {
	if ai.IsNil(v) {
		return nil, true
	}
	x, ok := st.LoadPtr(v).(*ai.Map)
	if !ok || !x.Exact {
		return nil, false
	}
	out := map[string]ai.Val{}
	for i, k := range x.Keys {
		out[k.Key()] = x.Vals[i]
	}
	return out, true
}

func (c *comparer) maps(path string, u *types.Map, n, m ai.Val) {
	ne, ok1 := mapEntries(c.n, n)
	me, ok2 := mapEntries(c.m, m)
	if !ok1 || !ok2 {
		c.differ(path, "the map read back is not determined")
		return
	}
	for k, v := range ne {
		w, ok := me[k]
		if !ok {
			c.differ(path+"{"+k+"}", "written, not read back")
			continue
		}
		c.same(path+"{"+strings.Trim(k, "c\"")+"}", u.Elem(), v, w)
	}
	for k := range me {
		if _, ok := ne[k]; !ok {
			c.differ(path+"{"+k+"}", "read back, not written")
		}
	}
}

// parallel runs jobs on all cores.
func parallel(n int, job func(i int)) {
	ch := make(chan int)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var failure any
	one := func(i int) {
		defer func() {
			if e := recover(); e != nil {
				mu.Lock()
				failure = fmt.Sprintf("%v\n%s", e, debug.Stack())
				mu.Unlock()
			}
		}()
		job(i)
	}
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				one(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if failure != nil {
		panic(failure)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
