package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// stlRun is an STL file, what goes wrong while it is read, and what became of
// the model.
type stlRun struct {
	r        *Report
	ascii    bool
	facets   int
	declared int64 // the number of facets that the file says it has, if not 0
	hook     func(e *ai.Engine)
	coord    func(facet, corner, axis int) poly // symbolic coordinates
	real     func(facet, i int) ai.Val          // the numbers of a facet
	junk     int                                // lines without a vertex after each facet
	cancel   int                                // the context is cancelled before this unit of input (facet or line); -1: never
	fault    string                             // the step that fails: "peek", "header", "read", "parse"
	at       int                                // the unit at which it fails
	eof      string                             // how a read fails: "eof" (end of file), "short" (in the middle), or "error"
	empty    bool                               // the model is empty before
	every    int64                              // what the numbers that say how often the context is looked at are replaced by

	e      *ai.Engine
	panics map[string]bool
	before map[string]string
	scaled map[string]int64
	oldObj []string
	oldIt  []string
}

func (s *stlRun) String() string {
	kind := "binary"
	if s.ascii {
		kind = "ASCII"
	}
	t := fmt.Sprintf("a %s file of %d facets", kind, s.facets)
	if s.fault != "" {
		t += fmt.Sprintf(" where %q %d fails (%s)", s.fault, s.at, s.eof)
	}
	if s.cancel >= 0 {
		t += fmt.Sprintf(" cancelled at %d", s.cancel)
	}
	return t
}

func ghostInt(st *ai.State, k string) int {
	n, _ := strconv.Atoi(st.Ghost[k])
	return n
}

// took notes that a unit of input was taken.
func (s *stlRun) took(st *ai.State) {
	st.Ghost["units"] = strconv.Itoa(ghostInt(st, "units") + 1)
}

func (s *stlRun) cancelled(st *ai.State) bool {
	return s.cancel >= 0 && ghostInt(st, "units") >= s.cancel
}

func (s *stlRun) failure(st *ai.State) ai.Val {
	st.Ghost["failed"] = s.fault
	switch s.eof {
	case "eof":
		return ai.Atom("io.EOF", errorT)
	case "short":
		st.NonNil("io.ErrUnexpectedEOF")
		return ai.Atom("io.ErrUnexpectedEOF", errorT)
	}
	return ai.ErrAtom(st, "err:"+s.fault)
}

// says is the number of facets that the header declares.
func (s *stlRun) says() int64 {
	if s.declared != 0 {
		return s.declared
	}
	return int64(s.facets)
}

// line gives a line of an ASCII file.
func (s *stlRun) line(i int) (string, bool) {
	if i == 0 {
		if s.declared != 0 {
			return fmt.Sprintf("solid name %d", s.declared), true
		}
		return "solid name", true
	}
	i--
	per := 7 + s.junk
	if i >= per*s.facets {
		return "endsolid name", i == per*s.facets
	}
	f, k := i/per, i%per
	switch k {
	case 0:
		return "facet normal 0 0 1", true
	case 1:
		return "outer loop", true
	case 2, 3, 4:
		v := []string{strconv.Itoa(k), strconv.Itoa(f % 2), "3.5"}
		if s.coord != nil {
			for a := range v {
				v[a] = fmt.Sprintf("@%d.%d.%d", f, k-2, a)
			}
		}
		if s.fault == "parse" && s.at/9 == f && s.at/3%3 == k-2 {
			v[s.at%3] = "1.2.3"
		}
		return "  vertex " + strings.Join(v, "  "), true
	case 5:
		return "endloop", true
	case 6:
		return "endfacet", true
	}
	return "# something else", true
}

// intercept models the input.
func (s *stlRun) intercept(c *ai.CallCtx) ([]ai.Out, bool) {
	st := c.St
	isCtx := func(v ai.Val) bool {
		y, ok := v.(*ai.Sym)
		return ok && (y.ID == "ctx" || y.Op == "derived")
	}
	if c.Fn == nil {
		if c.Method != nil && isCtx(c.Recv) && c.Method.Name() == "Err" {
			if s.cancelled(st) {
				st.NonNil("ctx error")
				err := ai.ErrAtom(st, "ctx error")
				st.AssumeCond(st.Equal(err, ai.Atom("io.EOF", errorT)), false)
				return result(st, []ai.Val{err}), true
			}
			return result(st, []ai.Val{ai.NilOf(errorT)}), true
		}
		return nil, false
	}
	fail := func(v ai.Val) ([]ai.Out, bool) {
		var vs []ai.Val
		for i := 0; i < c.Res.Len(); i++ {
			t := c.Res.At(i).Type()
			if types.Identical(t, errorT) {
				vs = append(vs, v)
			} else {
				vs = append(vs, ai.Zero(t))
			}
		}
		return result(st, vs), true
	}
	str := func(x string) ai.Val { return ai.Str(x) }
	switch name := ai.FnName(c.Fn); name {
	case "bufio.NewReader", "bufio.NewReaderSize", "bufio.NewScanner":
		id := name + "@" + c.Site
		st.NonNil(id)
		return []ai.Out{{St: st, Res: ai.Atom(id, c.Res.At(0).Type())}}, true
	case "(*bufio.Reader).Peek":
		if s.fault == "peek" {
			return fail(s.failure(st))
		}
		n, _ := ai.ConstInt(c.Args[1])
		h := "solid name\nfacet normal 0 0 1\nouter loop\n"
		if !s.ascii {
			h = "solid \xff\x80"
			if s.at%2 == 1 {
				h = "binary"
			}
		}
		for int64(len(h)) < n {
			h += " "
		}
		return result(st, []ai.Val{&ai.Bytes{S: h[:n]}, ai.NilOf(errorT)}), true
	case "(*bufio.Scanner).Buffer", "(*bufio.Scanner).Split":
		return []ai.Out{{St: st}}, true
	case "(*bufio.Scanner).Scan":
		i := ghostInt(st, "line")
		_, ok := s.line(i)
		if ok && s.fault == "read" && i == s.at {
			st.Ghost["failed"] = "read"
			ok = false
		}
		if ok {
			st.Ghost["line"] = strconv.Itoa(i + 1)
			s.took(st)
		}
		return []ai.Out{{St: st, Res: ai.Bool(ok)}}, true
	case "(*bufio.Scanner).Text":
		l, _ := s.line(ghostInt(st, "line") - 1)
		return []ai.Out{{St: st, Res: str(l)}}, true
	case "(*bufio.Scanner).Bytes":
		l, _ := s.line(ghostInt(st, "line") - 1)
		return []ai.Out{{St: st, Res: &ai.Bytes{S: l}}}, true
	case "(*bufio.Scanner).Err":
		if st.Ghost["failed"] == "read" {
			return []ai.Out{{St: st, Res: ai.ErrAtom(st, "err:read")}}, true
		}
		return []ai.Out{{St: st, Res: ai.NilOf(errorT)}}, true
	case "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadLine":
		i := ghostInt(st, "line")
		l, ok := s.line(i)
		if ok && s.fault == "read" && i == s.at {
			return fail(s.failure(st))
		}
		if !ok {
			return fail(ai.Atom("io.EOF", errorT))
		}
		st.Ghost["line"] = strconv.Itoa(i + 1)
		s.took(st)
		var v ai.Val = str(l + "\n")
		switch name {
		case "(*bufio.Reader).ReadBytes":
			v = &ai.Bytes{S: l + "\n"}
		case "(*bufio.Reader).ReadLine":
			return result(st, []ai.Val{&ai.Bytes{S: l}, ai.Bool(false), ai.NilOf(errorT)}), true
		}
		return result(st, []ai.Val{v, ai.NilOf(errorT)}), true
	case "encoding/binary.Read", "io.ReadFull", "io.ReadAtLeast":
		n := ghostInt(st, "block")
		if n == 0 && s.fault == "header" || n > 0 && s.fault == "read" && n-1 == s.at {
			return fail(s.failure(st))
		}
		if n > s.facets { // nothing is left
			st.Ghost["failed"] = "end"
			return fail(ai.Atom("io.EOF", errorT))
		}
		st.Ghost["block"] = strconv.Itoa(n + 1)
		if n > 0 {
			s.took(st)
		}
		if name == "encoding/binary.Read" {
			dst := c.Args[2]
			if i, ok := st.Resolve(dst).(*ai.Iface); ok {
				dst = i.V
			}
			old := st.LoadPtr(dst)
			if old == nil {
				return nil, false
			}
			reals := 0
			st.StorePtr(dst, s.filled(ai.ValType(old), n, n, &reals), false)
			return result(st, []ai.Val{ai.NilOf(errorT)}), true
		}
		el, ok := st.SliceElems(c.Args[1])
		if !ok {
			return nil, false
		}
		for i := range el {
			b := int64(0)
			if n == 0 && i >= 80 && i < 84 {
				b = s.says() >> (8 * (i - 80)) & 255
			}
			var v ai.Val = &ai.Const{T: types.Typ[types.Byte], V: constant.MakeInt64(b)}
			if n > 0 && s.coord != nil && i < 48 {
				v = &ai.Sym{ID: fmt.Sprintf("byte@%d.%d", n-1, i), T: types.Typ[types.Byte]}
			}
			st.StorePtr(st.ElemPtr(c.Args[1], ai.ConstOf(i)), v, false)
		}
		return result(st, []ai.Val{ai.ConstOf(len(el)), ai.NilOf(errorT)}), true
	case "(encoding/binary.littleEndian).Uint32":
		el, ok := st.SliceElems(c.Args[len(c.Args)-1])
		if !ok || len(el) < 4 {
			return nil, false
		}
		v := int64(0)
		for i := 3; i >= 0; i-- {
			b, ok := ai.ConstInt(st.Resolve(el[i]))
			if !ok {
				return nil, false
			}
			v = v<<8 | b
		}
		return []ai.Out{{St: st, Res: &ai.Const{T: types.Typ[types.Uint32], V: constant.MakeInt64(v)}}}, true
	case "math.Floor":
		if k, ok := c.Args[0].(*ai.Const); ok && k.V != nil {
			f, _ := constant.Float64Val(k.V)
			return []ai.Out{{St: st, Res: &ai.Const{T: k.T, V: constant.MakeFloat64(math.Floor(f))}}}, true
		}
	case "math.Float32frombits":
		if k, ok := ai.ConstInt(c.Args[0]); ok {
			return []ai.Out{{St: st, Res: &ai.Const{T: types.Typ[types.Float32], V: constant.MakeFloat64(float64(math.Float32frombits(uint32(k))))}}}, true
		}
	case "context.WithCancel":
		if isCtx(c.Args[0]) {
			st.NonNil("cancel")
			v := ai.Term(c.Res.At(0).Type(), "derived", c.Args[0])
			if y, ok := v.(*ai.Sym); ok {
				st.NonNil(y.ID)
			}
			return result(st, []ai.Val{v, ai.Atom("cancel", c.Res.At(1).Type())}), true
		}
	}
	return nil, false
}

// filled is what a block of the file reads as.
func (s *stlRun) filled(t types.Type, block, n int, reals *int) ai.Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &ai.Agg{T: t}
		for i := 0; i < u.NumFields(); i++ {
			a.Elems = append(a.Elems, s.filled(u.Field(i).Type(), block, n, reals))
		}
		return a
	case *types.Array:
		a := &ai.Agg{T: t}
		for i := int64(0); i < u.Len() && i < 80; i++ {
			a.Elems = append(a.Elems, s.filled(u.Elem(), block, n+int(i), reals))
		}
		if u.Len() > 64 {
			return &ai.Top{T: t}
		}
		return a
	case *types.Basic:
		if u.Kind() == types.Uint32 && n == 0 {
			return &ai.Const{T: t, V: constant.MakeInt64(s.says())}
		}
		if u.Info()&types.IsInteger != 0 {
			return &ai.Const{T: t, V: constant.MakeInt64(0)}
		}
		if s.real != nil && block > 0 {
			*reals++
			return s.real(block-1, *reals-1)
		}
		return &ai.Const{T: t, V: constant.MakeFloat64(float64(n % 5))}
	}
	return &ai.Top{T: t}
}

// scale replaces the package level numbers that are large: they say how often
// something is done.
func scale(w *World, e *ai.Engine, st *ai.State, pkgs []string, every int64) map[string]int64 {
	out := map[string]int64{}
	for _, p := range pkgs {
		pk := w.P.Pkg(p)
		if pk == nil {
			continue
		}
		for _, n := range sortedKeys(pk.Members) {
			g, ok := pk.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			if v, ok := ai.ConstInt(st.LoadPtr(ai.GlobalPtr(g))); ok && v > every {
				st.StorePtr(ai.GlobalPtr(g), &ai.Const{T: t, V: constant.MakeInt64(every)}, false)
				out[p+"."+n] = v
			}
		}
	}
	return out
}

// onCancelled chooses the case of a select on Done.
func onCancelled(is func(st *ai.State) bool) func(st *ai.State, fn *ssa.Function, sel *ssa.Select, get func(ssa.Value) ai.Val) ([]int, bool) {
	return func(st *ai.State, fn *ssa.Function, sel *ssa.Select, get func(ssa.Value) ai.Val) ([]int, bool) {
		for i, s := range sel.States {
			if y, ok := get(s.Chan).(*ai.Sym); !ok || y.Op != "Done" {
				return nil, false
			} else if is(st) {
				return []int{i}, true
			}
		}
		if sel.Blocking {
			return nil, false
		}
		return []int{-1}, true
	}
}

// parts of the model that an import leaves alone.
func (s *stlRun) snapshot(st *ai.State, m ai.Val) map[string]string {
	out := map[string]string{}
	v := st.LoadPtr(m)
	mt := s.r.W.Type("", "Model").Underlying().(*types.Struct)
	for i := 0; i < mt.NumFields(); i++ {
		n := mt.Field(i).Name()
		switch n {
		case "Resources", "Build":
			f := mt.Field(i).Type().Underlying().(*types.Struct)
			for j := 0; j < f.NumFields(); j++ {
				if k := f.Field(j).Name(); k != "Objects" && k != "Items" {
					out[n+"."+k] = shown(st, GetPath(st, v, "."+n+"."+k))
				}
			}
		default:
			out[n] = shown(st, GetPath(st, v, "."+n))
		}
	}
	return out
}

func (s *stlRun) lists(st *ai.State, m ai.Val) (objs, items []ai.Val, ok bool) {
	v := st.LoadPtr(m)
	o, ok1 := st.SliceElems(st.Resolve(GetPath(st, v, ".Resources.Objects")))
	i, ok2 := st.SliceElems(st.Resolve(GetPath(st, v, ".Build.Items")))
	return o, i, ok1 && ok2
}

// run interprets the decoder.
func (s *stlRun) run() ([]ai.Out, error) {
	const pkg = "importer/stl"
	nd, dc := s.r.W.Func(pkg, "NewDecoder"), s.r.W.Method(pkg, "Decoder", "DecodeContext")
	if nd == nil || dc == nil {
		return nil, fmt.Errorf("stl.NewDecoder or Decoder.DecodeContext not found")
	}
	e := s.r.W.Engine()
	s.e = e
	e.PathSensitive, e.MaxParts, e.TrackNarrow = true, 64, true
	e.Peel, e.WidenAfter = 400, 500
	e.MapPerm = func(_ *ssa.Function, _ *ssa.Next, n int) []int { return permutation(n, 0) }
	s.panics = map[string]bool{}
	e.OnPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string) {
		s.panics[fmt.Sprintf("%s in %s (%s)", what, fnLabel(fn), s.r.W.P.Pos(pos))] = true
	}
	e.OnSelect = onCancelled(s.cancelled)
	e.Intercept = s.intercept
	if s.hook != nil {
		s.hook(e)
	}
	st := e.NewState()
	if s.every > 0 {
		s.scaled = scale(s.r.W, e, st, []string{pkg, ""}, s.every)
	}
	m := F{}
	if !s.empty {
		m = F{
			"Attachments": L{F{"Path": "/a"}}, "Metadata": L{F{"Value": "v"}}, "Units": 2, "Path": "/3D/3dmodel.model",
			"Resources": F{"Assets": L{Dyn{"", "BaseMaterials", F{"ID": 1}}}, "Objects": L{F{"ID": 2, "Mesh": F{"Vertices": F{"Vertex": L{L{1, 2, 3}}}}}, F{"ID": 4, "Components": F{}}}},
			"Build":     F{"Items": L{F{"ObjectID": 2}}, "AnyAttr": L{Dyn{"production", "BuildAttr", F{"UUID": goodUUID}}}},
			"Childs":    M{{childPart, F{"Resources": F{"Objects": L{F{"ID": 3}}}}}},
		}
	}
	b := &literal{w: s.r.W, st: st, pfx: "m"}
	v := b.val(s.r.W.Type("", "Model"), m)
	if b.err != nil {
		return nil, b.err
	}
	st.SetRoot("model", v)
	mp := &ai.Ptr{Obj: "model"}
	s.before = s.snapshot(st, mp)
	objs, items, ok := s.lists(st, mp)
	if !ok {
		return nil, fmt.Errorf("the lists of the model are not known")
	}
	for _, o := range objs {
		s.oldObj = append(s.oldObj, o.Key()+" "+shown(st, o))
	}
	for _, o := range items {
		s.oldIt = append(s.oldIt, o.Key()+" "+shown(st, o))
	}
	st.NonNil("input")
	st.NonNil("ctx")
	o := e.Call(st, nd, []ai.Val{ai.Atom("input", nd.Signature.Params().At(0).Type())}, nil, "NewDecoder", nil)
	if len(o) != 1 {
		return nil, fmt.Errorf("NewDecoder has %d outcomes", len(o))
	}
	outs := e.Call(o[0].St, dc, []ai.Val{o[0].Res, ai.Atom("ctx", dc.Signature.Params().At(0).Type()), mp}, nil, "DecodeContext", nil)
	s.r.engineFns(e)
	for _, k := range sortedKeys(e.Limits) {
		return nil, fmt.Errorf("the analysis reached a limit (%s)", k)
	}
	if len(outs) == 0 || len(s.panics) > 0 {
		return nil, fmt.Errorf("%d outcomes, panics %v", len(outs), sortedKeys(s.panics))
	}
	return outs, nil
}

// failed tells whether an outcome is an error.
func failed(o ai.Out) (bool, bool) {
	isNil, known := ai.ConstBool(o.St.IsNilCond(o.Res))
	return !isNil, known
}

// same tells in which way the model of an outcome differs from before, apart
// from what was added to the lists of objects and items.
func (s *stlRun) same(o ai.Out) (objs, items []ai.Val, diff string) {
	mp := &ai.Ptr{Obj: "model"}
	after := s.snapshot(o.St, mp)
	for _, k := range sortedKeys(s.before) {
		if after[k] != s.before[k] {
			return nil, nil, fmt.Sprintf("%s changed from %q to %q", k, s.before[k], after[k])
		}
	}
	objs, items, ok := s.lists(o.St, mp)
	if !ok {
		return nil, nil, "the lists of objects and items are not known"
	}
	keep := func(what string, l []ai.Val, old []string) ([]ai.Val, string) {
		if len(l) < len(old) {
			return nil, fmt.Sprintf("%d %s are left of %d", len(l), what, len(old))
		}
		for i, x := range old {
			if l[i].Key()+" "+shown(o.St, l[i]) != x {
				return nil, fmt.Sprintf("%s %d is another one or changed", what, i)
			}
		}
		return l[len(old):], ""
	}
	if objs, diff = keep("objects", objs, s.oldObj); diff != "" {
		return
	}
	items, diff = keep("items", items, s.oldIt)
	return
}

func checkC27(r *Report) {
	r.Rule("abstract interpretation of the STL decoder on files of both kinds in which each step of reading, each number and each moment of cancellation fails in turn: an error must be returned and the model be as before; without a failure there must be exactly one more object, whose mesh has the facets, and one more item that refers to it")
	var runs []*stlRun
	for _, empty := range []bool{false, true} {
		for _, n := range []int{0, 1, 2, 5} {
			for _, ascii := range []bool{false, true} {
				mk := func(x stlRun) {
					x.r, x.ascii, x.facets, x.empty, x.every = r, ascii, n, empty, 1
					runs = append(runs, &x)
				}
				mk(stlRun{cancel: -1})
				mk(stlRun{cancel: -1, at: 1})
				for _, eof := range []string{"error", "eof", "short"} {
					mk(stlRun{cancel: -1, fault: "peek", eof: eof})
					if !ascii {
						mk(stlRun{cancel: -1, fault: "header", eof: eof})
						for i := 0; i < n; i++ {
							mk(stlRun{cancel: -1, fault: "read", at: i, eof: eof})
						}
					}
				}
				if ascii {
					for i := 0; i < 7*n+2; i++ {
						mk(stlRun{cancel: -1, fault: "read", at: i, eof: "error"})
					}
					for i := 0; i < 9*n; i++ {
						mk(stlRun{cancel: -1, fault: "parse", at: i})
					}
				}
				units := n
				if ascii {
					units = 7*n + 2
				}
				for i := 0; i <= units; i++ {
					mk(stlRun{cancel: i})
				}
			}
		}
	}
	parallel(len(runs), func(i int) {
		s := runs[i]
		outs, err := s.run()
		if err != nil {
			r.Fail("undecided: "+s.fault, s.String(), "importing %s: %v", s, err)
			return
		}
		for _, o := range outs {
			bad, known := failed(o)
			if !known {
				r.Fail("undecided: error", s.String(), "importing %s: it is not known whether %s is nil", s, short(o.Res))
				continue
			}
			objs, items, diff := s.same(o)
			if diff != "" {
				r.Fail("changed", s.String(), "importing %s (failed: %v): %s", s, bad, diff)
				continue
			}
			if s.fault != "" || o.St.Ghost["failed"] != "" {
				r.Assert(bad, "a failure is reported", "unreported "+s.fault, s.String(), "importing %s reports success", s)
			} else if s.cancel < 0 {
				r.Assert(!bad, "a good file is imported", "refused", s.String(), "importing %s fails: %s", s, short(o.Res))
			}
			if bad {
				r.Assert(len(objs) == 0 && len(items) == 0, "the model is left as it was", "left over", s.String(), "importing %s fails, but %d objects and %d items were added", s, len(objs), len(items))
				continue
			}
			r.Assert(len(objs) == 1 && len(items) == 1, "one object and one item are added", "added", s.String(), "importing %s adds %d objects and %d items", s, len(objs), len(items))
			if len(objs) != 1 || len(items) != 1 {
				continue
			}
			id := GetPath(o.St, objs[0], ".ID")
			same, known := ai.ConstBool(o.St.Equal(id, GetPath(o.St, items[0], ".ObjectID")))
			r.Assert(same && known, "the item refers to the object", "reference", s.String(), "importing %s: the item refers to %s, the object is %s", s, shown(o.St, GetPath(o.St, items[0], ".ObjectID")), shown(o.St, id))
			n, known := ai.ConstInt(id)
			r.Assert(known && n > 0 && (s.empty || n != 1 && n != 2 && n != 4), "the identifier of the object is new", "identifier", s.String(), "importing %s: the identifier of the object is %s", s, shown(o.St, id))
			ts, ok := o.St.SliceElems(o.St.Resolve(GetPath(o.St, objs[0], ".Mesh.Triangles.Triangle")))
			r.Assert(ok && len(ts) == s.facets, "the mesh has the facets of the file", "facets", s.String(), "importing %s gives a mesh of %d triangles", s, len(ts))
			vs, ok := o.St.SliceElems(o.St.Resolve(GetPath(o.St, objs[0], ".Mesh.Vertices.Vertex")))
			for i, t := range ts {
				for k := 0; k < 3; k++ {
					x, known := ai.ConstInt(GetPath(o.St, t, fmt.Sprintf(".V%d", k+1)))
					if !ok || !known || x >= int64(len(vs)) {
						r.Fail("vertices", s.String(), "importing %s: vertex %d of triangle %d is %d of %d", s, k, i, x, len(vs))
						continue
					}
					want := [3]string{}
					for d := range want {
						if s.ascii {
							want[d] = []string{strconv.Itoa(k + 2), strconv.Itoa(i % 2), "3.5"}[d]
						} else {
							want[d] = strconv.Itoa((i + 1 + k + d) % 5)
						}
					}
					at, known := o.St.Resolve(vs[x]).(*ai.Agg)
					okv := known && len(at.Elems) == 3
					for d := 0; okv && d < 3; d++ {
						c, isC := o.St.Resolve(at.Elems[d]).(*ai.Const)
						if !isC {
							okv = false
							break
						}
						f, _ := constant.Float64Val(constant.ToFloat(c.V))
						okv = strconv.FormatFloat(f, 'g', -1, 64) == want[d]
					}
					r.Assert(okv, "the vertices of a facet are those of the file", "coordinates", s.String(), "importing %s: vertex %d of triangle %d is %s, want %v", s, k, i, shown(o.St, vs[x]), want)
				}
			}
		}
		r.Count("imports", 1)
	})
}
