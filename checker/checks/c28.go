package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/ai"
)

const (
	manyElements = 1 << 24 // more than this is not bounded by anything sensible
	manyAppends  = 250     // appends at one place between two pieces of input
)

// allocs judges everything that is allocated while a small input is read
// that declares to hold billions of things.
type allocs struct {
	r     *Report
	label string
	units func(st *ai.State) int
}

// sized are external functions that allocate as much as an argument says.
var sized = map[string]int{
	"(*bytes.Buffer).Grow": 1, "(*strings.Builder).Grow": 1, "slices.Grow": 1, "strings.Repeat": 1, "bytes.Repeat": 1,
	"bufio.NewReaderSize": 1, "bufio.NewWriterSize": 1, "reflect.MakeSlice": 2, "reflect.MakeMapWithSize": 1, "reflect.MakeChan": 1,
	"container/ring.New": 0, "reflect.ArrayOf": 0, "(reflect.Value).Grow": 1, "slices.Repeat": 1,
}

func (a *allocs) judge(st *ai.State, where, kind string, size ai.Val) {
	r := a.r
	n, ok := ai.ConstInt(size)
	if !ok {
		if k, isConst := size.(*ai.Const); isConst && k.V != nil && k.V.Kind() == constant.Int {
			n, ok = manyElements+1, true
		}
	}
	if !ok {
		if y, isSym := st.Resolve(size).(*ai.Sym); isSym {
			if f := st.Fact(y.ID); f.HasHi && f.Hi <= manyElements {
				r.OK("sizes are bounded", where)
				return
			}
		}
		r.Fail("undecided: size at "+where, a.label, "%s: the size %s of what is allocated at %s is not known", a.label, short(size), where)
		return
	}
	r.Assert(n <= manyElements, "sizes are bounded", kind+" "+where, a.label, "%s: %d elements are allocated at %s", a.label, n, where)
	if kind != "append" {
		return
	}
	// between two pieces of input only so much may be appended
	u := strconv.Itoa(a.units(st))
	key := "grown " + where
	count := 0
	if g := strings.SplitN(st.Ghost[key], "@", 2); len(g) == 2 && g[1] == u {
		count, _ = strconv.Atoi(g[0])
	}
	count++
	st.Ghost[key] = strconv.Itoa(count) + "@" + u
	r.Assert(count <= manyAppends, "memory grows with what is read", "grows "+where, a.label, "%s: %d times something is appended at %s while nothing is read", a.label, count, where)
}

func (a *allocs) watch(e *ai.Engine) {
	e.OnAlloc = func(st *ai.State, fn *ssa.Function, pos token.Position, kind string, size ai.Val) {
		a.judge(st, fmt.Sprintf("%s (%s)", ai.FnName(fn), a.r.W.P.Pos(pos)), kind, size)
	}
	inner := e.Intercept
	e.Intercept = func(c *ai.CallCtx) ([]ai.Out, bool) {
		if c.Fn != nil {
			name := ai.FnName(c.Fn)
			if o := c.Fn.Origin(); o != nil {
				name = ai.FnName(o)
			}
			if k, ok := sized[name]; ok && k < len(c.Args) {
				a.judge(c.St, fmt.Sprintf("%s (%s)", name, a.r.W.P.Pos(c.Pos())), "make", c.St.Resolve(c.Args[k]))
			}
		}
		if inner == nil {
			return nil, false
		}
		return inner(c)
	}
}

func checkC28(r *Report) {
	r.Rule("abstract interpretation of everything that reads files, on small inputs in which every number (attributes that the decoders know or compare names with, headers, sizes of parts) is huge: no slice, map, channel or buffer may be made with a size above 16 Mi elements or of unknown size, and between two pieces of input nothing may be appended over and over")
	r.c28STL()
	r.c28Package()
	r.c28Bytes()
}

var hugeNumbers = []int64{4294967295, 4294967294, 2147483647, 1000000000, 100000000}

func (r *Report) c28STL() {
	var jobs []*stlRun
	for _, ascii := range []bool{false, true} {
		for facets := 0; facets <= 4; facets++ {
			for _, n := range hugeNumbers {
				jobs = append(jobs, &stlRun{r: r, ascii: ascii, facets: facets, declared: n, cancel: -1})
				if facets > 0 {
					jobs = append(jobs, &stlRun{r: r, ascii: ascii, facets: facets, declared: n, cancel: -1, fault: "read", at: facets - 1, eof: "short"})
				}
			}
		}
	}
	parallel(len(jobs), func(i int) {
		s := jobs[i]
		label := fmt.Sprintf("%s that declares %d facets", s, s.declared)
		a := &allocs{r: r, label: label, units: func(st *ai.State) int { return ghostInt(st, "units") }}
		s.hook = a.watch
		if _, err := s.run(); err != nil {
			r.Fail("undecided: STL", label, "importing %s: %v", label, err)
		}
		r.Count("STL files", 1)
	})
}

// attributeNames are the names that the library compares names with.
func (w *World) attributeNames() []string {
	seen := map[string]bool{}
	add := func(v ssa.Value) {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			s := constant.StringVal(k.Value)
			for i, c := range s {
				if !unicode.IsLetter(c) && (i == 0 || !unicode.IsDigit(c) && c != '_' && c != '-') {
					return
				}
			}
			if s != "" && s != "xmlns" {
				seen[s] = true
			}
		}
	}
	for fn := range ssautil.AllFunctions(w.P.SSA) {
		if fn.Pkg == nil || w.P.ByPath[fn.Pkg.Pkg.Path()] == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.BinOp:
					if in.Op == token.EQL || in.Op == token.NEQ {
						add(in.X)
						add(in.Y)
					}
				case ssa.CallInstruction:
					for _, v := range in.Common().Args {
						add(v)
					}
				case *ssa.Lookup:
					add(in.Index)
				case *ssa.MapUpdate:
					add(in.Key)
				}
			}
		}
	}
	var out []string
	for s := range seen {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func (r *Report) c28Package() {
	names := r.W.attributeNames()
	r.Count("attribute names", len(names))
	values := []string{}
	for _, n := range hugeNumbers {
		values = append(values, strconv.FormatInt(n, 10))
	}
	doc := func(v string, every, twice bool) []Tok {
		var rec func(e *ElemSpec) []Tok
		rec = func(e *ElemSpec) []Tok {
			var attrs []Attr
			has := map[string]bool{}
			for _, a := range e.Attrs {
				x := BytesVal(v)
				switch a.Kind {
				case "f32":
					x = BytesVal(v + ".5")
				case "enum", "bool", "color", "uuid":
					if !every {
						x = BytesVal(goodText(&a))
					}
				case "str", "u32":
				default:
					x = BytesVal(strings.TrimSpace(strings.Repeat(v+" ", 12)))
				}
				if a.Local == "path" {
					x = BytesVal("/3D/" + v + ".model")
				}
				attrs = append(attrs, Attr{a.Space, a.Local, x})
				if a.Space == "" {
					has[a.Local] = true
				}
			}
			if every {
				for _, n := range names {
					if !has[n] {
						attrs = append(attrs, Attr{"", n, BytesVal(v)})
					}
				}
			}
			var kids [][]Tok
			for _, c := range e.Children {
				k := rec(c)
				kids = append(kids, k)
				if twice && len(c.Children) == 0 {
					kids = append(kids, k)
				}
			}
			if e.Text {
				kids = append(kids, Text(BytesVal(v)))
			}
			return Elem(e.Space, e.Local, attrs, kids...)
		}
		return rec(Schema())
	}
	type job struct {
		v              string
		every, twice   bool
		strict, memory bool
	}
	var jobs []job
	for _, v := range values {
		for _, every := range []bool{false, true} {
			for _, twice := range []bool{false, true} {
				jobs = append(jobs, job{v, every, twice, false, false}, job{v, every, twice, true, false}, job{v, every, twice, false, true})
			}
		}
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		toks := doc(j.v, j.every, j.twice)
		label := fmt.Sprintf("a package full of %s (all attributes: %v, twice: %v, strict: %v)", j.v, j.every, j.twice, j.strict)
		var rd *Reader
		if j.memory {
			label += " in memory"
			rd = r.partReader(nil)
			rd.Script = toks
		} else {
			rd = r.partReader(testPackage(func(string) []Tok { return toks }, 0, true))
			rd.Size = 1 << 40
		}
		a := &allocs{r: r, label: label, units: func(st *ai.State) int { return ghostInt(st, "pieces") }}
		rd.OnToken = func(c *ai.CallCtx, part string, pos int) {
			c.St.Ghost["pieces"] = strconv.Itoa(ghostInt(c.St, "pieces") + 1)
		}
		a.watch(rd.E)
		rd.E.MaxSteps *= 4
		rd.E.Peel, rd.E.WidenAfter = 2000, 2100
		var outs []ai.Out
		var err error
		if j.memory {
			outs, err = rd.Run()
		} else {
			outs, err = rd.RunPackage(j.strict)
		}
		r.engineFns(rd.E)
		r.limits(rd.E, label)
		if err != nil || len(outs) == 0 || len(rd.Panics) > 0 {
			r.Fail("undecided: package", label, "decoding %s: %v, %d outcomes, panics %v", label, err, len(outs), sortedKeys(rd.Panics))
		}
		r.Count("packages", 1)
	})
}

// c28Bytes goes through the tokenizer.
func (r *Report) c28Bytes() {
	docs := partTexts()
	parallel(len(docs)*2, func(i int) {
		d := i / 2
		src := &byteSource{r: r, parts: map[string][]stretch{rootPart: docs[d]}, cut: map[string]int{rootPart: 1 << 20}, chunk: []int{1, 4096}[i%2], at: rootPart}
		label := fmt.Sprintf("the text %d, %d bytes at once", d, src.chunk)
		a := &allocs{r: r, label: label, units: func(st *ai.State) int { return 0 }}
		src.hook = a.watchMake
		if _, err := src.run(false); err != nil {
			r.Fail("undecided: text", label, "decoding %s: %v", label, err)
		}
		r.Count("texts", 1)
	})
}

func (a *allocs) watchMake(e *ai.Engine) {
	a.watch(e)
	all := e.OnAlloc
	e.OnAlloc = func(st *ai.State, fn *ssa.Function, pos token.Position, kind string, size ai.Val) {
		if kind != "append" {
			all(st, fn, pos, kind, size)
		}
	}
}
