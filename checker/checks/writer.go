package checks

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"verif/checker/ai"
)

// piece is a piece of output: text written as it is or passed through XML
// escaping.
type piece struct {
	v   ai.Val
	esc bool
}

type outNode struct {
	prev int
	p    piece
}

// Writer drives the encoder abstractly: the OPC library and the buffered
// writer are modelled by an output stream per part.
type Writer struct {
	W     *World
	E     *ai.Engine
	nodes []outNode
	index map[string]int
	rels  [][]AbsRel
	// More is consulted before the standard interceptions.
	More func(c *ai.CallCtx) ([]ai.Out, bool)
	// Fails tells whether a step fails.
	Fails func(st *ai.State, step string) bool
	// Problems collects undecided constructs.
	Problems map[string]bool
	// OnMarshal runs after every element or attribute group was asked to
	// marshal itself.
	OnMarshal func(before, after *ai.State, c *ai.CallCtx)
	// OnEmit runs whenever something is written to a part.
	OnEmit    func(st *ai.State, part string)
	inMarshal int
}

// NewWriter prepares a writer.
func (w *World) NewWriter() *Writer {
	x := &Writer{W: w, E: w.Engine(), nodes: []outNode{{}}, index: map[string]int{}, rels: [][]AbsRel{nil}, Problems: map[string]bool{}}
	x.E.Intercept = x.Intercept
	x.E.TrackNarrow = true
	return x
}

func (x *Writer) problem(f string, a ...any) { x.Problems[fmt.Sprintf(f, a...)] = true }

// emit appends a piece to the stream of a part.
func (x *Writer) emit(st *ai.State, part string, p piece) {
	if x.OnEmit != nil {
		x.OnEmit(st, part)
	}
	prev, _ := strconv.Atoi(st.Ghost["out:"+part])
	p.v = st.Resolve(p.v)
	k := fmt.Sprintf("%d/%v/%s", prev, p.esc, p.v.Key())
	n, ok := x.index[k]
	if !ok {
		n = len(x.nodes)
		x.nodes = append(x.nodes, outNode{prev, p})
		x.index[k] = n
	}
	st.Ghost["out:"+part] = strconv.Itoa(n)
}

// Stream returns the output of a part.
func (x *Writer) Stream(st *ai.State, part string) []piece {
	n, _ := strconv.Atoi(st.Ghost["out:"+part])
	var out []piece
	for n != 0 {
		out = append([]piece{x.nodes[n].p}, out...)
		n = x.nodes[n].prev
	}
	return out
}

// Parts lists the created parts in order.
func (x *Writer) Parts(st *ai.State) []string {
	if st.Ghost["parts"] == "" {
		return nil
	}
	return strings.Split(st.Ghost["parts"], "|")
}

// Rels returns the relationships of a part ("" for the package).
func (x *Writer) Rels(st *ai.State, part string) []AbsRel {
	n, _ := strconv.Atoi(st.Ghost["rels:"+part])
	return x.rels[n]
}

func (x *Writer) fails(st *ai.State, step string) bool { return x.Fails != nil && x.Fails(st, step) }

// streamOf finds the part a writer value leads to.
func (x *Writer) streamOf(st *ai.State, v ai.Val) (part string, buffered bool) {
	Walk(st, v, func(p string, y ai.Val) bool {
		if part != "" {
			return false
		}
		if s, ok := y.(*ai.Sym); ok {
			if strings.HasPrefix(s.ID, "partw:") {
				part = strings.TrimPrefix(s.ID, "partw:")
			}
			if strings.HasPrefix(s.ID, "bufw:") {
				part, buffered = strings.TrimPrefix(s.ID, "bufw:"), true
			}
		}
		return true
	})
	return
}

func (x *Writer) readRels(st *ai.State, sl ai.Val) []AbsRel {
	el, ok := st.SliceElems(sl)
	if !ok {
		x.problem("the list of relationships is not known")
		return nil
	}
	var out []AbsRel
	for _, e := range el {
		s := func(f string) string {
			v := GetPath(st, e, "."+f)
			if v == nil {
				return "?"
			}
			if t, ok := ai.ConstStr(v); ok {
				return t
			}
			return "?" + v.Key()
		}
		out = append(out, AbsRel{s("ID"), s("Type"), s("TargetURI")})
	}
	return out
}

func (x *Writer) saveRels(st *ai.State, part string, rels []AbsRel) {
	k := fmt.Sprintf("rels %q %v", part, rels)
	n, ok := x.index[k]
	if !ok {
		n = len(x.rels)
		x.rels = append(x.rels, rels)
		x.index[k] = n
	}
	st.Ghost["rels:"+part] = strconv.Itoa(n)
}

// closeLast freezes the relationships of the part created last.
func (x *Writer) closeLast(st *ai.State) {
	ps := x.Parts(st)
	if len(ps) == 0 {
		return
	}
	last := ps[len(ps)-1]
	p := x.partPtr(st)
	if p != nil {
		x.saveRels(st, last, x.readRels(st, GetPath(st, p, ".Relationships")))
	}
}

func (x *Writer) partPtr(st *ai.State) ai.Val {
	v := st.Root("opcw.last")
	if v == nil || ai.IsNil(v) {
		return nil
	}
	return v
}

// Intercept models the OPC library, the buffered writer and XML escaping.
func (x *Writer) Intercept(c *ai.CallCtx) ([]ai.Out, bool) {
	if x.More != nil {
		if o, ok := x.More(c); ok {
			return o, true
		}
	}
	st := c.St
	one := func(v ai.Val) ([]ai.Out, bool) { return []ai.Out{{St: st, Res: v}}, true }
	nilErr := ai.NilOf(errorT)
	wres := func(n ai.Val, e ai.Val) ai.Val { return &ai.Tuple{Elems: []ai.Val{n, e}} }
	if c.Fn == nil && c.Method != nil {
		if s, ok := c.Recv.(*ai.Sym); ok && strings.HasPrefix(s.ID, "partw:") && c.Method.Name() == "Write" {
			part := strings.TrimPrefix(s.ID, "partw:")
			if x.fails(st, "write "+part) {
				return one(wres(ai.Int(0), ai.ErrAtom(st, "err:write "+part)))
			}
			x.emit(st, part, piece{c.Args[0], false})
			return one(wres(st.Len(c.Args[0]), nilErr))
		}
		return nil, false
	}
	if c.Fn == nil {
		return nil, false
	}
	if c.Fn.Name() == "Marshal3MF" && x.OnMarshal != nil && len(c.Fn.Blocks) > 0 && x.E.InRepo(c.Fn) {
		before := st.Clone()
		outs := x.E.Call(st, c.Fn, c.Args, nil, c.Site, c.Stack)
		for _, o := range outs {
			x.OnMarshal(before, o.St, c)
		}
		return outs, true
	}
	name := ai.FnName(c.Fn)
	switch name {
	case opcPath + ".NewWriter":
		t := c.Res.At(0).Type().Underlying().(*types.Pointer).Elem()
		st.SetRoot("opcw", ai.Zero(t))
		st.SetRoot("opcw.last", ai.NilOf(c.Res.At(0).Type()))
		return one(&ai.Ptr{Obj: "opcw"})
	case opcPath + ".NormalizePartName":
		if s, ok := ai.ConstStr(c.Args[0]); ok && strings.HasPrefix(s, "/") {
			return one(c.Args[0])
		}
	case opcPath + ".ResolveRelationship":
		if o, ok := resolveRel(c); ok {
			return one(o)
		}
	case "(*" + opcPath + ".Writer).CreatePart", "(*" + opcPath + ".Writer).Create":
		x.closeLast(st)
		var nv, ct ai.Val
		if strings.HasSuffix(name, "CreatePart") {
			nv, ct = GetPath(st, c.Args[1], ".Name"), GetPath(st, c.Args[1], ".ContentType")
			st.SetRoot("opcw.last", c.Args[1])
		} else {
			nv, ct = c.Args[1], c.Args[2]
			st.SetRoot("opcw.last", ai.NilOf(c.Sig.Params().At(0).Type()))
		}
		n, ok1 := ai.ConstStr(nv)
		t, _ := ai.ConstStr(ct)
		if !ok1 {
			x.problem("the name of a part is not known")
			n = "/unknown"
		}
		if x.fails(st, "create "+n) {
			return one(&ai.Tuple{Elems: []ai.Val{ai.NilOf(c.Res.At(0).Type()), ai.ErrAtom(st, "err:create "+n)}})
		}
		for _, p := range x.Parts(st) {
			if p == n {
				return one(&ai.Tuple{Elems: []ai.Val{ai.NilOf(c.Res.At(0).Type()), ai.ErrAtom(st, "err:duplicated part "+n)}})
			}
		}
		if st.Ghost["parts"] == "" {
			st.Ghost["parts"] = n
		} else {
			st.Ghost["parts"] += "|" + n
		}
		st.Ghost["ct:"+n] = t
		st.NonNil("partw:" + n)
		return one(&ai.Tuple{Elems: []ai.Val{ai.Atom("partw:"+n, c.Res.At(0).Type()), nilErr}})
	case "(*" + opcPath + ".Writer).Close":
		x.closeLast(st)
		x.saveRels(st, "", x.readRels(st, GetPath(st, c.Args[0], ".Relationships")))
		if x.fails(st, "close") {
			return one(ai.ErrAtom(st, "err:close"))
		}
		st.Ghost["closed"] = "1"
		return one(nilErr)
	case "bufio.NewWriter", "bufio.NewWriterSize":
		part, _ := x.streamOf(st, c.Args[0])
		if part == "" {
			part = "@" + c.Args[0].Key()
		}
		st.NonNil("bufw:" + part)
		return one(ai.Atom("bufw:"+part, c.Res.At(0).Type()))
	case "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteRune":
		part, _ := x.streamOf(st, c.Args[0])
		if part == "" {
			break
		}
		v := c.Args[1]
		if strings.HasSuffix(name, "Byte") || strings.HasSuffix(name, "Rune") {
			n, ok := ai.ConstInt(st.Resolve(v))
			if !ok {
				x.problem("a single character that is not constant is written")
			}
			v = ai.Str(string(rune(n)))
		}
		x.emit(st, part, piece{v, false})
		st.Ghost["dirty:"+part] = "1"
		if strings.HasSuffix(name, "Byte") {
			return one(nilErr)
		}
		return one(wres(st.Len(c.Args[1]), nilErr))
	case "(*bufio.Writer).Flush":
		part, _ := x.streamOf(st, c.Args[0])
		if part == "" {
			break
		}
		if x.fails(st, "flush "+part) {
			return one(ai.ErrAtom(st, "err:flush "+part))
		}
		if x.OnEmit != nil && st.Ghost["dirty:"+part] != "" {
			x.OnEmit(st, part)
		}
		delete(st.Ghost, "dirty:"+part)
		return one(nilErr)
	case "encoding/xml.EscapeText", "encoding/xml.Escape":
		part, buffered := x.streamOf(st, c.Args[0])
		if part == "" {
			break
		}
		x.emit(st, part, piece{c.Args[1], true})
		if buffered {
			st.Ghost["dirty:"+part] = "1"
		}
		if c.Res.Len() == 0 {
			return one(nil)
		}
		return one(nilErr)
	case "io.WriteString":
		part, buffered := x.streamOf(st, c.Args[0])
		if part == "" {
			break
		}
		if !buffered && x.fails(st, "write "+part) {
			return one(wres(ai.Int(0), ai.ErrAtom(st, "err:write "+part)))
		}
		x.emit(st, part, piece{c.Args[1], false})
		if buffered {
			st.Ghost["dirty:"+part] = "1"
		}
		return one(wres(st.Len(c.Args[1]), nilErr))
	case "io.Copy", "io.CopyBuffer":
		part, buffered := x.streamOf(st, c.Args[0])
		if part == "" {
			break
		}
		if x.fails(st, "copy "+part) {
			return one(wres(ai.Int(0), ai.ErrAtom(st, "err:copy "+part)))
		}
		x.emit(st, part, piece{c.Args[1], false})
		if buffered {
			st.Ghost["dirty:"+part] = "1"
		}
		return one(wres(ai.Int(1), nilErr))
	}
	return nil, false
}
