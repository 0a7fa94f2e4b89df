package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/ai"
	"verif/checker/load"
)

func badAtom(v ai.Val) bool {
	for {
		y, ok := v.(*ai.Sym)
		if !ok {
			return false
		}
		if y.Op == "" {
			return strings.HasPrefix(y.ID, "bad:")
		}
		if len(y.Args) == 0 {
			return false
		}
		v = y.Args[0]
	}
}

// badAttr is one malformed value of an attribute.
type badAttr struct {
	name string
	val  ai.Val
}

// badValues are classes of malformed texts for an attribute kind: a symbolic
// text no parser of that kind accepts, and, for composite values, one class
// per malformed position or count.
func badValues(a *AttrSpec, thorough bool) []badAttr {
	sym := badAttr{"unparsable text", ai.Atom("bad:"+a.Local, bytesT)}
	cs := func(ss ...string) []badAttr {
		var out []badAttr
		for _, s := range ss {
			out = append(out, badAttr{fmt.Sprintf("%q", s), BytesVal(s)})
		}
		return out
	}
	switch a.Kind {
	case "u32":
		return append([]badAttr{sym}, cs("", "-1", "4294967296", "1.5", "0x10")...)
	case "f32":
		return append([]badAttr{sym}, cs("", "1,5", "1.5.2")...)
	case "bool":
		return append([]badAttr{sym}, cs("", "2", "yes")...)
	case "enum":
		return append([]badAttr{sym}, cs("")...)
	case "uuid":
		return append([]badAttr{sym}, cs("", "f47ac10b-58cc-4372-a567-0e02b2c3d47", "f47ac10b-58cc-4372-a567-0e02b2c3d47g")...)
	case "color":
		return cs("", "#", "0a1B2c3D0", "#0a1B2c3", "#0a1B2c3D4", "#0a1B2", "#g01b2c", "#0a1b2z")
	case "matrix":
		good := strings.Fields("1 2 3 4 5 6 7 8 9 10 11 12")
		out := cs("", "1", strings.Join(good[:11], " "), strings.Join(good, " ")+" 13")
		for i := range good {
			if !thorough && i%4 == 1 {
				continue
			}
			g := append([]string(nil), good...)
			g[i] = "x"
			out = append(out, cs(strings.Join(g, " "))...)
		}
		return out
	case "u32list":
		return cs("x", "x 2 3", "1 x 3", "1 2 x", "1 -2", "1 4294967296")
	case "f32list":
		return cs("x", "x 0.5", "0.5 x 0.25", "0.5 x")
	case "enumlist":
		return cs("x", "x "+a.Enum[0], a.Enum[1]+" x")
	}
	return nil
}

// mustReport tells whether an error value certainly contains a
// ParseAttrError naming the attribute.
func mustReport(st *ai.State, v ai.Val, local string) bool {
	seen := map[string]bool{}
	var rec func(v ai.Val) bool
	rec = func(v ai.Val) bool {
		if v == nil {
			return false
		}
		if s, ok := v.(*ai.Sym); ok {
			v = st.Resolve(s)
		}
		switch x := v.(type) {
		case *ai.Set:
			for _, e := range x.Alts {
				if !rec(e) {
					return false
				}
			}
			return len(x.Alts) > 0
		case *ai.Iface:
			return rec(x.V)
		case *ai.Ptr:
			if k := x.Key(); seen[k] {
				return false
			} else {
				seen[k] = true
				ok := rec(st.LoadPtr(x))
				delete(seen, k)
				return ok
			}
		case *ai.Slice:
			el, ok := st.SliceElems(x)
			if !ok {
				return false
			}
			for _, e := range el {
				if rec(e) {
					return true
				}
			}
		case *ai.Agg:
			if n, ok := x.T.(*types.Named); ok && n.Obj().Name() == "ParseAttrError" {
				if k := fieldIndex(x.T, "Name"); k >= 0 {
					s, ok := ai.ConstStr(st.Resolve(x.Elems[k]))
					return ok && s == local
				}
			}
			for _, e := range x.Elems {
				if rec(e) {
					return true
				}
			}
		}
		return false
	}
	return rec(v)
}

type malformed struct {
	doc   string
	toks  []Tok
	local []string // attributes that must be reported
	where string
}

func (r *Report) decodeMalformed(m malformed, strict bool) {
	mode := "non-strict"
	if strict {
		mode = "strict"
	}
	rd := r.W.NewReader(m.toks)
	rd.Parse = func(arg ai.Val) string {
		if badAtom(arg) {
			return "bad"
		}
		return "ok"
	}
	rd.More = func(c *ai.CallCtx) ([]ai.Out, bool) {
		if c.Fn != nil && ai.FnName(c.Fn) == load.Module+"/uuid.Validate" && badAtom(c.Args[0]) {
			return []ai.Out{{St: c.St, Res: ai.ErrAtom(c.St, "err:uuid.Validate")}}, true
		}
		return nil, false
	}
	rd.E.DefaultFact = func(id string) *ai.Fact {
		if i := strings.Index(id, "bad:"); i >= 0 && strings.Trim(id[:i], "copyalistrng(") == "" && !strings.HasPrefix(id, "len") {
			return &ai.Fact{NeAll: true}
		}
		return nil
	}
	rd.E.MaxRec = 4
	var outs []ai.Out
	var err error
	if strict {
		rd.Pkg = OnePart(m.toks)
		outs, err = rd.RunPackage(true)
	} else {
		outs, err = rd.Run()
	}
	key := m.where + " [" + mode + "]"
	if err != nil || len(outs) == 0 {
		r.Fail("undecided: "+key, m.doc, "%v (panics %v)", err, rd.Panics)
		return
	}
	if len(rd.E.Limits) > 0 {
		r.limits(rd.E, m.doc)
	}
	for p := range rd.Panics {
		r.Fail("panics: "+key, m.doc, "decoding %s: %s", m.doc, p)
	}
	for _, o := range outs {
		locals := m.local
		if strict {
			locals = locals[:1]
		}
		for _, l := range locals {
			if !mustReport(o.St, o.Res, l) {
				r.Fail("malformed attribute not reported: "+key, m.doc, "decoding %s (%s mode): the returned error does not (on every path) identify the malformed attribute %q: %s", m.doc, mode, l, short(o.Res))
			}
		}
	}
	r.OK("every return of "+mode+" decoding reports the malformed attribute by name", m.doc)
	r.engineFns(rd.E)
}

func checkC03(r *Report) {
	r.Rule("error dataflow: for every typed attribute of every decoded element (schema table) whose value no parser accepts, on every path the error returned by decoding contains a ParseAttrError carrying that attribute's name, alone, surrounded by other attributes, and together with other malformed attributes; strict mode returns the first")
	r.Rule("colour parsing: an interval per class of byte at each position; only hexadecimal digits after '#' are accepted")
	good := func(a *AttrSpec) Attr { return Attr{a.Space, a.Local, BytesVal(goodText(a))} }
	foreign := []Attr{{nsFresh, "foreign", BytesVal("x")}, {"", "unknown", BytesVal("y")}, {"xmlns", "q", BytesVal("z")}}
	for _, p := range Schema().Paths() {
		e := p[len(p)-1]
		name := pathName(p)
		var typed []*AttrSpec
		for i := range e.Attrs {
			if len(badValues(&e.Attrs[i], false)) > 0 {
				typed = append(typed, &e.Attrs[i])
			}
		}
		for ti, a := range typed {
			where := name + "@" + a.Local
			for vi, b := range badValues(a, r.Thorough()) {
				ba := Attr{a.Space, a.Local, b.val}
				alone := malformed{fmt.Sprintf("%s with only %s = %s", name, a.Local, b.name), Chain(p, []Attr{ba}), []string{a.Local}, where}
				r.decodeMalformed(alone, false)
				if vi > 0 && !r.Thorough() {
					continue
				}
				r.decodeMalformed(alone, true)
				// in the middle of, before and after every other attribute
				var others []Attr
				for i := range e.Attrs {
					if o := &e.Attrs[i]; o != a {
						others = append(others, good(o))
					}
				}
				for k, at := range []int{0, len(others) / 2, len(others)} {
					attrs := append([]Attr{foreign[0]}, others[:at]...)
					attrs = append(attrs, ba)
					attrs = append(attrs, others[at:]...)
					attrs = append(attrs, foreign[1], foreign[2])
					m := malformed{fmt.Sprintf("%s with %s = %s among its other attributes (%d)", name, a.Local, b.name, k), Chain(p, attrs), []string{a.Local}, where}
					r.decodeMalformed(m, false)
					if k == 2 {
						r.decodeMalformed(m, true)
					}
				}
			}
			// pairs
			b := badValues(a, false)[0]
			for tj, a2 := range typed {
				if tj == ti || !r.Thorough() && tj != ti+1 && tj != ti-1 {
					continue
				}
				b2 := badValues(a2, false)[0]
				m := malformed{fmt.Sprintf("%s with %s = %s and %s = %s", name, a.Local, b.name, a2.Local, b2.name), Chain(p, []Attr{{a.Space, a.Local, b.val}, {a2.Space, a2.Local, b2.val}}), []string{a.Local, a2.Local}, where + "+" + a2.Local}
				r.decodeMalformed(m, false)
				r.decodeMalformed(m, true)
			}
			// a malformed attribute in a sibling that follows and in one that precedes
			if len(p) > 1 {
				sib := Elem(e.Space, e.Local, []Attr{{a.Space, a.Local, b.val}})
				ok := Elem(e.Space, e.Local, nil)
				m := malformed{fmt.Sprintf("a second %s with %s = %s", name, a.Local, b.name), Chain(p[:len(p)-1], nil, ok, sib, ok), []string{a.Local}, where}
				r.decodeMalformed(m, false)
				m = malformed{fmt.Sprintf("two %s with %s = %s", name, a.Local, b.name), Chain(p[:len(p)-1], nil, sib, sib), []string{a.Local}, where}
				r.decodeMalformed(m, false)
			}
		}
		// one malformed attribute on the element and one on each child
		if len(typed) > 0 {
			a := typed[0]
			for _, c := range e.Children {
				for i := range c.Attrs {
					bc := badValues(&c.Attrs[i], false)
					if len(bc) == 0 {
						continue
					}
					m := malformed{fmt.Sprintf("%s with malformed %s and its child %s with malformed %s", name, a.Local, c.Local, c.Attrs[i].Local),
						Chain(p, []Attr{{a.Space, a.Local, badValues(a, false)[0].val}}, Elem(c.Space, c.Local, []Attr{{c.Attrs[i].Space, c.Attrs[i].Local, bc[0].val}})), []string{a.Local, c.Attrs[i].Local}, name + "@" + a.Local + "+" + c.Local + "@" + c.Attrs[i].Local}
					r.decodeMalformed(m, false)
					break
				}
			}
		}
	}
	r.colourBytes()
}

// colourBytes decides that spec.ParseRGBA rejects every text of the right
// length with a byte outside '#' and the hexadecimal digits.
func (r *Report) colourBytes() {
	fn := r.W.Func("spec", "ParseRGBA")
	if fn == nil {
		r.Fail("undecided: ParseRGBA", "spec", "spec.ParseRGBA not found")
		return
	}
	call := func(n int, facts map[int][2]int64) []ai.Out {
		e := r.W.Engine()
		st := e.NewState()
		st.Assume("len(s)", ai.Int(int64(n)))
		for i, f := range facts {
			lo, hi := f[0], f[1]
			st.AssumeRange(fmt.Sprintf("s[%d]", i), &lo, &hi)
		}
		outs := e.Call(st, fn, []ai.Val{ai.Atom("s", types.Typ[types.String])}, nil, "ParseRGBA", nil)
		r.limits(e, "ParseRGBA")
		r.engineFns(e)
		return outs
	}
	isErr := func(outs []ai.Out) (never, always bool) {
		never, always = true, true
		for _, o := range outs {
			t, ok := o.Res.(*ai.Tuple)
			if !ok {
				return false, false
			}
			b, known := ai.ConstBool(o.St.IsNilCond(t.Elems[1]))
			if !known || b {
				always = false
			}
			if !known || !b {
				never = false
			}
		}
		return never && len(outs) > 0, always && len(outs) > 0
	}
	hash := [2]int64{'#', '#'}
	digits := [][2]int64{{'0', '9'}, {'a', 'f'}, {'A', 'F'}}
	bad := [][2]int64{{0, '0' - 1}, {'9' + 1, 'A' - 1}, {'F' + 1, 'a' - 1}, {'f' + 1, 255}}
	for n := 0; n <= 16; n++ {
		if n == 7 || n == 9 {
			continue
		}
		_, always := isErr(call(n, map[int][2]int64{0: hash}))
		r.Assert(always, "colour of wrong length is rejected", fmt.Sprintf("length %d", n), "spec.ParseRGBA", "a colour text of %d bytes is accepted", n)
	}
	for _, n := range []int{7, 9} {
		for _, b := range [][2]int64{{0, '#' - 1}, {'#' + 1, 255}} {
			_, always := isErr(call(n, map[int][2]int64{0: b}))
			r.Assert(always, "colour without # is rejected", fmt.Sprintf("length %d, first byte in %d..%d", n, b[0], b[1]), "spec.ParseRGBA", "accepted")
		}
		for i := 1; i < n; i++ {
			for _, b := range bad {
				f := map[int][2]int64{0: hash}
				for j := 1; j < n; j++ {
					f[j] = digits[0]
				}
				f[i] = b
				_, always := isErr(call(n, f))
				r.Assert(always, "colour with a non-hexadecimal byte is rejected", fmt.Sprintf("length %d, byte %d in %d..%d", n, i, b[0], b[1]), "spec.ParseRGBA", "accepted")
			}
			for _, d := range digits {
				f := map[int][2]int64{0: hash}
				for j := 1; j < n; j++ {
					f[j] = digits[1]
				}
				f[i] = d
				never, _ := isErr(call(n, f))
				r.Assert(never, "colour of hexadecimal digits is accepted", fmt.Sprintf("length %d, byte %d in %d..%d", n, i, d[0], d[1]), "spec.ParseRGBA", "rejected")
			}
		}
	}
}
