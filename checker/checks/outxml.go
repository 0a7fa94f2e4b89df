package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/ai"
)

// frags flattens a textual value into constant text and atomic symbols.
func frags(st *ai.State, v ai.Val) []ai.Val {
	v = st.Resolve(v)
	if s, ok := ai.ConstStr(v); ok {
		if s == "" {
			return nil
		}
		return []ai.Val{ai.Str(s)}
	}
	if y, ok := v.(*ai.Sym); ok {
		switch y.Op {
		case "copy", "alias":
			return frags(st, y.Args[0])
		case "+":
			return append(frags(st, y.Args[0]), frags(st, y.Args[1])...)
		}
	}
	return []ai.Val{v}
}

// concat is the inverse of frags.
func concat(fs []ai.Val, t types.Type) ai.Val {
	var out []ai.Val
	for _, f := range fs {
		if s, ok := ai.ConstStr(f); ok && len(out) > 0 {
			if p, ok := ai.ConstStr(out[len(out)-1]); ok {
				out[len(out)-1] = ai.Str(p + s)
				continue
			}
		}
		out = append(out, f)
	}
	switch len(out) {
	case 0:
		return asText(ai.Str(""), t)
	case 1:
		return asText(out[0], t)
	}
	v := out[0]
	for _, f := range out[1:] {
		v = ai.Term(types.Typ[types.String], "+", v, f)
	}
	return asText(v, t)
}

// asText gives a textual value the type t (string or []byte), keeping its
// content identity.
func asText(v ai.Val, t types.Type) ai.Val {
	_, isSlice := t.Underlying().(*types.Slice)
	if s, ok := ai.ConstStr(v); ok {
		if isSlice {
			return &ai.Bytes{S: s}
		}
		return ai.Str(s)
	}
	if y, ok := v.(*ai.Sym); ok {
		n := *y
		n.T = t
		return &n
	}
	return v
}

// numericText tells whether a value is text the library formats itself, which
// cannot contain markup.
func numericText(v ai.Val) bool {
	switch x := v.(type) {
	case *ai.Const, *ai.Bytes:
		s, ok := ai.ConstStr(v)
		return ok && !strings.ContainsAny(s, "<>&\"'")
	case *ai.Agg:
		for _, e := range x.Elems {
			if !numericText(e) {
				return false
			}
		}
		return true
	case *ai.Sym:
		switch {
		case strings.HasPrefix(x.Op, "strconv.Format"), x.Op == "strconv.Itoa", x.Op == "rgba":
			return true
		case x.Op == "+", x.Op == "copy", x.Op == "strings.Join":
			for _, a := range x.Args {
				if !numericText(a) {
					return false
				}
			}
			return true
		case x.Op == "fmt.Sprintf":
			f, ok := ai.ConstStr(x.Args[0])
			if !ok || strings.ContainsAny(f, "<>&\"'") {
				return false
			}
			for _, a := range x.Args[1:] {
				if !scalarVal(a) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func scalarVal(v ai.Val) bool {
	if c, ok := v.(*ai.Const); ok {
		_, isStr := ai.ConstStr(c)
		return !isStr || numericText(c)
	}
	ok, known := scalarType(ai.ValType(v))
	return ok && known
}

// xmlProblem is a defect of an output document.
type xmlProblem struct{ kind, msg string }

// parseOut reads the output of a part as an XML document.
func parseOut(st *ai.State, ps []piece) (toks []Tok, probs []xmlProblem) {
	bad := func(kind, f string, a ...any) { probs = append(probs, xmlProblem{kind, fmt.Sprintf(f, a...)}) }
	// flatten: runes of raw constant text, or opaque items
	type item struct {
		r   rune
		v   ai.Val
		esc bool
	}
	var in []item
	for _, p := range ps {
		if p.esc {
			in = append(in, item{v: p.v, esc: true})
			continue
		}
		for _, f := range frags(st, p.v) {
			if s, ok := ai.ConstStr(f); ok {
				for _, r := range s {
					in = append(in, item{r: r})
				}
			} else {
				in = append(in, item{v: f})
			}
		}
	}
	pos := 0
	peek := func() (item, bool) {
		if pos < len(in) {
			return in[pos], true
		}
		return item{}, false
	}
	type open struct {
		raw  string
		name [2]string
		ns   map[string]string
	}
	var stack []open
	ns := map[string]string{"xml": nsXML}
	ctx := func() string {
		var s []string
		for _, o := range stack {
			s = append(s, o.raw)
		}
		return strings.Join(s, "/")
	}
	name := func() string {
		var sb strings.Builder
		for {
			it, ok := peek()
			if !ok || it.v != nil {
				if ok && it.v != nil {
					if s, isC := ai.ConstStr(st.Resolve(it.v)); isC {
						sb.WriteString(s)
						pos++
						continue
					}
					bad("C11", "a name under %s is not constant (%s)", ctx(), it.v.Key())
					pos++
					continue
				}
				break
			}
			if strings.ContainsRune(" \t\r\n=/><\"'", it.r) {
				break
			}
			sb.WriteRune(it.r)
			pos++
		}
		return sb.String()
	}
	space := func() {
		for {
			it, ok := peek()
			if !ok || it.v != nil || !strings.ContainsRune(" \t\r\n", it.r) {
				return
			}
			pos++
		}
	}
	resolve := func(raw string, elem bool, scope map[string]string) (string, string) {
		p, l, ok := strings.Cut(raw, ":")
		if !ok {
			if elem {
				return scope[""], raw
			}
			return "", raw
		}
		if p == "xmlns" {
			return "xmlns", l
		}
		u, ok := scope[p]
		if !ok {
			bad("ns", "the prefix of %s under %s is not declared", raw, ctx())
			return p, l
		}
		return u, l
	}
	var text []ai.Val
	flush := func() {
		if len(text) > 0 {
			if len(stack) > 0 {
				toks = append(toks, Tok{Kind: 'c', Text: concat(text, bytesT)})
			}
			text = nil
		}
	}
	for pos < len(in) {
		it := in[pos]
		if it.v != nil || it.r != '<' {
			pos++
			if it.v != nil {
				if !it.esc && !numericText(it.v) {
					bad("C12", "text under %s is written without escaping: %s", ctx(), it.v.Key())
				}
				text = append(text, frags(st, it.v)...)
			} else {
				text = append(text, ai.Str(string(it.r)))
			}
			if len(stack) == 0 {
				v := it.v
				if v != nil || !strings.ContainsRune(" \t\r\n", it.r) {
					if v == nil || len(frags(st, v)) > 0 {
						bad("C11", "there is content outside the root element")
					}
				}
			}
			continue
		}
		pos++
		n, ok := peek()
		if !ok {
			bad("C11", "the document ends inside a tag")
			break
		}
		switch {
		case n.v == nil && n.r == '?':
			for pos < len(in) && !(in[pos].v == nil && in[pos].r == '>') {
				pos++
			}
			pos++
		case n.v == nil && n.r == '/':
			flush()
			pos++
			raw := name()
			space()
			if e, ok := peek(); !ok || e.v != nil || e.r != '>' {
				bad("C11", "the end tag %s is malformed", raw)
			} else {
				pos++
			}
			if len(stack) == 0 {
				bad("C11", "the end tag %s closes an element that is not open", raw)
				continue
			}
			top := stack[len(stack)-1]
			if top.raw != raw {
				bad("C11", "the end tag %s closes element %s", raw, ctx())
			}
			stack = stack[:len(stack)-1]
			toks = append(toks, Tok{Kind: 'e', Space: top.name[0], Local: top.name[1]})
			ns = top.ns
		default:
			flush()
			raw := name()
			if raw == "" {
				bad("C11", "an element without a name under %s", ctx())
			}
			type rawAttr struct {
				name string
				val  ai.Val
			}
			var attrs []rawAttr
			selfClose := false
			for {
				space()
				e, ok := peek()
				if !ok {
					bad("C11", "the document ends inside the start tag of %s", raw)
					return
				}
				if e.v == nil && e.r == '>' {
					pos++
					break
				}
				if e.v == nil && e.r == '/' {
					pos++
					selfClose = true
					continue
				}
				an := name()
				if q, ok := peek(); !ok || q.v != nil || q.r != '=' {
					bad("C11", "attribute %s of %s is malformed", an, raw)
					return
				}
				pos++
				if q, ok := peek(); !ok || q.v != nil || q.r != '"' {
					bad("C11", "attribute %s of %s is malformed", an, raw)
					return
				}
				pos++
				var val []ai.Val
				for {
					q, ok := peek()
					if !ok {
						bad("C11", "the document ends inside attribute %s of %s", an, raw)
						return
					}
					pos++
					if q.v == nil {
						if q.r == '"' {
							break
						}
						if q.r == '<' || q.r == '&' {
							bad("C12", "attribute %s of %s holds unescaped markup", an, raw)
						}
						val = append(val, ai.Str(string(q.r)))
						continue
					}
					if !q.esc && !numericText(q.v) {
						bad("C12", "attribute %s of %s is written without escaping: %s", an, raw, q.v.Key())
					}
					val = append(val, frags(st, q.v)...)
				}
				attrs = append(attrs, rawAttr{an, concat(val, bytesT)})
			}
			scope := map[string]string{}
			for k, v := range ns {
				scope[k] = v
			}
			for _, a := range attrs {
				v, isC := ai.ConstStr(a.val)
				switch {
				case a.name == "xmlns" && isC:
					scope[""] = v
				case strings.HasPrefix(a.name, "xmlns:") && isC:
					scope[strings.TrimPrefix(a.name, "xmlns:")] = v
				}
			}
			t := Tok{Kind: 's'}
			t.Space, t.Local = resolve(raw, true, scope)
			seen := map[string]bool{}
			for _, a := range attrs {
				s, l := resolve(a.name, false, scope)
				if seen[s+" "+l] {
					bad("dup", "attribute %s is repeated on %s under %s", a.name, raw, ctx())
				}
				seen[s+" "+l] = true
				t.Attrs = append(t.Attrs, Attr{s, l, a.val})
			}
			if len(stack) == 0 {
				for _, x := range toks {
					_ = x
					bad("C11", "element %s follows the end of the root element", raw)
					break
				}
			}
			toks = append(toks, t)
			if selfClose {
				toks = append(toks, Tok{Kind: 'e', Space: t.Space, Local: t.Local})
			} else {
				stack = append(stack, open{raw, [2]string{t.Space, t.Local}, ns})
				ns = scope
			}
		}
	}
	flush()
	if len(stack) > 0 {
		bad("C11", "element %s is not closed", ctx())
	}
	return
}

// writtenText is the inverse of formatting: it recognises the value whose
// formatted text v is.
func formatted(st *ai.State, v ai.Val, prec ai.Val) (val ai.Val, kind string) {
	fs := frags(st, v)
	if len(fs) != 1 {
		return nil, ""
	}
	y, ok := fs[0].(*ai.Sym)
	if !ok {
		return nil, ""
	}
	is := func(v ai.Val, n int64) bool { m, ok := ai.ConstInt(v); return ok && m == n }
	switch y.Op {
	case "strconv.FormatUint", "strconv.FormatInt":
		if is(y.Args[1], 10) {
			return y.Args[0], "int"
		}
	case "strconv.Itoa":
		return y.Args[0], "int"
	case "strconv.FormatBool":
		return y.Args[0], "bool"
	case "strconv.FormatFloat":
		f, _ := ai.ConstInt(y.Args[1])
		if strings.ContainsRune("fFeEgG", rune(f)) && is(y.Args[2], -1) {
			return y.Args[0], "float"
		}
		if f == 'f' && prec != nil && st.Resolve(y.Args[2]).Key() == prec.Key() {
			return y.Args[0], "float"
		}
	case "fmt.Sprint":
		if len(y.Args) == 1 {
			return y.Args[0], "int"
		}
	case "fmt.Sprintf":
		f, _ := ai.ConstStr(y.Args[0])
		if len(y.Args) == 2 {
			switch {
			case f == "%d":
				return y.Args[1], "int"
			case f == "%t":
				return y.Args[1], "bool"
			}
		}
	}
	return nil, ""
}

// fieldsOf splits formatted text at white space.
func fieldsOf(st *ai.State, v ai.Val) ([]ai.Val, bool) {
	var toks []ai.Val
	var cur []ai.Val
	end := func() {
		if len(cur) > 0 {
			toks = append(toks, concat(cur, types.Typ[types.String]))
			cur = nil
		}
	}
	for _, f := range frags(st, v) {
		if s, ok := ai.ConstStr(f); ok {
			for _, r := range s {
				if strings.ContainsRune(" \t\r\n", r) {
					end()
				} else {
					cur = append(cur, ai.Str(string(r)))
				}
			}
			continue
		}
		y, ok := f.(*ai.Sym)
		if !ok {
			return nil, false
		}
		switch {
		case y.Op == "strings.Join":
			el, ok := y.Args[0].(*ai.Agg)
			sep, ok2 := ai.ConstStr(y.Args[1])
			if !ok || !ok2 {
				return nil, false
			}
			for i, e := range el.Elems {
				if i > 0 {
					if strings.TrimSpace(sep) == "" && sep != "" {
						end()
					} else {
						cur = append(cur, ai.Str(sep))
					}
				}
				sub, ok := fieldsOf(st, e)
				if !ok || len(sub) != 1 {
					return nil, false
				}
				cur = append(cur, frags(st, sub[0])...)
			}
		case y.Op == "fmt.Sprintf":
			fm, ok := ai.ConstStr(y.Args[0])
			if !ok {
				return nil, false
			}
			verbs := strings.Fields(fm)
			if len(verbs) != len(y.Args)-1 {
				return nil, false
			}
			for i, vb := range verbs {
				if i > 0 {
					end()
				}
				cur = append(cur, ai.Term(types.Typ[types.String], "fmt.Sprintf", ai.Str(vb), y.Args[i+1]))
			}
		case numericText(y):
			cur = append(cur, y)
		default:
			return nil, false
		}
	}
	end()
	return toks, true
}
