package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// byteOf evaluates a term over a single unknown byte.
func byteOf(v ai.Val, atom string, x int64) (int64, bool) {
	if n, ok := ai.ConstInt(v); ok {
		return n, true
	}
	s, ok := v.(*ai.Sym)
	if !ok {
		return 0, false
	}
	if s.ID == atom {
		return x, true
	}
	var args []int64
	for i, a := range s.Args {
		n, ok := byteOf(a, atom, x)
		if !ok && !(s.Op == "index" && i == 0) {
			return 0, false
		}
		args = append(args, n)
	}
	const digits = "0123456789abcdef"
	switch s.Op {
	case "hex high":
		return int64(digits[args[0]>>4&15]), true
	case "hex low":
		return int64(digits[args[0]&15]), true
	case "index":
		str, ok := ai.ConstStr(s.Args[0])
		if n, known := byteOf(s.Args[1], atom, x); ok && known && n >= 0 && n < int64(len(str)) {
			return int64(str[n]), true
		}
		return 0, false
	}
	if len(args) == 2 {
		a, b := args[0], args[1]
		switch s.Op {
		case "&":
			return a & b, true
		case "|":
			return a | b, true
		case "^":
			return a ^ b, true
		case "&^":
			return a &^ b, true
		case "+":
			return (a + b) & 255, true
		case "-":
			return (a - b) & 255, true
		case "<<":
			if b < 8 {
				return (a << uint(b)) & 255, true
			}
			return 0, true
		case ">>":
			if b < 8 {
				return a >> uint(b), true
			}
			return 0, true
		}
	}
	return 0, false
}

func atomsOf(v ai.Val, in map[string]bool) {
	if x, ok := v.(*ai.Sym); ok {
		if len(x.Args) == 0 {
			in[x.ID] = true
		}
		for _, a := range x.Args {
			atomsOf(a, in)
		}
	}
}

// randomBytes makes io.ReadFull and Read deliver arbitrary bytes, and
// hex.Encode write a pair of digits for each.
func randomBytes(c *ai.CallCtx) ([]ai.Out, bool) {
	name := ""
	switch {
	case c.Fn != nil:
		name = c.Fn.String()
	case c.Method != nil && c.Method.Name() == "Read":
		name = "Read"
	}
	fill := func(sl ai.Val) ([]ai.Out, bool) {
		el, ok := c.St.SliceElems(sl)
		if !ok {
			return nil, false
		}
		bad := c.St.Clone()
		for i := range el {
			n := ai.ConstOf(i)
			c.St.StorePtr(c.St.ElemPtr(sl, n), ai.Atom(fmt.Sprintf("random%d", i), types.Typ[types.Byte]), false)
		}
		good := result(c.St, []ai.Val{ai.ConstOf(len(el)), ai.NilOf(errorT)})
		return append(good, result(bad, []ai.Val{ai.ConstOf(0), ai.ErrAtom(bad, "random failed")})...), true
	}
	switch name {
	case "io.ReadFull", "io.ReadAtLeast":
		return fill(c.Args[1])
	case "crypto/rand.Read":
		return fill(c.Args[0])
	case "encoding/hex.Encode":
		src, ok := c.St.SliceElems(c.Args[1])
		if !ok {
			return nil, false
		}
		for i, x := range src {
			for j, op := range []string{"hex high", "hex low"} {
				c.St.StorePtr(c.St.ElemPtr(c.Args[0], ai.ConstOf(2*i+j)), ai.Term(types.Typ[types.Byte], op, x), false)
			}
		}
		return result(c.St, []ai.Val{ai.ConstOf(2 * len(src))}), true
	case "encoding/hex.EncodeToString":
		src, ok := c.St.SliceElems(c.Args[0])
		if !ok {
			return nil, false
		}
		var el []ai.Val
		for _, x := range src {
			el = append(el, ai.Term(types.Typ[types.Byte], "hex high", x), ai.Term(types.Typ[types.Byte], "hex low", x))
		}
		return result(c.St, []ai.Val{ai.Term(types.Typ[types.String], "string", el...)}), true
	}
	return nil, false
}

// c29New checks the layout and the fixed bits of generated identifiers.
func (r *Report) c29New() {
	fn := r.W.Func("uuid", "New")
	if fn == nil {
		r.Fail("undecided: uuid.New", "uuid.New", "uuid.New not found")
		return
	}
	e := r.W.Engine()
	e.PathSensitive, e.MaxParts = true, 64
	e.Peel, e.WidenAfter = 64, 100
	e.Intercept = randomBytes
	outs := e.Call(e.NewState(), fn, nil, nil, "uuid.New", nil)
	r.engineFns(e)
	r.limits(e, "uuid.New")
	if len(outs) == 0 {
		r.Fail("undecided: uuid.New", "uuid.New", "generating an identifier has no outcome")
	}
	const layout = "xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx"
	for _, o := range outs {
		s, ok := o.St.Resolve(o.Res).(*ai.Sym)
		if !ok || s.Op != "string" || len(s.Args) != len(layout) {
			r.Fail("undecided: uuid.New", "uuid.New", "the generated text is not made of %d known pieces: %s", len(layout), shown(o.St, o.Res))
			continue
		}
		used := map[string]bool{}
		for i, a := range s.Args {
			place := fmt.Sprintf("uuid.New, position %d", i)
			if layout[i] == '-' {
				n, ok := ai.ConstInt(a)
				r.Assert(ok && n == '-', "separators are where the layout has them", fmt.Sprintf("separator %d", i), place, "position %d of a generated identifier is %s, not a separator", i, shown(o.St, a))
				continue
			}
			atoms := map[string]bool{}
			atomsOf(a, atoms)
			atom := ""
			for k := range atoms {
				used[k], atom = true, k
			}
			good, decided, fixed := true, len(atoms) < 2, true
			for x := int64(0); x < 256 && decided; x++ {
				var b int64
				b, decided = byteOf(a, atom, x)
				good = good && b < 256 && strings.IndexByte("0123456789abcdefABCDEF", byte(b)) >= 0
				switch i {
				case 14:
					fixed = fixed && b == '4'
				case 19:
					fixed = fixed && strings.IndexByte("89abAB", byte(b)) >= 0
				}
			}
			if !decided {
				r.Fail(fmt.Sprintf("digit %d", i), place, "position %d of a generated identifier is no digit of a random byte: %s", i, shown(o.St, a))
				continue
			}
			r.Assert(good, "digits are hexadecimal", fmt.Sprintf("digit %d", i), place, "position %d of a generated identifier is not always a hexadecimal digit: %s", i, shown(o.St, a))
			r.Assert(fixed, "the version and variant bits are those of random identifiers", fmt.Sprintf("bits at %d", i), place, "position %d of a generated identifier is %s: it lacks the version (4) or variant (10) bits", i, shown(o.St, a))
		}
		r.Assert(len(used) == 16, "the identifier has sixteen bytes", "bytes", "uuid.New", "a generated identifier holds %d different bytes", len(used))
	}
	// identifiers are made nowhere else
	r.Count("outcomes of uuid.New", len(outs))
}

// c29Validate checks every position of every layout against every byte.
func (r *Report) c29Validate() {
	fn := r.W.Func("uuid", "Validate")
	if fn == nil {
		r.Fail("undecided: uuid.Validate", "uuid.Validate", "uuid.Validate not found")
		return
	}
	const std = "hhhhhhhh-hhhh-hhhh-hhhh-hhhhhhhhhhhh"
	layouts := []string{std, "{" + std + "}", "urn:uuid:" + std, strings.ReplaceAll(std, "-", "")}
	isHex := func(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }
	fits := func(s string) bool {
		for _, l := range layouts {
			if len(l) != len(s) {
				continue
			}
			ok := true
			for i := range s {
				switch {
				case strings.HasPrefix(l, "urn") && i < 9:
					ok = ok && strings.EqualFold(s[i:i+1], l[i:i+1])
				case l[i] == 'h':
					ok = ok && isHex(s[i])
				default:
					ok = ok && s[i] == l[i]
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	// a text of the layout
	text := func(l string, k int) []byte {
		const digits = "0123456789abcdefABCDEF"
		out := []byte(l)
		start := 0
		if strings.HasPrefix(l, "urn") {
			start = 9
		}
		for i := start; i < len(out); i++ {
			if out[i] == 'h' {
				out[i] = digits[(i*7+k)%len(digits)]
			}
		}
		return out
	}
	type job struct {
		label string
		texts []string
	}
	var jobs []job
	for _, l := range layouts {
		for i := range l {
			j := job{label: fmt.Sprintf("layout of %d, position %d", len(l), i)}
			for c := 0; c < 256; c++ {
				t := text(l, i+c)
				t[i] = byte(c)
				j.texts = append(j.texts, string(t))
			}
			jobs = append(jobs, j)
		}
		// each position swapped with the next one
		j := job{label: fmt.Sprintf("layout of %d, pairs of positions", len(l))}
		for i := 0; i+1 < len(l); i++ {
			t := text(l, i)
			t[i], t[i+1] = t[i+1], t[i]
			j.texts = append(j.texts, string(t))
			t = text(l, i)
			t[i], t[i+1] = 'g', 'G'
			j.texts = append(j.texts, string(t))
		}
		jobs = append(jobs, j)
	}
	j := job{label: "other lengths"}
	for n := 0; n < 64; n++ {
		j.texts = append(j.texts, strings.Repeat("0", n), (strings.Repeat("0", 8) + "-0000-0000-0000-" + strings.Repeat("0", 64))[:n], "{"+strings.Repeat("0", n)+"}")
	}
	for _, l := range layouts {
		t := string(text(l, 3))
		j.texts = append(j.texts, t, t+"0", "0"+t, t[1:], t[:len(t)-1], strings.ToUpper(t), strings.ToLower(t), " "+t[1:], t[:len(t)-1]+" ", t+t)
	}
	j.texts = append(j.texts, "urn:uuid:"+strings.Repeat("0", 32), "{"+strings.Repeat("0", 32)+"}", "{urn:uuid:"+string(text(std, 0))+"}")
	jobs = append(jobs, j)
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		e := r.W.Engine()
		e.PathSensitive, e.MaxParts = true, 64
		e.Peel, e.WidenAfter = 64, 100
		wrong := 0
		for _, t := range j.texts {
			st := e.NewState()
			outs := e.Call(st, fn, []ai.Val{ai.Str(t)}, nil, "uuid.Validate", nil)
			if len(outs) == 0 {
				r.Fail("undecided: uuid.Validate", j.label, "validating %q has no outcome", t)
				wrong++
			}
			for _, o := range outs {
				isNil, known := ai.ConstBool(o.St.IsNilCond(o.Res))
				if !known {
					r.Fail("undecided: uuid.Validate", j.label, "it is not known whether %q is valid", t)
					wrong++
				} else if isNil != fits(t) {
					r.Fail("uuid.Validate", j.label, "uuid.Validate accepts=%v %q; the layouts say %v", isNil, t, fits(t))
					wrong++
				}
			}
		}
		r.engineFns(e)
		r.limits(e, "uuid.Validate")
		r.Count("texts", len(j.texts))
		if wrong == 0 {
			r.OK("every byte at every position is judged as the layouts say", j.label)
		}
	})
}

// c29Missing checks that identifiers are filled in.
func (r *Report) c29Missing() {
	fn := r.W.Func("production", "SetMissingUUIDs")
	mt := r.W.Type("", "Model")
	newFn := r.W.Func("uuid", "New")
	if fn == nil || mt == nil || newFn == nil {
		r.Fail("undecided: SetMissingUUIDs", "production.SetMissingUUIDs", "production.SetMissingUUIDs or uuid.New not found")
		return
	}
	const other = "00112233-4455-4677-8899-aabbccddeeff"
	type elem struct{ place, typ string }
	n := 8 * 8
	if r.Thorough() {
		n = 1024
	}
	parallel(n, func(k int) {
		var elems []elem
		seq := 0
		// attr gives the attributes of an element in one of several states
		states := map[string]int{}
		attr := func(place, typ, path string) L {
			s := (k>>(uint(seq)%6) + k/7*seq + seq) % 6
			seq++
			elems = append(elems, elem{place, typ})
			states[place] = s
			f := F{"UUID": other}
			if path != "" {
				f["Path"] = path
			}
			foreign := Dyn{"slices", "ObjectAttr", F{"SliceStackID": 7}}
			switch s {
			case 0:
				return nil
			case 1:
				f["UUID"] = ""
				return L{Dyn{"production", typ, f}}
			case 2:
				return L{Dyn{"production", typ, f}}
			case 3:
				return L{foreign}
			case 4:
				f["UUID"] = ""
				return L{foreign, Dyn{"production", typ, f}}
			}
			return L{foreign, Dyn{"production", typ, f}}
		}
		res := func(part string) F {
			p := partPlace(part) + "Resources.Objects"
			comp := func(o, i int) F {
				return F{"ObjectID": 1, "AnyAttr": attr(fmt.Sprintf("%s[%d].Components.Component[%d].AnyAttr", p, o, i), "ComponentAttr", childPart)}
			}
			return F{"Objects": L{
				F{"ID": 1, "Mesh": F{}, "AnyAttr": attr(p+"[0].AnyAttr", "ObjectAttr", "")},
				F{"ID": 2, "Components": F{"Component": L{comp(1, 0), comp(1, 1), comp(1, 2)}}, "AnyAttr": attr(p+"[1].AnyAttr", "ObjectAttr", "")},
				F{"ID": 3, "AnyAttr": attr(p+"[2].AnyAttr", "ObjectAttr", "")},
				F{"ID": 4, "Components": F{"Component": L{comp(3, 0)}}, "AnyAttr": attr(p+"[3].AnyAttr", "ObjectAttr", "")},
			}}
		}
		m := F{"Build": F{"AnyAttr": attr("Build.AnyAttr", "BuildAttr", ""), "Items": L{
			F{"ObjectID": 1, "AnyAttr": attr("Build.Items[0].AnyAttr", "ItemAttr", "")},
			F{"ObjectID": 1, "AnyAttr": attr("Build.Items[1].AnyAttr", "ItemAttr", childPart)},
			F{"ObjectID": 2, "AnyAttr": attr("Build.Items[2].AnyAttr", "ItemAttr", "")},
		}}, "Resources": res(rootPart), "Childs": M{{childPart, F{"Resources": res(childPart)}}, {otherPart, F{"Resources": res(otherPart)}}}}
		label := fmt.Sprintf("model %d", k)
		made := 0
		u, err := r.callOnLiteral(fn, mt, func(b *literal) any { return m }, func(e *ai.Engine) {
			e.MapPerm = func(_ *ssa.Function, _ *ssa.Next, n int) []int { return permutation(n, k) }
			e.Intercept = func(c *ai.CallCtx) ([]ai.Out, bool) {
				if c.Fn != newFn {
					return nil, false
				}
				made++
				return result(c.St, []ai.Val{ai.Str(fmt.Sprintf("new %d", made))}), true
			}
		})
		if err != nil {
			r.Fail("undecided: SetMissingUUIDs", label, "filling in identifiers: %v", err)
			return
		}
		if len(u.outs) != 1 {
			r.Fail("undecided: SetMissingUUIDs", label, "%d outcomes", len(u.outs))
			return
		}
		st := u.outs[0].St
		model := st.LoadPtr(&ai.Ptr{Obj: "subject"})
		seen := map[string]string{}
		for _, el := range elems {
			what := "an element of kind " + strings.TrimSuffix(el.typ, "Attr")
			uuid, path, count, foreign, ok := r.uuidAt(st, model, el.place, el.typ)
			if !ok {
				r.Fail("undecided: "+what, el.place, "%s: the attributes of %s are not known", label, el.place)
				continue
			}
			if s := states[el.place]; s == 2 || s == 5 {
				r.Assert(uuid == other && count == 1, "identifiers that are there stay", "changed: "+el.typ, el.place, "%s had the identifier %q, now it has %q (%d attributes)", el.place, other, uuid, count)
			} else {
				r.Assert(strings.HasPrefix(uuid, "new ") && count == 1, "missing identifiers are filled in", "missing: "+el.typ, el.place, "%s had no identifier, now it has %q (%d attributes)", el.place, uuid, count)
				r.Assert(seen[uuid] == "", "each element has an identifier of its own", "shared: "+el.typ, el.place, "%s has the identifier of %s", el.place, seen[uuid])
				seen[uuid] = el.place
			}
			if want := litGet(m, el.place); want != nil {
				l := want.(L)
				hadForeign, wantPath := false, ""
				for _, x := range l {
					d := x.(Dyn)
					hadForeign = hadForeign || d.Pkg == "slices"
					if p, ok := d.F["Path"].(string); ok {
						wantPath = p
					}
				}
				r.Assert(foreign == hadForeign, "other attributes stay", "foreign: "+el.typ, el.place, "the attributes of other extensions at %s changed", el.place)
				r.Assert(path == wantPath, "paths stay", "path: "+el.typ, el.place, "the path at %s is %q, it was %q", el.place, path, wantPath)
			}
		}
		r.Count("models", 1)
	})
}

// uuidAt reads the identifier of an element.
func (r *Report) uuidAt(st *ai.State, model ai.Val, place, typ string) (uuid, path string, count int, foreign, ok bool) {
	// maps of parts
	v := model
	steps := place
	if strings.HasPrefix(place, "Childs{") {
		i := strings.Index(place, "}")
		key := place[len("Childs{"):i]
		steps = place[i+2:]
		mp, isMap := r.mapOf(st, GetPath(st, v, ".Childs"))
		if !isMap {
			return
		}
		v = nil
		for j, k := range mp.Keys {
			if s, _ := ai.ConstStr(k); s == key {
				v = mp.Vals[j]
			}
		}
		if v == nil {
			return
		}
		v = st.LoadPtr(v)
	}
	list := GetPath(st, v, "."+steps)
	if list == nil {
		return
	}
	el, known := st.SliceElems(st.Resolve(list))
	if !known {
		return
	}
	ok = true
	for _, x := range el {
		i, isIface := st.Resolve(x).(*ai.Iface)
		if !isIface || i.Dyn == nil {
			ok = false
			return
		}
		p, isPtr := i.Dyn.(*types.Pointer)
		if !isPtr {
			continue
		}
		pkg, name := namedType(p.Elem())
		switch {
		case strings.HasSuffix(pkg, "/production") && name == typ:
			count++
			if u := GetPath(st, st.LoadPtr(i.V), ".UUID"); u != nil {
				uuid, _ = ai.ConstStr(st.Resolve(u))
			}
			if u := GetPath(st, st.LoadPtr(i.V), ".Path"); u != nil {
				path, _ = ai.ConstStr(st.Resolve(u))
			}
		case strings.HasSuffix(pkg, "/slices"):
			n, _ := ai.ConstInt(st.Resolve(GetPath(st, st.LoadPtr(i.V), ".SliceStackID")))
			foreign = n == 7
		}
	}
	return
}

func (r *Report) mapOf(st *ai.State, v ai.Val) (*ai.Map, bool) {
	if v == nil {
		return nil, false
	}
	v = st.Resolve(v)
	if m, ok := v.(*ai.Map); ok {
		return m, true
	}
	if p, ok := v.(*ai.Ptr); ok {
		m, ok := st.LoadPtr(p).(*ai.Map)
		return m, ok
	}
	return nil, false
}

func checkC29(r *Report) {
	r.Rule("abstract interpretation: of uuid.New with arbitrary random bytes (layout, and the version and variant bits for all 256 values of the byte), of uuid.Validate with every byte at every position of every layout, and of production.SetMissingUUIDs on models whose elements have, lack or have empty identifiers")
	r.c29New()
	r.c29Validate()
	r.c29Missing()
}
