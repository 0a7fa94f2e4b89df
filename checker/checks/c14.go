package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// faulty is the shape of a model of which every part is in error, in a way
// that is decided, so that the order of what is written and reported is known.
func (r *Report) faulty() *Shape {
	tex := r.W.Type("materials", "Texture2D")
	base := r.W.Type("", "BaseMaterials")
	child := r.W.Type("", "ChildModel")
	n := 0
	sh := &Shape{Name: "faulty", Leaf: func(string) byte { return 'z' }, Cell: func(string) int { return -1 }, Enum: func(string, int) int { return -1 }, Nil: func(p string) bool {
		return lastComp(p) == ".Components" || lastComp(p) == ".Mesh" && strings.Contains(p, "Objects[2]")
	}, Len: func(p string) int {
		switch {
		case lastComp(p) == ".Objects":
			return 3
		case lastComp(p) == ".Relationships", lastComp(p) == ".RootRelationships", lastComp(p) == ".Items", lastComp(p) == ".Metadata" && p == "Model.Metadata":
			return 2
		}
		return 0
	}}
	sh.Give = func(b *ModelBuilder, p string, t types.Type) (ai.Val, bool) {
		switch {
		case p == "Model.Extensions":
			return coreGive(b, p, t)
		case lastComp(p) == ".Childs":
			m := &ai.Map{T: t.Underlying().(*types.Map), Exact: true}
			for _, k := range []string{"/3D/b.model", "/3D/a.model", "/other/c.model"} {
				cp := p + "{" + k + "}"
				m.Keys = append(m.Keys, ai.Str(k))
				m.Vals = append(m.Vals, b.New(cp, b.Build(cp, child)))
			}
			return b.New(p, m), true
		case lastComp(p) == ".Assets":
			return giveList(b, p, t, []types.Type{base, tex, base}), true
		case lastComp(p) == ".Path" && p != "Model.Path":
			n++
			return ai.Str(fmt.Sprintf("bad%d", n)), true
		case lastComp(p) == ".Thumbnail":
			n++
			return ai.Str(fmt.Sprintf("/t%d.png", n)), true
		}
		return nil, false
	}
	return sh
}

func permutation(n, k int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var out []int
	for i := n; i > 0; i-- {
		out = append(out, left[k%i])
		left = append(append([]int(nil), left[:k%i]...), left[k%i+1:]...)
		k /= i
	}
	return out
}

// shown prints a value and everything it refers to.
func shown(st *ai.State, v ai.Val) string {
	var sb strings.Builder
	Walk(st, v, func(p string, v ai.Val) bool {
		switch x := v.(type) {
		case *ai.Const, *ai.Sym, *ai.Bytes, *ai.Top:
			fmt.Fprintf(&sb, "%s=%s; ", p, x.Key())
		case *ai.Set:
			fmt.Fprintf(&sb, "%s=one of %d; ", p, len(x.Alts))
		case *ai.Bag:
			fmt.Fprintf(&sb, "%s: unordered; ", p)
		case *ai.Iface:
			fmt.Fprintf(&sb, "%s: %s; ", p, x.Dyn)
		}
		return true
	})
	return sb.String()
}

// mapOrders runs an operation with every order of iterating over maps and
// compares what can be observed.
func (r *Report) mapOrders(name string, run func(perm func(fn *ssa.Function, in *ssa.Next, n int) []int) (string, string)) {
	sites := map[string]bool{}
	var first string
	for k := 0; k < 6; k++ {
		obs, problem := run(func(fn *ssa.Function, in *ssa.Next, n int) []int {
			sites[fnLabel(fn)] = true
			return permutation(n, k)
		})
		if problem != "" {
			r.Fail("undecided: "+name, name, "%s: %s", name, problem)
			return
		}
		if k == 0 {
			first = obs
			continue
		}
		if obs != first {
			r.Fail("map order: "+name, name, "%s: what is observed depends on the order of iteration of a map in %s: %s", name, strings.Join(sortedKeys(sites), ", "), difference(first, obs))
			return
		}
	}
	r.OK("the order of iteration of maps is not observable", name)
	r.Count("functions that iterate over maps with several entries", len(sites))
}

func difference(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	for i > 0 && a[i-1] != ';' && a[i-1] != '\n' {
		i--
	}
	cut := func(s string) string {
		s = s[i:]
		if len(s) > 120 {
			s = s[:120] + "…"
		}
		return s
	}
	return fmt.Sprintf("%q against %q", cut(a), cut(b))
}

// random lists functions whose results differ from run to run.
func random(name string) bool {
	for _, p := range []string{"time.Now", "time.Since", "math/rand", "crypto/rand", "(*math/rand", "os.Getpid", "os.Hostname", "hash/maphash", "(*hash/maphash", "runtime.NumGoroutine"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// scheduled judges whether the order in which goroutines run can be observed:
// memory one of them writes and another uses, with a lock or without.
func (r *Report) scheduled(w *conc) {
	bad, pairs := w.conflicts(false)
	for _, s := range bad {
		r.Fail("schedule: "+s, w.label, "%s depends on the order in which goroutines run: %s", w.label, s)
	}
	if len(bad) == 0 && len(w.insts) > 0 {
		r.OK("goroutines share no memory that one of them writes", w.label)
	}
	r.Count("pairs of unordered accesses compared", pairs)
}

func (r *Report) c14Maps() {
	mt := r.W.Type("", "Model")
	sh := r.faulty
	external := func(op string) func(c *ai.CallCtx, name string) {
		return func(c *ai.CallCtx, name string) {
			if random(name) {
				r.Fail("random: "+name, op, "%s calls %s at %s", op, name, r.W.P.Pos(c.Pos()))
			}
		}
	}
	r.mapOrders("Encode", func(perm func(fn *ssa.Function, in *ssa.Next, n int) []int) (string, string) {
		t := r.W.NewRoundTrip(sh())
		t.NoDec = true
		t.E.MapPerm = perm
		t.E.OnExternal = external("Encode")
		cw := r.newConc(t.E, "Encode")
		defer r.scheduled(cw)
		outs, err := t.Encode()
		if err != nil {
			return "", err.Error()
		}
		var sb strings.Builder
		for i, o := range outs {
			fmt.Fprintf(&sb, "outcome %d\n%s\n", i, shown(o.St, o.Res))
			for _, p := range append([]string{""}, t.X.Parts(o.St)...) {
				fmt.Fprintf(&sb, "part %s\n", p)
				for _, x := range t.X.Rels(o.St, p) {
					fmt.Fprintf(&sb, "relationship %v\n", x)
				}
				for _, x := range t.X.Stream(o.St, p) {
					fmt.Fprintf(&sb, "%s %v;", x.v.Key(), x.esc)
				}
			}
		}
		r.limits(t.E, "Encode")
		r.engineFns(t.E)
		return sb.String(), ""
	})
	for _, op := range []string{"Validate", "ValidateCoherency", "WalkAssets", "WalkObjects"} {
		fn := r.W.Method("", "Model", op)
		if fn == nil {
			r.Fail("undecided: "+op, op, "Model.%s not found", op)
			continue
		}
		r.mapOrders("Model."+op, func(perm func(fn *ssa.Function, in *ssa.Next, n int) []int) (string, string) {
			e := r.W.Engine()
			e.MapPerm = perm
			e.Debug = os.Getenv("AIDBG") != ""
			e.OnExternal = external("Model." + op)
			e.PathSensitive, e.MaxParts = true, 512
			panics := map[string]bool{}
			e.OnPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string) {
				panics[fmt.Sprintf("%s in %s (%s)", what, fnLabel(fn), r.W.P.Pos(pos))] = true
			}
			st := e.NewState()
			b := r.W.NewBuilder(st, sh(), "m")
			args := []ai.Val{b.New("Model", b.Build("Model", mt))}
			if len(fn.Params) > 1 {
				st.NonNil("callback")
				args = append(args, ai.Atom("callback", fn.Params[1].Type()))
			}
			n := 0
			calls := map[string]int{}
			e.Intercept = func(c *ai.CallCtx) ([]ai.Out, bool) {
				if c.Fn == nil && c.Method == nil { // the callback
					k := c.St.Ghost["calls"] + "|"
					for _, a := range c.Args {
						k += shown(c.St, a) + ","
					}
					if _, ok := calls[k]; !ok {
						n++
						calls[k] = n
					}
					c.St.Ghost["calls"] = k
					bad := c.St.Clone()
					return []ai.Out{{St: c.St, Res: ai.NilOf(errorT)}, {St: bad, Res: ai.ErrAtom(bad, "err:callback")}}, true
				}
				return nil, false
			}
			cw := r.newConc(e, "Model."+op)
			defer r.scheduled(cw)
			outs := e.Call(st, fn, args, nil, op, nil)
			if len(outs) == 0 {
				return "", fmt.Sprintf("no outcome (panics %v, limits %v)", sortedKeys(panics), e.Limits)
			}
			var lines []string
			for _, o := range outs {
				lines = append(lines, o.St.Ghost["calls"]+"\n"+shown(o.St, o.Res))
			}
			sort.Strings(lines)
			s := strings.Join(lines, "\n")
			if strings.Contains(s, "unordered") || strings.Contains(s, "one of") {
				return "", "the result is not decided: " + s[:min(len(s), 300)]
			}
			r.limits(e, op)
			r.engineFns(e)
			return s, ""
		})
	}
}

func checkC14(r *Report) {
	r.Rule("abstract interpretation of encoding, walking and validating a model with several child parts, all in error, under every order of iterating over maps: the abstract output, the sequence of callbacks and the list of errors must be the same; goroutines share no memory that one of them writes")
	r.c14Maps()
}
