package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/ai"
)

func isInit(fn *ssa.Function) bool {
	for ; fn != nil; fn = fn.Parent() {
		if fn.Parent() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
			return true
		}
	}
	return false
}

// changeable tells whether a variable may hold memory that can change.
func changeable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer, *types.Chan, *types.Struct:
		return true
	}
	return false
}

// registries finds the packages with package-level state that functions other
// than initialisers write, and the functions that use that state.
func (r *Report) registries() (pkgs []*ssa.Package, vars map[*ssa.Global]bool, users map[*ssa.Function]map[*ssa.Global]bool) {
	vars, users = map[*ssa.Global]bool{}, map[*ssa.Function]map[*ssa.Global]bool{}
	written := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(r.W.P.SSA) {
		if fn.Pkg == nil && fn.Parent() == nil || !r.W.Eng.InRepo(fn) || isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modulePath(r)) {
						continue
					}
					if users[fn] == nil {
						users[fn] = map[*ssa.Global]bool{}
					}
					users[fn][g] = true
					if changeable(g.Type().(*types.Pointer).Elem()) {
						vars[g] = true
					}
					if s, ok := in.(*ssa.Store); ok && s.Addr == g {
						written[g], vars[g] = true, true
					}
				}
			}
		}
	}
	seen := map[*ssa.Package]bool{}
	for g := range vars {
		if !seen[g.Pkg] {
			seen[g.Pkg] = true
			pkgs = append(pkgs, g.Pkg)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	return
}

func checkC23(r *Report) {
	r.Rule("lockset typestate: every exported function of package spec that uses package-level state is interpreted; if one of them writes memory reachable from a package-level variable, every access to that memory holds a common lock, exclusively for writes; the lock is not held when the function returns nor when a method of an extension or a function value of the caller is called")
	pkgs, vars, users := r.registries()
	type acc struct {
		*access
		entry string
	}
	recs := map[string][]acc{}
	reached := map[*ssa.Function]bool{}
	registry := false
	for _, p := range pkgs {
		if p != r.W.P.Pkg("spec") {
			continue // state of other packages is not the registry
		}
		for _, n := range sortedKeys(p.Members) {
			var entries []*ssa.Function
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				if m.Object() != nil && m.Object().Exported() {
					entries = append(entries, m)
				}
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok || nt.TypeParams().Len() > 0 || types.IsInterface(nt) {
					continue
				}
				ms := types.NewMethodSet(types.NewPointer(nt))
				for i := 0; i < ms.Len(); i++ {
					if o, ok := ms.At(i).Obj().(*types.Func); ok && o.Exported() {
						if f := r.W.P.SSA.FuncValue(o); f != nil && len(f.Blocks) > 0 && users[f] != nil {
							entries = append(entries, f)
						}
					}
				}
			}
			for _, fn := range entries {
				if !r.reaches(fn, users, vars) {
					continue
				}
				label := fnLabel(fn)
				e := r.W.Engine()
				e.Peel, e.WidenAfter, e.Coarse = 0, 2, true
				w := r.newConc(e, label)
				w.All = true
				inner := e.Intercept
				e.Intercept = func(c *ai.CallCtx) ([]ai.Out, bool) {
					if l := c.St.Ghost["locks@"]; l != "" && c.Fn == nil {
						what := "a function value"
						if c.Method != nil {
							what = "method " + c.Method.Name()
						}
						w.fail("call while locked in "+fnLabel(c.Caller), "%s calls %s at %s while holding %s", fnLabel(c.Caller), what, r.W.P.Pos(c.Pos()), lockNames(l))
					}
					return inner(c)
				}
				e.OnPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string) {}
				st := e.NewState()
				var args []ai.Val
				for i, q := range fn.Params {
					id := fmt.Sprintf("arg%d", i)
					st.NonNil(id)
					args = append(args, ai.Atom(id, q.Type()))
				}
				outs := e.Call(st, fn, args, nil, label, nil)
				w.outs(outs)
				for f := range e.Fns {
					reached[f] = true
				}
				for _, k := range sortedKeys(w.fails) {
					r.Fail(k, label, "%s: %s", label, w.fails[k])
				}
				if len(w.fails) == 0 {
					r.OK("locks are released before control leaves the package", label)
				}
				mine := r.globalMemory(e, outs)
				for obj, m := range w.recs {
					if g := mine[obj]; g != "" {
						for _, k := range sortedKeys(m) {
							recs[obj+" of "+g] = append(recs[obj+" of "+g], acc{m[k], label})
						}
					}
				}
			}
		}
	}
	n := 0
	for _, obj := range sortedKeys(recs) {
		written := false
		for _, a := range recs[obj] {
			written = written || a.write
		}
		if !written {
			continue
		}
		registry = true
		bad := ""
		for _, a := range recs[obj] {
			for _, b := range recs[obj] {
				if !a.write || !overlap(a.path, b.path) {
					continue
				}
				n++
				safe := false
				for k, ex := range a.locks {
					if ex2, ok := b.locks[k]; ok && (ex || ex2) {
						safe = true
					}
				}
				if !safe && bad == "" {
					bad = fmt.Sprintf("%s at %s (in %s, through %s) and %s at %s (in %s, through %s) do not hold a common lock, exclusively for the write", a.kind, a.where, a.inFunc, a.entry, b.kind, b.where, b.inFunc, b.entry)
				}
			}
		}
		name := obj[strings.Index(obj, " of ")+4:]
		r.Assert(bad == "", "accesses to package-level state hold its lock", name, name, "%s: %s", name, bad)
	}
	r.Assert(registry || len(reached) > 0, "the registry is found", "registry", "spec", "no function of package spec uses package-level state")
	r.Count("pairs of accesses compared", n)
	r.Count("package-level variables that can change", len(vars))
	var names []string
	for fn := range users {
		for g := range users[fn] {
			if vars[g] && g.Pkg == r.W.P.Pkg("spec") && !reached[fn] && r.writesGlobals(g, users) {
				names = append(names, fnLabel(fn)+" uses "+g.String())
			}
		}
	}
	sort.Strings(names)
	for _, s := range names {
		r.Fail("undecided: "+s, s, "%s but is not reached from the exported functions of the package", s)
	}
}

// writesGlobals tells whether some function that is no initialiser stores to
// the variable or updates the map it holds.
func (r *Report) writesGlobals(g *ssa.Global, users map[*ssa.Function]map[*ssa.Global]bool) bool {
	for fn := range users {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if ai.BaseOf(in.Addr) == g {
						return true
					}
				case *ssa.MapUpdate:
					if u, ok := in.Map.(*ssa.UnOp); ok && ai.BaseOf(u.X) == g {
						return true
					}
				}
			}
		}
	}
	return false
}

// reaches tells whether a function may use one of the variables.
func (r *Report) reaches(fn *ssa.Function, users map[*ssa.Function]map[*ssa.Global]bool, vars map[*ssa.Global]bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !r.W.Eng.InRepo(f) {
			return false
		}
		seen[f] = true
		for g := range users[f] {
			if vars[g] {
				return true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && rec(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}

// globalMemory names the abstract objects reachable from package-level
// variables.
func (r *Report) globalMemory(e *ai.Engine, outs []ai.Out) map[string]string {
	res := map[string]string{}
	for _, o := range outs {
		for _, pp := range sortedKeys(r.W.P.ByPath) {
			for _, n := range sortedKeys(r.W.P.ByPath[pp].Members) {
				g, ok := r.W.P.ByPath[pp].Members[n].(*ssa.Global)
				if !ok || !strings.HasPrefix(pp, modulePath(r)) || strings.HasPrefix(n, "init$") {
					continue
				}
				p := ai.GlobalPtr(g)
				if res[p.Obj] == "" {
					res[p.Obj] = g.String()
				}
				Walk(o.St, p, func(path string, v ai.Val) bool {
					switch x := v.(type) {
					case *ai.Ptr:
						if res[x.Obj] == "" {
							res[x.Obj] = g.String()
						}
					case *ai.Slice:
						if res[x.Obj] == "" {
							res[x.Obj] = g.String()
						}
					case *ai.Iface: // extensions look after themselves
						return false
					}
					return true
				})
			}
		}
	}
	return res
}
