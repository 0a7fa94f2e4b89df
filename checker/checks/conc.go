package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// conc judges the concurrency of an interpreted operation: goroutines are
// interpreted where they start; every access to memory by a goroutine, or by
// its parent while it runs, is recorded with the locks held and the goroutines
// it is not ordered with.
type conc struct {
	r     *Report
	e     *ai.Engine
	label string
	mu    sync.Mutex
	recs  map[string]map[string]*access // by object
	fails map[string]string
	sites map[string]bool // go statements reached
	insts map[string]bool
	// All records every access, not only those while goroutines run.
	All bool
}

type access struct {
	obj    string
	path   []int
	write  bool
	inst   string
	live   map[string]bool
	locks  map[string]bool // name -> exclusive
	where  string
	kind   string
	inFunc string
}

func (r *Report) newConc(e *ai.Engine, label string) *conc {
	w := &conc{r: r, e: e, label: label, recs: map[string]map[string]*access{}, fails: map[string]string{}, sites: map[string]bool{}, insts: map[string]bool{}}
	inner := e.Intercept
	e.Intercept = func(c *ai.CallCtx) ([]ai.Out, bool) {
		if c.Fn != nil {
			if outs, ok := w.sync(c); ok {
				return outs, true
			}
		}
		if inner != nil {
			return inner(c)
		}
		return nil, false
	}
	target, ext := e.OnTarget, e.OnExternal
	e.OnTarget = func(st *ai.State, fn *ssa.Function, pos token.Position, kind string, v ai.Val, t types.Type) {
		if target != nil {
			target(st, fn, pos, kind, v, t)
		}
		w.record(st, fn, pos, kind, v, t, true)
	}
	e.OnRead = func(st *ai.State, fn *ssa.Function, pos token.Position, kind string, v ai.Val, t types.Type) {
		w.record(st, fn, pos, kind, v, t, false)
	}
	e.OnExternal = func(c *ai.CallCtx, name string) {
		if ext != nil {
			ext(c, name)
		}
		w.external(c, name)
	}
	e.OnGo = func(c *ai.CallCtx) {
		st := c.St
		w.sites[r.W.P.Pos(c.Pos())] = true
		inst := w.inst(st) + "/" + c.Site
		for contains(st.Ghost["ever"], inst) {
			inst += "*"
		}
		st.Ghost["ever"] = plus(st.Ghost["ever"], inst)
		st.Ghost["live"] = plus(st.Ghost["live"], inst)
		st.Ghost["inst"] = inst
		w.insts[inst] = true
	}
	e.OnGoEnd = func(c *ai.CallCtx, st *ai.State) {
		inst := w.inst(st)
		if l := st.Ghost["locks@"+inst]; l != "" {
			w.fail("lock not released by a goroutine", "the goroutine started at %s may end without releasing %s", r.W.P.Pos(c.Pos()), lockNames(l))
		}
		delete(st.Ghost, "locks@"+inst)
		if i := strings.LastIndex(inst, "/"); i >= 0 {
			if i == 0 {
				delete(st.Ghost, "inst")
			} else {
				st.Ghost["inst"] = inst[:i]
			}
		}
	}
	e.OnChan = func(st *ai.State, fn *ssa.Function, pos token.Position, kind string, ch ai.Val) {
		k := "chan@" + ch.Key()
		switch kind {
		case "send", "close":
			for _, i := range w.self(st) {
				st.Ghost[k] = plus(st.Ghost[k], i)
			}
			w.rename(st)
		case "receive":
			for _, i := range split(st.Ghost[k]) {
				st.Ghost["live"] = minus(st.Ghost["live"], i)
			}
		}
	}
	return w
}

func (w *conc) inst(st *ai.State) string { return st.Ghost["inst"] }

// self lists the names of the phases of the current goroutine so far.
func (w *conc) self(st *ai.State) []string {
	i := w.inst(st)
	if i == "" {
		return nil
	}
	base := strings.TrimRight(i, "+")
	var out []string
	for n := base; len(n) <= len(i); n += "+" {
		out = append(out, n)
	}
	return out
}

// rename starts a new phase of the current goroutine: what follows is not
// ordered before whoever waits for what precedes.
func (w *conc) rename(st *ai.State) {
	i := w.inst(st)
	if i == "" {
		return
	}
	n := i + "+"
	if l := st.Ghost["locks@"+i]; l != "" {
		st.Ghost["locks@"+n] = l
		delete(st.Ghost, "locks@"+i)
	}
	st.Ghost["inst"] = n
	st.Ghost["live"] = plus(st.Ghost["live"], n)
}

func (w *conc) fail(key, f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.fails[key] == "" {
		w.fails[key] = fmt.Sprintf(f, a...)
	}
}

func split(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func contains(s, x string) bool {
	for _, y := range split(s) {
		if x == y {
			return true
		}
	}
	return false
}

func plus(s, x string) string {
	if contains(s, x) {
		return s
	}
	l := append(split(s), x)
	sort.Strings(l)
	return strings.Join(l, ",")
}

func minus(s, x string) string {
	var l []string
	for _, y := range split(s) {
		if y != x {
			l = append(l, y)
		}
	}
	return strings.Join(l, ",")
}

func lockNames(l string) string {
	var out []string
	for _, x := range split(l) {
		out = append(out, strings.TrimPrefix(strings.TrimPrefix(x, "W"), "R"))
	}
	return strings.Join(out, " and ")
}

func lockKey(v ai.Val) string { return strings.ReplaceAll(v.Key(), ",", ";") }

func (w *conc) unlock(st *ai.State, lk, k string) {
	if l := minus(st.Ghost[lk], k); l != "" {
		st.Ghost[lk] = l
	} else {
		delete(st.Ghost, lk)
	}
}

// sync models the synchronisation primitives.
func (w *conc) sync(c *ai.CallCtx) ([]ai.Out, bool) {
	st := c.St
	name := ai.FnName(c.Fn)
	if !strings.HasPrefix(name, "(*sync") && !strings.HasPrefix(name, "sync/") {
		return nil, false
	}
	pos := w.r.W.P.Pos(c.Pos())
	none := func() ([]ai.Out, bool) { return []ai.Out{{St: st}}, true }
	lk := "locks@" + w.inst(st)
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		mode := "W"
		if strings.HasSuffix(name, "RLock") {
			mode = "R"
		}
		k := lockKey(c.Args[0])
		if contains(st.Ghost[lk], "W"+k) || mode == "W" && contains(st.Ghost[lk], "R"+k) {
			w.fail("deadlock at "+fnLabel(c.Caller), "%s locks %s again at %s while holding it", fnLabel(c.Caller), k, pos)
			return nil, true
		}
		st.Ghost[lk] = plus(st.Ghost[lk], mode+k)
		return none()
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		mode := "W"
		if strings.HasSuffix(name, "RUnlock") {
			mode = "R"
		}
		k := mode + lockKey(c.Args[0])
		if !contains(st.Ghost[lk], k) {
			w.fail("unlock of a lock not held in "+fnLabel(c.Caller), "%s releases %s at %s, which is not held", fnLabel(c.Caller), k[1:], pos)
			return nil, true
		}
		w.unlock(st, lk, k)
		return none()
	case "(*sync.Once).Do":
		k := lockKey(c.Args[0])
		st.Ghost[lk] = plus(st.Ghost[lk], "Wonce:"+k)
		var outs []ai.Out
		if st.Ghost["once:"+k] != "" { // somebody else did it
			skip := st.Clone()
			w.unlock(skip, lk, "Wonce:"+k)
			outs = append(outs, ai.Out{St: skip})
		}
		st.Ghost["once:"+k] = "done"
		for _, o := range c.CallFn(st, c.Args[1], nil, "once") {
			w.unlock(o.St, lk, "Wonce:"+k)
			outs = append(outs, ai.Out{St: o.St})
		}
		for _, o := range outs { // what was done once is ordered before what follows
			o.St.Ghost["after"] = plus(o.St.Ghost["after"], w.inst(o.St)+"|once:"+k)
		}
		return outs, true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.WaitGroup).Go":
		k := lockKey(c.Args[0])
		n, _ := strconv.Atoi(st.Ghost["wg@"+k])
		set := func(m int) {
			if m < 0 {
				w.fail("negative counter at "+fnLabel(c.Caller), "%s makes the counter of a wait group negative at %s", fnLabel(c.Caller), pos)
			}
			if m == 0 {
				delete(st.Ghost, "wg@"+k)
			} else {
				st.Ghost["wg@"+k] = strconv.Itoa(m)
			}
		}
		add := func(d int) {
			if st.Ghost["wgo@"+k] == "" {
				st.Ghost["wgo@"+k] = "of " + w.inst(st)
			}
			if n == 0 && st.Ghost["wgo@"+k] != "of "+w.inst(st) {
				w.fail("add in a goroutine in "+fnLabel(c.Caller), "%s adds to a wait group at %s inside a goroutine: Wait may already have returned", fnLabel(c.Caller), pos)
			}
			set(n + d)
		}
		done := func() {
			for _, i := range w.self(st) {
				st.Ghost["wgd@"+k] = plus(st.Ghost["wgd@"+k], i)
			}
			n, _ = strconv.Atoi(st.Ghost["wg@"+k])
			set(n - 1)
			w.rename(st)
		}
		switch c.Fn.Name() {
		case "Add":
			d, ok := ai.ConstInt(st.Resolve(c.Args[1]))
			if !ok {
				w.fail("undecided: count of a wait group in "+fnLabel(c.Caller), "%s adds an unknown number to a wait group at %s", fnLabel(c.Caller), pos)
				return none()
			}
			add(int(d))
		case "Done":
			done()
		case "Go":
			add(1)
			outs := c.Spawn(st, c.Args[1], nil, "wg.Go", func(s2 *ai.State) {
				st = s2
				done()
			})
			for i := range outs {
				outs[i].Res = nil
			}
			return outs, true
		case "Wait":
			if n != 0 {
				w.fail("wait group never done in "+fnLabel(c.Caller), "%s waits at %s for a wait group whose counter may stay at %d", fnLabel(c.Caller), pos, n)
				return nil, true
			}
			if o := st.Ghost["wgo@"+k]; o != "" && o != "of "+w.inst(st) && !strings.HasPrefix(w.inst(st), strings.TrimPrefix(o, "of ")) {
				w.fail("add in a goroutine, waited for in "+fnLabel(c.Caller), "%s waits at %s for a wait group that only its goroutines add to", fnLabel(c.Caller), pos)
			}
			for _, i := range split(st.Ghost["wgd@"+k]) {
				st.Ghost["live"] = minus(st.Ghost["live"], i)
			}
			if st.Ghost["live"] == "" {
				delete(st.Ghost, "live")
			}
			delete(st.Ghost, "wgd@"+k)
			delete(st.Ghost, "wgo@"+k)
		}
		return none()
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") {
		st.Ghost[lk] = plus(st.Ghost[lk], "Watomic")
		w.record(st, c.Caller, c.Pos(), "atomic", c.Args[0], c.Sig.Params().At(0).Type(), !strings.Contains(c.Fn.Name(), "Load"))
		w.unlock(st, lk, "Watomic")
	}
	return nil, false
}

// readers lists methods of types outside the repository that only read their
// receiver, or synchronise by themselves.
func quietMethod(name string) bool {
	for _, p := range []string{"(*sync", "sync", "(*archive/zip", "(*github.com/qmuntal/opc", "(*regexp.", "(*os.File)", "(*strings.Replacer)", "(reflect.", "(*io.SectionReader).ReadAt", "(*bytes.Reader).ReadAt", "(*strings.Reader).ReadAt", "(*context", "(context"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	i := strings.LastIndex(name, ").")
	if i < 0 {
		return false
	}
	switch name[i+2:] {
	case "String", "Len", "Bytes", "Cap", "Size", "Name", "Error", "Unwrap", "Err", "Buffered", "Available":
		return true
	}
	return false
}

func (w *conc) external(c *ai.CallCtx, name string) {
	if c.Fn == nil || !w.watched(c.St) && !w.All {
		return
	}
	pos := c.Pos()
	sig := c.Fn.Signature
	if sig.Recv() != nil {
		if _, ptr := sig.Recv().Type().Underlying().(*types.Pointer); ptr && len(c.Args) > 0 {
			w.record(c.St, c.Caller, pos, "call of "+c.Fn.Name(), c.Args[0], sig.Recv().Type(), !quietMethod(name))
		}
		return
	}
	for i, a := range c.Args {
		if i >= sig.Params().Len() {
			break
		}
		t := sig.Params().At(i).Type()
		write := false
		switch {
		case i == 0 && (strings.HasPrefix(name, "sort.") && !strings.HasPrefix(name, "sort.Search") || strings.HasPrefix(name, "slices.Sort") || name == "slices.Reverse"), i == 1 && name == "io.ReadFull":
			write = true
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map:
			w.record(c.St, c.Caller, pos, "call of "+c.Fn.Name(), a, t, write)
		}
	}
}

func (w *conc) watched(st *ai.State) bool { return st.Ghost["live"] != "" || st.Ghost["inst"] != "" }

const beyond = -77 // an element behind the length of a slice

func (w *conc) record(st *ai.State, fn *ssa.Function, pos token.Position, kind string, v ai.Val, t types.Type, write bool) {
	if !w.watched(st) && !w.All {
		return
	}
	switch x := v.(type) {
	case *ai.Set:
		for _, a := range x.Alts {
			w.record(st, fn, pos, kind, a, t, write)
		}
		return
	case *ai.Iface:
		w.record(st, fn, pos, kind, x.V, t, write)
		return
	case *ai.Ptr:
		w.add(st, fn, pos, kind, x.Obj, x.Path, write)
	case *ai.Slice:
		p := append([]int(nil), x.Path...)
		if kind == "append" && write {
			p = append(p, beyond)
		} else {
			p = append(p, ai.Star)
		}
		w.add(st, fn, pos, kind, x.Obj, p, write)
	case *ai.Sym:
		switch t.Underlying().(type) {
		case *types.Slice:
			p := []int{ai.Star}
			if kind == "append" && write {
				p[0] = beyond
			}
			w.add(st, fn, pos, kind, "[]"+x.ID, p, write)
		case *types.Map:
			w.add(st, fn, pos, kind, "{}"+x.ID, nil, write)
		default:
			w.add(st, fn, pos, kind, "*"+x.ID, nil, write)
		}
	case *ai.Top:
		if write {
			w.fail("undecided: write in "+fnLabel(fn), "%s: cannot tell what memory %s changes at %s", fnLabel(fn), kind, w.r.W.P.Pos(pos))
		}
	}
}

func (w *conc) add(st *ai.State, fn *ssa.Function, pos token.Position, kind, obj string, path []int, write bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	inst := w.inst(st)
	live := map[string]bool{}
	mine := strings.TrimRight(inst, "+")
	for _, l := range split(st.Ghost["live"]) {
		b := strings.TrimRight(l, "+")
		if b == mine || mine == "" && b == "" || strings.HasPrefix(inst, b) && (len(inst) == len(b) || inst[len(b)] == '/' || inst[len(b)] == '+') {
			continue
		}
		live[l] = true
	}
	locks := map[string]bool{}
	for _, l := range split(st.Ghost["locks@"+inst]) {
		locks[l[1:]] = l[0] == 'W' || locks[l[1:]]
	}
	for _, l := range split(st.Ghost["after"]) {
		if i, k, _ := strings.Cut(l, "|"); i == inst {
			if !locks[k] {
				locks[k] = false
			}
		}
	}
	a := &access{obj: obj, path: path, write: write, inst: inst, live: live, locks: locks, where: w.r.W.P.Pos(pos), kind: kind, inFunc: fnLabel(fn)}
	key := fmt.Sprint(path, write, inst, sortedKeys(live), sortedKeys(locks), a.where)
	m := w.recs[obj]
	if m == nil {
		m = map[string]*access{}
		w.recs[obj] = m
	}
	if m[key] == nil {
		m[key] = a
	}
}

func overlap(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] == b[i] {
			continue
		}
		if a[i] == beyond || b[i] == beyond || a[i] != ai.Star && b[i] != ai.Star {
			return false
		}
	}
	return true
}

// conflicts lists the pairs of accesses by goroutines that are not ordered
// although one of them writes; unlocked: only those without a common lock.
func (w *conc) conflicts(unlocked bool) (out []string, pairs int) {
	seen := map[string]bool{}
	for _, obj := range sortedKeys(w.recs) {
		m := w.recs[obj]
		byInst := map[string][]*access{}
		for _, k := range sortedKeys(m) {
			byInst[m[k].inst] = append(byInst[m[k].inst], m[k])
		}
		if len(byInst) < 2 {
			continue
		}
		for _, k := range sortedKeys(m) {
			a := m[k]
			for l := range a.live {
				for _, b := range byInst[l] {
					pairs++
					if !a.write && !b.write || !overlap(a.path, b.path) {
						continue
					}
					safe := false
					for n, ex := range a.locks {
						if ex2, ok := b.locks[n]; ok && (ex || ex2) {
							safe = true
						}
					}
					if safe && unlocked {
						continue
					}
					x, y := a, b
					if !x.write || x.where > y.where && y.write {
						x, y = y, x
					}
					what := "read"
					if y.write {
						what = "written"
					}
					s := fmt.Sprintf("memory written in %s (%s, %s) may at the same time be %s in %s (%s)", x.inFunc, x.kind, x.where, what, y.inFunc, y.where)
					if !seen[s] {
						seen[s] = true
						out = append(out, s)
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out, pairs
}

// finish judges the final states of an operation.
func (w *conc) finish(outs []ai.Out) {
	for _, o := range outs {
		for _, l := range split(o.St.Ghost["live"]) {
			if !strings.HasSuffix(l, "+") {
				w.fail("goroutine not awaited", "%s may return while a goroutine it started is still running", w.label)
			}
		}
		if l := o.St.Ghost["locks@"]; l != "" {
			w.fail("lock not released", "%s may return holding %s", w.label, lockNames(l))
		}
	}
}
