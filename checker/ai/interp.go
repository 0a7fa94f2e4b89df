package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Out is one result partition of a call: the state after it and its results.
type Out struct {
	St  *State
	Res Val
}

// CallCtx describes a call being interpreted.
type CallCtx struct {
	E      *Engine
	St     *State
	Fn     *ssa.Function // static or resolved callee, nil for a symbolic invoke
	Method *types.Func   // for an interface invoke
	IType  types.Type    // static interface type of an invoke
	Recv   Val           // for an invoke
	Args   []Val         // without Recv for an invoke
	Instr  ssa.Instruction
	Caller *ssa.Function
	Site   string
	Res    *types.Tuple
	Depth  int
	Sig    *types.Signature
	Stack  []*ssa.Function
}

// Pos is the source position of the call.
func (c *CallCtx) Pos() token.Position {
	if c.Instr == nil {
		return token.Position{}
	}
	return c.E.Prog.Fset.Position(c.Instr.Pos())
}

// Engine holds the configuration of an analysis.
type Engine struct {
	Prog      *ssa.Program
	Debug     bool
	InRepo    func(*ssa.Function) bool
	Intercept func(*CallCtx) ([]Out, bool) // client model of a call
	// Floats decides about floating-point values if it is set.
	Floats  FloatDomain
	OnStore func(*State, *Ptr, Val)
	// OnTarget sees the destination of every instruction that writes memory.
	OnTarget func(st *State, fn *ssa.Function, pos token.Position, kind string, target Val, t types.Type)
	// OnAlloc sees the number of elements of everything made with a size
	// ("make") and of what is appended ("append").
	OnAlloc  func(st *State, fn *ssa.Function, pos token.Position, kind string, size Val)
	OnPanic  func(st *State, fn *ssa.Function, pos token.Position, what string)
	OnEnter  func(fn *ssa.Function, st *State, args []Val)
	OnBranch func(fn *ssa.Function, pos token.Position)
	OnGo     func(c *CallCtx) // a goroutine starts; its body is interpreted at once
	OnGoEnd  func(c *CallCtx, st *State)
	// OnRead sees every instruction that reads memory.
	OnRead func(st *State, fn *ssa.Function, pos token.Position, kind string, from Val, t types.Type)
	// OnChan sees operations on channels: "send", "receive", "close".
	OnChan func(st *State, fn *ssa.Function, pos token.Position, kind string, ch Val)
	// SymImpl lists the concrete types a symbolic interface may hold at an
	// invoke; nil: unknown.
	SymImpl     func(st *State, recv Val, it types.Type) []types.Type
	MayNil      func(*Sym) bool
	OnMayPanic  func(st *State, fn *ssa.Function, pos token.Position, what string, x, idx, ln Val)
	OnMapUpdate func(*State, *Ptr, Val, Val)
	// MapPerm chooses an order of iteration for maps with n known entries; nil:
	// the order is unknown.
	MapPerm      func(fn *ssa.Function, in *ssa.Next, n int) []int
	OnMapOrder   func(*State, *ssa.Function, *ssa.Next)
	OnSelect     func(*State, *ssa.Function, *ssa.Select, func(ssa.Value) Val) ([]int, bool)
	OnExternal   func(*CallCtx, string)
	FreshResults func(*CallCtx) bool
	BaseFacts    map[string]*Fact
	DefaultFact  func(id string) *Fact
	Peel         int
	errFacts     map[string]*Fact
	errAtoms     map[string]bool                              // errors, which are never nil
	OnFail       func(c *CallCtx, name string, failed *State) // an external call fails
	Coarse       bool                                         // widening also forgets contents and facts that differ
	WidenAfter   int                                          // joins at a place before alternatives are merged
	MaxDepth     int
	MaxRec       int
	MaxParts     int
	// PathSensitive keeps the paths through undecided branches apart.
	PathSensitive bool

	// TrackNarrow makes lossy numeric conversions distinct terms.
	TrackNarrow bool

	base     map[string]Val
	info     *infoCache
	eqTerms  map[string]*Sym
	ids      map[string]int
	Fns      map[*ssa.Function]bool // functions analysed
	Steps    int
	MaxSteps int
	Limits   map[string]int // analysis limits that were hit
	Trace    bool
}

// New returns an engine.
func New(prog *ssa.Program, inRepo func(*ssa.Function) bool) *Engine {
	e := &Engine{Prog: prog, InRepo: inRepo, Peel: 3, WidenAfter: 12, MaxRec: 2, MaxDepth: 60, MaxParts: 48, base: map[string]Val{}, errAtoms: map[string]bool{}, errFacts: map[string]*Fact{}, info: &infoCache{m: map[*ssa.Function]*fnInfo{}}, eqTerms: map[string]*Sym{}, ids: map[string]int{}, Fns: map[*ssa.Function]bool{}, BaseFacts: map[string]*Fact{}, Limits: map[string]int{}, MaxSteps: 40_000_000}
	e.Trace = os.Getenv("AI_TRACE") != ""
	return e
}

// Clone returns an engine sharing the initial heap but not the counters.
func (e *Engine) Clone() *Engine {
	n := New(e.Prog, e.InRepo)
	n.base = e.base
	n.info = e.info
	// names of objects must not clash with those of the initial heap
	for k, i := range e.ids {
		n.ids[k] = i
	}
	for k := range e.errAtoms {
		n.errAtoms[k] = true
	}
	for k, f := range e.errFacts {
		n.errFacts[k] = f
	}
	return n
}

// SetBase makes the heap of st the initial heap of later states.
func (e *Engine) SetBase(st *State) {
	nb := map[string]Val{}
	for k, v := range e.base {
		nb[k] = v
	}
	st.heap.each(func(k string, v Val) { nb[k] = v })
	e.base = nb
}

func (a *activation) reads(st *State, in ssa.Instruction, kind string, v Val, t types.Type) {
	if a.e.OnRead != nil {
		a.e.OnRead(st, a.fn, a.e.Prog.Fset.Position(in.Pos()), kind, v, t)
	}
}

func (a *activation) onChan(st *State, in ssa.Instruction, kind string, v Val) {
	if a.e.OnChan != nil {
		a.e.OnChan(st, a.fn, a.e.Prog.Fset.Position(in.Pos()), kind, v)
	}
}

func (a *activation) target(st *State, in ssa.Instruction, kind string, v Val, t types.Type) {
	if a.e.OnTarget != nil {
		a.e.OnTarget(st, a.fn, a.e.Prog.Fset.Position(in.Pos()), kind, v, t)
	}
}

func (e *Engine) id(s string) string {
	n, ok := e.ids[s]
	if !ok {
		n = len(e.ids) + 1
		e.ids[s] = n
	}
	return fmt.Sprint(n)
}

// infoCache is shared by the engines of a program.
type infoCache struct {
	mu sync.Mutex
	m  map[*ssa.Function]*fnInfo
}

type fnInfo struct {
	loops   map[*ssa.BasicBlock][]*ssa.BasicBlock // block -> enclosing loop headers, outermost first
	body    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	rpo     map[*ssa.BasicBlock]int
	live    map[*ssa.BasicBlock][]ssa.Value // live-in values of partitioning types
	liveAll map[*ssa.BasicBlock]map[ssa.Value]bool
}

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errType) }

func partType(t types.Type) bool {
	if isErr(t) {
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return true
	}
	return false
}

func (e *Engine) fnInfo(fn *ssa.Function) *fnInfo {
	e.info.mu.Lock()
	defer e.info.mu.Unlock()
	if fi := e.info.m[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock][]*ssa.BasicBlock{}, body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, rpo: map[*ssa.BasicBlock]int{}, live: map[*ssa.BasicBlock][]ssa.Value{}, liveAll: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	e.info.m[fn] = fi
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				body := fi.body[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.body[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for h, body := range fi.body {
			if body[b] {
				fi.loops[b] = append(fi.loops[b], h)
			}
		}
		ls := fi.loops[b]
		sort.Slice(ls, func(i, j int) bool {
			li, lj := len(fi.body[ls[i]]), len(fi.body[ls[j]])
			if li != lj {
				return li > lj
			}
			return ls[i].Index < ls[j].Index
		})
	}
	// RPO with loop exits last.
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		succs := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(succs, func(i, j int) bool { return len(fi.loops[succs[i]]) < len(fi.loops[succs[j]]) })
		for _, s := range succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - i
	}
	// liveness
	for _, b := range fn.Blocks {
		fi.liveAll[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveAll[s] {
					live[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					if phi, ok := in.(*ssa.Phi); ok {
						delete(live, phi)
						if track(phi.Edges[pi]) {
							live[phi.Edges[pi]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(live, v)
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && track(*op) {
						live[*op] = true
					}
				}
			}
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					live[phi] = true // keep phis in the partition key
				}
			}
			if len(live) != len(fi.liveAll[b]) {
				fi.liveAll[b] = live
				changed = true
			}
		}
	}
	for b, live := range fi.liveAll {
		var vs []ssa.Value
		for v := range live {
			if partType(v.Type()) {
				vs = append(vs, v)
			} else if al, ok := v.(*ssa.Alloc); ok && partType(al.Type().(*types.Pointer).Elem()) {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		fi.live[b] = vs
	}
	return fi
}

type deferred struct {
	call  *ssa.CallCommon
	fn    Val
	recv  Val
	args  []Val
	instr ssa.Instruction
	k     string
}

// frame is the local abstract state inside one activation.
type frame struct {
	st      *State
	regs    map[ssa.Value]Val
	defers  []deferred
	inexact map[*ssa.BasicBlock]bool // loops whose exit was undecided
}

func (f *frame) clone() *frame {
	n := &frame{st: f.st.Clone(), regs: make(map[ssa.Value]Val, len(f.regs)), defers: f.defers}
	for k, v := range f.regs {
		n.regs[k] = v
	}
	if f.inexact != nil {
		n.inexact = map[*ssa.BasicBlock]bool{}
		for k := range f.inexact {
			n.inexact[k] = true
		}
	}
	return n
}

type ctr struct {
	h *ssa.BasicBlock
	n int
}

type node struct {
	b      *ssa.BasicBlock
	ctx    []ctr
	key    string
	ord    []int
	in     map[string]*frame
	dirty  map[string]bool
	visits map[string]int
}

type activation struct {
	e     *Engine
	fn    *ssa.Function
	fi    *fnInfo
	site  string
	depth int
	stack []*ssa.Function
	free  []Val
	entry *State
	nodes map[string]*node
	work  []*node
	outs  map[string]*Out
	outN  map[string]int
}

func ctxKey(b *ssa.BasicBlock, ctx []ctr) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", b.Index)
	for _, c := range ctx {
		fmt.Fprintf(&sb, ":%d.%d", c.h.Index, c.n)
	}
	return sb.String()
}

func valSig(v Val) string {
	switch x := v.(type) {
	case *Const:
		if x.V == nil {
			return "nil"
		}
		if b, ok := ConstBool(x); ok {
			if b {
				return "t"
			}
			return "f"
		}
		return "c"
	case *Iface, *Ptr, *Func:
		return "nn"
	case *Sym:
		return "?"
	}
	return "?"
}

func (a *activation) partKey(f *frame, b *ssa.BasicBlock) string {
	var sb strings.Builder
	sb.WriteString(f.st.ghostKey())
	for _, v := range a.fi.live[b] {
		sb.WriteByte('|')
		x, ok := f.regs[v]
		if !ok {
			continue
		}
		if al, ok := v.(*ssa.Alloc); ok && partType(al.Type().(*types.Pointer).Elem()) {
			sb.WriteString(a.sig(f, f.st.LoadPtr(x)))
			continue
		}
		sb.WriteString(a.sig(f, x))
	}
	for _, d := range f.defers {
		sb.WriteString("/" + d.k)
	}
	return sb.String()
}

func (a *activation) sig(f *frame, x Val) string {
	if s, ok := x.(*Sym); ok {
		ft := f.st.Fact(s.ID)
		if ft.Eq != nil {
			return valSig(ft.Eq)
		}
		if ft.NonNil {
			return "nn"
		}
	}
	return valSig(x)
}

// Call abstractly interprets fn.
func (e *Engine) Call(st *State, fn *ssa.Function, args []Val, free []Val, site string, stack []*ssa.Function) []Out {
	if len(fn.Blocks) == 0 {
		return []Out{{st, e.unknownResult(fn.Signature.Results(), "ext:"+fn.String(), args)}}
	}
	e.Fns[fn] = true
	if e.OnEnter != nil {
		e.OnEnter(fn, st, args)
	}
	a := &activation{e: e, fn: fn, fi: e.fnInfo(fn), site: site, depth: len(stack), stack: append(append([]*ssa.Function(nil), stack...), fn), free: free, entry: st, nodes: map[string]*node{}, outs: map[string]*Out{}, outN: map[string]int{}}
	f := &frame{st: st.Clone(), regs: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.regs[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			f.regs[p] = free[i]
		}
	}
	a.enter(nil, fn.Blocks[0], nil, f)
	for len(a.work) > 0 {
		sort.SliceStable(a.work, func(i, j int) bool { return lessOrd(a.work[i].ord, a.work[j].ord) })
		n := a.work[0]
		a.work = a.work[1:]
		var ks []string
		for k := range n.dirty {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		n.dirty = map[string]bool{}
		for _, k := range ks {
			a.runBlock(n, n.in[k].clone())
			if e.Steps > e.MaxSteps {
				e.Limits["steps"]++
				return nil
			}
		}
	}
	var ks []string
	for k := range a.outs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var outs []Out
	for _, k := range ks {
		o := *a.outs[k]
		if e.Coarse {
			o.St.collect(st, func(f func(string)) {
				if o.Res != nil {
					refs(o.Res, f)
				}
			})
		}
		outs = append(outs, o)
	}
	return outs
}

func lessOrd(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

const maxExact = 300

// enter moves frame f along the edge from->to.
func (a *activation) enter(from *node, to *ssa.BasicBlock, fromB *ssa.BasicBlock, f *frame) {
	// loop context of the target
	var ctx []ctr
	for _, h := range a.fi.loops[to] {
		n := 0
		if from != nil {
			for _, c := range from.ctx {
				if c.h == h {
					n = c.n
					if to == h && a.fi.body[h][from.b] { // back edge
						if f.inexact == nil || !f.inexact[h] {
							if n < maxExact {
								n++
							}
						} else if n < a.e.Peel {
							n++
						}
					}
				}
			}
		}
		ctx = append(ctx, ctr{h, n})
	}
	if from != nil && f.inexact != nil {
		for h := range f.inexact {
			if !a.fi.body[h][to] {
				delete(f.inexact, h)
			}
		}
	}
	// phis
	if fromB != nil {
		pi := -1
		for k, p := range to.Preds {
			if p == fromB {
				pi = k
			}
		}
		var vals []Val
		var phis []*ssa.Phi
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, phi)
			vals = append(vals, a.get(f, phi.Edges[pi]))
		}
		for i, p := range phis {
			f.regs[p] = vals[i]
		}
	}
	// drop dead registers
	live := a.fi.liveAll[to]
	for v := range f.regs {
		if !live[v] {
			switch v.(type) {
			case *ssa.Parameter, *ssa.FreeVar, *ssa.Phi:
				if v.Parent() == a.fn {
					if _, isPhi := v.(*ssa.Phi); !isPhi {
						continue
					}
				}
			}
			delete(f.regs, v)
		}
	}
	key := ctxKey(to, ctx)
	n := a.nodes[key]
	if n == nil {
		n = &node{b: to, ctx: ctx, key: key, in: map[string]*frame{}, dirty: map[string]bool{}, visits: map[string]int{}}
		for _, c := range ctx {
			n.ord = append(n.ord, a.fi.rpo[c.h], c.n)
		}
		n.ord = append(n.ord, a.fi.rpo[to])
		a.nodes[key] = n
	}
	pk := a.partKey(f, to)
	if _, ok := n.in[pk]; !ok && len(n.in) >= a.e.MaxParts {
		a.e.Limits["partitions in "+a.fn.String()]++
		if a.e.PathSensitive {
			a.e.Steps = a.e.MaxSteps + 1 // paths are not merged: give up
		}
		pk = "*" + f.st.ghostKey()
	}
	old := n.in[pk]
	if old == nil {
		n.in[pk] = f
		n.dirty[pk] = true
	} else {
		n.visits[pk]++
		m := a.joinFrames(old, f, a.site+"/"+a.fn.Name()+"/"+key, n.visits[pk] > a.e.WidenAfter)
		if a.e.Coarse && a.entry != nil {
			m.st.collect(a.entry, func(f func(string)) {
				for _, v := range m.regs {
					refs(v, f)
				}
				for _, d := range m.defers {
					refs(d.fn, f)
					refs(d.recv, f)
					for _, v := range d.args {
						refs(v, f)
					}
				}
			})
		}
		if frameEq(old, m) {
			return
		}
		if dbgFix && n.visits[pk] > 4 {
			ok, nk := strings.Split(old.st.equalKey(), "\n"), strings.Split(m.st.equalKey(), "\n")
			has := map[string]bool{}
			for _, l := range ok {
				has[l] = true
			}
			fmt.Fprintln(os.Stderr, "FIX", n.visits[pk], a.fn.Name(), key, "work", len(a.work), "parts", len(n.in))
			for _, l := range nk {
				if !has[l] {
					fmt.Fprintf(os.Stderr, "   + %.300s\n", l)
				}
			}
			for v, w := range m.regs {
				if o := old.regs[v]; o == nil || o.Key() != w.Key() {
					fmt.Fprintf(os.Stderr, "   r %s %.200s\n", v.Name(), w.Key())
				}
			}
		}
		if n.visits[pk] > 200 {
			a.e.Limits["fixpoint in "+a.fn.String()]++
			return
		}
		n.in[pk] = m
		n.dirty[pk] = true
	}
	for _, w := range a.work {
		if w == n {
			return
		}
	}
	a.work = append(a.work, n)
}

var dbgFix = os.Getenv("AIFIX") != ""

func frameEq(a, b *frame) bool {
	if len(a.regs) != len(b.regs) {
		return false
	}
	for k, v := range a.regs {
		w, ok := b.regs[k]
		if !ok || v.Key() != w.Key() {
			return false
		}
	}
	for h := range b.inexact {
		if !a.inexact[h] {
			return false
		}
	}
	return a.st.equalKey() == b.st.equalKey()
}

func (a *activation) joinFrames(x, y *frame, tag string, widen bool) *frame {
	st, j := Join(x.st, y.st, a.e.id(tag))
	if widen && a.e.Coarse {
		x.st.widenTo(st)
	}
	n := &frame{st: st, regs: map[ssa.Value]Val{}, defers: x.defers}
	var vs []ssa.Value
	for v := range x.regs {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		xv := x.regs[v]
		yv, ok := y.regs[v]
		if !ok {
			continue
		}
		if xv.Key() == yv.Key() {
			n.regs[v] = xv
			continue
		}
		w := j.val(xv, yv)
		if widen {
			if _, ok := w.(*Set); ok {
				w = &Top{T: v.Type(), Prov: ProvAll(w)}
				if a.e.Coarse {
					w = &Top{T: v.Type()}
				}
			}
		}
		n.regs[v] = w
	}
	if x.inexact != nil || y.inexact != nil {
		n.inexact = map[*ssa.BasicBlock]bool{}
		for h := range x.inexact {
			n.inexact[h] = true
		}
		for h := range y.inexact {
			n.inexact[h] = true
		}
	}
	return n
}

func (a *activation) ret(f *frame, res Val) {
	var sb strings.Builder
	sb.WriteString(f.st.ghostKey())
	if t, ok := res.(*Tuple); ok {
		for i, x := range t.Elems {
			if partType(a.fn.Signature.Results().At(i).Type()) {
				sb.WriteString("|" + a.sig(f, x))
			}
		}
	} else if res != nil && partType(a.fn.Signature.Results().At(0).Type()) {
		sb.WriteString("|" + a.sig(f, res))
	}
	k := sb.String()
	if o := a.outs[k]; o != nil {
		a.outN[k]++
		st, j := Join(o.St, f.st, a.e.id(a.site+"/"+a.fn.Name()+"/ret"))
		var r Val
		if res != nil {
			r = j.val(o.Res, res)
		}
		a.outs[k] = &Out{st, r}
		return
	}
	a.outs[k] = &Out{f.st, res}
}

func (a *activation) get(f *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return Zero(v.Type())
			}
			if _, ok := v.Type().Underlying().(*types.Basic); ok {
				return Zero(v.Type())
			}
			return NilOf(v.Type())
		}
		return &Const{T: v.Type(), V: v.Value}
	case *ssa.Function:
		return &Func{Fn: v}
	case *ssa.Builtin:
		return &Func{Bi: v}
	case *ssa.Global:
		obj := "G:" + v.String()
		if _, ok := f.st.root(obj); !ok {
			t := v.Type().(*types.Pointer).Elem()
			if a.e.InRepoPkg(v.Pkg) {
				f.st.heap.set(obj, Zero(t))
			} else {
				f.st.heap.set(obj, Atom(v.Pkg.Pkg.Path()+"."+v.Name(), t))
			}
		}
		return &Ptr{Obj: obj}
	}
	if x, ok := f.regs[v]; ok {
		return f.st.resolve(x)
	}
	return &Top{T: v.Type()}
}

// InRepoPkg tells whether the package is part of the analysed repository.
func (e *Engine) InRepoPkg(p *ssa.Package) bool {
	if p == nil {
		return false
	}
	for _, m := range p.Members {
		if fn, ok := m.(*ssa.Function); ok {
			return e.InRepo(fn)
		}
	}
	return false
}

// resolve replaces a symbol by its known constant value.
func (s *State) resolve(v Val) Val {
	if y, ok := v.(*Sym); ok {
		if f := s.Fact(y.ID); f.Eq != nil {
			return f.Eq
		}
	}
	return v
}

func (e *Engine) unknownResult(res *types.Tuple, op string, args []Val) Val {
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return Term(res.At(0).Type(), op, args...)
	}
	t := &Tuple{}
	for i := 0; i < res.Len(); i++ {
		t.Elems = append(t.Elems, Term(res.At(i).Type(), fmt.Sprintf("%s#%d", op, i), args...))
	}
	return t
}

// GlobalPtr is the address of a package-level variable.
func GlobalPtr(g *ssa.Global) *Ptr { return &Ptr{Obj: "G:" + g.String()} }
