package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (a *activation) panicAt(f *frame, in ssa.Instruction, what string) {
	if a.e.OnPanic != nil {
		a.e.OnPanic(f.st, a.fn, a.e.Prog.Fset.Position(instrPos(in)), what)
	}
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return (*op).Pos()
		}
	}
	if in.Parent() != nil {
		return in.Parent().Pos()
	}
	return token.NoPos
}

func (a *activation) runBlock(n *node, f *frame) {
	frames := []*frame{f}
	for _, in := range n.b.Instrs {
		a.e.Steps += len(frames)
		if a.e.Steps > a.e.MaxSteps {
			return
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			for _, f := range frames {
				a.enter(n, n.b.Succs[0], n.b, f)
			}
			return
		case *ssa.If:
			for _, f := range frames {
				a.branch(n, in, f)
			}
			return
		case *ssa.Return:
			for _, f := range frames {
				var res Val
				switch len(in.Results) {
				case 0:
				case 1:
					res = a.get(f, in.Results[0])
				default:
					t := &Tuple{}
					for _, r := range in.Results {
						t.Elems = append(t.Elems, a.get(f, r))
					}
					res = t
				}
				a.ret(f, res)
			}
			return
		case *ssa.Panic:
			for _, f := range frames {
				a.panicAt(f, in, "explicit panic")
			}
			return
		}
		var next []*frame
		for _, f := range frames {
			next = append(next, a.exec(n, in, f)...)
		}
		frames = next
		if len(frames) > 1 {
			frames = a.compact(n, frames)
		}
		if len(frames) == 0 {
			return
		}
	}
}

// compact bounds the number of frames alive inside a block.
func (a *activation) compact(n *node, frames []*frame) []*frame {
	if len(frames) <= 24 {
		return frames
	}
	m := map[string]*frame{}
	var ks []string
	for _, f := range frames {
		var sb strings.Builder
		sb.WriteString(f.st.ghostKey())
		var names []string
		for v := range f.regs {
			if partType(v.Type()) {
				names = append(names, v.Name()+a.sig(f, f.regs[v]))
			}
		}
		sort.Strings(names)
		sb.WriteString(strings.Join(names, "|"))
		k := sb.String()
		if o := m[k]; o != nil {
			m[k] = a.joinFrames(o, f, a.site+"/"+n.key+"/c", false)
		} else {
			m[k] = f
			ks = append(ks, k)
		}
	}
	var out []*frame
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

func (a *activation) markInexact(n *node, f *frame, in *ssa.If) {
	for _, h := range a.fi.loops[n.b] {
		for _, s := range n.b.Succs {
			if !a.fi.body[h][s] {
				if f.inexact == nil {
					f.inexact = map[*ssa.BasicBlock]bool{}
				}
				f.inexact[h] = true
			}
		}
	}
}

func (a *activation) branch(n *node, in *ssa.If, f *frame) {
	c := a.get(f, in.Cond)
	if b, ok := ConstBool(c); ok {
		i := 0
		if !b {
			i = 1
		}
		a.enter(n, n.b.Succs[i], n.b, f)
		return
	}
	if a.e.OnBranch != nil {
		a.e.OnBranch(a.fn, a.e.Prog.Fset.Position(instrPos(in)))
	}
	if a.e.Debug {
		fmt.Fprintf(os.Stderr, "BR %s %s %s\n", a.fn, a.e.Prog.Fset.Position(instrPos(in)), c.Key())
	}
	t := f.clone()
	fl := f
	a.markInexact(n, t, in)
	a.markInexact(n, fl, in)
	yes, no := a.assume(t, in.Cond, c, true), a.assume(fl, in.Cond, c, false)
	if a.e.PathSensitive && yes && no {
		k := fmt.Sprintf("%s%d", FnName(a.fn), n.b.Index)
		t.st.Ghost["~"] += k + "T "
		fl.st.Ghost["~"] += k + "F "
	}
	if yes {
		t.regs[in.Cond] = Bool(true)
		a.enter(n, n.b.Succs[0], n.b, t)
	}
	if no {
		fl.regs[in.Cond] = Bool(false)
		a.enter(n, n.b.Succs[1], n.b, fl)
	}
}

// assume refines f with cond == truth; false when infeasible.
func (a *activation) assume(f *frame, reg ssa.Value, c Val, truth bool) bool {
	ok := f.st.AssumeCond(c, truth)
	if !ok {
		return false
	}
	// refine the registers compared
	if bo, isBin := reg.(*ssa.BinOp); isBin && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		eq := (bo.Op == token.EQL) == truth
		x, y := a.get(f, bo.X), a.get(f, bo.Y)
		if !a.refineReg(f, bo.X, x, y, eq) {
			return false
		}
		if !a.refineReg(f, bo.Y, y, x, eq) {
			return false
		}
	}
	if un, isUn := reg.(*ssa.UnOp); isUn && un.Op == token.NOT {
		return a.assume(f, un.X, a.get(f, un.X), !truth)
	}
	if s, isSet := c.(*Set); isSet {
		// a set of booleans (or of conditions)
		var keep []Val
		for _, alt := range s.Alts {
			if b, ok := ConstBool(alt); ok && b != truth {
				continue
			}
			keep = append(keep, alt)
		}
		if len(keep) == 0 {
			return false
		}
		if len(keep) == 1 {
			return f.st.AssumeCond(keep[0], truth)
		}
	}
	return true
}

func (a *activation) refineReg(f *frame, r ssa.Value, v, other Val, eq bool) bool {
	s, ok := v.(*Set)
	if !ok {
		return true
	}
	var keep []Val
	for _, alt := range s.Alts {
		d := f.st.cmpEq(alt, other)
		if b, ok := ConstBool(d); ok && b != eq {
			continue
		}
		keep = append(keep, alt)
	}
	if len(keep) == 0 {
		return false
	}
	nv := mkSet(keep)
	f.regs[r] = nv
	// propagate to the memory cell the register was loaded from in the same
	// block, when it cannot have been overwritten since
	if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
		if p, ok := f.regs[u.X].(*Ptr); ok {
			if cur := f.st.LoadPtr(p); cur.Key() == v.Key() {
				f.st.heap.set(p.Obj, f.st.put(f.st.Root(p.Obj), p.Path, nv, false))
			}
		}
	}
	return true
}

// AssumeCond refines the state with cond == truth.
func (s *State) AssumeCond(c Val, truth bool) bool {
	if b, ok := ConstBool(c); ok {
		return b == truth
	}
	y, ok := c.(*Sym)
	if !ok {
		return true
	}
	if f := s.Fact(y.ID); f.Eq != nil {
		if b, ok := ConstBool(f.Eq); ok {
			return b == truth
		}
	}
	if y.Op == "!" {
		return s.AssumeCond(y.Args[0], !truth)
	}
	s.Assume(y.ID, Bool(truth))
	if y.Op == "==" {
		s.E.eqTerms[y.ID] = y
	}
	if len(y.Args) != 2 {
		return true
	}
	l, r := y.Args[0], y.Args[1]
	switch y.Op {
	case "==":
		if _, ok := l.(*Sym); !ok {
			l, r = r, l
		}
		if ls, ok := l.(*Sym); ok {
			if _, ok := r.(*Const); ok {
				if truth {
					s.Assume(ls.ID, r)
				} else {
					s.AssumeNe(ls.ID, r)
					if !isFloat(ls.T) {
						s.shaveRange(ls.ID, r)
					}
				}
				// len(x) == 0 <=> x == ""
				if ls.Op == "len" && truth {
					if n, ok := ConstInt(r); ok && n == 0 {
						if as, ok := ls.Args[0].(*Sym); ok {
							s.emptyFact(as)
						}
					}
				}
			} else if rs, ok := r.(*Sym); ok && truth {
				if f := s.Fact(rs.ID); f.Eq != nil {
					s.Assume(ls.ID, f.Eq)
				} else if f := s.Fact(ls.ID); f.Eq != nil {
					s.Assume(rs.ID, f.Eq)
				}
			}
		}
	case "<":
		if ls, ok := l.(*Sym); ok {
			if n, ok := s.upper(r); ok && truth {
				h := n - 1
				if isFloat(ls.T) || isFloat(ValType(r)) {
					h = n
					s.AssumeNe(ls.ID, Int(n))
				}
				s.AssumeRange(ls.ID, nil, &h)
			}
			if n, ok := s.lower(r); ok && !truth {
				s.AssumeRange(ls.ID, &n, nil)
			}
		}
		if rs, ok := r.(*Sym); ok {
			if n, ok := s.lower(l); ok && truth {
				h := n + 1
				if isFloat(rs.T) || isFloat(ValType(l)) {
					h = n
					s.AssumeNe(rs.ID, Int(n))
				}
				s.AssumeRange(rs.ID, &h, nil)
			}
			if n, ok := s.upper(l); ok && !truth {
				s.AssumeRange(rs.ID, nil, &n)
			}
		}
	}
	return true
}

func numericType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (s *State) emptyFact(x *Sym) {
	if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s.Assume(x.ID, Str(""))
	}
}

func (s *State) shaveRange(id string, c Val) {
	n, ok := ConstInt(c)
	if !ok {
		return
	}
	f := s.Fact(id)
	if f.HasLo && f.Lo == n {
		m := n + 1
		s.AssumeRange(id, &m, nil)
	}
	if f.HasHi && f.Hi == n {
		m := n - 1
		s.AssumeRange(id, nil, &m)
	}
}

func (s *State) lower(v Val) (int64, bool) {
	if n, ok := wholeConst(v); ok {
		return n, true
	}
	if y, ok := v.(*Sym); ok {
		f := s.Fact(y.ID)
		if f.Eq != nil {
			return wholeConst(f.Eq)
		}
		if f.HasLo {
			return f.Lo, true
		}
		if y.Op == "len" || isUnsigned(y.T) {
			n := int64(0)
			for f.Ne[Int(n).Key()] {
				n++
			}
			return n, true
		}
	}
	return 0, false
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// wholeConst is the value of a numeric constant without fraction.
func wholeConst(v Val) (int64, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.Float {
		if n := constant.ToInt(c.V); n.Kind() == constant.Int {
			return constant.Int64Val(n)
		}
	}
	return ConstInt(v)
}

func (s *State) upper(v Val) (int64, bool) {
	if n, ok := wholeConst(v); ok {
		return n, true
	}
	if y, ok := v.(*Sym); ok {
		f := s.Fact(y.ID)
		if f.Eq != nil {
			return wholeConst(f.Eq)
		}
		if f.HasHi {
			return f.Hi, true
		}
	}
	return 0, false
}

// cmpEq is the abstract result of x == y.
func (s *State) cmpEq(x, y Val) Val {
	if x == nil || y == nil {
		return &Top{T: types.Typ[types.Bool]}
	}
	x, y = s.resolve(x), s.resolve(y)
	if s.E.Floats != nil && floatVal(x) && floatVal(y) {
		if r := s.E.Floats.Eq(s, x, y); r != nil {
			return r
		}
	}
	if cx, ok := x.(*Const); ok {
		if cy, ok := y.(*Const); ok {
			if cx.V == nil || cy.V == nil {
				return Bool(cx.V == nil && cy.V == nil)
			}
			if cx.V.Kind() == constant.Bool || cx.V.Kind() == constant.String {
				if cx.V.Kind() != cy.V.Kind() {
					return Bool(false)
				}
			}
			return Bool(constant.Compare(cx.V, token.EQL, cy.V))
		}
	}
	if IsNil(y) {
		x, y = y, x
	}
	if IsNil(x) {
		switch v := y.(type) {
		case *Ptr, *Iface, *Func, *Slice, *Agg, *Bytes:
			return Bool(false)
		case *Sym:
			f := s.Fact(v.ID)
			if f.NonNil {
				return Bool(false)
			}
			if _, isSl := v.T.Underlying().(*types.Slice); isSl {
				// nil-ness of a symbolic slice follows its length facts
				if lo, ok := s.lower(s.Len(v)); ok && lo > 0 {
					return Bool(false)
				}
			}
		}
	}
	if s1, ok := x.(*Set); ok {
		return s.cmpAlts(s1.Alts, y)
	}
	if s1, ok := y.(*Set); ok {
		return s.cmpAlts(s1.Alts, x)
	}
	switch a := x.(type) {
	case *Agg:
		if b, ok := s.expand(y).(*Agg); ok && len(a.Elems) == len(b.Elems) {
			return s.cmpAgg(a, b)
		}
	case *Ptr:
		if b, ok := y.(*Ptr); ok {
			if a.Key() == b.Key() {
				return Bool(true)
			}
			if a.Obj != b.Obj {
				return Bool(false)
			}
		}
	case *Iface:
		if b, ok := y.(*Iface); ok {
			if !types.Identical(a.Dyn, b.Dyn) {
				return Bool(false)
			}
			return s.cmpEq(a.V, b.V)
		}
		if b, ok := y.(*Sym); ok {
			if d := s.Fact(b.ID).Dyn; d != nil && types.IsInterface(b.T) && !types.Identical(a.Dyn, d) {
				return Bool(false)
			}
		}
	case *Sym:
		if b, ok := y.(*Iface); ok {
			if d := s.Fact(a.ID).Dyn; d != nil && types.IsInterface(a.T) && !types.Identical(b.Dyn, d) {
				return Bool(false)
			}
		}
		if b, ok := y.(*Agg); ok {
			if e, ok := s.expand(a).(*Agg); ok {
				return s.cmpAgg(e, b)
			}
		}
		f := s.Fact(a.ID)
		if c, ok := y.(*Const); ok {
			if f.Ne[c.Key()] || f.NeAll {
				return Bool(false)
			}
			if n, ok := ConstInt(c); ok {
				if lo, ok := s.lower(a); ok && n < lo {
					return Bool(false)
				}
				if hi, ok := s.upper(a); ok && n > hi {
					return Bool(false)
				}
			}
			if str, ok := ConstStr(c); ok {
				ln := s.Len(a)
				if lo, ok := s.lower(ln); ok && int64(len(str)) < lo {
					return Bool(false)
				}
			}
		}
		if b, ok := y.(*Sym); ok && a.ID == b.ID {
			return Bool(true)
		}
		if b, ok := y.(*Sym); ok && numericType(a.T) && numericType(b.T) {
			if hi, ok := s.upper(a); ok {
				if lo, ok := s.lower(b); ok && hi < lo {
					return Bool(false)
				}
			}
			if hi, ok := s.upper(b); ok {
				if lo, ok := s.lower(a); ok && hi < lo {
					return Bool(false)
				}
			}
		}
	}
	if _, ok := y.(*Sym); ok {
		if _, ok := x.(*Sym); !ok {
			if _, isC := x.(*Const); isC {
				return s.cmpEq2(y, x)
			}
			if _, isA := x.(*Agg); isA {
				return s.cmpEq2(y, x)
			}
		}
	}
	kx, ky := x.Key(), y.Key()
	if kx > ky {
		x, y = y, x
	}
	r := Term(types.Typ[types.Bool], "==", x, y)
	if rs, ok := r.(*Sym); ok {
		if f := s.Fact(rs.ID); f.Eq != nil {
			return f.Eq
		}
	}
	return r
}

func (s *State) cmpEq2(y, x Val) Val {
	a := y.(*Sym)
	f := s.Fact(a.ID)
	if c, ok := x.(*Const); ok {
		if f.Ne[c.Key()] || f.NeAll {
			return Bool(false)
		}
		if n, ok := ConstInt(c); ok {
			if lo, ok := s.lower(a); ok && n < lo {
				return Bool(false)
			}
			if hi, ok := s.upper(a); ok && n > hi {
				return Bool(false)
			}
		}
		if str, ok := ConstStr(c); ok {
			if lo, ok := s.lower(s.Len(a)); ok && int64(len(str)) < lo {
				return Bool(false)
			}
		}
	}
	if g, ok := x.(*Agg); ok {
		if e, ok := s.expand(a).(*Agg); ok {
			return s.cmpAgg(e, g)
		}
	}
	var l, r Val = y, x
	if l.Key() > r.Key() {
		l, r = r, l
	}
	t := Term(types.Typ[types.Bool], "==", l, r)
	if rs, ok := t.(*Sym); ok {
		if f := s.Fact(rs.ID); f.Eq != nil {
			return f.Eq
		}
	}
	return t
}

// FloatDomain decides about floating-point values.
// A nil result leaves the decision to the engine.
type FloatDomain interface {
	Eq(s *State, x, y Val) Val
	Less(s *State, x, y Val) Val
	Bin(s *State, op token.Token, x, y Val, t types.Type) Val
	Convert(s *State, x Val, t types.Type) Val
}

func floatVal(v Val) bool {
	var t types.Type
	switch v := v.(type) {
	case *Const:
		if v.V == nil {
			return false
		}
		t = v.T
	case *Sym:
		t = v.T
	}
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (s *State) cmpAgg(a, b *Agg) Val {
	var unk []Val
	for i := range a.Elems {
		c := s.cmpEq(a.Elems[i], b.Elems[i])
		if v, ok := ConstBool(c); ok {
			if !v {
				return Bool(false)
			}
			continue
		}
		unk = append(unk, c)
	}
	if len(unk) == 0 {
		return Bool(true)
	}
	if len(unk) == 1 {
		return unk[0]
	}
	return Term(types.Typ[types.Bool], "and", unk...)
}

func (s *State) cmpAlts(alts []Val, y Val) Val {
	var rs []Val
	for _, x := range alts {
		rs = append(rs, s.cmpEq(x, y))
	}
	return mkSet(rs)
}

func (s *State) cmpLess(x, y Val) Val {
	x, y = s.resolve(x), s.resolve(y)
	if s.E.Floats != nil && floatVal(x) && floatVal(y) {
		if r := s.E.Floats.Less(s, x, y); r != nil {
			return r
		}
	}
	if cx, ok := x.(*Const); ok {
		if cy, ok := y.(*Const); ok && cx.V != nil && cy.V != nil {
			return Bool(constant.Compare(cx.V, token.LSS, cy.V))
		}
	}
	if a, ok := x.(*Set); ok {
		var rs []Val
		for _, v := range a.Alts {
			rs = append(rs, s.cmpLess(v, y))
		}
		return mkSet(rs)
	}
	if a, ok := y.(*Set); ok {
		var rs []Val
		for _, v := range a.Alts {
			rs = append(rs, s.cmpLess(x, v))
		}
		return mkSet(rs)
	}
	if x.Key() == y.Key() {
		if _, ok := x.(*Sym); ok {
			return Bool(false)
		}
	}
	if hx, ok := s.upper(x); ok {
		if ly, ok := s.lower(y); ok && hx < ly {
			return Bool(true)
		}
	}
	if lx, ok := s.lower(x); ok {
		if hy, ok := s.upper(y); ok && lx >= hy {
			return Bool(false)
		}
	}
	if n, ok := wholeConst(x); ok {
		// x <= y and x != y
		if y, isS := y.(*Sym); isS {
			if ly, ok := s.lower(y); ok && n <= ly && s.Fact(y.ID).Ne[Int(n).Key()] {
				return Bool(true)
			}
		}
	}
	r := Term(types.Typ[types.Bool], "<", x, y)
	if rs, ok := r.(*Sym); ok {
		if f := s.Fact(rs.ID); f.Eq != nil {
			return f.Eq
		}
	}
	return r
}

// Not negates a condition.
func (s *State) Not(c Val) Val {
	if b, ok := ConstBool(c); ok {
		return Bool(!b)
	}
	if y, ok := c.(*Sym); ok && y.Op == "!" {
		return y.Args[0]
	}
	if st, ok := c.(*Set); ok {
		var rs []Val
		for _, v := range st.Alts {
			rs = append(rs, s.Not(v))
		}
		return mkSet(rs)
	}
	return Term(types.Typ[types.Bool], "!", c)
}

func (s *State) binop(op token.Token, x, y Val, t types.Type) Val {
	switch op {
	case token.EQL:
		return s.cmpEq(x, y)
	case token.NEQ:
		return s.Not(s.cmpEq(x, y))
	case token.LSS:
		return s.cmpLess(x, y)
	case token.GTR:
		return s.cmpLess(y, x)
	case token.LEQ:
		return s.Not(s.cmpLess(y, x))
	case token.GEQ:
		return s.Not(s.cmpLess(x, y))
	}
	if a, ok := x.(*Set); ok {
		var rs []Val
		for _, v := range a.Alts {
			rs = append(rs, s.binop(op, v, y, t))
		}
		return mkSet(rs)
	}
	if a, ok := y.(*Set); ok {
		var rs []Val
		for _, v := range a.Alts {
			rs = append(rs, s.binop(op, x, v, t))
		}
		return mkSet(rs)
	}
	if s.E.Floats != nil && floatVal(x) && floatVal(y) {
		if r := s.E.Floats.Bin(s, op, x, y, t); r != nil {
			return r
		}
	}
	if cx, ok := x.(*Const); ok && cx.V != nil {
		if cy, ok := y.(*Const); ok && cy.V != nil {
			if v := foldBin(op, cx, cy, t); v != nil {
				return v
			}
		}
	}
	if tx, ok := x.(*Top); ok {
		return &Top{T: t, Prov: ProvAll(tx, y)}
	}
	if ty, ok := y.(*Top); ok {
		return &Top{T: t, Prov: ProvAll(x, ty)}
	}
	if n, ok := ConstInt(y); ok && n == 0 && (op == token.ADD || op == token.SUB || op == token.OR || op == token.SHL || op == token.SHR) {
		if _, isS := x.(*Sym); isS {
			return x
		}
	}
	if n, ok := ConstInt(x); ok && n == 0 && (op == token.ADD || op == token.OR) {
		return y
	}
	if str, ok := ConstStr(y); ok && str == "" && op == token.ADD {
		return x
	}
	if str, ok := ConstStr(x); ok && str == "" && op == token.ADD {
		return y
	}
	return Term(t, op.String(), x, y)
}

func foldBin(op token.Token, x, y *Const, t types.Type) (v Val) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	var c constant.Value
	switch op {
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(y.V)
		if !ok || n > 64 {
			return nil
		}
		c = constant.Shift(x.V, op, uint(n))
	case token.QUO:
		o := op
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			o = token.QUO_ASSIGN
			if constant.Sign(y.V) == 0 {
				return nil
			}
		}
		c = constant.BinaryOp(x.V, o, y.V)
	case token.REM:
		if constant.Sign(y.V) == 0 {
			return nil
		}
		c = constant.BinaryOp(x.V, op, y.V)
	default:
		c = constant.BinaryOp(x.V, op, y.V)
	}
	return wrapConst(c, t)
}

func wrapConst(c constant.Value, t types.Type) Val {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		bits, signed := intBits(b)
		i := constant.ToInt(c)
		if i.Kind() != constant.Int {
			// truncation of a float constant
			f, _ := constant.Float64Val(c)
			i = constant.MakeInt64(int64(f))
		}
		mod := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
		i = constant.BinaryOp(i, token.REM, mod)
		if constant.Sign(i) < 0 {
			i = constant.BinaryOp(i, token.ADD, mod)
		}
		if signed {
			half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)
			if constant.Compare(i, token.GEQ, half) {
				i = constant.BinaryOp(i, token.SUB, mod)
			}
		}
		c = i
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		f, _ := constant.Float32Val(c)
		c = constant.MakeFloat64(float64(f))
	}
	return &Const{T: t, V: c}
}

func intBits(b *types.Basic) (uint, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// convert is the abstract conversion of v to type t.
func (s *State) convert(v Val, t types.Type) Val {
	if st, ok := v.(*Set); ok {
		var rs []Val
		for _, x := range st.Alts {
			rs = append(rs, s.convert(x, t))
		}
		return mkSet(rs)
	}
	tb, isBasic := t.Underlying().(*types.Basic)
	_, isSlice := t.Underlying().(*types.Slice)
	if s.E.Floats != nil && isBasic && tb.Info()&types.IsNumeric != 0 && floatVal(v) {
		if r := s.E.Floats.Convert(s, v, t); r != nil {
			return r
		}
	}
	switch x := v.(type) {
	case *Const:
		if x.V == nil {
			if isBasic && tb.Info()&types.IsString != 0 {
				return &Const{T: t, V: constant.MakeString("")}
			}
			return &Const{T: t}
		}
		if isSlice {
			if str, ok := ConstStr(x); ok {
				return &Bytes{S: str}
			}
		}
		if isBasic {
			switch {
			case tb.Info()&types.IsString != 0:
				if x.V.Kind() == constant.Int {
					n, _ := constant.Int64Val(x.V)
					return &Const{T: t, V: constant.MakeString(string(rune(n)))}
				}
				return &Const{T: t, V: x.V}
			case tb.Info()&types.IsNumeric != 0:
				return wrapConst(x.V, t)
			}
		}
		return &Const{T: t, V: x.V}
	case *Bytes:
		if isBasic {
			return &Const{T: t, V: constant.MakeString(x.S)}
		}
		return x
	case *Sym:
		if isBasic && tb.Info()&types.IsNumeric != 0 {
			// Value preserving conversions keep the identity of the symbol;
			// so does narrowing (see DESIGN: lengths and indices < 2^31).
			if xb, ok := x.T.Underlying().(*types.Basic); ok {
				if s.E.TrackNarrow && !s.fits(x, xb, tb) {
					return Term(t, "trunc "+tb.Name(), x)
				}
				return &Sym{ID: x.ID, T: t, Op: x.Op, Args: x.Args, dep: x.dep}
			}
		}
		if isBasic && tb.Info()&types.IsString != 0 || isSlice {
			// string <-> []byte conversions: a copy with the same content
			if str, ok := bytesOrString(x.T); ok {
				if str2, ok2 := bytesOrString(t); ok2 && str != str2 {
					return Term(t, "copy", x)
				}
			}
		}
		return &Sym{ID: x.ID, T: t, Op: x.Op, Args: x.Args, dep: x.dep}
	case *Slice:
		if isBasic && tb.Info()&types.IsString != 0 {
			if src := s.wholeCopyOf(x); src != nil {
				return Term(t, "copy", src)
			}
			el, ok := s.SliceElems(x)
			if ok {
				var sb []byte
				all := true
				for _, e := range el {
					n, ok := ConstInt(e)
					if !ok {
						all = false
						break
					}
					sb = append(sb, byte(n))
				}
				if all {
					return &Const{T: t, V: constant.MakeString(string(sb))}
				}
				return Term(t, "string", el...)
			}
			return Term(t, "string", &Top{Prov: ProvAll(s.sel(s.LoadPtr(&Ptr{Obj: x.Obj, Path: x.Path}), Star), s.LoadPtr(&Ptr{Obj: x.Obj, Path: x.Path}))})
		}
		n := *x
		n.T = t
		n.k = ""
		return &n
	case *Top:
		return &Top{T: t, Prov: x.Prov}
	case *Agg:
		return &Agg{T: t, Elems: x.Elems}
	}
	return v
}

// fits tells whether the conversion of x to the numeric type to keeps its
// value.
func (s *State) fits(x *Sym, from, to *types.Basic) bool {
	const num = types.IsInteger | types.IsFloat
	ff, tf := from.Info()&num, to.Info()&num
	switch {
	case ff == types.IsFloat && tf == types.IsInteger:
		return false
	case ff == types.IsFloat && tf == types.IsFloat:
		return from.Kind() != types.Float64 || to.Kind() == types.Float64 || s.Fact(x.ID).F32
	case tf == types.IsFloat:
		return true
	}
	fb, fs := intBits(from)
	tbits, ts := intBits(to)
	if fs == ts && tbits >= fb || !fs && ts && tbits > fb {
		return true
	}
	lo, ok1 := s.lower(x)
	hi, ok2 := s.upper(x)
	if !ok1 || !ok2 {
		return false
	}
	if lo < 0 && !ts {
		return false
	}
	if ts {
		tbits--
	}
	return tbits >= 63 || hi < int64(1)<<tbits && lo >= -(int64(1)<<tbits)
}

// wholeCopyOf returns the symbolic slice or string of which sl is a complete
// private copy, or nil.
func (s *State) wholeCopyOf(sl *Slice) *Sym {
	if len(sl.Path) != 0 || sl.Off != 0 {
		return nil
	}
	a, ok := s.LoadPtr(&Ptr{Obj: sl.Obj}).(*Arr)
	if !ok || a.Src == nil || len(a.M) != 0 || a.Rest != nil {
		return nil
	}
	if l, ok := sl.Len.(*Sym); ok && l.ID == "len("+a.Src.ID+")" {
		return a.Src
	}
	return nil
}

func bytesOrString(t types.Type) (isStr, ok bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true, u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return false, ok && b.Kind() == types.Byte
	}
	return false, false
}

// allocID names the object created by in at node n.
func (a *activation) allocID(n *node, in ssa.Value, tag string) string {
	return "o" + a.e.id(a.site+"/"+a.fn.String()+"/"+in.Name()+"/"+n.key+tag)
}

// fresh installs a new object under id, renaming an older incarnation.
func (a *activation) fresh(f *frame, id string, v Val) {
	if old, ok := f.st.heap.get(id); ok {
		used := a.renameObj(f, id, id+"#old")
		if used {
			if prev, ok := f.st.heap.get(id + "#old"); ok {
				f.st.heap.set(id+"#old", joinStruct(prev, old))
			} else {
				f.st.heap.set(id+"#old", old)
			}
		}
	}
	f.st.heap.set(id, v)
}

func (a *activation) renameObj(f *frame, from, to string) bool {
	used := false
	for r, v := range f.regs {
		if n := renameVal(v, from, to); n != v {
			f.regs[r] = n
			used = true
		}
	}
	f.st.heap.each(func(k string, v Val) {
		if n := renameVal(v, from, to); n != v {
			f.st.heap.set(k, n)
			used = true
		}
	})
	return used
}

func renameVal(v Val, from, to string) Val {
	if v == nil || !strings.Contains(v.Key(), from) {
		return v
	}
	list := func(l []Val) []Val {
		n := make([]Val, len(l))
		for i, x := range l {
			n[i] = renameVal(x, from, to)
		}
		return n
	}
	switch x := v.(type) {
	case *Ptr:
		if x.Obj == from {
			return &Ptr{Obj: to, Path: x.Path}
		}
	case *Slice:
		if x.Obj == from {
			n := *x
			n.Obj = to
			n.k = ""
			return &n
		}
	case *Agg:
		n := &Agg{T: x.T, Elems: list(x.Elems)}
		if n.Key() != x.Key() {
			return n
		}
	case *Tuple:
		return &Tuple{Elems: list(x.Elems)}
	case *Set:
		return mkSet(list(x.Alts))
	case *Iface:
		return &Iface{Dyn: x.Dyn, V: renameVal(x.V, from, to)}
	case *Func:
		return &Func{Fn: x.Fn, Bi: x.Bi, Free: list(x.Free)}
	case *Bag:
		return &Bag{Elem: x.Elem, Must: list(x.Must), May: list(x.May)}
	case *Map:
		return &Map{T: x.T, Keys: list(x.Keys), Vals: list(x.Vals), Exact: x.Exact, Sym: x.Sym}
	case *Arr:
		n := &Arr{Elem: x.Elem, Sym: x.Sym, Src: x.Src, M: map[int]Val{}}
		for k, e := range x.M {
			n.M[k] = renameVal(e, from, to)
		}
		if x.Rest != nil {
			n.Rest = renameVal(x.Rest, from, to)
		}
		return n
	}
	return v
}

func (a *activation) exec(n *node, in ssa.Instruction, f *frame) []*frame {
	st := f.st
	one := []*frame{f}
	set := func(v ssa.Value, x Val) []*frame { f.regs[v] = x; return one }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		id := a.allocID(n, in, "")
		a.fresh(f, id, Zero(t))
		return set(in, &Ptr{Obj: id})
	case *ssa.MakeSlice:
		ln := a.get(f, in.Len)
		cp := a.get(f, in.Cap)
		a.alloc(f.st, in, "make", cp)
		id := a.allocID(n, in, "")
		el := elemOf(in.Type())
		a.fresh(f, id, &Arr{Elem: el, M: map[int]Val{}})
		return set(in, &Slice{T: in.Type(), Obj: id, Len: ln, Cap: cp})
	case *ssa.MakeMap:
		if in.Reserve != nil {
			a.alloc(f.st, in, "make", a.get(f, in.Reserve))
		}
		id := a.allocID(n, in, "")
		a.fresh(f, id, &Map{T: in.Type().Underlying().(*types.Map), Exact: true})
		return set(in, &Ptr{Obj: id})
	case *ssa.MakeChan:
		a.alloc(f.st, in, "make", a.get(f, in.Size))
		id := a.allocID(n, in, "")
		a.fresh(f, id, &Agg{Elems: []Val{&Agg{}, Bool(false)}})
		return set(in, &Ptr{Obj: id})
	case *ssa.MakeClosure:
		fv := &Func{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.Free = append(fv.Free, a.get(f, b))
		}
		return set(in, fv)
	case *ssa.MakeInterface:
		return set(in, &Iface{Dyn: in.X.Type(), V: a.get(f, in.X)})
	case *ssa.ChangeInterface:
		x := a.get(f, in.X)
		return set(in, x)
	case *ssa.ChangeType:
		x := a.get(f, in.X)
		if s, ok := x.(*Sym); ok {
			return set(in, &Sym{ID: s.ID, T: in.Type(), Op: s.Op, Args: s.Args, dep: s.dep})
		}
		if s, ok := x.(*Agg); ok {
			return set(in, &Agg{T: in.Type(), Elems: s.Elems})
		}
		if s, ok := x.(*Slice); ok {
			c := *s
			c.T = in.Type()
			c.k = ""
			return set(in, &c)
		}
		if s, ok := x.(*Const); ok {
			return set(in, &Const{T: in.Type(), V: s.V})
		}
		return set(in, x)
	case *ssa.Convert:
		return set(in, st.convert(a.get(f, in.X), in.Type()))
	case *ssa.MultiConvert:
		return set(in, st.convert(a.get(f, in.X), in.Type()))
	case *ssa.SliceToArrayPointer:
		x := a.get(f, in.X)
		if s, ok := x.(*Slice); ok && s.Off == 0 {
			return set(in, &Ptr{Obj: s.Obj, Path: s.Path})
		}
		return set(in, &Top{T: in.Type(), Prov: ProvAll(x)})
	case *ssa.UnOp:
		x := a.get(f, in.X)
		switch in.Op {
		case token.MUL:
			if IsNil(x) {
				a.panicAt(f, in, "nil pointer dereference")
				return nil
			}
			if !a.derefOK(f, in, x) {
				return nil
			}
			a.reads(st, in, "load", x, in.Type())
			v := st.LoadPtr(x)
			v = a.coerce(st, v, in.Type())
			return set(in, st.resolve(v))
		case token.NOT:
			return set(in, st.Not(x))
		case token.SUB:
			if c, ok := x.(*Const); ok && c.V != nil {
				return set(in, wrapConst(constant.UnaryOp(token.SUB, c.V, 0), in.Type()))
			}
			if st.E.Floats != nil && floatVal(x) {
				if r := st.E.Floats.Bin(st, token.SUB, &Const{T: in.Type(), V: constant.MakeInt64(0)}, x, in.Type()); r != nil {
					return set(in, r)
				}
			}
			return set(in, Term(in.Type(), "neg", x))
		case token.ARROW:
			if v, ok := a.receive(st, in, x); v != nil {
				if in.CommaOk {
					return set(in, &Tuple{Elems: []Val{v, ok}})
				}
				return set(in, v)
			}
			if in.CommaOk {
				return set(in, &Tuple{Elems: []Val{&Top{T: in.X.Type()}, &Top{T: types.Typ[types.Bool]}}})
			}
			return set(in, &Top{T: in.Type()})
		}
		return set(in, Term(in.Type(), in.Op.String(), x))
	case *ssa.BinOp:
		return set(in, st.resolve(st.binop(in.Op, a.get(f, in.X), a.get(f, in.Y), in.Type())))
	case *ssa.FieldAddr:
		x := a.get(f, in.X)
		if IsNil(x) {
			a.panicAt(f, in, "nil pointer dereference")
			return nil
		}
		if !a.derefOK(f, in, x) {
			return nil
		}
		return set(in, st.FieldPtr(x, in.Field))
	case *ssa.Field:
		return set(in, st.resolve(st.sel(a.get(f, in.X), in.Field)))
	case *ssa.IndexAddr:
		x, idx := a.get(f, in.X), a.get(f, in.Index)
		if IsNil(x) {
			a.panicAt(f, in, "index of a nil slice")
			return nil
		}
		if !a.boundsOK(f, in, x, idx) {
			return nil
		}
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); isPtr {
			i := Star
			if k, ok := ConstInt(idx); ok {
				i = int(k)
			}
			return set(in, st.FieldPtr(x, i))
		}
		return set(in, st.ElemPtr(x, idx))
	case *ssa.Index:
		x, idx := a.get(f, in.X), a.get(f, in.Index)
		if !a.boundsOK(f, in, x, idx) {
			return nil
		}
		if str, ok := ConstStr(x); ok {
			if k, ok := ConstInt(idx); ok {
				return set(in, &Const{T: in.Type(), V: constant.MakeInt64(int64(str[k]))})
			}
			if _, ok := idx.(*Sym); ok {
				return set(in, Term(in.Type(), "index", x, idx))
			}
			return set(in, &Top{T: in.Type(), Prov: ProvAll(idx)})
		}
		i := Star
		if k, ok := ConstInt(idx); ok {
			i = int(k)
		}
		return set(in, st.resolve(st.sel(x, i)))
	case *ssa.Slice:
		return a.execSlice(n, in, f)
	case *ssa.Store:
		p, v := a.get(f, in.Addr), a.get(f, in.Val)
		if IsNil(p) {
			a.panicAt(f, in, "nil pointer dereference")
			return nil
		}
		a.target(st, in, "store", p, baseType(in.Addr))
		st.StorePtr(p, v, false)
		return one
	case *ssa.MapUpdate:
		a.target(st, in, "map update", a.get(f, in.Map), in.Map.Type())
		a.mapUpdate(f, a.get(f, in.Map), a.get(f, in.Key), a.get(f, in.Value))
		return one
	case *ssa.Lookup:
		return a.lookup(f, in)
	case *ssa.Extract:
		t := a.get(f, in.Tuple)
		if tp, ok := t.(*Tuple); ok {
			return set(in, st.resolve(tp.Elems[in.Index]))
		}
		return set(in, &Top{T: in.Type(), Prov: ProvAll(t)})
	case *ssa.TypeAssert:
		return a.typeAssert(f, in)
	case *ssa.Range:
		x := a.get(f, in.X)
		id := a.allocID(n, in, "")
		a.fresh(f, id, &Agg{Elems: []Val{x, Int(0)}})
		return set(in, &Ptr{Obj: id})
	case *ssa.Next:
		return a.next(f, in)
	case *ssa.Call:
		return a.call(n, in, &in.Call, f, in)
	case *ssa.Go:
		cc := in.Call
		return a.callWith(n, in, &cc, f, nil, true)
	case *ssa.Defer:
		d := deferred{call: &in.Call, instr: in}
		if in.Call.IsInvoke() {
			d.recv = a.get(f, in.Call.Value)
		} else {
			d.fn = a.get(f, in.Call.Value)
		}
		for _, x := range in.Call.Args {
			d.args = append(d.args, a.get(f, x))
		}
		d.k = fmt.Sprintf("d%d.%p", len(f.defers), in)
		f.defers = append(append([]deferred(nil), f.defers...), d)
		return one
	case *ssa.RunDefers:
		frames := one
		for len(frames) > 0 && len(frames[0].defers) > 0 {
			var next []*frame
			for _, g := range frames {
				d := g.defers[len(g.defers)-1]
				g.defers = g.defers[:len(g.defers)-1]
				next = append(next, a.dispatch(n, d.instr, d.call, g, d.fn, d.recv, d.args, nil, false)...)
			}
			frames = next
		}
		return frames
	case *ssa.Select:
		return a.selectInstr(f, in)
	case *ssa.Send:
		ch := a.get(f, in.Chan)
		a.onChan(st, in, "send", ch)
		if p, ok := ch.(*Ptr); ok {
			if q, ok := st.LoadPtr(p).(*Agg); ok && len(q.Elems) == 2 {
				l := q.Elems[0].(*Agg).Elems
				l = append(append([]Val(nil), l...), a.get(f, in.X))
				st.StorePtr(p, &Agg{Elems: []Val{&Agg{Elems: l}, q.Elems[1]}}, false)
			}
		}
		return one
	}
	if v, ok := in.(ssa.Value); ok {
		return set(v, &Top{T: v.Type()})
	}
	return one
}

// receive takes the oldest value from a channel of the repository; goroutines
// are interpreted when they start, so what they send is there.
func (a *activation) receive(st *State, in *ssa.UnOp, ch Val) (Val, Val) {
	p, ok := ch.(*Ptr)
	if !ok {
		return nil, nil
	}
	q, ok := st.LoadPtr(p).(*Agg)
	if !ok || len(q.Elems) != 2 {
		return nil, nil
	}
	a.onChan(st, in, "receive", ch)
	el := in.X.Type().Underlying().(*types.Chan).Elem()
	l := q.Elems[0].(*Agg).Elems
	if len(l) > 0 {
		st.StorePtr(p, &Agg{Elems: []Val{&Agg{Elems: l[1:]}, q.Elems[1]}}, false)
		return l[0], Bool(true)
	}
	if b, ok := ConstBool(q.Elems[1]); ok && b {
		return Zero(el), Bool(false)
	}
	a.e.Limits["receive from an empty channel in "+a.fn.String()]++
	return nil, nil
}

// coerce adapts a loaded value to the static type of the load (unsafe casts).
func (a *activation) coerce(st *State, v Val, t types.Type) Val {
	vt := ValType(v)
	if vt == nil {
		if b, ok := v.(*Bytes); ok {
			if isStr, ok := bytesOrString(t); ok && isStr {
				return &Const{T: t, V: constant.MakeString(b.S)}
			}
		}
		if tp, ok := v.(*Top); ok && tp.T == nil {
			return &Top{T: t, Prov: tp.Prov}
		}
		return v
	}
	s1, ok1 := bytesOrString(vt)
	s2, ok2 := bytesOrString(t)
	if ok1 && ok2 && s1 != s2 {
		if y, ok := v.(*Sym); ok {
			return Term(t, "alias", y)
		}
		return st.convert(v, t)
	}
	return v
}

// derefOK drops paths on which p is known to be nil and notes the assumption
// that a symbolic pointer is not nil.
func (a *activation) derefOK(f *frame, in ssa.Instruction, p Val) bool {
	if y, ok := p.(*Sym); ok {
		ft := f.st.Fact(y.ID)
		if ft.Eq != nil && IsNil(ft.Eq) {
			a.panicAt(f, in, "nil pointer dereference")
			return false
		}
		if !ft.NonNil && a.e.OnPanic != nil && a.e.MayNil != nil && a.e.MayNil(y) {
			a.panicAt(f, in, "possible nil pointer dereference of "+y.ID)
		}
	}
	if s, ok := p.(*Set); ok {
		for _, x := range s.Alts {
			if IsNil(x) {
				a.panicAt(f, in, "possible nil pointer dereference")
			}
		}
	}
	return true
}

func (a *activation) boundsOK(f *frame, in ssa.Instruction, x, idx Val) bool {
	ln := f.st.Len(x)
	if p, ok := x.(*Ptr); ok {
		v := f.st.LoadPtr(p)
		switch v := v.(type) {
		case *Agg:
			ln = Int(int64(len(v.Elems)))
		default:
			return true
		}
	}
	c := f.st.cmpLess(idx, ln)
	if b, ok := ConstBool(c); ok {
		if !b {
			a.panicAt(f, in, "index out of range")
			return false
		}
		return true
	}
	if a.e.OnMayPanic != nil && !a.dominatedBound(f, in, idx, ln) {
		a.e.OnMayPanic(f.st, a.fn, a.e.Prog.Fset.Position(instrPos(in)), "index", x, idx, ln)
	}
	f.st.AssumeCond(c, true)
	return true
}

// dominatedBound tells whether a branch that dominates the access at in
// established 0 <= index < ln.
func (a *activation) dominatedBound(f *frame, in ssa.Instruction, idx, ln Val) bool {
	var iv ssa.Value
	switch x := in.(type) {
	case *ssa.IndexAddr:
		iv = x.Index
	case *ssa.Index:
		iv = x.Index
	case *ssa.Lookup:
		iv = x.Index
	}
	if iv == nil {
		return false
	}
	switch ln.(type) {
	case *Sym, *Const:
	default:
		return false
	}
	if !a.nonNegative(f, iv, idx) {
		return false
	}
	for d := in.Block(); d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		truth := p.Succs[0] == d
		x, y, op := c.X, c.Y, c.Op
		if y == iv {
			x, y = y, x
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
		}
		if x != iv || !(op == token.LSS && truth || op == token.GEQ && !truth) {
			continue
		}
		if v := a.get(f, y); v != nil && v.Key() == ln.Key() {
			return true
		}
	}
	return false
}

// nonNegative tells whether an index is never negative.
func (a *activation) nonNegative(f *frame, iv ssa.Value, idx Val) bool {
	if n, ok := f.st.lower(idx); ok && n >= 0 {
		return true
	}
	var up func(v ssa.Value, min int64, seen map[ssa.Value]bool) bool
	up = func(v ssa.Value, min int64, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value != nil && x.Value.Kind() == constant.Int && x.Int64() >= min
		case *ssa.Phi:
			seen[v] = true
			for _, e := range x.Edges {
				if !up(e, min, seen) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			if k, ok := x.Y.(*ssa.Const); ok && x.Op == token.ADD && k.Value != nil && k.Int64() >= 0 {
				if seen[x.X] {
					return true
				}
				return up(x.X, min-k.Int64(), seen)
			}
		}
		return false
	}
	return up(iv, 0, map[ssa.Value]bool{})
}

// cutOf tells whether idx is the position of a byte found in v.
func (s *State) cutOf(v *Sym, idx Val, plus int64) bool {
	y, ok := idx.(*Sym)
	if !ok {
		return false
	}
	if y.Op == "+" && len(y.Args) == 2 {
		for k := 0; k < 2; k++ {
			if n, ok := ConstInt(y.Args[k]); ok && n >= 0 && n <= plus {
				return s.cutOf(v, y.Args[1-k], plus-n)
			}
		}
		return false
	}
	switch y.Op {
	case "strings.IndexByte", "bytes.IndexByte", "strings.LastIndexByte", "bytes.LastIndexByte":
	default:
		return false
	}
	if len(y.Args) == 0 || stripCopy(y.Args[0]).Key() != stripCopy(v).Key() {
		return false
	}
	n, ok := s.lower(y)
	return ok && n >= 0 || s.Fact(y.ID).Ne[Int(-1).Key()]
}

func stripCopy(v Val) Val {
	for {
		y, ok := v.(*Sym)
		if !ok || len(y.Args) != 1 || y.Op != "copy" && y.Op != "alias" && y.Op != "string" {
			return v
		}
		v = y.Args[0]
	}
}

func (a *activation) execSlice(n *node, in *ssa.Slice, f *frame) []*frame {
	x := a.get(f, in.X)
	var lo, hi, mx Val
	if in.Low != nil {
		lo = a.get(f, in.Low)
	} else {
		lo = Int(0)
	}
	if in.High != nil {
		hi = a.get(f, in.High)
	}
	if in.Max != nil {
		mx = a.get(f, in.Max)
	}
	set := func(v Val) []*frame { f.regs[in] = v; return []*frame{f} }
	st := f.st
	res := func(v Val) Val {
		if str, ok := ConstStr(v); ok {
			l, ok1 := ConstInt(lo)
			h := int64(len(str))
			ok2 := true
			if hi != nil {
				h, ok2 = ConstInt(hi)
			}
			if ok1 && ok2 {
				if l < 0 || h > int64(len(str)) || l > h {
					a.panicAt(f, in, "slice bounds out of range")
					return nil
				}
				if _, isB := v.(*Bytes); isB {
					return &Bytes{S: str[l:h]}
				}
				return &Const{T: in.Type(), V: constant.MakeString(str[l:h])}
			}
			return &Top{T: in.Type(), Prov: ProvAll(lo, hi0(hi))}
		}
		switch v := v.(type) {
		case *Ptr: // array
			c := st.LoadPtr(v)
			var ln Val
			switch c := c.(type) {
			case *Agg:
				ln = Int(int64(len(c.Elems)))
			default:
				if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
					if at, ok := pt.Elem().Underlying().(*types.Array); ok {
						ln = Int(at.Len())
					}
				}
			}
			if ln == nil {
				return &Top{T: in.Type(), Prov: ProvAll(c)}
			}
			base := &Slice{T: in.Type(), Obj: v.Obj, Path: v.Path, Len: ln, Cap: ln}
			return a.reslice(f, in, base, lo, hi, mx)
		case *Slice:
			return a.reslice(f, in, v, lo, hi, mx)
		case *Const: // nil
			if l, ok := ConstInt(lo); ok && l == 0 {
				if hi == nil {
					return v
				}
				if h, ok := ConstInt(hi); ok && h == 0 {
					return v
				}
			}
			a.panicAt(f, in, "slice bounds out of range of a nil slice")
			return nil
		case *Sym:
			if l, ok := ConstInt(lo); ok && l == 0 && hi == nil {
				return v
			}
			h := hi
			if h == nil {
				h = st.Len(v)
			}
			okLo, okHi := st.cutOf(v, lo, 1), hi == nil || st.cutOf(v, h, 1)
			if l, ok := ConstInt(lo); ok && l == 0 {
				okLo = true
			} else if okLo && hi != nil {
				okLo = false
			}
			if n, ok := st.lower(st.Len(v)); ok {
				if l, ok := ConstInt(lo); ok && l >= 0 && l <= n && hi == nil {
					okLo = true
				}
				if q, ok := ConstInt(h); ok && q >= 0 && q <= n {
					okHi = true
					if l, ok := ConstInt(lo); ok && l >= 0 && l <= q {
						okLo = true
					}
				}
			}
			if a.e.OnMayPanic != nil && !(okLo && okHi) {
				a.e.OnMayPanic(st, a.fn, a.e.Prog.Fset.Position(instrPos(in)), "slice", v, lo, h)
			}
			return Term(in.Type(), "slice", v, lo, h)
		}
		return &Top{T: in.Type(), Prov: ProvAll(v)}
	}
	if s, ok := x.(*Set); ok {
		var alts []Val
		for _, v := range s.Alts {
			if r := res(v); r != nil {
				alts = append(alts, r)
			}
		}
		if len(alts) == 0 {
			return nil
		}
		return set(mkSet(alts))
	}
	r := res(x)
	if r == nil {
		return nil
	}
	return set(r)
}

func hi0(v Val) Val {
	if v == nil {
		return Int(0)
	}
	return v
}

func (a *activation) reslice(f *frame, in *ssa.Slice, v *Slice, lo, hi, mx Val) Val {
	if hi == nil {
		hi = v.Len
	}
	l, ok1 := ConstInt(lo)
	h, ok2 := ConstInt(hi)
	if ok1 && l < 0 || ok2 && h < 0 {
		a.panicAt(f, in, "slice bounds out of range")
		return nil
	}
	if c, ok := ConstInt(v.Cap); ok && ok2 && h > c {
		a.panicAt(f, in, "slice bounds out of range")
		return nil
	}
	if ok1 && ok2 && l > h {
		a.panicAt(f, in, "slice bounds out of range")
		return nil
	}
	if !ok1 {
		return &Top{T: in.Type(), Prov: ProvAll(f.st.sel(f.st.LoadPtr(&Ptr{Obj: v.Obj, Path: v.Path}), Star))}
	}
	cp := v.Cap
	if mx != nil {
		cp = mx
	}
	if c, ok := ConstInt(cp); ok {
		cp = Int(c - l)
	} else if l != 0 {
		cp = &Top{T: types.Typ[types.Int]}
	}
	var ln Val
	if ok2 {
		ln = Int(h - l)
	} else if l == 0 {
		ln = hi
	} else {
		ln = f.st.binop(token.SUB, hi, lo, types.Typ[types.Int])
	}
	return &Slice{T: in.Type(), Obj: v.Obj, Path: v.Path, Off: v.Off + int(l), Len: ln, Cap: cp}
}

func (a *activation) mapUpdate(f *frame, m, k, v Val) {
	do := func(p *Ptr, weak bool) {
		c, ok := f.st.LoadPtr(p).(*Map)
		if !ok {
			return
		}
		n := &Map{T: c.T, Exact: c.Exact, Sym: c.Sym, Keys: append([]Val(nil), c.Keys...), Vals: append([]Val(nil), c.Vals...)}
		for i, x := range n.Keys {
			if x.Key() == k.Key() {
				if weak {
					n.Vals[i] = joinStruct(n.Vals[i], v)
				} else {
					n.Vals[i] = v
				}
				f.st.StorePtr(p, n, false)
				return
			}
		}
		if weak {
			n.Exact = false
		}
		switch k.(type) {
		case *Const, *Agg, *Iface, *Sym:
		default:
			if same, ok := ConstBool(f.st.cmpEq(k, k)); !ok || !same {
				n.Exact = false
			}
		}
		if len(n.Keys) > 64 {
			n.Exact = false
		}
		n.Keys = append(n.Keys, k)
		n.Vals = append(n.Vals, v)
		f.st.StorePtr(p, n, false)
		if a.e.OnMapUpdate != nil {
			a.e.OnMapUpdate(f.st, p, k, v)
		}
	}
	switch m := m.(type) {
	case *Ptr:
		do(m, false)
	case *Set:
		for _, x := range m.Alts {
			if p, ok := x.(*Ptr); ok {
				do(p, true)
			}
		}
	case *Sym:
		p := f.st.mapObj(m)
		do(p, false)
	}
}

// mapObj materialises a symbolic map.
func (s *State) mapObj(m *Sym) *Ptr {
	obj := "{}" + m.ID
	if _, ok := s.root(obj); !ok {
		mt, _ := m.T.Underlying().(*types.Map)
		s.heap.set(obj, &Map{T: mt, Sym: m.ID})
	}
	return &Ptr{Obj: obj}
}

func (a *activation) lookup(f *frame, in *ssa.Lookup) []*frame {
	x, k := a.get(f, in.X), a.get(f, in.Index)
	st := f.st
	if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap { // string index
		if !a.boundsOK(f, in, x, k) {
			return nil
		}
		if str, ok := ConstStr(x); ok {
			if i, ok := ConstInt(k); ok {
				f.regs[in] = &Const{T: in.Type(), V: constant.MakeInt64(int64(str[i]))}
				return []*frame{f}
			}
			if _, ok := k.(*Sym); ok {
				f.regs[in] = Term(in.Type(), "index", x, k)
				return []*frame{f}
			}
			f.regs[in] = &Top{T: in.Type(), Prov: ProvAll(k)}
			return []*frame{f}
		}
		if y, ok := x.(*Sym); ok {
			n := "[*]"
			if i, ok := ConstInt(k); ok {
				n = fmt.Sprintf("[%d]", i)
			} else if ks, ok := k.(*Sym); ok {
				n = "[" + ks.ID + "]"
			}
			f.regs[in] = st.resolve(SymSel(y, n, types.Typ[types.Byte]))
			return []*frame{f}
		}
		f.regs[in] = &Top{T: in.Type(), Prov: ProvAll(x, k)}
		return []*frame{f}
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	out := func(g *frame, v Val, ok Val) *frame {
		if in.CommaOk {
			g.regs[in] = &Tuple{Elems: []Val{v, ok}}
		} else {
			g.regs[in] = v
		}
		return g
	}
	if ks, ok := k.(*Set); ok {
		var frames []*frame
		for _, alt := range ks.Alts {
			g := f.clone()
			frames = append(frames, a.lookupIn(g, in, x, alt, vt, out)...)
		}
		return frames
	}
	return a.lookupIn(f, in, x, k, vt, out)
}

func (a *activation) lookupIn(f *frame, in *ssa.Lookup, x, k Val, vt types.Type, out func(*frame, Val, Val) *frame) []*frame {
	switch m := x.(type) {
	case *Const:
		return []*frame{out(f, Zero(vt), Bool(false))}
	case *Sym:
		return a.lookupIn(f, in, f.st.mapObj(m), k, vt, out)
	case *Set:
		var frames []*frame
		for _, alt := range m.Alts {
			frames = append(frames, a.lookupIn(f.clone(), in, alt, k, vt, out)...)
		}
		return frames
	case *Ptr:
		a.reads(f.st, in, "lookup", m, in.X.Type())
		c, ok := f.st.LoadPtr(m).(*Map)
		if !ok {
			break
		}
		var frames []*frame
		rest := f
		for i := len(c.Keys) - 1; i >= 0; i-- { // a later entry hides one that may be equal
			key := c.Keys[i]
			eq := rest.st.cmpEq(key, k)
			if b, ok := ConstBool(eq); ok {
				if b {
					if c.Exact || c.Sym != "" {
						return append(frames, out(rest, c.Vals[i], Bool(true)))
					}
					frames = append(frames, out(rest.clone(), c.Vals[i], Bool(true)))
				}
				continue
			}
			g := rest.clone()
			yes, no := g.st.AssumeCond(eq, true), rest.st.AssumeCond(eq, false)
			if a.e.PathSensitive && yes && no {
				k := fmt.Sprintf("%s%s%d", FnName(a.fn), in.Name(), i)
				g.st.Ghost["~"] += k + "K "
				rest.st.Ghost["~"] += k + "N "
			}
			if yes {
				frames = append(frames, out(g, c.Vals[i], Bool(true)))
			}
			if !no {
				return frames
			}
		}
		if c.Sym != "" {
			ms := Atom(c.Sym, c.T)
			okc := Term(types.Typ[types.Bool], "has", ms, k)
			v := Val(&Sym{ID: c.Sym + "{" + k.Key() + "}", T: vt})
			if len(ProvAll(k)) > 0 {
				v = Term(vt, "lookup", ms, k)
			}
			yes := rest.clone()
			if yes.st.AssumeCond(okc, true) {
				if _, isPtr := vt.Underlying().(*types.Pointer); isPtr {
					if y, ok := v.(*Sym); ok {
						yes.st.updFact(y.ID, func(f *Fact) { f.NonNil = true })
					}
				}
				frames = append(frames, out(yes, v, Bool(true)))
			}
			if rest.st.AssumeCond(okc, false) {
				frames = append(frames, out(rest, Zero(vt), Bool(false)))
			}
			return frames
		}
		return append(frames, out(rest, Zero(vt), Bool(false)))
	}
	return []*frame{out(f, &Top{T: vt, Prov: ProvAll(x, k)}, &Top{T: types.Typ[types.Bool]})}
}

// implementsIn tells whether dynamic type dt satisfies a type assertion to t.
func satisfies(dt, t types.Type) bool {
	if it, ok := t.Underlying().(*types.Interface); ok {
		return types.Implements(dt, it)
	}
	return types.Identical(dt, t)
}

func (a *activation) typeAssert(f *frame, in *ssa.TypeAssert) []*frame {
	return a.assertVal(f, in, a.get(f, in.X))
}

func (a *activation) assertVal(f *frame, in *ssa.TypeAssert, x Val) []*frame {
	out := func(g *frame, v Val, ok Val) []*frame {
		if in.CommaOk {
			g.regs[in] = &Tuple{Elems: []Val{v, ok}}
		} else {
			g.regs[in] = v
		}
		return []*frame{g}
	}
	fail := func(g *frame, why string) []*frame {
		if in.CommaOk {
			return out(g, Zero(in.AssertedType), Bool(false))
		}
		a.panicAt(g, in, "type assertion to "+typeKey(in.AssertedType)+" fails: "+why)
		return nil
	}
	toIface := types.IsInterface(in.AssertedType)
	switch x := x.(type) {
	case *Const:
		return fail(f, "nil interface")
	case *Iface:
		if satisfies(x.Dyn, in.AssertedType) {
			if toIface {
				return out(f, x, Bool(true))
			}
			return out(f, x.V, Bool(true))
		}
		return fail(f, "dynamic type "+typeKey(x.Dyn))
	case *Set:
		var frames []*frame
		for _, alt := range x.Alts {
			frames = append(frames, a.assertVal(f.clone(), in, alt)...)
		}
		return frames
	case *Sym:
		ft := f.st.Fact(x.ID)
		if ft.Dyn != nil {
			if satisfies(ft.Dyn, in.AssertedType) {
				if toIface {
					return out(f, x, Bool(true))
				}
				return out(f, &Sym{ID: x.ID, T: ft.Dyn, Op: x.Op, Args: x.Args, dep: x.dep}, Bool(true))
			}
			return fail(f, "dynamic type "+typeKey(ft.Dyn))
		}
		if ft.NotDyn[typeKey(in.AssertedType)] {
			return fail(f, "excluded")
		}
		if toIface {
			if types.Implements(x.T, in.AssertedType.Underlying().(*types.Interface)) && ft.NonNil {
				return out(f, x, Bool(true))
			}
		}
		var frames []*frame
		yes := f.clone()
		if toIface {
			id := "is:" + typeKey(in.AssertedType)
			c := Term(types.Typ[types.Bool], id, x)
			if cs, ok := c.(*Sym); ok {
				if b, ok := ConstBool(f.st.resolve(cs)); ok {
					if b {
						return out(f, x, Bool(true))
					}
					return fail(f, "excluded")
				}
			}
			yes.st.AssumeCond(c, true)
			yes.st.updFact(x.ID, func(f *Fact) { f.NonNil = true })
			frames = append(frames, out(yes, x, Bool(true))...)
			f.st.AssumeCond(c, false)
		} else {
			yes.st.AssumeDyn(x.ID, in.AssertedType)
			frames = append(frames, out(yes, &Sym{ID: x.ID, T: in.AssertedType, Op: x.Op, Args: x.Args, dep: x.dep}, Bool(true))...)
			f.st.updFact(x.ID, func(ft *Fact) {
				if ft.NotDyn == nil {
					ft.NotDyn = map[string]bool{}
				}
				ft.NotDyn[typeKey(in.AssertedType)] = true
			})
		}
		return append(frames, fail(f, "unknown dynamic type of "+x.ID)...)
	}
	yes := f.clone()
	frames := out(yes, &Top{T: in.AssertedType, Prov: ProvAll(x)}, Bool(true))
	return append(frames, fail(f, "unknown")...)
}

func (a *activation) next(f *frame, in *ssa.Next) []*frame {
	p, ok := a.get(f, in.Iter).(*Ptr)
	tup := in.Type().(*types.Tuple)
	mk := func(ok, k, v Val) *Tuple { return &Tuple{Elems: []Val{ok, k, v}} }
	done := mk(Bool(false), Zero(tup.At(1).Type()), Zero(tup.At(2).Type()))
	unknown := func() []*frame {
		g := f.clone()
		g.regs[in] = done
		f.regs[in] = mk(Bool(true), &Top{T: tup.At(1).Type()}, &Top{T: tup.At(2).Type()})
		return []*frame{f, g}
	}
	if !ok {
		return unknown()
	}
	ag, ok := f.st.LoadPtr(p).(*Agg)
	if !ok {
		return unknown()
	}
	x := ag.Elems[0]
	pos, known := ConstInt(ag.Elems[1])
	bump := func() {
		if known && pos < 200 {
			f.st.StorePtr(p, &Agg{Elems: []Val{x, Int(pos + 1)}}, false)
		}
	}
	if in.IsString {
		if str, ok := ConstStr(x); ok && known {
			if pos >= int64(len(str)) {
				f.regs[in] = done
				return []*frame{f}
			}
			r := []rune(str[pos:])[0]
			w := len(string(r))
			f.st.StorePtr(p, &Agg{Elems: []Val{x, Int(pos + int64(w))}}, false)
			f.regs[in] = mk(Bool(true), Int(pos), &Const{T: types.Typ[types.Rune], V: constant.MakeInt64(int64(r))})
			return []*frame{f}
		}
		if y, ok := x.(*Sym); ok && known && pos <= int64(a.e.Peel) {
			c := f.st.cmpLess(Int(pos), f.st.Len(y))
			g := f.clone()
			var frames []*frame
			if f.st.AssumeCond(c, true) {
				bump()
				f.regs[in] = mk(Bool(true), Int(pos), SymSel(y, fmt.Sprintf("[%d]", pos), types.Typ[types.Rune]))
				frames = append(frames, f)
			}
			if g.st.AssumeCond(c, false) {
				g.regs[in] = done
				frames = append(frames, g)
			}
			return frames
		}
		g := f.clone()
		g.regs[in] = done
		f.regs[in] = mk(Bool(true), &Top{T: types.Typ[types.Int]}, &Top{T: types.Typ[types.Rune], Prov: ProvAll(x)})
		return []*frame{f, g}
	}
	// maps
	switch m := x.(type) {
	case *Const:
		f.regs[in] = done
		return []*frame{f}
	case *Sym:
		x = f.st.mapObj(m)
	}
	mp, ok := x.(*Ptr)
	if !ok {
		return unknown()
	}
	a.reads(f.st, in, "range", mp, in.Iter.(*ssa.Range).X.Type())
	c, ok := f.st.LoadPtr(mp).(*Map)
	if !ok {
		return unknown()
	}
	if c.Exact && known {
		if pos >= int64(len(c.Keys)) {
			f.regs[in] = done
			return []*frame{f}
		}
		bump()
		if len(c.Keys) == 1 {
			f.regs[in] = mk(Bool(true), c.Keys[0], c.Vals[0])
			return []*frame{f}
		}
		if a.e.MapPerm != nil {
			if perm := a.e.MapPerm(a.fn, in, len(c.Keys)); perm != nil {
				i := perm[pos]
				f.regs[in] = mk(Bool(true), c.Keys[i], c.Vals[i])
				return []*frame{f}
			}
		}
		// the iteration order is unspecified
		f.regs[in] = mk(Bool(true), mkSet(c.Keys), mkSet(c.Vals))
		if a.e.OnMapOrder != nil {
			a.e.OnMapOrder(f.st, a.fn, in)
		}
		return []*frame{f}
	}
	if c.Sym != "" {
		kt, vt := c.T.Key(), c.T.Elem()
		idx := "*"
		if known && pos < int64(a.e.Peel) {
			idx = fmt.Sprint(pos)
		}
		key := &Sym{ID: fmt.Sprintf("%s.key#%s", c.Sym, idx), T: kt}
		val := &Sym{ID: fmt.Sprintf("%s{$%s}", c.Sym, key.ID), T: vt}
		lv := Term(vt, "lookup", Atom(c.Sym, c.T), key)
		if y, ok := lv.(*Sym); ok {
			val = y
		}
		f.st.updFact(val.ID, func(f *Fact) { f.NonNil = true })
		var frames []*frame
		cond := Val(&Sym{ID: fmt.Sprintf("more(%s,%s)", c.Sym, idx), T: types.Typ[types.Bool], Op: "more"})
		if idx != "*" {
			cond = f.st.cmpLess(Int(pos), f.st.Len(mp))
		}
		g := f.clone()
		if b, ok := ConstBool(cond); !ok || b {
			if idx == "*" || f.st.AssumeCond(cond, true) {
				f.st.AssumeCond(Term(types.Typ[types.Bool], "has", Atom(c.Sym, c.T), key), true)
				bump()
				f.regs[in] = mk(Bool(true), key, val)
				frames = append(frames, f)
				if a.e.OnMapOrder != nil {
					a.e.OnMapOrder(f.st, a.fn, in)
				}
			}
		}
		if b, ok := ConstBool(cond); !ok || !b {
			if idx == "*" || g.st.AssumeCond(cond, false) {
				g.regs[in] = done
				frames = append(frames, g)
			}
		}
		return frames
	}
	g := f.clone()
	g.regs[in] = done
	if len(c.Keys) == 0 {
		return []*frame{g}
	}
	f.regs[in] = mk(Bool(true), mkSet(c.Keys), mkSet(c.Vals))
	return []*frame{f, g}
}

func (a *activation) selectInstr(f *frame, in *ssa.Select) []*frame {
	var frames []*frame
	mk := func(g *frame, i int) {
		t := &Tuple{Elems: []Val{Int(int64(i)), &Top{T: types.Typ[types.Bool]}}}
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				t.Elems = append(t.Elems, &Top{T: s.Chan.Type().Underlying().(*types.Chan).Elem()})
			}
		}
		g.regs[in] = t
		frames = append(frames, g)
	}
	if a.e.OnSelect != nil {
		if idx, ok := a.e.OnSelect(f.st, a.fn, in, func(v ssa.Value) Val { return a.get(f, v) }); ok {
			for _, i := range idx {
				mk(f.clone(), i)
			}
			return frames
		}
	}
	for i := range in.States {
		mk(f.clone(), i)
	}
	if !in.Blocking {
		mk(f.clone(), -1)
	}
	return frames
}

// IsNilCond is the abstract result of v == nil.
func (s *State) IsNilCond(v Val) Val { return s.cmpEq(v, NilOf(ValType(v))) }

// BaseOf is the pointer, slice or array access an address is formed from.
func BaseOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

func baseType(v ssa.Value) types.Type { return BaseOf(v).Type() }

// Equal is the abstract result of x == y.
func (s *State) Equal(x, y Val) Val { return s.cmpEq(s.resolve(x), s.resolve(y)) }

func (a *activation) alloc(st *State, in ssa.Instruction, kind string, size Val) {
	if a.e.OnAlloc != nil {
		a.e.OnAlloc(st, a.fn, a.e.Prog.Fset.Position(in.Pos()), kind, st.resolve(size))
	}
}
