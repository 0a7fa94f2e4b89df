package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// poly is a polynomial over symbolic quantities: coefficients by monomial,
// where a monomial is a sorted list of quantities joined by "*".
type poly map[string]*big.Rat

// quantity is what is known about a symbolic quantity. Those of a higher
// level are infinitely larger than those of a lower one.
type quantity struct {
	sign  int // +1, -1, or 0 if it is not known
	level int
}

// polys is a domain of real numbers: values are polynomials over quantities
// of known or unknown sign, which are otherwise unrelated. The order of two
// values is decided if the sign of every dominating monomial of their
// difference is known.
type polys struct {
	known map[string]quantity
	vals  map[string]poly
	cells map[string]cell // quantities that are rounded polynomials
	seed  uint32
}

// cell is a rounded number. Numbers that are as far apart as width have
// different cells.
type cell struct {
	of    poly
	how   string
	width int64
}

func newPolys() *polys {
	return &polys{map[string]quantity{}, map[string]poly{}, map[string]cell{}, 0}
}

// spread is a level below n, so that most products of quantities have
// levels of their own and their sums known signs.
func (d *polys) spread(n int) int {
	d.seed = d.seed*1664525 + 1013904223
	if n == 0 {
		return 0
	}
	return int(d.seed>>4) % n
}

var float32Type = types.Typ[types.Float32]

func (d *polys) quantity(name string, sign, level int) poly {
	d.known[name] = quantity{sign, level}
	return poly{name: big.NewRat(1, 1)}
}

func whole(n int64) poly {
	if n == 0 {
		return poly{}
	}
	return poly{"": big.NewRat(n, 1)}
}

func (p poly) plus(q poly, f int64) poly {
	out := poly{}
	for k, c := range p {
		out[k] = new(big.Rat).Set(c)
	}
	for k, c := range q {
		if out[k] == nil {
			out[k] = new(big.Rat)
		}
		out[k].Add(out[k], new(big.Rat).Mul(c, big.NewRat(f, 1)))
		if out[k].Sign() == 0 {
			delete(out, k)
		}
	}
	return out
}

func (p poly) times(q poly) poly {
	out := poly{}
	for a, c := range p {
		for b, e := range q {
			m := monomial(append(strings.Split(a, "*"), strings.Split(b, "*")...))
			if out[m] == nil {
				out[m] = new(big.Rat)
			}
			out[m].Add(out[m], new(big.Rat).Mul(c, e))
			if out[m].Sign() == 0 {
				delete(out, m)
			}
		}
	}
	return out
}

func monomial(vars []string) string {
	var l []string
	for _, v := range vars {
		if v != "" {
			l = append(l, v)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "*")
}

func (p poly) String() string {
	if len(p) == 0 {
		return "0"
	}
	var l []string
	for _, k := range sortedKeys(p) {
		c := p[k].RatString()
		switch {
		case k == "":
			l = append(l, c)
		case c == "1":
			l = append(l, k)
		default:
			l = append(l, c+"*"+k)
		}
	}
	return strings.Join(l, " + ")
}

// val is the abstract value of a polynomial.
func (d *polys) val(p poly, t types.Type) ai.Val {
	if len(p) == 0 {
		return &ai.Const{T: t, V: constant.MakeInt64(0)}
	}
	if c := p[""]; len(p) == 1 && c != nil {
		return &ai.Const{T: t, V: constant.Make(new(big.Rat).Set(c))}
	}
	id := "{" + p.String() + "}"
	d.vals[id] = p
	return &ai.Sym{ID: id, T: t}
}

// poly is the polynomial of an abstract value.
func (d *polys) poly(v ai.Val) (poly, bool) {
	switch v := v.(type) {
	case *ai.Const:
		if v.V == nil {
			return nil, false
		}
		x := constant.ToFloat(v.V)
		if x.Kind() != constant.Float {
			return nil, false
		}
		r, ok := new(big.Rat).SetString(x.ExactString())
		if !ok {
			return nil, false
		}
		if r.Sign() == 0 {
			return poly{}, true
		}
		return poly{"": r}, true
	case *ai.Sym:
		if p, ok := d.vals[v.ID]; ok {
			return p, true
		}
	}
	return nil, false
}

// limit tells whether a value is beyond every quantity.
func limit(v ai.Val) int {
	if s, ok := v.(*ai.Sym); ok {
		switch s.ID {
		case "+infinity":
			return 2
		case "-infinity":
			return -2
		}
	}
	if c, ok := v.(*ai.Const); ok && c.V != nil {
		x, _ := constant.Float64Val(constant.ToFloat(c.V))
		if math.Abs(x) >= math.MaxFloat32 {
			if x < 0 {
				return -1
			}
			return 1
		}
	}
	return 0
}

// sign is the sign of a polynomial, if it is known.
func (d *polys) sign(p poly) (int, bool) {
	top, out, known := -1, 0, true
	for k, c := range p {
		level, s := 0, c.Sign()
		if k != "" {
			for _, v := range strings.Split(k, "*") {
				level += d.known[v].level
				s *= d.known[v].sign
			}
		}
		switch {
		case level > top:
			top, out, known = level, s, s != 0
		case level == top && (s == 0 || s != out):
			known = false
		}
	}
	return out, known
}

// Eq decides that different polynomials are different numbers.
func (d *polys) Eq(_ *ai.State, x, y ai.Val) ai.Val {
	if lx, ly := limit(x), limit(y); lx != 0 || ly != 0 {
		return ai.Bool(lx == ly)
	}
	p, ok1 := d.poly(x)
	q, ok2 := d.poly(y)
	if !ok1 || !ok2 {
		return nil
	}
	if len(p.plus(q, -1)) == 0 {
		return ai.Bool(true)
	}
	a, ok1 := d.cell(p)
	b, ok2 := d.cell(q)
	if ok1 && ok2 && a.how == b.how {
		diff := a.of.plus(b.of, -1)
		if c := diff[""]; len(diff) == 1 && c != nil && new(big.Rat).Abs(c).Cmp(big.NewRat(a.width, 1)) < 0 {
			return nil
		}
	}
	return ai.Bool(false)
}

func (d *polys) cell(p poly) (cell, bool) {
	for k, c := range p {
		x, ok := d.cells[k]
		return x, ok && len(p) == 1 && c.Cmp(big.NewRat(1, 1)) == 0
	}
	return cell{}, false
}

// Less decides the order of two numbers.
func (d *polys) Less(_ *ai.State, x, y ai.Val) ai.Val {
	if lx, ly := limit(x), limit(y); lx != 0 || ly != 0 {
		return ai.Bool(lx < ly)
	}
	p, ok1 := d.poly(x)
	q, ok2 := d.poly(y)
	if !ok1 || !ok2 {
		return nil
	}
	if s, ok := d.sign(q.plus(p, -1)); ok {
		return ai.Bool(s > 0)
	}
	return nil
}

// Bin computes sums, differences and products.
func (d *polys) Bin(_ *ai.State, op token.Token, x, y ai.Val, t types.Type) ai.Val {
	lx, ly := limit(x), limit(y)
	p, ok1 := d.poly(x)
	q, ok2 := d.poly(y)
	if op == token.SUB && ok1 && len(p) == 0 && ly != 0 {
		lx, ly = -ly, 0
		if lx*lx == 4 {
			return &ai.Sym{ID: fmt.Sprintf("%cinfinity", "- +"[lx/2+1]), T: t}
		}
	}
	if lx != 0 || ly != 0 || !ok1 || !ok2 {
		return nil
	}
	switch op {
	case token.ADD:
		return d.val(p.plus(q, 1), t)
	case token.SUB:
		return d.val(p.plus(q, -1), t)
	case token.MUL:
		return d.val(p.times(q), t)
	case token.QUO:
		if c := q[""]; len(q) == 1 && c != nil {
			return d.val(p.times(poly{"": new(big.Rat).Inv(c)}), t)
		}
	}
	return nil
}

// Convert leaves a number as it is. The integers of numbers of any size are
// unrelated to each other.
func (d *polys) Convert(_ *ai.State, x ai.Val, t types.Type) ai.Val {
	if s, ok := x.(*ai.Sym); ok {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return &ai.Sym{ID: b.Name() + s.ID, T: t}
		}
		return &ai.Sym{ID: s.ID, T: t}
	}
	return nil
}

// intercept models the functions of math over the domain.
func (d *polys) intercept(c *ai.CallCtx) ([]ai.Out, bool) {
	if c.Fn == nil || c.Fn.Pkg == nil || c.Fn.Pkg.Pkg.Path() != "math" {
		return nil, false
	}
	one := func(v ai.Val) ([]ai.Out, bool) { return []ai.Out{{St: c.St, Res: v}}, true }
	f64 := types.Typ[types.Float64]
	switch c.Fn.Name() {
	case "Inf":
		if n, ok := ai.ConstInt(c.Args[0]); ok {
			id := "+infinity"
			if n < 0 {
				id = "-infinity"
			}
			return one(&ai.Sym{ID: id, T: f64})
		}
	case "IsNaN":
		return one(ai.Bool(false))
	case "IsInf":
		return one(ai.Bool(limit(c.Args[0])/2 != 0))
	case "Min", "Max":
		x, y := c.Args[0], c.Args[1]
		if c.Fn.Name() == "Max" {
			x, y = y, x
		}
		if b, ok := ai.ConstBool(orNil(d.Less(c.St, x, y))); ok {
			if b {
				return one(c.Args[0])
			}
			return one(c.Args[1])
		}
		return []ai.Out{{St: c.St.Clone(), Res: c.Args[0]}, {St: c.St, Res: c.Args[1]}}, true
	case "Floor", "Ceil", "Round", "RoundToEven", "Trunc":
		p, ok := d.poly(c.Args[0])
		if !ok {
			return nil, false
		}
		if len(p) == 0 || len(p) == 1 && p[""] != nil {
			return one(d.val(poly{}.plus(rounded(p, c.Fn.Name()), 1), f64))
		}
		x := cell{p, c.Fn.Name(), 1}
		if x.how == "Trunc" {
			x.width = 2
		}
		id := strings.ReplaceAll(fmt.Sprintf("%s(%s)", x.how, p), "*", "·")
		d.cells[id] = x
		return one(d.val(d.quantity(id, 0, 0), f64))
	case "Abs":
		p, ok := d.poly(c.Args[0])
		if s, known := d.sign(p); ok && known {
			if s < 0 {
				p = poly{}.plus(p, -1)
			}
			return one(d.val(p, f64))
		}
	}
	return nil, false
}

func orNil(v ai.Val) ai.Val {
	if v == nil {
		return &ai.Top{T: types.Typ[types.Bool]}
	}
	return v
}

// engine is an engine that computes with the domain.
func (d *polys) engine(r *Report) *ai.Engine {
	e := r.W.Engine()
	e.PathSensitive, e.MaxParts, e.TrackNarrow = true, 512, true
	e.Peel, e.WidenAfter, e.MaxRec = 64, 100, 8
	e.Floats = d
	e.Intercept = d.intercept
	e.MapPerm = func(_ *ssa.Function, _ *ssa.Next, n int) []int { return permutation(n, 0) }
	return e
}

func (d *polys) show(v ai.Val) string {
	if p, ok := d.poly(v); ok {
		return p.String()
	}
	return fmt.Sprint(short(v))
}

// rounded is a constant without its fraction.
func rounded(p poly, how string) poly {
	x := p[""]
	if x == nil || x.IsInt() {
		return p
	}
	floor := new(big.Int).Div(x.Num(), x.Denom())
	if x.Sign() < 0 && new(big.Int).Mul(floor, x.Denom()).Cmp(x.Num()) > 0 {
		floor.Sub(floor, big.NewInt(1))
	}
	up := false
	switch frac := new(big.Rat).Sub(x, new(big.Rat).SetInt(floor)); how {
	case "Ceil":
		up = true
	case "Trunc":
		up = x.Sign() < 0
	case "Round", "RoundToEven":
		c := frac.Cmp(big.NewRat(1, 2))
		up = c > 0 || c == 0 && (how == "Round" && x.Sign() > 0 || how == "RoundToEven" && floor.Bit(0) == 1)
	}
	if up {
		floor.Add(floor, big.NewInt(1))
	}
	if floor.Sign() == 0 {
		return poly{}
	}
	return poly{"": new(big.Rat).SetInt(floor)}
}
