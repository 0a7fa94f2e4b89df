package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// unary interprets a method on a literal of its receiver.
type unary struct {
	outs  []ai.Out
	model ai.Val
	e     *ai.Engine
}

func (r *Report) onLiteral(pkg, typ, method string, x func(b *literal) any, setup func(e *ai.Engine)) (*unary, error) {
	fn := r.W.Method(pkg, typ, method)
	mt := r.W.Type(pkg, typ)
	if fn == nil || mt == nil {
		return nil, fmt.Errorf("%s.%s not found", typ, method)
	}
	return r.callOnLiteral(fn, mt, x, setup)
}

func (r *Report) callOnLiteral(fn *ssa.Function, mt types.Type, x func(b *literal) any, setup func(e *ai.Engine)) (*unary, error) {
	e := r.W.Engine()
	e.PathSensitive, e.MaxParts, e.TrackNarrow = true, 256, true
	e.Peel, e.WidenAfter, e.MaxRec = 64, 100, 8
	e.MapPerm = func(_ *ssa.Function, _ *ssa.Next, n int) []int { return permutation(n, 0) }
	panics := map[string]bool{}
	e.OnPanic = func(st *ai.State, fn *ssa.Function, pos token.Position, what string) {
		panics[fmt.Sprintf("%s in %s (%s)", what, fnLabel(fn), r.W.P.Pos(pos))] = true
	}
	if setup != nil {
		setup(e)
	}
	st := e.NewState()
	b := &literal{w: r.W, st: st, pfx: "m"}
	v := b.val(mt, x(b))
	if b.err != nil {
		return nil, b.err
	}
	st.SetRoot("subject", v)
	outs := e.Call(st, fn, []ai.Val{&ai.Ptr{Obj: "subject"}}, nil, fn.Name(), nil)
	r.engineFns(e)
	for k := range e.Limits {
		return nil, fmt.Errorf("the analysis reached a limit (%s)", k)
	}
	if len(outs) == 0 || len(panics) > 0 {
		return nil, fmt.Errorf("%d outcomes, panics %v", len(outs), sortedKeys(panics))
	}
	return &unary{outs, v, e}, nil
}

// c32Case lists identifiers; nil is an arbitrary one.
type c32Case struct {
	assets, objects []any
}

func checkC32(r *Report) {
	r.Rule("abstract interpretation of Resources.UnusedID on resources whose identifiers are arbitrary symbols or small and extreme numbers: on every path the result differs from zero and from every identifier")
	var cases []c32Case
	// arbitrary identifiers
	max := 3
	if r.Thorough() {
		max = 4
	}
	for n := 0; n <= max; n++ {
		for a := 0; a <= n; a++ {
			cases = append(cases, c32Case{make([]any, a), make([]any, n-a)})
		}
	}
	// some values
	values := []any{0, 1, 2, 3, 4, math.MaxUint32}
	for _, p := range values {
		for _, q := range values {
			for _, s := range values {
				for _, t := range values {
					cases = append(cases, c32Case{[]any{p, q}, []any{s, t}}, c32Case{[]any{p}, []any{q, s, t}}, c32Case{[]any{p, q, s}, []any{t}})
				}
			}
		}
	}
	// more of them
	for n := 5; n <= 9; n++ {
		for k := 0; k < 24; k++ {
			var c c32Case
			for i, v := range permutation(n, k*k+7*k) {
				if i%2 == 0 {
					c.assets = append(c.assets, v+1)
				} else {
					c.objects = append(c.objects, v+1)
				}
			}
			if k%3 == 1 {
				c.assets[k%len(c.assets)] = 0
			}
			if k%3 == 2 {
				c.objects[k%len(c.objects)] = n
			}
			cases = append(cases, c)
		}
		// with a gap, or two, or an extreme one
		for h := 1; h <= n+1; h++ {
			for g := h; g <= n+2; g++ {
				var ids []int
				for v := 1; v <= n+2; v++ {
					if v != h && v != g {
						ids = append(ids, v)
					}
				}
				if (h+g)%3 == 0 {
					ids = append(ids, math.MaxUint32)
				}
				var c c32Case
				for i, k := range permutation(len(ids), h*31+g*7) {
					if (i+h+g)%2 == 0 {
						c.assets = append(c.assets, ids[k])
					} else {
						c.objects = append(c.objects, ids[k])
					}
				}
				cases = append(cases, c)
			}
		}
	}
	kinds := []Dyn{{"", "BaseMaterials", nil}, {"materials", "ColorGroup", nil}, {"materials", "Texture2D", nil}, {"slices", "SliceStack", nil}, {"materials", "Texture2DGroup", nil}, {"materials", "CompositeMaterials", nil}, {"materials", "MultiProperties", nil}}
	t := types.Typ[types.Uint32]
	parallel(len(cases), func(i int) {
		c := cases[i]
		var ids []ai.Val
		id := func(b *literal, x any) any {
			var v ai.Val
			if x == nil {
				v = ai.Atom(fmt.Sprintf("id%d", len(ids)), t)
			} else {
				v = b.val(t, x)
			}
			ids = append(ids, v)
			return v
		}
		label := fmt.Sprintf("assets %v, objects %v", c.assets, c.objects)
		u, err := r.onLiteral("", "Resources", "UnusedID", func(b *literal) any {
			f := F{}
			var l L
			for j, x := range c.assets {
				k := kinds[(i+j)%len(kinds)]
				k.F = F{"ID": id(b, x)}
				l = append(l, k)
			}
			f["Assets"] = l
			l = nil
			for _, x := range c.objects {
				l = append(l, F{"ID": id(b, x)})
			}
			f["Objects"] = l
			return f
		}, nil)
		if err != nil {
			r.Fail("undecided: Resources.UnusedID", label, "proposing an identifier for %s: %v", label, err)
			return
		}
		for _, o := range u.outs {
			zero, known := ai.ConstBool(o.St.Equal(o.Res, ai.Zero(t)))
			r.Assert(known && !zero, "the identifier is not zero", "zero", label, "with %s the proposed identifier %s may be zero", label, shown(o.St, o.Res))
			for _, x := range ids {
				same, known := ai.ConstBool(o.St.Equal(o.Res, x))
				r.Assert(known && !same, "the identifier is not used", "used", label, "with %s the proposed identifier %s may be used already", label, shown(o.St, o.Res))
			}
		}
		r.Count("resources", 1)
	})
}
