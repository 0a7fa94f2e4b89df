package checks

import (
	"go/types"

	"verif/checker/ai"
	"verif/checker/load"
)

const errPkg = load.Module + "/errors"

var errorT = types.Universe.Lookup("error").Type()

// errSummary replaces error aggregation and wrapping by their nilness (their
// exact behaviour is property C17): wrapping keeps the error, appending is nil
// only when everything is nil.
func errSummary(c *ai.CallCtx) ([]ai.Out, bool) {
	if c.Fn == nil || c.Fn.Pkg == nil || c.Fn.Pkg.Pkg.Path() != errPkg || c.Fn.Signature.Recv() != nil {
		return nil, false
	}
	sg := c.Fn.Signature
	if sg.Results().Len() != 1 || !types.Identical(sg.Results().At(0).Type(), errorT) || sg.Params().Len() == 0 || !types.Identical(sg.Params().At(0).Type(), errorT) {
		return nil, false
	}
	st := c.St
	if !sg.Variadic() { // Wrap, WrapIndex, WrapPath
		return []ai.Out{{St: st, Res: c.Args[0]}}, true
	}
	ops := []ai.Val{c.Args[0]}
	el, ok := st.SliceElems(c.Args[1])
	if !ok {
		return nil, false
	}
	ops = append(ops, el...)
	list := ai.Val(nil)
	if i, ok := ops[0].(*ai.Iface); ok {
		if _, ok := i.Dyn.Underlying().(*types.Pointer); ok {
			list = i.V
		}
	}
	var decide func(st *ai.State, i int, non bool) []ai.Out
	decide = func(st *ai.State, i int, non bool) []ai.Out {
		if i < len(ops) {
			v := st.Resolve(ops[i])
			if s, ok := v.(*ai.Set); ok {
				nn, nl := false, false
				for _, a := range s.Alts {
					if ai.IsNil(a) {
						nl = true
					} else {
						nn = true
					}
				}
				var outs []ai.Out
				if nn {
					outs = append(outs, decide(st.Clone(), i+1, true)...)
				}
				if nl {
					outs = append(outs, decide(st, i+1, non)...)
				}
				return outs
			}
			switch b, known := ai.ConstBool(st.IsNilCond(v)); {
			case known && b:
				return decide(st, i+1, non)
			case known:
				return decide(st, i+1, true)
			}
			y, ok := v.(*ai.Sym)
			if !ok {
				return append(decide(st.Clone(), i+1, true), decide(st, i+1, non)...)
			}
			no := st.Clone()
			no.Assume(y.ID, ai.NilOf(errorT))
			st.NonNil(y.ID)
			return append(decide(st, i+1, true), decide(no, i+1, non)...)
		}
		if list != nil {
			if non && len(ops) > 1 {
				lt := c.Args[0].(*ai.Iface).Dyn.Underlying().(*types.Pointer).Elem()
				if k := fieldIndex(lt, "Errors"); k >= 0 {
					st.Ghost["errs "+list.Key()] = "1"
					st.SetRoot("errlist", &ai.Arr{Elem: errorT, M: map[int]ai.Val{0: ai.ErrAtom(st, "err:collected")}})
					st.StorePtr(st.FieldPtr(list, k), &ai.Slice{T: types.NewSlice(errorT), Obj: "errlist", Len: ai.Int(1), Cap: ai.Int(1)}, false)
				}
			}
			return []ai.Out{{St: st, Res: c.Args[0]}}
		}
		if non {
			return []ai.Out{{St: st, Res: ai.ErrAtom(st, "err:collected")}}
		}
		return []ai.Out{{St: st, Res: ai.NilOf(errorT)}}
	}
	return decide(st, 0, false), true
}

// chain combines interceptors.
func chain(fs ...func(*ai.CallCtx) ([]ai.Out, bool)) func(*ai.CallCtx) ([]ai.Out, bool) {
	return func(c *ai.CallCtx) ([]ai.Out, bool) {
		for _, f := range fs {
			if o, ok := f(c); ok {
				return o, true
			}
		}
		return nil, false
	}
}
