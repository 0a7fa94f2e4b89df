package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/ai"
)

// elementOf names the element that carries the attribute groups of a struct of
// the core model.
var elementOf = map[string]string{
	"Model": "model", "Resources": "resources", "Build": "build", "Item": "item", "Object": "object", "Mesh": "mesh",
	"Vertices": "vertices", "Triangles": "triangles", "Triangle": "triangle", "Components": "components",
	"Component": "component", "MetadataGroup": "metadatagroup", "BaseMaterials": "basematerials", "Base": "base",
}

// extension describes what a package contributes to a model.
type extension struct {
	pkg, ns string
	assets  []types.Type          // types of resources
	elems   []types.Type          // types of extension elements
	groups  map[string]types.Type // element name -> type of its attribute group
}

// extension finds the exported types of an extension package.
func (w *World) extension(rel, ns string) (*extension, error) {
	x := &extension{pkg: rel, ns: ns, groups: map[string]types.Type{}}
	p := w.P.Pkg(rel)
	asset := w.Type("", "Asset")
	marsh := w.Type("spec", "Marshaler")
	group := w.Type("spec", "AttrGroup")
	if p == nil || asset == nil || marsh == nil || group == nil {
		return nil, fmt.Errorf("package %s or the interfaces Asset, Marshaler, AttrGroup not found", rel)
	}
	is := func(t, it types.Type) bool {
		return types.Implements(types.NewPointer(t), it.Underlying().(*types.Interface))
	}
	var names []string
	for n, m := range p.Members {
		if _, ok := m.(*ssa.Type); ok && m.Object().Exported() {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		t := p.Members[n].Type()
		if _, ok := t.Underlying().(*types.Struct); !ok || !is(t, marsh) {
			continue
		}
		switch {
		case is(t, group):
		case is(t, asset):
			x.assets = append(x.assets, t)
		default:
			x.elems = append(x.elems, t)
		}
	}
	f := w.Func("spec", "NewAttrGroup")
	if f == nil {
		return nil, fmt.Errorf("spec.NewAttrGroup not found")
	}
	for _, el := range elementOf {
		e := w.Engine()
		nt := f.Signature.Params().At(1).Type()
		name := &ai.Agg{T: nt, Elems: []ai.Val{ai.Str(nsCore), ai.Str(el)}}
		outs := e.Call(e.NewState(), f, []ai.Val{ai.Str(ns), name}, nil, "NewAttrGroup", nil)
		if len(outs) != 1 {
			return nil, fmt.Errorf("spec.NewAttrGroup(%s, %s) has %d outcomes", ns, el, len(outs))
		}
		switch r := outs[0].St.Resolve(outs[0].Res).(type) {
		case *ai.Iface:
			pt, ok := r.Dyn.(*types.Pointer)
			if !ok {
				return nil, fmt.Errorf("spec.NewAttrGroup(%s, %s) is not a pointer", ns, el)
			}
			x.groups[el] = pt.Elem()
		default:
			if !ai.IsNil(r) {
				return nil, fmt.Errorf("spec.NewAttrGroup(%s, %s) is undecided", ns, el)
			}
		}
	}
	return x, nil
}

// mark tells whether a path is inside extension content.
func (x *extension) mark(p string) bool {
	return strings.Contains(p, "<"+x.pkg+">") || strings.Contains(p, ".Assets[") || strings.Contains(p, ".Any[") || strings.Contains(p, ".AnyAttr[")
}

// parentType is the type of the struct that holds the field at path p.
func (x *extension) give(r *Report) func(b *ModelBuilder, p string, t types.Type) (ai.Val, bool) {
	child := r.W.Type("", "ChildModel")
	return func(b *ModelBuilder, p string, t types.Type) (ai.Val, bool) {
		last := lastComp(p)
		switch {
		case p == "Model.Childs":
			c := b.New("Model.Childs{c}", b.Build("Model.Childs{c}", child))
			m := &ai.Map{T: t.Underlying().(*types.Map), Keys: []ai.Val{ai.Str("/3D/child.model")}, Vals: []ai.Val{c}, Exact: true}
			return b.New("Model.Childs", m), true
		case last == ".Assets":
			var vs []ai.Val
			for _, et := range x.assets {
				_, n := namedType(et)
				k := 3
				if !strings.HasPrefix(p, "Model.Resources") {
					k = 1
				}
				for i := 0; i < k; i++ {
					pt := types.NewPointer(et)
					ep := fmt.Sprintf("%s<%s>%s[%d]", p, x.pkg, n, i)
					vs = append(vs, &ai.Iface{Dyn: pt, V: b.New(ep, b.Build(ep, et))})
				}
			}
			return b.Slice(p, t, vs), true
		case last == ".Any" && strings.HasSuffix(p, ".Mesh.Any"):
			var vs []ai.Val
			for _, et := range x.elems {
				_, n := namedType(et)
				pt := types.NewPointer(et)
				ep := fmt.Sprintf("%s<%s>%s", p, x.pkg, n)
				vs = append(vs, &ai.Iface{Dyn: pt, V: b.New(ep, b.Build(ep, et))})
			}
			return b.Slice(p, t, vs), true
		case last == ".AnyAttr":
			el := elementOf[b.Owner()]
			et := x.groups[el]
			if et == nil {
				return nil, false
			}
			ep := fmt.Sprintf("%s<%s>", p, x.pkg)
			return b.Slice(p, t, []ai.Val{&ai.Iface{Dyn: types.NewPointer(et), V: b.New(ep, b.Build(ep, et))}}), true
		case strings.Contains(p, "<"+x.pkg+">") && last == ".Path" && t.Underlying() == types.Typ[types.String]:
			b.Leafs = append(b.Leafs, p)
			if b.Sh.Leaf(p) == 'z' && b.Owner() != "Texture2D" {
				return ai.Zero(t), true
			}
			return ai.Str("/3D/" + partName(strings.NewReplacer("<", "_", ">", "_").Replace(p)) + ".part"), true
		case strings.Contains(p, "<"+x.pkg+">") && last == ".UUID":
			// identifiers are mandatory
			b.Leafs = append(b.Leafs, p)
			return b.SymLeaf(b.Pfx+p, t, b.Sh.Leaf(p) != 'u'), true
		}
		return nil, false
	}
}

// extCheck decides the round trip of the content of one extension.
func (r *Report) extCheck(rel, ns string, lists func(p string) int) {
	if cfg := r.extConfig(rel, ns, lists); cfg != nil {
		r.codecCheck(cfg)
	}
}

func (r *Report) extConfig(rel, ns string, lists func(p string) int) *codecConfig {
	x, err := r.W.extension(rel, ns)
	if err != nil {
		r.Fail("undecided: extension", rel, "%v", err)
		return nil
	}
	if len(x.assets)+len(x.elems)+len(x.groups) == 0 {
		r.Fail("undecided: extension", rel, "package %s contributes no resource, element or attribute group", rel)
	}
	r.Count("resource types", len(x.assets))
	r.Count("extension element types", len(x.elems))
	r.Count("attribute groups", len(x.groups))
	return &codecConfig{
		give:  x.give(r),
		under: func(p string) bool { return strings.Contains(p, "<"+rel+">") },
		len: func(p string, n int) int {
			if strings.Contains(p, "<"+rel+">") {
				return n
			}
			if k := lists(p); k < n {
				return k
			}
			return n
		},
		skip: func(p string, t types.Type) bool {
			if x.mark(p) {
				return false
			}
			_, name := namedType(t)
			switch t.Underlying().(type) {
			case *types.Basic:
				return true
			case *types.Struct:
				return name == "Name" || name == "Triangle" || name == "Metadata"
			case *types.Array:
				return true
			}
			return false
		},
	}
}

func noLists(string) int { return 0 }

func objectLists(p string) int {
	if lastComp(p) == ".Objects" {
		return 3
	}
	return 0
}

func productionLists(p string) int {
	switch lastComp(p) {
	case ".Objects", ".Items", ".Component":
		return 3
	}
	return 0
}

func checkC05(r *Report) { r.extCheck("materials", nsMat, noLists) }
func checkC06(r *Report) { r.extCheck("beamlattice", nsBeam, objectLists) }
func checkC07(r *Report) { r.extCheck("slices", nsSlice, objectLists) }
func checkC08(r *Report) { r.extCheck("production", nsProd, productionLists) }

// checkC33 decides that every number with decimals is written with the
// precision that the user chose and read back as the same number.
func checkC33(r *Report) {
	cfgs := []*codecConfig{r.coreConfig(), r.extConfig("materials", nsMat, noLists), r.extConfig("beamlattice", nsBeam, objectLists), r.extConfig("slices", nsSlice, objectLists)}
	for _, c := range cfgs {
		if c != nil {
			c.floats = true
			r.codecCheck(c)
		}
	}
}
