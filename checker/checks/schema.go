package checks

import "strings"

// Namespaces of the 3MF specification.
const (
	nsCore   = "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"
	nsMat    = "http://schemas.microsoft.com/3dmanufacturing/material/2015/02"
	nsBeam   = "http://schemas.microsoft.com/3dmanufacturing/beamlattice/2017/02"
	nsSlice  = "http://schemas.microsoft.com/3dmanufacturing/slice/2015/07"
	nsProd   = "http://schemas.microsoft.com/3dmanufacturing/production/2015/06"
	nsXML    = "http://www.w3.org/XML/1998/namespace"
	nsFresh  = "http://example.org/unregistered"
	nsFresh2 = "http://example.org/another"
)

// AttrSpec is an attribute of the 3MF schema.
type AttrSpec struct {
	Space, Local string
	Kind         string // str u32 f32 bool enum matrix color uuid u32list f32list enumlist prefixes
	Enum         []string
}

// ElemSpec is an element of the 3MF schema.
type ElemSpec struct {
	Space, Local string
	Attrs        []AttrSpec
	Children     []*ElemSpec
	Text         bool
}

func (e *ElemSpec) attr(local string) *AttrSpec {
	for i := range e.Attrs {
		if e.Attrs[i].Local == local {
			return &e.Attrs[i]
		}
	}
	return nil
}

// at parses "name:kind[=a|b]" lists; a name "p:UUID" is in the namespace of
// prefix p.
func at(specs ...string) []AttrSpec {
	var out []AttrSpec
	for _, s := range specs {
		a := AttrSpec{}
		name, kind, _ := strings.Cut(s, " ")
		if p, l, ok := strings.Cut(name, ":"); ok {
			a.Space = map[string]string{"p": nsProd, "s": nsSlice, "xml": nsXML}[p]
			name = l
		}
		a.Local = name
		k, en, ok := strings.Cut(kind, "=")
		a.Kind = k
		if ok {
			a.Enum = strings.Split(en, "|")
		}
		out = append(out, a)
	}
	return out
}

func el(ns, local string, attrs []AttrSpec, children ...*ElemSpec) *ElemSpec {
	return &ElemSpec{Space: ns, Local: local, Attrs: attrs, Children: children}
}

const (
	enumUnit   = "enum=millimeter|micron|centimeter|inch|foot|meter"
	enumObj    = "enum=model|other|support|solidsupport|surface"
	enumTile   = "enum=wrap|mirror|clamp|none"
	enumFilter = "enum=auto|linear|nearest"
	enumTex    = "enum=image/png|image/jpeg"
	enumBlend  = "enumlist=mix|multiply"
	enumCap    = "enum=sphere|hemisphere|butt"
	enumClip   = "enum=none|inside|outside"
	enumRes    = "enum=fullres|lowres"
)

// Schema is the part of the 3MF schemas the library implements, written from
// the specifications.
func Schema() *ElemSpec {
	metadata := &ElemSpec{Space: nsCore, Local: "metadata", Attrs: at("name str", "preserve bool", "type str"), Text: true}
	group := el(nsCore, "metadatagroup", nil, metadata)
	lattice := el(nsBeam, "beamlattice", at("radius f32", "minlength f32", "precision f32", "clippingmode "+enumClip, "clipping "+enumClip, "clippingmesh u32", "representationmesh u32", "cap "+enumCap),
		el(nsBeam, "beams", nil, el(nsBeam, "beam", at("v1 u32", "v2 u32", "r1 f32", "r2 f32", "cap1 "+enumCap, "cap2 "+enumCap))),
		el(nsBeam, "beamsets", nil, el(nsBeam, "beamset", at("name str", "identifier str"), el(nsBeam, "ref", at("index u32")))))
	mesh := el(nsCore, "mesh", nil,
		el(nsCore, "vertices", nil, el(nsCore, "vertex", at("x f32", "y f32", "z f32"))),
		el(nsCore, "triangles", nil, el(nsCore, "triangle", at("v1 u32", "v2 u32", "v3 u32", "pid u32", "p1 u32", "p2 u32", "p3 u32"))),
		lattice)
	components := el(nsCore, "components", nil, el(nsCore, "component", at("objectid u32", "transform matrix", "p:UUID uuid", "p:path str")))
	object := el(nsCore, "object", at("id u32", "type "+enumObj, "thumbnail str", "partnumber str", "name str", "pid u32", "pindex u32", "s:slicestackid u32", "s:meshresolution "+enumRes, "p:UUID uuid"),
		group, mesh, components)
	resources := el(nsCore, "resources", nil,
		object,
		el(nsCore, "basematerials", at("id u32"), el(nsCore, "base", at("name str", "displaycolor color"))),
		el(nsMat, "texture2d", at("id u32", "path str", "contenttype "+enumTex, "tilestyleu "+enumTile, "tilestylev "+enumTile, "filter "+enumFilter)),
		el(nsMat, "texture2dgroup", at("id u32", "texid u32"), el(nsMat, "tex2coord", at("u f32", "v f32"))),
		el(nsMat, "colorgroup", at("id u32"), el(nsMat, "color", at("color color"))),
		el(nsMat, "compositematerials", at("id u32", "matid u32", "matindices u32list"), el(nsMat, "composite", at("values f32list"))),
		el(nsMat, "multiproperties", at("id u32", "pids u32list", "blendmethods "+enumBlend), el(nsMat, "multi", at("pindices u32list"))),
		el(nsSlice, "slicestack", at("id u32", "zbottom f32"),
			el(nsSlice, "slice", at("ztop f32"),
				el(nsSlice, "vertices", nil, el(nsSlice, "vertex", at("x f32", "y f32"))),
				el(nsSlice, "polygon", at("startv u32"), el(nsSlice, "segment", at("v2 u32", "pid u32", "p1 u32", "p2 u32")))),
			el(nsSlice, "sliceref", at("slicestackid u32", "slicepath str"))))
	build := el(nsCore, "build", at("p:UUID uuid"),
		el(nsCore, "item", at("objectid u32", "transform matrix", "partnumber str", "p:UUID uuid", "p:path str"), group))
	return el(nsCore, "model", at("unit "+enumUnit, "xml:lang str", "thumbnail str", "requiredextensions prefixes"),
		metadata, resources, build)
}

// Paths lists every element of the schema as the chain of its ancestors.
func (e *ElemSpec) Paths() [][]*ElemSpec {
	var out [][]*ElemSpec
	var rec func(p []*ElemSpec, e *ElemSpec)
	rec = func(p []*ElemSpec, e *ElemSpec) {
		p = append(append([]*ElemSpec(nil), p...), e)
		out = append(out, p)
		for _, c := range e.Children {
			rec(p, c)
		}
	}
	rec(nil, e)
	return out
}

func pathName(p []*ElemSpec) string {
	var s []string
	for _, e := range p {
		s = append(s, e.Local)
	}
	return strings.Join(s, "/")
}

// Chain builds a document that consists of the ancestors in p (without
// attributes) and, innermost, the last element with attrs and body.
func Chain(p []*ElemSpec, attrs []Attr, body ...[]Tok) []Tok {
	last := p[len(p)-1]
	doc := Elem(last.Space, last.Local, attrs, body...)
	for i := len(p) - 2; i >= 0; i-- {
		doc = Elem(p[i].Space, p[i].Local, nil, doc)
	}
	return doc
}

// goodText is a well-formed value of an attribute.
func goodText(a *AttrSpec) string {
	switch a.Kind {
	case "u32":
		return "7"
	case "f32":
		return "1.5"
	case "bool":
		return "true"
	case "enum":
		return a.Enum[len(a.Enum)-1]
	case "enumlist":
		return a.Enum[0] + " " + a.Enum[1]
	case "matrix":
		return "1 2 3 4 5 6 7 8 9 10 11 12"
	case "color":
		return "#0a1B2c3D"
	case "uuid":
		return "f47ac10b-58cc-4372-a567-0e02b2c3d479"
	case "u32list":
		return "1 2 3"
	case "f32list":
		return "0.5 0.25"
	case "prefixes":
		return ""
	}
	return "text"
}
