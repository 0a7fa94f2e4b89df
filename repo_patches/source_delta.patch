From 3ebedb6cde58845550f6322484ddd44f3347cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 01/47] fix: report errors of attribute groups and extension
 elements when encoding

---
 encoder.go | 126 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 93 insertions(+), 33 deletions(-)

diff --git a/encoder.go b/encoder.go
index 39c84f7..88916b5 100644
--- a/encoder.go
+++ b/encoder.go
@@ -243,12 +243,17 @@ func (e *Encoder) modelToken(x spec.Encoder, m *Model, isRoot bool) (xml.StartEl
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: attrReqExt}, Value: strings.Join(exts, " ")})
 	}
 	tm := xml.StartElement{Name: xml.Name{Local: attrModel}, Attr: attrs}
-	m.AnyAttr.Marshal3MF(x, &tm)
+	if err := m.AnyAttr.Marshal3MF(x, &tm); err != nil {
+		return tm, err
+	}
 	return tm, nil
 }
 
 func (e *Encoder) writeChildModel(x spec.Encoder, m *Model, child *ChildModel) error {
-	tm, _ := e.modelToken(x, m, false) // error already checked before
+	tm, err := e.modelToken(x, m, false)
+	if err != nil {
+		return err
+	}
 	x.EncodeToken(tm)
 
 	if err := e.writeResources(x, &child.Resources); err != nil {
@@ -258,7 +263,9 @@ func (e *Encoder) writeChildModel(x spec.Encoder, m *Model, child *ChildModel) e
 	xb := xml.StartElement{Name: xml.Name{Local: attrBuild}}
 	x.EncodeToken(xb)
 	x.EncodeToken(xb.End())
-	child.Any.Marshal3MF(x, &tm)
+	if err := child.Any.Marshal3MF(x, &tm); err != nil {
+		return err
+	}
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
@@ -274,23 +281,32 @@ func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 	if err := e.writeResources(x, &m.Resources); err != nil {
 		return err
 	}
-	e.writeBuild(x, m)
-	m.Any.Marshal3MF(x, &tm)
+	if err := e.writeBuild(x, m); err != nil {
+		return err
+	}
+	if err := m.Any.Marshal3MF(x, &tm); err != nil {
+		return err
+	}
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
 
-func (e *Encoder) writeMetadataGroup(x spec.Encoder, m MetadataGroup) {
+func (e *Encoder) writeMetadataGroup(x spec.Encoder, m MetadataGroup) error {
 	xm := xml.StartElement{Name: xml.Name{Local: attrMetadataGroup}}
-	m.AnyAttr.Marshal3MF(x, &xm)
+	if err := m.AnyAttr.Marshal3MF(x, &xm); err != nil {
+		return err
+	}
 	x.EncodeToken(xm)
 	e.writeMetadata(x, m.Metadata)
 	x.EncodeToken(xm.End())
+	return nil
 }
 
-func (e *Encoder) writeBuild(x spec.Encoder, m *Model) {
+func (e *Encoder) writeBuild(x spec.Encoder, m *Model) error {
 	xb := xml.StartElement{Name: xml.Name{Local: attrBuild}}
-	m.Build.AnyAttr.Marshal3MF(x, &xb)
+	if err := m.Build.AnyAttr.Marshal3MF(x, &xb); err != nil {
+		return err
+	}
 	x.EncodeToken(xb)
 	x.SetAutoClose(true)
 	for _, item := range m.Build.Items {
@@ -307,11 +323,15 @@ func (e *Encoder) writeBuild(x spec.Encoder, m *Model) {
 				Name: xml.Name{Local: attrPartNumber}, Value: item.PartNumber,
 			})
 		}
-		item.AnyAttr.Marshal3MF(x, &xi)
+		if err := item.AnyAttr.Marshal3MF(x, &xi); err != nil {
+			return err
+		}
 		if len(item.Metadata.Metadata) != 0 {
 			x.SetAutoClose(false)
 			x.EncodeToken(xi)
-			e.writeMetadataGroup(x, item.Metadata)
+			if err := e.writeMetadataGroup(x, item.Metadata); err != nil {
+				return err
+			}
 			x.EncodeToken(xi.End())
 			x.SetAutoClose(true)
 		} else {
@@ -320,11 +340,14 @@ func (e *Encoder) writeBuild(x spec.Encoder, m *Model) {
 	}
 	x.SetAutoClose(false)
 	x.EncodeToken(xb.End())
+	return nil
 }
 
 func (e *Encoder) writeResources(x spec.Encoder, rs *Resources) error {
 	xt := xml.StartElement{Name: xml.Name{Local: attrResources}}
-	rs.AnyAttr.Marshal3MF(x, &xt)
+	if err := rs.AnyAttr.Marshal3MF(x, &xt); err != nil {
+		return err
+	}
 	x.EncodeToken(xt)
 	for _, r := range rs.Assets {
 		if r, ok := r.(spec.Marshaler); ok {
@@ -338,7 +361,9 @@ func (e *Encoder) writeResources(x spec.Encoder, rs *Resources) error {
 	}
 
 	for _, o := range rs.Objects {
-		e.writeObject(x, o)
+		if err := e.writeObject(x, o); err != nil {
+			return err
+		}
 		if err := x.Flush(); err != nil {
 			return err
 		}
@@ -372,7 +397,7 @@ func (e *Encoder) writeMetadata(x spec.Encoder, metadata []Metadata) {
 	}
 }
 
-func (e *Encoder) writeObject(x spec.Encoder, r *Object) {
+func (e *Encoder) writeObject(x spec.Encoder, r *Object) error {
 	xo := xml.StartElement{Name: xml.Name{Local: attrObject}, Attr: []xml.Attr{
 		{Name: xml.Name{Local: attrID}, Value: strconv.FormatUint(uint64(r.ID), 10)},
 	}}
@@ -401,24 +426,35 @@ func (e *Encoder) writeObject(x spec.Encoder, r *Object) {
 			})
 		}
 	}
-	r.AnyAttr.Marshal3MF(x, &xo)
+	if err := r.AnyAttr.Marshal3MF(x, &xo); err != nil {
+		return err
+	}
 	x.EncodeToken(xo)
 
 	if len(r.Metadata.Metadata) != 0 {
-		e.writeMetadataGroup(x, r.Metadata)
+		if err := e.writeMetadataGroup(x, r.Metadata); err != nil {
+			return err
+		}
 	}
 
 	if r.Mesh != nil {
-		e.writeMesh(x, r, r.Mesh)
+		if err := e.writeMesh(x, r, r.Mesh); err != nil {
+			return err
+		}
 	} else if r.Components != nil {
-		e.writeComponents(x, r.Components)
+		if err := e.writeComponents(x, r.Components); err != nil {
+			return err
+		}
 	}
 	x.EncodeToken(xo.End())
+	return nil
 }
 
-func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) {
+func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) error {
 	xcs := xml.StartElement{Name: xml.Name{Local: attrComponents}}
-	comps.AnyAttr.Marshal3MF(x, &xcs)
+	if err := comps.AnyAttr.Marshal3MF(x, &xcs); err != nil {
+		return err
+	}
 	x.EncodeToken(xcs)
 	x.SetAutoClose(true)
 	for _, c := range comps.Component {
@@ -430,16 +466,21 @@ func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) {
 		if c.HasTransform() {
 			xt.Attr = append(xt.Attr, xml.Attr{Name: xml.Name{Local: attrTransform}, Value: c.Transform.String()})
 		}
-		c.AnyAttr.Marshal3MF(x, &xt)
+		if err := c.AnyAttr.Marshal3MF(x, &xt); err != nil {
+			return err
+		}
 		x.EncodeToken(xt)
 	}
 	x.SetAutoClose(false)
 	x.EncodeToken(xcs.End())
+	return nil
 }
 
-func (e *Encoder) writeVertices(x spec.Encoder, m *Mesh) {
+func (e *Encoder) writeVertices(x spec.Encoder, m *Mesh) error {
 	xvs := xml.StartElement{Name: xml.Name{Local: attrVertices}}
-	m.Vertices.AnyAttr.Marshal3MF(x, &xvs)
+	if err := m.Vertices.AnyAttr.Marshal3MF(x, &xvs); err != nil {
+		return err
+	}
 	x.EncodeToken(xvs)
 	prec := x.FloatPresicion()
 	start := xml.StartElement{
@@ -461,11 +502,14 @@ func (e *Encoder) writeVertices(x spec.Encoder, m *Mesh) {
 	x.SetSkipAttrEscape(false)
 	x.SetAutoClose(false)
 	x.EncodeToken(xvs.End())
+	return nil
 }
 
-func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
+func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) error {
 	xvt := xml.StartElement{Name: xml.Name{Local: attrTriangles}}
-	m.Triangles.AnyAttr.Marshal3MF(x, &xvt)
+	if err := m.Triangles.AnyAttr.Marshal3MF(x, &xvt); err != nil {
+		return err
+	}
 	x.EncodeToken(xvt)
 	start := xml.StartElement{
 		Name: xml.Name{Local: attrTriangle},
@@ -499,31 +543,45 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 				start.Attr = attrs[:5]
 			}
 		}
-		t.AnyAttr.Marshal3MF(x, &start)
+		if err := t.AnyAttr.Marshal3MF(x, &start); err != nil {
+			return err
+		}
 		x.EncodeToken(start)
 	}
 	x.SetSkipAttrEscape(false)
 	x.SetAutoClose(false)
 	x.EncodeToken(xvt.End())
+	return nil
 }
 
-func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) {
+func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) error {
 	xm := xml.StartElement{Name: xml.Name{Local: attrMesh}}
-	m.AnyAttr.Marshal3MF(x, &xm)
+	if err := m.AnyAttr.Marshal3MF(x, &xm); err != nil {
+		return err
+	}
 	x.EncodeToken(xm)
 
-	e.writeVertices(x, m)
-	e.writeTriangles(x, r, m)
+	if err := e.writeVertices(x, m); err != nil {
+		return err
+	}
+	if err := e.writeTriangles(x, r, m); err != nil {
+		return err
+	}
 
-	m.Any.Marshal3MF(x, &xm)
+	if err := m.Any.Marshal3MF(x, &xm); err != nil {
+		return err
+	}
 	x.EncodeToken(xm.End())
+	return nil
 }
 
 func (r *BaseMaterials) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
 	xt := xml.StartElement{Name: xml.Name{Local: attrBaseMaterials}, Attr: []xml.Attr{
 		{Name: xml.Name{Local: attrID}, Value: strconv.FormatUint(uint64(r.ID), 10)},
 	}}
-	r.AnyAttr.Marshal3MF(x, &xt)
+	if err := r.AnyAttr.Marshal3MF(x, &xt); err != nil {
+		return err
+	}
 	x.EncodeToken(xt)
 	x.SetAutoClose(true)
 	for _, ma := range r.Materials {
@@ -534,7 +592,9 @@ func (r *BaseMaterials) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
 				{Name: xml.Name{Local: attrDisplayColor}, Value: spec.FormatRGBA(ma.Color)},
 			},
 		}
-		ma.AnyAttr.Marshal3MF(x, &start)
+		if err := ma.AnyAttr.Marshal3MF(x, &start); err != nil {
+			return err
+		}
 		x.EncodeToken(start)
 	}
 	x.SetAutoClose(false)
-- 
2.43.0


From b261d05f9fcfe79bc00e228006eb3cc65c4c38e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 02/47] fix: copy the character data kept for unknown elements

---
 read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 9a474e0..51d2640 100644
--- a/read.go
+++ b/read.go
@@ -124,7 +124,7 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
 			currentDecoder.CharData(tp)
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp)
+			appendDecoder.AppendToken(tp.Copy()) // tp is only valid until the next token
 		}
 	}
 	var i int
-- 
2.43.0


From 71afdcf583b8352eede5956be2e2687f0d3f90a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 03/47] fix: match end elements by depth, not by name

---
 read.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/read.go b/read.go
index 51d2640..c0e112a 100644
--- a/read.go
+++ b/read.go
@@ -67,31 +67,32 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		decoder spec.ElementDecoder
 		name    xml.Name
 		i       int
+		nested  int // open elements that do not have a decoder
 	}
-	stack := make([]stackElement, 0, 10)
+	stack := make([]stackElement, 1, 10)
 
 	var (
 		currentDecoder spec.ElementDecoder
-		currentName    xml.Name
 		errs           specerr.List
 	)
 	currentDecoder = &topLevelDecoder{isRoot: isRoot, model: model, path: path}
+	stack[0].decoder = currentDecoder
 	var err error
 	x.OnStart = func(tp xml3mf.StartElement) {
 		if childDecoder, ok := currentDecoder.(spec.ChildElementDecoder); ok {
 			i, tmpDecoder := childDecoder.Child(tp.Name)
 			if tmpDecoder != nil {
-				stack = append(stack, stackElement{tmpDecoder, tp.Name, i})
-				currentName = tp.Name
+				stack = append(stack, stackElement{decoder: tmpDecoder, name: tp.Name, i: i})
 				currentDecoder = tmpDecoder
 				err := currentDecoder.Start(*(*[]spec.XMLAttr)(unsafe.Pointer(&tp.Attr)))
 				if err != nil {
-					for j := len(stack) - 1; j >= 0; j-- {
+					for j := len(stack) - 1; j > 0; j-- {
 						element := stack[j]
 						err = specerr.WrapIndex(err, element.name.Local, element.i)
 					}
 					specerr.Append(&errs, err)
 				}
+				return
 			}
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
 			var xattrs []xml.Attr
@@ -106,17 +107,17 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 				Attr: xattrs,
 			})
 		}
+		stack[len(stack)-1].nested++
 	}
 	x.OnEnd = func(tp xml.EndElement) {
-		if currentName == tp.Name {
+		if stack[len(stack)-1].nested == 0 {
 			currentDecoder.End()
 			stack = stack[:len(stack)-1]
-			if len(stack) > 0 {
-				element := stack[len(stack)-1]
-				currentDecoder = element.decoder
-				currentName = element.name
-			}
-		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+			currentDecoder = stack[len(stack)-1].decoder
+			return
+		}
+		stack[len(stack)-1].nested--
+		if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
 			appendDecoder.AppendToken(tp)
 		}
 	}
-- 
2.43.0


From 6bb6473d96d498cef8aeedb2c011223e0c0c8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 04/47] fix: do not panic on extension elements in an
 unexpected place

A registered element that is not an Asset (or not a Marshaler) made the
unchecked type assertions of the resources, mesh and model decoders panic.
---
 decoder.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/decoder.go b/decoder.go
index 7e37521..937b265 100644
--- a/decoder.go
+++ b/decoder.go
@@ -40,10 +40,11 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 			}
 		}
 	} else {
-		dec := spec.NewElementDecoder(name)
-		child = dec
-		if dec != nil {
-			d.model.Any = append(d.model.Any, dec.Element().(spec.Marshaler))
+		if dec := spec.NewElementDecoder(name); dec != nil {
+			if element, ok := dec.Element().(spec.Marshaler); ok {
+				child = dec
+				d.model.Any = append(d.model.Any, element)
+			}
 		}
 		i = -1
 	}
@@ -298,11 +299,12 @@ func (d *resourceDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder
 			i = len(d.resources.Assets)
 		}
 	} else if ext, ok := spec.Load(name.Space); ok {
-		dec := ext.NewElementDecoder(name)
 		i = len(d.resources.Assets)
-		child = dec
-		if dec != nil {
-			d.resources.Assets = append(d.resources.Assets, dec.Element().(Asset))
+		if dec := ext.NewElementDecoder(name); dec != nil {
+			if asset, ok := dec.Element().(Asset); ok {
+				child = dec
+				d.resources.Assets = append(d.resources.Assets, asset)
+			}
 		}
 	} else {
 		child = &unknownAssetDecoder{UnknownTokensDecoder: *spec.NewUnknownDecoder(name), resources: d.resources}
@@ -418,10 +420,11 @@ func (d *meshDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 			i = -1
 		}
 	} else {
-		dec := spec.NewElementDecoder(name)
-		child = dec
-		if dec != nil {
-			d.resource.Mesh.Any = append(d.resource.Mesh.Any, dec.Element().(spec.Marshaler))
+		if dec := spec.NewElementDecoder(name); dec != nil {
+			if element, ok := dec.Element().(spec.Marshaler); ok {
+				child = dec
+				d.resource.Mesh.Any = append(d.resource.Mesh.Any, element)
+			}
 		}
 		i = -1
 	}
-- 
2.43.0


From fec7f012b6ac6a0974bdfafc6e85f06d61cebf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 05/47] fix: decode the resources of a part into that part only

The resources were looked up by path: UnmarshalModel panicked when
Model.Path was set to something else than the default path, and a child
relationship to the root part made it be decoded into the root resources.
---
 decoder.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 937b265..3281849 100644
--- a/decoder.go
+++ b/decoder.go
@@ -25,9 +25,10 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace {
 		switch name.Local {
 		case attrResources:
-			resources, _ := d.model.FindResources(d.path)
-			child = &resourceDecoder{resources: resources, model: d.model}
-			i = -1
+			if resources := d.resources(); resources != nil {
+				child = &resourceDecoder{resources: resources, model: d.model}
+				i = -1
+			}
 		case attrBuild:
 			if d.isRoot {
 				child = &buildDecoder{build: &d.model.Build, model: d.model}
@@ -51,6 +52,17 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	return
 }
 
+// resources returns the resources of the part being decoded.
+func (d *modelDecoder) resources() *Resources {
+	if d.isRoot {
+		return &d.model.Resources
+	}
+	if child, ok := d.model.Childs[d.path]; ok {
+		return &child.Resources
+	}
+	return nil
+}
+
 func (d *modelDecoder) Start(attrs []spec.XMLAttr) (err error) {
 	if !d.isRoot {
 		return
-- 
2.43.0


From 1aba5341894d66897e06c1a2bc4e219069012468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 06/47] fix: do not set the decompressor of a package that
 failed to open

---
 opc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opc.go b/opc.go
index c58e2b0..8f5d329 100644
--- a/opc.go
+++ b/opc.go
@@ -103,10 +103,13 @@ type opcReader struct {
 
 func (o *opcReader) Open(f func(r io.Reader) io.ReadCloser) (err error) {
 	o.r, err = opc.NewReader(o.ra, o.size)
+	if err != nil {
+		return err
+	}
 	if f != nil {
 		o.r.SetDecompressor(f)
 	}
-	return
+	return nil
 }
 
 func (o *opcReader) Relationships() []Relationship {
-- 
2.43.0


From 312e7ba6452dfa5a3713f3a5bd1172fac857d51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 07/47] fix: write the prefixes that unknown elements declare
 themselves

A prefix declared by the element that uses it was registered after its start
tag had been written, and stayed registered after the element was closed, so
the encoded part was not well-formed.
---
 internal/xml/printer.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/internal/xml/printer.go b/internal/xml/printer.go
index 90f8300..23e895e 100644
--- a/internal/xml/printer.go
+++ b/internal/xml/printer.go
@@ -14,6 +14,39 @@ type Printer struct {
 	AutoClose      bool
 	SkipAttrEscape bool
 	attrPrefix     map[string]string // map name space -> prefix
+	depth          int               // number of open elements
+	scopes         []prefixScope     // prefixes replaced by the open elements
+}
+
+// A prefixScope holds the prefix a name space had
+// before being declared by the element at the given depth.
+type prefixScope struct {
+	depth         int
+	space, prefix string
+}
+
+// declarePrefixes registers the prefixes declared by the attributes of an
+// element, which are already valid for the name of that element.
+func (p *Printer) declarePrefixes(attrs []xml.Attr) {
+	for _, attr := range attrs {
+		if attr.Name.Space == "xmlns" && attr.Name.Local != "" {
+			if p.attrPrefix == nil {
+				p.attrPrefix = make(map[string]string)
+			}
+			p.scopes = append(p.scopes, prefixScope{p.depth, attr.Value, p.attrPrefix[attr.Value]})
+			p.attrPrefix[attr.Value] = attr.Name.Local
+		}
+	}
+}
+
+// endElement leaves the scope of the prefixes declared by the current element.
+func (p *Printer) endElement() {
+	for len(p.scopes) > 0 && p.scopes[len(p.scopes)-1].depth == p.depth {
+		scope := p.scopes[len(p.scopes)-1]
+		p.attrPrefix[scope.space] = scope.prefix
+		p.scopes = p.scopes[:len(p.scopes)-1]
+	}
+	p.depth--
 }
 
 // createAttrPrefix finds the name space prefix attribute to use for the given name space,
@@ -48,6 +81,8 @@ func (p *Printer) EscapeString(s string) {
 
 // WriteStart writes the given start element.
 func (p *Printer) WriteStart(start *xml.StartElement) {
+	p.depth++
+	p.declarePrefixes(start.Attr)
 	p.WriteByte('<')
 	if start.Name.Space != "" {
 		if prefix := p.attrPrefix[start.Name.Space]; prefix != "" {
@@ -81,6 +116,9 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 		p.WriteByte('/')
 	}
 	p.WriteByte('>')
+	if p.AutoClose {
+		p.endElement()
+	}
 }
 
 func (p *Printer) WriteEnd(name xml.Name) {
@@ -94,4 +132,5 @@ func (p *Printer) WriteEnd(name xml.Name) {
 	}
 	p.WriteString(name.Local)
 	p.WriteByte('>')
+	p.endElement()
 }
-- 
2.43.0


From 578f84d4a8431cb0a52fbee8f614143eb72383f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 08/47] fix: store the extension elements of a child part in
 that child

They were appended to the root model, from several goroutines at once when
there is more than one child part.
---
 decoder.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 3281849..8b2c535 100644
--- a/decoder.go
+++ b/decoder.go
@@ -42,9 +42,10 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		}
 	} else {
 		if dec := spec.NewElementDecoder(name); dec != nil {
-			if element, ok := dec.Element().(spec.Marshaler); ok {
+			element, ok := dec.Element().(spec.Marshaler)
+			if any := d.any(); ok && any != nil {
 				child = dec
-				d.model.Any = append(d.model.Any, element)
+				*any = append(*any, element)
 			}
 		}
 		i = -1
@@ -63,6 +64,17 @@ func (d *modelDecoder) resources() *Resources {
 	return nil
 }
 
+// any returns the extension elements of the part being decoded.
+func (d *modelDecoder) any() *spec.Any {
+	if d.isRoot {
+		return &d.model.Any
+	}
+	if child, ok := d.model.Childs[d.path]; ok {
+		return &child.Any
+	}
+	return nil
+}
+
 func (d *modelDecoder) Start(attrs []spec.XMLAttr) (err error) {
 	if !d.isRoot {
 		return
-- 
2.43.0


From 357d1e47ef42a1d453b07dc8eae6dde790809184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 09/47] fix: report the first error of the child parts without
 a data race

Every failing goroutine wrote the shared error, and the cancellation of the
remaining parts could replace the error that caused it.
---
 read.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index c0e112a..567b687 100644
--- a/read.go
+++ b/read.go
@@ -216,6 +216,7 @@ func (d *Decoder) processRootModel(ctx context.Context, rootFile packageFile, mo
 func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs error) {
 	var (
 		wg                 sync.WaitGroup
+		once               sync.Once
 		nonRootModelsCount = len(d.nonRootModels)
 	)
 	wg.Add(nonRootModelsCount)
@@ -226,7 +227,7 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 			defer wg.Done()
 			err := d.readChildModel(ctx, i, model)
 			if err != nil {
-				errs = err
+				once.Do(func() { errs = err })
 				cancel()
 			}
 		}(i)
-- 
2.43.0


From 77238a33784d97e0005e647a702ad8ffdad56823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 10/47] fix: decode a child part once

A part that is the target of several relationships, or of a previous Decode
call, was decoded several times concurrently into the same child.
---
 read.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/read.go b/read.go
index 567b687..36b6e70 100644
--- a/read.go
+++ b/read.go
@@ -243,6 +243,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	if err := d.p.Open(d.flate); err != nil {
 		return nil, err
 	}
+	d.nonRootModels = nil
 	var rootFile packageFile
 	for _, r := range d.p.Relationships() {
 		if r.Type == RelType3DModel {
@@ -272,6 +273,9 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
 				if rel.Type == RelType3DModel {
+					if d.isNonRootModel(file.Name()) {
+						continue
+					}
 					d.nonRootModels = append(d.nonRootModels, file)
 					if model.Childs == nil {
 						model.Childs = make(map[string]*ChildModel)
@@ -291,6 +295,15 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 	}
 }
 
+func (d *Decoder) isNonRootModel(name string) bool {
+	for _, file := range d.nonRootModels {
+		if file.Name() == name {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Decoder) addAttachment(attachments []Attachment, file packageFile) []Attachment {
 	for _, att := range attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-- 
2.43.0


From 6d0ac885d2ff076f12bd35d7f5df324418acd77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 11/47] fix: report attachments that cannot be read instead of
 dropping them

---
 read.go | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/read.go b/read.go
index 36b6e70..abb8a07 100644
--- a/read.go
+++ b/read.go
@@ -253,13 +253,19 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 				return nil, errors.New("package root model points to an unexisting file")
 			}
 			model.Path = rootFile.Name()
-			d.extractCoreAttachments(rootFile, model, true)
+			if err := d.extractCoreAttachments(rootFile, model, true); err != nil {
+				return nil, err
+			}
 			for _, file := range d.nonRootModels {
-				d.extractCoreAttachments(file, model, false)
+				if err := d.extractCoreAttachments(file, model, false); err != nil {
+					return nil, err
+				}
 			}
 		} else if att, ok := d.p.FindFileFromName(r.Path); ok {
 			model.RootRelationships = append(model.RootRelationships, r)
-			model.Attachments = d.addAttachment(model.Attachments, att)
+			if err := d.addAttachment(model, att); err != nil {
+				return nil, err
+			}
 		}
 	}
 	if rootFile == nil {
@@ -268,7 +274,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	return rootFile, nil
 }
 
-func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) {
+func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) error {
 	for _, rel := range modelFile.Relationships() {
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
@@ -282,17 +288,22 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 					}
 					model.Childs[file.Name()] = new(ChildModel)
 				} else {
-					model.Attachments = d.addAttachment(model.Attachments, file)
+					if err := d.addAttachment(model, file); err != nil {
+						return err
+					}
 					model.Relationships = append(model.Relationships, rel)
 				}
 			} else if rel.Type != RelType3DModel {
 				if child, ok := model.Childs[modelFile.Name()]; ok {
-					model.Attachments = d.addAttachment(model.Attachments, file)
+					if err := d.addAttachment(model, file); err != nil {
+						return err
+					}
 					child.Relationships = append(child.Relationships, rel)
 				}
 			}
 		}
 	}
+	return nil
 }
 
 func (d *Decoder) isNonRootModel(name string) bool {
@@ -304,20 +315,22 @@ func (d *Decoder) isNonRootModel(name string) bool {
 	return false
 }
 
-func (d *Decoder) addAttachment(attachments []Attachment, file packageFile) []Attachment {
-	for _, att := range attachments {
+func (d *Decoder) addAttachment(model *Model, file packageFile) error {
+	for _, att := range model.Attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-			return attachments
+			return nil
 		}
 	}
-	if buff, err := copyFile(file); err == nil {
-		return append(attachments, Attachment{
-			Path:        file.Name(),
-			Stream:      buff,
-			ContentType: file.ContentType(),
-		})
+	buff, err := copyFile(file)
+	if err != nil {
+		return err
 	}
-	return attachments
+	model.Attachments = append(model.Attachments, Attachment{
+		Path:        file.Name(),
+		Stream:      buff,
+		ContentType: file.ContentType(),
+	})
+	return nil
 }
 
 func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error {
-- 
2.43.0


From 3c9de8ee981d37ca3b7365e6a012f90fdbe43169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 12/47] fix: encode the child parts always in the same order

---
 encoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 88916b5..8c080ad 100644
--- a/encoder.go
+++ b/encoder.go
@@ -163,7 +163,7 @@ func (e *Encoder) Encode(m *Model) error {
 	enc := newXMLEncoder(w, e.FloatPrecision)
 	enc.relationships = make([]Relationship, len(m.Relationships))
 	copy(enc.relationships, m.Relationships)
-	for path := range m.Childs {
+	for _, path := range m.sortedChilds() {
 		enc.AddRelationship(spec.Relationship{Type: RelType3DModel, Path: path})
 	}
 	if err = e.writeModel(enc, m); err != nil {
@@ -180,7 +180,8 @@ func (e *Encoder) Encode(m *Model) error {
 }
 
 func (e *Encoder) writeChildModels(m *Model) error {
-	for path, child := range m.Childs {
+	for _, path := range m.sortedChilds() {
+		child := m.Childs[path]
 		var (
 			w   packagePart
 			err error
-- 
2.43.0


From 0f2f8d72bb11a6794324848fcb7a31aad214c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 13/47] fix: do not write into the relationships of the child
 models when encoding

---
 encoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index 8c080ad..5ba5f59 100644
--- a/encoder.go
+++ b/encoder.go
@@ -194,7 +194,8 @@ func (e *Encoder) writeChildModels(m *Model) error {
 			return err
 		}
 		enc := newXMLEncoder(w, e.FloatPrecision)
-		enc.relationships = child.Relationships
+		enc.relationships = make([]Relationship, len(child.Relationships))
+		copy(enc.relationships, child.Relationships)
 		if err = e.writeChildModel(enc, m, child); err != nil {
 			return err
 		}
-- 
2.43.0


From 90f088dda4ea59738ef807f835d6c7f2775a5007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 14/47] fix: escape the extension attributes of the triangles

They were written with the escaping disabled, and appending them overwrote
the attributes of the triangles that follow.
---
 encoder.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 5ba5f59..ca278f8 100644
--- a/encoder.go
+++ b/encoder.go
@@ -531,7 +531,7 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) error {
 		attrs[0].Value = strconv.FormatUint(uint64(t.V1), 10)
 		attrs[1].Value = strconv.FormatUint(uint64(t.V2), 10)
 		attrs[2].Value = strconv.FormatUint(uint64(t.V3), 10)
-		start.Attr = attrs[:3]
+		start.Attr = attrs[:3:3]
 		if t.PID != 0 {
 			if (t.P1 != t.P2) || (t.P1 != t.P3) {
 				attrs[3].Value = strconv.FormatUint(uint64(t.PID), 10)
@@ -542,13 +542,19 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) error {
 			} else if (t.PID != r.PID) || (t.P1 != r.PIndex) {
 				attrs[3].Value = strconv.FormatUint(uint64(t.PID), 10)
 				attrs[4].Value = strconv.FormatUint(uint64(t.P1), 10)
-				start.Attr = attrs[:5]
+				start.Attr = attrs[:5:5]
 			}
 		}
+		if len(t.AnyAttr) == 0 {
+			x.EncodeToken(start)
+			continue
+		}
 		if err := t.AnyAttr.Marshal3MF(x, &start); err != nil {
 			return err
 		}
+		x.SetSkipAttrEscape(false)
 		x.EncodeToken(start)
+		x.SetSkipAttrEscape(true)
 	}
 	x.SetSkipAttrEscape(false)
 	x.SetAutoClose(false)
-- 
2.43.0


From 52a4b7b20e7e84a6b0d10fdffd8dde526eb2beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 15/47] fix: report malformed enumerations of the materials
 extension

---
 materials/decoder.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/materials/decoder.go b/materials/decoder.go
index b038fb9..a7e40b3 100644
--- a/materials/decoder.go
+++ b/materials/decoder.go
@@ -187,13 +187,29 @@ func (d *texture2DDecoder) Start(attrs []spec.XMLAttr) error {
 		case attrPath:
 			d.resource.Path = string(a.Value)
 		case attrContentType:
-			d.resource.ContentType, _ = newTexture2DType(string(a.Value))
+			var ok bool
+			d.resource.ContentType, ok = newTexture2DType(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
+			}
 		case attrTileStyleU:
-			d.resource.TileStyleU, _ = newTileStyle(string(a.Value))
+			var ok bool
+			d.resource.TileStyleU, ok = newTileStyle(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		case attrTileStyleV:
-			d.resource.TileStyleV, _ = newTileStyle(string(a.Value))
+			var ok bool
+			d.resource.TileStyleV, ok = newTileStyle(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		case attrFilter:
-			d.resource.Filter, _ = newTextureFilter(string(a.Value))
+			var ok bool
+			d.resource.Filter, ok = newTextureFilter(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		}
 	}
 	return errs
@@ -309,7 +325,10 @@ func (d *multiPropertiesDecoder) Start(attrs []spec.XMLAttr) error {
 			d.resource.ID = uint32(id)
 		case attrBlendMethods:
 			for _, f := range strings.Fields(string(a.Value)) {
-				val, _ := newBlendMethod(f)
+				val, ok := newBlendMethod(f)
+				if !ok {
+					errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+				}
 				d.resource.BlendMethods = append(d.resource.BlendMethods, val)
 			}
 		case attrPIDs:
-- 
2.43.0


From 180ec3dba38b037e3116641654f728fa0da902cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 16/47] fix: report malformed cap modes of the beams

---
 beamlattice/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beamlattice/decoder.go b/beamlattice/decoder.go
index ede9196..1cb4ac4 100644
--- a/beamlattice/decoder.go
+++ b/beamlattice/decoder.go
@@ -156,12 +156,16 @@ func (d *beamDecoder) Start(attrs []spec.XMLAttr) error {
 			beam.CapMode[0], ok = newCapMode(string(a.Value))
 			if ok {
 				hasCap1 = true
+			} else {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
 		case attrCap2:
 			var ok bool
 			beam.CapMode[1], ok = newCapMode(string(a.Value))
 			if ok {
 				hasCap2 = true
+			} else {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
 		}
 	}
-- 
2.43.0


From ed7928bf8fc6a43c7e2c7884b782b419aee364b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 17/47] fix: write r2 whenever it differs from r1

The reader takes r1 as the default of r2, but the writer omitted it when it
was equal to the radius of the lattice.
---
 beamlattice/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beamlattice/encoder.go b/beamlattice/encoder.go
index 67ebf58..e61d881 100644
--- a/beamlattice/encoder.go
+++ b/beamlattice/encoder.go
@@ -83,7 +83,7 @@ func marshalBeams(x spec.Encoder, m *BeamLattice) {
 				Value: strconv.FormatFloat(float64(b.Radius[0]), 'f', x.FloatPresicion(), 32),
 			})
 		}
-		if b.Radius[1] > 0 && b.Radius[1] != m.Radius {
+		if b.Radius[1] > 0 && b.Radius[1] != b.Radius[0] {
 			xbeam.Attr = append(xbeam.Attr, xml.Attr{
 				Name:  xml.Name{Local: attrR2},
 				Value: strconv.FormatFloat(float64(b.Radius[1]), 'f', x.FloatPresicion(), 32),
-- 
2.43.0


From d1bc17d7c91d89766d3a16336d68d1611e022c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 18/47] fix: report a malformed preserve attribute of the
 metadata

---
 decoder.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 8b2c535..1a6a1ec 100644
--- a/decoder.go
+++ b/decoder.go
@@ -177,6 +177,7 @@ func (d *metadataDecoder) namespace(local string) (string, bool) {
 }
 
 func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
+	var errs error
 	for _, a := range attrs {
 		if a.Name.Space != "" {
 			continue
@@ -196,10 +197,14 @@ func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
 		case attrType:
 			d.metadata.Type = string(a.Value)
 		case attrPreserve:
-			d.metadata.Preserve, _ = strconv.ParseBool(string(a.Value))
+			var err error
+			d.metadata.Preserve, err = strconv.ParseBool(string(a.Value))
+			if err != nil {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		}
 	}
-	return nil
+	return errs
 }
 
 func (d *metadataDecoder) CharData(txt []byte) {
-- 
2.43.0


From 0104623e12adc66742fbd988b7752af8abfb1246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 19/47] fix: ignore attributes of other namespaces in slice
 elements

An attribute of a foreign namespace was taken for the slice attribute with
the same local name, or made decoding fail because it is not a number.
---
 slices/decoder.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/slices/decoder.go b/slices/decoder.go
index 4dd286a..a0356f6 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -72,6 +72,9 @@ func (d *sliceStackDecoder) Child(name xml.Name) (i int, child spec.ElementDecod
 func (d *sliceStackDecoder) Start(attrs []spec.XMLAttr) error {
 	var errs error
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrID:
 			id, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -102,6 +105,9 @@ func (d *sliceRefDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrSliceRefID:
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -148,6 +154,9 @@ func (d *sliceDecoder) Start(attrs []spec.XMLAttr) error {
 	d.polygonVerticesDecoder.slice = &d.slice
 	var errs error
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		if a.Name.Local == attrZTop {
 			val, err := strconv.ParseFloat(string(a.Value), 32)
 			if err != nil {
@@ -190,6 +199,9 @@ func (d *polygonVertexDecoder) Start(attrs []spec.XMLAttr) error {
 		errs error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		val, err := strconv.ParseFloat(string(a.Value), 32)
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -225,6 +237,9 @@ func (d *polygonDecoder) Start(attrs []spec.XMLAttr) error {
 	d.slice.Polygons = append(d.slice.Polygons, Polygon{})
 	d.polygonSegmentDecoder.polygon = &d.slice.Polygons[polygonIndex]
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		if a.Name.Local == attrStartV {
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
 			if err != nil {
@@ -249,6 +264,9 @@ func (d *polygonSegmentDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		var required bool
 		val, err := strconv.ParseUint(string(a.Value), 10, 32)
 		switch a.Name.Local {
-- 
2.43.0


From d5ad7f8b89935687e820c1e0ac6403481b7cde7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 20/47] fix: compute the bounding box of objects with circular
 references

The recursion never ended when components refer to each other. Besides, the
components of an object of another part were searched in the first part.
---
 core.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/core.go b/core.go
index 0d2d16a..ae28507 100644
--- a/core.go
+++ b/core.go
@@ -247,7 +247,7 @@ func (m *Model) BoundingBox() Box {
 			defer wg.Done()
 			item := m.Build.Items[i]
 			if o, ok := m.FindObject(item.ObjectPath(), item.ObjectID); ok {
-				ibox := o.boundingBox(m, item.ObjectPath())
+				ibox := o.boundingBox(m, item.ObjectPath(), make(map[*Object]Box))
 				if ibox != emptyBox {
 					mu.Lock()
 					box = box.extend(item.Transform.MulBox(ibox))
@@ -413,22 +413,34 @@ type Object struct {
 	AnyAttr    spec.AnyAttr
 }
 
-func (o *Object) boundingBox(m *Model, path string) Box {
+// boundingBox returns the bounding box of the object, which is defined in path.
+// The boxes of the objects already visited are taken from boxes,
+// so circular references are not followed.
+func (o *Object) boundingBox(m *Model, path string, boxes map[*Object]Box) Box {
 	if o.Mesh != nil {
 		return o.Mesh.BoundingBox()
 	}
 	if o.Components == nil || len(o.Components.Component) == 0 {
 		return Box{}
 	}
+	if box, ok := boxes[o]; ok {
+		return box
+	}
+	boxes[o] = emptyBox
 	box := newLimitBox()
 	for _, c := range o.Components.Component {
-		if obj, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-			cbox := obj.boundingBox(m, path)
+		cpath := c.ObjectPath(path)
+		if obj, ok := m.FindObject(cpath, c.ObjectID); ok {
+			cbox := obj.boundingBox(m, cpath, boxes)
 			if cbox != emptyBox {
 				box = box.extend(c.Transform.MulBox(cbox))
 			}
 		}
 	}
+	if box == newLimitBox() { // no component has a box
+		box = emptyBox
+	}
+	boxes[o] = box
 	return box
 }
 
-- 
2.43.0


From ced471b1f887df2ee99c67f28ed2a6aca1e80fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 21/47] fix: validate the transforms of sliced objects with
 circular references

The recursion only stopped at direct self references, and the components of
other parts were searched in the part of the sliced object.
---
 slices/validate.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/slices/validate.go b/slices/validate.go
index 1a5164d..bcf5de2 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -186,10 +186,11 @@ func checkAllClosed(m *go3mf.Model, r *SliceStack) bool {
 }
 
 func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
+	visited := make(map[*go3mf.Object]struct{})
 	for _, item := range m.Build.Items {
 		targetPath := item.ObjectPath()
 		if targetPath == "" {
-			targetPath = path
+			targetPath = m.PathOrDefault()
 		}
 		if item.ObjectID == id && targetPath == path {
 			if item.HasTransform() && !validTransform(item.Transform) {
@@ -197,7 +198,7 @@ func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
 			}
 		}
 		if o, ok := m.FindObject(targetPath, item.ObjectID); ok {
-			if !validateObjectTransforms(m, o, path, id) {
+			if !validateObjectTransforms(m, o, targetPath, path, id, visited) {
 				return false
 			}
 		}
@@ -205,23 +206,26 @@ func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
 	return true
 }
 
-func validateObjectTransforms(m *go3mf.Model, o *go3mf.Object, path string, id uint32) bool {
+// validateObjectTransforms checks the transforms applied to the target object (path, id)
+// by the components of o, which is defined in currentPath, and of the objects it refers to.
+func validateObjectTransforms(m *go3mf.Model, o *go3mf.Object, currentPath, path string, id uint32, visited map[*go3mf.Object]struct{}) bool {
 	if o.Components == nil {
 		return true
 	}
+	if _, ok := visited[o]; ok { // avoid circular references
+		return true
+	}
+	visited[o] = struct{}{}
 	for _, c := range o.Components.Component {
-		if c.ObjectID == id && c.ObjectPath(path) == path {
+		cpath := c.ObjectPath(currentPath)
+		if c.ObjectID == id && cpath == path {
 			if c.HasTransform() && !validTransform(c.Transform) {
 				return false
 			}
 		}
-		if c.ObjectID == o.ID && c.ObjectPath(path) == path { // avoid circular references
-			break
-		} else {
-			if o1, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-				if !validateObjectTransforms(m, o1, path, id) {
-					return false
-				}
+		if o1, ok := m.FindObject(cpath, c.ObjectID); ok {
+			if !validateObjectTransforms(m, o1, cpath, path, id, visited) {
+				return false
 			}
 		}
 	}
-- 
2.43.0


From ee5c717dff3e556d1c62f6d5c6ca3de3e53f0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 22/47] fix: check the bounds of material indices exactly

An index equal to the length of the referenced list was accepted, and every
index into a texture group but zero was rejected.
---
 materials/validate.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/materials/validate.go b/materials/validate.go
index a3e8eed..2b1b768 100644
--- a/materials/validate.go
+++ b/materials/validate.go
@@ -131,6 +131,8 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 				}
 				colorCount++
 				lengths[j] = len(pr.Colors)
+			case *Texture2DGroup:
+				lengths[j] = len(pr.Coords)
 			}
 		} else if !resourceUndefined {
 			resourceUndefined = true
@@ -139,7 +141,7 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 	}
 	for j, multi := range r.Multis {
 		for k, index := range multi.PIndices {
-			if k < len(r.PIDs) && lengths[k] < int(index) {
+			if k < len(r.PIDs) && lengths[k] <= int(index) {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrMulti, j))
 				break
 			}
@@ -157,7 +159,7 @@ func validateCompositeMat(m *go3mf.Model, path string, r *CompositeMaterials) (e
 	} else if mat, ok := m.FindAsset(path, r.MaterialID); ok {
 		if bm, ok := mat.(*go3mf.BaseMaterials); ok {
 			for _, index := range r.Indices {
-				if int(index) > len(bm.Materials) {
+				if int(index) >= len(bm.Materials) {
 					errs = errors.Append(errs, errors.ErrIndexOutOfBounds)
 					break
 				}
-- 
2.43.0


From 387511e4ba835cea49c96b6a8e1de45a3c1fc41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 23/47] fix: check the beam set references against the list of
 beams

---
 beamlattice/validate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beamlattice/validate.go b/beamlattice/validate.go
index 887dc16..8d94ca5 100644
--- a/beamlattice/validate.go
+++ b/beamlattice/validate.go
@@ -61,7 +61,7 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 	}
 	for i, set := range bl.BeamSets.BeamSet {
 		for _, ref := range set.Refs {
-			if int(ref) >= len(set.Refs) {
+			if int(ref) >= len(bl.Beams.Beam) {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrBeamSet, i))
 				break
 			}
-- 
2.43.0


From baf90b6b0cd9d6c988936f16f753b370ae4e39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 24/47] fix: validate the vertex indices of the slice polygons

---
 slices/validate.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/slices/validate.go b/slices/validate.go
index bcf5de2..b2611e4 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -109,6 +109,13 @@ func (r *SliceStack) validateSlices() error {
 			if len(p.Segments) < 1 {
 				perrs = errors.Append(perrs, errors.WrapIndex(ErrSliceInsufficientSegments, attrPolygon, k))
 			}
+			outOfBounds := int(p.StartV) >= len(slice.Vertices.Vertex)
+			for _, s := range p.Segments {
+				outOfBounds = outOfBounds || int(s.V2) >= len(slice.Vertices.Vertex)
+			}
+			if outOfBounds {
+				perrs = errors.Append(perrs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrPolygon, k))
+			}
 		}
 		if perrs != nil {
 			errs = errors.Append(errs, errors.WrapIndex(perrs, attrSlice, j))
-- 
2.43.0


From 95c0526c649e67d207120dc03a4c7e3cbe19d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 25/47] fix: report slice stacks without identifier

---
 slices/validate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slices/validate.go b/slices/validate.go
index b2611e4..dc0bd22 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -73,6 +73,9 @@ func validateAsset(m *go3mf.Model, path string, r go3mf.Asset) error {
 		return nil
 	}
 	var errs error
+	if st.ID == 0 {
+		errs = errors.Append(errs, errors.ErrMissingID)
+	}
 	if (len(st.Slices) != 0 && len(st.Refs) != 0) ||
 		(len(st.Slices) == 0 && len(st.Refs) == 0) {
 		errs = errors.Append(errs, ErrSlicesAndRefs)
-- 
2.43.0


From 4bee96f9d8eedec0b646d10409861e0faacac682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 26/47] fix: do not panic when validating an object against an
 unknown path

---
 slices/validate.go | 3 +--
 validate.go        | 6 ++----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/slices/validate.go b/slices/validate.go
index dc0bd22..72bdc62 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -30,10 +30,9 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 		return nil
 	}
 	var errs error
-	res, _ := m.FindResources(path)
 	if sti.SliceStackID == 0 {
 		errs = errors.Append(errs, errors.NewMissingFieldError(attrSliceRefID))
-	} else if r, ok := res.FindAsset(sti.SliceStackID); ok {
+	} else if r, ok := m.FindAsset(path, sti.SliceStackID); ok {
 		if r, ok := r.(*SliceStack); ok {
 			if !validateBuildTransforms(m, path, obj.ID) {
 				errs = errors.Append(errs, ErrSliceInvalidTranform)
diff --git a/validate.go b/validate.go
index 1f7f111..799c97e 100644
--- a/validate.go
+++ b/validate.go
@@ -203,7 +203,6 @@ func (res *Resources) validate(m *Model, path string) error {
 // Validate validates that the object is compliant with 3MF specs,
 // except for the mesh coherency.
 func (r *Object) Validate(m *Model, path string) error {
-	res, _ := m.FindResources(path)
 	var errs error
 	if r.ID == 0 {
 		errs = errors.Append(errs, errors.ErrMissingID)
@@ -216,7 +215,7 @@ func (r *Object) Validate(m *Model, path string) error {
 	}
 	if r.Mesh != nil {
 		if r.PID != 0 {
-			if a, ok := res.FindAsset(r.PID); ok {
+			if a, ok := m.FindAsset(path, r.PID); ok {
 				if a, ok := a.(spec.PropertyGroup); ok {
 					if int(r.PIndex) >= a.Len() {
 						errs = errors.Append(errs, errors.ErrIndexOutOfBounds)
@@ -247,7 +246,6 @@ func (r *Object) Validate(m *Model, path string) error {
 }
 
 func (r *Object) validateMesh(m *Model, path string) error {
-	res, _ := m.FindResources(path)
 	var errs error
 	switch r.Type {
 	case ObjectTypeModel, ObjectTypeSolidSupport:
@@ -272,7 +270,7 @@ func (r *Object) validateMesh(m *Model, path string) error {
 				t.P2 == r.PIndex && t.P3 == r.PIndex {
 				continue
 			}
-			if a, ok := res.FindAsset(t.PID); ok {
+			if a, ok := m.FindAsset(path, t.PID); ok {
 				if a, ok := a.(spec.PropertyGroup); ok {
 					l := a.Len()
 					if int(t.P1) >= l || int(t.P2) >= l || int(t.P3) >= l {
-- 
2.43.0


From 8fe011a70c4b6c14b09bb8a888f045a41c568d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 27/47] fix: report clipping and representation meshes that do
 not exist

---
 beamlattice/validate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beamlattice/validate.go b/beamlattice/validate.go
index 8d94ca5..3b9dc25 100644
--- a/beamlattice/validate.go
+++ b/beamlattice/validate.go
@@ -86,9 +86,9 @@ func validateRefMesh(m *go3mf.Model, path string, meshID, selfID uint32) error {
 				if r.Mesh == nil || r.Type != go3mf.ObjectTypeModel || GetBeamLattice(r.Mesh) != nil {
 					return ErrLatticeInvalidMesh
 				}
-				break
+				return nil
 			}
 		}
 	}
-	return nil
+	return errors.ErrMissingResource
 }
-- 
2.43.0


From 93f8c733ece1c3f980b0ca2a89f765f7d104368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 28/47] fix: stop decoding a STL when the context is cancelled

The break only left the select statement, so decoding went on and the next
read of the binary decoder overwrote the error of the context.
---
 importer/stl/ascii.go  | 8 ++------
 importer/stl/binary.go | 3 +--
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index d73e4c0..3f42be8 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -19,7 +19,7 @@ type asciiDecoder struct {
 	units float32
 }
 
-func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
+func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 	mb := go3mf.NewMeshBuilder(m)
 	position := 0
 	nextFaceCheck := checkEveryFaces
@@ -42,17 +42,13 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 				if len(m.Triangles.Triangle) > nextFaceCheck {
 					select {
 					case <-ctx.Done():
-						err = ctx.Err()
-						break
+						return ctx.Err()
 					default: // Default is must to avoid blocking
 					}
 					nextFaceCheck += checkEveryFaces
 				}
 			}
 		}
-		if err != nil {
-			return err
-		}
 	}
 	return scanner.Err()
 }
diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index dce85a7..6bd97e7 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -47,8 +47,7 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 		if len(m.Triangles.Triangle) > nextFaceCheck {
 			select {
 			case <-ctx.Done():
-				err = ctx.Err()
-				break
+				return ctx.Err()
 			default: // Default is must to avoid blocking
 			}
 			nextFaceCheck += checkEveryFaces
-- 
2.43.0


From 16df561a2887fe892031f2cfb8399033e6b211ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 29/47] fix: report malformed coordinates of an ASCII STL

---
 importer/stl/ascii.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index 3f42be8..a7e6532 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -30,9 +30,12 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 		fields := strings.Fields(line)
 		if len(fields) == 4 && fields[0] == "vertex" {
 			var f [3]float64
-			f[0], _ = strconv.ParseFloat(fields[1], 32)
-			f[1], _ = strconv.ParseFloat(fields[2], 32)
-			f[2], _ = strconv.ParseFloat(fields[3], 32)
+			for i := range f {
+				var err error
+				if f[i], err = strconv.ParseFloat(fields[i+1], 32); err != nil {
+					return err
+				}
+			}
 			nodes[position] = mb.AddVertex(go3mf.Point3D{float32(f[0]), float32(f[1]), float32(f[2])})
 			position++
 
-- 
2.43.0


From a4ff1789ab0e7ebd0e9ea86c5bbcbda9b7f2f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 30/47] fix: do not allocate the declared face count of a
 binary STL up front

A truncated or malicious header could make the decoder allocate up to 64 GiB
before reading a single face.
---
 importer/stl/binary.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index 6bd97e7..c965cac 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -35,7 +35,6 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 	if err != nil {
 		return err
 	}
-	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, header.FaceCount)
 	nextFaceCheck := checkEveryFaces
 	var facet binaryFace
 	for nFace := 0; nFace < int(header.FaceCount); nFace++ {
-- 
2.43.0


From 8350e234059cf3a3ce7b80f5c01df3b07e10a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 31/47] fix: report errors found while detecting the STL
 encoding

Any error but EOF was retried forever.
---
 importer/stl/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index 82fd9b1..f26f759 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -62,7 +62,7 @@ func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
 	var header string
 	for {
 		buff, err := r.Peek(sizeOfHeader)
-		if err == io.EOF {
+		if err != nil {
 			return false, err
 		}
 		if len(buff) >= sizeOfHeader {
-- 
2.43.0


From 74165e749ca920337765b8249b3f891dfc3991ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 32/47] fix: set the build UUID when its attribute is empty

---
 production/production.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/production/production.go b/production/production.go
index ce4dce7..934195a 100644
--- a/production/production.go
+++ b/production/production.go
@@ -127,8 +127,10 @@ func (p *ComponentAttr) getUUID() string {
 // SetMissingUUIDs traverse all the model tree setting
 // all missing UUID attributes.
 func SetMissingUUIDs(m *go3mf.Model) {
-	if GetBuildAttr(&m.Build) == nil {
+	if battr := GetBuildAttr(&m.Build); battr == nil {
 		m.Build.AnyAttr = append(m.Build.AnyAttr, &BuildAttr{UUID: uuid.New()})
+	} else if battr.UUID == "" {
+		battr.UUID = uuid.New()
 	}
 	for _, item := range m.Build.Items {
 		ext := GetItemAttr(item)
-- 
2.43.0


From 5e419a83064f5961005838345b840b84bd45f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 33/47] fix: check the braces of UUIDs in the Microsoft
 encoding

---
 uuid/uuid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 27b62d4..7c00acb 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -105,6 +105,9 @@ func validateUUID(s string) error {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[37] != '}' {
+			return errors.New("production: invalid UUID format")
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
-- 
2.43.0


From 7bb509316cb4845c95a8b02d106ab0a0da814714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 34/47] fix: report the coherency errors always in the same
 order

---
 validate.go | 71 +++++++++++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/validate.go b/validate.go
index 799c97e..6028945 100644
--- a/validate.go
+++ b/validate.go
@@ -366,49 +366,50 @@ func findAttachment(att []Attachment, path string) (*Attachment, bool) {
 
 // ValidateCoherency checks that all the mesh are non-empty, manifold and oriented.
 func (m *Model) ValidateCoherency() error {
-	var (
-		errs error
-		wg   sync.WaitGroup
-		mu   sync.Mutex
-	)
-	wg.Add(len(m.Resources.Objects))
-	for i := range m.Resources.Objects {
+	rootErrs := validateObjectsCoherency(m.Resources.Objects)
+	childs := m.sortedChilds()
+	childErrs := make([][]error, len(childs))
+	for i, path := range childs {
+		childErrs[i] = validateObjectsCoherency(m.Childs[path].Resources.Objects)
+	}
+	var errs error
+	for _, err := range rootErrs {
+		if err != nil {
+			errs = errors.Append(errs, errors.Wrap(err, attrResources))
+		}
+	}
+	for i, path := range childs {
+		for _, err := range childErrs[i] {
+			if err != nil {
+				errs = errors.Append(errs, errors.WrapPath(err, attrResources, path))
+			}
+		}
+	}
+	if errs != nil {
+		return errors.Wrap(errs, attrModel)
+	}
+	return nil
+}
+
+// validateObjectsCoherency checks concurrently all the solid objects
+// and returns the error of each one, in the same order.
+func validateObjectsCoherency(objects []*Object) []error {
+	var wg sync.WaitGroup
+	errs := make([]error, len(objects))
+	wg.Add(len(objects))
+	for i := range objects {
 		go func(i int) {
 			defer wg.Done()
-			r := m.Resources.Objects[i]
+			r := objects[i]
 			if isSolidObject(r) {
-				err := r.Mesh.ValidateCoherency()
-				if err != nil {
-					mu.Lock()
-					errs = errors.Append(errs, errors.Wrap(errors.WrapIndex(errors.Wrap(err, attrMesh), attrObject, i), attrResources))
-					mu.Unlock()
+				if err := r.Mesh.ValidateCoherency(); err != nil {
+					errs[i] = errors.WrapIndex(errors.Wrap(err, attrMesh), attrObject, i)
 				}
 			}
 		}(i)
 	}
-	for path, c := range m.Childs {
-		wg.Add(len(c.Resources.Objects))
-		for i := range c.Resources.Objects {
-			go func(path string, i int) {
-				defer wg.Done()
-				res := m.Childs[path].Resources
-				r := res.Objects[i]
-				if isSolidObject(r) {
-					err := r.Mesh.ValidateCoherency()
-					if err != nil {
-						mu.Lock()
-						errs = errors.Append(errs, errors.WrapPath(errors.WrapIndex(errors.Wrap(err, attrMesh), attrObject, i), attrResources, path))
-						mu.Unlock()
-					}
-				}
-			}(path, i)
-		}
-	}
 	wg.Wait()
-	if errs != nil {
-		return errors.Wrap(errs, attrModel)
-	}
-	return nil
+	return errs
 }
 
 func isSolidObject(r *Object) bool {
-- 
2.43.0


From 5e7d3960e08aae0bbf19d3f06d4878c91d9196e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 35/47] fix: propose an unused resource id even with repeated
 ids

Repeated or zero ids broke the comparison of each sorted id with its index, so
the id of an existing resource could be returned.
---
 core.go | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/core.go b/core.go
index ae28507..7c9ad7d 100644
--- a/core.go
+++ b/core.go
@@ -7,7 +7,6 @@ import (
 	"encoding/xml"
 	"image/color"
 	"io"
-	"sort"
 	"sync"
 
 	"github.com/hpinc/go3mf/spec"
@@ -137,30 +136,20 @@ type Resources struct {
 
 // UnusedID returns the lowest unused ID.
 func (rs *Resources) UnusedID() uint32 {
-	if len(rs.Assets) == 0 && len(rs.Objects) == 0 {
-		return 1
+	used := make(map[uint32]struct{}, len(rs.Assets)+len(rs.Objects))
+	for _, r := range rs.Assets {
+		used[r.Identify()] = struct{}{}
 	}
-	ids := make([]int, len(rs.Assets)+len(rs.Objects)+1)
-	ids[0] = 0
-	for i, r := range rs.Assets {
-		id := r.Identify()
-		ids[i+1] = int(id)
+	for _, o := range rs.Objects {
+		used[o.ID] = struct{}{}
 	}
-	for i, o := range rs.Objects {
-		ids[len(rs.Assets)+i+1] = int(o.ID)
-	}
-	sort.Ints(ids)
-	lowest := 0
-	for i, id := range ids {
-		if id != i {
-			lowest = i
-			break
+	id := uint32(1)
+	for {
+		if _, ok := used[id]; !ok {
+			return id
 		}
+		id++
 	}
-	if lowest == 0 {
-		lowest = ids[len(ids)-1] + 1
-	}
-	return uint32(lowest)
 }
 
 // FindObject returns the resource with the target ID.
-- 
2.43.0


From 14ce2eb8ba0d1bfd75ef97fbaeaf8fdaf2d39d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 36/47] fix: write metadata groups that only have extension
 attributes

---
 encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index ca278f8..f00d22c 100644
--- a/encoder.go
+++ b/encoder.go
@@ -328,7 +328,7 @@ func (e *Encoder) writeBuild(x spec.Encoder, m *Model) error {
 		if err := item.AnyAttr.Marshal3MF(x, &xi); err != nil {
 			return err
 		}
-		if len(item.Metadata.Metadata) != 0 {
+		if len(item.Metadata.Metadata) != 0 || len(item.Metadata.AnyAttr) != 0 {
 			x.SetAutoClose(false)
 			x.EncodeToken(xi)
 			if err := e.writeMetadataGroup(x, item.Metadata); err != nil {
@@ -433,7 +433,7 @@ func (e *Encoder) writeObject(x spec.Encoder, r *Object) error {
 	}
 	x.EncodeToken(xo)
 
-	if len(r.Metadata.Metadata) != 0 {
+	if len(r.Metadata.Metadata) != 0 || len(r.Metadata.AnyAttr) != 0 {
 		if err := e.writeMetadataGroup(x, r.Metadata); err != nil {
 			return err
 		}
-- 
2.43.0


From c26f16156f7fb9391cdb80faab9e6a81d7f7f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 37/47] fix: keep attributes that a registered spec does not
 define

NewAttrGroup returns nil when the spec of the namespace has no attribute
group for the parent element, and every decoder then called
Unmarshal3MFAttr on the nil interface and panicked.
---
 decoder.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/decoder.go b/decoder.go
index 1a6a1ec..28af1b5 100644
--- a/decoder.go
+++ b/decoder.go
@@ -14,6 +14,16 @@ import (
 	"github.com/hpinc/go3mf/spec"
 )
 
+// newAttrGroup returns the attribute group that the spec registered for namespace
+// has for the parent element, or one that keeps the attributes as they are
+// if there is no such spec or it does not define attributes for that element.
+func newAttrGroup(namespace, parent string) spec.AttrGroup {
+	if attr := spec.NewAttrGroup(namespace, xml.Name{Space: Namespace, Local: parent}); attr != nil {
+		return attr
+	}
+	return &spec.UnknownAttrs{Space: namespace}
+}
+
 type modelDecoder struct {
 	baseDecoder
 	model  *Model
@@ -125,7 +135,7 @@ func (d *modelDecoder) noCoreAttribute(a spec.XMLAttr) (err error) {
 	default:
 		var attr spec.AttrGroup
 		if attr = d.model.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrModel})
+			attr = newAttrGroup(a.Name.Space, attrModel)
 			d.model.AnyAttr = append(d.model.AnyAttr, attr)
 		}
 		err = specerr.Append(err, attr.Unmarshal3MFAttr(a))
@@ -152,7 +162,7 @@ func (d *metadataGroupDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.metadatas.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMetadataGroup})
+			attr = newAttrGroup(a.Name.Space, attrMetadataGroup)
 			d.metadatas.AnyAttr = append(d.metadatas.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -234,7 +244,7 @@ func (d *buildDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.build.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBuild})
+			attr = newAttrGroup(a.Name.Space, attrBuild)
 			d.build.AnyAttr = append(d.build.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -269,7 +279,7 @@ func (d *buildItemDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.item.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrItem})
+				attr = newAttrGroup(a.Name.Space, attrItem)
 				d.item.AnyAttr = append(d.item.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -309,7 +319,7 @@ func (d *resourceDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resources.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrResources})
+			attr = newAttrGroup(a.Name.Space, attrResources)
 			d.resources.AnyAttr = append(d.resources.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -376,7 +386,7 @@ func (d *baseMaterialsDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.resource.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBaseMaterials})
+				attr = newAttrGroup(a.Name.Space, attrBaseMaterials)
 				d.resource.AnyAttr = append(d.resource.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -410,7 +420,7 @@ func (d *baseMaterialDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = base.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBase})
+				attr = newAttrGroup(a.Name.Space, attrBase)
 				base.AnyAttr = append(base.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -431,7 +441,7 @@ func (d *meshDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resource.Mesh.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMesh})
+			attr = newAttrGroup(a.Name.Space, attrMesh)
 			d.resource.Mesh.AnyAttr = append(d.resource.Mesh.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -472,7 +482,7 @@ func (d *verticesDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.mesh.Vertices.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrVertices})
+			attr = newAttrGroup(a.Name.Space, attrVertices)
 			d.mesh.Vertices.AnyAttr = append(d.mesh.Vertices.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -537,7 +547,7 @@ func (d *trianglesDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resource.Mesh.Triangles.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangles})
+			attr = newAttrGroup(a.Name.Space, attrTriangles)
 			d.resource.Mesh.Triangles.AnyAttr = append(d.resource.Mesh.Triangles.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -601,7 +611,7 @@ func (d *triangleDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = t.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangle})
+				attr = newAttrGroup(a.Name.Space, attrTriangle)
 				t.AnyAttr = append(t.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -644,7 +654,7 @@ func (d *objectDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.resource.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrObject})
+				attr = newAttrGroup(a.Name.Space, attrObject)
 				d.resource.AnyAttr = append(d.resource.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -719,7 +729,7 @@ func (d *componentsDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = components.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponents})
+			attr = newAttrGroup(a.Name.Space, attrComponents)
 			components.AnyAttr = append(components.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -764,7 +774,7 @@ func (d *componentDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = component.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponent})
+				attr = newAttrGroup(a.Name.Space, attrComponent)
 				component.AnyAttr = append(component.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
-- 
2.43.0


From f490f58a781dfd52236dc57ce67ea74f81471f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 38/47] fix: write every extension element and report its
 errors

spec.Any.Marshal3MF stops after the first element that is written and
drops the errors of those that are not.
---
 encoder.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/encoder.go b/encoder.go
index f00d22c..f89fee2 100644
--- a/encoder.go
+++ b/encoder.go
@@ -265,13 +265,23 @@ func (e *Encoder) writeChildModel(x spec.Encoder, m *Model, child *ChildModel) e
 	xb := xml.StartElement{Name: xml.Name{Local: attrBuild}}
 	x.EncodeToken(xb)
 	x.EncodeToken(xb.End())
-	if err := child.Any.Marshal3MF(x, &tm); err != nil {
+	if err := marshalAny(child.Any, x, &tm); err != nil {
 		return err
 	}
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
 
+// marshalAny writes every element of elems.
+func marshalAny(elems spec.Any, x spec.Encoder, start *xml.StartElement) error {
+	for _, elem := range elems {
+		if err := elem.Marshal3MF(x, start); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 	tm, err := e.modelToken(x, m, true)
 	if err != nil {
@@ -286,7 +296,7 @@ func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 	if err := e.writeBuild(x, m); err != nil {
 		return err
 	}
-	if err := m.Any.Marshal3MF(x, &tm); err != nil {
+	if err := marshalAny(m.Any, x, &tm); err != nil {
 		return err
 	}
 	x.EncodeToken(tm.End())
@@ -576,7 +586,7 @@ func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) error {
 		return err
 	}
 
-	if err := m.Any.Marshal3MF(x, &xm); err != nil {
+	if err := marshalAny(m.Any, x, &xm); err != nil {
 		return err
 	}
 	x.EncodeToken(xm.End())
-- 
2.43.0


From 089cd1fd4fa61e9117c65b424b5a41ec4b87c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 39/47] fix: metadata of a child part ignored the prefixes that
 the part declares

---
 decoder.go | 49 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/decoder.go b/decoder.go
index 28af1b5..33f7bc6 100644
--- a/decoder.go
+++ b/decoder.go
@@ -29,6 +29,8 @@ type modelDecoder struct {
 	model  *Model
 	isRoot bool
 	path   string
+	// extensions declared by a non-root part
+	extensions []Extension
 }
 
 func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
@@ -36,7 +38,7 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		switch name.Local {
 		case attrResources:
 			if resources := d.resources(); resources != nil {
-				child = &resourceDecoder{resources: resources, model: d.model}
+				child = &resourceDecoder{resources: resources, extensions: d.declared()}
 				i = -1
 			}
 		case attrBuild:
@@ -46,7 +48,7 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 			}
 		case attrMetadata:
 			if d.isRoot {
-				child = &metadataDecoder{metadatas: &d.model.Metadata, model: d.model}
+				child = &metadataDecoder{metadatas: &d.model.Metadata, extensions: d.declared()}
 				i = len(d.model.Metadata)
 			}
 		}
@@ -74,6 +76,14 @@ func (d *modelDecoder) resources() *Resources {
 	return nil
 }
 
+// declared returns the extensions declared by the part being decoded.
+func (d *modelDecoder) declared() []Extension {
+	if d.isRoot {
+		return d.model.Extensions
+	}
+	return d.extensions
+}
+
 // any returns the extension elements of the part being decoded.
 func (d *modelDecoder) any() *spec.Any {
 	if d.isRoot {
@@ -87,6 +97,11 @@ func (d *modelDecoder) any() *spec.Any {
 
 func (d *modelDecoder) Start(attrs []spec.XMLAttr) (err error) {
 	if !d.isRoot {
+		for _, a := range attrs {
+			if a.Name.Space == attrXmlns {
+				d.extensions = append(d.extensions, Extension{Namespace: string(a.Value), LocalName: a.Name.Local})
+			}
+		}
 		return
 	}
 	var requiredExts []string
@@ -145,13 +160,13 @@ func (d *modelDecoder) noCoreAttribute(a spec.XMLAttr) (err error) {
 
 type metadataGroupDecoder struct {
 	baseDecoder
-	metadatas *MetadataGroup
-	model     *Model
+	metadatas  *MetadataGroup
+	extensions []Extension
 }
 
 func (d *metadataGroupDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace && name.Local == attrMetadata {
-		child = &metadataDecoder{metadatas: &d.metadatas.Metadata, model: d.model}
+		child = &metadataDecoder{metadatas: &d.metadatas.Metadata, extensions: d.extensions}
 		i = len(d.metadatas.Metadata)
 	}
 	return
@@ -172,13 +187,13 @@ func (d *metadataGroupDecoder) Start(attrs []spec.XMLAttr) error {
 
 type metadataDecoder struct {
 	baseDecoder
-	model     *Model
-	metadatas *[]Metadata
-	metadata  Metadata
+	extensions []Extension
+	metadatas  *[]Metadata
+	metadata   Metadata
 }
 
 func (d *metadataDecoder) namespace(local string) (string, bool) {
-	for _, ext := range d.model.Extensions {
+	for _, ext := range d.extensions {
 		if ext.LocalName == local {
 			return ext.Namespace, true
 		}
@@ -265,7 +280,7 @@ func (d *buildItemDecoder) End() {
 
 func (d *buildItemDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace && name.Local == attrMetadataGroup {
-		child = &metadataGroupDecoder{metadatas: &d.item.Metadata, model: d.model}
+		child = &metadataGroupDecoder{metadatas: &d.item.Metadata, extensions: d.model.Extensions}
 		i = -1
 	}
 	return
@@ -310,8 +325,8 @@ func (d *buildItemDecoder) parseCoreAttr(a spec.XMLAttr) (errs error) {
 
 type resourceDecoder struct {
 	baseDecoder
-	model     *Model
-	resources *Resources
+	extensions []Extension
+	resources  *Resources
 }
 
 func (d *resourceDecoder) Start(attrs []spec.XMLAttr) error {
@@ -331,7 +346,7 @@ func (d *resourceDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder
 	if name.Space == Namespace {
 		switch name.Local {
 		case attrObject:
-			child = &objectDecoder{resources: d.resources, model: d.model}
+			child = &objectDecoder{resources: d.resources, extensions: d.extensions}
 			i = len(d.resources.Objects)
 		case attrBaseMaterials:
 			child = &baseMaterialsDecoder{resources: d.resources}
@@ -637,9 +652,9 @@ func applyDefault(val, defVal uint32, noDef bool) uint32 {
 
 type objectDecoder struct {
 	baseDecoder
-	model     *Model
-	resources *Resources
-	resource  Object
+	extensions []Extension
+	resources  *Resources
+	resource   Object
 }
 
 func (d *objectDecoder) End() {
@@ -672,7 +687,7 @@ func (d *objectDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder)
 			child = &componentsDecoder{resource: &d.resource}
 			i = -1
 		} else if name.Local == attrMetadataGroup {
-			child = &metadataGroupDecoder{metadatas: &d.resource.Metadata, model: d.model}
+			child = &metadataGroupDecoder{metadatas: &d.resource.Metadata, extensions: d.extensions}
 			i = -1
 		}
 	}
-- 
2.43.0


From cabe0abbd89694e8eaae07b11a3cdeb2449644d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 40/47] fix: transforms were written with three decimals
 whatever the chosen precision

---
 encoder.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index f89fee2..d884d98 100644
--- a/encoder.go
+++ b/encoder.go
@@ -327,7 +327,7 @@ func (e *Encoder) writeBuild(x spec.Encoder, m *Model) error {
 		}}
 		if item.HasTransform() {
 			xi.Attr = append(xi.Attr, xml.Attr{
-				Name: xml.Name{Local: attrTransform}, Value: item.Transform.String(),
+				Name: xml.Name{Local: attrTransform}, Value: formatMatrix(item.Transform, x.FloatPresicion()),
 			})
 		}
 		if item.PartNumber != "" {
@@ -476,7 +476,7 @@ func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) error {
 			},
 		}
 		if c.HasTransform() {
-			xt.Attr = append(xt.Attr, xml.Attr{Name: xml.Name{Local: attrTransform}, Value: c.Transform.String()})
+			xt.Attr = append(xt.Attr, xml.Attr{Name: xml.Name{Local: attrTransform}, Value: formatMatrix(c.Transform, x.FloatPresicion())})
 		}
 		if err := c.AnyAttr.Marshal3MF(x, &xt); err != nil {
 			return err
@@ -619,3 +619,15 @@ func (r *BaseMaterials) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
 	x.EncodeToken(xt.End())
 	return nil
 }
+
+// formatMatrix returns the string representation of a matrix
+// using the given number of decimals.
+func formatMatrix(m Matrix, prec int) string {
+	values := make([]string, 0, 12)
+	for i, v := range m {
+		if i%4 != 3 {
+			values = append(values, strconv.FormatFloat(float64(v), 'f', prec, 32))
+		}
+	}
+	return strings.Join(values, " ")
+}
-- 
2.43.0


From 4ba4f58e440885f024f2d3afb152e0d8583d8956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 41/47] fix: text inside unknown elements was lost

---
 read.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/read.go b/read.go
index abb8a07..a73924d 100644
--- a/read.go
+++ b/read.go
@@ -122,10 +122,13 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		}
 	}
 	x.OnChar = func(tp xml.CharData) {
-		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
-			currentDecoder.CharData(tp)
+		if charDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
+			charDecoder.CharData(tp)
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp.Copy()) // tp is only valid until the next token
+			// white space between elements is not content
+			if len(bytes.TrimSpace(tp)) != 0 {
+				appendDecoder.AppendToken(tp.Copy()) // tp is only valid until the next token
+			}
 		}
 	}
 	var i int
-- 
2.43.0


From 74acf2e2d5b23fc0efb2d6f07b6a7ed5a157f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 42/47] fix: names in name spaces that are not declared
 produced malformed or wrong xml

---
 internal/xml/printer.go | 65 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 7 deletions(-)

diff --git a/internal/xml/printer.go b/internal/xml/printer.go
index 23e895e..da5fe4e 100644
--- a/internal/xml/printer.go
+++ b/internal/xml/printer.go
@@ -3,6 +3,7 @@ package xml
 import (
 	"bufio"
 	"encoding/xml"
+	"strconv"
 )
 
 const (
@@ -16,13 +17,17 @@ type Printer struct {
 	attrPrefix     map[string]string // map name space -> prefix
 	depth          int               // number of open elements
 	scopes         []prefixScope     // prefixes replaced by the open elements
+	space          string            // default name space
+	used           map[string]bool   // prefixes that have ever been declared
 }
 
 // A prefixScope holds the prefix a name space had
-// before being declared by the element at the given depth.
+// before being declared by the element at the given depth,
+// or the previous default name space.
 type prefixScope struct {
 	depth         int
 	space, prefix string
+	isDefault     bool
 }
 
 // declarePrefixes registers the prefixes declared by the attributes of an
@@ -30,20 +35,60 @@ type prefixScope struct {
 func (p *Printer) declarePrefixes(attrs []xml.Attr) {
 	for _, attr := range attrs {
 		if attr.Name.Space == "xmlns" && attr.Name.Local != "" {
-			if p.attrPrefix == nil {
-				p.attrPrefix = make(map[string]string)
-			}
-			p.scopes = append(p.scopes, prefixScope{p.depth, attr.Value, p.attrPrefix[attr.Value]})
-			p.attrPrefix[attr.Value] = attr.Name.Local
+			p.declarePrefix(attr.Value, attr.Name.Local)
+		} else if attr.Name.Space == "" && attr.Name.Local == "xmlns" {
+			p.scopes = append(p.scopes, prefixScope{depth: p.depth, space: p.space, isDefault: true})
+			p.space = attr.Value
 		}
 	}
 }
 
+func (p *Printer) declarePrefix(space, prefix string) {
+	if p.attrPrefix == nil {
+		p.attrPrefix = make(map[string]string)
+	}
+	if p.used == nil {
+		p.used = make(map[string]bool)
+	}
+	p.scopes = append(p.scopes, prefixScope{depth: p.depth, space: space, prefix: p.attrPrefix[space]})
+	p.attrPrefix[space] = prefix
+	p.used[prefix] = true
+}
+
+// declareMissing declares new prefixes for the name spaces used by an element
+// that cannot be written otherwise, and returns them as attributes.
+func (p *Printer) declareMissing(start *xml.StartElement) []xml.Attr {
+	var missing []xml.Attr
+	if start.Name.Space != p.space {
+		missing = p.declareSpace(missing, start.Name.Space)
+	}
+	for i := range start.Attr {
+		missing = p.declareSpace(missing, start.Attr[i].Name.Space)
+	}
+	return missing
+}
+
+func (p *Printer) declareSpace(missing []xml.Attr, space string) []xml.Attr {
+	if space == "" || space == "xmlns" || space == nsXML || p.attrPrefix[space] != "" {
+		return missing
+	}
+	prefix := ""
+	for i := 1; prefix == "" || p.used[prefix]; i++ {
+		prefix = "ns" + strconv.Itoa(i)
+	}
+	p.declarePrefix(space, prefix)
+	return append(missing, xml.Attr{Name: xml.Name{Space: "xmlns", Local: prefix}, Value: space})
+}
+
 // endElement leaves the scope of the prefixes declared by the current element.
 func (p *Printer) endElement() {
 	for len(p.scopes) > 0 && p.scopes[len(p.scopes)-1].depth == p.depth {
 		scope := p.scopes[len(p.scopes)-1]
-		p.attrPrefix[scope.space] = scope.prefix
+		if scope.isDefault {
+			p.space = scope.space
+		} else {
+			p.attrPrefix[scope.space] = scope.prefix
+		}
 		p.scopes = p.scopes[:len(p.scopes)-1]
 	}
 	p.depth--
@@ -83,6 +128,7 @@ func (p *Printer) EscapeString(s string) {
 func (p *Printer) WriteStart(start *xml.StartElement) {
 	p.depth++
 	p.declarePrefixes(start.Attr)
+	missing := p.declareMissing(start)
 	p.WriteByte('<')
 	if start.Name.Space != "" {
 		if prefix := p.attrPrefix[start.Name.Space]; prefix != "" {
@@ -91,6 +137,11 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 		}
 	}
 	p.WriteString(start.Name.Local)
+	for _, attr := range missing {
+		p.WriteString(" xmlns:" + attr.Name.Local + `="`)
+		p.EscapeString(attr.Value)
+		p.WriteByte('"')
+	}
 
 	// Attributes
 	for _, attr := range start.Attr {
-- 
2.43.0


From 6798e11dcbb18ae79086f6901d24d31aa2a6e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:19 +0000
Subject: [PATCH 43/47] fix: report out-of-range beam indices also when both
 are the same

---
 beamlattice/validate.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/beamlattice/validate.go b/beamlattice/validate.go
index 3b9dc25..f5096d7 100644
--- a/beamlattice/validate.go
+++ b/beamlattice/validate.go
@@ -49,11 +49,10 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 	for i, b := range bl.Beams.Beam {
 		if b.Indices[0] == b.Indices[1] {
 			errs = errors.Append(errs, errors.WrapIndex(ErrLatticeSameVertex, attrBeam, i))
-		} else {
-			l := len(obj.Mesh.Vertices.Vertex)
-			if int(b.Indices[0]) >= l || int(b.Indices[1]) >= l {
-				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrBeam, i))
-			}
+		}
+		l := len(obj.Mesh.Vertices.Vertex)
+		if int(b.Indices[0]) >= l || int(b.Indices[1]) >= l {
+			errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrBeam, i))
 		}
 		if b.Radius[0] != 0 && b.Radius[0] != bl.Radius && b.Radius[0] != b.Radius[1] {
 			errs = errors.Append(errs, errors.WrapIndex(ErrLatticeBeamR2, attrBeam, i))
-- 
2.43.0


From 649012d87d42a4de510dd041c5187bc5c583b5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 44/47] fix: objects with an empty list of components were
 valid

---
 validate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validate.go b/validate.go
index 6028945..f9e1b62 100644
--- a/validate.go
+++ b/validate.go
@@ -210,7 +210,7 @@ func (r *Object) Validate(m *Model, path string) error {
 	if r.PIndex != 0 && r.PID == 0 {
 		errs = errors.Append(errs, errors.NewMissingFieldError(attrPID))
 	}
-	if (r.Mesh != nil && r.Components != nil) || (r.Mesh == nil && r.Components == nil) {
+	if (r.Mesh != nil && r.Components != nil) || (r.Mesh == nil && (r.Components == nil || len(r.Components.Component) == 0)) {
 		errs = errors.Append(errs, errors.ErrInvalidObject)
 	}
 	if r.Mesh != nil {
-- 
2.43.0


From 968f4c566f16bdcd948e8bc635c446a5c14a8189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:09 +0000
Subject: [PATCH 45/47] fix: bound all the transformed corners of a box

Matrix.MulBox only transformed the minimum and the maximum corner, so
the result did not contain the geometry when the matrix has a rotation
or a shear.
---
 math.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/math.go b/math.go
index 4612e0b..dfca817 100644
--- a/math.go
+++ b/math.go
@@ -173,23 +173,22 @@ func (m1 Matrix) Mul2D(v Point2D) Point2D {
 }
 
 // MulBox performs a "matrix product" between this matrix
-// and a box
+// and a box. The result is the smallest box that contains
+// the eight transformed corners.
 func (m1 Matrix) MulBox(b Box) Box {
 	if m1[15] == 0 {
 		return b
 	}
 	box := Box{
-		Min: m1.Mul3D(b.Min),
-		Max: m1.Mul3D(b.Max),
+		Min: Point3D{m1[12], m1[13], m1[14]},
+		Max: Point3D{m1[12], m1[13], m1[14]},
 	}
-	if box.Min.X() > box.Max.X() {
-		box.Min[0], box.Max[0] = box.Max[0], box.Min[0]
-	}
-	if box.Min.Y() > box.Max.Y() {
-		box.Min[1], box.Max[1] = box.Max[1], box.Min[1]
-	}
-	if box.Min.Z() > box.Max.Z() {
-		box.Min[2], box.Max[2] = box.Max[2], box.Min[2]
+	for i := range box.Min {
+		for j := range b.Min {
+			x, y := m1[4*j+i]*b.Min[j], m1[4*j+i]*b.Max[j]
+			box.Min[i] += min(x, y)
+			box.Max[i] += max(x, y)
+		}
 	}
 	return box
 }
-- 
2.43.0


From 706d58fb4001bc74ab04ac385b7f543fc0c3b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:12 +0000
Subject: [PATCH 46/47] fix: a model without geometry has an empty bounding box

When no build item had a bounding box, Model.BoundingBox returned an
inverted box.
---
 core.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core.go b/core.go
index 7c9ad7d..6e721e4 100644
--- a/core.go
+++ b/core.go
@@ -246,6 +246,9 @@ func (m *Model) BoundingBox() Box {
 		}(i)
 	}
 	wg.Wait()
+	if box == newLimitBox() { // no item has a box
+		return emptyBox
+	}
 	return box
 }
 
-- 
2.43.0


From bcdec5ad2cfdd11bde51dff63a657712cec9dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:02 +0000
Subject: [PATCH 47/47] fix: vertices beyond 2147 units were merged although
 they differ

---
 math.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/math.go b/math.go
index dfca817..7853973 100644
--- a/math.go
+++ b/math.go
@@ -35,20 +35,21 @@ func newPairEntry(data1, data2 uint32) pairEntry {
 	return pairEntry{data2, data1}
 }
 
-// vec3I represents a 3D vector typed as int32
+// vec3I represents a 3D vector of whole microns.
+// They are kept as float64, as they can exceed any integer type.
 type vec3I struct {
-	X int32 // X coordinate
-	Y int32 // Y coordinate
-	Z int32 // Z coordinate
+	X float64 // X coordinate
+	Y float64 // Y coordinate
+	Z float64 // Z coordinate
 }
 
 const micronsAccuracy = 1e-6
 
 func newvec3IFromVec3(vec Point3D) vec3I {
 	a := vec3I{
-		X: int32(math.Floor(float64(vec.X() / micronsAccuracy))),
-		Y: int32(math.Floor(float64(vec.Y() / micronsAccuracy))),
-		Z: int32(math.Floor(float64(vec.Z() / micronsAccuracy))),
+		X: math.Floor(float64(vec.X() / micronsAccuracy)),
+		Y: math.Floor(float64(vec.Y() / micronsAccuracy)),
+		Z: math.Floor(float64(vec.Z() / micronsAccuracy)),
 	}
 	return a
 }
-- 
2.43.0

