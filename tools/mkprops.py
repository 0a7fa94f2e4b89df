#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids stay stable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Decoded data never aliases the parser's reused buffers",
 "Every string and byte slice that decoding stores in a model, including attributes, character data and unknown-extension content, is a private copy: it shares no memory with the buffers the XML parser reuses for later tokens. Reading further tokens therefore never changes data that was already decoded.",
 ["inputs"],"every document, every attribute and text position of every element, any amount of following input",
 "Tests compare the model after decoding tiny documents; an aliased buffer shows only when a later token happens to overwrite the same bytes.",
 ["internal/xml/xml.go","read.go","decoder.go","spec/unknown.go","materials/decoder.go","beamlattice/decoder.go","slices/decoder.go","production/decoder.go"],
 [("attribute and text values copied on store","decoder.go, */decoder.go (string(a.Value))"),("token copying for unknown content","read.go OnStart/OnChar, spec/unknown.go"),("name interning copies the buffer","internal/xml/xml.go name()")],
 [("attrPool/strPool/buf","buffers reused for every token","internal/xml/xml.go Decoder")])
p("C02","Decoding never panics, whatever elements and attributes appear where",
 "Decoding a syntactically readable model part returns normally, with or without an error, for every nesting and naming of its elements and attributes: known elements in unexpected places, repeated or nested roots, repeated sections, attributes of a registered or unknown extension on any element, missing sections. It never panics on the structure of the document or of the model it is given.",
 ["inputs"],"all parent/child element combinations over the names known to the core and the extensions plus unknown ones, with attributes of every namespace on every element",
 "The tests decode a handful of well-formed documents; the combinations of element, parent and attribute namespace are never enumerated.",
 ["read.go","decoder.go","spec/spec.go","materials/decoder.go","beamlattice/decoder.go","slices/decoder.go","production/decoder.go"],
 [("decoder stack push/pop","read.go decodeModelFile"),("dispatch by name","ChildElementDecoder.Child implementations"),("extension attribute groups","spec.NewAttrGroup and Spec.NewAttrGroup implementations")])
p("C03","Malformed attribute values are always reported",
 "Whenever a typed attribute (number, colour, matrix, enumeration, UUID or list of these) of an element that the library decodes has a value that cannot be parsed, decoding a well-formed document returns an error that identifies that attribute by name, whatever other attributes or elements surround it. Non-strict decoding reports every malformed attribute, so that one never hides another; strict decoding stops at the first and reports it.",
 ["inputs"],"every typed attribute of every element of the core and the four extensions; value malformed; any position among other attributes",
 "Tests use one big document with fixed malformed values; each attribute is exercised in one position only and dropped errors on rarely used attributes are invisible.",
 ["decoder.go","read.go","materials/decoder.go","beamlattice/decoder.go","slices/decoder.go","production/decoder.go","errors/list.go"],
 [("ParseAttrError construction","Start/Unmarshal3MFAttr methods"),("collection in strict and non-strict mode","read.go decodeModelFile")])
for cid,name,files,extra in [
 ("C04","core",["core.go","encoder.go","decoder.go","math.go"],"model, metadata, build items, objects, meshes (vertices, triangles with their properties), components and base materials"),
 ("C05","materials",["materials/materials.go","materials/encoder.go","materials/decoder.go"],"textures, texture and colour groups, composites and multi-properties"),
 ("C06","beam lattice",["beamlattice/beamlattice.go","beamlattice/encoder.go","beamlattice/decoder.go"],"lattice attributes, beams with radii and cap modes, beam sets and references"),
 ("C07","slice",["slices/slices.go","slices/encoder.go","slices/decoder.go"],"slice stacks, slices, vertices, polygons, segments, references and the object attributes"),
 ("C08","production",["production/production.go","production/encoder.go","production/decoder.go","uuid/uuid.go"],"UUIDs and paths on build, items, objects and components"),
]:
    p(cid,f"The {name} writer and reader agree on every field",
     f"For the {name} data ({extra}): every field that differs from its default is written under the element and attribute name the reader stores into that same field, in list order, and a field the writer omits is one the reader restores to the same value from its absence. No field is written from, or read into, another field.",
     ["inputs"],"every field of every type of this part of the model, set and unset, alone and together with the others",
     "Round-trip tests use one fixture per package in which most fields are set at once; omission rules and defaults of single fields are not covered.",
     files,[("attribute emission and omission","encoder"),("attribute dispatch and defaults","decoder Start/Unmarshal3MFAttr")])
p("C09","Enumerations and their text forms are mutually inverse",
 "For every enumeration of the model (units, object type, texture type, tile style, filter, blend method, clip and cap modes, slice mesh resolution) each named value has a distinct non-empty text form that the reader maps back to exactly that value, and any other text is rejected as malformed.",
 ["inputs"],"all named values and all other strings",
 "Tests check a few literal values; adding, swapping or duplicating an entry in one direction of a table goes unnoticed.",
 ["core.go","decoder.go","materials/materials.go","beamlattice/beamlattice.go","slices/slices.go"],[("String methods and the reader's lookup tables","core.go, materials.go, beamlattice.go, slices.go")])
p("C10","Content of unregistered extensions survives decode and encode",
 "Elements and attributes in a namespace no registered extension claims are kept at every extension point, with all names, attribute values, text and nesting, in document order, and are written back completely. Nothing after or beside them is lost, wherever they occur and however deeply same-named elements nest, and their presence never makes decoding or encoding fail. (White space that only separates elements is layout, not content, and the id of an unknown resource still has to be a number.)",
 ["inputs"],"arbitrary nested unknown content at model, resources, mesh and attribute level, in the root and in child parts",
 "Tests use one flat unknown element without text or same-name nesting.",
 ["spec/unknown.go","spec/spec.go","read.go","decoder.go","encoder.go"],[("token accumulation","spec.UnknownTokensDecoder, read.go callbacks"),("extension lists written back","spec.Any/AnyAttr.Marshal3MF and their callers")])
p("C11","Encoded parts are balanced XML with the encoder mode restored",
 "For every model, each element the encoder opens is closed exactly once, by an end tag of the same name in the right order or by self-closing, and self-closing and escape-skipping modes are back off after each group that switched them on. Content is never written inside a self-closed element.",
 ["inputs"],"all shapes of models: any list empty or not, optional parts present or absent, core and extensions",
 "Tests encode a few fixed models; a mode leak appears only for particular sequences of optional parts.",
 ["encoder.go","internal/xml/printer.go","materials/encoder.go","beamlattice/encoder.go","slices/encoder.go","spec/unknown.go"],[("SetAutoClose/SetSkipAttrEscape pairing","all Marshal3MF implementations"),("start/end tokens","Printer.WriteStart/WriteEnd")])
p("C12","User-provided text is always escaped on output",
 "Any string that comes from the model (names, paths, metadata, unknown attribute values, character data) is XML-escaped when written; escaping is skipped only for values the library formats itself from numbers and that need none.",
 ["inputs"],"every string field of the model with arbitrary content",
 "Tests never put markup characters in fields written while escaping is off.",
 ["encoder.go","internal/xml/printer.go","materials/encoder.go","beamlattice/encoder.go","slices/encoder.go","production/encoder.go"],[("SkipAttrEscape regions","encoder.go, extensions' encoders"),("EscapeString/EscapeText","internal/xml/printer.go")])
p("C13","Encoding never reports success after a failure",
 "If any step of encoding fails (creating a part, writing to it, copying an attachment, flushing, an asset, extension element or attribute group refusing to marshal, closing the package) the encode call returns a non-nil error.",
 ["fault_sequences"],"a failure of any single step, for any model shape",
 "Tests inject failures in two steps through a mock; the other steps are never made to fail.",
 ["encoder.go","opc.go","spec/spec.go","materials/encoder.go","beamlattice/encoder.go","slices/encoder.go","production/encoder.go","internal/xml/printer.go"],[("error propagation","Encoder.Encode and everything it calls")])
p("C14","Output, walks and validation are deterministic",
 "Encoding the same model writes the same parts, relationships and elements in the same order every time, and walking and validating visit and report in the same order every time: nothing observable depends on the iteration order of a map or on goroutine scheduling.",
 ["schedules","inputs"],"all models with several child parts, all map iteration orders",
 "Go randomises map order per run; a test with one child part or without order comparison cannot notice.",
 ["encoder.go","validate.go","core.go","opc.go"],[("sorted child paths","validate.go sortedChilds")])
p("C15","Referenced parts get their relationships",
 "When a model is encoded, every part it references by path (child model parts, thumbnails of the model and of objects, textures) ends up as the target of a relationship of the referring part (of the type belonging to that reference when it was not a target yet), every relationship already in the model is written, and none is written twice.",
 ["inputs"],"any combination of references and pre-existing relationships",
 "Tests check one texture and one thumbnail with distinct paths.",
 ["encoder.go","opc.go","materials/encoder.go"],[("AddRelationship","xmlEncoder.AddRelationship, opcPart.AddRelationship, opcWriter.AddRelationship")])
p("C16","Read-only operations leave the model unchanged",
 "Encoding, validating, checking coherency, computing bounding boxes, walking and finding never modify the model they are given nor any memory reachable from it, including spare capacity of its slices (consuming attachment streams excepted).",
 ["inputs"],"all models and all read-only entry points",
 "Tests compare outputs, not the input model afterwards, and never share backing arrays.",
 ["encoder.go","validate.go","core.go","materials/validate.go","beamlattice/validate.go","slices/validate.go","production/validate.go"],[("copy before append","encoder.go")])
p("C17","Error aggregation keeps every error",
 "Combining errors keeps every non-nil error exactly once and in order, ignores nil ones, and is nil only when nothing failed; wrapping an error with its location keeps the cause reachable through standard unwrapping and adds the location to each error of a list.",
 ["inputs"],"all combinations of nil, single and list operands",
 "Tests cover the combinations pairwise with one element each; position bookkeeping is checked for a single nesting.",
 ["errors/list.go","errors/errors.go"],[("Append/Wrap/Unwrap","errors/list.go, errors/errors.go")])
p("C18","Out-of-range indices are rejected by validation",
 "Validation reports an index-out-of-bounds error exactly when some index into a list (triangle and beam vertices, triangle and object property indices, composite and multi-property entries, texture coordinates, beam-set references, slice polygon and segment vertices) is not smaller than the length of the list it refers to, including the boundary case index == length.",
 ["inputs"],"every index field, every ordering of index against length",
 "Tests use indices far out of range for some fields; the boundary value is untested for most.",
 ["validate.go","materials/validate.go","beamlattice/validate.go","slices/validate.go"],[("index comparisons","Validate methods")])
p("C19","Dangling references are rejected by validation",
 "Validation reports an error for every reference that does not resolve: build items and components to objects, object and triangle property ids, material, texture, slice-stack, clipping and representation-mesh ids, slice references, relationship targets and required extensions; and reports none for references that do resolve to the right kind of resource.",
 ["inputs"],"every reference field, target present, absent or of the wrong kind",
 "Tests cover each error once in a fixture; the negative and wrong-kind cases of most references are not covered.",
 ["validate.go","materials/validate.go","beamlattice/validate.go","slices/validate.go","production/validate.go"],[("FindObject/FindAsset/LoadValidator checks","Validate methods")])
p("C20","Missing and duplicated mandatory data is rejected by validation",
 "Validation reports a missing identifier, missing mandatory field, empty mandatory list, duplicated identifier, duplicated metadata name or duplicated relationship for every resource, object, item, component, slice and relationship that has it, in the root and in child parts, and locates it by element and index.",
 ["inputs"],"every mandatory field and every pair of resources sharing an identifier",
 "Tests contain one example for some of them; interactions across assets, objects and parts are not covered.",
 ["validate.go","materials/validate.go","beamlattice/validate.go","slices/validate.go","production/validate.go"],[("mandatory checks","Validate methods")])
p("C21","Mesh coherency accepts exactly edge-matched meshes",
 "A mesh passes the coherency check only if every edge used by its triangles is used exactly once in each direction: the pairing of edges does not depend on the order of the two vertices, every edge of every triangle is counted, and a count other than one in either direction is an error.",
 ["inputs"],"all triangle lists; all orderings of vertex indices",
 "Tests use a cube and one broken mesh.",
 ["validate.go","math.go"],[("edge pairing","Mesh.ValidateCoherency, pairMatch")])
p("C22","Concurrent decoding and analysis are free of data races",
 "Work the library runs concurrently (decoding child parts, bounding boxes, coherency checks) never has two goroutines accessing the same memory without synchronisation when one writes, and every goroutine has finished before the call returns.",
 ["schedules"],"all interleavings, any number of child parts, items and objects",
 "Races need two child parts with particular content and a particular interleaving; the test suite is not run with such inputs.",
 ["read.go","core.go","validate.go","decoder.go"],[("WaitGroup/Mutex","processNonRootModels, BoundingBox, ValidateCoherency")])
p("C23","The extension registry is safe for concurrent use",
 "Registering and looking up extensions may happen from any goroutine at any time: every access to the registry happens with its lock held (exclusively for updates), and the lock is released on every path before control returns to the caller or reaches extension code.",
 ["schedules"],"all interleavings of registration and lookup",
 "Tests register once from one goroutine.",
 ["spec/spec.go"],[("specMu","spec/spec.go")])
p("C24","Opened files and part streams are always released",
 "Every file or package-part stream the library opens itself is closed on every path, including error and early-return paths, or is handed to the caller in an object whose Close closes it.",
 ["fault_sequences"],"failure at any step after opening",
 "Leaks are invisible to the assertions; no test makes the later steps fail.",
 ["read.go","encoder.go"],[("defer Close / explicit close","OpenReader, CreateWriter, processRootModel, readChildModel, copyFile")])
p("C25","A cancelled context stops every decode and is reported",
 "If the context passed to a decode call is cancelled while there is input left, decoding stops after a bounded number of further tokens or facets and returns the context's error, in every reader that takes a context (3MF root part, 3MF child parts, ASCII STL, binary STL); it never reports success for a truncated result.",
 ["schedules","histories"],"cancellation at any moment, any input length",
 "Tests cancel before the start of a small document.",
 ["read.go","importer/stl/ascii.go","importer/stl/binary.go","importer/stl/decoder.go"],[("periodic ctx.Done checks","decodeModelFile, asciiDecoder.decode, binaryDecoder.decode")])
p("C26","Cyclic object graphs cannot cause unbounded recursion",
 "Operations that follow references between objects (bounding boxes, validation) terminate for every model, including objects whose components refer to each other in a cycle of any length and across parts.",
 ["inputs"],"all component graphs, including cyclic ones",
 "Tests contain a direct self reference at most.",
 ["core.go","validate.go","slices/validate.go"],[("visited tracking in recursive walks","Object bounding box, slice transform validation")])
p("C27","A failed STL import leaves the model untouched",
 "When decoding an STL file fails for any reason (read error, malformed number, truncated data, cancellation) the target model is left exactly as it was; on success exactly one object and one build item referring to it are added.",
 ["fault_sequences","inputs"],"failure at any point of the input",
 "Tests check the returned error, not the model after a failure.",
 ["importer/stl/decoder.go","importer/stl/ascii.go","importer/stl/binary.go"],[("model updated only after success","importer/stl/decoder.go")])
p("C28","Memory is not sized by untrusted counts",
 "No allocation made while reading a file has a size taken from a count declared in that file without an independent bound; memory grows only with data actually read.",
 ["inputs"],"every declared count, including huge ones in truncated files",
 "Tests use honest headers.",
 ["importer/stl/binary.go","decoder.go","slices/decoder.go","materials/decoder.go","beamlattice/decoder.go"],[("make() sizes","all reader code")])
p("C29","Generated UUIDs are valid and missing ones are filled in",
 "Every UUID the library generates carries the version-4 and variant bits, and accepting a UUID string checks a hexadecimal digit or separator at every position of the accepted layouts; filling in missing UUIDs gives one to every build, item, object and component, in root and child parts, that has none and changes no existing one.",
 ["inputs"],"all random values, all strings, all models",
 "Tests check a few literals and one model shape.",
 ["uuid/uuid.go","production/production.go"],[("bit masks and tables","uuid/uuid.go"),("walk over all objects","production.SetMissingUUIDs")])
p("C30","Decoding never reports success after a read failure",
 "If opening the package or a part, reading it, or parsing its XML fails, or a part ends before its open elements are closed, the decode call returns a non-nil error; attachments are never silently dropped because they could not be read.",
 ["fault_sequences"],"a failure at any single step, truncation at any byte",
 "Tests inject failures in three steps through a mock.",
 ["read.go","opc.go","internal/xml/xml.go"],[("error propagation","DecodeContext and everything it calls"),("EOF handling with a non-empty element stack","internal/xml/xml.go popEOF/RawToken")])
p("C31","Each part's content goes to that part of the model only",
 "Decoding a package puts resources and extension content of the root part in the model itself and those of each child part in the child registered under that part's name, and never mixes them; every non-model part reachable by a relationship becomes exactly one attachment, and each relationship is recorded on the part that owns it.",
 ["inputs"],"any number of child parts, relationships and targets",
 "Tests use one child part with one object.",
 ["read.go","decoder.go"],[("part routing by path","decodeModelFile path argument, modelDecoder.Child"),("extractCoreAttachments/addAttachment","read.go")])
p("C32","A new resource id never collides",
 "The id proposed for a new resource is non-zero and differs from the id of every asset and object already in the resources, whatever ids are present, including repeated and zero ones.",
 ["inputs"],"all multisets of existing ids",
 "Tests cover three small lists of distinct ids.",
 ["core.go"],[("UnusedID","core.go")])
p("C33","Numbers survive an encode/decode cycle within the chosen precision",
 "Coordinates, radii, ratios and matrices are written with exactly the number of decimals the user chose, and each written number is read back, at single precision, into the place it came from; so an encode/decode cycle changes no number by more than the chosen decimal precision.",
 ["inputs"],"all float32 values and precisions",
 "A few literals are compared.",
 ["encoder.go","math.go","spec/utils.go"],[("FormatFloat/ParseFloat","encoders and decoders")])
p("C34","Bounding boxes enclose the transformed geometry tightly",
 "Up to the rounding of float32 arithmetic: Mul3D, Mul2D, Mul, Translate and Identity agree with the algebra of affine maps on row vectors (m.Mul(n) first applies n, then m); Matrix.MulBox returns the smallest axis-aligned box that contains the image of the box, whatever rotation, mirroring or shear the matrix has, and the box itself if the matrix was not set; Mesh.BoundingBox returns the smallest axis-aligned box that contains every vertex; and Model.BoundingBox returns the smallest box that contains the image, under its matrix, of the box of every item, where the box of an object with components is the smallest one that contains the images of the boxes of its components, found in the part the item or component refers to. Items and components whose object is missing or has no geometry do not count, and a mesh or a model without any geometry has the empty box, Box{}.",
 ["inputs"],"all finite meshes, all affine matrices, all acyclic models",
 "A few matrices, which only scale and translate, are tried.",
 ["math.go","core.go"],[("MulBox/Mul/Mul3D/extend","math.go"),("BoundingBox","core.go")])
p("C35","The XML tokenizer accepts exactly well-formed documents",
 "The built-in XML tokenizer delivers, for every well-formed XML document, the elements, attributes and text that document denotes, and rejects every document that is not well-formed.",
 ["inputs"],"all byte streams",
 "Only the documents in the fixtures are parsed.",
 ["internal/xml/xml.go"],[("RawToken/text/name","internal/xml/xml.go")])
p("C36","An STL import reproduces the facets of the file",
 "A successful import of a binary or ASCII STL file adds a mesh with exactly one triangle per facet, in the order of the file, whose corners, in the order of the facet, are vertices at the coordinates the file gives. Corners with the same coordinates share one vertex; corners that are more than a micron (1e-6) apart along any axis never do, however large the coordinates are (up to the rounding and the range of float32). MeshBuilder.AddVertex does the same while CalculateConnectivity is set, and otherwise adds a vertex on every call; it always returns the index of a vertex at the given position.",
 ["inputs","histories"],"all STL files, all sequences of vertices",
 "A few small solids with small coordinates are imported.",
 ["core.go","math.go","importer/stl"],[("AddVertex","core.go"),("newvec3IFromVec3","math.go"),("decode","importer/stl")])
p("C37","Encoding writes every part once, with its type and content",
 "A successful Encode writes a package with exactly these parts, each once: the root model part under the model's path (or the default one), a model part for each child under its path (a relative one is resolved against the root part), and each attachment under its path with its content type and the whole content of its stream. Each model part is one XML document with a declaration. A part is complete before the next one begins, and the package is closed in the end.",
 ["inputs"],"all models with attachments and child parts",
 "Tests encode few models with a single child part and attachments, and mostly into a mocked package.",
 ["encoder.go","opc.go"],[("writeAttachements","encoder.go"),("writeChildModels","encoder.go"),("opcWriter.Create","opc.go")])
p("C38","Lookups and walks cover exactly the resources of each part",
 "FindResources, FindAsset and FindObject find something exactly if the part exists and holds a resource of that kind with that identifier, and then return it and nothing of another part; the root part is known by the empty path, by the model's path and, while that is not set, by the default one. WalkAssets and WalkObjects call the function once for every resource of every part, the child parts in lexical order with their paths and then the root with the empty one; they stop at the first error and return it, and otherwise return nil. HasTransform is false only for an unset matrix and the identity.",
 ["inputs"],"all models, all paths and identifiers, every outcome of the function",
 "Tests look a few resources up in one small model.",
 ["core.go"],[("FindResources","core.go"),("FindAsset","core.go"),("FindObject","core.go"),("WalkAssets","core.go"),("WalkObjects","core.go")])
p("C39","Validation enforces the structural rules, and only them",
 "Validation reports, at the element, index and part that breaks it, every violation of the structural rules of the specifications: triangles and beams between distinct vertices, at least three vertices and four triangles in a mesh of a model or solid support, an object with either a mesh or components and no property on components, no object that is its own component, no item of type other, well-known metadata names, part names and print tickets of relationships, blend methods and the kinds of groups in multi-properties, lattices in models and solid supports, increasing slices above the bottom, references of slice stacks to stacks of other parts in order, closed polygons and planar transforms of sliced solids, low resolution meshes only with a required extension, paths only in the root part, and well-formed UUIDs; and it reports nothing for models at the other side of the border of these rules.",
 ["inputs"],"every structural rule, on every kind of element that it applies to, in root and child parts, on both sides of its border",
 "Tests have one fixture with an example of most errors; borders, other positions, other parts and the absence of errors on valid neighbours are not covered.",
 ["validate.go","materials/validate.go","beamlattice/validate.go","slices/validate.go","production/validate.go"],[("structural checks","Validate methods")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
