#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.tmpl, the rows below and seeded/*/meta.json."""
import json,os,glob
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
rows={
"C01":("value flow: atoms stand for the parser's buffers; the final model and error may hold them only below a copying operation; strings made through package unsafe must not escape the tokenizer","every element of the schema with all its attributes, foreign attributes, text and unknown children"),
"C02":("panicking instructions (assertion, index, slice, nil, map write, explicit panic) reached while interpreting document classes must be proved safe","each element x attribute name spaces x children, repetition, truncation, pre-filled models"),
"C03":("the returned error must contain a ParseAttrError with the attribute's name, on all paths","each typed attribute x malformed classes x position x pairs x strict/non-strict"),
"C04":("codec on the core model","see codec; lists up to 2 (quick) or 3"),
"C05":("codec on materials","as C04"),
"C06":("codec on beam lattice","as C04"),
"C07":("codec on slices","as C04"),
"C08":("codec on production and metadata-like parts","as C04"),
"C09":("String() then the reader by constant propagation; other texts symbolic","all constants of all enumerations"),
"C10":("codec with unknown content at every extension point; reader on generated documents of unknown content","alone, mixed, several in a row, nested same-named, undeclared prefixes"),
"C11":("typestate (stack of open elements, self-closing and escape-skipping modes) by abstract interpretation with widening; abstract output of all codec shapes read as XML","first part: any model; second: codec shapes"),
"C12":("taint: a raw output piece must be constant or a formatted number","codec shapes with every text unconstrained"),
"C13":("every fallible step may fail; a failure on a path must reach the result as non-nil error; buffered output must be flushed and its error looked at","any model (Coarse mode)"),
"C14":("each operation interpreted under all 6 iteration orders of 3-entry maps; outputs, error lists and callback sequences compared; sources of randomness and time are flagged; goroutines may share no memory that one of them writes (C22's machinery, ignoring locks)","model with 3 child parts and several entries per map"),
"C16":("effect analysis: no store, map update, append into spare capacity, copy, delete, clear or sort may target model memory","any model (Coarse mode)"),
"C15":("Encode interpreted on models with references of every kind; the relationship lists that the package library has when each part is complete are compared with the references and with the relationships of the model","54 models: 7 ways of sharing paths x 6 kinds of lists present before, and single references; 3 parts with 4 objects and 3 textures each"),
"C25":("the decoders interpreted with the context cancelled before the i-th unit of input, for every i: the number of further units taken is bounded and the returned error carries the context's, unless everything had been read; package and STL readers alike","STL files of up to 40 facets (scaled interval), packages with a root and two child parts with some 30 tokens each; about 2700 obligations"),
"C27":("stl.Decoder.Decode interpreted on binary and ASCII files in which one step of reading fails; on failure the model must be the one before (every object, item and other field identical), on success one object and one item more, which refers to it","files of 0 to 14 facets; every read, number and cancellation point fails in turn; about 1600 obligations"),
"C24":("whatever is opened is followed to every return: os.Open/os.Create/part streams, found by signature (external function, closable result, no stream argument); at each return it must be closed or closing the returned object must close it; unreached opening places are violations","all exported functions that open; packages of 3 child parts with every step failing, cancelled at every fourth token, wrong content in each part; about 500 obligations"),
"C28":("everything that reads is interpreted on small inputs that declare billions: at each make, append and call that takes a size (Grow, Repeat, NewReaderSize ...) the size must be known and at most 16 Mi elements, and at most 250 appends may happen at a place between two pieces of input","STL: 0-4 facets x 5 declared counts x truncation; packages: 5 numbers x all grammar attributes, with and without every name the library compares strings with on every element; about 132000 obligations"),
"C30":("the decoder interpreted with each fallible step failing in turn: the result must be a non-nil error; its tokenizer interpreted byte by byte on parts that stop or fail at every byte: success only if every element has been closed","a package with 3 model parts and their attachments; parts of some 300 bytes x every byte x end/failure x root/child/UnmarshalModel x strict/lenient x chunk sizes; about 5400 obligations"),
"C31":("packages whose every value names its part are decoded and compared with what decoding each part alone gives (differential, on the abstract model), attachments and relationship lists with the package","4 kinds of documents x 6 orders of three child parts (thorough x4), about 25 relationships each; about 1650 obligations"),
"C26":("every exported operation on a model (found by its signature) interpreted on models whose objects, slice stacks, properties and lattices refer to each other in cycles; a function that calls itself deeper than there are things to visit, or an analysis that does not finish, is a violation","all graphs of components over two objects and every third over three (thorough: all), cycles of up to 7 (10) with a way in, over three parts; eighteen models with other cycles"),
"C29":("uuid.New interpreted with every byte of randomness a symbol: each byte of the result is judged for all 256 values of the byte it depends on; uuid.Validate with an arbitrary byte at each position of each layout; SetMissingUUIDs on models with identifiers present or missing at every place","all byte values; one position arbitrary at a time; models with up to three of everything"),
"C32":("Resources.UnusedID interpreted on resources whose identifiers are symbols; every equality that the code asks for forks the state; on every path the result must be decided to differ from zero and from each identifier","any identifiers for up to 3 (thorough 4) resources, some thousand chosen lists of up to 11"),
"C21":("Mesh.ValidateCoherency interpreted on small meshes whose vertex numbers are symbols of disjoint ranges, in every order; success and failure compared with an independent count of directed edges; Model.ValidateCoherency must report every solid object of every part","about 2300 meshes: all of 4 triangles over 4 vertices and some 60 shapes of up to 10 triangles under up to 24 (thorough 720) orders of the vertices"),
"C20":("Model.Validate interpreted on a valid model from which one mandatory field or list entry is taken away, or in which one identifier, name or relationship is repeated; an error of that kind must be located at the element, index and part that has it","about 380 obligations; one defect (or two) at a time; concrete values"),
"C19":("Model.Validate interpreted on a valid model in which one reference is replaced by an identifier that does not exist (a symbol over [1000, 2^32)), exists only in another part, belongs to another kind of thing, or by a path or extension that does not exist: an error of the right kind must be inside the element that holds the reference; with references that resolve there must be no error at all","about 900 obligations over all kinds of references, root and child parts; one wrong reference at a time"),
"C18":("Model.Validate interpreted on a model that meets every rule, with one index at a time (triangles, beams, beam sets, object and triangle properties of each kind of group, composites, multi-properties, polygons) replaced by a symbol that ranges over [0,len) and then over [len, 2^32): no index error, respectively one inside the element that holds the index","about 190 places of the root and of a child part, whose lists have different lengths; one wrong index (or several of an element) at a time"),
"C17":("Append, Wrap, WrapIndex and WrapPath interpreted on nil, plain, located and nested lists; the result unwrapped by its own methods must hold the same error objects in order; texts must contain the location, outer first","all combinations of 8 kinds of operand, up to 3 (thorough 4) at a time"),
"C22":("goroutines are interpreted inline; each access is recorded with goroutine, locks held and the set of goroutines it is not ordered with; unordered overlapping accesses with a write need a common lock; wait-group counters exact; nothing outlives the call; every go statement of the library must be reached","models/packages with 2-3 of everything, arbitrary contents; decoding with malformed values, failing parts, cancellation"),
"C23":("exported functions of package spec interpreted with arbitrary arguments; memory reachable from package-level variables that is written needs a common lock at every access, exclusive for writes; no lock at return or at calls into extensions","any registry content"),
"C34":("MulBox, Mul*, Translate, Identity and the BoundingBox methods are interpreted with polynomials over symbolic reals (engine hook for float arithmetic and comparison; the sign of a difference is decided termwise, quantities are ordered by magnitude classes); the resulting polynomials must equal those of the definition, for any algorithm that computes them (per-axis extremes, eight corners, math.Min)","27 sign patterns per column; every order of ≤4 (5) vertices; 16 model structures × 24 (300) arrangements; exact arithmetic"),
"C36":("the STL decoders (input modelled block by block or line by line) and MeshBuilder are interpreted with symbolic coordinates; map keys are compared by what is known about the distance of the rounded coordinates, narrowing conversions decide nothing; on every path the triangles must have the corners of the facets and share vertices exactly where these coincide","17 solids × 2 formats, 2 modes of MeshBuilder; exact arithmetic"),
"C37":("Encode is interpreted on models with attachments and child parts; the parts created, their types, what is written to each and when are compared with the model","48 models; streams and compression are opaque"),
"C38":("FindResources, FindAsset, FindObject, WalkAssets, WalkObjects and HasTransform are interpreted on concrete models; results and the sequence of calls, on every path, are compared with the definition","13 models × paths × identifiers, 4 map orders, all outcomes of the callback"),
"C39":("Model.Validate interpreted on a valid model changed so that it breaks one structural rule (the very error must be located at the element, index and part), and on models that just meet it (nothing may be reported)","about 1040 obligations; one rule at a time; concrete models; indirect recursion, transforms inherited from outer components, the second radius of beams and the name spaces of metadata are left out, since the code does not claim them"),
"C33":("codec: FormatFloat precision argument is the encoder's, ParseFloat into the same place","all numbers of the model"),
}
extra=os.path.join(here,"rows.json")
if os.path.exists(extra): rows.update({k:tuple(v) for k,v in json.load(open(extra)).items()})
t="| id | how it is decided | bounds |\n|----|----|----|\n"+"\n".join(f"| {k} | {a} | {b} |" for k,(a,b) in sorted(rows.items()))
s="Each is caught by the check named by its id's prefix unless stated.\n\n| id | needs |\n|----|----|\n"
for m in sorted(glob.glob(root+"/seeded/*/meta.json")):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    s+=f"| {i}{' (MISSED)' if d.get('missed') else ''} | {d['needs']} |\n"
x=open(os.path.join(here,"DESIGN.tmpl")).read().replace("@@TABLE@@",t).replace("@@SEEDS@@",s.rstrip())
open(root+"/DESIGN.md","w").write(x)
