CODEC="abstract interpretation (writer and reader composed on one symbolic model)"
CN="Every field is a distinct symbol; the abstract output of the writer is parsed back and the reader's result must hold the same symbols. Lists have bounded lengths (quick: up to 3); each obligation sets one place or one kind of struct arbitrarily. "+TRUST
for i in ("C04","C05","C06","C07","C08"): c(i,CODEC,CN)
c("C10",CODEC+"; abstract interpretation of the decoder on generated abstract documents","Unknown content is placed at every extension point, alone, mixed with registered content, several in a row, in undeclared name spaces; and before every child of every element of the grammar. Names of unknown content are constants, values are symbols. "+TRUST)
c("C11","typestate analysis by abstract interpretation with widening (any model size), plus abstract output read as XML","Open elements, self-closing and escape-skipping are tracked over all paths of Encode, MarshalModel and every Marshal3MF; the byte-level form of tokens is judged on models of bounded size. "+TRUST)
c("C12","taint analysis by abstract interpretation (abstract output with escaped and raw pieces)","Models of bounded size with every text unconstrained; text produced by strconv from numbers is known to need no escaping. "+TRUST)
c("C13","error-propagation analysis by abstract interpretation with widening (any model size)","Every fallible step fails or not; a failure on a path must reach the result as a non-nil error; buffered writes must be flushed before a part ends. "+TRUST)
c("C33",CODEC,"The rule is structural: every number with decimals is written with strconv.FormatFloat and the precision of the encoder and read back by strconv.ParseFloat into the same place; the numeric error bound is that of strconv. "+TRUST)
c("C14","abstract interpretation with order-permuted map iteration (relational comparison of abstract outputs), happens-before analysis of shared memory and reachability of nondeterminism sources","Each operation is interpreted under every iteration order of maps with three entries; outputs, errors and callback sequences must be identical; sources of randomness or time reached are reported. "+TRUST)
c("C16","effect analysis by abstract interpretation with widening (writes through model memory)","Every store, map update, append into spare capacity, copy, delete, clear and sort reached from the read-only operations must target memory that is not the model's; any model size. "+TRUST)
c("C22","static race detection: lockset and happens-before analysis by abstract interpretation","Goroutines are interpreted where they start; orderings by start, Done/Wait, channels and Once are tracked; every pair of unordered accesses to overlapping memory with a write needs a common lock. Models and packages with two or three of everything and arbitrary contents. Distinct pointers of the model are taken to be distinct. "+TRUST)
c("C23","typestate and lockset analysis of the registry's lock by abstract interpretation","All exported functions of package spec that use package-level state, with arbitrary arguments. "+TRUST)
c("C17","abstract interpretation of the error combinators on every small combination of operands","Append on up to three (thorough: four) operands of every kind, Wrap, WrapIndex and WrapPath on every kind; causes are compared by identity after unwrapping. "+TRUST)
c("C15","abstract interpretation of the encoder with the package library modelled (relationship lists read back)","Models with concrete paths: every way references share paths within and across parts, combined with every kind of relationship present before; relationships added after a part is complete do not count. "+TRUST)
c("C18","abstract interpretation of Model.Validate with one symbolic index over its whole range","Every kind of list and index, in the root and a child part, at several positions; the index ranges over all its values, the rest of the model is concrete. "+TRUST)
c("C19","abstract interpretation of Model.Validate with one reference replaced (symbolic identifiers for what does not exist)","Every kind of reference at several positions of the root and of a child part: identifiers that do not exist range over [1000, 2^32), identifiers of other parts and of other kinds of things and paths are concrete; references that resolve must be accepted without any error. "+TRUST)
c("C20","abstract interpretation of Model.Validate with one mandatory piece removed or repeated","Every kind of mandatory field, list, identifier, name and relationship at several positions of the root and of a child part, one (or two) at a time; concrete models. "+TRUST)
c("C21","abstract interpretation of the coherency check on small meshes with symbolic vertex numbers, compared with an independent count of edges","All meshes of four triangles over four vertices (quick: as multisets) and some sixty shapes of up to ten triangles, under many orders of symbolic vertex numbers; larger meshes are not enumerated. "+TRUST)
c("C32","abstract interpretation of the proposal of identifiers with symbolic identifiers","Up to three (thorough: four) resources with arbitrary identifiers, and up to eleven with chosen ones (dense, with gaps, repeated, zero, extreme). "+TRUST)
c("C29","abstract interpretation of the generation and validation of UUIDs, byte by byte over all values, and of the filling in of missing ones","Generation: every random byte arbitrary; its 256 values are judged on the resulting term. Validation: every position of every accepted layout with an arbitrary byte, one (or all) at a time. Filling in: models with every combination of present and missing identifiers per place. "+TRUST)
c("C26","abstract interpretation of every operation on a model over cyclic graphs of references, with a bound on recursion","All graphs of components over two objects, graphs over three, and longer cycles with a way in, spread over three parts; the boxes of meshes and the arithmetic are replaced by constants. Larger graphs are not enumerated. "+TRUST)
c("C25","abstract interpretation of the decoders with the context cancelled before every token, facet or line","STL files of up to 40 facets and packages with a root and a child part, cancelled before every unit of input; package-level numbers that say how often the context is looked at are scaled down to three (their size is bounded by a separate obligation). What the standard tokenizer and scanner read ahead is not counted. "+TRUST)
c("C27","abstract interpretation of the STL decoders with every step of reading failing in turn, model compared before and after","Binary and ASCII files of up to fourteen facets; every read, every number and every cancellation point fails in turn; models that are empty or hold objects and items. "+TRUST)
c("C30","abstract interpretation of the decoder with every step failing in turn, and of its tokenizer on parts that end or fail at every byte","One package with a root part, child parts and attachments, where opening the package and opening and reading each part fails; a part (root, child, UnmarshalModel) of some 300 bytes, with every kind of markup, that ends at each byte or whose reader fails there, read in pieces of several sizes, strict and lenient. A package library that hides damage from its caller is trusted. "+TRUST)
c("C31","abstract interpretation of the decoder on packages with several parts whose values tell the part they are in","Packages with a root part, three child parts in three folders and attachments, under every order of the child parts; all relationship types that the library names and an unknown one, on the package, the root part and a child part; absolute, relative, repeated and dangling targets. "+TRUST)
c("C24","typestate analysis (open/closed) by abstract interpretation of everything that opens a file or a part","Every call that opens something is found by its signature in all packages and must be reached: exported functions are interpreted with arbitrary arguments and every external step failing or not; decoding with each step failing in turn, cancelled, and with parts that are not valid. Streams that a caller passes in are his to close. Panics are C09's. "+TRUST)
c("C28","abstract interpretation of all readers on small inputs whose every declared number is huge, with the sizes of all allocations judged","STL files of 0 to 4 facets that declare up to 2^32-1, and packages whose every attribute (those of the grammar and every name the library compares with) and part size is huge, through decoder and tokenizer. Sizes above 16 Mi elements, unknown sizes and growth while nothing is read are violations. Allocations inside of the standard and package libraries are not judged, except for those that take a size. "+TRUST)
c("C34","abstract interpretation over polynomials in quantities of known sign and order (symbolic coordinates and matrix entries)","Coordinates and matrix entries are symbolic real numbers: every comparison is decided from the signs of the entries and the order of the coordinates, which are enumerated, and the result must be the polynomial of the definition. Signs: every column pattern of +, -, 0; meshes: every order, with ties, of up to four (thorough: five) vertices; models: sixteen structures (shared objects, nesting, child parts, missing and empty objects) in several arrangements of signs and orders. Rounding, NaN and infinities are left out. "+TRUST)
c("C36","abstract interpretation over symbolic coordinates (polynomials; cells of a grid compared by how far apart coordinates are)","Files of both kinds and sequences of AddVertex with up to twelve corners: shared, coinciding, degenerate, differing along one axis only by an arbitrary amount or by little more than a micron, permuted and opposite coordinates. The conversion of a rounded coordinate to an integer type cannot hold every cell and is taken to collide. Rounding of float32 is left out. "+TRUST)
c("C37","abstract interpretation of Encode (the package library is modelled by an output stream per part)","Models with no to four attachments (types shared or distinct, no extension, models themselves), the default or another root part, and no to three child parts with absolute or relative paths. The bytes of a stream are one symbol; what compression does is left to the library. "+TRUST)
c("C38","abstract interpretation of the lookups and walks on models with concrete parts and identifiers","Models with up to five parts whose identifiers repeat within and across parts, every path of interest and identifiers present and absent; the function of a walk fails or not at every call; iteration orders of the map of parts are permuted. Matrices that differ from the identity or zero in one element. "+TRUST)
c("C39","abstract interpretation of Model.Validate on valid models changed to break, or to just meet, one structural rule","Every structural rule at several positions of the root and of a child part, on both sides of its border; concrete models. "+TRUST)
