#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json
TRUST="Decides a structural part by static analysis of the current source (nothing is executed); trusts go/types, go/ssa, the abstract semantics in checker/ai and the models of the standard library and of the opc package listed in DESIGN.md. An undecided obligation is a violation."
C={}
def c(id,tech,note): C[id]=(tech,note)
c("C01","abstract interpretation (value-flow of buffer ownership)","Every value reachable from the decoded model, for every element and attribute of the schema with symbolic content, is traced to a fresh copy. "+TRUST)
c("C02","abstract interpretation (panic freedom over document classes)","Every element in every position, attributes of every namespace, repeated and truncated documents, with symbolic values; all panicking instructions must be proved safe. Surplus end tags are excluded: the tokenizer rejects them before the callbacks run. "+TRUST)
c("C03","abstract interpretation (error dataflow) and interval analysis","For each typed attribute and each class of malformed value the returned error must contain a ParseAttrError with the attribute name on every path. Numbers and enumerations are symbolic; lists, matrices and colours by position classes. "+TRUST)
c("C09","constant propagation over enumerations","Each named constant: String() and the reader composed by constant propagation; other texts symbolic. "+TRUST)
exec(open("/verif/tools/claims.py").read()) if __import__("os").path.exists("/verif/tools/claims.py") else None
NA={
"C33":"Numerical: the error of decimal formatting and parsing of floats is a runtime quantity no static argument in reach bounds; that both sides use the same field and that the writer uses the configured precision is part of C04-C08.",
"C35":"Language equality of a hand-written byte-level tokenizer with XML: needs enumeration or proof over unbounded byte streams, not a shape-of-the-code argument. The structural parts used elsewhere (private names, unterminated input, end-tag matching) are in C01 and C30.",
}
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"./check.sh build","hooks":{"guard":"verif","enable":"no hooks: the checks read /repo's source only","source_commits":[]},
"checks":[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":C[p][0],"level":"other","level_note":C[p][1]} for p in props if p in C],
"not_applicable":[{"property":p,"reason":NA.get(p,"No check has been built for it yet.")} for p in props if p not in C],
"notes":"One checker binary (checker/, Go, golang.org/x/tools from the module cache) loads and analyses /repo from source on every run. See DESIGN.md."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
print(len(m["checks"]),"claimed;",len(m["not_applicable"]),"not")
