#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of claimed checks."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
TECH={
"C01":("model-based property testing of random value trees against a JSON image and strict parser","Random search over bounded trees (<=60 containers, depth <=9); trusts the model's image function and the parser in jsonm.rs."),
"C02":("property testing: decode/re-split metamorphic relation over random Unicode text","Random search over text and fragment splits."),
"C03":("property testing: exact integer/float/decimal oracles over random numbers and NUMBER grammar","Random search; boundary-heavy generators."),
"C04":("fault-injecting property testing of writers (short writes, interrupts, errors, zero writes)","Random value x random writer schedule; one fault position per case."),
}
TECH.update({
"C05":("differential property testing against serde_json over dual-derived random types","Random values of a fixed recursive family of dual-derived types."),
"C06":("model-based property testing: recorded calls of a buffer against the calls of the model","Random trees, collection routes and conversion chains."),
"C07":("stateful model-based testing of ValueBuf histories, including failing values","Random operation histories of bounded length against a stack model."),
"C08":("stateful property testing of owned/borrowed lifetimes with poisoned, freed sources and pointer identity","Sources are overwritten and freed before reading back, in an AddressSanitizer build; about a hundred cases per quick run also run under Miri."),
"C09":("stateful model-based testing of fragment buffers against a plain concatenation","Random histories of bounded length."),
"C10":("differential property testing against derived Debug","Random values of a fixed recursive family of dual-derived types; floats and text restricted to where both formats are defined to agree."),
"C11":("differential and metamorphic property testing of fmt sinks with injected write failures","Random trees, streaming styles and failure positions."),
"C12":("differential property testing of wrappers against direct streaming with injected stream failures","Random trees through single and stacked wrappers."),
"C13":("model-based property testing of default stream methods over random subsets of overridden methods","Random trees x random method subsets."),
"C14":("model-based property testing of casts against the streamed primitive","Random boundary-heavy primitives and trees."),
"C15":("model-based property testing of built-in impls against independently written token models","46 instantiated types, random contents."),
"C16":("differential property testing against serde's own derive with a recording, fault-injecting Serializer","Random values of a fixed recursive family of dual-derived types; one fault position per case."),
"C17":("model-based property testing of a recursive stream that rebuilds trees, with injected failures","Random trees, streaming styles, failure positions."),
"C18":("model-based property testing of flattening against an explicit splicing model","Random inner trees, five parent kinds, offsets, failure positions."),
"C19":("generated-program testing: random type definitions compiled with derive(Value) and compared with a token model","600 generated types per quick run, 5000 per thorough run, with random values; attribute grammar as documented."),
"C20":("property testing of equality/hash/order/conversion laws","Random pairs, boundary-heavy."),
"C21":("fault-injection property testing: failing stream or value at a random call position through every adapter","One fault position per case."),
"C22":("metamorphic property testing: hint insertion/removal/mutation must not change results","Random trees and random hint edits."),
"C23":("differential property testing of the no-alloc build against the model, sizes around capacity","Separate crate built without alloc; random trees."),
"C25":("generated-program testing: random valid definitions with one injected mistake must be refused by the compiler, and compile without it","4000 definitions per quick run, 24000 per thorough run, in over 200 classes of mistake; the verdict is rustc's, per definition."),
"C26":("model-based property testing of random JSON documents, nesting patterns, cut-off points and failing streams","Random documents up to several hundred levels deep; only the syntax the reader implements."),
"C27":("property testing and fuzzing of random, mostly malformed call sequences over every sink (no panic, no false completeness)","Sequences of up to 400 calls; what a sink writes for a malformed sequence is left open."),
"C24":("property testing of recorded tokens against the model and single-token mutations","Random trees."),
})
CLAIMED=open(root+"/tools/claimed.txt").read().split()
TECH={k:v for k,v in TECH.items() if k in CLAIMED}
checks=[]
for p in props:
    if p in TECH:
        t,n=TECH[p]
        checks.append(dict(property=p,quick_cmd=f"bash run.sh {p} quick",thorough_cmd=f"bash run.sh {p} thorough",evidence_file=f"evidence/{p}.json",technique=t,level="exploration",level_note=n))
na=[dict(property=p,reason="check not built yet") for p in props if p not in TECH]
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
  notes="All checks use only the public API of the crates in /repo; no hooks are needed. Seeds come from VERIF_SEED; replay with: bash run.sh replay ID FILE.")
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
open(root+"/MANIFEST.json","a").write("\n")
print(len(checks),"claimed",len(na),"not")
