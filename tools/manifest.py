#!/usr/bin/env python3
"""Source of MANIFEST.json (python3 tools/manifest.py > MANIFEST.json)."""
import json, sys
NOTE={
"C01":"Exhaustive over the enumerated documents and step sequences; beyond them only the size sweeps apply. Trusts the reference evaluator (mc/ref.go).",
"C02":"Exhaustive over array lengths, bounds and contexts within the bounds; the oracle computes Python slices by its own arithmetic.",
"C03":"Exhaustive over all document shapes up to the bound and paths with recursive descents up to the bound; trusts mc/ref.go.",
"C04":"Exhaustive over lists of alternatives and contexts within the bounds; trusts mc/ref.go.",
"C05":"Exhaustive over predicates, documents and nestings within the bounds; semantics nobody documents (mixed-type truthiness of null, ...) are left undecided by the reference.",
"C06":"Exhaustive over all pairs (and triples for consistency) of the operand pool x operators x representations.",
"C07":"Exhaustive over expression trees up to a size; compared with exact arithmetic where the result is exact.",
"C08":"Exhaustive over values x lists up to a length x forms of the list.",
"C09":"Exhaustive over arrays, bound expressions and contexts within the bounds.",
"C10":"All code points in all escape forms, and all strings over an alphabet of special characters up to a length.",
"C11":"All literals up to a length over the grammar's characters, in filters, indexes and slice bounds.",
"C12":"All code points alone and in contexts, all strings over a special alphabet up to a length, all key lists up to a length.",
"C13":"All paths over a component pool up to a length on a set of documents.",
"C14":"All spellings of all paths up to a number of steps.",
"C15":"All token and character strings up to a length, all single mistakes in a corpus; trusts an independent recognizer of Jsonpath.g4 (mc/grammar.go).",
"C17":"Exhaustive over the paths and documents within the bounds, on several representations of the document.",
"C18":"Exhaustive over paths x documents x opaque models that check every call of the library against the interface's contract.",
"C19":"All histories of evaluations over a pool of paths and documents up to a length, nested and aborted ones included.",
"C20":"All interleavings of 2 (3) threads at statement granularity up to 2 (1) preemptions; conflicts within a statement are left to the race detector, run on every scenario.",
"C21":"All pairs (triples of a few) of similar inputs, in one process and in fresh processes; all schedules of two concurrent calls with one preemption.",
"C22":"All sequences of combinator operations up to a length over a pool of paths x documents; trusts mc/ref.go.",
"C23":"Exhaustive over the paths and documents within the bounds on every kind of document model.",
"C24":"Exhaustive over documents up to a number of nodes and histories of edits up to a length; beyond them lists of values, keys, sizes and depths. The oracle is the Go value itself.",
"C25":"Exhaustive over operation sequences up to a length, from new and from captured paths; the oracle copies the list of segments at every operation.",
"C16":"The inputs of C15 and combinations of expressions, evaluated on documents of every shape.",
}
ids=sys.argv[1].split(",") if len(sys.argv)>1 else sorted(NOTE)
allids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
T={"C20":"stateless model checking of the real code under a controlled scheduler (all interleavings up to a preemption bound)",
   "C19":"exhaustive enumeration of evaluation histories of the real code against a reference model",
   "C21":"exhaustive enumeration of parse histories of the real code, and controlled schedules of concurrent parses",
   "C24":"exhaustive enumeration of documents and of histories of edits on the real code against the Go values",
   "C25":"exhaustive enumeration of operation histories on the real code against a model of immutable lists",
   "C22":"exhaustive enumeration of combinator sequences on the real code against a reference model",
   "C15":"exhaustive enumeration of bounded inputs to the real parser against an independent recognizer of the grammar"}
checks=[{"property":i,"quick_cmd":"./check "+i,"thorough_cmd":"VERIF_TIER=thorough ./check "+i,"evidence_file":"evidence/%s.json"%i,
  "technique":T.get(i,"bounded exhaustive enumeration of executions of the real code against a reference model"),
  "level":"model_checking","level_note":NOTE[i]} for i in ids]
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,
 "not_applicable":[{"property":i,"reason":"check under construction"} for i in allids if i not in ids]}
json.dump(m,sys.stdout,indent=1); print()
