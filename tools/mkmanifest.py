#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property of properties.jsonl that has a harness is claimed."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"E01":"property-based testing: generated character sequences and access orders against reference encoders written from the standards, all characters enumerated",
"E02":"exhaustive enumeration of pages, bytes and characters against the ISO-8859 tables plus generated printing",
"E03":"property-based testing: printed bytes against the reference encoding of the numeric reference, round trip through the scanner",
"E04":"property-based testing with injected damage in multi-byte sequences against a reference of the expected characters, coverage-guided fuzzing in the thorough tier",
"S01":"grammar-based document generation with the expected event list as oracle, shrinking",
"S02":"differential and metamorphic testing over all encoding pairs with decoded values as oracle",
"S03":"metamorphic property-based testing: chunked against one-piece scanning, coverage-guided fuzzing in the thorough tier",
"S04":"differential property-based testing across input sources, coverage-guided fuzzing in the thorough tier",
"S05":"fuzzing of arbitrary and mutated input under address and undefined-behaviour sanitizers with termination and leak oracles",
"S06":"property-based testing: generated documents with one injected truncation or syntax violation, the event prefix and the error as oracle",
"S07":"property-based testing: generated references and line endings against a reference resolver",
"S08":"metamorphic property-based testing: masked against unmasked scanning",
"S09":"property-based testing: token offsets known from document generation as oracle",
"S10":"stateful property-based testing: copies and interleaved scanners against each scanned alone",
"P01":"stateful model-based testing of operation histories against a protocol model, replay of accepted operations",
"P02":"round-trip property-based testing: independent XML parser and re-scan of printed documents as oracle",
"X01":"property-based testing: generated documents and expressions against a reference evaluator of path selection",
"X02":"differential property-based testing: textual against composed expressions, mutated and arbitrary texts for refusal",
"X03":"metamorphic property-based testing: sets, permutations, copies and interleavings against each expression alone",
"H01":"property-based testing: generated headers, encodings and chunkings against the declared encoding",
"I01":"generated read failures at every read index of generated streams, prefix of the undamaged events as oracle",
"U01":"stateful model-based testing against a bounded string under sanitizers",
"U02":"stateful model-based testing against a vector of strings under sanitizers",
"R01":"enumeration of all codes plus generated failing operations against the documented cause",
}
N={}
props=[json.loads(l)["id"] for l in open(here+"/properties.jsonl")]
have=[p for p in props if os.path.exists("%s/harness/prop_%s.cpp"%(here,p))]
m=dict(version=1,setup_cmd="true",
 checks=[dict(property=p,quick_cmd="python3 run.py %s quick"%p,thorough_cmd="python3 run.py %s thorough"%p,evidence_file="evidence/%s.json"%p,technique=T[p],
   level="fault_enumeration" if p=="I01" else "exploration",
   level_note=N.get(p,"Generated-input search: nothing beyond the cases explored is shown; the counts, the rule of non-triviality and samples are in the evidence file.")) for p in have],
 not_applicable=[dict(property=p,reason="check not built yet") for p in props if p not in have])
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1); open(here+"/MANIFEST.json","a").write("\n")
print(len(have),"claimed",len(m["not_applicable"]),"not")
