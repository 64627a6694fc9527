#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of claimed checks below."""
import json
N={
"C01":"explicit enumeration of bounded message shapes x text alphabet, each executed on the implementation and compared with a reference model",
"C02":"explicit enumeration of bounded message shapes x text alphabet; the written XML is compared with an independent reference writer/reader model",
"C03":"explicit enumeration of bounded message shapes x XML spellings written by the reference model and read by the implementation",
"C04":"explicit enumeration of bounded message shapes x text alphabet against a reference JSON model",
"C05":"explicit enumeration of bounded message shapes x conversion paths (all compositions up to length 3) against the reference model",
"C06":"explicit enumeration of length/character-width classes at every field path, against a reference validator",
"C07":"transition cover of every pattern's minimal DFA executed at every field, against the DFA model",
"C08":"explicit enumeration of broken-constraint sets (single, pairs, modular subsets, list positions) against a reference validator",
"C09":"explicit enumeration of all parser configurations x broken-constraint sets against a reference validator",

"C10":"explicit enumeration of every code of every code list and the neighbours of the codes at every code field, XML and JSON reading compared with the reference model",
"C11":"explicit enumeration of removed, unknown, duplicated and misplaced members at every struct of every type, against the reference model",
"C12":"explicit enumeration of boundary doubles, their spellings and non-numbers at every numeric and flag field, against the reference model",
"C14":"explicit enumeration of header identifier x document type, unregistered roots and misleading texts at every markup position, against the reference reading",
"C15":"explicit enumeration of every truncation and every single-token and single-character damage of one message per type, all entry points, against an independent tolerant reader",
"C16":"breadth-first exploration of sequences of workflow steps over message states, the implementation run in lockstep with a reference model of the steps",
"C17":"explicit enumeration of bounded message shapes x text alphabet x content sources through the publish and parse steps, against the reference model",
"C18":"explicit enumeration of readable, unreadable and constraint-breaking messages x forms x sources through the validate step, against reading and the reference validator",
"C19":"explicit enumeration of bounded document shapes x forms x spellings through every entry point, with and without envelope, against the reference model",
"C20":"exploration of histories and schedules of the implementation: all ordered pairs and triples of operations, all alternations of two threads, all single preemptions at allocator calls and atomic operations under a controlled scheduler; every result compared with that of a fresh process",
"C21":"exhaustive exploration of all call sequences up to a length on the error collector and the check helpers, in lockstep with a reference state machine",
"C22":"explicit enumeration of scenarios (bounded message shapes, constants, variables, unusable payloads) through the generate step and the whole pipeline, against the scenario itself",
"C13":"explicit enumeration of lookup arguments (all identifiers and their edit-distance-1 neighbours) against a reference table",
}
LV="Every case of the bounded space in DESIGN.md is executed on the implementation built from /repo and compared with the independent reference model; trusts the frozen schema model (spec/schema.json) and the reference model in harness/model."
ps=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in ps:
    i=p["id"]
    if i in N:
        checks.append(dict(property=i,quick_cmd=f"VERIF_TIER=quick ./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
          technique="model checking: "+N[i],level="model_checking",level_note=LV))
    else: na.append(dict(property=i,reason="check under construction"))
m=dict(version=1,setup_cmd="./check.sh build",checks=checks,not_applicable=na,
 notes="No hooks: the checks use the public API only. Known and fixed findings: known_findings.json.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
