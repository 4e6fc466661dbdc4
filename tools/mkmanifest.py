#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl.
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
seq="property-based testing: random operation histories against a reference model, with shrinking"
tech={
 "C08":"property-based testing: generated interleavings of prepare/finalize/abort steps, judged by a per-key linearizability oracle",
 "C09":"property-based testing: generated concurrent histories and schedules (enumerated, random, PCT), per-key linearizability oracle",
 "C10":"property-based testing: generated schedules of scans against writers, interval oracle over the recorded history",
 "C11":"property-based testing: generated suspension points against memory-reusing churn, interval and linearizability oracles",
 "C12":"property-based testing: save/load round trip and model-based continuation of random histories",
 "C13":"property-based fault injection: generated write failures at every write of random states",
 "C14":"property-based fault injection: truncation at every byte and foreign block sizes for generated states",
 "C15":"property-based testing: generated schedules of acquire/release/stop/start/len, holder-bookkeeping oracle",
 "C16":"property-based testing: generated insert/delete cycles repeated, boundedness invariant on reported memory",
 "C18":"property-based testing: metamorphic relation (prepended runs, permuted insertion orders)",
 "C19":"property-based testing: differential execution under generated allocator assignments",
 "C20":"property-based testing: differential execution of the same generated histories in three builds",
 "C23":"property-based testing and fuzzing of the entry point with structured byte strings against an independent predicate",
}
lv={"C13":"fault_enumeration","C14":"fault_enumeration"}
note={
 "default":"Held on all generated cases of the run (counts in the evidence file); not exhaustive. Keys are non-empty and prefix-free.",
 "conc":"Held under all generated schedules (counts in the evidence file); sequentially consistent interleavings at statement and atomic-operation granularity, not exhaustive beyond the enumerated single preemptions.",
 "C13":"Write failures are enumerated at every write of small states and sampled for large ones.",
 "C14":"Cuts are enumerated at every byte of small states and sampled for large ones; all pairs of the three block sizes.",
}
checks=[]
for p in props:
    i=p["id"]
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
      "technique":tech.get(i,seq),"level":lv.get(i,"exploration"),
      "level_note":note.get(i,note["conc"] if i in("C08","C09","C10","C11","C15") else note["default"])})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo: the checks instrument a copy of its sources through a build overlay. Known findings and fixes are in known_findings.txt."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
