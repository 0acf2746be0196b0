#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the suites that exist."""
import json, os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
NOTES={
"P02":"TLC checks the record semantics exhaustively up to 3 (4) records and validates loads/stores of the real library over every field of every item kind; values are sampled, field tables are trusted",
"P03":"as P02 for the settings record, materials, render probes and collections over all file version classes",
}
try:
    NOTES.update(json.load(open(os.path.join(R,"tools","level_notes.json"))))
except FileNotFoundError: pass
LV={"P09":"fault_enumeration","P13":"fault_enumeration","P24":"fault_enumeration"}
checks=[];na=[]
for l in open(os.path.join(R,"properties.jsonl")):
    i=json.loads(l)["id"]
    if os.path.exists(os.path.join(R,"suites",i.lower()+".py")):
        checks.append(dict(property=i,quick_cmd=f"python3 check.py {i}",thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
            evidence_file=f"evidence/{i}.json",technique="TLA+ specification checked with TLC, bound to the code by replayed behaviours and trace validation",
            level=LV.get(i,"model_checking"),level_note=NOTES.get(i,"TLC exhaustive on the bounded model; conformance of the real code on generated behaviours and recorded traces")))
    else:
        na.append(dict(property=i,reason="check still under construction"))
json.dump(dict(version=1,setup_cmd="python3 setup.py",checks=checks,not_applicable=na,
  notes="TLA+ specifications in spec/, conformance harness in harness/, one suite per property in suites/"),open(os.path.join(R,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(na))
