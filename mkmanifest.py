#!/usr/bin/env python3
"""Writes MANIFEST.json from steps.py (run after changing which properties have checks)."""
import json, os
import steps as S
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("structural invariant monitor over built indexes", "exploration"),
 "C02": ("online monitor comparing searches with brute force", "exploration"),
 "C03": ("statistical recall and work monitor against brute force", "exploration"),
 "C04": ("round-trip monitor of saved and reloaded indexes", "exploration"),
 "C05": ("round-trip monitor of saved and reloaded element collections against their source", "exploration"),
 "C06": ("byte-exact format monitor with an independent reader and golden files", "exploration"),
 "C07": ("fault injection at every write of a save, offline checker over the surviving bytes", "fault_enumeration"),
 "C08": ("AddressSanitizer, Miri and std precondition checks under hostile bytes and arguments", "exploration"),
 "C09": ("isomorphism monitor between original and reordered index", "exploration"),
 "C10": ("history monitor over stepwise builds", "exploration"),
 "C11": ("history checker over concurrent inserts (exactly-once, order, content)", "exploration"),
 "C12": ("online checker of concurrent searches, findability after quiescence", "exploration"),
 "C13": ("offline checker of snapshots against the insert history", "exploration"),
 "C14": ("quiescence monitor (blocked threads) over concurrent histories", "exploration"),
 "C15": ("ThreadSanitizer and Miri over parallel and concurrent workloads", "exploration"),
 "C16": ("differential monitor against double-precision and exact references", "exploration"),
 "C17": ("differential monitor of stored components against a reference", "exploration"),
 "C18": ("history monitor against a plain list model", "exploration"),
 "C19": ("differential monitor of output files against a reference parser", "exploration"),
 "C20": ("differential monitor from Python against a pure-Python oracle", "exploration"),
 "C21": ("work-budget and findability monitor on degenerate data", "exploration"),
 "C22": ("byte comparison of repeated builds", "exploration"),
 "C23": ("counting monitor of distance computations against a reference search over the same links", "exploration"),
 "C25": ("counting allocator, memory-map and file monitors around every operation", "exploration"),
 "C26": ("fault injection at every open, read, listing and mapping of the input and damage to its contents, against a reference parser", "fault_enumeration"),
 "C27": ("monitor of outcome and complete state around requests out of range, in builds with and without debug assertions", "exploration"),
 "C28": ("progress monitor: operations stopped at a gate, completion of all others observed; rendezvous of pool threads; turn counting beside busy threads", "exploration"),
 "C24": ("monitor of locality and file size before and after reordering, run monitor on the order by keys", "exploration"),
}
NOTE = {}
exec(open(os.path.join(HERE, "notes.py")).read()) if os.path.exists(os.path.join(HERE, "notes.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in S.CHECKS:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique="runtime monitoring: " + T[p][0], level=T[p][1],
                           level_note=NOTE.get(p, "Held on the executions listed in the evidence file; says nothing about paths the workload does not drive.")))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
