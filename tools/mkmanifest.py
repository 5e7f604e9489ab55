#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SEQ = "histories of the real code recorded and validated by TLC as behaviours of SeqTrace.tla"
CON = "executions of the real code under a controlled scheduler recorded and validated by TLC as behaviours of ConcTrace.tla"
GEN = "the data structure model ART.tla model checked with TLC, and its behaviours (one per situation) replayed into the real code"
CART = "the concurrent algorithms model checked in ConcART.tla (and shown to fail with a safeguard missing), its conflict scenes replayed into the real code under explored schedules"
EPO = "the reuse of memory model checked in Epoch.tla (and shown to fail with a safeguard missing)"
ITM = "iteration in batches model checked in IterART.tla, its behaviours replayed into the real code"
PER = "blocks and saved states model checked in Persist.tla (and shown to fail with a safeguard missing)"
POO = "the sharing of allocators model checked in Pool.tla, safety and liveness (and shown to fail with a safeguard missing)"
T = {
 "C01": [GEN, SEQ], "C02": [GEN, SEQ, CON], "C03": [CART, CON], "C04": [CART, CON],
 "C05": [GEN, CART + ", liveness under fairness included", SEQ, CON], "C06": [GEN, SEQ], "C07": [ITM, SEQ, CON], "C08": [GEN, SEQ, CON],
 "C09": [GEN, POO, SEQ, CON], "C10": [GEN, SEQ, CON], "C11": [EPO, CON], "C12": [EPO, "memory recorded over cyclic " + SEQ],
 "C13": [PER, SEQ], "C14": [PER, SEQ], "C15": [POO, "executions of the real code under a controlled scheduler validated by TLC as behaviours of PoolTrace.tla"],
 "C16": ["statistics, admin answers and dumps within " + SEQ, CON], "C17": ["termination of competing writers model checked in ConcART.tla under fairness", CON],
 "C18": [SEQ + ", every slice overwritten after use", CON], "C19": [SEQ + " of several trees"],
}
NOTE = "model: exhaustive within the constants given in DESIGN.md; code: every recorded execution is decided exactly by TLC, the executions are a bounded set chosen by the seed, the model and the schedule explorer"
checks = [{"property": p, "quick_cmd": "python3 checks/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 checks/check.py " + p,
           "evidence_file": "evidence/%s.json" % p, "technique": "TLA+/TLC: " + "; ".join(T[p]), "level": "model_checking",
           "level_note": NOTE if p not in ("C16", "C18", "C19") else "every recorded execution is decided exactly by TLC, the executions are a bounded set chosen by the seed and the schedule explorer"} for p in sorted(T)]
root = os.path.join(os.path.dirname(__file__), "..")
old = json.load(open(os.path.join(root, "MANIFEST.json")))
old["checks"] = checks
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(old, f, indent=1)
    f.write("\n")
