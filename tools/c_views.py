"""Views over one storage (spec/Views.tla): P32."""
import json
import nsm


def first(b, o):
    """what differs in a behaviour, or None"""
    if not o or "ops" not in o or len(o["ops"]) != len(b["ops"]):
        return "no answer", {"got": o}
    for k, (e, g) in enumerate(zip(b["ops"], o["ops"])):
        bad = [x for x in g["val"] if x != e["val"]] if "val" in e else []
        if bad:
            return "a view does not read what its cells hold: " + e["op"], {"operation": k, "expected": e["val"], "got": bad[0]}
    if o["ops"][-1]["mem"] != b["final"]:
        return "the storage does not hold what the operations wrote", {"expected": b["final"], "got": o["ops"][-1]["mem"]}
    if o["outside"]:
        return "an operation writes outside the storage", {"cells": o["outside"]}
    return None


def check_P32(chk):
    a = nsm.TLC("Views", "Views_sim.cfg", chk.work, simulate=50 if chk.tier == "quick" else 1500, depth=100, workers=4, timeout=1500)
    nsm.build(["probe_views"])
    a.expect_ok()
    chk.count(a)
    behs = [json.loads(x) for x in sorted({json.dumps(b) for b in a.emitted()})]
    rc, out, err = nsm.run_probe("probe_views", items=behs, timeout=900)
    by = {x["i"]: x for x in out}
    kinds = {}
    for i, b in enumerate(behs):
        chk.traces += 1
        for e in b["ops"]:
            kinds[e["op"]] = kinds.get(e["op"], 0) + 1
        bad = first(b, by.get(i))
        if bad:
            chk.violation("views: " + bad[0], dict(bad[1], behaviour=b))
    chk.extra["operations"] = kinds
    if behs:
        chk.sample({"operations": [e["op"] for e in behs[0]["ops"]], "final": behs[0]["final"]})
