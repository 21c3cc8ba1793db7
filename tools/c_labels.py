"""The names of fields (spec/Labels.tla): P33."""
import json
import nsm


def want(e):
    s = "".join
    if e["op"] == "ask":
        return {"has": e["has"], "strip": s(e["strip"]), "point": e["point"]}
    if e["op"] == "add":
        return {"val": s(e["val"]), "has": True, "strip": s(e["l"]), "point": e["n"]}
    if e["op"] == "parts":
        return {"val": [s(x) for x in e["val"]], "at": [s(x) for x in e["at"]]}
    if e["op"] in ("count", "find"):
        return {"val": e["val"]}
    return None


def check_P33(chk):
    a = nsm.TLC("Labels", "Labels_sim.cfg", chk.work, simulate=75 if chk.tier == "quick" else 2500, depth=100, workers=4, timeout=1500)
    nsm.build(["probe_labels"])
    a.expect_ok()
    chk.count(a)
    behs = [json.loads(x) for x in sorted({json.dumps(b) for b in a.emitted()})]
    rc, out, err = nsm.run_probe("probe_labels", items=[{"ops": b} for b in behs], timeout=900)
    by = {x["i"]: x for x in out}
    kinds = {}
    for i, b in enumerate(behs):
        chk.traces += 1
        g = by.get(i)
        if not g or "ops" not in g or len(g["ops"]) != len(b):
            chk.violation("labels: no answer", {"operations": b, "got": g})
            continue
        for k, (e, r) in enumerate(zip(b, g["ops"])):
            kinds[e["op"]] = kinds.get(e["op"], 0) + 1
            w = want(e)
            if w is not None and r != w:
                chk.violation("labels: " + e["op"], {"operation": dict(e, l="".join(e.get("l", []))), "expected": w, "got": r,
                                                     "registered": [["".join(x["l"]), x["len"]] for x in b[:k] if x["op"] == "register"]})
                break
    chk.extra["operations"] = kinds
    if behs:
        chk.sample([want(e) for e in behs[0]])
