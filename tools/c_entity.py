"""Contact entities (spec/Entity.tla): P35."""
import json
import math
import nsm


def near(a, b, scale=1.0):
    return abs(a - b) <= 1e-11 * max(scale, abs(a), abs(b))


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def differs(want, got):
    """the first thing an entity shows that it should not"""
    if not got:
        return "nothing"
    for k in ("kind", "id", "loc", "n", "q", "st"):
        if k in want and want[k] != got[k]:
            return k
    for k in ("len", "x", "f", "box"):
        a, b = flat(want[k]), flat(got[k])
        if len(a) != len(b) or not all(near(p, q, 500.0) for p, q in zip(a, b)):
            return k
    m = 1 if want["kind"] == 1 else 3
    if not all(near(p / m, q, 500.0) for p, q in zip(want["sum"], got["cen"])):
        return "centroid"
    return None


NAMES = {"kind": "its kind", "id": "its identity", "loc": "its local number", "n": "its nodes", "q": "the nodes of its third corner", "st": "its contact status",
         "len": "its characteristic length", "x": "its position", "f": "its forces", "box": "its bounding box", "centroid": "its centroid", "nothing": "anything"}


def first(b, o):
    if not o or len(o.get("ops", [])) != len(b["ops"]):
        return "no answer", {"got": o}
    for k, (s, g) in enumerate(zip(b["ops"], o["ops"])):
        e = s["e"]
        where = {"operation": k, "op": e}
        if s["k"]:
            d = differs(s["shown"], g.get("shown"))
            if d:
                return "after %s an entity does not show %s" % (e["op"], NAMES[d]), dict(where, expected=s["shown"], got=g.get("shown"))
        if e["op"] == "scatter":
            if not all(near(p, q, 5000.0) for p, q in zip(flat(e["force"]), g["force"])):
                return "the nodes do not hold the forces of the entities", dict(where, expected=e["force"], got=g["force"])
        elif e["op"] == "send":
            for w, h in zip(e["got"], g["got"]):
                w = {q: v for q, v in w.items() if q != "loc"}
                d = differs(w, h)
                if d:
                    return "a facet sent does not arrive with " + NAMES[d], dict(where, expected=w, got=h)
        elif e["op"] == "area":
            a = 0.5 * math.sqrt(sum(x * x for x in e["sq"]))
            if not near(a, g["area"]):
                return "the area of a triangle", dict(where, expected=a, got=g["area"])
        elif e["op"] == "edge":
            if not near(e["num"] / e["den"], g["t"]) or not near(e["dist"], g["dist"]):
                return "the nearest point of an edge", dict(where, expected=[e["num"] / e["den"], e["dist"]], got=[g["t"], g["dist"]])
    return None


def check_P35(chk):
    a = nsm.TLC("Entity", "Entity_sim.cfg", chk.work, simulate=60 if chk.tier == "quick" else 2000, depth=100, workers=4, timeout=1500)
    nsm.build(["probe_entity"])
    a.expect_ok()
    chk.count(a)
    behs = [json.loads(x) for x in sorted({json.dumps(b) for b in a.emitted()})]
    rc, out, err = nsm.run_probe("probe_entity", items=behs, timeout=900)
    by = {x["i"]: x for x in out}
    kinds = {}
    for i, b in enumerate(behs):
        chk.traces += 1
        for s in b["ops"]:
            kinds[s["e"]["op"]] = kinds.get(s["e"]["op"], 0) + 1
        bad = first(b, by.get(i))
        if bad:
            chk.violation("contact entities: " + bad[0], dict(bad[1], behaviour=b))
    chk.extra["operations"] = kinds
    if behs:
        chk.sample({"operations": [s["e"]["op"] for s in behs[0]["ops"]]})
