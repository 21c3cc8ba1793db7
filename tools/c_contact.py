"""Contact: surfaces (spec/Skin.tla), projections (spec/Proj.tla) and forces
(spec/Contact.tla) against the contact manager and interface."""
import json, math, os, random
import c_mpi, nsm


def names(rnd):
    return {b: rnd.choice(["block_%d" % b, "b%d" % b, "Part_%d" % (4 - b)]) for b in (1, 2, 3)}


def distribute(b, rank_of, nr, L, sh, rnd, nm, pos=None):
    """the mesh of each rank: nodes, elements and blocks in an arbitrary order"""
    pos = pos or {g: x for g, x in b["nodes"]}
    ids = {1: rnd.choice([1, 10]), 2: rnd.choice([2, 5]), 3: rnd.choice([3, 7])}
    out = []
    for r in range(nr):
        mine = [c for c in b["cells"] if rank_of(c) == r]
        rnd.shuffle(mine)
        gids = sorted({g for c in mine for g in c["conn"]})
        if rnd.random() < 0.7:
            rnd.shuffle(gids)
        loc = {g: i for i, g in enumerate(gids)}
        bl = []
        for k in rnd.sample([1, 2, 3], 3):
            es = [c for c in mine if c["b"] == k]
            if es:
                bl.append({"id": ids[k], "name": nm[k], "eid": [c["e"] for c in es],
                           "conn": [loc[g] for c in es for g in c["conn"]]})
        out.append({"gid": gids, "xyz": [[L * x + s for x, s in zip(pos[g], sh)] for g in gids], "blocks": bl})
    return out


def renumber(b, rnd):
    """other numbers for the nodes and the elements, now and then large ones"""
    (a, o), (c, d) = [rnd.choice([(1, 0), (1, 0), (1, 1000), (7, 70000), (1, 3 << 22), (1 << 18, 5)]) for _ in range(2)]
    for x in b["cells"]:
        x["e"], x["conn"] = a * x["e"] + o, [c * g + d for g in x["conn"]]
    for x in b["quads"]:
        x["e"], x["q"] = a * x["e"] + o, [c * g + d for g in x["q"]]
    b["nodes"] = [[c * g + d, p] for g, p in b["nodes"]]
    b["cnodes"] = [[c * g + d, v] for g, v in b["cnodes"]]
    # the identifiers of facets are (element + largest node) * 32: they have to stay below 2^31
    return max([x["e"] for x in b["cells"]] + [0]) + max([g for g, _ in b["nodes"]] + [0]) < (1 << 26) - 2


def close(a, b, tol):
    return isinstance(a, (int, float)) and abs(a - b) <= tol


def boxed(e, pts, tol):
    return all(isinstance(v, (int, float)) for v in e["box"]) and all(
        e["box"][2 * i] <= min(p[i] for p in pts) + tol and e["box"][2 * i + 1] >= max(p[i] for p in pts) - tol
        for i in range(3))


def whole(a, xyz, tol):
    """the box of the surface on one rank: around its entities, within the mesh"""
    pts = [f["x"][3 * i:3 * i + 3] for f in a["faces"] for i in range(3)] + [n["x"] for n in a["nodes"]]
    return not pts or boxed({"box": a["bb"]}, pts, tol) and all(
        a["bb"][2 * i] >= min(p[i] for p in xyz) - tol and a["bb"][2 * i + 1] <= max(p[i] for p in xyz) + tol for i in range(3))


def facets(b):
    """(first node, second node, nodes of the face) -> squared length"""
    f = {}
    for q in b["quads"]:
        n = q["q"]
        for k in range(4):
            f[(n[k], n[(k + 1) % 4], tuple(sorted(n)))] = q["l"]
    return f


def check_surface(chk, b, it, per, L, sh, first):
    """one answer; returns the identifiers"""
    pos = {g: [L * x + s for x, s in zip(p, sh)] for g, p in b["nodes"]}
    big = max(abs(x) for p in pos.values() for x in p) + 1e-300
    tol = 1e-12 * big
    want, cn = facets(b), dict(map(tuple, b["cnodes"]))
    desc = {"ranks": it["nr"], "primary": it["prim"], "secondary": it["sec"], "cells": [(c["e"], c["b"]) for c in b["cells"]],
            "mesh": it["ranks"]}
    fid, nid, used = {}, {}, {}

    def bad(what, **d):
        chk.violation("contact surface on %d rank(s): %s" % (it["nr"], what), dict(d, **desc))
        return None

    for r, a in enumerate(per):
        a = a["r"]
        if a["dev"] != [len(a["faces"]), len(a["nodes"])] or not a["on"]:
            return bad("entities", rank=r, host=[len(a["faces"]), len(a["nodes"])], device=a["dev"])
        if not whole(a, it["ranks"][r]["xyz"], tol):
            return bad("box of the surface", rank=r, box=a["bb"])
        for f in a["faces"]:
            k = (f["n"][0], f["n"][1], tuple(sorted(f["q"])))
            if k not in want or not f["tri"]:
                return bad("a facet that is not on the surface, or faces inward", rank=r, facet=f)
            if k in fid:
                return bad("a facet twice", rank=r, facet=f)
            fid[k] = f["id"]
            c = [sum(pos[g][i] for g in k[2]) / 4 for i in range(3)]
            pts = [pos[k[0]], pos[k[1]], c]
            if not all(close(x, y, tol) for x, y in zip(f["x"], pts[0] + pts[1] + pts[2])):
                return bad("corners of a facet", rank=r, facet=f, expected=pts)
            if not close(f["l"], L * math.sqrt(want[k]), tol):
                return bad("length of a facet", rank=r, facet=f, expected=L * math.sqrt(want[k]))
            if not boxed(f, pts, tol):
                return bad("box of a facet", rank=r, facet=f)
            if f["id"] in used:
                return bad("identifier used twice", rank=r, facet=f, other=used[f["id"]])
            used[f["id"]] = k
        for n in a["nodes"]:
            g = n["n"]
            if g not in cn or not n["nod"]:
                return bad("a contact node that is not on the surface", rank=r, node=n)
            if g in nid:
                return bad("a contact node twice", rank=r, node=n)
            nid[g] = n["id"]
            if not all(close(x, y, tol) for x, y in zip(n["x"], pos[g])):
                return bad("position of a contact node", rank=r, node=n, expected=pos[g])
            if it["nr"] == 1 and not close(n["l"], L * math.sqrt(cn[g]), tol):
                return bad("length of a contact node", node=n, expected=L * math.sqrt(cn[g]))
            if not boxed(n, [pos[g]], tol):
                return bad("box of a contact node", rank=r, node=n)
            if n["id"] in used:
                return bad("identifier used twice", rank=r, node=n, other=used[n["id"]])
            used[n["id"]] = g
    boxes = [a["r"]["bb"] for a in per]
    edges = [max(x[1] - x[0], x[3] - x[2], x[5] - x[4]) for x in boxes]
    if all(a["r"]["faces"] or a["r"]["nodes"] for a in per) and not all(close(a["r"]["avg"], sum(edges) / len(edges), tol) for a in per):
        return bad("average length of the boxes", boxes=boxes, got=[a["r"]["avg"] for a in per])
    if len(fid) != len(want):
        return bad("%d facets instead of %d" % (len(fid), len(want)), missing=sorted(set(want) - set(fid))[:8])
    if len(nid) != len(cn):
        return bad("%d contact nodes instead of %d" % (len(nid), len(cn)), missing=sorted(set(cn) - set(nid))[:8])
    if first and (fid, nid) != first:
        d = [(k, first[0][k], fid[k]) for k in fid if first[0][k] != fid[k]] + [(k, first[1][k], nid[k]) for k in nid if first[1][k] != nid[k]]
        return bad("identifiers depend on the decomposition", differences=d[:8])
    return fid, nid


def answered(chk, it, per, what):
    for r, x in enumerate(per):
        if x is None or "exception" in x:
            chk.violation("%s: no answer on %d rank(s)" % (what, it["nr"]),
                          {"item": {k: it[k] for k in it if k != "ranks"}, "mesh": it.get("ranks"), "rank": r,
                           "result": x if x else "the rank died or hung"})
            return False
    return True


def check_P23(chk):
    q = chk.tier == "quick"
    rnd = random.Random(nsm.SEED)
    s = nsm.TLC("MCSkin", "Skin_sim.cfg", chk.work, simulate=150 if q else 3000, depth=400, workers=4, timeout=1500)
    nsm.build(["probe_contact"])
    s.expect_ok()
    chk.count(s)
    items, back = [], []
    behs = sorted(s.emitted(), key=lambda b: json.dumps(b["cells"]))
    for i, b in enumerate(behs):
        new = json.loads(json.dumps(b))
        if renumber(new, rnd):
            b = behs[i] = new
        L, sh, nm = rnd.choice([1.0, 0.25, 3.0, 1e-3]), [rnd.choice([0.0, 7.0, -100.0]) for _ in range(3)], names(rnd)
        lists = {"prim": [nm[k] for k in b["prim"]], "sec": [nm[k] for k in b["sec"]]}
        for j in range(-1, len(b["nr"])):
            nr = 1 if j < 0 else b["nr"][j]
            it = dict(lists, nr=nr, ranks=distribute(b, (lambda c: 0) if j < 0 else (lambda c: c["ranks"][j]), nr, L, sh, rnd, nm))
            items.append(it)
            back.append((i, L, sh))
    res = c_mpi.run_mpi(chk, items, "skin", probe="probe_contact")
    where = {id(it): k for k, it in enumerate(items)}
    res.sort(key=lambda x: where[id(x[0])])
    first = {}
    for it, per in res:
        i, L, sh = back[where[id(it)]]
        chk.traces += 1
        if not answered(chk, it, per, "contact surface"):
            continue
        ids = check_surface(chk, behs[i], it, per, L, sh, first.get(i))
        if it["nr"] == 1 and ids:
            first[i] = ids
        chk.sample({"ranks": it["nr"], "primary": it["prim"], "secondary": it["sec"], "cells": len(behs[i]["cells"]),
                    "facets": 4 * len(behs[i]["quads"]), "nodes": len(behs[i]["cnodes"])})

    if not chk.pid.startswith("P38"):           # a finding of P23, which the instruments see too
        wide(chk, behs, rnd)


def wide(chk, behs, rnd):
    """identifiers are 32 bits: element identifiers 2^27 apart"""
    b = next(json.loads(json.dumps(x)) for x in behs if len(x["cells"]) >= 2 and len({q["e"] for q in x["quads"]}) >= 2)
    e0, e1 = sorted({q["e"] for q in b["quads"]})[:2]
    for c in b["cells"]:
        c["e"] += (1 << 27) - e1 + e0 if c["e"] == e1 else 0
    nm = names(rnd)
    it = {"nr": 1, "prim": [nm[k] for k in b["prim"]], "sec": [nm[k] for k in b["sec"]],
          "ranks": distribute(b, lambda c: 0, 1, 1.0, [0.0] * 3, rnd, nm)}
    (it, per), = c_mpi.run_mpi(chk, [it], "wide", probe="probe_contact")
    if answered(chk, it, per, "contact surface"):
        ids = [f["id"] for f in per[0]["r"]["faces"]] + [n["id"] for n in per[0]["r"]["nodes"]]
        if len(set(ids)) != len(ids):
            chk.violation("contact surface: elements numbered 2^27 apart have the same facet identifiers",
                          {"elements": [e0, e0 + (1 << 27)], "mesh": it["ranks"], "primary": it["prim"]})


# ---------------------------------------------------------------- projections

def rotation(rnd):
    if rnd.random() < 0.3:
        return [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
    a, b, c, d = (rnd.gauss(0, 1) for _ in range(4))
    n = a * a + b * b + c * c + d * d
    return [[(a * a + b * b - c * c - d * d) / n, 2 * (b * c - a * d) / n, 2 * (b * d + a * c) / n],
            [2 * (b * c + a * d) / n, (a * a - b * b + c * c - d * d) / n, 2 * (c * d - a * b) / n],
            [2 * (b * d - a * c) / n, 2 * (c * d + a * b) / n, (a * a - b * b - c * c + d * d) / n]]


def check_P24(chk):
    q = chk.tier == "quick"
    rnd = random.Random(nsm.SEED)
    s = nsm.TLC("MCProj", "Proj_sim.cfg", chk.work, simulate=400 if q else 8000, depth=400, workers=5, timeout=1500)
    nsm.build(["probe_contact"])
    s.expect_ok()
    chk.count(s)
    items, ctx = [], []
    for b in sorted(s.emitted(), key=lambda x: json.dumps(x["t"] + [a["p"] for a in x["a"]])):
        L, R = rnd.choice([1.0, 1.0, 1e-4, 256.0, 1e6]), rotation(rnd)
        sh = [L * rnd.choice([0, 0, 3, -50]) for _ in range(3)]

        def put(p, R=R, L=L, sh=sh):
            return [L * sum(R[i][j] * p[j] for j in range(3)) + sh[i] for i in range(3)]
        pts, answers = [], []
        for a in b["a"]:
            pts.append(put(a["p"]))
            answers.append(dict(a, thin=False))
            # just off an edge: the coordinate opposite becomes slightly negative
            if a["inside"] and not a["strict"] and a["inner"] and not a["limit"]:
                i = next(k for k in range(3) if a["b"][k] == 0)
                j = next(k for k in range(3) if a["b"][k] > 0)
                p = [x - 1e-5 * (y - z) for x, y, z in zip(a["p"], b["t"][i], b["t"][j])]
                pts.append(put(p))
                answers.append(dict(a, thin=True, p=p))
        items.append({"nr": 1, "tri": [put(p) for p in b["t"]], "len": L * math.sqrt(b["l"][0] / b["l"][1]), "pts": pts})
        ctx.append((b, answers, L, R, put))
    res = c_mpi.run_mpi(chk, items, "proj", probe="probe_contact")
    where = {id(it): k for k, it in enumerate(items)}
    for it, per in res:
        chk.traces += 1
        if not answered(chk, dict(it, ranks=None), per, "projection"):
            continue
        b, answers, L, R, put = ctx[where[id(it)]]
        size = max(abs(x) for p in it["tri"] + it["pts"] for x in p)
        # slender triangles amplify rounding
        amp = max(sum((x - y) ** 2 for x, y in zip(p, r)) for p in b["t"] for r in b["t"]) / math.sqrt(b["nn"])
        far = 1 + max(abs(x) for a in answers for x in a["p"])
        tol = 1e-13 * (1 + size / L) * amp * amp * far
        n = [sum(R[i][j] * b["n"][j] for j in range(3)) / math.sqrt(b["nn"]) for i in range(3)]
        for a, o, x in zip(answers, per[0]["r"], it["pts"]):
            if not judge(chk, it, b, a, o, x, L, n, put, tol):
                break
        chk.sample({"triangle": b["t"], "points": len(answers), "behind": sum(a["inside"] and a["inner"] for a in answers)})


def judge(chk, it, b, a, o, x, L, n, put, tol):
    def bad(what, **d):
        chk.violation("projection: " + what, dict(d, facet=it["tri"], point=x, length=it["len"], code=o,
                                                  barycentric=[v / b["nn"] for v in a["b"]], distance=a["h"] / math.sqrt(b["nn"]) * L))
        return False
    if a["thin"]:
        if o["in"] or o["s"]["type"] != 0:
            return bad("accepted although beyond an edge")
        if o["c"]["type"] != 1:
            return bad("nearest feature is not the face")
        return True
    gap = a["h"] / math.sqrt(b["nn"]) * L
    vec = lambda g, w, t: len(g) == 3 and all(close(p, r, t) for p, r in zip(g, w))
    foot = put([sum(a["b"][k] * b["t"][k][i] for k in range(3)) / b["nn"] for i in range(3)])
    if o["in"] != (a["inside"] and a["inner"]) and not (a["limit"] and a["inside"]):
        return bad("accepted" if o["in"] else "not accepted", inside=a["inside"], inner=a["inner"])
    if a["inside"]:
        if not close(o["gap"], gap, tol * L) or not vec(o["n"], n, tol):
            return bad("gap or normal", gap=gap, normal=n)
        if not vec(o["b"], [v / b["nn"] for v in a["b"]], tol):
            return bad("barycentric coordinates")
    s = o["s"]
    if s["type"] != (2 if a["inside"] else 0):
        return bad("simple projection: inside or not")
    if a["inside"] and not (vec(s["c"], foot, tol * L) and close(s["gap"], gap, tol * L) and vec(s["n"], n, tol)):
        return bad("simple projection: point, gap or normal", foot=foot, gap=gap, normal=n)
    c = o["c"]
    want = put([v / a["den"] for v in a["c"]])
    if not vec(c["c"], want, tol * L):
        return bad("closest point", expected=want, feature=a["kind"])
    if c["type"] != {"face": 2, "edge": 1, "vertex": 1}.get(a["kind"], c["type"]) or c["type"] not in (1, 2):
        return bad("nearest feature", expected=a["kind"])
    return True


# ---------------------------------------------------------------- forces

def check_P25(chk):
    q = chk.tier == "quick"
    rnd = random.Random(nsm.SEED)
    s = nsm.TLC("MCContact", "Contact_sim.cfg", chk.work, simulate=120 if q else 2500, depth=500, workers=6, timeout=2400)
    nsm.build(["probe_contact"])
    s.expect_ok()
    chk.count(s)
    items, ctx = [], []
    hits = 0
    for b in sorted(s.emitted(), key=lambda x: json.dumps(x["cells"])):
        L, sh, nm = rnd.choice([1.0, 0.25, 1e-3, 64.0]), [rnd.choice([0.0, 7.0, -20.0])] * 3, names(rnd)
        pen = rnd.choice([1.0, 1e-3, 5e7, 2500.0])
        for j in range(-1, len(b["nr"])):
            nr = 1 if j < 0 else b["nr"][j]
            it = {"nr": nr, "prim": [nm[k] for k in b["prim"]], "sec": [nm[k] for k in b["sec"]], "penalty": pen,
                  "ranks": distribute(b, (lambda c: 0) if j < 0 else (lambda c: c["ranks"][j]), nr, L, sh, rnd, nm),
                  "moves": [{"way": st["way"], "u": {str(g): [L * x for x in v] for g, v in st["u"]}} for st in b["steps"]]}
            items.append(it)
            ctx.append((b, L, sh, pen))
    res = c_mpi.run_mpi(chk, items, "force", probe="probe_contact")
    where = {id(it): k for k, it in enumerate(items)}
    for it, per in res:
        chk.traces += 1
        if not answered(chk, it, per, "contact force"):
            continue
        b, L, sh, pen = ctx[where[id(it)]]
        for k in range(len(b["steps"])):
            if not forces(chk, it, b, per, k, L, sh, pen):
                break
        hits += sum(len(st["hits"]) for st in b["steps"])
        chk.sample({"ranks": it["nr"], "primary": it["prim"], "secondary": it["sec"], "contacts": [len(st["hits"]) for st in b["steps"]]})
    chk.extra["contacts"] = hits


def forces(chk, it, b, per, k, L, sh, pen):
    st = b["steps"][k]
    u = dict((g, v) for g, v in st["u"])
    pos = {g: [L * (x + d) + s for x, d, s in zip(p, u[g], sh)] for g, p in b["nodes"]}
    size = max(abs(x) for p in pos.values() for x in p)
    desc = {"ranks": it["nr"], "evaluation": k, "ways": [m["way"] for m in it["moves"]], "penalty": pen,
            "primary": it["prim"], "secondary": it["sec"], "mesh": it["ranks"], "moves": it["moves"][:k + 1]}

    def bad(what, **d):
        chk.violation("contact force on %d rank(s): %s" % (it["nr"], what), dict(d, **desc))
        return False
    want = {}                                            # (rank, node) -> force
    active = {}
    tol = 1e-11 * pen * (size + L) * (1 + size / L)
    for r, a in enumerate(per):
        e = a["r"]["moves"][k]["e"]
        # entities have moved with the mesh
        for f in e["faces"]:
            c = [sum(pos[g][i] for g in f["q"]) / 4 for i in range(3)]
            if not all(close(x, y, 1e-12 * (size + L)) for x, y in zip(f["x"], pos[f["n"][0]] + pos[f["n"][1]] + c)) or \
                    not boxed(f, [pos[f["n"][0]], pos[f["n"][1]], c], 1e-12 * (size + L)):
                return bad("a facet did not move with its nodes", rank=r, facet=f)
        for n in e["nodes"]:
            if not all(close(x, y, 1e-12 * (size + L)) for x, y in zip(n["x"], pos[n["n"]])) or not boxed(n, [pos[n["n"]]], 1e-12 * (size + L)):
                return bad("a contact node did not move", rank=r, node=n)
        if not whole(e, [pos[g] for g in it["ranks"][r]["gid"]], 1e-12 * (size + L)):
            return bad("box of the moved surface", rank=r, box=e["bb"])
        nodes = {n["n"] for n in e["nodes"]}
        faces = {(f["n"][0], f["n"][1], tuple(sorted(f["q"]))) for f in e["faces"]}
        here = [h for h in st["hits"] if h["n"] in nodes and (h["q"][0], h["q"][1], tuple(sorted(h["q"]))) in faces]
        many = {}
        for h in here:
            many[h["n"]] = many.get(h["n"], 0) + 1
        for h in here:
            s = pen / (many[h["n"]] if st["way"] == 2 else 1)
            f = [s * L / 4 * h["h"] * h["N"][i] / h["nn"] for i in range(3)]     # penalty * gap * normal
            w = [x / h["nn"] for x in h["b"]]
            for g, c in [(h["n"], -1.0), (h["q"][0], w[0]), (h["q"][1], w[1])] + [(g, w[2] / 4) for g in h["q"]]:
                v = want.setdefault((r, g), [0.0] * 3)
                for i in range(3):
                    v[i] += c * f[i]
        active[r] = ({h["n"] for h in here}, {(h["q"][0], h["q"][1], tuple(sorted(h["q"]))) for h in here})
        if st["way"] == 0:
            # flags of what touched (those in the plane of a facet aside)
            if any(n["st"] != (n["n"] in active[r][0]) for n in e["nodes"]) and not plane(b, e, pos, L, size):
                return bad("flags of the contact nodes", rank=r, touching=sorted(active[r][0]), flagged=[n["n"] for n in e["nodes"] if n["st"]])
    total = {}
    for (r, g), v in want.items():
        t = total.setdefault(g, [0.0] * 3)
        for i in range(3):
            t[i] += v[i]
    for r, a in enumerate(per):
        a = a["r"]["moves"][k]
        # the manager's own evaluation is not summed over the ranks
        mine = {g: want.get((r, g), [0.0] * 3) for g in it["ranks"][r]["gid"]} if st["way"] == 0 else total
        for i, g in enumerate(it["ranks"][r]["gid"]):
            w = mine.get(g, [0.0] * 3)
            if not all(close(x, y, tol) for x, y in zip(a["f"][i], w)):
                return bad("force on a node", rank=r, node=g, expected=w, got=a["f"][i], contacts=len(st["hits"]))
            if a["f"][i] != a["g"][i]:
                return bad("the two views of the force differ", rank=r, node=g, got=[a["f"][i], a["g"][i]])
    return True


def plane(b, e, pos, L, size):
    """is some contact node in the plane of a facet, up to rounding?"""
    for f in e["faces"]:
        p = [f["x"][3 * i:3 * i + 3] for i in range(3)]
        n = cross([y - x for x, y in zip(p[0], p[1])], [y - x for x, y in zip(p[0], p[2])])
        m = math.sqrt(sum(x * x for x in n))
        for c in e["nodes"]:
            if abs(sum((x - y) * z for x, y, z in zip(c["x"], p[0], n))) < 1e-9 * m * (L + size):
                return True
    return False


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
