"""Matrices, constraints, the linear solver (spec/Matrix.tla, Graph.tla,
Linear.tla): P19, P20, P21."""
import json, os, random
from fractions import Fraction
import c_mpi, exo, nsm


def tlc(chk, module, cfg, n, nt, depth=60):
    return nsm.TLC(module, cfg, chk.work, simulate=n if chk.tier == "quick" else nt, depth=depth, workers=4, timeout=1500)


def probe(items, timeout=900):
    rc, out, err = nsm.run_probe("probe_linear", items=items, timeout=timeout)
    by = {x["i"]: x for x in out}
    if len(by) != len(items):
        raise nsm.ToolError("probe_linear answered %d of %d (rc=%s) %s" % (len(by), len(items), rc, err[-800:]))
    return by


def check_P19(chk):
    a = tlc(chk, "Matrix", "Matrix_sim.cfg", 1200, 20000)
    b = tlc(chk, "Graph", "Graph_sim.cfg", 150, 3000)
    nsm.build(["probe_linear"])
    rnd = random.Random(nsm.SEED)
    items, exp = [], []
    a.expect_ok()
    chk.count(a)
    for e in a.emitted():
        if e["kind"] == "ops":
            if e["dense"]:
                e["ops"] = [o for o in e["ops"] if o["e"]["op"] != "mul"]
            items.append(e)
    b.expect_ok()
    chk.count(b)
    d = os.path.join(chk.work, "meshes")
    os.makedirs(d, exist_ok=True)
    nops = len(items)
    for k, g in enumerate(b.emitted()):
        n = g["nn"]
        used = sorted({e["b"] for e in g["elems"]})
        ids = dict(zip(used, rnd.sample([1, 2, 5, 10, 77, 70000, 2000000000], len(used))))
        order = used[:]
        rnd.shuffle(order)
        mesh = {"coords": [[float(i), float(i * i), 0.5 * i] for i in range(n)], "node_ids": rnd.sample(range(1, 3 * n), n),
                "elem_ids": rnd.sample(range(1, 50), len(g["elems"])),
                "blocks": [{"id": ids[u], "name": "", "conn": [[c - 1 for c in e["c"]] for e in g["elems"] if e["b"] == u]} for u in order]}
        path = os.path.join(d, "g%d.g" % k)
        exo.write(path, mesh)
        items.append({"kind": "graph", "path": path, "num": g["num"], "spec": g})
    by = probe([{k: v for k, v in it.items() if k != "spec"} for it in items])
    for i, it in enumerate(items):
        chk.traces += 1
        g = by[i]
        if i < nops:
            brief = {"n": it["n"], "pattern": it["pat"], "dense": it["dense"], "ops": [o["e"] for o in it["ops"]]}
            if "ops" not in g:
                chk.violation("matrix: no answer", dict(brief, got=g))
                continue
            for k, (o, r) in enumerate(zip(it["ops"], g["ops"])):
                if r != {"refused": o["a"]["refused"], "val": [float(v) for v in o["a"]["val"]]}:
                    chk.violation("matrix: operation", dict(brief, at=k, operation=o["e"], expected=o["a"], got=r))
                    break
            else:
                if g["final"] != [float(v) for v in it["final"]]:
                    chk.violation("matrix: final values", dict(brief, expected=it["final"], got=g["final"]))
                elif g["nnz"] != len(it["pat"]) or g.get("rows", it["n"]) != it["n"]:
                    chk.violation("matrix: size", dict(brief, got=[g["nnz"], g.get("rows")]))
                else:
                    chk.sample({"n": it["n"], "operations": len(it["ops"])})
        else:
            sp = it["spec"]
            want = sorted([3 * p + x, 3 * q + y] for p, q in sp["pairs"] for x in range(3) for y in range(3))
            got = [list(z) for z in zip(g.get("I", []), g.get("J", []))]
            if got != want or len(g.get("I", [])) != len(g.get("J", [])):
                chk.violation("nonzero structure of a mesh", {"elements": sp["elems"], "numbers": sp["num"], "answer": {k: v for k, v in g.items() if k not in "IJ"},
                                                              "missing": [x for x in want if x not in got][:5], "extra": [x for x in got if x not in want][:5]})
            else:
                chk.sample({"elements": sp["elems"], "entries": len(got)})
    spread(chk, [it["spec"] for it in items[nops:]], rnd, d)


def spread(chk, graphs, rnd, d):
    """the matrices of the ranks of a mesh that is spread over them"""
    nsm.build(["probe_mpi"])
    graphs = graphs if len(graphs) < 100 or chk.tier != "quick" else rnd.sample(graphs, 100)
    items = []
    for k, g in enumerate(graphs):
        ranks = g["ranks"] if isinstance(g["ranks"], list) else [g["ranks"][str(r + 1)] for r in range(len(g["ranks"]))]
        num = nsm.wide(rnd, rnd.sample(range(3 * g["nn"]), g["nn"]))
        it = {"nr": len(ranks), "paths": [], "nums": [], "value": rnd.choice([0.0, 1.0, -2.5]), "want": [], "elems": g["elems"], "num": num}
        for r in range(len(ranks)):
            mine = [e for e in g["elems"] if e["r"] == r + 1]
            nodes = sorted({c for e in mine for c in e["c"]}, key=lambda c: rnd.random())
            used = sorted({e["b"] for e in mine}, key=lambda c: rnd.random())
            loc = {c: i for i, c in enumerate(nodes)}
            path = os.path.join(d, "s%d.%d.g" % (k, r))
            exo.write(path, {"coords": [[float(c), float(c * c), 0.5 * c] for c in nodes], "node_ids": [c for c in nodes],
                             "elem_ids": rnd.sample(range(1, 50), len(mine)),
                             "blocks": [{"id": u, "name": "", "conn": [[loc[c] for c in e["c"]] for e in mine if e["b"] == u]} for u in used]})
            it["paths"].append(path)
            it["nums"].append([num[c - 1] for c in nodes])
            it["want"].append(sorted([3 * num[p - 1] + x, 3 * num[q - 1] + y] for p, q in ranks[r] for x in range(3) for y in range(3)))
        items.append(it)
    for it, res in c_mpi.run_mpi(chk, items, "pattern"):
        chk.traces += 1
        brief = {"elements": it["elems"], "numbers": it["num"], "ranks": it["nr"]}
        total = sum(len(w) for w in it["want"])
        for r, x in enumerate(res):
            if not x or "r" not in x:
                chk.violation("matrix of a mesh on several ranks: no answer", dict(brief, rank=r, got=x))
                break
            x = x["r"]
            if sorted(x["entries"]) != it["want"][r]:
                chk.violation("nonzero structure on rank", dict(brief, rank=r, missing=[e for e in it["want"][r] if e not in x["entries"]][:5],
                                                                extra=[e for e in x["entries"] if e not in it["want"][r]][:5]))
                break
            if x["nnz"] != total or not x["values"]:
                chk.violation("matrix of a mesh on several ranks", dict(brief, rank=r, expected=total, got=[x["nnz"], x["values"]]))
                break


def check_P21(chk):
    a = tlc(chk, "Matrix", "Matrix_sim.cfg", 1500, 20000)
    nsm.build(["probe_linear"])
    rnd = random.Random(nsm.SEED)
    a.expect_ok()
    chk.count(a)
    items = [e for e in a.emitted() if e["kind"] == "bc"]
    for e in items:
        e["ids"] = rnd.sample([1, 2, 3, 7, 20, 100, 70000, 2000000000], len(e["sets"]))
        e["keep_empty"] = rnd.random() < 0.5
        e["scheme"] = rnd.choice(["explicit", "quasistatic"])
        e["lines"] = []
        for c in e["list"]:
            side = c["type"] == "prescribed_traction"
            name = ("side_%d" if side else "set_%d") % c["set"] if c["set"] else rnd.choice(["nowhere", "set_9", "set_"])
            e["lines"].append("%s %s %s %s" % (c["type"], name, rnd.choice(["xyz", "XYZ"])[c["c"]], rnd.choice(["0.0", "1.5", '"x + t"'])))
    by = probe(items)
    for i, it in enumerate(items):
        chk.traces += 1
        g = by[i]
        brief = {"conditions": it["lines"], "sets": it["sets"], "numbers": it["gid"], "constrained": it["con"]}
        if "rhs" not in g:
            chk.violation("constraints: no answer", dict(brief, got=g))
            continue
        want = [x[1] for row in it["mat"] for x in row if x]
        if g["rhs"] != [float(v) for v in it["rhs1"]] + [55.0]:
            chk.violation("constrained right-hand side", dict(brief, before=it["rhs"], expected=it["rhs1"], got=g["rhs"]))
        elif g["crs"] != want:
            chk.violation("constrained matrix", dict(brief, expected=want, got=g["crs"]))
        elif g["dense"] != [x[1] for row in it["mat"] for x in row if x]:
            chk.violation("constrained dense matrix", dict(brief, expected=want, got=g["dense"]))
        else:
            chk.sample({"conditions": it["lines"], "constrained": it["con"]})


def energy(s, x):
    """r' D^-1 r, exactly, for doubles x; and the size of its rounding"""
    r = [Fraction(b) - sum(Fraction(a) * v for a, v in zip(row, x)) for row, b in zip(s["A"], s["b"])]
    size = [sum(abs(a) * abs(float(v)) for a, v in zip(row, x)) + abs(b) for row, b in zip(s["A"], s["b"])]
    return sum(v * v / s["A"][i][i] for i, v in enumerate(r)), sum((z * 1e-13) ** 2 / s["A"][i][i] for i, z in enumerate(size))


def check_P20(chk):
    a = tlc(chk, "Linear", "Linear_sim.cfg", 700, 20000)
    nsm.build(["probe_linear"])
    rnd = random.Random(nsm.SEED)
    a.expect_ok()
    chk.count(a)
    items = []
    for l in a.emitted():
        for s in l:
            s["tolerance"] = 10.0 ** s["tol"]
            s["scale"] = rnd.choice([1.0, 1.0, 2.0 ** 40, 2.0 ** -30])
        items.append({"kind": "cg", "list": l})
    by = probe(items)
    stat = {"success": 0, "failure": 0}
    for i, it in enumerate(items):
        chk.traces += 1
        g = by[i]
        if "list" not in g:
            chk.violation("solver: no answer", {"systems": it["list"], "got": g})
            continue
        for k, (s, r) in enumerate(zip(it["list"], g["list"])):
            n = len(s["A"])
            brief = {"A": s["A"], "b": s["b"], "guess": s["x0"], "tolerance": s["tolerance"], "limit": s["limit"], "scale": s["scale"],
                     "number_in_list": k, "got": r}
            stat["success" if r["ok"] else "failure"] += 1
            finite = all(isinstance(v, (int, float)) for v in r["x"])
            if not r["kept"]:
                chk.violation("solver changes the matrix", brief)
            if r["iters"] > s["limit"] or r["iters"] < 0:
                chk.violation("solver: number of iterations", brief)
            if not s["spd"]:
                # nothing is promised but the truth
                if r["ok"] and (not finite or any(Fraction(b) != sum(Fraction(a) * Fraction(v) for a, v in zip(row, r["x"])) for row, b in zip(s["A"], s["b"]))) \
                   and any(s["r0"]):
                    chk.violation("solver claims success on a matrix it cannot solve", brief)
                continue
            if not finite:
                chk.violation("solver: not a number", brief)
                continue
            e0, f0 = energy(s, [Fraction(v) for v in s["x0"]])
            e1, f1 = energy(s, [Fraction(v) for v in r["x"]])
            tol = Fraction(s["tolerance"]) * e0
            slack = Fraction(f1) + Fraction(f0) * Fraction(1e-6)
            if r["ok"] and e1 > tol * Fraction(1.000001) + slack:
                chk.violation("solver: false success", dict(brief, residual=float(e1), allowed=float(tol)))
            elif not r["ok"] and e1 < tol * Fraction(0.5) and tol > 4 * slack:
                chk.violation("solver: failure though solved", dict(brief, residual=float(e1), allowed=float(tol)))
            elif not r["ok"] and r["iters"] != s["limit"]:
                chk.violation("solver gives up before the limit", brief)
            elif not r["ok"] and s["limit"] >= 3 * n + 10:
                chk.violation("solver: no solution within the limit", brief)
            elif r["ok"] and not any(s["r0"]) and [float(v) for v in s["x0"]] != r["x"]:
                chk.violation("solver moves an exact guess", brief)
            elif r["ok"] and s["tol"] <= -16 and any(abs(float(v) - w) > 1e-4 * (1 + max(map(abs, s["x0"])) + max(map(abs, s["x"]))) for v, w in zip(r["x"], s["x"])):
                chk.violation("solver: wrong solution", dict(brief, solution=s["x"]))
            elif r["ok"] and r["iters"] > s["grade"] + 3:
                chk.violation("solver: more iterations than the system has directions", dict(brief, directions=s["grade"]))
            else:
                chk.sample({"n": n, "limit": s["limit"], "tolerance": s["tolerance"], "ok": r["ok"], "iterations": r["iters"], "directions": s["grade"]})
    nsm.log(stat)
