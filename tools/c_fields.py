"""The field registry and the advance of state (spec/Fields.tla,
spec/History.tla): P16."""
import os, random, shutil
from concurrent.futures import ThreadPoolExecutor
import exo, nsm


def entries(v):
    """the values a view of the model stands for"""
    at = {i: x for i, x in v["at"]}
    r = []
    for i in range(v["size"]):
        r.append(float(at[i] if i in at else v["v"] + i if v["rule"] == "ramp" else v["init"][i % v["comps"]] if v["rule"] == "init" else 0))
    return r


def same_dump(want, got):
    g = {(x["rel"], x["block"], x["label"]): x for x in got}
    for v in want:
        x = g.get((v["rel"], v["block"], v["label"]))
        if x is None:
            return {"place": [v["rel"], v["block"], v["label"]], "expected": entries(v), "got": None}
        for k in ("v", "host"):
            if k in x and x[k] != entries(v):
                return {"place": [v["rel"], v["block"], v["label"]], "seen by": k, "expected": entries(v), "got": x[k]}
    return None


def floats(a):
    return [[float(x) for x in c] for c in a]


def judge(ops, got):
    """None, or the first operation whose answer is not the model's"""
    ids, inverse = {}, {}
    for k, (s, r) in enumerate(zip(ops, got)):
        o, a = s["o"], s["a"]
        bad = None
        if o["op"] in ("node", "elem", "ipt") or (o["op"] == "look" and a >= 0):
            if r is None or r < 0 or ids.setdefault(a, r) != r or inverse.setdefault(r, a) != a:
                bad = {"expected": "the id of this label: %s" % ids.get(a), "got": r, "ids": ids}
        elif o["op"] == "look":
            if r is None or r >= 0:
                bad = {"expected": "no id", "got": r}
        elif o["op"] == "declare":
            for b in o["blocks"]:
                n = {"scalar": 1, "vector": 3, "sym": 6, "full": 9}
                want = sum(n[f["len"]] for f in b["fields"])
                if len(r[str(b["id"])]) != want or len(set(r[str(b["id"])])) != want:
                    bad = {"block": b["id"], "expected components": want, "got": r[str(b["id"])]}
        elif o["op"] == "gather":
            if r != [float(x) for x in a]:
                bad = {"expected": a, "got": r}
        elif o["op"] == "labels":
            w = {q: sorted(a[q]) for q in ("scalar", "vector", "blocks")}
            g = {q: sorted(r[q]) for q in w}
            for q in ("sym", "full"):
                w[q] = sorted(map(tuple, a[q]))
                g[q] = sorted((int(b), l) for b, v in r[q].items() for l in v)
            if w != g:
                bad = {"expected": w, "got": g}
        elif o["op"] == "dump":
            for q in ("new", "old"):
                bad = bad or same_dump(a[q], r[q])
        elif o["op"] == "output":
            w = {"node": a["node"], "node_values": floats(a["node_values"]),
                 "elem": {str(e["b"]): {"labels": e["labels"], "values": floats(e["values"])} for e in a["elem"]},
                 "derived": {str(e["b"]): e["labels"] for e in a["derived"]}}
            if w != r:
                bad = {"expected": w, "got": r}
        if bad:
            return dict(bad, at=k, operation=o)
    return None


def registry(chk):
    t = nsm.TLC("Fields", "Fields_sim.cfg", chk.work, simulate=700 if chk.tier == "quick" else 20000, depth=60, workers=4, timeout=1500)
    nsm.build(["probe_fields"])
    t.expect_ok()
    chk.count(t)
    items = t.emitted()
    for e in items:
        e["ops"].append({"o": {"op": "look", "label": "absent"}, "a": -1})
    rc, out, err = nsm.run_probe("probe_fields", items=[{"be": e["be"], "ops": [s["o"] for s in e["ops"]]} for e in items], timeout=900)
    by = {x["i"]: x for x in out}
    if len(by) != len(items):
        raise nsm.ToolError("probe_fields answered %d of %d (rc=%s) %s" % (len(by), len(items), rc, err[-800:]))
    for i, e in enumerate(items):
        chk.traces += 1
        g = by[i]
        hist = [s["o"] for s in e["ops"]]
        if "r" not in g:
            chk.violation("fields: no answer", {"back end": e["be"], "history": hist, "got": g})
            continue
        bad = judge(e["ops"], g["r"])
        if bad:
            chk.violation("fields: " + bad["operation"]["op"], dict(bad, history=hist[: bad["at"] + 1], back_end=e["be"]))
        else:
            chk.sample({"back end": e["be"], "operations": len(hist), "last": hist[-2]})


# ---------------------------------------------------------------------------
# the memory of materials through whole runs

FULL = ["xx", "yy", "zz", "xy", "yz", "zx", "yx", "zy", "xz"]
N9 = [1.0] * 3 + [0.0] * 6


class Bar:
    """a rendering of a behaviour of History.tla"""

    def __init__(self, b, rnd):
        self.b, self.rnd, r = b, rnd, rnd
        c = self.c = b["c"]
        self.q, self.P, self.dt = r.choice([2.0 ** -8, 2.0 ** -10]), r.choice([1.0, 2.0 ** 10]), r.choice([2.0 ** -4, 1.0, 0.1])
        nx, ny, nz = c["nx"], c["ny"], c["nz"]
        self.pts = [(i, j, k) for k in range(nz + 1) for j in range(ny + 1) for i in range(nx + 1)]
        r.shuffle(self.pts)
        self.cells = [(i, j, k) for k in range(nz) for j in range(ny) for i in range(nx)]
        self.gid = dict(zip(self.pts, nsm.wide(r, r.choice([list(range(1, len(self.pts) + 1)), r.sample(range(1, 3 * len(self.pts)), len(self.pts))]))))
        self.eid = dict(zip(self.cells, nsm.wide(r, r.choice([list(range(1, len(self.cells) + 1)), r.sample(range(1, 3 * len(self.cells)), len(self.cells))]))))
        self.np = 2 if c["cut"] else 1
        self.bid = dict(zip(range(1, len(c["blocks"]) + 1), r.sample([1, 2, 5, 9, 30, 70000, 2000000000], len(c["blocks"]))))
        self.order = list(self.bid)
        r.shuffle(self.order)
        self.states = ["hist_a", "hist_b", "hist_c"]
        # states that can be asked for: those every rank has
        def most(cols):
            return max([0] + [x["m"] for x in (c["blocks"][c["of"][j] - 1] for j in cols) if x["kind"] == "recorder"])
        have = min(most(range(c["cut"])), most(range(c["cut"], c["nx"]))) if c["cut"] else most(range(c["nx"]))
        self.fields = ["displacement", "stress", "deformation_gradient", "ipt03_stress"]
        if c["be"] == "host":
            self.fields += self.states[:have]
            if have:
                self.fields.append("ipt05_hist_a")
        r.shuffle(self.fields)

    def inside(self, p):
        return self.c["scheme"] == "quasistatic" and 0 < p[0] < self.c["nx"] and 0 < p[1] < self.c["ny"] and 0 < p[2] < self.c["nz"]

    def mesh(self, rank):
        c = self.c
        cells = [x for x in self.cells if self.np == 1 or (x[0] >= c["cut"]) == bool(rank)]
        conn = {x: [tuple(x[a] + o[a] for a in range(3)) for o in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))] for x in cells}
        used = {p for v in conn.values() for p in v}
        pts = [p for p in self.pts if p in used]
        at = {p: i for i, p in enumerate(pts)}
        blocks, eids = [], []
        for k in self.order:
            mine = [x for x in cells if c["of"][x[0]] == k]
            self.rnd.shuffle(mine)
            blocks.append({"id": self.bid[k], "name": "", "conn": [[at[p] for p in conn[x]] for x in mine]})
            eids += [self.eid[x] for x in mine]
        if self.np == 1:                                   # a block without elements belongs to no file of one rank
            blocks = [x for x in blocks if x["conn"]]
        sets = [{"id": i + 1, "name": "plane_%d" % i, "nodes": [at[p] for p in pts if p[0] == i and not self.inside(p)]} for i in range(c["nx"] + 1)]
        sets.append({"id": 90, "name": "shell", "nodes": [at[p] for p in pts if not self.inside(p)]})
        return {"coords": [list(map(float, p)) for p in pts], "node_ids": [self.gid[p] for p in pts], "elem_ids": eids, "blocks": blocks, "nodesets": sets}

    def deck(self):
        c, r = self.c, self.rnd
        lines = ["genesis input file: m.g", "exodus output file: m.e", "time integration scheme: " + c["scheme"], "final time: %.17g" % (c["n"] * self.dt),
                 "number of load steps: %d" % c["n"], "output frequency: %d" % c["freq"], "output fields: " + " ".join(self.fields)]
        if c["scheme"] == "quasistatic":
            lines += ["nonlinear solver relative tolerance: 1e-9"]
        for k, x in enumerate(c["blocks"], 1):
            if k not in c["of"]:
                continue
            name = "elastic" if x["kind"] == "elastic" else "recorder%d" % x["m"]
            lines += ["material parameters: m%d %s density %.17g bulk_modulus %.17g shear_modulus %.17g" % (k, name, x["a0"] * self.q, x["K"] * self.P, x["mu"] * self.P),
                      "element block: block_%d m%d" % (self.bid[k], k)]
        for i in range(c["nx"] + 1):
            lines.append('boundary condition: prescribed_displacement plane_%d x "%d*t*%.17g"' % (i, c["d"][i], self.q / self.dt))
        lines += ["boundary condition: prescribed_displacement shell %s 0.0" % a for a in "yz"]
        r.shuffle(lines)
        return "\n".join(lines) + "\n"

    def state(self, m, b):
        """a state of the model, in the units of the run"""
        s = m["st"]
        if b["kind"] == "elastic":
            st = []
        elif self.c["be"] == "host":
            st = [x * self.q for x in s["h"]]
        else:
            st = [x * self.q for x in [s["sc"]] + s["v"]] + [x * self.q * self.P for x in s["sym"]] + [x * self.q for x in s["full"]]
        return {"F": [1.0 + m["g"] * self.q] + N9[1:], "S": [x * self.q * self.P for x in m["S"]], "st": st}


class Bad(Exception):
    pass


def near(got, want, tol, floor):
    return len(got) == len(want) and all(abs(a - b) <= tol * max(abs(b), floor) for a, b in zip(got, want))


def judge_bar(p, rc, text, outs, logs):
    c, b, q = p.c, p.b, p.q
    if rc != 0:
        raise Bad("run ends with status %s" % rc, {"text": text[-600:]})
    loose = c["scheme"] == "quasistatic"
    tol = 1e-6 if loose else 1e-9
    n = c["n"]
    model = [[p.state(b["out"][k][j], c["blocks"][c["of"][j] - 1]) for j in range(c["nx"])] for k in range(n + 1)]
    # scale of the states: stresses and strains of the whole run
    big = max([1] + [abs(x) for k in b["out"] for m in k for x in m["S"] + m["st"]["h"] + [m["st"]["sc"]] + m["st"]["v"] + m["st"]["sym"] + m["st"]["full"]])
    floor = {"F": 1.0, "S": big * q * p.P, "st": q * big * p.P}
    where = {p.eid[x] - 1: x for x in p.cells}
    seen = set()
    for line in logs:
        w = line.split()
        m = int(w[2])
        elem, pt, isout = int(w[3]), int(w[4]), int(w[5])
        v = [float(x) for x in w[6:]]
        if len(v) != 2 + 18 + 12 + 2 * m:
            raise Bad("log", {"line": line})
        tp, tc, v = v[0], v[1], v[2:]
        old = {"F": v[:9], "S": v[18:24], "st": v[30:30 + m]}
        new = {"F": v[9:18], "S": v[24:30], "st": v[30 + m:]}
        k = int(round(tc / p.dt))
        info = {"step": k, "element": elem, "point": pt, "old": old, "new": new}
        if not (1 <= k <= n and abs(tc - k * p.dt) < 1e-9 * p.dt * n and abs(tp - (k - 1) * p.dt) < 1e-9 * p.dt * n):
            raise Bad("times of an evaluation", {"previous": tp, "current": tc})
        if w[0] == "H" and isout != (1 if (k - 1) % c["freq"] == 0 or k == n else 0):
            raise Bad("evaluation of an output step", dict(info, flag=isout))
        # the columns this may be: by its number, or by its material and its deformation
        if w[0] == "H":
            if elem not in where:
                raise Bad("element number given to the material", dict(info, known=sorted(where)))
            cand = [where[elem][0]]
        else:
            cand = range(c["nx"])
        a0 = float(w[1]) / q
        cand = [j for j in cand if abs(c["blocks"][c["of"][j] - 1]["a0"] - a0) < 1e-6 and c["blocks"][c["of"][j] - 1]["kind"] == "recorder"]
        fits = [j for j in cand if all(near(old[f], model[k - 1][j][f], tol, floor[f]) for f in old)]
        if not fits:
            raise Bad("what an evaluation sees as old", dict(info, expected=[model[k - 1][j] for j in cand][:3]))
        if not loose:
            fits = [j for j in fits if all(near(new[f], model[k][j][f], tol, floor[f]) for f in new)]
            if not fits:
                raise Bad("deformation of an evaluation", dict(info, expected=[model[k][j] for j in cand][:3]))
        for j in fits:
            seen.add((k, j))
    for k in range(1, n + 1):
        for j in range(c["nx"]):
            if c["blocks"][c["of"][j] - 1]["kind"] == "recorder" and (k, j) not in seen:
                raise Bad("a step without evaluation", {"step": k, "column": j})
    # the output of a step is what the step ended with
    steps = [0] + [k for k in range(1, n + 1) if (k - 1) % c["freq"] == 0 or k == n]
    for r, o in enumerate(outs):
        if o is None:
            raise Bad("no output", {"rank": r})
        if len(o["times"]) != len(steps):
            raise Bad("number of outputs", {"got": o["times"], "expected": [k * p.dt for k in steps]})
        e = 0
        for bl in o["blocks"]:
            for i in range(len(bl["conn"])):
                x = {v: u for u, v in p.eid.items()}[o["elem_ids"][e]]
                e += 1
                j = x[0]
                blk = c["blocks"][c["of"][j] - 1]
                for s, k in enumerate(steps):
                    if k == 0:
                        continue
                    w = model[k][j]
                    want = [("deformation_gradient_" + a, w["F"][z], floor["F"]) for z, a in enumerate(FULL)]
                    want += [(pre + "stress_" + a, w["S"][z], floor["S"]) for z, a in enumerate(FULL[:6]) for pre in ("", "ipt03_")]
                    if c["be"] == "host" and blk["kind"] == "recorder":
                        want += [(a, w["st"][z], floor["st"]) for z, a in enumerate(p.states[:blk["m"]]) if a in p.fields] + [("ipt05_hist_a", w["st"][0], floor["st"])] * ("ipt05_hist_a" in p.fields)
                    for name, v, fl in want:
                        got = o["elem"][s].get((name, bl["id"]))
                        if got is None or not abs(got[i] - v) <= tol * 10 * max(fl, abs(v)):
                            raise Bad("output " + name.lstrip("ipt0123456789_"), {"step": k, "element": p.eid[x], "field": name, "got": got and got[i], "expected": v})


def perform(p, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for r in range(p.np):
        exo.write(os.path.join(d, "m.g" if p.np == 1 else "m.g.%d.%d" % (p.np, r)), p.mesh(r))
    with open(os.path.join(d, "m.in"), "w") as f:
        f.write(p.deck())
    log = os.path.join(d, "log")
    rc, text, _ = nsm.launch([nsm.probe_path("history_app"), "m.in"], np=p.np, cwd=d, timeout=60, merge=True, env={"NSM_BACKEND": p.c["be"], "NSM_LOG": log})
    outs, lines = [], []
    for r in range(p.np):
        f = os.path.join(d, "m.out.e" if p.np == 1 else "m.out.e.%d.%d" % (p.np, r))
        try:
            outs.append(exo.read(f) if os.path.exists(f) else None)
        except exo.ExoError:
            outs.append(None)
        if os.path.exists(log + ".%d" % r):
            lines += open(log + ".%d" % r).read().splitlines()
    return rc, text, outs, lines


def history(chk):
    t = nsm.TLC("History", "History_sim.cfg", chk.work, simulate=240 if chk.tier == "quick" else 4000, depth=30, workers=4, timeout=1500)
    nsm.build(["history_app"], exe=True)
    t.expect_ok()
    chk.count(t)
    rnd = random.Random(nsm.SEED + 16)
    bars = [Bar(b, random.Random(rnd.randrange(1 << 30))) for b in t.emitted()]
    evals = {}

    def one(i):
        p = bars[i]
        d = os.path.join(chk.work, "hist%d" % i)
        rc, text, outs, lines = perform(p, d)
        for again in range(2):                              # the launcher itself may fail
            if rc == 0 or "Standard exception" in text:
                break
            rc, text, outs, lines = perform(p, d)
        try:
            judge_bar(p, rc, text, outs, lines)
        except Bad as e:
            return i, e.args[0], dict(e.args[1], config=p.c, deck=p.deck()), 0
        shutil.rmtree(d, ignore_errors=True)
        return i, None, None, len(lines)
    with ThreadPoolExecutor(7) as ex:
        for i, what, detail, n in ex.map(one, range(len(bars))):
            c = bars[i].c
            chk.traces += 1
            if what:
                chk.violation("memory (%s, %s): %s" % (c["be"], c["scheme"], what), detail)
                continue
            evals[(c["be"], c["scheme"])] = evals.get((c["be"], c["scheme"]), 0) + n
            chk.sample({"run": "%s %s" % (c["be"], c["scheme"]), "steps": c["n"], "evaluations": n, "blocks": len(c["blocks"]), "ranks": bars[i].np})
    chk.extra["evaluations seen by materials"] = {" ".join(k): v for k, v in sorted(evals.items())}


def check_P16(chk):
    registry(chk)
    history(chk)
