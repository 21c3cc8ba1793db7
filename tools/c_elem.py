"""One element and single material points (spec/Hex.tla, Stress.tla) against
the element and material classes: parts of P12, P13, P17, and P14, P29."""
import json, math, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import exo, nsm

R3 = math.sqrt(3.0)
SYM = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0)]
FULL = SYM + [(1, 0), (2, 1), (0, 2)]


def z3(p):
    return p[0] + p[1] * R3


def term(t):
    """n*m/d or n*m/(d*e)"""
    v = z3(t[0]) * z3(t[1]) / z3(t[2])
    return v / z3(t[3]) if len(t) == 4 else v


def terms(ts):
    return math.fsum(term(t) for t in ts)


def quot(f):
    return z3(f[0]) / z3(f[1])


class Cmp:
    def __init__(self, chk, what, item, tol=1e-10):
        self.chk, self.what, self.item, self.tol, self.bad = chk, what, item, tol, False

    def eq(self, name, got, want, scale=None):
        got = got if isinstance(got, list) else [got]
        want = want if isinstance(want, list) else [want]
        sc = scale if scale else max([abs(w) for w in want] + [1e-300])
        for i, (g, w) in enumerate(zip(got, want)):
            if not isinstance(g, (int, float)) or not abs(g - w) <= self.tol * sc:
                if not self.bad:
                    self.chk.violation("%s: %s" % (self.what, name), dict(self.item, component=i, got=g, expected=w))
                self.bad = True
                return
        if len(got) != len(want) and not self.bad:
            self.chk.violation("%s: %s has %d entries" % (self.what, name, len(got)), self.item)
            self.bad = True


def hexes(chk, n, nt, what):
    """[(item, expectation, result)] of TLC's elements, in random units and places."""
    rnd = random.Random(nsm.SEED)
    r = nsm.TLC("MCHex", "Hex_sim.cfg", chk.work, simulate=n if chk.tier == "quick" else nt, depth=60, workers=4, timeout=1500)
    nsm.build(["probe_element", "host_app"], exe=True)
    r.expect_ok()
    chk.count(r)
    behs = r.emitted()
    behs.sort(key=lambda b: json.dumps(b["X"]))
    items, exp = [], []
    for b in behs:
        L = rnd.choice([1.0, 1.0, 0.5, 8.0, 2.0 ** -10])
        o = [rnd.choice([0, 0, 7, -100, 1000]) for _ in range(3)]
        place = lambda c: [[(c[a][i] + o[i]) * L for i in range(3)] for a in range(8)]
        b["L"], b["o"] = L, o
        items.append({"kind": "hex", "X": place(b["X"]), "x": place(b["x"]), "rho": float(b["rho"]),
                      "s": [[float(v) for v in q] for q in b["s"]], "f9": [[float(v) for v in q] for q in b["f9"]],
                      "C": b["C"], "iso": b["iso"], "slot": rnd.randrange(3)})
    rc, out, err = nsm.run_probe("probe_element", items=items, timeout=600)
    by = {x["i"]: x for x in out}
    if len(by) != len(items):
        raise nsm.ToolError("probe_element answered %d of %d (rc=%s) %s" % (len(by), len(items), rc, err[-800:]))
    nsm.log(len(items), "elements")
    for i, (b, it) in enumerate(zip(behs, items)):
        chk.traces += 1
        brief = {"corners": b["X"], "moved": b["x"], "unit": b["L"], "origin": b["o"]}
        g = by[i]
        b["place"], b["placed"] = it["X"], it["x"]
        if "p" not in g:
            chk.violation(what + ": no answer", dict(brief, got=g))
            continue
        # positions far from the origin lose digits in the differences of coordinates
        yield b, g, Cmp(chk, what, brief, 1e-10)
        chk.sample(brief)


class Bodies:
    """A run of the program on separate elements, every node of which is driven
    to its place by prescribed displacements, in one or several steps."""

    def __init__(self, rnd, blocks):
        """blocks: [{model, K, G, rho, elems: [(X, x)]}]"""
        self.blocks, self.rnd = blocks, rnd
        n = sum(8 * len(b["elems"]) for b in blocks)
        self.gid = rnd.sample(range(1, 2 * n + 1), n)
        self.eid = rnd.sample(range(1, 40), sum(len(b["elems"]) for b in blocks))
        coords, self.tgt, bl, nd = [], [], [], 0
        order = list(range(n))
        rnd.shuffle(order)               # position of a corner in the list of nodes
        self.at = order
        coords, self.tgt = [None] * n, [None] * n
        for k, b in enumerate(blocks):
            conn = []
            for X, x in b["elems"]:
                for a in range(8):
                    coords[order[nd + a]], self.tgt[order[nd + a]] = X[a], x[a]
                conn.append([order[nd + a] for a in range(8)])
                nd += 8
            bl.append({"id": k + 1, "name": "", "conn": conn})
        self.mesh = {"coords": coords, "node_ids": [self.gid[i] for i in range(n)], "elem_ids": self.eid, "blocks": bl,
                     "nodesets": [{"id": i + 1, "name": "", "nodes": [i]} for i in range(n)]}
        self.conn = [c for b in bl for c in b["conn"]]

    def deck(self, fields):
        r = self.rnd
        steps = r.choice([1, 1, 2, 5])
        lines = ["genesis input file: m.g", "exodus output file: m.e", "final time: 1.0", "number of load steps: %d" % steps,
                 "output frequency: %d" % steps, "output fields: " + " ".join(fields)]
        for k, b in enumerate(self.blocks):
            lines += ["material parameters: m%d %s density %.17g bulk_modulus %.17g shear_modulus %.17g" % (k, b["model"], b["rho"], b["K"], b["G"]),
                      "element block: block_%d m%d" % (k + 1, k)]
        for i, (X, x) in enumerate(zip(self.mesh["coords"], self.tgt)):
            for c in range(3):
                lines.append('boundary condition: prescribed_displacement nodelist_%d %s "%.17g * t"' % (i + 1, "xyz"[c], x[c] - X[c]))
        r.shuffle(lines)
        return "\n".join(lines) + "\n"

    def run(self, dirn, fields, exe=None):
        """(message or None, output text, nodal(name) -> per corner, elem(name) -> per element) at the last output"""
        shutil.rmtree(dirn, ignore_errors=True)
        os.makedirs(dirn)
        exo.write(os.path.join(dirn, "m.g"), self.mesh)
        with open(os.path.join(dirn, "m.in"), "w") as f:
            f.write(self.deck(fields))
        rc, text, _ = nsm.launch([exe or nsm.exe_path(), "m.in"], np=1, cwd=dirn, timeout=60, merge=True)
        if rc != 0:
            return "run failed", text, None, None
        try:
            o = exo.read(os.path.join(dirn, "m.out.e"))
        except exo.ExoError as e:
            return "output cannot be read", str(e), None, None
        if len(o["times"]) < 2 or abs(o["times"][-1] - 1) > 1e-12:
            return "number of outputs", str(o["times"]), None, None
        where = {g: i for i, g in enumerate(o["node_ids"])}

        def nodal(name, step=-1):
            v = o["nodal"][step][name]
            return [[v[where[self.gid[i]]] for i in c] for c in self.conn]

        ebl, e0 = [], 0
        for b in o["blocks"]:
            for j in range(len(b["conn"])):
                ebl.append((o["elem_ids"][e0], b["id"], j))
                e0 += 1

        def elem(name, step=-1):
            by = {e: o["elem"][step][(name, b)][j] for e, b, j in ebl}
            return [by[e] for e in self.eid]
        return None, text, nodal, elem


def runs(chk, behs, want, fields, label):
    """Runs the elements three at a time; want(b, nodal, elem, k, cmp) compares."""
    rnd = random.Random(nsm.SEED + 5)
    jobs = []
    for i in range(0, len(behs), 3):
        grp = behs[i:i + 3]
        blocks = [{"model": "elastic", "K": b["l"] + 2.0 * b["m"] / 3.0, "G": float(b["m"]), "rho": float(b["rho"]),
                   "elems": [(b["place"], b["placed"])]} for b in grp]
        jobs.append((i, grp, Bodies(random.Random(rnd.randrange(1 << 30)), blocks)))

    def one(j):
        i, grp, bd = j
        d = os.path.join(chk.work, "%s%d" % (label, i))
        return i, grp, d, bd.run(d, fields, nsm.probe_path("host_app") if i % 2 else None)
    with ThreadPoolExecutor(7) as ex:
        for i, grp, d, (err, text, nodal, elem) in ex.map(one, jobs):
            chk.traces += 1
            if err:
                chk.violation(label + ": " + err, {"dir": d, "output": text[-600:]})
                continue
            ok = len(chk.violations)
            try:
                crit = min(math.sqrt(b["lsq"] * b["rho"] / (b["l"] + 2.0 * b["m"] / 3.0)) * b["L"] for b in grp)
                m = re.search(r"Approximate maximum stable time step:\s*([-+.\deEinfa]+)", text)
                if "lumped_mass" in fields and (not m or not abs(float(m.group(1)) - crit) <= 1e-5 * crit):
                    chk.violation(label + ": critical step", {"dir": d, "got": m and m.group(1), "expected": crit})
                for k, b in enumerate(grp):
                    want(b, nodal, elem, k, Cmp(chk, label, {"corners": b["place"], "moved": b["placed"], "dir": d}, 1e-9))
            except KeyError as e:
                chk.violation(label + ": missing field", {"dir": d, "field": str(e)})
            if len(chk.violations) == ok:
                shutil.rmtree(d, ignore_errors=True)


def mass_and_length(chk):
    """P12"""
    all_ = []
    for b, g, c in hexes(chk, 60, 2000, "element"):
        m = [term(t) * b["L"] ** 3 for t in b["mass"]]
        for api in "pk":
            c.eq("lumped mass (%s)" % api, g[api]["mass"], m)
        c.eq("characteristic length", g["p"]["len"], math.sqrt(b["lsq"]) * b["L"])
        c.eq("characteristic length", g["p"]["lenx"], math.sqrt(b["lsqx"]) * b["L"])
        all_.append(b)

    def want(b, nodal, elem, k, c):
        for step in (0, -1):
            c.eq("lumped_mass", nodal("lumped_mass", step)[k], [term(t) * b["L"] ** 3 for t in b["mass"]])
    runs(chk, all_, want, ["lumped_mass"], "mass of elements")


def forces(chk):
    """P13: deformation gradients and forces"""
    all_ = []
    for b, g, c in hexes(chk, 60, 2000, "element"):
        f = [term(t) * b["L"] ** 2 for a in b["force"] for t in a]
        F = [quot(b["F"][q][i][j]) for q in range(8) for i, j in FULL]
        for api in "pk":
            c.eq("deformation gradient (%s)" % api, g[api]["F"], F, max(1, max(map(abs, F))))
            c.eq("internal force (%s)" % api, g[api]["force"], f, 10 * b["L"] ** 2)
        if g["k"]["touched"]:
            c.eq("another element's entries", 1, 0)
        all_.append(b)

    def want(b, nodal, elem, k, c):
        f = [[terms(b["eforce"][a][i]) * b["L"] ** 2 for i in range(3)] for a in range(8)]
        sc = max(abs(term(t)) for a in b["eforce"] for i in a for t in i) * b["L"] ** 2 + b["L"] ** 2
        for i in range(3):
            c.eq("internal_force", nodal("internal_force_" + "xyz"[i])[k], [f[a][i] for a in range(8)], sc)
            c.eq("internal_force at the start", nodal("internal_force_" + "xyz"[i], 0)[k], [0.0] * 8, sc)
    runs(chk, all_, want, ["internal_force"], "forces of elements")


def averages(chk):
    """P17: volumes and volume averages"""
    all_ = []
    for b, g, c in hexes(chk, 60, 2000, "element"):
        v, v0 = term(b["vol"]) * b["L"] ** 3, term(b["vol0"]) * b["L"] ** 3
        a = [terms(t) for t in b["ave9"]]
        c.eq("volume", g["p"]["vol"], v)
        c.eq("volume (k)", g["k"]["vol"], v)
        c.eq("volume", g["p"]["vol0"], v0)
        for api in "pk":
            c.eq("volume average (%s)" % api, g[api]["ave9"], a, 5)
        c.eq("volume average of four", g["p"]["ave4"], a[:4], 5)
        c.eq("volume average of six", g["k"]["ave6"],
             [math.fsum(b["s"][q][k] * z3(b["ave9"][0][q][1]) / v * b["L"] ** 3 / 1728 for q in range(8)) for k in range(6)], 5)
        all_.append(b)

    fields = ["volume", "stress", "deformation_gradient"] + ["ipt0%d_%s" % (q, f) for q in range(1, 9) for f in ("stress", "deformation_gradient")]

    def want(b, nodal, elem, k, c):
        c.eq("volume", elem("volume")[k], term(b["vol"]) * b["L"] ** 3)
        c.eq("volume at the start", elem("volume", 0)[k], term(b["vol0"]) * b["L"] ** 3)
        fs = max(1.0, max(abs(quot(b["F"][q][i][j])) for q in range(8) for i, j in FULL))
        es = (3 * b["l"] + 2 * b["m"]) * fs
        name = lambda ij: "xyz"[ij[0]] + "xyz"[ij[1]]
        for ij in FULL:
            i, j = ij
            c.eq("deformation_gradient_" + name(ij), elem("deformation_gradient_" + name(ij))[k], terms(b["aveF"][i][j]), fs)
            c.eq("deformation_gradient_%s at the start" % name(ij), elem("deformation_gradient_" + name(ij), 0)[k], float(i == j))
            for q in range(8):
                n = "ipt0%d_deformation_gradient_%s" % (q + 1, name(ij))
                c.eq(n, elem(n)[k], quot(b["F"][q][i][j]), fs)
        for ij in SYM:
            i, j = ij
            c.eq("stress_" + name(ij), elem("stress_" + name(ij))[k], terms(b["aveE"][i][j]), es)
            for q in range(8):
                n = "ipt0%d_stress_%s" % (q + 1, name(ij))
                c.eq(n, elem(n)[k], quot(b["E"][q][i][j]), es)
    runs(chk, all_, want, fields, "fields of elements")


def check_P14(chk):
    q = chk.tier == "quick"
    r = nsm.TLC("Stress", "Stress_sim.cfg", chk.work, simulate=300 if q else 8000, depth=80, workers=4, timeout=900)
    nsm.build(["probe_element", "host_app"], exe=True)
    r.expect_ok()
    chk.count(r)
    behs = r.emitted()
    behs.sort(key=lambda b: json.dumps(b))
    rnd = random.Random(nsm.SEED)
    items = []
    for b in behs:
        b["u"] = rnd.choice([1.0, 1.0, 2.0 ** 30, 2.0 ** -20, 1e6])
        ps = ["density 1.5", "bulk_modulus %.17g" % (b["K"] * b["u"]), "shear_modulus %.17g" % (b["G"] * b["u"])]
        rnd.shuffle(ps)
        items.append({"kind": "material", "text": b["model"] + " " + " ".join(ps), "np": rnd.choice([1, 2, 8]),
                      "F": [[p["n"][i][j] / p["d"] for i, j in FULL] for p in b["pts"]]})
    rc, out, err = nsm.run_probe("probe_element", items=items, timeout=600)
    by = {x["i"]: x for x in out}
    if len(by) != len(items):
        raise nsm.ToolError("probe_element answered %d of %d (rc=%s) %s" % (len(by), len(items), rc, err[-800:]))
    for k, (b, it) in enumerate(zip(behs, items)):
        chk.traces += 1
        g = by[k]
        brief = {"material": it["text"], "F": it["F"]}
        if "host" not in g:
            chk.violation("no stress: " + b["model"], dict(brief, got=g))
            continue
        c = Cmp(chk, b["model"], brief, 1e-9)
        for n, p in enumerate(b["pts"]):
            want, scale = stress_of(b, p)
            want, scale = [w * b["u"] for w in want], scale * b["u"]
            c.item = dict(brief, point=n)
            for api in ("host", "hostview", "khost", "dev", "again"):
                c.eq("stress (%s)" % api, g[api][6 * n:6 * n + 6], want, scale)
        c.item = brief
        c.eq("tangent", g["tangent"], [b["t3"][i][j] * b["u"] / 3.0 for _ in range(it["np"]) for i in range(6) for j in range(6)] + [77.0])
        c.eq("parameters", g["par"], [1.5, b["K"] * b["u"], b["G"] * b["u"]])
        chk.sample({"material": it["text"], "points": len(b["pts"])})
    through_program(chk, rnd.sample(behs, min(len(behs), 90 if q else 2000)))


def stress_of(b, p):
    J = p["J"][0] / p["J"][1]
    t = [[x[0] / x[1] * J ** (x[2] / 3.0) for x in c] for c in p["s"]]
    return [math.fsum(c) for c in t], max(abs(x) for c in t for x in c) + b["K"] + b["G"]


def through_program(chk, behs):
    """P14: cubes carried by the gradients, through deck, mesh and output"""
    rnd = random.Random(nsm.SEED + 6)
    fields = ["stress", "deformation_gradient", "volume"] + ["ipt0%d_%s" % (q, f) for q in (1, 4, 8) for f in ("stress", "deformation_gradient")]
    jobs = []
    for i in range(0, len(behs), 3):
        grp, blocks = behs[i:i + 3], []
        for b in grp:
            els = []
            for p in b["pts"]:
                F = [[p["n"][r][c] / p["d"] for c in range(3)] for r in range(3)]
                o, v = [rnd.choice([0, 1, -2]) for _ in range(3)], [rnd.choice([0, 1, -2]) for _ in range(3)]
                X = [[[(s + 1) // 2 for s in c][k] + o[k] for k in range(3)] for c in
                     [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]]
                els.append(([[float(y) for y in c] for c in X],
                            [[math.fsum([F[r][k] * c[k] for k in range(3)] + [v[r]]) for r in range(3)] for c in X]))
            blocks.append({"model": b["model"], "K": float(b["K"]), "G": float(b["G"]), "rho": 1.5, "elems": els})
        jobs.append((i, grp, Bodies(random.Random(rnd.randrange(1 << 30)), blocks)))

    def one(j):
        i, grp, bd = j
        d = os.path.join(chk.work, "stress%d" % i)
        return i, grp, d, bd.run(d, fields, nsm.probe_path("host_app") if i % 2 else None)
    with ThreadPoolExecutor(7) as ex:
        for i, grp, d, (err, text, nodal, elem) in ex.map(one, jobs):
            chk.traces += 1
            if err:
                chk.violation("materials in a run: " + err, {"dir": d, "output": text[-600:]})
                continue
            ok, e = len(chk.violations), 0
            try:
                for b in grp:
                    for p in b["pts"]:
                        c = Cmp(chk, "materials in a run", {"model": b["model"], "F": p["n"], "over": p["d"], "dir": d}, 1e-9)
                        J = p["J"][0] / p["J"][1]
                        want, sc = stress_of(b, p)
                        c.eq("volume", elem("volume")[e], J)
                        for pre in ("", "ipt01_", "ipt04_", "ipt08_"):
                            for k, (x, y) in enumerate(FULL):
                                c.eq("F", elem("%sdeformation_gradient_%s%s" % (pre, "xyz"[x], "xyz"[y]))[e], p["n"][x][y] / p["d"], 10.0)
                            for k, (x, y) in enumerate(SYM):
                                c.eq(pre + "stress", elem("%sstress_%s%s" % (pre, "xyz"[x], "xyz"[y]))[e], want[k], sc)
                                c.eq(pre + "stress at the start", elem("%sstress_%s%s" % (pre, "xyz"[x], "xyz"[y]), 0)[e], 0.0, sc)
                        e += 1
            except KeyError as x:
                chk.violation("materials in a run: missing field", {"dir": d, "field": str(x)})
            if len(chk.violations) == ok:
                shutil.rmtree(d, ignore_errors=True)


def check_P29(chk):
    for b, g, c in hexes(chk, 80, 2500, "tangent"):
        for name, col in (("K", "col"), ("Kiso", "isocol")):
            K = g["p"][name]
            if any(not isinstance(v, (int, float)) for v in K):
                chk.violation("tangent: not a number", c.item)
                break
            sc = max(map(abs, K)) + 1e-300
            n = 3 * (b["b"] - 1) + b["j"] - 1
            want = [terms(t) * b["L"] for a in b[col] for t in a]
            c.eq("column %d (%s)" % (n, name), [K[24 * i + n] for i in range(24)], want, sc)
            c.eq("row %d (%s)" % (n, name), K[24 * n:24 * n + 24], want, sc)
            c.eq("symmetry (%s)" % name, K, [K[24 * j + i] for i in range(24) for j in range(24)], sc)
            for i in range(3):
                c.eq("translation (%s)" % name, [math.fsum(K[24 * r + 3 * a + i] for a in range(8)) for r in range(24)], [0.0] * 24, sc)
