"""Quasistatic runs (spec/Quasi.tla): P22."""
import itertools, math, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import exo, nsm

XYZ = "xyz"
CORNER = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
SGN = [[2 * v - 1 for v in c] for c in CORNER]
FULL = [("xx", 0, 0), ("yy", 1, 1), ("zz", 2, 2), ("xy", 0, 1), ("yz", 1, 2), ("zx", 2, 0), ("yx", 1, 0), ("zy", 2, 1), ("xz", 0, 2)]


def rotations():
    """the corner lists that describe the same cell"""
    res = []
    for i0, i1, i3, i4 in itertools.permutations(range(8), 4):
        e = [[CORNER[i][q] - CORNER[i0][q] for q in range(3)] for i in (i1, i3, i4)]
        if any(sum(map(abs, v)) != 1 for v in e):
            continue
        det = (e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0])
               + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]))
        if det != 1:
            continue
        res.append([CORNER.index(tuple(CORNER[i0][q] + sum(c[k] * e[k][q] for k in range(3)) for q in range(3))) for c in CORNER])
    return res


ROT = rotations()
assert len(ROT) == 24
GP = [[s / math.sqrt(3.0) for s in p] for p in SGN]
# derivatives of the shape functions at the integration points
DN = [[[SGN[a][j] / 8.0 * math.prod(1 + SGN[a][k] * xi[k] for k in range(3) if k != j) for j in range(3)] for a in range(8)] for xi in GP]


def inv3(m):
    c = [[m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3] for j in range(3)] for i in range(3)]
    d = sum(m[0][j] * c[0][j] for j in range(3))
    return [[c[j][i] / d for j in range(3)] for i in range(3)], d


def mul(a, b):
    return [[a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j] for j in range(3)] for i in range(3)]


def stress(model, l, m, F):
    """Stress.tla in floating point"""
    if model == "elastic":
        tr = F[0][0] + F[1][1] + F[2][2] - 3.0
        return [[m * (F[i][j] + F[j][i] - (2.0 if i == j else 0.0)) + (l * tr if i == j else 0.0) for j in range(3)] for i in range(3)]
    K = l + 2.0 * m / 3.0
    J = inv3(F)[1]
    B = [[sum(F[i][k] * F[j][k] for k in range(3)) for j in range(3)] for i in range(3)]
    t = (B[0][0] + B[1][1] + B[2][2]) / 3.0
    f = m * J ** (-5.0 / 3.0)
    return [[f * (B[i][j] - (t if i == j else 0.0)) + (K / 2.0 * (J - 1.0 / J) if i == j else 0.0) for j in range(3)] for i in range(3)]


def element(X, x, model, l, m):
    """(force on the nodes, F at the points, stress at the points, weights) of Hex.tla in floating point"""
    f = [[0.0] * 3 for _ in range(8)]
    Fs, ss, ws = [], [], []
    for q in range(8):
        dn = DN[q]
        A = [[sum(X[a][i] * dn[a][j] for a in range(8)) for j in range(3)] for i in range(3)]
        B = [[sum(x[a][i] * dn[a][j] for a in range(8)) for j in range(3)] for i in range(3)]
        F = mul(B, inv3(A)[0])
        s = stress(model, l, m, F)
        Bi, det = inv3(B)
        for a in range(8):
            g = [sum(dn[a][j] * Bi[j][i] for j in range(3)) for i in range(3)]
            for i in range(3):
                f[a][i] -= det * (s[i][0] * g[0] + s[i][1] * g[1] + s[i][2] * g[2])
        Fs.append(F)
        ss.append(s)
        ws.append(det)
    return f, Fs, ss, ws


class Problem:
    def __init__(self, b, rnd):
        self.b, self.rnd = b, rnd
        r = rnd
        self.L, self.T, self.P = r.choice([1.0, 0.5, 64.0]), r.choice([1.0, 0.25, 8.0]), r.choice([1.0, 1e3, 2.0 ** -5])
        self.exact = all(x["kind"] != "free" for x in b["bodies"])
        base, at = [], 0
        for x in b["bodies"]:
            base.append(at)
            at += len(x["X"])
        self.n = at
        self.base = base
        self.pos = r.sample(range(at), at)                # place of model node i in the file
        self.X = [None] * at
        for x, o in zip(b["bodies"], base):
            for i, p in enumerate(x["X"]):
                self.X[self.pos[o + i]] = [v * self.L for v in p]
        self.gid = nsm.wide(r, r.choice([list(range(1, at + 1)), r.sample(range(1, at + 1), at), r.sample(range(1, 3 * at + 5), at)]))
        # elements by block: a block for every material of every body
        blocks = []
        for x, o in zip(b["bodies"], base):
            n = x["n"]
            mats = 2 if x["kind"] == "layers" else 1
            bl = [[] for _ in range(mats)]
            for c in itertools.product(*[range(k) for k in n]):
                rot = r.choice(ROT)
                nodes = [tuple(c[q] + CORNER[rot[k]][q] for q in range(3)) for k in range(8)]
                bl[1 if mats == 2 and c[0] >= x["q"] else 0].append([self.pos[o + p[0] + (n[0] + 1) * (p[1] + (n[1] + 1) * p[2])] for p in nodes])
            for k in range(mats):
                r.shuffle(bl[k])
                blocks.append({"model": x["model"], "l": x["m"][k][0] * self.P, "m": x["m"][k][1] * self.P, "conn": bl[k]})
        self.blocks = [x for x in blocks if x["conn"]]
        r.shuffle(self.blocks)
        ids = r.sample([1, 2, 5, 7, 12, 30, 70000, 2000000000], len(self.blocks))
        for x, i in zip(self.blocks, ids):
            x["id"] = i
        ne = sum(len(x["conn"]) for x in self.blocks)
        self.eid = nsm.wide(r, r.sample(range(1, 2 * ne + 1), ne))
        # node sets: conditions with the same members may share one
        self.sets, self.cset = [], []
        for c in b["conds"]:
            m = [self.pos[base[c["b"] - 1] + i - 1] for i in c["nodes"]]
            if c["x"]["set"]["f"] == "unknown":
                self.cset.append("no_such_set")
                continue
            for k, s in enumerate(self.sets):
                if sorted(s["nodes"]) == sorted(m) and r.random() < 0.7:
                    self.cset.append(s["label"])
                    break
            else:
                i = 3 * len(self.sets) + r.choice([1, 2, 3])
                name = r.choice(["", "set_%d" % i])
                r.shuffle(m)
                self.sets.append({"id": i, "name": name, "nodes": m, "label": name or "nodelist_%d" % i})
                self.cset.append(self.sets[-1]["label"])
        lim = r.choice([1, 2, 5, 100, 100]) if not self.exact and len(b["bodies"]) == 1 else None
        self.tol = r.choice(["1.0e-8", "1e-9"]) if any(x["kind"] != "free" for x in b["bodies"]) else r.choice(["1.0e-2", "1e-4", None, "1.0e-8"])
        self.limit = lim
        self.poison = False
        self.driven = [[False] * 3 for _ in range(at)]
        for x, o in zip(b["bodies"], base):
            for c in range(3):
                for i, d in enumerate(x["driven"][c]):
                    self.driven[self.pos[o + i]][c] = d
        self.fields = ["displacement", "velocity", "internal_force"]
        self.ipt = sorted(r.sample(range(1, 9), 2))
        self.fields += ["stress", "deformation_gradient", "volume"] + ["ipt0%d_%s" % (q, f) for q in self.ipt for f in ("stress", "deformation_gradient")]
        r.shuffle(self.fields)

    def mesh(self):
        sets = self.sets[:]
        self.rnd.shuffle(sets)
        return {"coords": self.X, "node_ids": self.gid, "elem_ids": self.eid,
                "blocks": [{"id": x["id"], "name": "", "conn": x["conn"]} for x in self.blocks], "nodesets": sets}

    def deck(self):
        b, r, run = self.b, self.rnd, self.b["run"]
        lines = ["genesis input file: m.g", "exodus output file: m.e", "time integration scheme: quasistatic",
                 "initial time: %.17g" % (run["t0"] * self.T), "final time: %.17g" % ((run["t0"] + run["n"]) * self.T),
                 "number of load steps: %d" % run["n"], "output frequency: %d" % run["freq"], "output fields: " + " ".join(self.fields)]
        if self.tol:
            lines.append("nonlinear solver relative tolerance: " + self.tol)
        if self.limit:
            lines.append("nonlinear solver maximum iterations: %d" % self.limit)
        for k, x in enumerate(self.blocks):
            lines += ["material parameters: m%d %s density 1.0 bulk_modulus %.17g shear_modulus %.17g" % (k, x["model"], x["l"] + 2.0 * x["m"] / 3.0, x["m"]),
                      "element block: block_%d m%d" % (x["id"], k)]
        r.shuffle(lines)
        for c, s in zip(b["conds"], self.cset):
            x = c["x"]
            typ = {"d": "prescribed_displacement", "v": "prescribed_velocity", "i": "initial_velocity"}[x["type"]]
            unit = self.L / b["bodies"][c["b"] - 1]["D"] / (1.0 if x["type"] == "d" else self.T)
            if not any(x["g"]) and (x["prof"][1:] == [0, 0] or x["d"] == 0):
                val = "%.17g" % (x["d"] * x["prof"][0] * unit)
            else:
                e = "%d" % x["d"] + "".join("%+d*%s/%.17g" % (g, XYZ[i], self.L) for i, g in enumerate(x["g"]) if g)
                p = "%d" % x["prof"][0] + "".join("%+d*t%s/%.17g" % (v, "^2" if i == 2 else "", self.T ** i) for i, v in enumerate(x["prof"]) if i and v)
                val = '"(%s)*(%s)*%.17e"' % (e, p, unit)
            lines.append("boundary condition: %s %s %s %s" % (typ, s, XYZ[x["co"] - 1], val))
        if self.poison:                                   # not a number, from the second step on
            k = [k for k, c in enumerate(b["conds"]) if c["nodes"] and c["x"]["type"] in "dv"]
            k = r.choice(k)
            lines.append('boundary condition: prescribed_displacement %s %s "%ssqrt(%.17g-t)"' % (
                self.cset[k], XYZ[b["conds"][k]["x"]["co"] - 1], "0*", (run["t0"] - 0.5) * self.T))
        return "\n".join(lines) + "\n"

    def state(self, u):
        """forces and element quantities at displacement u"""
        f = [[0.0] * 3 for _ in range(self.n)]
        el = []
        for x in self.blocks:
            for c in x["conn"]:
                e = element([self.X[i] for i in c], [[self.X[i][q] + u[i][q] for q in range(3)] for i in c], x["model"], x["l"], x["m"])
                for a, i in enumerate(c):
                    for q in range(3):
                        f[i][q] += e[0][a][q]
                el.append(e)
        return f, el

    def residual(self, f):
        v = [f[i][q] for i in range(self.n) for q in range(3) if not self.driven[i][q]]
        return math.sqrt(math.fsum(t * t for t in v)) + 20.0 * max([abs(t) for t in v] + [0.0])


class Bad(Exception):
    pass


def judge(p, rc, text, o, need):
    """need: the run has to succeed.  Raises Bad(kind, detail)."""
    b = p.b
    want = b["out"]
    if rc == "timeout":
        raise Bad("run does not end", {})
    if need and rc != 0:
        raise Bad("a solvable problem ends with status %s" % rc, {"text": text[-500:]})
    if o is None:
        if rc == 0:
            raise Bad("no output", {})
        return
    times = o["times"]
    if rc == 0 and len(times) != len(want) or len(times) > len(want):
        raise Bad("number of outputs", {"got": times, "expected": [x["t"] * p.T for x in want]})
    for t, x in zip(times, want):
        if abs(t - x["t"] * p.T) > 1e-9 * max(1.0, abs(t)):
            raise Bad("output times", {"got": times, "expected": [x["t"] * p.T for x in want]})
    where = {g: i for i, g in enumerate(o["node_ids"])}
    at = [where[g] for g in p.gid]
    prev = None
    rel = float(p.tol or "1e-6")
    for s, x in enumerate(want[:len(times)]):
        nd = lambda n: [[o["nodal"][s]["%s_%s" % (n, XYZ[q])][at[i]] for q in range(3)] for i in range(p.n)]
        u, v, f = nd("displacement"), nd("velocity"), nd("internal_force")
        for fld in (u, v, f):
            if any(not math.isfinite(t) for a in fld for t in a):
                raise Bad("not a number in the output", {"step": x["k"]})
        du = max(abs(t) for a in u for t in a)
        for k, bd in enumerate(b["bodies"]):
            un = p.L / bd["D"]
            big = max([1] + [abs(t) for w in want for c in w["u"][k] for t in c]) * un
            bv = max([1] + [abs(t) for w in want for c in w["v"][k] for t in c]) * un / p.T
            U = max([1] + [abs(t) * max(abs(w["s"][k]) for w in want) for a in bd["U"] for t in a]) * un
            for i in range(len(bd["X"])):
                j = p.pos[p.base[k] + i]
                for c in range(3):
                    if bd["driven"][c][i]:
                        if not abs(u[j][c] - x["u"][k][c][i] * un) <= 1e-10 * big:
                            raise Bad("displacement of a driven node", {"step": x["k"], "node": p.gid[j], "comp": XYZ[c], "got": u[j][c], "expected": x["u"][k][c][i] * un})
                        if not abs(v[j][c] - x["v"][k][c][i] * un / p.T) <= 1e-9 * bv:
                            raise Bad("velocity of a driven node", {"step": x["k"], "node": p.gid[j], "comp": XYZ[c], "got": v[j][c], "expected": x["v"][k][c][i] * un / p.T})
                    if bd["kind"] != "free":
                        w = bd["U"][i][c] * x["s"][k] * un
                        if not abs(u[j][c] - w) <= 3e-6 * U:
                            raise Bad("displacement (%s)" % bd["kind"], {"step": x["k"], "node": p.gid[j], "comp": XYZ[c], "got": u[j][c], "expected": w, "scale": U})
        wf, el = p.state(u)
        sc = max(m["l"] + 2 * m["m"] for m in p.blocks) * p.L * (p.L + du)
        for i in range(p.n):
            for c in range(3):
                if not abs(f[i][c] - wf[i][c]) <= 1e-9 * sc:
                    raise Bad("internal_force", {"step": x["k"], "node": p.gid[i], "comp": XYZ[c], "got": f[i][c], "expected": wf[i][c]})
        if s and prev and prev[0] == x["k"] - 1:
            # the residual at the start of the step: driven nodes moved, the others where they were
            u0 = [[u[i][c] if p.driven[i][c] else prev[1][i][c] for c in range(3)] for i in range(p.n)]
            r0, r1 = p.residual(p.state(u0)[0]), p.residual(wf)
            if not r1 <= rel * r0 * 1.01 + 1e-12 * sc:
                raise Bad("not in equilibrium", {"step": x["k"], "residual": r1, "at the start of the step": r0, "relative tolerance": rel})
        prev = (x["k"], u)
        # element output belongs to the displacement of the same output
        order, e0 = {}, 0
        for bl in o["blocks"]:
            for j in range(len(bl["conn"])):
                order[o["elem_ids"][e0]] = (bl["id"], j)
                e0 += 1
        e = 0
        for m in p.blocks:
            for _ in m["conn"]:
                _, F, S, w = el[e]
                bid, j = order[p.eid[e]]
                e += 1
                ss = (3 * m["l"] + 2 * m["m"]) * max(1.0, max(abs(t) for q in F for a in q for t in a))
                W = math.fsum(w)

                def eq(name, wnt, scale):
                    got = o["elem"][s].get((name, bid))
                    if got is None or not abs(got[j] - wnt) <= 1e-8 * scale:
                        raise Bad("element output " + name.lstrip("ipt0123456789_"), {"step": x["k"], "element": p.eid[e - 1], "field": name, "got": got and got[j], "expected": wnt})
                eq("volume", W, W)
                for n, a, c in FULL:
                    eq("deformation_gradient_" + n, math.fsum(F[q][a][c] * w[q] for q in range(8)) / W, 1.0)
                    for q in p.ipt:
                        eq("ipt0%d_deformation_gradient_%s" % (q, n), F[q - 1][a][c], 1.0)
                for n, a, c in FULL[:6]:
                    eq("stress_" + n, math.fsum(S[q][a][c] * w[q] for q in range(8)) / W, ss)
                    for q in p.ipt:
                        eq("ipt0%d_stress_%s" % (q, n), S[q - 1][a][c], ss)


def perform(p, d, exe, np=1):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    exo.write(os.path.join(d, "m.g"), p.mesh())
    if np > 1:
        for r in range(np):
            shutil.copy(os.path.join(d, "m.g"), os.path.join(d, "m.g.%d.%d" % (np, r)))
    with open(os.path.join(d, "m.in"), "w") as f:
        f.write(p.deck())
    rc, text, _ = nsm.launch([exe, "m.in"], np=np, cwd=d, timeout=60, merge=True)
    out = os.path.join(d, "m.out.e")
    try:
        o = exo.read(out) if os.path.exists(out) else None
    except exo.ExoError:
        o = None
    return rc, text, o


def check_P22(chk):
    a = nsm.TLC("Quasi", "Quasi_sim.cfg", chk.work, simulate=90 if chk.tier == "quick" else 4000, depth=40, workers=4, timeout=1500)
    nsm.build(["host_app"], exe=True)
    a.expect_ok()
    chk.count(a)
    rnd = random.Random(nsm.SEED + 22)
    behs = a.emitted()
    host, exe = nsm.probe_path("host_app"), nsm.exe_path()
    jobs = []
    for i, b in enumerate(behs):
        jobs.append((i, Problem(b, random.Random(rnd.randrange(1 << 30))), host, 1))
    # the program itself, and several ranks: refused, or right
    for i, b in enumerate(behs[:6]):
        jobs.append((len(jobs), Problem(b, random.Random(rnd.randrange(1 << 30))), exe, 1))
    bars = [b for b in behs if all(x["kind"] == "bar" for x in b["bodies"])]
    for b in bars[:6]:
        p = Problem(b, random.Random(rnd.randrange(1 << 30)))
        p.poison = True
        jobs.append((len(jobs), p, host, 1))
    for i, b in enumerate(behs[:3]):
        jobs.append((len(jobs), Problem(b, random.Random(rnd.randrange(1 << 30))), host if i else exe, 2))
    seen, limits = {}, []

    def again(j):
        p, d, n = j
        res = []
        for lim in (n, n - 1):
            if lim > 0:
                p.limit = lim
                res.append((lim, lim == n, perform(p, "%s_%d" % (d, lim), host)))
        return p, d, n, res

    def one(j):
        i, p, x, np = j
        d = os.path.join(chk.work, "q%d" % i)
        return j, d, perform(p, d, x, np)
    with ThreadPoolExecutor(7) as ex:
        for (i, p, x, np), d, (rc, text, o) in ex.map(one, jobs):
            chk.traces += 1
            kinds = "+".join(sorted(q["kind"] for q in p.b["bodies"]))
            ok = True
            try:
                if np > 1:
                    if rc == 0:
                        raise Bad("a parallel quasistatic run is not refused", {})
                    if rc == "timeout":
                        raise Bad("a parallel quasistatic run hangs", {})
                else:
                    judge(p, rc, text, o, x == host and (p.limit or 100) >= 100 and not p.poison)
                    if p.poison and rc == 0:
                        raise Bad("success of a run whose displacements are no numbers", {})
                    # corrections of the load step that took most
                    its = [len(re.findall(r"iteration \d+: residual", q)) - 1 for q in re.split(r"(?m)^Step ", text)[1:]]
                    if x == host and rc == 0 and its and min(its) >= 0 and i % 3 == 0:
                        limits.append((p, d, max(its)))
                seen[(kinds if x == host else "program", "success" if rc == 0 else "error")] = seen.get((kinds if x == host else "program", "success" if rc == 0 else "error"), 0) + 1
            except Bad as e:
                ok = False
                chk.violation(kinds + ": " + e.args[0], dict(e.args[1], dir=d))
            except KeyError as e:
                ok = False
                chk.violation("missing in the output", {"what": str(e), "dir": d})
            if ok:
                shutil.rmtree(d, ignore_errors=True)
    # the iterations a run needed are enough, one less is not
    with ThreadPoolExecutor(7) as ex:
        for p, d, n, res in ex.map(again, limits):
            for lim, enough, (rc, text, o) in res:
                chk.traces += 1
                dd = "%s_%d" % (d, lim)
                if (rc == 0) != enough:
                    chk.violation("status %s where %d iterations are allowed and %d needed" % (rc, lim, n), {"dir": dd, "text": text[-400:]})
                else:
                    shutil.rmtree(dd, ignore_errors=True)
    nsm.log({"%s: %s" % k: v for k, v in sorted(seen.items())})
