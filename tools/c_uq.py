"""P39: runs with uncertain parameters against spec/Ensemble.tla.

The library is built with the feature on (build/uq_lib); a behaviour of the model
becomes a mesh, a deck and a file of samples, and what the run writes about each
member of the ensemble is compared with that member's history."""
import copy, fcntl, json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import c_run, exo, nsm

UQLIB = os.path.join(nsm.BUILD, "uq_lib")
EXE = os.path.join(UQLIB, "src", "NimbleSM")


def build():
    os.makedirs(nsm.BUILD, exist_ok=True)
    with open(os.path.join(nsm.BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        nsm.mirror()
    if not os.path.exists(os.path.join(UQLIB, "build.ninja")):
        nsm.run(["cmake", "-S", nsm.MIRROR, "-B", UQLIB, "-GNinja", "-DCMAKE_BUILD_TYPE=None",
                 "-DCMAKE_CXX_FLAGS=-w -fno-use-linker-plugin", nsm.LAUNCH] + nsm.OPTIONS + ["-DNimbleSM_ENABLE_UQ=ON"])
    rc, out = nsm.run(["ninja", "-C", UQLIB, "nimble", "NimbleSM"], check=False, timeout=900)
    if rc:
        raise nsm.ToolError("build of /repo with uncertain parameters failed\n" + out[-5000:])


class Rendering(c_run.Rendering):
    def __init__(self, beh, rnd):
        super().__init__(beh, rnd)
        self.e = beh["ens"]
        self.sampfile = rnd.choice(["m.coef", "samples", "u.dat"])
        self.mat = {b: (1 if self.e["share"] else b) for b in range(1, self.nblk + 1)}
        self.model = {m: rnd.choice(["neohookean", "elastic"]) for m in set(self.mat.values())}
        self.names = dict(zip(range(1, self.nblk + 1), sorted(rnd.sample(["mat_a", "mat_b", "steel", "rubber", "m2", "part"], self.nblk))))
        self.fm = self.Ms / (self.L * self.T ** 2)
        # the same value of xi means the same modulus, whatever the units of xi
        self.xu = rnd.choice([1.0, 1.0, 0.5, 4.0])

    def num(self, x):
        return self.rnd.choice(["%.17g", "%.17e"]) % x

    def par_of(self, m):
        return [p for p in self.e["par"] if p["mat"] == m]

    def deck(self, fields, extra=()):
        text = super().deck(fields, extra)
        lines = [l for l in text.split("\n") if not re.match(r"material parameters:|element block:", l)]
        add, f = [], self.e["fault"]
        for m in sorted(set(self.mat.values())):
            K, G, rho = self.moduli(m)
            ps = ["density " + self.fmt(rho), "bulk_modulus " + self.fmt(K), "shear_modulus " + self.fmt(G)]
            self.rnd.shuffle(ps)
            add.append("material parameters: %s %s %s" % (self.names[m], self.model[m], " ".join(ps)))
        for b in range(1, self.nblk + 1):
            add.append("element block: %s %s" % (self.block_name[b] or "block_%d" % self.block_id[b], self.names[self.mat[b]]))
        for m in sorted(set(self.mat.values())):
            ps = ["%s %s" % (p["what"], self.num(p["range"] * self.fm / self.xu)) for p in self.par_of(m)]
            if ps:
                if f == "no value" and m == self.e["par"][-1]["mat"]:
                    ps[-1] = ps[-1].split()[0]
                if m == self.e["par"][-1]["mat"]:
                    if f == "bad range":
                        ps[-1] = ps[-1] + self.rnd.choice(["x", ".5.5", "e", "1+1"]) if self.rnd.random() < 0.7 else ps[-1].split()[0] + " " + self.rnd.choice(["much", "-", "1,5"])
                    elif f == "parameter twice":
                        ps.append(ps[-1])
                    elif f == "unknown parameter":
                        ps.insert(self.rnd.randrange(len(ps) + 1), "%s %s" % (self.rnd.choice(["density", "poissons_ratio", "bulk_modulu", "Bulk_modulus", "bulk", "youngs_modulus"]), self.num(1.0)))
                add.append("uq parameters: %s %s" % (self.names[m] if f != "unused material" else "zinc", " ".join(ps)))
        if f == "no model":
            pass
        elif f == "no file":
            add.append("uq model: file")
        else:
            add.append("uq model: file %s" % (self.sampfile if f != "no such file" else "nowhere.txt"))
        self.rnd.shuffle(add)
        cut = self.rnd.randrange(len(lines))
        # not between a comment and what it belongs to, nor among the conditions: anywhere is as good
        return "\n".join(lines[:cut] + add + lines[cut:]) + "\n"

    def samples(self):
        e, r = self.e, self.rnd
        sep = lambda xs: r.choice([" ", "  ", "\t"]).join(xs)
        rows = [["%d" % len(e["ex"]), "%d" % len(e["ap"])]]
        rows += [[self.num(x * self.xu) for x in xi] for xi in e["ex"]]
        rows += [([self.num(x * self.xu) for x in a["xi"]], [self.num(w) for w in a["w"]]) for a in e["ap"]]
        f, ne = e["fault"], len(e["ex"])
        k = r.randrange(1, 1 + ne) if ne else 0
        ka = r.randrange(1 + ne, 1 + ne + len(e["ap"])) if e["ap"] else 0
        if f == "short row":
            rows[k] = rows[k][:-1]
        elif f == "long row":
            rows[k] = rows[k] + ["1.0"]
        elif f == "no row":
            del rows[k]
            rows.append([])
        elif f == "short header":
            rows[0] = rows[0][:1]
        elif f == "bad count":
            j = r.randrange(2)
            rows[0][j] = r.choice([rows[0][j] + ".5", "many", "-" + str(int(rows[0][j]) + 1), rows[0][j] + "x"])
        elif f == "bad sample":
            k = r.randrange(1, 1 + ne + len(e["ap"]))
            row = rows[k] if isinstance(rows[k], list) else rows[k][0]
            row[r.randrange(len(row))] = r.choice(["none", "0.5x", "1e", "0.5,0", "--1"])
        elif f == "bad weight":
            row = rows[ka][1]
            row[r.randrange(len(row))] = r.choice(["none", "0.5x", "1e", "0,5", ":"])
        elif f == "short weights":
            rows[ka] = (rows[ka][0], rows[ka][1][:-1])
        elif f == "long weights":
            rows[ka] = (rows[ka][0], rows[ka][1] + ["0.0"])
        lines = [sep(x) if isinstance(x, list) else sep(x[0]) + (" : " if f != "no colon" or i != ka else " ") + sep(x[1]) for i, x in enumerate(rows)]
        return "\n".join(lines) + "\n"


MEMFIELDS = {"displacement": "u", "velocity": "v", "force": "f"}


def prefix(e, i):
    """the name under which member i (from 0) is written"""
    ne = len(e["ex"])
    return ("exact_%%s_%d" % (i + 1)) if i < ne else ("sample_%%s_%d" % (i - ne + 1))


def member(rd, outs, i):
    """what the run wrote about a member, as if it were the only run; and what it should have written"""
    e = rd.e
    name = prefix(e, i)
    to = {name % "displacement": "displacement", name % "velocity": "velocity", name % "force": "internal_force"}
    res = []
    for o in outs:
        o = dict(o)
        o["nodal"] = [{to[k.rsplit("_", 1)[0]] + k[-2:]: v for k, v in st.items() if k.rsplit("_", 1)[0] in to} for st in o["nodal"]]
        res.append(o)
    m = copy.copy(rd)
    m.b = dict(rd.b)
    m.b["out"] = [dict(st, **rd.b["mout"][n][i]) for n, st in enumerate(rd.b["out"])]
    mats = [rd.s["mats"]] + rd.b["mats"]
    big = [max(abs(x[b]["l"]) for x in mats) for b in range(rd.nblk)], [max(x[b]["m"] for x in mats) for b in range(rd.nblk)]
    wt = 1 if i < len(e["ex"]) else max(1, sum(abs(w) for w in e["ap"][i - len(e["ex"])]["w"]))
    m.s = dict(rd.s, mats=[dict(x, l=wt * big[0][b], m=wt * big[1][b]) for b, x in enumerate(rd.s["mats"])])
    m.b["sc"] = m.s
    return m, res


def one(chk, i, rd, np, label):
    e = rd.e
    n = np or c_run.ranks_of(rd.s)
    d = os.path.join(chk.work, "%s%d" % (label.replace(" ", "_"), i))
    nm = len(rd.b["mout"][0]) if rd.b["mout"] else len(e["ex"]) + len(e["ap"]) if e["on"] else 0
    fields = ["displacement", "velocity", "internal_force"]
    if e["fault"] == "none":
        fields += [prefix(e, k) % q for k in range(nm) for q in MEMFIELDS]
    rd.rnd.shuffle(fields)
    text = rd.samples()

    def ready(dirn):
        open(os.path.join(dirn, rd.sampfile), "w").write(text)
    rc, out, outs = c_run.execute(rd, d, fields, np=n, opts=["--use_uq"] if e["on"] else [], exe=EXE, ready=ready)
    if e["fault"] != "none":
        if rc in (0, "timeout") or rc in (-11, 139, -6, 134) or "Signal:" in out or any(o and o["times"] for o in outs):
            return d, ("a wrong description of the samples (%s) is not refused" % e["fault"], {"rc": rc, "output": out[-500:], "samples": text})
        return d, None
    if rc != 0:
        return d, ("run failed", {"rc": rc, "output": out[-800:], "samples": text})
    try:
        c_run.compare(rd, outs, ["displacement", "velocity", "internal_force"], aspects=("time", "nodal"))
    except c_run.Mismatch as m:
        return d, ("nominal run: " + m.kind, dict(m.detail, samples=text))
    for k in range(nm):
        mrd, mo = member(rd, outs, k)
        try:
            c_run.compare(mrd, mo, ["displacement", "velocity", "internal_force"], aspects=("nodal",))
        except c_run.Mismatch as m:
            return d, ("%s member: %s" % ("exact" if k < len(e["ex"]) else "approximate", m.kind), dict(m.detail, member=prefix(e, k), samples=text))
    fn = os.path.join(d, "parameter_samples.dat")
    if e["on"]:
        want = []
        for xi in e["ex"] + [a["xi"] for a in e["ap"]]:
            row = []
            for p, x in zip(e["par"], xi):
                K, G, rho = rd.moduli(p["mat"])
                row.append((K if p["what"] == "bulk_modulus" else G) + p["range"] * x * rd.fm)
            want.append(row)
        if not os.path.exists(fn):
            return d, ("no table of the sampled parameters", {"samples": text})
        lines = open(fn).read().split("\n")
        got = [[float(x) for x in l.split()] for l in lines[1:] if l.strip()]
        if len(got) != len(want) or any(len(a) != len(b) or any(abs(x - y) > 1e-4 * abs(y) for x, y in zip(a, b)) for a, b in zip(got, want)):
            return d, ("table of the sampled parameters", {"expected": want, "got": lines, "samples": text})
        head = [x.rsplit("_", 1)[0] for x in lines[0].split()[1:]]
        if head != [p["what"] for p in e["par"]]:
            return d, ("names of the sampled parameters", {"expected": e["par"], "got": lines[0], "samples": text})
    return d, None


def history(outs):
    """field -> component -> node -> values over time, over all ranks"""
    res = {}
    for o in outs:
        for st in o["nodal"]:
            for f, v in st.items():
                r = res.setdefault(f, {})
                seen = set()
                for g, x in zip(o["node_ids"], v):
                    if g not in seen:
                        r.setdefault((id(o), g), []).append(x)
                        seen.add(g)
    return {f: {k[1]: x for k, x in r.items()} for f, r in res.items()}


def large(chk, i, rd, np, label):
    """the same behaviours with displacements that are not small: what the model says of the members is
    that an exact one is the run with its moduli, and that combined forces drive the others"""
    e = rd.e
    n = np or c_run.ranks_of(rd.s)
    d = os.path.join(chk.work, "%s%d" % (label.replace(" ", "_"), i))
    nm = len(rd.b["mout"][0])
    big = max([abs(c_run.num(x)) for st in rd.b["out"] for p in rd.pts for x in c_run.fn_get(st["u"], p)]
              + [abs(c_run.num(x)) for st in rd.b["mout"] for m in st for p in rd.pts for x in c_run.fn_get(m["u"], p)] + [1.0])
    eps = 0.04 * min(rd.s["h"]) / big
    k = eps / c_run.EPS
    rd.un = {f: x * k for f, x in rd.un.items()}
    fields = ["displacement", "velocity", "internal_force"]
    mine = fields + [prefix(e, j) % q for j in range(nm) for q in MEMFIELDS]
    text = rd.samples()

    def ready(dirn):
        open(os.path.join(dirn, rd.sampfile), "w").write(text)
    state = rd.rnd.getstate()
    rc, out, outs = c_run.execute(rd, d, mine, np=n, opts=["--use_uq"] if e["on"] else [], exe=EXE, ready=ready)
    if rc != 0 or any(o is None for o in outs):
        return d, ("run failed", {"rc": rc, "output": out[-800:], "samples": text})
    got = history(outs)

    def twin(mats, what, names):
        t = copy.copy(rd)
        t.rnd = random.Random()
        t.rnd.setstate(state)
        t.s = dict(rd.s, mats=mats)
        t.e = dict(e, par=[], fault="no model")
        rc, out, o2 = c_run.execute(t, d + "t", fields, np=n, exe=EXE)
        if rc != 0 or any(o is None for o in o2):
            return ("the run of %s alone failed" % what, {"rc": rc, "output": out[-800:]})
        ref = history(o2)
        nsm.run(["rm", "-rf", os.path.abspath(d + "t")])
        return near(ref, names, what)

    L, steps = rd.L, rd.s["dt"] * rd.T
    kmax = max(m["l"] + 2 * m["m"] for x in [rd.s["mats"]] + rd.b["mats"] for m in x) * max(rd.s["h"]) * rd.fm * L * L
    umax = 0.04 * min(rd.s["h"]) * L
    mmin = min(c_run.fn_get(rd.b["M"], p) for p in rd.pts) * rd.Ms
    top = {"internal_force": kmax * umax, "velocity": max(umax / steps, kmax * umax / mmin * steps), "displacement": umax}

    def near(ref, names, what):
        for f, g in names.items():
            for co in "xyz":
                a, b = ref["%s_%s" % (f, co)], got.get("%s_%s" % (g, co))
                if b is None or set(a) != set(b):
                    return ("%s: %s missing" % (what, g), {"have": sorted(got)})
                for node in a:
                    for st, (x, y) in enumerate(zip(a[node], b[node])):
                        if not abs(x - y) <= 1e-9 * max(top[f], abs(x)):
                            return ("%s: %s" % (what, f), {"node": node, "component": co, "output": st, "expected": x, "got": y, "scale": top[f]})
        return None
    err = twin(rd.s["mats"], "nominal run", {f: f for f in fields})
    for j in range(nm):
        if err:
            break
        p = prefix(e, j)
        if j < len(e["ex"]):
            err = twin(rd.b["mats"][j], "exact member with large displacements",
                       {"displacement": p % "displacement", "velocity": p % "velocity", "internal_force": p % "force"})
        else:
            w = e["ap"][j - len(e["ex"])]["w"]
            src = ["internal_force"] + [prefix(e, x) % "force" for x in range(len(e["ex"]))]
            ref = {}
            for co in "xyz":
                z = [got["%s_%s" % (f, co)] for f in src]
                ref["internal_force_" + co] = {node: [sum(wk * zk[node][st] for wk, zk in zip(w, z)) for st in range(len(z[0][node]))] for node in z[0]}
            err = near(ref, {"internal_force": p % "force"}, "forces of an approximate member")
    return d, (err[0], dict(err[1], samples=text)) if err else None


def drive(chk, behs, rnd, np, label, workers, one=one):
    jobs = [(i, Rendering(b, random.Random(rnd.randrange(1 << 30)))) for i, b in enumerate(behs)]
    with ThreadPoolExecutor(workers) as ex:
        for (i, rd), (d, err) in zip(jobs, ex.map(lambda j: one(chk, j[0], j[1], np, label), jobs)):
            chk.traces += 1
            if err:
                chk.violation("%s: %s" % (label, err[0]), {"ensemble": rd.e, "scenario": rd.s, "mismatch": err[1], "dir": d, "deck": open(os.path.join(d, "m.in")).read()})
            else:
                nsm.run(["rm", "-rf", os.path.abspath(d)])
                if rd.e["fault"] == "none":
                    chk.sample({"ensemble": rd.e, "outputs": len(rd.b["out"]), "members": len(rd.b["mout"][0])})


def check_P39(chk):
    rnd = random.Random(nsm.SEED)
    q = chk.tier == "quick"
    runs = [nsm.TLC("MCEnsemble", "Ensemble_%s.cfg" % c, chk.work, simulate=n if q else m, depth=400, workers=3, timeout=600 if q else 3000)
            for c, n, m in (("sim", 40, 900), ("par", 14, 300), ("bad", 45, 400))]
    build()
    behs = []
    for r in runs:
        r.expect_ok()
        chk.count(r)
        e = r.emitted()
        e.sort(key=lambda b: json.dumps(b["sc"], sort_keys=True) + json.dumps(b["ens"], sort_keys=True))
        nsm.log(r.name, len(e), "behaviours")
        behs.append(e)
    a, b, c = behs
    drive(chk, a, rnd, 1, "ensemble", 7)
    drive(chk, c_run.thin(b, 32 if q else 800, rnd), rnd, 0, "ensemble on 2 ranks", 4)
    some = [x for x in a if len(x["out"]) > 1 and x["ens"]["on"]]
    drive(chk, c_run.thin(some, 16 if q else 300, rnd), rnd, 1, "large displacements", 7, large)
    some = [x for x in b if len(x["out"]) > 1 and x["ens"]["on"]]
    drive(chk, c_run.thin(some, 8 if q else 100, rnd), rnd, 0, "large displacements on 2 ranks", 4, large)
    drive(chk, c_run.thin([x for x in c if x["ens"]["fault"] != "none"], 90 if q else 1000, rnd), rnd, 1, "wrong description", 7)
    chk.extra["members_compared"] = sum(len(x["mout"][0]) for x in a + b)
