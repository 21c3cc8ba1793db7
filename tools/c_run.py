"""Whole runs of the NimbleSM executable against spec/Nimble.tla: the scenarios
TLC generates are written as meshes and decks, the program is run, and its
output databases are compared with the histories of the model."""
import json, math, os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import c_elem, exo, nsm

B = float(1 << 20)
EPS = 2.0 ** -23                     # model displacement unit / length unit
NODAL = ["displacement", "velocity", "acceleration", "internal_force"]
XYZ = "xyz"


def num(n):
    return n[0] + n[1] / B


class Rendering:
    """A scenario with concrete units, numbering, names and files.  None of
    these choices may matter; they are drawn at random."""

    def __init__(self, beh, rnd, plain=False):
        self.b, s = beh, beh["sc"]
        self.s = s
        r = rnd
        self.L = 1.0 if plain else r.choice([1.0, 0.5, 4.0, 1024.0, 2.0 ** -17])
        self.T = 1.0 if plain else r.choice([1.0, 0.25, 2.0 ** -10, 2.0 ** -30, 0.1, 1.0e-3] + [r.uniform(1, 10) * 10.0 ** r.randrange(-6, 2) for _ in "12"])
        self.Ms = 1.0 if plain else r.choice([1.0, 8.0, 2.0 ** -6, 2.0 ** -70, 2.0 ** 50])
        self.origin = [0, 0, 0] if plain else [r.choice([0, 0, 5, -3, -16]) for _ in range(3)]
        d, h = s["d"], s["h"]
        self.pts = sorted(beh["pts"])
        self.coord, self.dfs = {}, {}
        for p in self.pts:
            q = p - 1
            x = [q % (d[0] + 1), q // (d[0] + 1) % (d[1] + 1), q // ((d[0] + 1) * (d[1] + 1))]
            self.coord[p] = [(x[i] * h[i] + self.origin[i]) * self.L for i in range(3)]
        self.cells = [c + 1 for c, x in enumerate(s["cells"]) if x["b"]]
        self.nblk = len(s["mats"])
        self.block_id = dict(zip(range(1, self.nblk + 1),
                                 [1, 2, 3] if plain else r.sample([1, 2, 3, 7, 10, 12, 101, 70000, 2000000000], self.nblk)))
        style = "plain" if plain else r.choice(["plain", "none", "named"])
        self.block_name = {k: "" if style == "none" else ("block_%d" % i if style == "plain" else "part_a_%d" % i)
                           for k, i in self.block_id.items()}
        ns = len(s["sets"])
        self.set_id = dict(zip(range(1, ns + 1), range(1, ns + 1) if plain else r.sample([1, 2, 3, 4, 9, 20, 300, 70000, 2000000000], ns)))
        # names that begin alike or differ in case only are different names
        few = r.choice([["ns_%s" % x for x in "abcdef"], ["n", "ns", "ns_", "ns_1", "ns_10", "ns_100"],
                        ["top", "Top", "TOP", "top_left", "to", "atop"]])
        few = dict(zip(self.set_id, r.sample(few, ns)))
        self.set_name = {k: ("" if (plain or r.random() < 0.4) else few[k]) for k in self.set_id}
        self.no_set = "no_such_set"
        if not plain and ns:
            some = [self.set_name[k] or "nodelist_%d" % self.set_id[k] for k in self.set_id]
            near = [x for y in some for x in (y[:-1], y + "1", y.upper(), y[1:], "x" + y) if x and x not in some]
            self.no_set = r.choice(near + ["no_such_set"])
        # global numbering, with gaps
        g = list(range(1, len(self.pts) + 1)) if plain else r.sample(range(1, 3 * len(self.pts) + 5), len(self.pts))
        self.gid = dict(zip(self.pts, g if plain else nsm.wide(r, g)))
        g = list(range(1, len(self.cells) + 1)) if plain else r.sample(range(1, 3 * len(self.cells) + 5), len(self.cells))
        self.eid = dict(zip(self.cells, g if plain else nsm.wide(r, g)))
        self.auxmap = None if plain or r.random() < 0.4 else {"node": r.random() < 0.7, "elem": r.random() < 0.7}
        self.rnd = r
        self.plain = plain
        # physical units: displacement, velocity, acceleration, force
        self.un = {"displacement": EPS * self.L, "velocity": EPS * self.L / self.T,
                   "acceleration": EPS * self.L / self.T ** 2, "internal_force": EPS * self.Ms * self.L / self.T ** 2 / 144.0}
        self.stress_unit = EPS * self.Ms / (self.L * self.T ** 2)

    def mesh(self, rank=None):
        r, s = self.rnd, self.s
        cells = [c for c in self.cells if rank is None or s["cells"][c - 1]["r"] == rank]
        conn = self.b["conn"]
        getc = (lambda c: conn[c - 1]) if isinstance(conn, list) else (lambda c: conn[str(c)])
        pts = sorted({p for c in cells for p in getc(c)})
        if not self.plain:
            r.shuffle(pts)
        loc = {p: i for i, p in enumerate(pts)}
        order = list(range(1, self.nblk + 1))
        if not self.plain and rank is None:
            r.shuffle(order)
        blocks, eids = [], []
        for k in order:
            cs = [c for c in cells if s["cells"][c - 1]["b"] == k]
            if not self.plain:
                r.shuffle(cs)
            blocks.append({"id": self.block_id[k], "name": self.block_name[k],
                           "conn": [[loc[p] for p in getc(c)] for c in cs]})
            eids += [self.eid[c] for c in cs]
        sets = []
        for k in self.set_id:
            members = [loc[p] for p in self.b["setpts"][k - 1] if p in loc]
            if not self.plain:
                r.shuffle(members)
            # distribution factors go with the nodes of a set
            df = [r.randrange(1, 64) / 8.0 for _ in members] if r.random() < 0.7 else []
            self.dfs[(rank or 1) - 1, k] = {self.gid[pts[q]]: x for q, x in zip(members, df)}
            sets.append({"id": self.set_id[k], "name": self.set_name[k], "nodes": members, "ndf": len(df), "df": df})
        m = {"coords": [self.coord[p] for p in pts], "node_ids": [self.gid[p] for p in pts],
             "elem_ids": eids, "blocks": blocks, "nodesets": sets}
        # the numbers may come in auxiliary maps, as the decomposition tools write them
        for k in ("node", "elem"):
            if self.auxmap and self.auxmap[k]:
                ids = m[k + "_ids"]
                m[k + "_map"] = ids
                m[k + "_ids"] = r.choice([list(range(1, len(ids) + 1)), [i + 1000 for i in ids], r.sample(ids, len(ids))])
        return m

    def fmt(self, x):
        return self.rnd.choice(["%.17g", "%.17e"]) % x if not self.plain else "%.17g" % x

    def bcline(self, bc):
        typ, k = bc["type"], bc["set"]
        if k == 0:
            name = self.no_set
        else:
            name = self.set_name[k] or "nodelist_%d" % self.set_id[k]
        co = XYZ[bc["co"] - 1]
        if not self.plain and self.rnd.random() < 0.3:
            co = co.upper()
        unit = self.un["displacement"] if typ == "prescribed_displacement" else self.un["velocity"]
        if bc["cx"] == 0 and bc["ct"] == 0 and (self.plain or self.rnd.random() < 0.6):
            val = self.fmt(bc["c0"] * unit)
        else:
            e = "%d" % bc["c0"]
            if bc["cx"]:
                i = bc["ax"] - 1
                e += "%+d*(%s/%.17g-(%d))" % (bc["cx"], XYZ[i], self.L, self.origin[i])
            if bc["ct"]:
                e += "%+d*t/%.17g" % (bc["ct"], self.T)
            e = "(%s)*%.17e" % (e, unit)
            if not self.plain and self.rnd.random() < 0.5:
                e = e.replace("*", " * ").replace("(", "( ")
            val = '"%s"' % e
        return "%s %s %s %s" % (typ, name, co, val)

    def moduli(self, k):
        m = self.s["mats"][k - 1]
        f = self.Ms / (self.L * self.T ** 2)
        return (m["l"] + 2.0 * m["m"] / 3.0) * f, m["m"] * f, m["r"] * self.Ms / self.L ** 3

    def deck(self, fields, extra=()):
        r, s = self.rnd, self.s
        t0, tf = s["t0"] * self.T, (s["t0"] + s["steps"] * s["dt"]) * self.T
        lines = ["genesis input file: m.g", "exodus output file: m.e", "time integration scheme: explicit",
                 "initial time: " + self.fmt(t0), "final time: " + self.fmt(tf), "number of load steps: %d" % s["steps"],
                 "output frequency: %d" % s["freq"], "output fields: " + " ".join(fields)]
        if t0 == 0 and r.random() < 0.5:
            lines.pop(3)
        names = list("abc")
        for k in range(1, self.nblk + 1):
            K, G, rho = self.moduli(k)
            ps = ["density " + self.fmt(rho), "bulk_modulus " + self.fmt(K), "shear_modulus " + self.fmt(G)]
            if not self.plain:
                r.shuffle(ps)
            model = "neohookean" if self.plain else r.choice(["neohookean", "elastic"])
            lines.append("material parameters: mat_%s %s %s" % (names[k - 1], model, " ".join(ps)))
            lines.append("element block: %s mat_%s" % (self.block_name[k] or "block_%d" % self.block_id[k], names[k - 1]))
        lines += list(extra)
        if not self.plain:
            r.shuffle(lines)
            lines = [l if r.random() < 0.8 else "# comment: x\n" + l for l in lines]
        bcs = ["boundary condition: " + self.bcline(b) for b in s["bcs"]]
        for b in bcs:                       # order among conditions is kept
            lines.append(b)
        if not self.plain and bcs:
            cut = r.randrange(len(lines) - len(bcs) + 1)
            lines = lines[:cut] + bcs + [l for l in lines[cut:] if l not in bcs]
        return "\n".join(lines) + "\n"


def ranks_of(s):
    return max(c["r"] for c in s["cells"] if c["b"])


def fname(base, np, r):
    return base if np == 1 else "%s.%d.%0*d" % (base, np, len(str(np)), r)


def execute(rd, dirn, fields, np=1, opts=(), extra=(), timeout=60, deck_text=None, exe=None, ready=None):
    shutil.rmtree(dirn, ignore_errors=True)
    os.makedirs(dirn)
    for r in range(np):
        exo.write(os.path.join(dirn, fname("m.g", np, r)), rd.mesh(None if np == 1 else r + 1))
    with open(os.path.join(dirn, "m.in"), "w") as f:
        f.write(deck_text if deck_text is not None else rd.deck(fields, extra))
    if ready:
        ready(dirn)
    cmd = [exe or nsm.exe_path()] + list(opts) + ["m.in"]
    rc, text, _ = nsm.launch(cmd, np=np, cwd=dirn, timeout=timeout, merge=True)
    res = []
    for r in range(np):
        fn = os.path.join(dirn, fname("m.out.e", np, r))
        try:
            res.append(exo.read(fn) if os.path.exists(fn) else None)
        except exo.ExoError as e:
            res.append(None)
    return rc, text, res


class Mismatch(Exception):
    def __init__(self, kind, detail):
        super().__init__(kind)
        self.kind, self.detail = kind, detail


def fn_get(f, k):
    return f[k - 1] if isinstance(f, list) else f[str(k)]


def compare(rd, outs, fields, tol=2e-5, aspects=("time", "nodal", "elem", "mesh")):
    """Raises Mismatch(kind, detail) where an output database differs from the model's history."""
    b, s = rd.b, rd.s
    np = len(outs)
    hist = b["out"]
    p_of = {g: p for p, g in rd.gid.items()}
    c_of = {e: c for c, e in rd.eid.items()}
    # scale of each nodal field over the whole history
    key = {"displacement": "u", "velocity": "v", "acceleration": "a", "internal_force": "f"}
    scale = {}
    for f, k in key.items():
        scale[f] = max([abs(num(x)) for o in hist for p in rd.pts for x in fn_get(o[k], p)] + [0.0])
    fscale = max([1.0] + [scale["displacement"]])
    # rounding in the forces is relative to stiffness * displacement
    kmax = 144.0 * max(m["l"] + 2 * m["m"] for m in s["mats"])
    scale["internal_force"] = max(scale["internal_force"], kmax * fscale * 0.1)
    mmin = min(fn_get(b["M"], p) for p in rd.pts)
    scale["acceleration"] = max(scale["acceleration"], kmax / 144.0 * fscale * 0.1 / mmin)
    scale["velocity"] = max(scale["velocity"], 1.0, scale["acceleration"] * s["dt"] * 0.5)
    scale["displacement"] = max(scale["displacement"], 1.0, scale["velocity"] * s["dt"] * 0.5)
    gscale = max(fscale, scale["displacement"]) / min(s["h"])
    for r in range(np):
        o = outs[r]
        if o is None:
            raise Mismatch("no output database", {"rank": r})
        cells = [c for c in rd.cells if np == 1 or s["cells"][c - 1]["r"] == r + 1]
        pts = {p for c in cells for p in fn_get(b["conn"], c)}
        if "mesh" in aspects:
            if sorted(o["node_ids"]) != sorted(rd.gid[p] for p in pts):
                raise Mismatch("node ids", {"rank": r, "got": o["node_ids"], "expected": sorted(rd.gid[p] for p in pts)})
            for i, g in enumerate(o["node_ids"]):
                if o["coords"][i] != rd.coord[p_of[g]]:
                    raise Mismatch("coordinates", {"rank": r, "node": g, "got": o["coords"][i], "expected": rd.coord[p_of[g]]})
            if sorted(o["elem_ids"]) != sorted(rd.eid[c] for c in cells):
                raise Mismatch("element ids", {"rank": r, "got": o["elem_ids"], "expected": sorted(rd.eid[c] for c in cells)})
            e = 0
            for bl in o["blocks"]:
                k = [k for k, i in rd.block_id.items() if i == bl["id"]]
                if not k:
                    raise Mismatch("unknown block", {"rank": r, "block": bl["id"]})
                want = {rd.eid[c]: [rd.gid[p] for p in fn_get(b["conn"], c)] for c in cells if s["cells"][c - 1]["b"] == k[0]}
                got = {}
                for cn in bl["conn"]:
                    got[o["elem_ids"][e]] = [o["node_ids"][q] for q in cn]
                    e += 1
                if want != got:
                    raise Mismatch("connectivity", {"rank": r, "block": bl["id"], "got": got, "expected": want})
                wn = rd.block_name[k[0]] or "block_%d" % bl["id"]
                if bl["name"] != wn:
                    raise Mismatch("block name", {"rank": r, "block": bl["id"], "got": bl["name"], "expected": wn})
            if sorted(x["id"] for x in o["blocks"]) != sorted(rd.block_id.values()):
                raise Mismatch("blocks", {"rank": r, "got": [x["id"] for x in o["blocks"]]})
            want = {rd.set_id[k]: sorted(rd.gid[p] for p in b["setpts"][k - 1] if p in pts) for k in rd.set_id}
            got = {x["id"]: sorted(o["node_ids"][q] for q in x["nodes"]) for x in o["nodesets"]}
            if want != got:
                raise Mismatch("node sets", {"rank": r, "got": got, "expected": want})
            want = {rd.set_id[k]: rd.dfs[r, k] for k in rd.set_id}
            got = {x["id"]: {o["node_ids"][q]: y for q, y in zip(x["nodes"], x["df"])} for x in o["nodesets"]}
            if want != got:
                raise Mismatch("distribution factors", {"rank": r, "got": got, "expected": want})
        if "time" in aspects:
            want = [x["t"] * rd.T for x in hist]
            if len(want) != len(o["times"]) or any(abs(x - y) > 1e-9 * max(1, abs(x), abs(y)) * max(rd.T, 1e-9) * 10
                                                  for x, y in zip(want, o["times"])):
                raise Mismatch("output times", {"rank": r, "got": o["times"], "expected": want})
        elif len(o["times"]) != len(hist):
            raise Mismatch("number of outputs", {"rank": r, "got": o["times"]})
        if "names" in aspects:
            want = set()
            for f in fields:
                if f == "lumped_mass":
                    want.add(f)
                elif f in key or f in ("reference_coordinate", "external_force", "contact_force"):
                    want |= {f + "_" + c for c in XYZ}
            if set(o["nodal"][0]) != want:
                raise Mismatch("nodal fields", {"rank": r, "have": sorted(o["nodal"][0]), "expected": sorted(want)})
        if "nodal" in aspects:
            for f in fields:
                if f in ("reference_coordinate", "external_force", "contact_force"):
                    for i in range(len(hist)):
                        for co in range(3):
                            got = o["nodal"][i].get("%s_%s" % (f, XYZ[co]))
                            if got is None:
                                raise Mismatch("missing field %s" % f, {"rank": r})
                            for j, g in enumerate(o["node_ids"]):
                                want = rd.coord[p_of[g]][co] if f[0] == "r" else 0.0
                                if got[j] != want:
                                    raise Mismatch(f, {"rank": r, "node": g, "expected": want, "got": got[j]})
                if f in key:
                    for i, st in enumerate(hist):
                        for co in range(3):
                            got = o["nodal"][i].get("%s_%s" % (f, XYZ[co]))
                            if got is None:
                                raise Mismatch("missing field %s" % f, {"rank": r, "have": sorted(o["nodal"][i])})
                            for j, g in enumerate(o["node_ids"]):
                                if g not in p_of:
                                    raise Mismatch("node ids", {"rank": r, "unknown": g})
                                want = num(fn_get(st[key[f]], p_of[g])[co]) * rd.un[f]
                                if not abs(got[j] - want) <= tol * scale[f] * rd.un[f]:
                                    raise Mismatch("%s" % f, {"rank": r, "time": st["t"], "step": st["k"], "node": g, "comp": XYZ[co],
                                                              "expected": want, "got": got[j], "unit": rd.un[f]})
                elif f == "lumped_mass":
                    for i in range(len(hist)):
                        got = o["nodal"][i].get("lumped_mass")
                        if got is None:
                            raise Mismatch("missing field lumped_mass", {"rank": r})
                        for j, g in enumerate(o["node_ids"]):
                            want = fn_get(b["M"], p_of[g]) * rd.Ms
                            if not abs(got[j] - want) <= 1e-12 * want:
                                raise Mismatch("lumped_mass", {"rank": r, "node": g, "expected": want, "got": got[j]})
        if "elem" in aspects:
            elem_compare(rd, o, r, fields, c_of, gscale, tol, "names" in aspects)


SYM = {"xx": (0, 0), "yy": (1, 1), "zz": (2, 2), "xy": (0, 1), "yz": (1, 2), "zx": (2, 0)}
FULL = dict(SYM, yx=(1, 0), zy=(2, 1), xz=(0, 2))


def elem_compare(rd, o, r, fields, c_of, gscale, tol, exact=False):
    b, s = rd.b, rd.s
    e0 = 0
    for bl in o["blocks"]:
        n = len(bl["conn"])
        ids = o["elem_ids"][e0:e0 + n]
        e0 += n
        if n == 0:
            continue
        have = {q for q, bid in o["elem"][0] if bid == bl["id"]}
        want_names = set()
        for f in fields:
            m = re.match(r"(?:ipt0([1-8])_)?(stress|deformation_gradient)$", f)
            if f == "volume":
                want_names.add("volume")
            elif m:
                want_names |= {f + "_" + c for c in (SYM if m.group(2) == "stress" else FULL)}
        if exact and set(have) != want_names:
            raise Mismatch("element fields", {"rank": r, "block": bl["id"], "have": sorted(have), "expected": sorted(want_names)})
        if not want_names <= set(have):
            raise Mismatch("missing element field", {"rank": r, "block": bl["id"], "have": sorted(have), "expected": sorted(want_names)})
        for i, st in enumerate(b["out"]):
            for j, e in enumerate(ids):
                c = c_of[e]
                g0 = [[num(x) for x in row] for row in fn_get(b["grad"][i], c)]
                m = s["mats"][s["cells"][c - 1]["b"] - 1]
                V = s["h"][0] * s["h"][1] * s["h"][2]
                tr0 = g0[0][0] + g0[1][1] + g0[2][2]
                for name in want_names:
                    g, tr = g0, tr0
                    if name.startswith("ipt"):
                        pq = fn_get(b["ipt"][i], c)[int(name[3:5]) - 1]
                        g = [[num(x[0]) + num(x[1]) / math.sqrt(3.0) for x in row] for row in pq]
                        tr = g[0][0] + g[1][1] + g[2][2]
                    if name == "volume":
                        want, sc, base = V * (1 + EPS * tr) * rd.L ** 3, V * EPS * gscale * rd.L ** 3, V * rd.L ** 3
                    else:
                        c2 = name.rsplit("_", 1)[1]
                        p, q = FULL[c2]
                        if "stress" in name:
                            want = (m["l"] * tr * (p == q) + m["m"] * (g[p][q] + g[q][p])) * rd.stress_unit
                            sc = (m["l"] + 2 * m["m"]) * gscale * rd.stress_unit
                            base = 0
                        else:
                            want = (p == q) + EPS * g[p][q]
                            sc, base = EPS * gscale, 1.0
                    got = o["elem"][i][(name, bl["id"])][j]
                    if not abs(got - want) <= 10 * tol * sc + 4e-16 * base * 8:
                        raise Mismatch(name.rsplit("_", 1)[0] if "_" in name else name,
                                       {"rank": r, "elem": e, "block": bl["id"], "name": name, "step": st["k"],
                                        "expected": want, "got": got, "scale": sc})


def drive(chk, behs, rnd, fields, np=1, opts=(), aspects=("time", "nodal", "elem", "mesh"), workers=7, plain=False, label="run", exe=None):
    """Runs every behaviour; reports mismatches as violations."""
    jobs = []
    for i, b in enumerate(behs):
        rd = Rendering(b, random.Random(rnd.randrange(1 << 30)), plain=plain)
        jobs.append((i, rd))

    def one(j):
        i, rd = j
        n = np if np else ranks_of(rd.s)
        d = os.path.join(chk.work, "%s%d" % (label, i))
        fl = fields(rd) if callable(fields) else fields
        rc, text, outs = execute(rd, d, fl, np=n, opts=opts, exe=exe)
        err = None
        if not rd.b["ok"]:
            if rc in (0, "timeout") or any(o and o["times"] for o in outs):
                err = ("run with final time before initial time not refused", {"rc": rc, "output": text[-300:]})
        elif rc != 0:
            err = ("run failed", {"rc": rc, "output": text[-800:]})
        else:
            try:
                if "crit" in aspects:
                    m = re.search(r"Approximate maximum stable time step:\s*([-+.\deEinfa]+)", text)
                    want = math.sqrt(rd.b["crit"][0] / rd.b["crit"][1]) * rd.T
                    if not m or not abs(float(m.group(1)) - want) <= 1e-5 * want:
                        raise Mismatch("critical time step", {"expected": want, "got": m and m.group(1)})
                compare(rd, outs, fl, aspects=aspects)
            except Mismatch as m:
                err = (m.kind, m.detail)
        if err is None:
            shutil.rmtree(d, ignore_errors=True)
        return i, rd, err, d, outs

    with ThreadPoolExecutor(workers) as ex:
        for i, rd, err, d, outs in ex.map(one, jobs):
            chk.traces += 1
            if err:
                chk.violation("%s: %s" % (label, err[0]),
                              {"scenario": rd.s, "mismatch": err[1], "dir": d, "deck": open(os.path.join(d, "m.in")).read()})
            else:
                chk.sample({"scenario": {k: rd.s[k] for k in ("d", "h", "mats", "bcs", "steps", "freq", "dt")},
                            "outputs_compared": len(rd.b["out"]), "ranks": len(outs)})


NOD = ["displacement", "velocity", "acceleration", "internal_force"]
ELM = ["stress", "deformation_gradient", "volume"]


def tlc_runs(chk, specs):
    """specs: list of (cfg, quick number of simulations or None for BFS, thorough number)."""
    q = chk.tier == "quick"
    runs = []
    for cfg, nq, nt in specs:
        n = nq if q else nt
        runs.append(nsm.TLC("MCNimble", "Nimble_%s.cfg" % cfg, chk.work, simulate=n, depth=None if n is None else 400,
                            workers=4, timeout=400 if q else 3000))
    nsm.build(["host_app"], exe=True)
    res = []
    for r, (cfg, nq, nt) in zip(runs, specs):
        r.expect_ok()
        chk.count(r)
        e = r.emitted()
        nsm.log(r.name, len(e), "scenarios")
        # simulated behaviours arrive in no fixed order
        e.sort(key=lambda b: json.dumps(b["sc"], sort_keys=True))
        res.append(e)
    return res


def thin(behs, n, rnd):
    return behs if len(behs) <= n else rnd.sample(behs, n)


def host(chk, behs, n, rnd, fields, **kw):
    """the same on the host-side model data (harness/host_app.cc)"""
    drive(chk, thin(behs, n if chk.tier == "quick" else 20 * n, rnd), rnd, fields, exe=nsm.probe_path("host_app"), **kw)


def check_P06(chk):
    rnd = random.Random(nsm.SEED)
    q = chk.tier == "quick"
    a, b = tlc_runs(chk, [("sched", None, None), ("schedpar", None, None)])
    drive(chk, a, rnd, ["displacement", "velocity"], aspects=("time", "nodal"), label="schedule")
    drive(chk, thin(b, 40 if q else 120, rnd), rnd, ["displacement"], np=0, aspects=("time", "nodal"), workers=4, label="schedule on 2 ranks")


def check_P07(chk):
    rnd = random.Random(nsm.SEED)
    a, = tlc_runs(chk, [("bc", 40, 1200)])
    drive(chk, a, rnd, ["displacement", "velocity"], aspects=("time", "nodal"), label="conditions")
    host(chk, a, 40, rnd, ["displacement", "velocity"], aspects=("time", "nodal"), label="conditions, host")


def check_P08(chk):
    rnd = random.Random(nsm.SEED)
    a, b = tlc_runs(chk, [("dyn", 30, 600), ("mix", 20, 600)])
    drive(chk, a, rnd, NOD, aspects=("time", "nodal"), label="free motion")
    drive(chk, b, rnd, NOD, aspects=("time", "nodal"), label="driven motion")
    host(chk, a + b, 40, rnd, NOD, aspects=("time", "nodal"), label="motion, host")


def check_P09(chk):
    rnd = random.Random(nsm.SEED)
    q = chk.tier == "quick"
    a, b, c = tlc_runs(chk, [("par", 12 if q else 400, 400), ("inter", None, None), ("par5", 6, 200)])
    f = NOD + ELM + ["lumped_mass"]
    drive(chk, thin(b, 12 if q else 200, rnd), rnd, f, np=0, workers=4, label="2 ranks")
    drive(chk, a, rnd, f, np=0, workers=4, label="3 ranks")
    drive(chk, thin(a, 16 if q else 400, rnd), rnd, f, np=0, workers=4, opts=["--use_tpetra"], label="3 ranks, Tpetra")
    host(chk, a, 10, rnd, f, np=0, workers=4, label="3 ranks, host")
    drive(chk, thin(c, 16 if q else 400, rnd), rnd, f, np=0, workers=3, label="5 ranks")


def check_P12(chk):
    rnd = random.Random(nsm.SEED)
    q = chk.tier == "quick"
    a, b = tlc_runs(chk, [("mesh", 30, 600), ("par", 8, 300)])
    drive(chk, a, rnd, ["lumped_mass"], aspects=("nodal", "crit"), label="mass")
    drive(chk, thin(b, 24 if q else 400, rnd), rnd, ["lumped_mass"], np=0, workers=4, aspects=("nodal", "crit"), label="mass on 3 ranks")
    host(chk, a, 30, rnd, ["lumped_mass"], aspects=("nodal", "crit"), label="mass, host")
    c_elem.mass_and_length(chk)


def check_P13(chk):
    rnd = random.Random(nsm.SEED)
    a, b = tlc_runs(chk, [("bc", 20, 600), ("mix", 20, 600)])
    drive(chk, a + b, rnd, ["internal_force"], aspects=("nodal",), label="forces")
    host(chk, a + b, 40, rnd, ["internal_force"], aspects=("nodal",), label="forces, host")
    c_elem.forces(chk)


JUNK = ["displacemen", "displacement_x", "stress_xx", "ipt", "ipt1_stress", "ipt00_stress", "ipt09_stress", "ipt12_stress",
        "ipt10_deformation_gradient", "iptab_stress", "ipt03", "ipt03_", "ipt03_stres", "ipt05_volume", "ipt_stress", "foo", "DISPLACEMENT"]


def some_fields(rd):
    r = rd.rnd
    pool = NOD + ELM + ["lumped_mass", "reference_coordinate", "external_force", "contact_force"]
    pool += ["ipt%02d_%s" % (g, f) for g in r.sample(range(1, 9), 2) for f in ("stress", "deformation_gradient")]
    fl = r.sample(pool, r.randint(2, len(pool)))
    for j in r.sample(JUNK, r.choice([0, 1, 3])):
        fl.insert(r.randrange(len(fl) + 1), j)
    return fl


def check_P17(chk):
    rnd = random.Random(nsm.SEED)
    q = chk.tier == "quick"
    a, b = tlc_runs(chk, [("ipt", 16, 400), ("iptpar", 6, 150)])
    drive(chk, a, rnd, some_fields, aspects=("nodal", "elem", "names"), label="fields")
    drive(chk, thin(b, 16 if q else 400, rnd), rnd, some_fields, np=0, workers=4, aspects=("nodal", "elem", "names"), label="fields on 2 ranks")
    host(chk, a, 30, rnd, lambda rd: [f for f in some_fields(rd) if f not in JUNK], aspects=("nodal", "elem", "names"), label="fields, host")
    c_elem.averages(chk)


def check_P18(chk):
    rnd = random.Random(nsm.SEED)
    q = chk.tier == "quick"
    a, b = tlc_runs(chk, [("mesh", 40, 1000), ("par", 6, 200)])
    drive(chk, a, rnd, ["displacement", "volume", "lumped_mass"], label="mesh")
    drive(chk, thin(b, 12 if q else 300, rnd), rnd, ["displacement", "volume"], np=0, workers=4, label="mesh on 3 ranks")
