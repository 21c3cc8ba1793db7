"""P30: whole runs with contact (spec/ContactRun.tla) through the program, with
the brute-force search of harness/contact_app.cc and with the one that does
nothing, and the contact visualisation they write."""
import json, math, os, random, shutil
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
import exo, nsm
from c_contact import names
from c_run import fname

FIELDS = ["displacement", "velocity", "acceleration", "contact_force", "internal_force", "external_force", "lumped_mass"]
AX = "xyz"


class Bad(Exception):
    def __init__(self, what, **d):
        super().__init__(what)
        self.what, self.d = what, d


class Case:
    def __init__(self, b, part, rnd, search):
        self.b, self.part, self.search = b, part, search
        self.nr = 1 if part < 0 else b["nr"][part]
        self.L, self.T = rnd.choice([1.0, 0.25, 1e-3, 64.0]), rnd.choice([1.0, 0.125, 1e-4])
        self.sh = [self.L * rnd.choice([0, 7, -20]) for _ in range(3)]
        self.pen = rnd.choice([1.0, 1e-3, 5e7, 2500.0])
        self.nm = names(rnd)
        self.ids = {1: rnd.choice([1, 10]), 2: rnd.choice([2, 5]), 3: rnd.choice([3, 7])}
        self.vis = rnd.random() < 0.75
        self.tpetra = self.nr > 1 and rnd.random() < 0.3
        self.model = rnd.choice(["neohookean", "elastic"])
        self.rnd = rnd
        self.pos = {g: [self.L * x + s for x, s in zip(p, self.sh)] for g, p in b["nodes"]}
        self.body = dict(b["body"])
        self.v = b["run"]["v"]
        self.blocks = sorted({c["b"] for c in b["cells"]})
        self.rank = {c["e"]: 0 if part < 0 else c["ranks"][part] for c in b["cells"]}
        self.own = {g: 0 for g, _ in b["cnodes"]} if part < 0 else dict(b["own"][part])

    def u(self, g, s):
        return [self.L * s * x for x in self.v[self.body[g] - 1]]

    def mesh(self, r):
        rnd = self.rnd
        cs = [c for c in self.b["cells"] if self.rank[c["e"]] == r]
        gids = sorted({g for c in cs for g in c["conn"]})
        rnd.shuffle(gids)
        loc = {g: i for i, g in enumerate(gids)}
        blocks, eids = [], []
        for k in self.blocks:
            es = [c for c in cs if c["b"] == k]
            rnd.shuffle(es)
            blocks.append({"id": self.ids[k], "name": self.nm[k], "conn": [[loc[g] for g in c["conn"]] for c in es]})
            eids += [c["e"] + 1 for c in es]
        sets = [{"id": k, "name": "body_%d" % k, "nodes": [loc[g] for g in gids if self.body[g] == k], "ndf": 0} for k in (1, 2, 3)]
        return {"coords": [self.pos[g] for g in gids], "node_ids": [g + 1 for g in gids], "elem_ids": eids, "blocks": blocks, "nodesets": sets}

    def deck(self):
        b, rnd = self.b, self.rnd
        n = b["run"]["steps"]
        d = ["genesis input file: m.g", "exodus output file: m.e", "time integration scheme: explicit", "final time: %.17g" % (n * self.T),
             "number of load steps: %d" % n, "output frequency: %d" % b["run"]["freq"], "output fields: " + " ".join(FIELDS)]
        mod = self.pen / self.L
        for k in self.blocks:
            d += ["material parameters: m%d %s density %.17g bulk_modulus %.17g shear_modulus %.17g" % (k, self.model, rnd.choice([1.0, 7.5]), mod * k, 0.5 * mod),
                  "element block: block_%d m%d" % (self.ids[k], k)]
        for k in sorted(set(self.body.values())):
            for i in range(3):
                w = self.v[k - 1][i]
                d.append("boundary condition: prescribed_displacement body_%d %s %s" %
                         (k, AX[i], '"%d*t*%.17e"' % (w, self.L / self.T) if w or rnd.random() < 0.5 else "0.0"))
        w1, w2 = rnd.choice([("primary_blocks", "secondary_blocks"), ("master_blocks", "slave_blocks")])
        d.append("contact: %s %s %s %s penalty_parameter %.17g" %
                 (w1, " ".join(self.nm[k] for k in b["prim"]), w2, " ".join(self.nm[k] for k in b["sec"]), self.pen))
        if self.vis:
            d.append("contact visualization: visualize_contact_entities on visualize_bounding_boxes %s file_name cv.e" % rnd.choice(["on", "off"]))
        rnd.shuffle(d)
        return "\n".join(d) + "\n"

    def run(self, d):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for r in range(self.nr):
            exo.write(os.path.join(d, fname("m.g", self.nr, r)), self.mesh(r))
        self.text = self.deck()
        with open(os.path.join(d, "m.in"), "w") as f:
            f.write(self.text)
        exe = nsm.probe_path("contact_app") if self.search else nsm.exe_path()
        self.rc, out, err = nsm.launch([exe] + (["--use_tpetra"] if self.tpetra else []) + ["m.in"], np=self.nr, cwd=d, timeout=120)
        self.stdout, self.out = out, out[-300:] + err[-500:]

    def hits(self, s):
        """those found: node and facet on one rank"""
        if s == 0 or not self.search:
            return []
        return [h for h in self.b["steps"][s - 1]["hits"] if self.own[h["n"]] == self.rank[h["e"]]]

    def forces(self, s):
        f = {}
        for h in self.hits(s):
            t = [self.pen * self.L / 4 * h["h"] * h["N"][i] / h["nn"] for i in range(3)]
            w = [x / h["nn"] for x in h["b"]]
            for g, c in [(h["n"], -1.0), (h["q"][0], w[0]), (h["q"][1], w[1])] + [(g, w[2] / 4) for g in h["q"]]:
                v = f.setdefault(g, [0.0] * 3)
                for i in range(3):
                    v[i] += c * t[i]
        return f

    def judge(self, d):
        if self.rc != 0:
            raise Bad("the run ended with status %s" % self.rc, output=self.out)
        b = self.b
        size = max(abs(x) for p in self.pos.values() for x in p) + self.L * 2 * max(1, b["run"]["steps"])
        self.tol = 1e-10 * self.pen * (size + self.L) * (1 + size / self.L)
        self.size = size
        steps = [0] + sorted(b["written"])
        files = []
        for r in range(self.nr):
            try:
                files.append(exo.read(os.path.join(d, fname("m.out.e", self.nr, r))))
            except exo.ExoError:
                raise Bad("no output", rank=r)
        for r, o in enumerate(files):
            if len(o["times"]) != len(steps) or any(abs(t - s * self.T) > 1e-9 * self.T for t, s in zip(o["times"], steps)):
                raise Bad("times of the outputs", rank=r, expected=[s * self.T for s in steps], got=o["times"])
            for k, s in enumerate(steps):
                self.nodal(r, o, k, s)
        if self.vis:
            return self.visual(d, steps)

    def nodal(self, r, o, k, s):
        v, want = o["nodal"][k], self.forces(s)
        for i, g in enumerate(o["node_ids"]):
            g -= 1
            for a in range(3):
                at = dict(rank=r, step=s, node=g + 1, component=AX[a])
                x = {f: v[f + "_" + AX[a]][i] for f in FIELDS[:-1]}
                if abs(x["displacement"] - self.u(g, s)[a]) > 1e-12 * self.size:
                    raise Bad("displacement", expected=self.u(g, s)[a], got=x["displacement"], **at)
                w = want.get(g, [0.0] * 3)[a]
                if not abs(x["contact_force"] - w) <= self.tol:
                    raise Bad("contact force", expected=w, got=x["contact_force"], contacts=len(self.hits(s)), **at)
                f = x["contact_force"] + x["internal_force"] + x["external_force"]
                ma = x["acceleration"] * v["lumped_mass"][i]
                if s > 0 and not abs(ma - f) <= 1e-11 * (abs(x["contact_force"]) + abs(x["internal_force"])) + 1e-300:
                    raise Bad("acceleration times mass is not the sum of the forces", forces=f, got=ma, values=x, **at)

    def key(self, pts):
        return tuple(round(4 * (x - s) / self.L) for p in pts for x, s in zip(p, self.sh))

    def visual(self, d, steps):
        ids, pts, found = {}, {}, {}
        for r in range(self.nr):
            try:
                o = exo.read(os.path.join(d, fname("cv.out.e", self.nr, r)))
            except exo.ExoError:
                raise Bad("no contact visualisation", rank=r)
            if len(o["times"]) != len(steps) or any(abs(t - s * self.T) > 1e-9 * self.T for t, s in zip(o["times"], steps)):
                raise Bad("times of the visualisation", rank=r, expected=[s * self.T for s in steps], got=o["times"])
            if [q["name"] for q in o["blocks"]] != ["contact_faces", "contact_nodes"]:
                raise Bad("blocks of the visualisation", rank=r, got=[(q["id"], q["name"]) for q in o["blocks"]])
            for g in o["node_ids"]:
                if g in pts:
                    raise Bad("two nodes of the visualisation have one number", rank=r, number=g)
                pts[g] = r
            # what should be there: corners, displacements and flags at every output
            act = [(set(), set()) for _ in steps]
            for k, s in enumerate(steps):
                for h in self.hits(s):
                    if self.own[h["n"]] == r:
                        act[k][0].add((h["q"][0], h["q"][1], h["e"]))
                        act[k][1].add(h["n"])
            want = []
            for q in self.b["quads"]:
                if self.rank[q["e"]] != r:
                    continue
                for j in range(4):
                    n = [q["q"][j], q["q"][(j + 1) % 4]]
                    p = [self.pos[g] for g in n] + [[sum(self.pos[g][i] for g in q["q"]) / 4 for i in range(3)]]
                    mv = [[[self.L * s * x for x in self.v[self.body[n[0]] - 1]]] * 3 for s in steps]
                    want.append((self.key(p), self.moves(mv), tuple((n[0], n[1], q["e"]) in act[k][0] for k in range(len(steps)))))
            for g, rr in self.own.items():
                if rr == r:
                    want.append((self.key([self.pos[g]]), self.moves([[self.u(g, s)] for s in steps]), tuple(g in act[k][1] for k in range(len(steps)))))
            got, e = [], 0
            for q, npe in zip(o["blocks"], (3, 1)):
                for c in q["conn"]:
                    if len(c) != npe:
                        raise Bad("shape of the elements of the visualisation", rank=r, block=q["name"], nodes=c)
                    kk = self.key([o["coords"][i] for i in c])
                    mv = [[[o["nodal"][k]["displacement_" + a][i] for a in AX] for i in c] for k in range(len(steps))]
                    st = [[o["nodal"][k]["contact_status"][i] for i in c] for k in range(len(steps))]
                    if any(x != y[0] or x not in (0.0, 1.0) for y in st for x in y):
                        raise Bad("contact status of an element of the visualisation", rank=r, status=st)
                    got.append((kk, self.moves(mv), tuple(y[0] == 1.0 for y in st)))
                    n = o["elem_ids"][e]
                    if n in ids:
                        raise Bad("two elements of the visualisation have one number", rank=r, number=n)
                    ids[n] = kk
                    found.setdefault(kk, []).append(n)
                    e += 1
            if Counter(got) != Counter(want):
                a, c = Counter(want) - Counter(got), Counter(got) - Counter(want)
                raise Bad("facets and contact nodes of the visualisation", rank=r, missing=list(a)[:2], instead=list(c)[:2], entities=len(want))
            for k in range(len(steps)):
                if o["global"][k].get("num_contacts") != len(act[k][0]):
                    raise Bad("number of contacts in the visualisation", rank=r, step=steps[k], expected=len(act[k][0]), got=o["global"][k])
        return found

    def moves(self, mv):
        # positions in the visualisation are a difference of coordinates
        return tuple(round(4096 * x / self.L) for p in mv for q in p for x in q)

    def describe(self):
        return {"ranks": self.nr, "tpetra": self.tpetra, "search": self.search, "deck": self.text, "cells": self.b["cells"], "nodes": self.b["nodes"],
                "scale": self.L, "shift": self.sh}


def check_P30(chk):
    q = chk.tier == "quick"
    rnd = random.Random(nsm.SEED)
    t = nsm.TLC("MCContactRun", "ContactRun_sim.cfg", chk.work, simulate=300 if q else 4000, depth=500, workers=5, timeout=2400)
    nsm.build(["contact_app"], exe=True)
    t.expect_ok()
    chk.count(t)
    behs = {json.dumps(b, sort_keys=True): b for b in t.emitted()}
    behs = [behs[k] for k in sorted(behs)]
    rnd.shuffle(behs)
    # those in which something touches first
    behs.sort(key=lambda b: not any(s["hits"] for s in b["steps"]))
    n = 45 if q else 900
    touch = [b for b in behs if any(s["hits"] for s in b["steps"])]
    behs = touch[:n] + behs[len(touch):len(touch) + n // 5]
    cases = []
    for b in behs:
        for part in range(-1, len(b["nr"])):
            cases.append(Case(b, part, random.Random(rnd.randrange(1 << 30)), rnd.random() < 0.85))

    def go(x):
        k, c = x
        d = os.path.join(chk.work, "run%d" % k)
        c.run(d)
        try:
            return c, d, c.judge(d), None
        except Bad as e:
            return c, d, None, e

    first, hits = {}, 0
    with ThreadPoolExecutor(6) as ex:
        for c, d, found, bad in ex.map(go, list(enumerate(cases))):
            chk.traces += 1
            if bad is None and found is not None:
                # the numbers of facets and contact nodes do not depend on the decomposition
                f = first.setdefault(id(c.b), found)
                if {k: sorted(v) for k, v in f.items()} != {k: sorted(v) for k, v in found.items()}:
                    bad = Bad("numbers of the elements depend on the decomposition", differences=[(k, f.get(k), v) for k, v in found.items() if f.get(k) != v][:4])
            if bad is not None:
                chk.violation("run with contact on %d rank(s): %s" % (c.nr, bad.what), dict(bad.d, dir=d, **c.describe()))
                continue
            hits += sum(len(c.hits(s)) for s in range(1, c.b["run"]["steps"] + 1))
            chk.sample({"ranks": c.nr, "steps": c.b["run"]["steps"], "facets": 4 * len(c.b["quads"]), "contacts": [len(c.hits(s + 1)) for s in range(c.b["run"]["steps"])],
                        "visualisation": c.vis})
            shutil.rmtree(d, ignore_errors=True)
    chk.extra["contacts"] = hits
