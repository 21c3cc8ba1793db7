"""A mesh and its results through files of both kinds (spec/MeshFile.tla): P37."""
import json, os, random, shutil
import exo, nsm


class Dress:
    """a behaviour with units of its own and the files of others it needs"""
    def __init__(self, b, rnd, d):
        self.b, self.rnd, self.d = b, rnd, d
        self.U, self.V, self.T = rnd.choice([1.0, 0.25, 1 / 3.0, 1e-3, 1.7e5, 1e-7 / 3, 1e12]), rnd.choice([1.0, 0.1, 1e9, 1 / 7.0, 1e-12 / 7, 3e-160]), rnd.choice([1.0, 1e-6 / 3, 0.1, 1e-14 / 3])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        ops = []
        for k, o in enumerate(b["ops"]):
            o = dict(o)
            if "mesh" in o:
                o["mesh"] = self.place(o["mesh"])
            if o["op"] == "outside":
                o["src"] = os.path.join(d, "src%d" % k)
                if o["kind"] == "text":
                    open(o["src"], "w").write(self.text(o["mesh"]))
                else:
                    exo.write(o["src"], self.database(o["mesh"]))
            elif o["op"] == "step":
                s = o["s"]
                v = self.V
                o["s"] = {"time": self.T * s["time"], "g": [v * x for x in s["g"]], "n": [[v * x for x in y] for y in s["n"]],
                          "e": [[[v * x for x in y] for y in z] for z in s["e"]], "d": [[[v * x for x in y] for y in z] for z in s["d"]]}
            elif o["op"] == "place":
                o["x"] = [[self.U * c for c in p] for p in o["x"]]
            elif o["op"] == "box":
                o["lo"], o["hi"] = [self.U * x for x in o["lo"]], [self.U * x for x in o["hi"]]
            ops.append(o)
        self.item = {"dir": d, "ops": ops}

    def place(self, m):
        return dict(m, nodes=[{"id": p["id"], "x": [self.U * c for c in p["x"]]} for p in m["nodes"]])

    def text(self, m):
        rnd = self.rnd
        sp = lambda: rnd.choice([" ", "  ", "\t"])
        out = ["number_of_nodes %d" % len(m["nodes"]), "number_of_elements %d" % sum(len(b["elems"]) for b in m["blocks"]), "number_of_blocks %d" % len(m["blocks"]),
               "number_of_node_sets %d" % len(m["nsets"])]
        rnd.shuffle(out)
        out += ["node_coordinates"] + [rnd.choice(["", " "]) + sp().join(["%d" % p["id"]] + [repr(x) if rnd.random() < 0.7 else "%.17e" % x for x in p["x"]]) for p in m["nodes"]]
        for b in m["blocks"]:
            out += [""] * rnd.choice([0, 0, 2]) + ["element_block", sp().join([str(b["id"]), b["name"], str(len(b["elems"])), str(b["npe"])])]
            out += [sp().join(str(x) for x in [e["id"]] + e["conn"]) for e in b["elems"]]
        for s in m["nsets"]:
            out += ["nodeset", sp().join([str(s["id"]), s["name"], str(len(s["nodes"]))])] + [str(x) for x in s["nodes"]]
        if rnd.random() < 0.4:
            out += ["global_data", "0", "node_data", "1", "temperature"]
        return "\n".join(out) + rnd.choice(["\n", "", "\n\n"])

    def database(self, m):
        rnd = self.rnd
        types = {1: "SPHERE", 3: "TRI3", 4: "QUAD4" if m["dim"] == 2 else "TETRA4", 8: "HEX8"}
        x = {"dim": m["dim"], "coords": [p["x"] for p in m["nodes"]],
             "blocks": [{"id": b["id"], "name": b["name"], "type": types[b["npe"]], "conn": [[q - 1 for q in e["conn"]] for e in b["elems"]]} for b in m["blocks"]],
             "nodesets": [{"id": s["id"], "name": s["name"], "nodes": [q - 1 for q in s["nodes"]], "ndf": len(s["df"]), "df": s["df"]} for s in m["nsets"]],
             "sidesets": [{"id": s["id"], "name": s["name"], "elems": [q - 1 for q in s["nodes"]], "sides": [rnd.randrange(1, 4) for _ in s["nodes"]], "ndf": len(s["df"]), "df": s["df"]} for s in m["ssets"]]}
        nid, eid = [p["id"] for p in m["nodes"]], [e["id"] for b in m["blocks"] for e in b["elems"]]
        # the numbers are in the map of the file, or in a map of the decomposition tool
        if rnd.random() < 0.3:
            x["node_map"], x["node_ids"] = nid, rnd.sample(range(1, 500), len(nid))
        else:
            x["node_ids"] = nid
        if rnd.random() < 0.3:
            x["elem_map"], x["elem_ids"] = eid, rnd.sample(range(1, 500), len(eid))
        else:
            x["elem_ids"] = eid
        return x


def near(a, b, eps):
    return abs(a - b) <= eps * max(abs(a), abs(b))


def unlike(w, g, eps):
    """what of mesh w does not show in mesh g"""
    if w["dim"] != g["dim"]:
        return "the dimension"
    if [p["id"] for p in w["nodes"]] != [p["id"] for p in g["nodes"]]:
        return "the numbers of the nodes"
    if not all(near(a, b, eps) for p, q in zip(w["nodes"], g["nodes"]) for a, b in zip(p["x"], q["x"])):
        return "the coordinates"
    for k in ("id", "name", "elems"):
        if [x[k] for x in w["blocks"]] != [x[k] for x in g["blocks"]]:
            return {"id": "the blocks", "name": "the names of the blocks", "elems": "the elements"}[k]
    for x, y in zip(w["blocks"], g["blocks"]):
        if x["elems"] and (x["npe"] != y.get("npe") or TYPES(w["dim"], x["npe"]) != y.get("type")):
            return "the kind of the elements"
    for l, s in (("nsets", "node sets"), ("ssets", "side sets")):
        for k in ("id", "name", "nodes", "df"):
            if [x[k] for x in w[l]] != [x[k] for x in g[l]]:
                return {"id": "the ", "name": "the names of the ", "nodes": "the members of the ", "df": "the factors of the "}[k] + s
    return None


def TYPES(dim, npe):
    return {1: "SPHERE", 3: "TRIANGLE", 4: "QUAD" if dim == 2 else "TETRA", 8: "HEX"}[npe]


def wrong(o, g, eps):
    op = o["op"]
    if "exception" in g:
        return "%s ends with an error" % op
    if op in ("load", "make"):
        d = unlike(o["mesh"], g["mesh"], eps)
        return d and "after %s %s are not those of the mesh" % ({"load": "loading from a %s file" % o.get("kind"), "make": "putting a mesh together"}[op], d)
    if op == "blocks":
        if g["ids"] != o["ids"] or g["here"] != [i for i in o["ids"] if i != -1]:
            return "a block is not found by its name"
    elif op == "box":
        want = [x for p in zip(o["lo"], o["hi"]) for x in p]
        if not all(near(a, b, eps) for a, b in zip(want, g["box"])):
            return "the bounding box"
        if not all(abs(a - (p + q) / 2) <= eps * (abs(p) + abs(q)) for a, p, q in zip(g["center"], o["lo"], o["hi"])):
            return "the centre of the bounding box"
    elif op == "place":
        if len(o["x"]) != len(g["x"]) or not all(len(p) == len(q) and near(a, b, eps) for p, q in zip(o["x"], g["x"]) for a, b in zip(p, q)):
            return "the reference coordinates of the model are not the coordinates of the mesh"
    elif op == "pair":
        if sorted(g["pairs"]) != sorted(map(list, o["pairs"])):
            return "the pairs of periodic nodes"
    return None


def matrix_wrong(o, g, dim):
    want = sorted((dim * a + i, dim * b + j) for a, b in o["meet"] for i in range(dim) for j in range(dim))
    got = list(zip(g["i"], g["j"]))
    if sorted(got) != want:
        return "the entries of the matrix are not those of unknowns that meet"
    if [a for a, _ in got] != sorted(g["i"]):
        return "the entries of the matrix are not ordered by rows"
    return None


def read_text(path):
    """the results in a text file"""
    l = iter(open(path).read().split("\n"))
    r = {"names": {}, "steps": []}
    s = None
    for line in l:
        if line in ("global_data", "node_data", "element_data"):
            r["names"][line] = [next(l) for _ in range(int(next(l)))]
        elif line == "time":
            s = {"time": float(next(l)), "vals": {}, "order": []}
            r["steps"].append(s)
        elif line in ("global_data_values", "node_data_values", "element_data_values") and s is not None:
            cur = s["vals"].setdefault(line, [])
        elif s is not None and line:
            w = line.split()
            if len(w) == 4:
                s["order"].append((w[0], int(w[1]), int(w[2]), [float(next(l)) for _ in range(int(w[3]))]))
            else:
                cur.append(float(line))
    return r


def results(x, f, F):
    """what of the results in a file is not what was written"""
    B = [b for b in F["mesh"]["blocks"] if b["elems"]]
    w = F["what"]
    names = sorted({n for y in w["e"] + w["d"] for n in y})
    text = F["kind"] == "text"
    path = os.path.join(x.d, "slot%d.e" % f)
    eps = 3e-15 if text else 0.0
    V, T = x.V, x.T
    same = lambda a, b: len(a) == len(b) and all(near(V * p, q, eps) for p, q in zip(a, b))
    r = read_text(path + ".txt") if text else exo.read(path)
    if text:
        if r["names"] != {"global_data": w["g"], "node_data": w["n"], "element_data": names}:
            return "the names of the results"
        if len(r["steps"]) != len(F["steps"]):
            return "the number of steps"
        for s, g in zip(F["steps"], r["steps"]):
            if not near(T * s["time"], g["time"], eps):
                return "a time"
            if not same(s["g"], g["vals"].get("global_data_values", [])):
                return "global results"
            if not same([v for y in s["n"] for v in y], g["vals"].get("node_data_values", [])):
                return "results at nodes"
            want = [(n, names.index(n) + 1, b["id"], v) for k, b in enumerate(B) for n, v in list(zip(w["e"][k], s["e"][k])) + list(zip(w["d"][k], s["d"][k]))]
            if [y[:3] for y in want] != [y[:3] for y in g["order"]] or not all(same(p[3], q[3]) for p, q in zip(want, g["order"])):
                return "results in elements"
        return None
    if (r["title"], [q[0] for q in r["qa"]]) != ("NimbleSM", ["NimbleSM"]):
        return "the title, or the record of the program that made it"
    cut = lambda l: [n[:32] for n in l]         # as much of a name as a database holds
    if r["global_names"] != cut(w["g"]) or r["nodal_names"] != cut(w["n"]) or r["elem_names"] != cut(names):
        return "the names of the results"
    if len(r["times"]) != len(F["steps"]):
        return "the number of steps"
    for k, s in enumerate(F["steps"]):
        if T * s["time"] != r["times"][k]:
            return "a time"
        if w["g"] and not same(s["g"], [r["global"][k][n[:32]] for n in w["g"]]):
            return "global results"
        if not all(same(v, r["nodal"][k][n[:32]]) for n, v in zip(w["n"], s["n"])):
            return "results at nodes"
        for j, b in enumerate(B):
            if not all(same(v, r["elem"][k][(n[:32], b["id"])]) for n, v in list(zip(w["e"][j], s["e"][j])) + list(zip(w["d"][j], s["d"][j]))):
                return "results in elements"
    return None


def check_P37(chk):
    q = chk.tier == "quick"
    rnd = random.Random(nsm.SEED + 37)
    t = nsm.TLC("MeshFile", "MeshFile_sim.cfg", chk.work, simulate=40 if q else 1500, depth=60, workers=4, timeout=1500)
    nsm.build(["probe_mesh"])
    t.expect_ok()
    chk.count(t)
    xs = [Dress(b, rnd, os.path.join(chk.work, "m%d" % i)) for i, b in enumerate(t.emitted())]
    rc, out, err = nsm.run_probe("probe_mesh", items=[x.item for x in xs], timeout=900)
    by = {x["i"]: x for x in out}
    kinds, steps = {}, 0
    for i, x in enumerate(xs):
        chk.traces += 1
        g = by.get(i, {})
        if "died" in g or "ops" not in g:
            chk.violation("the mesh code fails", {"how": g.get("died", g.get("exception")), "behaviour": x.b, "stderr": err[-800:]})
            continue
        dim = 0
        bad = None
        for k, (o, r) in enumerate(zip(x.item["ops"], g["ops"])):
            if o["op"] in ("load", "make"):
                dim = o["mesh"]["dim"]
            bad = wrong(o, r, 1e-14) or (o["op"] == "matrix" and matrix_wrong(o, r, dim))
            kinds[o["op"]] = kinds.get(o["op"], 0) + 1
            if bad:
                chk.violation(bad, {"operation": k, "expected": o, "got": r, "ops": [y["op"] for y in x.item["ops"]]})
                break
        if bad:
            continue
        for f, F in enumerate(x.b["files"], 1):
            if F["open"]:
                steps += len(F["steps"])
                try:
                    bad = results(x, f, F)
                except (exo.ExoError, OSError, ValueError, StopIteration, KeyError) as e:
                    bad = "the file cannot be read (%s)" % e
                if bad:
                    chk.violation("%s file: %s" % (F["kind"], bad), {"file": F, "ops": x.item["ops"]})
        shutil.rmtree(x.d, ignore_errors=True)
    chk.extra["operations"] = kinds
    chk.extra["steps of results read back"] = steps
    if xs:
        chk.sample({"ops": [o["op"] for o in xs[0].b["ops"]]})
