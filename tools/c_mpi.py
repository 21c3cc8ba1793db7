"""P10 / P11 (spec/Reduction.tla), P26 / P27 (spec/Comm.tla): several ranks."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
import nsm


def run_mpi(chk, items, tag, timeout=240, probe="probe_mpi"):
    """items by number of ranks; returns [(item, [per-rank result])]; a rank that
    dies or stops answering leaves its result None."""
    todo, res = {}, []
    for it in items:
        todo.setdefault(it["nr"], []).append(it)
    jobs = []
    for nr in sorted(todo):
        # several groups, so that one that hangs costs little
        L = todo[nr]
        G = max(1, min(3, len(L) // 20))
        jobs += [(nr, L[g::G], os.path.join(chk.work, "%s_%d_%d" % (tag, nr, g)), timeout, probe) for g in range(G)]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda j: collect(*j), jobs):
            res += r
    return res


def collect(nr, part, f, timeout, probe):
    with open(f + ".in", "w") as fh:
        fh.writelines(json.dumps(i) + "\n" for i in part)
    for r in range(nr):
        if os.path.exists("%s.out.%d" % (f, r)):
            os.remove("%s.out.%d" % (f, r))
    # mpirun is wanted for a single rank, too
    rc, log, _ = nsm.launch(["mpirun", "-np", str(nr), "--oversubscribe", nsm.probe_path(probe), f + ".in", f + ".out"],
                            timeout=timeout, merge=True)
    per = []
    started = -1
    for r in range(nr):
        d = {}
        try:
            for line in open("%s.out.%d" % (f, r)):
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if "start" in j:
                    started = max(started, j["start"])
                else:
                    d[j["i"]] = j
        except OSError:
            pass
        per.append(d)
    if started < 0:
        raise nsm.ToolError(probe + " did not start on %d ranks (rc=%s): %s" % (nr, rc, log[-1500:]))
    out = []
    for k, it in enumerate(part):
        if k > started:
            break                                   # never reached: an earlier item ended the run
        out.append((it, [d.get(k) for d in per]))
    if rc != 0 and out and all(x is not None for x in out[-1][1]) and started == len(part) - 1:
        raise nsm.ToolError(probe + " failed after its last item (rc=%s): %s" % (rc, log[-1500:]))
    return out


def magnify(it, n, rnd):
    """the same layout with every node standing for n of them (held by the same ranks)"""
    ids = sorted({x for l in it["ids"] for x in l})
    held = {x: sum(x in l for l in it["ids"]) for x in ids}
    num = rnd.sample(range(2 * n * len(ids)), n * len(ids))
    num = {(x, j): num[n * i + j] for i, x in enumerate(ids) for j in range(n)}
    rep = lambda l, r, d, all_ranks: [[v + 1000000 * j * (held[x] if all_ranks else 1) for v in row] for j in range(n) for x, row in zip(it["ids"][r], l)]
    big = {"nr": it["nr"], "ids": [[num[x, j] for j in range(n) for x in l] for l in it["ids"]], "ops": []}
    for o in it["ops"]:
        o = dict(o, given=[rep(l, r, o["dim"], False) for r, l in enumerate(o["given"])])
        if o["kind"] != "bnd":
            o["want"] = [rep(l, r, o["dim"], True) for r, l in enumerate(o["want"])]
        o["bnd"] = [[[b[0] + j * len(it["ids"][r]), b[1]] for j in range(n) for b in l] for r, l in enumerate(o["bnd"])]
        big["ops"].append(o)
    return big


def reduction_runs(chk):
    q = chk.tier == "quick"
    a = nsm.TLC("Reduction", "Reduction_algo.cfg", chk.work, workers=5, timeout=600)
    s = nsm.TLC("Reduction", "Reduction_sim.cfg", chk.work, simulate=100 if q else 1500, depth=40, workers=2,
                timeout=300 if q else 1200)
    more = []
    if not q:
        more = [nsm.TLC("Reduction", "Reduction_algo4.cfg", chk.work, workers=4, timeout=3000, heap="8g")]
    nsm.build(["probe_mpi"])
    s.expect_ok()
    chk.count(s)
    items = s.emitted()
    rnd = random.Random(nsm.SEED)
    items += [magnify(it, rnd.choice([20, 50, 150, 400]), rnd) for it in rnd.sample(items, min(len(items), 12 if q else 150))]
    res = run_mpi(chk, items, "red")
    for m in [a] + more:
        m.expect_ok()
        chk.count(m)
    return res


def dead(chk, it, per, what):
    for r, x in enumerate(per):
        if x is None or "exception" in x:
            chk.violation("%s: no answer on %d ranks" % (what, it["nr"]),
                          {"item": {k: it[k] if k != "ids" else [l[:30] for l in it[k]] for k in it if k != "ops"}, "rank": r,
                           "ops": [o.get("k", o.get("kind")) for o in it["ops"]],
                           "result": x if x else "the rank died or hung"})
            return True
    return False


def check_P10(chk):
    for it, per in reduction_runs(chk):
        chk.traces += 1
        if dead(chk, it, per, "reduction"):
            continue
        for k, op in enumerate(it["ops"]):
            if op["kind"] == "bnd":
                continue
            for r in range(it["nr"]):
                got = per[r]["r"][k]
                want = op["want"][r]
                if got["v"] != want or any(x in got for x in ("overrun", "left", "sendbuf", "wild")):
                    n = next((i for i in range(len(want)) if got["v"][i] != want[i]), None)
                    chk.violation("shared nodes: %s of %d component(s)" % (op["kind"], op["dim"]),
                                  {"rank": r, "ids": [l[:30] for l in it["ids"]], "operation": k, "kinds": [o["kind"] for o in it["ops"]],
                                   "local_node": n, "expected": want[n] if n is not None else None,
                                   "got": got["v"][n] if n is not None else {x: got[x] for x in got if x != "v"},
                                   "given": [g[:30] for g in op["given"]]})
                    break
        chk.sample({"ids": it["ids"], "ops": [o["kind"] + str(o["dim"]) for o in it["ops"]]})


def check_P11(chk):
    for it, per in reduction_runs(chk):
        chk.traces += 1
        if dead(chk, it, per, "boundary nodes"):
            continue
        for k, op in enumerate(it["ops"]):
            if op["kind"] != "bnd":
                continue
            for r in range(it["nr"]):
                got = per[r]["r"][k]
                pairs = sorted(zip(got["loc"][1:], got["min"][1:]))
                want = sorted((b[0] - 1, b[1]) for b in op["bnd"][r])
                if pairs != want or got["loc"][0] != -7 or len(got["loc"]) != len(got["min"]):
                    chk.violation("boundary nodes on %d ranks" % it["nr"],
                                  {"rank": r, "ids": it["ids"], "expected": want, "got": pairs})
                    break
        chk.sample({"ids": it["ids"], "boundary": [o["bnd"] for o in it["ops"] if o["kind"] == "bnd"][:1]})


def check_P27(chk):
    q = chk.tier == "quick"
    s = nsm.TLC("Comm", "Comm_sim.cfg", chk.work, simulate=150 if q else 3000, depth=20, workers=4, timeout=300 if q else 1200)
    nsm.build(["probe_mpi"])
    s.expect_ok()
    chk.count(s)
    for it, per in run_mpi(chk, s.emitted(), "comm"):
        chk.traces += 1
        if dead(chk, it, per, "communication"):
            continue
        for k, op in enumerate(it["ops"]):
            kind = op["k"]
            for r in range(it["nr"]):
                got, want = per[r]["r"][k], op["want"][r]
                name = kind + (":" + op["how"] if kind == "p2p" else "")
                bad = None
                if kind == "split":
                    bad = got != want
                elif kind == "skip":
                    bad = got["null"] != want
                elif kind == "allgatherz":
                    bad = got["res"] != [x + (1 << 40) for x in want]
                elif kind in ("gather1", "gather3", "gatherp"):
                    bad = (got or {"res": []}).get("res", []) != want
                elif kind == "vv":
                    bad = (got.get("res", []) != want) or got["back"] != op["back"][r]
                elif kind == "p2p":
                    if r == op["to"]:
                        bad = got["res"] != want or got["count"] != op["counts"] or "overrun" in got or "shrunk" in got
                elif kind == "packids":
                    bad = got["res"] != want or got["n"] != op["n"] or got["max"] != op["max"]
                else:
                    bad = got["res"] != want
                if bad:
                    chk.violation("communication: " + name, {"ranks": it["nr"], "rank": r, "op": op, "got": got})
                    break
        chk.sample({"ranks": it["nr"], "ops": [o["k"] for o in it["ops"]]})


def vector(ty):
    """is type number ty of spec/Serial.tla a vector of numbers?"""
    return ty in (11, 12, 13, 14)


def check_P26(chk):
    q = chk.tier == "quick"
    s = nsm.TLC("Serial", "Serial_sim.cfg", chk.work, simulate=600 if q else 20000, depth=20, workers=4, timeout=300 if q else 1200)
    nsm.build(["probe_serial"])
    s.expect_ok()
    chk.count(s)
    items = s.emitted()
    rnd = random.Random(nsm.SEED)
    # vectors of great length: a value of the behaviour over and over
    some = [x for x in items if vector(x["ty"]) and any(x["vals"][:2])]
    for it in rnd.sample(some, min(12, len(some))):
        it["vals"] = [v * ((rnd.choice([70000, 256, 65536]) + len(v) - 1) // len(v)) if v else v for v in it["vals"][:2]]
    rc, out, err = nsm.run_probe("probe_serial", items=items, timeout=300)
    byi = {r["i"]: r for r in out}
    if len(byi) != len(items):
        raise nsm.ToolError("probe_serial answered %d of %d (rc=%s) %s" % (len(byi), len(items), rc, err[-800:]))
    for i, it in enumerate(items):
        chk.traces += 1
        r = byi[i]
        if "raw" not in r:
            chk.violation("serialisation: no answer for type %d" % it["ty"], {"item": it, "got": r})
            continue
        for k, v in enumerate(it["vals"]):
            x = r["raw"][k]
            if x["v"] != v or not (x["size"] == x["produced"] == x["consumed"]) or "outside" in x:
                chk.violation("serialisation: type %d" % it["ty"], {"value": v[:40] if isinstance(v, list) else v, "got": dict(x, v=x["v"][:40] if isinstance(x["v"], list) else x["v"])})
                break
            bad = next((b[k] for b in r["buf"] if b[k]["v"] != v or b[k]["size"] != x["size"] or not b[k]["fits"]), None)
            if bad:
                chk.violation("serialisation through a buffer: type %d" % it["ty"], {"value": v[:40] if isinstance(v, list) else v, "got": dict(bad, v=str(bad["v"])[:300]), "after": str(it["vals"][:k])[:300]})
                break
        if not vector(it["ty"]):
            chk.sample(it)
