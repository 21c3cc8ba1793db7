"""What a run reports (spec/Report.tla accepts recorded reports) and how it
measures times (spec/Timers.tla, TimingFile.tla): P36."""
import glob, json, math, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import exo, nsm
import c_crun, c_quasi, c_run
from c_run import fname

F = r"([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf))"
LINES = [
    ("communicator", r"-- Using Tpetra interface"), ("ranks", r"-- Number of ranks = (\d+)"), ("nodes", r" Number of Nodes = (\d+)"),
    ("elements", r" Number of Elements = (\d+)"), ("blocks", r" Number of Global Blocks = (\d+)"), ("ranks again", r" Number of Ranks\s*= (\d+)"),
    ("facets", r"\s*number of triangular contact facets \(primary blocks\): (\d+)"), ("contact nodes", r"\s*number of contact nodes \(secondary blocks\): (\d+)"),
    ("step", r"User specified time step:\s*" + F), ("critical", r"Approximate maximum stable time step:\s*" + F), ("warning", r"\*\*\*\* WARNING:  The user specified time step exceeds"),
    ("progress", r"\s*(\d+)% complete"), ("entries", r"\s*Rank (\d+) has (\d+) contact entries \(out of (\d+) time steps\)"),
    ("total time", r"Total step time = " + F), ("update time", r" --- Update A, V, U: " + F), ("force time", r" --- Force: " + F), ("contact time", r" --- Contact time: " + F),
    ("output time", r" --- Exodus Write = " + F),
    ("nonzeros", r"Number of nonzeros in tangent stiffness matrix = (\d+)"), ("begin", r"Beginning quasistatic time integration:"),
    ("load step", r"Step (\d+), time %s, delta_time %s, convergence tolerance %s" % (F, F, F)),
    ("iteration", r"\s*iteration (\d+): residual = %s(?:, linear cg iterations = (\d+))?" % F),
    ("not converged", r"\*\*\*\* Nonlinear solver failed to converge"), ("linear solver failed", r"\*\*\*\* CG solver failed to converge"), ("complete", r"Complete\."),
]
LINES = [(k, re.compile(r)) for k, r in LINES]
BIG = 2000000000


def small(x):
    return int(max(-BIG, min(BIG, round(x)))) if math.isfinite(x) else BIG


def micro(x):
    return small(float(x) * 1e6)


def events(text, rc, d, c):
    """the events of a report, as the acceptor takes them"""
    ev, late, tol, res0 = [], [], None, None
    add = lambda e, a=0, b=0, k=0: ev.append({"e": e, "a": a, "b": b, "c": k})
    for line in text.splitlines():
        for k, r in LINES:
            m = r.match(line)
            if m:
                break
        else:
            continue
        g = m.groups()
        if k == "entries":                              # lines of other ranks may come late
            late.append((int(g[0]), int(g[1]), int(g[2])))
        elif k in ("step", "critical"):
            add(k, small(10000 * float(g[0]) / c["dt"]))
        elif k.endswith(" time"):
            add(k, micro(g[0]))
        elif k == "load step":
            tol = float(g[3])
            add(k, int(g[0]), small(1000 * float(g[1]) / c["dt"]))
        elif k == "iteration":
            r = float(g[1])
            over = 3 if not math.isfinite(r) or tol is None or not math.isfinite(tol) else 1 if r > tol * 1.002 else 0 if r < tol * 0.998 else 2
            add(k, int(g[0]), over, -1 if g[2] is None else int(g[2]))
            if int(g[0]) == 0 and r > 0 and math.isfinite(r) and tol is not None and math.isfinite(tol):
                add("tolerance", small(1000 * tol / (r * c["rel"])))
        else:
            add(k, int(g[0]) if g else 0)
    for x in sorted(late):
        add("entries", *x)
    for fn in sorted(glob.glob(os.path.join(d, "nimble_timing_data_*"))):
        m = re.search(r"nimble_timing_data_n(\d+)_\d{4}\.\d\d\.\d\d\.\d\d\.\d\d\.\d\d\.\d{6}\.log$", fn)
        v = open(fn).read().split()
        try:
            add("file", int(m.group(1)), int(v[0]))
            add("file times", [micro(x) for x in v[1:]])
        except (AttributeError, ValueError, IndexError):
            add("file that cannot be read")
    add("status", rc if isinstance(rc, int) else 999)
    return ev


BLANK = {"scheme": "explicit", "tpetra": 0, "np": 1, "nodes": 0, "elems": 0, "blocks": 0, "contact": 0, "facets": 0, "cnodes": 0, "n": 1, "crit": -1, "timing": 0,
         "entries": [0], "nonzeros": 0, "t0": 0, "limit": 0}


class Free:
    """a run without contact"""
    def __init__(self, b, rnd, np):
        self.rd, self.np, self.rnd = c_run.Rendering(b, random.Random(rnd.randrange(1 << 30))), np, rnd
        s = self.rd.s
        self.timing = rnd.random() < 0.5
        self.tpetra = np > 1 and rnd.random() < 0.4
        self.c = dict(BLANK, np=np, tpetra=int(self.tpetra), nodes=len(self.rd.pts), elems=len(self.rd.cells), blocks=self.rd.nblk, n=s["steps"], timing=int(self.timing), entries=[0] * np)
        self.dt = s["dt"] * self.rd.T
        self.c["crit"] = small(10000 * math.sqrt(b["crit"][0] / b["crit"][1]) / s["dt"])

    def run(self, d):
        rnd = self.rnd
        extra = ["write timing data file: " + rnd.choice(["on", "true", "YES"])] if self.timing else ["write timing data file: " + rnd.choice(["off", "false"])] if rnd.random() < 0.5 else []
        rc, text, _ = c_run.execute(self.rd, d, ["displacement"], np=self.np, opts=["--use_tpetra"] if self.tpetra else [], extra=extra)
        return rc, text, {"dt": self.dt}


class Touch:
    """a run with contact"""
    def __init__(self, b, part, rnd):
        self.c0 = k = c_crun.Case(b, part, random.Random(rnd.randrange(1 << 30)), rnd.random() < 0.85)
        n = b["run"]["steps"]
        self.c = dict(BLANK, contact=1, np=k.nr, tpetra=int(k.tpetra), nodes=len(b["nodes"]), elems=len(b["cells"]), blocks=len(k.blocks), facets=4 * len(b["quads"]), cnodes=len(b["cnodes"]), n=n,
                      entries=[sum(1 for s in range(1, n + 1) if any(k.rank[h["e"]] == r for h in k.hits(s))) for r in range(k.nr)])
        self.timing = rnd.random() < 0.5
        self.c["timing"] = int(self.timing)
        deck = k.deck
        k.deck = lambda: deck() + ("write timing data file: on\n" if self.timing else "")

    def run(self, d):
        self.c0.run(d)
        return self.c0.rc, self.c0.stdout, {"dt": self.c0.T}


class Still:
    """a quasistatic run"""
    def __init__(self, b, rnd):
        self.p = p = c_quasi.Problem(b, random.Random(rnd.randrange(1 << 30)))
        pairs = {(i, j) for x in p.blocks for c in x["conn"] for i in c for j in c}
        self.c = dict(BLANK, scheme="quasistatic", nodes=p.n, elems=sum(len(x["conn"]) for x in p.blocks), blocks=len(p.blocks), n=b["run"]["n"], t0=b["run"]["t0"],
                      nonzeros=9 * len(pairs), limit=p.limit or 200)

    def run(self, d):
        rc, text, _ = c_quasi.perform(self.p, d, nsm.probe_path("host_app"))
        return rc, text, {"dt": self.p.T, "rel": float(self.p.tol or "1e-6")}


def accept(chk, traces, name="Report.cfg"):
    """the verdicts of the acceptor"""
    t = nsm.TLC("Report", name, chk.work, workers=4, timeout=600, files={"traces.json": json.dumps(traces)})
    t.expect_ok()
    chk.count(t)
    v = {}
    for x in t.emitted():
        v[x["tr"]] = x
    if sorted(v) != list(range(1, len(traces) + 1)):
        raise nsm.ToolError("no verdict on some reports")
    return [v[i + 1] for i in range(len(traces))]


def spoil(tr, rnd):
    """a report that must not be accepted: an event lost, twice, or with another number"""
    ev = [dict(e) for e in tr["ev"]]
    k = [i for i, e in enumerate(ev) if e["e"] in ("ranks", "blocks", "progress", "iteration", "load step", "nonzeros", "facets", "contact nodes", "entries", "step")]
    i = rnd.choice(k)
    how = rnd.choice(["lost", "twice", "number"])
    if how == "lost":
        # the last corrections of a load step may be missing unnoticed only where the residual was already small
        if ev[i]["e"] == "iteration":
            how = "number"
        else:
            del ev[i]
    if how == "twice":
        ev.insert(i, dict(ev[i]))
    elif how == "number":
        ev[i]["a"] += max(3, abs(ev[i]["a"]) // 3)
    return {"c": tr["c"], "ev": ev}


def records(chk, behaviours):
    """the files in which runs leave their times (spec/TimingFile.tla)"""
    items = []
    for i, b in enumerate(behaviours):
        d = os.path.join(chk.work, "f%d" % i)
        os.makedirs(d)
        items.append({"dir": d, "ops": b["ops"]})
    rc, out, err = nsm.run_probe("probe_timers", items=items, timeout=300)
    by = {x["i"]: x for x in out}
    for i, b in enumerate(behaviours):
        chk.traces += 1
        d, said = items[i]["dir"], by.get(i, {}).get("said", [])
        files, dirs = {}, []
        for n in sorted(os.listdir(d)):
            if os.path.isdir(os.path.join(d, n)):
                dirs.append(n)
            else:
                files[n] = open(os.path.join(d, n)).read()
        want = {n: x for n, x in b["files"]}
        if dirs != sorted(b["dirs"]) or sorted(files) != sorted(want):
            chk.violation("timing data: the files are not those of the runs", {"behaviour": b, "files": sorted(files), "folders": dirs})
            continue
        for n, x in want.items():
            if not x:
                if not files[n].startswith("something else"):
                    chk.violation("timing data: a file of another name has changed", {"file": n, "behaviour": b, "text": files[n]})
                continue
            try:
                ok = files[n].count("\n") == 1 and [float(v) for v in files[n].split()] == [x[0]] + [v / 8 for v in x[1:]]
            except ValueError:
                ok = False
            if not ok:
                chk.violation("timing data: the record is not that of the run", {"file": n, "text": files[n], "expected": x, "behaviour": b})
        bad = [k for k, o in enumerate(b["ops"]) if o["op"] == "write" and (k >= len(said) or bool(said[k]) == bool(o["made"]))]
        if bad:
            chk.violation("timing data: a file that cannot be written goes unreported, or one that was written is reported", {"operations": bad, "behaviour": b})
    chk.extra["timing data folders"] = len(behaviours)


def check_P36(chk):
    q = chk.tier == "quick"
    rnd = random.Random(nsm.SEED + 36)
    runs = [nsm.TLC("Timers", "Timers_sim.cfg", chk.work, simulate=15 if q else 300, depth=100, workers=2, timeout=600),
            nsm.TLC("MCNimble", "Nimble_sched.cfg", chk.work, workers=2, timeout=900), nsm.TLC("MCNimble", "Nimble_schedpar.cfg", chk.work, workers=2, timeout=900),
            nsm.TLC("MCContactRun", "ContactRun_sim.cfg", chk.work, simulate=80 if q else 1500, depth=500, workers=3, timeout=2400),
            nsm.TLC("Quasi", "Quasi_sim.cfg", chk.work, simulate=15 if q else 500, depth=40, workers=3, timeout=1500),
            nsm.TLC("TimingFile", "TimingFile_sim.cfg", chk.work, simulate=40 if q else 2000, depth=40, workers=2, timeout=600)]
    nsm.build(["probe_timers", "host_app", "contact_app"], exe=True)
    b = []
    for t in runs:
        t.expect_ok()
        chk.count(t)
        x = sorted({json.dumps(y, sort_keys=True) for y in t.emitted()})
        rnd.shuffle(x)
        b.append([json.loads(y) for y in x])
    timers, sched, par, touch, still, folders = b
    touch.sort(key=lambda x: not any(s["hits"] for s in x["steps"]))
    sched, par = ([x for x in l if x["ok"] and x["sc"]["steps"] > 0 and x["sc"]["dt"] > 0] for l in (sched, par))
    good = lambda l, n: sorted(l, key=lambda x: -x["sc"]["steps"])[:n // 2] + rnd.sample(l, min(len(l), n // 2))
    cases = [Free(x, rnd, 1) for x in good(sched, 40 if q else 400)] + [Free(x, rnd, c_run.ranks_of(x["sc"])) for x in good(par, 10 if q else 100)]
    cases += [Touch(x, p, rnd) for x in touch[:14 if q else 200] for p in range(-1, len(x["nr"]))]
    cases += [Still(x, rnd) for x in still[:40 if q else 1500]]

    def go(x):
        i, c = x
        d = os.path.join(chk.work, "r%d" % i)
        rc, text, u = c.run(d)
        if rc == "timeout":
            return None
        tr = {"c": c.c, "ev": events(text, rc, d, u)}
        shutil.rmtree(d, ignore_errors=True)
        return tr, text
    with ThreadPoolExecutor(7) as ex:
        done = list(ex.map(go, enumerate(cases)))
    kinds = {}
    for c, r in zip(cases, done):
        if r is None:
            chk.violation("report: the run does not end", {"case": c.c})
    rec = [r for r in done if r]
    spoiled = [spoil(r[0], rnd) for r in rec]
    verdicts = accept(chk, [r[0] for r in rec] + spoiled)
    for (tr, text), v in zip(rec, verdicts):
        chk.traces += 1
        key = tr["c"]["scheme"] + (" with contact" if tr["c"]["contact"] else "") + " on %d rank(s)" % tr["c"]["np"]
        kinds[key] = kinds.get(key, 0) + 1
        if not v["ok"]:
            e = tr["ev"][v["k"] - 1]
            chk.violation("%s run: the report does not fit at \"%s\"" % (tr["c"]["scheme"], e["e"]), {"event": v["k"], "what": e, "run": tr["c"], "report": tr["ev"], "text": text[-3000:]})
    wrong = [s for s, v in zip(spoiled, verdicts[len(rec):]) if v["ok"]]
    if not chk.violations and len(wrong) > len(spoiled) // 50:
        raise nsm.ToolError("the acceptor takes spoiled reports: %s" % json.dumps(wrong[:2])[:1500])
    chk.extra["reports"] = kinds
    chk.extra["spoiled reports refused"] = len(spoiled) - len(wrong)
    chk.sample({"run": rec[0][0]["c"], "events": [e["e"] for e in rec[0][0]["ev"]]})
    # timers
    rc, out, err = nsm.run_probe("probe_timers", items=timers, timeout=300)
    by = {x["i"]: x for x in out}
    for i, x in enumerate(timers):
        chk.traces += 1
        g = by.get(i, {})
        if len(g.get("ops", [])) != len(x["ops"]):
            chk.violation("timers: no answer", {"behaviour": x, "got": g})
            continue
        g = g["ops"]
        for k, (o, r) in enumerate(zip(x["ops"], g)):
            if "t" not in r:
                continue
            lo = sum(max(0.0, g[j - 1]["before"] - g[a - 1]["after"]) for a, j in o["over"])
            hi = sum(g[j - 1]["after"] - g[a - 1]["before"] for a, j in o["over"])
            if o["op"] == "function":
                lo = 3e-4
            if not lo - 2e-6 <= r["t"] <= hi + 2e-6:
                chk.violation("timers: %s is not the time that has passed" % o["op"], {"operation": k, "at least": lo, "at most": hi, "reported": r["t"], "behaviour": x})
                break
    records(chk, folders)
