"""The command line (spec/Cli.tla): P34."""
import os, random, shutil
from concurrent.futures import ThreadPoolExecutor
import exo, nsm
from c_fault import mesh, GOOD
from c_run import fname

DECKS = {"a.in": ("ma.g", "oa.e", 4), "sub/b.in": ("mb.g", "ob.e", 6)}       # mesh, output, load steps


def place(d, np):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "sub"))
    for deck, (g, e, n) in DECKS.items():
        for r in range(np):
            exo.write(os.path.join(d, fname(g, np, r)), mesh(np, None if np == 1 else r))
        with open(os.path.join(d, deck), "w") as f:
            f.write("\n".join(l.replace("m.g", g).replace("m.e", e).replace("load steps: 4", "load steps: %d" % n) for l in GOOD) + "\n")


def execute(b, d, np):
    place(d, np)
    rc, out, err = nsm.launch([nsm.exe_path()] + b["words"], np=np, cwd=d, timeout=60)
    got = {}
    for deck, (g, e, n) in DECKS.items():
        for r in range(np):
            fn = os.path.join(d, fname(e.replace(".e", ".out.e"), np, r))
            if os.path.exists(fn):
                try:
                    x = exo.read(fn)
                    got.setdefault(deck, []).append({"times": x["times"], "nodal": x["nodal"]})
                except exo.ExoError as ex:
                    got.setdefault(deck, []).append(str(ex))
    return rc, out + err, got


def judge(b, np, rc, out, got, ref):
    o = b["outcome"]
    ran = "-- NimbleSM" in out or bool(got)
    if o != "run":
        if ran:
            return "something is run", {"output": out[-800:]}
        if rc == "timeout" or (isinstance(rc, int) and (rc < 0 or rc > 128)):
            return "the process is ended by a signal", {"status": rc, "output": out[-800:]}
        if o == "help" and (rc != 0 or "INPUT_FILE" not in out):
            return "no help message", {"status": rc, "output": out[-800:]}
        if o == "refuse" and rc == 0:
            return "status 0 although nothing can be run", {"output": out[-800:]}
        return None
    if rc != 0:
        return "the run fails", {"status": rc, "output": out[-800:]}
    if list(got) != [b["input"]]:
        return "the output is not that of the deck named", {"decks with output": list(got)}
    if ("Using Tpetra interface" in out) != b["tpetra"]:
        return "the communication layer is not the one asked for", {"output": out[:400]}
    if "Number of ranks = %d\n" % np not in out:
        return "the number of ranks is wrong", {"output": out[:400]}
    want, have = ref[(np, b["input"])], got[b["input"]]
    if len(have) != np:
        return "output of %d ranks" % len(have), {}
    for r in range(np):
        if isinstance(have[r], str) or have[r]["times"] != want[r]["times"]:
            return "other times than without options", {"rank": r, "expected": want[r]["times"], "got": have[r]}
        for s, (x, y) in enumerate(zip(want[r]["nodal"], have[r]["nodal"])):
            for k in x:
                if k not in y or any(not abs(p - q) <= 1e-9 * max(1e-6, abs(p)) for p, q in zip(x[k], y[k])):
                    return "other results than without options", {"variable": k, "record": s, "expected": x[k], "got": y.get(k)}
    return None


def check_P34(chk):
    quick = chk.tier == "quick"
    deep = nsm.TLC("Cli", "Cli_deep.cfg", chk.work, workers=4, timeout=600)
    two = nsm.TLC("Cli", "Cli_two.cfg", chk.work, workers=2, timeout=600)
    sim = nsm.TLC("Cli", "Cli_sim.cfg", chk.work, simulate=15 if quick else 150, depth=20, workers=2, timeout=600)
    nsm.build([], exe=True)
    for t in (deep, two, sim):
        t.expect_ok()
        chk.count(t)
    rnd = random.Random(nsm.SEED)
    key = lambda b: b["words"]
    pairs = sorted(two.emitted(), key=key)
    one = [b for b in pairs if len(b["words"]) < 2]
    pairs = [b for b in pairs if len(b["words"]) == 2]
    runs = [b for b in pairs if b["outcome"] == "run"]
    rest = [b for b in pairs if b["outcome"] != "run"]
    if quick:
        runs, rest = rnd.sample(runs, min(26, len(runs))), rnd.sample(rest, min(50, len(rest)))
    behs = one + runs + rest + sorted(sim.emitted(), key=key)
    jobs = [(b, 2 if b["outcome"] == "run" and rnd.random() < 0.3 else 1) for b in behs]
    with ThreadPoolExecutor(8) as ex:
        refs = {(np, k): ex.submit(execute, {"words": [k]}, os.path.join(chk.work, "ref%d%s" % (np, k[0])), np) for np in (1, 2) for k in DECKS}
        ref = {}
        for k, f in refs.items():
            rc, out, got = f.result()
            if k[1] not in got:
                got[k[1]] = []
            ref[k] = got[k[1]]
            if rc != 0 or len(ref[k]) != k[0] or any(isinstance(x, str) for x in ref[k]):
                chk.violation("command line: a deck alone does not run", {"deck": k[1], "ranks": k[0], "status": rc, "output": out[-800:]})
                return
        def go(j):
            d = os.path.join(chk.work, "j%d" % j)
            r = execute(jobs[j][0], d, jobs[j][1])
            shutil.rmtree(d, ignore_errors=True)
            return r
        outs = list(ex.map(go, range(len(jobs))))
    kinds = {}
    for (b, np), (rc, out, got) in zip(jobs, outs):
        chk.traces += 1
        kinds[b["outcome"]] = kinds.get(b["outcome"], 0) + 1
        bad = judge(b, np, rc, out, got, ref)
        if bad:
            chk.violation("command line: " + bad[0], dict(bad[1], words=b["words"], ranks=np, expected=b["outcome"]))
    chk.extra["outcomes"] = kinds
    chk.sample({"words": jobs[-1][0]["words"], "outcome": jobs[-1][0]["outcome"], "ranks": jobs[-1][1]})
