"""P38: no run touches memory it does not own, or decides by values it was not given.

The shadow memory of the two instrumented builds is the state of spec/Memory.tla
(which cells a run owns, which of them have a value); the behaviours of the other
modules are what drives it.  A report of an instrument is an access that is not
one of the model's steps.
"""
import glob, importlib, json, os, random, re, subprocess, sys, time
import nsm

SAN = ("-w -fno-use-linker-plugin -fsanitize=address -fsanitize=bounds,signed-integer-overflow,integer-divide-by-zero,shift,return,bool,enum,"
       "float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer -g1")
LIB, HARN = os.path.join(nsm.BUILD, "san_lib"), os.path.join(nsm.BUILD, "san_harness")
VG = ["valgrind", "-q", "--error-exitcode=0", "--suppressions=/usr/share/openmpi/openmpi-valgrind.supp", "--trace-children=yes", "--undef-value-errors=yes"]


# ---------------------------------------------------------------- the child: one other check, on an instrumented build

class Enough(Exception):
    pass


PROOF = {"Reduction_algo.cfg"}


def child(pid, mode, share, out):
    import check
    logs = out + ".logs"
    os.makedirs(logs, exist_ok=True)
    count = {"launches": 0, "items": 0, "watched": 0, "ub": 0}
    if mode == "asan":
        nsm.LIBDIR, nsm.HARN = LIB, HARN
        nsm.ENV["ASAN_OPTIONS"] = "detect_leaks=0:log_path=%s/asan:exitcode=99:detect_odr_violation=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=1000000:malloc_fill_byte=254" % logs
        nsm.ENV["UBSAN_OPTIONS"] = "print_stacktrace=1"
    nsm.build = lambda *a, **k: None
    launch, tlc = nsm.launch, nsm.TLC
    most = (4 if nsm.TIER == "quick" else 60)

    class Less(tlc):
        def __init__(self, *a, **k):
            if a[1] in PROOF:                   # a search that gives no behaviours to run
                a = ("Memory", "Memory.cfg") + a[2:]
            if k.get("simulate"):
                k["simulate"] = max(6, int(k["simulate"] * share))
            k["heap"], k["workers"] = "2g", 2
            super().__init__(*a, **k)

    def watched(cmd, np=1, cwd=None, timeout=60, merge=False, input=None, env=None):
        count["launches"] += 1
        count["items"] += len(input.splitlines()) if input else 1
        if mode == "asan":
            r = launch(cmd, np, cwd, timeout * 4, merge, input, dict(env or {}, NSM_SLOW="6"))
            for m in re.finditer(r"(?m)^\S+:\d+:\d+: runtime error: .*(?:\n +#\d+ .*)*", r[1] + "\n" + r[2]):     # this one has no file of its own
                count["ub"] += 1
                open("%s/asan_ub.%d" % (logs, count["ub"]), "w").write(m.group(0))
            return r
        if count["watched"] >= most:
            raise Enough()
        r = launch(cmd, np, cwd, timeout, merge, input, env)
        if np <= 1 and cmd[0] != "mpirun":
            if input:
                l = input.splitlines()
                l = random.Random(nsm.SEED).sample(l, min(len(l), 12 if nsm.TIER == "quick" else 300))
                input = b"\n".join(l) + b"\n"
            count["watched"] += 1
            launch(VG + ["--log-file=%s/vg.%%p" % logs] + list(cmd), np, cwd, 600, merge, input, dict(env or {}, NSM_SLOW="60"))
        return r

    nsm.TLC, nsm.launch = Less, watched
    err = None
    chk = nsm.Check("P38_%s_%s" % (mode, pid))
    try:
        getattr(importlib.import_module(check.MODULES[pid]), "check_" + pid)(chk)
    except Enough:
        pass
    except Exception as e:                      # the verdicts of that check are its own; only its runs count here
        err = "%s: %s" % (type(e).__name__, str(e)[-600:])
    json.dump({"pid": pid, "mode": mode, "states": chk.states, "transitions": chk.transitions, "traces": chk.traces, "err": err, **count}, open(out, "w"))


# ---------------------------------------------------------------- reports

def reports(logs):
    """[(what, text)] of the reports in a folder"""
    res = []
    for fn in sorted(glob.glob(logs + "/asan*")):
        t = open(fn, errors="replace").read()
        m = re.search(r"AddressSanitizer:? ([\w-]+)", t) or re.search(r"runtime error: ([^\n]{1,80})", t)
        if m:
            res.append((re.sub(r"0x[0-9a-f]+|-?\d{4,}", "N", m.group(1)) + " in " + where(t), t[:3000]))
    for fn in sorted(glob.glob(logs + "/vg*")):
        t = re.sub(r"(?m)^==\d+== ?", "", open(fn, errors="replace").read())
        for e in re.split(r"\n\n", t):
            m = re.search(r"(Conditional jump or move depends on uninit|Use of uninit|Syscall param write|Invalid (?:read|write|free))", e)
            if m and "MPI_" not in e and re.search(r"(?m)^\s+(?:at|by) 0x\w+: .*nimble", e):
                res.append((m.group(1) + " in " + where(e), e[:3000]))
    return res


def where(t):
    m = re.search(r"(?m)^\s*(?:#\d+|at|by) 0x\w+:?(?: in)? .*?((?:nimble(?:_kokkos)?|ExpressionParsing)::[\w:~]+)", t)
    return m.group(1)[:80] if m else "?"


# ---------------------------------------------------------------- the check

# what drives the instrumented builds: (check, share of its quick behaviours)
QUICK = {"asan": {"P01": .3, "P04": .3, "P22": .2, "P30": .2, "P23": .2, "P17": .2, "P07": .3, "P10": .25, "P14": .3, "P16": .25, "P18": .3, "P19": .5, "P21": .5, "P25": .2, "P26": .5, "P32": 1, "P35": 1, "P37": 1},
         "vg": {"P01": .1, "P06": .1, "P16": .1, "P19": .2, "P32": .5, "P37": .5}}
NEEDS = {"P01": ["probe_deck"], "P02": ["probe_deck"], "P03": ["probe_deck"], "P04": ["probe_expr"], "P05": ["probe_expr"], "P06": ["host_app"], "P07": ["host_app"], "P08": ["host_app"],
         "P09": ["host_app"], "P10": ["probe_mpi"], "P11": ["probe_mpi"], "P12": ["host_app"], "P13": ["host_app"], "P14": ["probe_element", "host_app"], "P15": ["probe_deck"],
         "P16": ["probe_fields", "history_app"], "P17": ["host_app"], "P18": ["host_app"], "P19": ["probe_linear", "probe_mpi"], "P20": ["probe_linear"], "P21": ["probe_linear"], "P22": ["host_app"],
         "P23": ["probe_contact"], "P24": ["probe_contact"], "P25": ["probe_contact"], "P26": ["probe_serial"], "P27": ["probe_mpi"], "P28": [], "P29": ["probe_element", "host_app"],
         "P30": ["contact_app"], "P31": ["probe_tensor"], "P32": ["probe_views"], "P33": ["probe_labels"], "P34": [], "P35": ["probe_entity"], "P36": ["probe_timers", "host_app", "contact_app"],
         "P37": ["probe_mesh"]}


def build(mode, probes):
    if mode == "plain":
        return nsm.build(probes, exe=True)
    if not os.path.exists(LIB + "/build.ninja"):
        cache = dict(l.split("=", 1) for l in open(nsm.LIBDIR + "/CMakeCache.txt") if re.match(r"(NimbleSM_|NIMBLE_|GTEST_|exodus_|FETCH|CMAKE_BUILD_TYPE)\w*:", l))
        nsm.run(["cmake", "-S", nsm.MIRROR, "-B", LIB, "-GNinja", "-DCMAKE_CXX_FLAGS=" + SAN, nsm.LAUNCH] + ["-D%s=%s" % (k, v.strip()) for k, v in cache.items()])
    if not os.path.exists(HARN + "/build.ninja"):
        nsm.run(["cmake", "-S", nsm.VERIF + "/harness", "-B", HARN, "-GNinja", "-DCMAKE_BUILD_TYPE=None", "-DNSM_MIRROR=" + nsm.MIRROR, "-DNSM_LIBDIR=" + LIB, "-DCMAKE_CXX_FLAGS=" + SAN, nsm.LAUNCH])
    p = subprocess.Popen(["ninja", "-C", LIB, "nimble", "NimbleSM"], env=nsm.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    rc, out = nsm.run(["ninja", "-C", HARN] + ["obj_" + x for x in probes], check=False, timeout=1500)
    o = p.communicate()[0].decode("utf-8", "replace")
    if p.returncode or rc:
        raise nsm.ToolError("the instrumented build failed\n" + (o + out)[-4000:])
    nsm.run(["ninja", "-C", HARN] + list(probes), timeout=900)
    nsm.log("built with instruments")


def check_P38(chk):
    q = chk.tier == "quick"
    plan = QUICK if q else {"asan": {p: 1 for p in NEEDS}, "vg": {p: .3 for p in NEEDS}}
    t = nsm.TLC("Memory", "Memory.cfg", chk.work, workers=2, timeout=600)
    need = lambda m: sorted({x for p in plan[m] for x in NEEDS[p]})
    build("plain", need("vg"))
    build("asan", need("asan"))
    t.expect_ok()
    chk.count(t)
    wait = sorted(((m, p, plan[m][p]) for m in plan for p in plan[m]), key=lambda x: "P10 P07 P14 P16 P18 P25 P06".find(x[1]) < 0)
    run, done, t0 = [], [], time.time()
    env = dict(os.environ, VERIF_TIER="quick", NSM_REPO=nsm.REPO, VERIF_SEED=str(nsm.SEED + (0 if q else 100)))
    while wait or run:
        while wait and len(run) < 5:
            m, p, share = wait.pop(0)
            out = os.path.join(chk.work, "%s_%s" % (m, p))
            run.append((m, p, out, subprocess.Popen([sys.executable, os.path.abspath(__file__), p, m, str(share), out], env=env,
                                                    stdout=open(out + ".txt", "w"), stderr=subprocess.STDOUT)))
        k = next((k for k, x in enumerate(run) if x[3].poll() is not None), None)
        if k is None:
            if time.time() - t0 > (700 if q else 6000):
                raise nsm.ToolError("the runs take too long: " + " ".join(x[1] for x in run))
            time.sleep(0.2)
            continue
        m, p, out, pr = run.pop(k)
        if not os.path.exists(out):
            raise nsm.ToolError("%s under %s: %s" % (p, m, open(out + ".txt").read()[-2000:]))
        r = json.load(open(out))
        bad = reports(out + ".logs")
        for what, text in bad:
            chk.violation(what, {"driven by": p, "instrument": m, "report": text})
        if r["err"] and not bad and not r["launches"]:
            raise nsm.ToolError("%s under %s: %s" % (p, m, r["err"]))
        done.append(r)
        nsm.log("%s %s: %d behaviours, %d runs%s" % (m, p, r["traces"], r["launches"], ", cut short: " + r["err"][:200] if r["err"] else ""))
        chk.traces += r["traces"]
        chk.states += r["states"]
        chk.transitions += r["transitions"]
    chk.extra["driven_by"] = [{k: r[k] for k in ("pid", "mode", "traces", "launches", "items")} for r in done]
    chk.extra["cut_short"] = [r["pid"] + ": " + r["err"][:200] for r in done if r["err"]]
    chk.sample({"instrument": "AddressSanitizer and UndefinedBehaviorSanitizer", "driven_by": sorted(plan["asan"])})
    chk.sample({"instrument": "memcheck", "driven_by": sorted(plan["vg"])})


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.modules["c_san"] = sys.modules["__main__"]
    child(sys.argv[1], sys.argv[2], float(sys.argv[3]), sys.argv[4])
