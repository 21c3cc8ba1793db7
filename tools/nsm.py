"""Build, TLC and bookkeeping shared by all checks (see DESIGN.md).

Nothing here judges a property; the judgement is made by the TLA+ modules in
/verif/spec, whose behaviours are replayed into the code built from /repo.
"""
import fcntl, json, os, re, shutil, subprocess, sys, time, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NSM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MIRROR = os.path.join(BUILD, "mirror")
LIBDIR = os.path.join(BUILD, "lib")
HARN = os.path.join(BUILD, "harness")
SPEC = os.path.join(VERIF, "spec")
LAUNCH = "-DCMAKE_CXX_COMPILER_LAUNCHER=" + os.path.join(VERIF, "tools", "cxx.sh")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")

ENV = dict(os.environ)
ENV.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMP_NUM_THREADS="1", CC="gcc", CXX="g++",
           OMPI_MCA_btl_vader_single_copy_mechanism="none",
           OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_btl="self,vader", OMPI_MCA_plm="isolated",
           OMPI_MCA_hwloc_base_binding_policy="none",
           OMPI_MCA_mpi_yield_when_idle="1")
ENV.setdefault("HOME", "/root")


class ToolError(Exception):
    """The check itself failed (model, build or tool); never a verdict."""


def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


def run(cmd, timeout=600, cwd=None, env=None, check=True, input=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, input=input)
    out = p.stdout.decode("utf-8", "replace")
    if check and p.returncode != 0:
        raise ToolError("command failed (%d): %s\n%s" % (p.returncode, " ".join(map(str, cmd)), out[-6000:]))
    return p.returncode, out


OPTIONS = ["-DNimbleSM_ENABLE_MPI=ON", "-DNimbleSM_ENABLE_TRILINOS=ON",
           "-DNimbleSM_USE_TRILINOS_EXODUS=OFF", "-DNIMBLE_USE_LOCAL_GTEST=ON",
           "-DGTEST_LIBRARY=GTest::gtest", "-DNimbleSM_ENABLE_UNIT_TESTS=OFF",
           "-Dexodus_LIBRARY=/usr/lib/x86_64-linux-gnu/libexoIIv2c.so",
           "-Dexodus_INCLUDE_DIR=/usr/include", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"]


def mirror():
    # mirror by content so that time stamps of /repo cannot mislead ninja
    run(["rsync", "-r", "--checksum", "--delete", "--exclude=/.git", "--exclude=/_build",
         "--exclude=/test", "--include=*/", "--include=*.cc", "--include=*.h", "--include=*.hpp",
         "--include=*.cmake", "--include=*.in", "--include=CMakeLists.txt", "--include=*.txt",
         "--exclude=*", REPO + "/", MIRROR + "/"])
    os.makedirs(MIRROR + "/test", exist_ok=True)
    with open(MIRROR + "/test/CMakeLists.txt", "a"):
        pass


def build(probes=(), exe=False):
    """Builds libnimble.a (and optionally the NimbleSM executable) from the
    present content of /repo, and the named probes of /verif/harness on it."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror()
        if not os.path.exists(os.path.join(LIBDIR, "build.ninja")):
            run(["cmake", "-S", MIRROR, "-B", LIBDIR, "-GNinja", "-DCMAKE_BUILD_TYPE=None",
                 "-DCMAKE_CXX_FLAGS=-w -fno-use-linker-plugin", LAUNCH] + OPTIONS)
        targets = ["nimble"] + (["NimbleSM"] if exe else [])
        # harness objects do not need the library to exist, only its headers: build both together
        procs = []
        p1 = subprocess.Popen(["ninja", "-C", LIBDIR] + targets, env=ENV,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out2 = ""
        if probes:
            if not os.path.exists(os.path.join(HARN, "build.ninja")):
                run(["cmake", "-S", os.path.join(VERIF, "harness"), "-B", HARN, "-GNinja",
                     "-DCMAKE_BUILD_TYPE=None", "-DNSM_MIRROR=" + MIRROR, "-DNSM_LIBDIR=" + LIBDIR,
                     "-DCMAKE_CXX_FLAGS=-w -fno-use-linker-plugin", LAUNCH])
            rc2, out2 = run(["ninja", "-C", HARN] + ["obj_" + p for p in probes], check=False, timeout=800)
        o1 = p1.communicate()[0].decode("utf-8", "replace")
        if p1.returncode != 0:
            raise ToolError("build of /repo failed\n" + o1[-5000:])
        if probes:
            if rc2 != 0:
                raise ToolError("harness build failed\n" + out2[-5000:])
            run(["ninja", "-C", HARN] + list(probes))
    log("built", ",".join(targets), *probes)


def probe_path(name):
    return os.path.join(HARN, name)


def exe_path():
    return os.path.join(LIBDIR, "src", "NimbleSM")


# ------------------------------------------------------------------ TLC

class TLC:
    """One TLC run, started in the background."""

    def __init__(self, module, cfg, workdir, simulate=None, depth=None, workers=4, timeout=300,
                 extra=(), heap="3g", seed=None, deadlock=False, files=None):
        self.name = "%s/%s" % (module, os.path.basename(cfg) if cfg else "")
        self.timeout = timeout
        d = os.path.join(workdir, "tlc_%s_%s" % (module, os.path.basename(cfg).replace(".cfg", "")))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        for fn, text in (files or {}).items():
            with open(os.path.join(d, fn), "w") as fh:
                fh.write(text)
        self.dir = d
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Xss16m",
               "-cp", TLAJAR + ":" + ":".join(cm_jars()), "tlc2.TLC",
               "-config", cfg, "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers)]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            cmd += ["-seed", str(SEED if seed is None else seed)]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += list(extra) + [module + ".tla"]
        self.cmd = cmd
        self.outf = os.path.join(d, "tlc.out")
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, cwd=d, stdout=open(self.outf, "w"), stderr=subprocess.STDOUT, env=ENV)

    def wait(self):
        try:
            self.p.wait(timeout=max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise ToolError("TLC timed out: " + self.name)
        self.wall = time.time() - self.t0
        out = open(self.outf, encoding="utf-8", errors="replace").read()
        self.out = out
        self.rc = self.p.returncode
        self.states = self.distinct = 0
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if m:
            self.states = int(m[-1][0].replace(",", ""))
            self.distinct = int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: (\d[\d,]*)", out)
        if m:
            self.states = int(m[-1].replace(",", ""))
        return self

    def expect_ok(self):
        self.wait()
        if self.rc != 0 or "Error:" in self.out:
            keep = os.path.join(BUILD, "failed_" + os.path.basename(self.outf))
            shutil.copy(self.outf, keep)
            raise ToolError("TLC reports an error in the model (not a verdict on the code): %s rc=%d\n%s"
                            % (self.name, self.rc, "\n".join(l for l in self.out.splitlines()
                                                              if not l.startswith('"BEH'))[-3500:]))
        return self

    def emitted(self, tag="BEH"):
        """Behaviours the model printed with PrintT("BEH " \\o ToJson(x))."""
        res, seen = [], set()
        pre = '"%s ' % tag
        for line in self.out.splitlines():
            if line.startswith(pre):
                s = json.loads(line)
                if s in seen:
                    continue
                seen.add(s)
                res.append(json.loads(s[len(tag) + 1:]))
        return res


def cm_jars():
    d = os.path.dirname(TLAJAR)
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and f != "tla2tools.jar"]


# ------------------------------------------------------------------ verdicts

class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or TIER
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work_" + pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []
        self.extra = {}
        self.known = load_known(pid)
        self.known_hit = {}

    def count(self, tlc):
        self.states += tlc.distinct or tlc.states
        self.transitions += tlc.states
        self.extra.setdefault("tlc_runs", []).append(
            {"model": tlc.name, "generated": tlc.states, "distinct": tlc.distinct, "wall_s": round(tlc.wall, 1)})

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what, detail):
        """what: short identifying string; detail: JSON-able replay."""
        for k in self.known:
            if k["match"] in what:
                self.known_hit.setdefault(k["match"], 0)
                self.known_hit[k["match"]] += 1
                return
        self.violations.append({"what": what, "detail": detail})

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"], **self.extra}
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": "model_checking",
              "coverage": cov, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        if self.violations:
            rp = os.path.join(BUILD, "replay_%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump(self.violations[:50], f, indent=1)
            for v in self.violations[:5]:
                print("  violated:", v["what"])
                print("    ", json.dumps(v["detail"])[:1500])
            print("%d violation(s)" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        log("%s held: %d TLC states, %d behaviours replayed/validated against the code"
            % (self.pid, self.states, self.traces))
        if self.traces == 0:
            raise ToolError("nothing was validated")
        return 0


def load_known(pid):
    """known_findings.txt lines:  known: property=<id> match=<string> :: <text>"""
    res = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                res.append({"match": m.group(2), "text": m.group(3)})
    return res


_launches = [0]
_LAUNCHER = re.compile(r"orte_init failed|ompi_mpi_init|orte_session_dir|Unable to start a daemon|ORTE_ERROR_LOG|PMIX ERROR|opal_init|failed to launch")


def wide(rnd, ids):
    """the numbers of the mesh, now and then large ones (the order is kept)"""
    if rnd.random() < 0.7:
        return list(ids)
    a, o = rnd.choice([(1, 1000), (1, 65530), (1000, 0), (7, 10 ** 6), (1, 2 ** 24), (1, 2 * 10 ** 9), (10 ** 6, 10 ** 9)])
    return [o + a * x for x in ids] if all(o + a * x < 2 ** 31 - 1 for x in ids) else list(ids)


def launch(cmd, np=1, cwd=None, timeout=60, merge=False, input=None, env=None):
    """Runs a program, on np ranks if np > 1.  Every run has a session directory
    of its own, and is repeated when the launcher (not the program) failed.
    Returns (rc or "timeout", stdout, stderr)."""
    if np > 1:
        cmd = ["mpirun", "-np", str(np), "--oversubscribe"] + list(cmd)
    for attempt in range(4):
        _launches[0] += 1
        tmp = "/tmp/nsm.%d.%d" % (os.getpid(), _launches[0])
        os.makedirs(tmp, exist_ok=True)
        e = dict(ENV)
        if env:
            e.update(env)
        e.update(TMPDIR=tmp)
        e.setdefault("MALLOC_PERTURB_", "1")     # memory that was not given a value does not look like zero
        try:
            p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE, start_new_session=True)
            try:
                out, err = p.communicate(input, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
                p.terminate()
                try:
                    out, err = p.communicate(timeout=5)
                except subprocess.TimeoutExpired:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    out, err = p.communicate()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        out, err = out.decode("utf-8", "replace"), (err or b"").decode("utf-8", "replace")
        if rc != 0 and _LAUNCHER.search(out + err) and attempt < 3:
            log("the launcher failed, trying again")
            time.sleep(0.5 * (attempt + 1))
            continue
        return rc, out, err


def run_probe(name, args=(), items=None, np=0, timeout=120, cwd=None, env=None):
    """Runs a probe. items (list) are written as JSON lines to its stdin file;
    returns list of JSON result lines (as dicts) and return code. A probe that
    dies midway is reported through rc; results so far are returned."""
    inp = None
    if items is not None:
        inp = ("\n".join(json.dumps(i) for i in items) + "\n").encode()
    rc, out, err = launch([probe_path(name)] + list(map(str, args)), np=np, cwd=cwd, timeout=timeout, input=inp, env=env)
    res = []
    for line in out.splitlines():
        if line.startswith("@@"):
            try:
                res.append(json.loads(line[2:]))
            except ValueError:
                pass
    return rc, res, err
