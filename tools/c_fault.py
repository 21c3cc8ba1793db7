"""P28: how runs end (spec/Run.tla)."""
import json, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import exo, nsm
from c_run import fname

GOOD = ["genesis input file: m.g", "exodus output file: m.e", "time integration scheme: explicit", "initial time: 0.0",
        "final time: 1.0e-3", "number of load steps: 4", "output frequency: 2", "output fields: displacement velocity stress",
        "material parameters: steel neohookean density 7.8 bulk_modulus 1.6e3 shear_modulus 0.8e3",
        "material parameters: foam elastic density 1 bulk_modulus 2 shear_modulus 1",
        "element block: block_1 steel", "element block: block_2 foam",
        "boundary condition: initial_velocity nodelist_1 x 1.0", 'boundary condition: prescribed_displacement nodelist_2 y "0.1*t"']
BC = "boundary condition: "
CT = "contact: primary_blocks "
VIS = "contact visualization: visualize_contact_entities on visualize_bounding_boxes off file_name %s"


def put(d, start, *lines):
    """Replaces the lines that start so."""
    i = [k for k, l in enumerate(d) if l.startswith(start)]
    for k in reversed(i):
        del d[k]
    d[(i or [len(d)])[0]:(i or [len(d)])[0]] = lines


def deck_of(whats, rnd):
    d = list(GOOD)
    def add(x):
        d.insert(rnd.randrange(len(d) + 1), x)
    for w in whats:
        pick = rnd.choice
        if w == "unknown setting": add(pick(["foo: 1", "Final time: 1", "final times: 2"]))
        elif w == "line without colon": add(pick(["output fields displacement", "hello", "final time = 1"]))
        elif w == "no value": add(pick(["final time:", "output fields: # displacement", "genesis input file :"]))
        elif w == "bad switch": add(pick(["use two level mesh decomposition: 2", "write timing data file: maybe"]))
        elif w == "bad number": add(pick(["final time: fast", "final time: nan", "final time: inf", "initial time: -1e999", "number of load steps: 4.5", "output frequency: two"]))
        elif w == "block line without material": add("element block: block_1")
        elif w == "bad contact visualization": add("contact visualization: visualize_contact_entities on")
        elif w == "contact without secondary blocks": add(pick([CT + "block_1 block_2 penalty_parameter 5", CT + "block_1", "contact: secondary_blocks block_2 penalty_parameter 5"]))
        elif w == "contact without penalty": add(CT + "block_1 secondary_blocks block_2" + pick(["", " 5"]))
        elif w == "contact penalty without value": add(CT + "block_1 secondary_blocks block_2 penalty_parameter")
        elif w == "contact penalty is no number": add(CT + "block_1 secondary_blocks block_2 penalty_parameter " + pick(["five", "5x", "1e3e", "5 6"]))
        elif w == "contact penalty is not positive": add(CT + "block_1 secondary_blocks block_2 penalty_parameter " + pick(["0", "-1.0e3"]))
        elif w == "contact": add(CT + pick(["block_1 secondary_blocks block_2 penalty_parameter 5", "block_2 block_1 secondary_blocks block_1 block_2 penalty_parameter 1.0e6"]))
        elif w == "contact of absent blocks": add(CT + "block_7 secondary_blocks block_2 penalty_parameter 5")
        elif w == "contact visualization without contact": add(VIS % "cv.e")
        elif w in ("contact visualization", "no contact visualization directory"):
            add(CT + "block_1 secondary_blocks block_2 penalty_parameter 5")
            add(VIS % ("cv.e" if w == "contact visualization" else "no/such/dir/cv.e"))
        elif w == "no mesh setting": put(d, "genesis")
        elif w == "unknown material model": put(d, "material parameters: steel", "material parameters: steel plastic density 7.8 bulk_modulus 1.6e3 shear_modulus 0.8e3")
        elif w == "material not defined": put(d, "material parameters: steel", "material parameters: stee neohookean density 7.8 bulk_modulus 1.6e3 shear_modulus 0.8e3")
        elif w == "block without material": put(d, "element block: block_1")
        elif w == "unknown material key": put(d, "material parameters: steel", "material parameters: steel neohookean density 7.8 bulk_modulus 1.6e3 shear_modulus 0.8e3 yield_stress 1")
        elif w == "missing material parameter":
            ps = ["density 7.8", "bulk_modulus 1.6e3", "shear_modulus 0.8e3"]
            del ps[rnd.randrange(3)]
            put(d, "material parameters: steel", "material parameters: steel %s %s" % (pick(["neohookean", "elastic"]), " ".join(ps)))
        elif w == "material number is no number": put(d, "material parameters: steel", "material parameters: steel neohookean density dense bulk_modulus 1.6e3 shear_modulus 0.8e3")
        elif w == "material key without value": put(d, "material parameters: steel", "material parameters: steel neohookean density 7.8 bulk_modulus 1.6e3 shear_modulus")
        elif w == "no output fields": put(d, "output fields")
        elif w == "no output directory": put(d, "exodus", "exodus output file: no/such/dir/m.e")
        elif w == "bad time scheme": put(d, "time integration", "time integration scheme: " + pick(["implicit", "Explicit", "explicit x"]))
        elif w == "bad condition type": add(BC + pick(["prescribed_force", "fixed", "Prescribed_velocity"]) + " nodelist_1 x 0.0")
        elif w == "bad direction": add(BC + "prescribed_velocity nodelist_1 %s 0.0" % pick(["w", "xy", "1", "q"]))
        elif w == "condition without magnitude": add(BC + "prescribed_velocity nodelist_1 x")
        elif w == "magnitude is no number": add(BC + "prescribed_velocity nodelist_1 x " + pick(["fast", "zero", "-"]))
        elif w == "malformed expression": add(BC + 'prescribed_velocity nodelist_1 x "%s"' % pick(["2*", "(t", "t+*2", "sin("]))
        elif w == "unknown symbol in expression": add(BC + 'initial_velocity nodelist_1 x "%s"' % pick(["q+1", "2*foo", "sim(t)"]))
        elif w == "unbalanced quotes": add(BC + 'prescribed_velocity nodelist_1 x "t*2')
        elif w == "condition too short": add(BC + pick(["prescribed_velocity nodelist_1", "prescribed_velocity", "initial_velocity nodelist_2"]))
        elif w == "final before initial": put(d, "initial time", "initial time: 2.0")
        elif w == "condition on unknown set": add(BC + "prescribed_velocity nodelist_77 x 0.0")
        elif w == "line for absent block": add("element block: block_9 steel")
        elif w == "unknown output field": put(d, "output fields", "output fields: displacement temperature velocity stress foo_bar")
        elif w == "material never used": add("material parameters: wood elastic density 1 bulk_modulus 1 shear_modulus 1")
        elif w == "repeated setting": add("output frequency: 2")
        elif w == "empty condition set": add(BC + "prescribed_velocity nodelist_3 x 0.0")
        elif w == "zero steps of output": put(d, "output frequency", "output frequency: 0")
    return "\n".join(d) + "\n"


def mesh(np, rank):
    """np bricks in a row, brick i on rank i; rank None: all of them."""
    cells = list(range(np)) if rank is None else [rank]
    pts = sorted({4 * (c + dx) + 2 * j + k for c in cells for dx in (0, 1) for j in (0, 1) for k in (0, 1)})
    loc = {p: i for i, p in enumerate(pts)}
    co = [[float(p // 4), float(p // 2 % 2), float(p % 2)] for p in pts]
    def conn(c):
        q = lambda i, j, k: loc[4 * (c + i) + 2 * j + k]
        return [q(0, 0, 0), q(1, 0, 0), q(1, 1, 0), q(0, 1, 0), q(0, 0, 1), q(1, 0, 1), q(1, 1, 1), q(0, 1, 1)]
    blocks = [{"id": 1, "name": "block_1", "conn": [conn(c) for c in cells if c == 0]},
              {"id": 2, "name": "block_2", "conn": [conn(c) for c in cells if c > 0]}]
    sets = [{"id": 1, "name": "", "nodes": [loc[p] for p in pts if p < 4], "ndf": 0},
            {"id": 2, "name": "", "nodes": [loc[p] for p in pts if p // 4 == np], "ndf": 0},
            {"id": 3, "name": "", "nodes": [], "ndf": 0}]
    return {"coords": co, "node_ids": [p + 1 for p in pts], "elem_ids": [c + 1 for b in (0, 1) for c in cells if (c > 0) == b],
            "blocks": blocks, "nodesets": sets}


def execute(b, d, rnd):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    np = b["np"]
    whats = [f["what"] for f in b["faults"]] + list(b["odd"])
    for r in range(np):
        fn = os.path.join(d, fname("m.g", np, r))
        bad = [f["what"] for f in b["faults"] if f["rank"] == r + 1]
        if "mesh missing" in bad:
            continue
        exo.write(fn, mesh(np, None if np == 1 else r))
        if bad:
            data = open(fn, "rb").read()
            with open(fn, "wb") as f:
                f.write({"mesh is text": b"this is no mesh\n" * 40, "mesh is empty": b"", "mesh truncated": data[:len(data) // 2]}[bad[0]])
    with open(os.path.join(d, "m.in"), "w") as f:
        f.write(deck_of(whats, rnd))
    args = ["--use_tpetra"] if b["tpetra"] else []
    if "no arguments" in whats:
        pass
    elif "no such deck" in whats:
        args.append("other.in")
    elif "deck is a directory" in whats:
        args.append(".")
    else:
        args.insert(rnd.randrange(len(args) + 1), "m.in")
    cmd = [nsm.exe_path()] + args
    rc, out, err = nsm.launch(cmd, np=np, cwd=d, timeout=60)
    steps = []
    for r in range(np):
        fn = os.path.join(d, fname("m.out.e", np, r))
        try:
            steps.append(len(exo.read(fn)["times"]) if os.path.exists(fn) else None)
        except exo.ExoError:
            steps.append(None)
    return rc, out, err, steps


def check_P28(chk):
    rnd = random.Random(nsm.SEED)
    q = chk.tier == "quick"
    runs = [nsm.TLC("Run", "Run_one.cfg", chk.work, workers=4, timeout=300),
            nsm.TLC("Run", "Run_two.cfg", chk.work, workers=4, simulate=40 if q else 600, depth=400, timeout=300)]
    nsm.build([], exe=True)
    one, two = [sorted(r.expect_ok().emitted(), key=lambda b: json.dumps(b, sort_keys=True)) for r in runs]
    for r in runs:
        chk.count(r)
    one = [b for b in one if not (b["faults"] and b["odd"])]
    two = [b for b in two if len(b["faults"]) == 2 and len({f["stage"] for f in b["faults"]}) == 2]
    if q:
        # every fault and oddity alone; parallel ones thinned
        groups = {}
        for b in one:
            groups.setdefault((json.dumps(b["faults"]), json.dumps(b["odd"])), []).append(b)
        sel = []
        for k, g in sorted(groups.items()):
            s = [b for b in g if b["np"] == 1]
            p = [b for b in g if b["np"] > 1]
            sel += s + rnd.sample(p, min(2, len(p)))
        one, two = sel, rnd.sample(two, min(len(two), 12))
    nsm.log(len(one), "runs with at most one fault,", len(two), "with two")
    jobs = [(i, b, random.Random(rnd.randrange(1 << 30))) for i, b in enumerate(one + two)]

    def go(j):
        i, b, r = j
        d = os.path.join(chk.work, "run%d" % i)
        return b, d, execute(b, d, r)

    with ThreadPoolExecutor(5) as ex:
        for b, d, (rc, out, err, steps) in ex.map(go, jobs):
            chk.traces += 1
            want = 1 if "zero steps of output" in b["odd"] else 4
            bad = None
            if b["status"] == "zero":
                if rc != 0:
                    bad = "valid run ends with status %s" % rc
                elif steps != [want] * b["np"]:
                    bad = "valid run without its results"
            elif rc == 0:
                bad = "faulty run ends with status zero"
            elif rc == "timeout":
                bad = "faulty run does not end"
            elif not (err.strip() or "rror" in out):
                bad = "faulty run ends without a message"
            if bad:
                chk.violation("%s: %s" % (bad, ", ".join(f["what"] for f in b["faults"]) or ", ".join(b["odd"]) or "plain"),
                              {"run": b, "dir": d, "stdout": out[-600:], "stderr": err[-600:], "outputs": steps,
                               "deck": open(os.path.join(d, "m.in")).read()})
            else:
                chk.sample({"run": b, "status": rc, "outputs": steps, "message": err[-200:]})
                shutil.rmtree(d, ignore_errors=True)
