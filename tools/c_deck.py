"""P01-P03, P15: decks, file names, materials (spec/Deck.tla, Names.tla, Mat.tla)."""
import json, os, random, re, shutil
import nsm

LONG = {"text": "w" * 3000, "expr": "x" + "+x" * 2500}


def long_word(line, rnd):
    n = rnd.choice([230, 255, 256, 1000, 1023, 1024, 4096, 5000])
    bc = any(p.startswith(("prescribed_", "initial_")) for p in line)
    return ("x" + "+x" * (n // 2)) if bc else "w" * n


def render(lines, rnd, last_newline=True):
    """Text of a deck, and the words that stand for LONG (a fresh one per line)."""
    out, words = [], []
    for l in lines:
        w = long_word(l, rnd)
        words.append(w)
        out.append("".join(l).replace("LONG", w))
    t = "\n".join(out)
    return t + ("\n" if last_newline and out else ""), words


def expected(deck, lines, words):
    """What the accessors must say.  A LONG value stands for the long word of
    the line that defined it, i.e. the last line of that key (or, for boundary
    conditions, the line with the same position)."""
    def word_of(key, nth=None):
        hits = [w for l, w in zip(lines, words) if "".join(l).split("#")[0].split(":")[0].strip(" \t") == key]
        return hits[-1] if nth is None else hits[nth]

    def sub(key, v, nth=None):
        return v.replace("LONG", word_of(key, nth)) if "LONG" in v else v

    s = {k: sub(k, v) for k, v in deck["set"].items()}
    e = {k: s[k] for k in ("genesis input file", "exodus output file", "contact")}
    for k in ("use two level mesh decomposition", "write timing data file"):
        e[k] = s[k] == "on"
    for k in ("nonlinear solver relative tolerance", "initial time", "final time"):
        e[k] = float(s[k])
    for k in ("nonlinear solver maximum iterations", "number of load steps", "output frequency"):
        e[k] = int(s[k])
    e["has contact"] = s["contact"] != ""
    e["vis"] = [deck["vis"][0] or deck["vis"][1], deck["vis"][2]]
    e["time integration scheme"] = s["time integration scheme"] if s["time integration scheme"] in ("explicit", "quasistatic") else None
    e["output fields"] = s["output fields"] or None
    e["bcs"] = [sub("boundary condition", b, i) for i, b in enumerate(deck["bcs"])]
    mats = {m["k"]: m["v"] for m in deck["mats"]}
    e["blocks"] = {str(i): ["none"] for i in (1, 2, 3, 7, 10)}
    for b in deck["blocks"]:
        e["blocks"][str(b["k"])] = mats.get(b["v"])
    return e


def difference(e, r):
    if "reject" in r or "died" in r or "exception" in r:
        return "deck not read", r
    for k, v in e.items():
        g = r.get(k)
        if k in ("nonlinear solver relative tolerance", "initial time", "final time"):
            g = float(g)
            if abs(g - v) > 1e-15 * abs(v):
                return k, {"expected": v, "got": g}
        elif k == "blocks":
            g = {i: (x.split() if x is not None else None) for i, x in g.items()}
            if g != v:
                return "material of an element block", {"expected": v, "got": g}
        elif g != v:
            return k, {"expected": v, "got": g}
    return None


def tlc(chk, specs):
    """specs: (module, cfg, nquick|None, nthorough)"""
    q = chk.tier == "quick"
    runs = []
    for mod, cfg, nq, nt in specs:
        n = nq if q else nt
        runs.append(nsm.TLC(mod, cfg + ".cfg", chk.work, simulate=n, depth=None if n is None else 400, workers=4,
                            timeout=300 if q else 2400))
    nsm.build(["probe_deck"])
    res = []
    for r in runs:
        r.expect_ok()
        chk.count(r)
        e = r.emitted()
        e.sort(key=lambda b: json.dumps(b, sort_keys=True))
        nsm.log(r.name, len(e), "behaviours")
        res.append(e)
    return res


def probe(chk, items, limit=600):
    d = os.path.join(chk.work, "decks")
    os.makedirs(d, exist_ok=True)
    for i, it in enumerate(items):
        if it["kind"] == "deck" and "path" not in it:
            it["path"] = os.path.join(d, "d.in")
    rc, out, err = nsm.run_probe("probe_deck", items=items, timeout=limit, cwd=d)
    if len(out) != len(items):
        raise nsm.ToolError("probe_deck returned %d of %d results (rc=%s) %s" % (len(out), len(items), rc, err[-500:]))
    byi = {r["i"]: r for r in out}
    return [byi[i] for i in range(len(items))]


def brief(t):
    return re.sub(r"w{50,}", lambda m: "<%d w>" % len(m.group()), re.sub(r"(\+x){20,}", lambda m: "<%d +x>" % (len(m.group()) // 2), t))


def check_P01(chk):
    rnd = random.Random(nsm.SEED)
    noise, clean, pieces = tlc(chk, [("MCDeck", "Deck_noise", 400, 8000), ("MCDeck", "Deck_clean", 200, 3000),
                                     ("MCDeck", "Deck_pieces", None, None)])
    behs = noise + clean + [b for b in pieces if not b["deck"]["err"]]
    items, exp = [], []
    for b in behs:
        t, words = render(b["lines"], rnd, rnd.random() < 0.7)
        items.append({"kind": "deck", "text": t})
        exp.append(expected(b["deck"], b["lines"], words))
    # an empty deck is a deck
    items.append({"kind": "deck", "text": ""})
    exp.append(expected(clean_default(behs), [], []))
    for it, e, r in zip(items, exp, probe(chk, items)):
        chk.traces += 1
        d = difference(e, r)
        if d:
            chk.violation("deck read wrongly: " + d[0], {"deck": brief(it["text"]), "difference": d[1]})
        else:
            chk.sample({"deck": brief(it["text"])[:400]})


def clean_default(behs):
    return {"set": {"genesis input file": "none", "exodus output file": "none", "time integration scheme": "explicit", "contact": "",
                    "contact backend": "", "output fields": "", "nonlinear solver relative tolerance": "1.0e-6", "initial time": "0",
                    "final time": "0", "nonlinear solver maximum iterations": "200", "number of load steps": "0", "output frequency": "1",
                    "use two level mesh decomposition": "off", "write timing data file": "off"},
            "mats": [], "blocks": [], "bcs": [], "vis": [False, False, "none"]}


def check_P02(chk):
    rnd = random.Random(nsm.SEED)
    bad, pieces, keys = tlc(chk, [("MCDeck", "Deck_bad", 600, 10000), ("MCDeck", "Deck_pieces", None, None), ("MCDeck", "Deck_keys", None, None)])
    items = []
    for b in bad + keys + [b for b in pieces if b["deck"]["err"]]:
        t, _ = render(b["lines"], rnd, rnd.random() < 0.7)
        items.append({"kind": "deck", "text": t})
    d = os.path.join(chk.work, "decks")
    os.makedirs(os.path.join(d, "directory"), exist_ok=True)
    for p in ("missing.in", "missing/deck.in", "directory", ""):
        items.append({"kind": "deck", "path": os.path.join(d, p) if p else ""})
    for it, r in zip(items, probe(chk, items)):
        chk.traces += 1
        what = None
        if "died" in r:
            what = "reading a malformed deck ends with " + r["died"]
        elif "reject" not in r:
            what = "malformed deck accepted"
        if what:
            chk.violation(what, {"deck": brief(it.get("text", it.get("path"))), "read": r})
        else:
            chk.sample({"deck": brief(it.get("text", it.get("path")))[:400], "rejected": r["reject"][:120]})


def check_P03(chk):
    rnd = random.Random(nsm.SEED)
    names, = tlc(chk, [("Names", "Names", None, None)])
    items = [dict(kind="name", **{k: b[k] for k in ("base", "ext", "label", "r", "n")}) for b in names]
    for b, r in zip(names, probe(chk, items)):
        chk.traces += 1
        if r.get("name") != b["name"]:
            chk.violation("file name", {"ask": b, "got": r})
        else:
            chk.sample(b)


def check_P15(chk):
    rnd = random.Random(nsm.SEED)
    mats, clean, noise = tlc(chk, [("Mat", "Mat", None, None), ("MCDeck", "Deck_clean", 300, 3000), ("MCDeck", "Deck_noise", 200, 3000)])
    items = []
    for b in mats:
        sp = lambda: " " * rnd.choice([1, 1, 1, 2, 5])
        t = b["t"][0] + "".join(sp() + w for w in b["t"][1:])
        if rnd.random() < 0.3:
            t = sp() + t + sp()
        items.append({"kind": "material", "text": t, "npts": rnd.choice([0, 0, 1, 8])})
    for b, it, r in zip(mats, items, probe(chk, items)):
        chk.traces += 1
        if "died" in r:
            # the reader stops the program on a definition without parameters
            if b["m"]["ok"] or r["died"] == "timeout" or r["died"] == "signal 11":
                chk.violation("reading a material ends with " + r["died"], {"material": it["text"], "fault": b["fault"]})
            continue
        for f in ("host", "kokkos"):
            g = r[f]
            if not b["m"]["ok"]:
                if "reject" not in g:
                    chk.violation("invalid material accepted: " + b["fault"], {"material": it["text"], "factory": f, "got": g})
            elif "reject" in g or g["model"] != b["m"]["model"] or any(float(g[k]) != float(v) for k, v in b["m"]["par"].items()) \
                    or {k: float(v) for k, v in g["map"].items()} != {k: float(v) for k, v in b["m"]["par"].items()}:
                chk.violation("material misread", {"material": it["text"], "factory": f, "expected": b["m"], "got": g})
        chk.sample({"material": it["text"], "fault": b["fault"], "result": r["host"]})
    # element blocks get the material their line names
    behs = [b for b in clean + noise if b["deck"]["blocks"]]
    items, exp = [], []
    for b in behs:
        t, words = render(b["lines"], rnd)
        items.append({"kind": "deck", "text": t})
        exp.append(expected(b["deck"], b["lines"], words)["blocks"])
    for it, e, r in zip(items, exp, probe(chk, items)):
        chk.traces += 1
        d = difference({"blocks": e}, r)
        if d:
            chk.violation(d[0], {"deck": brief(it["text"]), "difference": d[1]})
    # and through the program: blocks in random order with different materials
    import c_run
    a, = c_run.tlc_runs(chk, [("mix", 10, 300)])
    c_run.drive(chk, a, rnd, ["internal_force", "lumped_mass"], aspects=("nodal",), label="materials")
