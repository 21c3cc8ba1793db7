"""P04 / P05: the expression language (spec/Expr.tla)."""
import math, random, re
from fractions import Fraction
import nsm

PTS = [[2, 3, 5, 7], [-1, 0.5, 4, 0.25], [0, 0, 0, 0], [1.5, -2, -0.75, 3]]
FUNCS = set("sin cos tan erf exp log abs asin acos atan sqrt cbrt erfc ceil round floor log10".split())
REJ = {"t": ["sin", "(", "x", "+"], "ok": False, "p": []}
WORD = re.compile(r"[a-z0-9.]")


def render(toks, style, rnd):
    s = ""
    for i, t in enumerate(toks):
        if s and WORD.match(s[-1]) and WORD.match(t[0]):
            s += " "                      # adjacent words stay two tokens
        elif t == "(" and i and toks[i - 1] in FUNCS:
            pass                          # f( is written without a space
        elif s:
            s += {"none": "", "all": " ", "rnd": " " * rnd.choice([0, 0, 1, 2])}[style]
        s += t
    if style == "rnd" and rnd.random() < 0.3:
        s = " " + s + " "
    if style == "rnd" and rnd.random() < 0.3:
        s = s.upper()
    return s


class Delicate(Exception):
    pass


def num(t):
    return {"e": math.e, "pi": math.pi, "tau": 2 * math.pi}.get(t) if t in ("e", "pi", "tau") else float(t)


def cfun(name, a):
    try:
        if name == "abs":
            return abs(a)
        if name in ("floor", "ceil"):
            return a if math.isinf(a) or math.isnan(a) else float(getattr(math, name)(a))
        if name == "round":
            return a if math.isinf(a) or math.isnan(a) else math.copysign(math.floor(abs(a) + 0.5), a)
        if name in ("log", "log10"):
            if a == 0:
                return -math.inf
            return getattr(math, name)(a)
        return getattr(math, name)(a)
    except ValueError:
        return math.nan
    except OverflowError:
        return math.inf


def cpow(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return -math.inf if a < 0 and math.fmod(b, 2) != 0 else math.inf
    except ValueError:
        if a == 0 and b < 0:
            return math.inf if not (b == int(b) and int(b) % 2 and math.copysign(1, a) < 0) else -math.inf
        return math.nan


def evaluate(p, pt):
    """Postfix program -> (value, scale).  Raises Delicate when a discontinuous
    operation is applied to an inexact argument next to its discontinuity."""
    st = []
    env = dict(zip("xyzt", pt))
    for t in p:
        if t in env:
            st.append((float(env[t]), True))
        elif t.startswith("f:"):
            a, ex = st.pop()
            f = t[2:]
            if f in ("floor", "ceil", "round") and not ex and not math.isinf(a) and not math.isnan(a):
                d = a * 2
                if abs(d - round(d)) < 1e-7 * max(1, abs(a)):
                    raise Delicate()
            if f in ("tan", "exp", "log", "log10", "sqrt", "cbrt", "asin", "acos", "sin", "cos") and not ex:
                if abs(a) > 1e3 or (f in ("asin", "acos") and abs(abs(a) - 1) < 1e-7) \
                        or (f in ("sqrt", "log", "log10", "cbrt") and abs(a) < 1e-7):
                    raise Delicate()
            if f == "tan" and abs(math.cos(a) if abs(a) < 1e300 else 1) < 1e-4:
                raise Delicate()
            st.append((cfun(f, a), ex and f in ("floor", "ceil", "round", "abs")))
        elif t == "neg":
            a, ex = st.pop()
            st.append((-a, ex))
        elif t == "!":
            st.append(not st.pop())
        elif t in ("|", "&", "xor"):
            b, a = st.pop(), st.pop()
            st.append({"|": a or b, "&": a and b, "xor": a != b}[t])
        elif t in ("true", "false"):
            st.append(t == "true")
        elif t in (">", "<", ">=", "<=", "=="):
            (b, eb), (a, ea) = st.pop(), st.pop()
            if not (ea and eb) and abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)):
                raise Delicate()
            st.append({">": a > b, "<": a < b, ">=": a >= b, "<=": a <= b, "==": a == b}[t])
        elif t == "?:":
            c, b, a = st.pop(), st.pop(), st.pop()
            st.append(b if a else c)
        elif t in ("+", "-", "*", "/", "^", "%"):
            (b, eb), (a, ea) = st.pop(), st.pop()
            ex = ea and eb
            if t == "+":
                v = a + b
            elif t == "-":
                v = a - b
            elif t == "*":
                v = a * b
            elif t == "/":
                if b == 0:
                    if not eb:
                        raise Delicate()
                    v = math.nan if (a == 0 or math.isnan(a)) else math.copysign(math.inf, a) * math.copysign(1, b)
                    if a == 0 and not ea:
                        raise Delicate()
                else:
                    if abs(b) < 1e-9 and not eb:
                        raise Delicate()
                    v = a / b
                    ex = ex and not math.isinf(v) and not math.isnan(v) and not math.isinf(a) \
                        and Fraction(v) * Fraction(b) == Fraction(a)
            elif t == "^":
                if math.isnan(a) or math.isnan(b) or math.isinf(b):
                    pass
                elif not eb and abs(b - round(b)) < 1e-9 and a < 0:
                    raise Delicate()
                v = cpow(a, b)
                ex = ex and b == int(b) and 0 <= b <= 8 if not math.isinf(b) and not math.isnan(b) else False
            else:
                if math.isinf(a) or b == 0 or math.isnan(a) or math.isnan(b):
                    v = math.nan
                else:
                    v = math.fmod(a, b)
                    if not ex:
                        q = a / b
                        if abs(q - round(q)) < 1e-7 * max(1, abs(q)):
                            raise Delicate()
            if t in "+-" and not ex and v != 0 and abs(v) < 1e-6 * max(abs(a), abs(b)):
                raise Delicate()          # cancellation: relative comparison is meaningless
            if t in "+-" and not ex and v == 0 and a != 0:
                raise Delicate()
            if abs(v) > 1e12 or (v != 0 and abs(v) < 1e-12):
                ex = False
                if not math.isinf(v) and abs(v) > 1e200:
                    raise Delicate()
            st.append((v, ex))
        else:
            st.append((num(t), t not in ("e", "pi", "tau", "2e-1", "1e2", "3e+1") or t in ("1e2", "3e+1")))
    assert len(st) == 1
    return st[0][0]


def same(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-300


def in_range(b):
    """The numbers of the text are representable (others are unspecified)."""
    for t in b["t"] if "c" in b else ():
        if t[0] in "0123456789.":
            try:
                v = abs(float(t))
            except ValueError:
                continue
            if math.isinf(v) or (v < 1e-300 and float(re.split("e", t)[0]) != 0):
                return False
    return True


def behaviours(chk, valid):
    q = chk.tier == "quick"
    runs = [nsm.TLC("MCExpr", "Expr_%s.cfg" % c, chk.work, workers=2) for c in ("arith", "sign", "cond", "func", "tern")]
    c = "valid" if valid else "edit"
    runs.append(nsm.TLC("MCExpr", "Expr_%s.cfg" % c, chk.work, simulate=2500 if q else 40000, depth=400,
                        workers=2, timeout=240 if q else 1500))
    if valid:
        runs.append(nsm.TLC("MCExpr", "Expr_long.cfg", chk.work, simulate=20 if q else 400, depth=100, workers=2, timeout=240 if q else 1500))
    runs += [nsm.TLC("MCLex", "Lex_%s.cfg" % c, chk.work, workers=2, timeout=1500) for c in ("abc" if q else "abcd")]
    nsm.build(["probe_expr"])
    res = []
    for r in runs:
        r.expect_ok()
        chk.count(r)
        e = [b for b in r.emitted() if b["ok"] == valid and b["t"] and not b["u"] and in_range(b)]
        nsm.log(r.name, len(e), "sentences")
        res += e
    return res


def run_all(chk, beh, style, rnd):
    items = []
    for b in beh:
        s = render(b["t"], style, rnd) if "c" not in b else b["c"]
        it = {"e": s, "pts": PTS}
        if b["ok"] and rnd.random() < 0.3:
            o = rnd.choice(beh) if rnd.random() < 0.7 else REJ
            it["then"] = render(o["t"], style, rnd) if "c" not in o else o["c"]
            it["_then"] = o
        items.append(it)
    rc, out, err = nsm.run_probe("probe_expr", items=[{k: v for k, v in i.items() if k[0] != "_"} for i in items],
                                 timeout=600)
    if len(out) != len(items):
        raise nsm.ToolError("probe_expr returned %d of %d results (rc=%s) %s" % (len(out), len(items), rc, err[-500:]))
    byi = {r["i"]: r for r in out}
    return [(b, items[k], byi[k]) for k, b in enumerate(beh)]


def check_P04(chk):
    rnd = random.Random(nsm.SEED)
    beh = behaviours(chk, True)
    delicate = 0
    for style in ("none", "all", "rnd"):
        for b, it, r in run_all(chk, beh if style == "none" else [b for b in beh if "c" not in b], style, rnd):
            chk.traces += 1
            if "vals" not in r:
                chk.violation("well-formed expression is not evaluated: " + it["e"], {"expr": it["e"], "then": it.get("then"), "result": r, "program": b["p"]})
                continue
            exp = []
            for k, pt in enumerate(PTS):
                try:
                    v = evaluate(b["p"], pt)
                except Delicate:
                    delicate += 1
                    exp.append(None)
                    continue
                exp.append(v)
                for kind in ("vals", "copy", "assign", "again"):
                    if not same(v, float(r[kind][k])):
                        chk.violation("wrong value (%s): %s" % (kind, it["e"]),
                                      {"expr": it["e"], "point": pt, "expected": v, "got": r[kind][k], "program": b["p"]})
                        break
            if r["empty"] != "none":
                chk.violation("assignment of no expression: " + r["empty"], {"expr": it["e"]})
            if "then" in r:
                o = it["_then"]
                prog = o["p"] if o["ok"] else b["p"]
                if r["then"]["ok"] != o["ok"]:
                    chk.violation("reassignment accepted/rejected wrongly: " + it["then"], {"expr": it["then"], "got": r["then"]})
                else:
                    for k, pt in enumerate(PTS):
                        try:
                            v = evaluate(prog, pt)
                        except Delicate:
                            continue
                        if not same(v, float(r["then"]["vals"][k])):
                            chk.violation("wrong value after reassignment: " + it["then"],
                                          {"first": it["e"], "then": it["then"], "point": pt, "expected": v, "got": r["then"]["vals"][k]})
                            break
            if len(b["t"]) > 8:
                chk.sample({"expr": it["e"], "program": b["p"], "values": r["vals"]})
    chk.extra["delicate_points_skipped"] = delicate


def check_P05(chk):
    rnd = random.Random(nsm.SEED)
    beh = behaviours(chk, False)
    for style in ("none", "all", "rnd"):
        for b, it, r in run_all(chk, beh if style == "none" else [b for b in beh if "c" not in b], style, rnd):
            chk.traces += 1
            if r.get("reject") != "invalid_argument":
                chk.violation("malformed expression not rejected: " + it["e"], {"expr": it["e"], "result": r})
            elif b["m"]:
                chk.sample({"expr": it["e"], "result": r})
