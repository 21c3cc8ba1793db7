"""The tensor kernel (spec/Tensor.tla): P31."""
import math
from fractions import Fraction
import nsm


def dbl(t):
    return [[x / t["d"] for x in row] for row in t["m"]]


def big(t):
    return max(max(abs(x) for x in row) for row in t["m"]) / t["d"]


def far(got, want, tol):
    """the first entry that is off, or None"""
    for i in range(3):
        for j in range(3):
            g = got[i][j]
            if g is None or not abs(g - want[i][j]) <= tol:
                return {"entry": [i, j], "expected": want[i][j], "got": g, "tolerance": tol}
    return None


def outer(Q, l):
    return [[sum(Q[i][k] * l[k] * Q[j][k] for k in range(3)) for j in range(3)] for i in range(3)]


def render(beh):
    ops = []
    for e in beh:
        o = {"op": e["op"], "args": e["args"], "to": e.get("to", 0)}
        if "full" in e:
            o["want"] = dbl(e["full"])
        if "sym" in e:
            o["want"] = dbl(e["sym"])
        if e["op"] in ("scale", "mulk"):
            o["args"] = [e["args"][0][0] / e["args"][0][1]] + e["args"][1:]
        if e["op"] == "polar":
            o["F"] = dbl(e["args"]["F"])
        if e["op"] == "logrot":
            o["R"] = rotation(e)[0] if e["args"]["sc"] else dbl(e["args"]["R"])
        if e["op"] == "solve":
            o["A"], o["b"] = e["args"]["A"], e["args"]["b"]
        ops.append(o)
    return ops


def rotation(e):
    """the matrix of the scaled quaternion, rounded, and the quaternion"""
    v, k = e["val"], e["args"]["sc"]
    q = [v["w"] << max(k, 0)] + [x << max(-k, 0) for x in v["v"]]
    w, x, y, z = q
    n = sum(a * a for a in q)
    m = [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
         [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
         [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]
    return [[float(Fraction(a, n)) for a in r] for r in m], q


def solve(A, b):
    """exact solution, for the size of the inverse"""
    n = len(A)
    M = [[Fraction(x) for x in A[i]] + [Fraction(x) for x in b[i]] for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c])
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                M[r] = [x - M[r][c] * y for x, y in zip(M[r], M[c])]
    return [row[n:] for row in M]


def judge(e, r, reg):
    op, a = e["op"], e["args"]
    if "t" in r:
        want = dbl(e.get("full") or e.get("sym"))
        if op == "inv":
            A = reg["F"][a[0]]
            m = big(A) or 1.0
            det = float(Fraction(a[1]["n"], a[1]["d"] ** 3))
            # a cofactor and the determinant lose digits to cancellation
            rel = 1e-14 * m ** 3 * 6 / det
            tol = max(abs(x) for row in want for x in row) * rel + 1e-14 * 2 * m * m / det
            for g in (r["t"], r["inv3x3"]):
                bad = far(g, want, tol)
                if bad:
                    return bad
            for g in r["det"]:
                if g is None or not abs(g - det) <= det * rel:
                    return {"determinant": g, "expected": det}
            return None
        scale = 1.0
        for x in a:
            if isinstance(x, int):
                scale *= max(1.0, max(big(reg["F"][x]) if x < 5 else 0, big(reg["S"][x]) if x < 4 else 0))
        if op in ("rot", "unrot", "square_tf", "square_ft"):
            scale *= scale
        if op in ("bch", "sbch"):
            scale = max(1.0, big((reg["S"] if op == "sbch" else reg["F"])[a[0]]), big(reg["F"][a[1]])) ** 4 * 100
        return far(r["t"], want, 1e-14 * 30 * scale)
    if op == "det":
        want = float(Fraction(e["val"]["n"], e["val"]["d"] ** 3))
        if r["val"] is None or not abs(r["val"] - want) <= 1e-14 * 6 * big(reg["F"][a[0]]) ** 3:
            return {"expected": want, "got": r["val"]}
    elif op in ("normf", "norms"):
        want = math.sqrt(e["val"]["n"]) / e["val"]["d"]
        if r["val"] is None or not abs(r["val"] - want) <= 1e-14 * want:
            return {"expected": want, "got": r["val"]}
    elif op == "cross":
        if r["val"] != [float(x) for x in e["val"]]:
            return {"expected": e["val"], "got": r["val"]}
    elif op == "sign":
        v = e["val"]
        want = [float(v["sign"]), float(v["min"]), float(v["ite"]), float(v["ite"]), float(v["itz"])]
        if r["val"] != want:
            return {"expected": want, "got": r["val"]}
    elif op == "polar":
        V, R, Q = dbl(e["val"]["V"]), dbl(e["val"]["R"]), dbl(a["Q"])
        l = [x / a["d"] for x in a["l"]]
        # eigenvectors of eigenvalues that differ by a ratio lose the square of it
        tol = POLAR
        for k, name in enumerate(("Polar_Decomp", "Polar_Left_LogV_Lame")):
            bad = far(r["V"][k], V, tol * max(l))
            if bad:
                return dict(bad, of=name, tensor="V")
            bad = far(r["R"][k], R, tol * max(l) / min(l))
            if bad:
                return dict(bad, of=name, tensor="R")
        bad = far(r["lv"], outer(Q, [math.log(x) for x in l]), tol * max(l) / min(l))
        if bad:
            return dict(bad, of="Polar_Left_LogV_Lame", tensor="log V")
    elif op == "logrot":
        q = rotation(e)[1]
        if q[0] < 0:                                          # the same rotation, and an angle of at most pi
            q = [-x for x in q]
        v = {"w": q[0], "v": q[1:], "n": sum(x * x for x in q)}
        n = math.sqrt(sum(x * x for x in v["v"]))
        got = r["log"]
        if n == 0:
            return far(got, [[0.0] * 3] * 3, 1e-7)
        w = v["w"] / math.sqrt(v["n"])
        # the angle is found from its cosine: close to half a turn that costs digits
        rest = 2 * math.atan2(abs(v["w"]), n)
        tol = max(1e-11, 1e-14 / rest ** 2) if rest > 0 else 1e-11
        ang = 2 * math.atan2(n, v["w"])
        if ang > math.pi:
            ang -= 2 * math.pi
        best = None
        for sg in ((1, -1) if v["w"] == 0 else (1,)):         # half a turn has two logarithms
            x = [sg * ang * c / n for c in v["v"]]
            bad = far(got, [[0, -x[2], x[1]], [x[2], 0, -x[0]], [-x[1], x[0], 0]], tol * min(1.0, abs(ang)))
            if not bad:
                return None
            best = best or bad
        return dict(best, axis=v["v"], half_angle_cosine=w)
    elif op == "solve":
        A, n = e["args"]["A"], len(e["args"]["A"])
        inv = solve(A, [[int(i == j) for j in range(n)] for i in range(n)])
        cond = max(sum(abs(x) for x in row) for row in inv) * max(sum(abs(x) for x in row) for row in A)
        for k, x in enumerate(e["val"]):
            for g in [r["x"][k]] + ([r["sys"]] if k == 0 else []):
                if any(y is None or not abs(y - z) <= 1e-14 * float(cond) * 10 * max(1, max(map(abs, x))) for y, z in zip(g, x)):
                    return {"expected": x, "got": g, "condition": float(cond)}
    return None


POLAR = 1e-9


def check_P31(chk):
    a = nsm.TLC("Tensor", "Tensor_sim.cfg", chk.work, simulate=150 if chk.tier == "quick" else 3000, depth=120, workers=4, timeout=1500)
    nsm.build(["probe_tensor"])
    a.expect_ok()
    chk.count(a)
    import json
    behs = [json.loads(x) for x in sorted({json.dumps(b) for b in a.emitted()})]
    items = [{"ops": render(b)} for b in behs]
    rc, out, err = nsm.run_probe("probe_tensor", items=items, timeout=900)
    by = {x["i"]: x for x in out}
    kinds = {}
    for i, b in enumerate(behs):
        chk.traces += 1
        g = by.get(i)
        if not g or "ops" not in g or len(g["ops"]) != len(b):
            chk.violation("tensor: no answer", {"operations": [e["op"] for e in b], "got": g})
            continue
        one = {"m": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "d": 1}
        reg = {"F": {k: one for k in range(1, 5)}, "S": {k: one for k in range(1, 4)}}
        for k, (e, r) in enumerate(zip(b, g["ops"])):
            kinds[e["op"]] = kinds.get(e["op"], 0) + 1
            bad = judge(e, r, reg)
            if "full" in e:
                reg["F"][e["to"]] = e["full"]
            if "sym" in e:
                reg["S"][e["to"]] = e["sym"]
            if not bad and "all" in r and r["all"] != [dbl(reg["F"][q]) for q in range(1, 5)] + [dbl(reg["S"][q]) for q in range(1, 4)]:
                bad = {"another register changed": r["all"]}
            if bad:
                chk.violation("tensor: " + e["op"], dict(bad, at=k, operation=e))
                break
        else:
            chk.sample({"operations": [e["op"] for e in b][:8]})
    chk.extra["operations"] = kinds
