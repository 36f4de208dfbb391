import itertools, json, math, os
from vlib import *
import gen

GRID = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "10", "12", "0.5", "0.25", "1.5", "2.5", "3.75", "16", "100", "0.125", "9", "1024", "17", "inf", "nan"]
FN1 = gen.FN1


def nine(s):
    v = float(s)
    if math.isnan(v):
        return 2, 0, 0
    if math.isinf(v):
        return (1 if v > 0 else -1), 0, 0
    if v == 0:
        return 0, 0, 0
    m, e = ("%.8e" % v).split("e")
    return 0, int(m.replace(".", "")), int(e)


def tracked(v):
    """the exact form of a dyadic number given as a float"""
    if math.isnan(v):
        return [2, 0]
    if math.isinf(v):
        return [1 if v > 0 else -1, 0]
    if v == 0:
        return [0, -1 if math.copysign(1, v) < 0 else 1]
    d = 1
    while d <= 1024:
        if v * d == int(v * d) and abs(v * d) < 2 ** 30:
            return [int(v * d), d]
        d *= 2
    return [0, 0]


def closed(rng, depth, nums):
    def go(d):
        k = rng.random()
        if d <= 0 or k < 0.1:
            return rng.choice(nums) if rng.random() < 0.9 else rng.choice(["ans", "@0", "@1", "@2", "clight"])
        if k < 0.45:
            return "(%s)%s(%s)" % (go(d - 1), rng.choice(["+", "-", "*", "/", "^", " C ", " mod ", "+", "*", ""]), go(d - 1))
        if k < 0.55:
            return "(%s(%s))" % (rng.choice(["-", "+", "$", "@", "-"]), go(d - 1))
        if k < 0.62:
            return "(%s)%s" % (go(d - 1), rng.choice("!%"))
        if k < 0.8:
            return "%s(%s)" % (rng.choice(["sqrt", "abs", "ceil", "floor", "round", "trunc", "frac", "sgn", "fib", "ld", "exp", "sin"]), go(d - 1))
        if k < 0.9:
            return "%s(%s,%s)" % (rng.choice(["gcd", "lcm", "root", "gcd"]), go(d - 1), go(d - 1))
        f = rng.choice(["max", "min", "sum", "prod", "avg", "var"])
        return "%s(%s)" % (f, ",".join(go(d - 1) for _ in range(rng.randint(0 if f != "var" else 1, 4))))
    return go(depth)


def P12(c):
    rng = c.rng
    neg = ["(-%s)" % g for g in GRID]
    grid = GRID + neg
    items = []      # (kind, text, hist, extra)
    for o in ["-", "+", "$", "@"]:
        items += [("exact", "%s%s" % (o, a), ["3", "-2.5", "7"]) for a in grid]
    for o in "!%":
        items += [("exact", "%s%s" % (a, o), []) for a in grid]
    for f in FN1:
        items += [("exact", "%s(%s)" % (f, a), []) for a in grid]
    # points at which results are exact: powers of two and ten
    for k in range(-10, 30):
        items += [("exact", "%s(2^%d)" % (f, k), []) for f in ["ld", "sqrt", "floor", "frac", "abs", "round"]]
        items += [("exact", "ceil(ld(2^%d))" % k, []), ("exact", "2^(%d)" % k, []), ("exact", "root(2^%d,2)" % k, [])]
    for k in range(0, 9):
        items += [("exact", t % k, []) for t in ["lg(10^%d)", "10^%d", "ceil(lg(10^%d))", "floor(lg(10^%d))"]]
    for k in range(0, 150, 1):
        items += [("exact", "sqrt(%d)" % (k * k), []), ("exact", "%d C %d" % (k, k // 3), []), ("exact", "fib(%d)" % k, []), ("exact", "%d!" % k, []), ("exact", "%d mod 7" % k, []), ("exact", "-%d mod 6" % k, []), ("exact", "lcm(%d,12)" % k, []), ("exact", "gcd(%d,-84)" % k, [])]
    bi = [(a, b) for a in grid for b in grid]
    for o in ["%s+%s", "%s-%s", "%s*%s", "%s/%s", "%s^%s", "%s C %s", "%s mod %s", "root(%s,%s)", "log(%s,%s)", "gcd(%s,%s)", "lcm(%s,%s)", "max(%s,%s)", "min(%s,%s)"]:
        ps = bi if THOROUGH or o[2] in "/^ " or o[0] in "gl" else rng.sample(bi, 300)
        items += [("exact", o % p, []) for p in ps]
    for f in gen.FNV:
        for n in range(1 if f == "var" else 0, 5):
            items += [("exact", "%s(%s)" % (f, ",".join(rng.choice(grid[:19] + neg[:19]) for _ in range(n))), []) for _ in range(60)]
    for f in gen.FNV:       # very many operands
        for n in [8, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 200]:
            small = ["1", "(-1)", "1", "1"] if f == "prod" else ["1", "2", "3", "5", "0.5", "(-4)"]
            if f != "var" or n in (8, 16, 32, 64, 128):
                items.append(("exact", "%s(%s)" % (f, ",".join([rng.choice(small) for _ in range(n - 1)] + ["7"])), []))
    nums = [g for g in GRID if g not in ("inf", "nan", "1024", "100")]
    for _ in range(40000 if THOROUGH else 4000):
        items.append(("exact", closed(rng, rng.choice([1, 2, 2, 3]), nums), [rng.choice(["1", "-3", "0.5", "12", "2"]) for _ in range(rng.randint(0, 4))]))
    refs = [json.loads(l) for l in open(os.path.join(SPEC, "reference.ndjson"))]
    qs = [("eval", t) + tuple(h) for _, t, h in items]
    kinds = [("exact", None)] * len(qs)
    for n, r in enumerate(refs):
        qs.append(("eval", r["t"]))
        kinds.append(("ref", n + 1))
    for _ in range(3000 if THOROUGH else 600):
        a, b = rng.choice(grid[:22] + neg[:22]), rng.choice(grid[:22] + neg[:22])
        qs.append(("eval", "rand(%s,%s)" % (a, b)))
        kinds.append(("rand", (a, b)))
    kind_of = {}
    for q, k in zip(qs, kinds):
        kind_of.setdefault(q, k)
    val = lambda t: -float(t[2:-1]) if t.startswith("(-") else float(t)

    def rec(q, a):
        k, x = kind_of[q]
        if "perr" in a:
            raise Tool("test expression does not parse: %r" % (q,))
        if k == "exact":
            return {"kind": k, "text": q[1], "hist": [tracked(float(h)) for h in q[2:]], "err": a["err"], "v": a.get("v", [0, 0])}
        if k == "ref":
            kk, m, e = nine(a.get("s", "nan"))
            return {"kind": k, "text": q[1], "n": x, "err": a["err"], "k": kk, "m": m, "x": e}
        return {"kind": k, "text": q[1], "a": tracked(val(x[0])), "b": tracked(val(x[1])), "err": a["err"], "v": a.get("v", [0, 0])}
    env = {"REFERENCE": os.path.join(SPEC, "reference.ndjson")}
    ans = ask(qs)
    c.conform("TraceEval", qs, ans, rec, env=env)
    compose(c, env, 4000 if THOROUGH else 700)


def compose(c, env, n):
    """value of op(a, b) = op applied to the printed values of a and b"""
    rng = c.rng
    nums = ["0.1", "0.7", "1.3", "2.9", "3", "0.333", "5.17"]
    fs = [f for f in FN1] + ["-"]
    # equal texts of parts must give equal values
    ts, second = [], []
    for _ in range(n):
        a, b = (closed2(rng, rng.randint(1, 3), nums) for _ in range(2))
        o = rng.choice(["(%s)+(%s)", "(%s)-(%s)", "(%s)*(%s)", "(%s)/(%s)", "(%s)^(%s)", "root((%s),(%s))", "log((%s),(%s))", "sum(1,(%s),(%s))", "max((%s),(%s))", "(%s) mod (%s)", "f"])
        if o == "f":
            o = rng.choice(fs) + "((%s))"
            ts.append((o, (a,)))
        else:
            ts.append((o, (a, b)))
    flat = sorted({p for _, ps in ts for p in ps})
    r1 = dict(zip(flat, ask([("eval", p) for p in flat])))
    if any("crash" in r for r in r1.values()):
        return
    use = [(o, ps) for o, ps in ts if all(r1[p].get("err") == 0 for p in ps)]
    whole = ask([("eval", o % ps) for o, ps in use])
    lit = lambda s: ("(-%s)" % fixed(s[1:]) if s.startswith("-") else fixed(s)) if "n" not in s else (s if s[0] != "-" else "(-%s)" % s[1:])

    def fixed(s):
        from decimal import Decimal
        return format(Decimal(s), "f")
    qs = [("eval", o % tuple(lit(r1[p]["s"]) for p in ps)) for o, ps in use]
    parts = ask(qs)
    recs = []
    for (o, ps), w, p in zip(use, whole, parts):
        if "crash" in w or "crash" in p:
            continue
        norm = lambda r: {"err": r.get("err", -1), "s": r.get("s", "").replace("-nan", "nan")}
        recs.append({"kind": "comp", "text": o % ps, "whole": norm(w), "parts": norm(p)})
    bad, r = validate("TraceEval", recs, env=env)
    c.count(r)
    c.traces += len(recs)
    for k, v in bad.items():
        c.fail("TraceEval: " + v, {"request": ["eval", recs[k]["text"]], "recorded": recs[k]})


def closed2(rng, d, nums):
    if d == 0:
        return rng.choice(nums)
    k = rng.random()
    if k < 0.6:
        return "(%s)%s(%s)" % (closed2(rng, d - 1, nums), rng.choice("+-*/"), closed2(rng, d - 1, nums))
    return "%s(%s)" % (rng.choice(["sin", "exp", "sqrt", "atan", "ln", "abs"]), closed2(rng, d - 1, nums))
