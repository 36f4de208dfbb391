import json, os, re
from vlib import *
import gen
from c_eval import nine

ANSI = re.compile("\x1b\\[[0-9;]*m")

SHIPPED = os.path.join(REPO, "simplification.ruleset")
F1 = ["sin", "cos", "tan", "ln", "exp", "sqrt", "abs", "atan", "asin", "acos", "sinh", "cosh", "tanh", "lg", "ld"]
NUMS = ["0", "1", "2", "3", "4", "5", "7", "0.5", "0.25", "1.5", "10"]
FINE = ["0.0009765625", "0.00000095367431640625", "1.00000095367431640625", "0.3333333", "12345.678", "0.000244140625", "2.000030517578125"]


def expr(rng, d, vs, fns=F1, rich=True):
    def go(d):
        k = rng.random()
        if d <= 0 or k < 0.1:
            return rng.choice(vs) if rng.random() < 0.65 else rng.choice(NUMS if rng.random() < 0.95 else FINE)
        if k < 0.62:
            o = rng.choice(["+", "-", "*", "/", "+", "-", "*", ""] if rich else ["+", "-", "*"])
            return "(%s)%s(%s)" % (go(d - 1), o, go(d - 1))
        if k < 0.74:
            e = rng.choice(["2", "3", "0", "1", "-1", "-2", "2", "4", "0.5", "1.5", "y"] if rich else ["2", "3", "0", "1"])
            return "(%s)^(%s)" % (go(d - 1), e if rng.random() < 0.85 or not rich else go(d - 1))
        if k < 0.82:
            return "-(%s)" % go(d - 1)
        if not rich or k < 0.86:
            return "%s(%s)" % (rng.choice(["sum", "prod", "sum", "prod", "min", "max", "avg"] if rich else ["sum", "prod"]), ",".join(go(d - 1) for _ in range(rng.choice([1, 2, 2, 3]) if rich else rng.randint(0, 3))))
        if k < 0.96:
            return "%s(%s)" % (rng.choice(fns), go(d - 1))
        return rng.choice(["root(%s,%s)" % (go(d - 1), rng.choice(["2", "3", "4"])), "log(%s,%s)" % (go(d - 1), rng.choice(["2", "e", "10"])), "(%s)%%" % go(d - 1), "$(%s)" % go(d - 1), "+(%s)" % go(d - 1),
                           "(%s) mod (%s)" % (go(d - 1), rng.choice(NUMS[2:])), "%s(%s,%s)" % (rng.choice(["max", "min"]), rng.choice(NUMS[:6] + vs), rng.choice(NUMS[:6] + vs)), "floor(%s)" % go(d - 1), "(%s)!" % rng.choice(["3", "x", "4"])])
    return go(d)


def points(rng, vs, n):
    res = []
    for _ in range(n):
        res.append(";".join("%s=%s" % (v, rng.choice(["", "-"]) + "%.3f" % (rng.uniform(0.1, 3.2) if rng.random() < 0.8 else rng.uniform(3, 9))) for v in vs))
    return res


def num(r):
    k, m, x = nine(r["s"])
    mk, mm, mx = nine(r["max"])
    return {"e": 0 if r["e"] == 0 else 1, "k": k, "m": m, "x": x, "max": (mx if mk == 0 else 400) + 1}


Z = {"k": "num", "v": [0, 1]}


def record(q, a, again=None):
    if "perr" in a:
        raise Tool("test expression does not parse: %r" % (q,))
    rs = [os.path.basename(f) for f in q[1:3] if f != "-"]
    return {"text": q[3], "rules": rs, "loads": [a["l%d" % (k + 1)] for k in range(2) if q[k + 1] != "-"], "in": a["in"], "err": a["err"], "out": a.get("out", Z), "str": a.get("str", ""),
            "again": again if again is not None else a.get("str", ""), "pts": [{k: num(p[k]) for k in ("a", "near", "b", "bn")} for p in a.get("pts", [])]}


def env(c, aspect, files):
    """Reads the rule files by the specification; the result is used by TraceSimp."""
    e = {"ASPECT": aspect, "LOADED": os.path.join(SCRATCH, "loaded.json"), "FILES": os.path.join(SCRATCH, "rulefiles.json")}
    json.dump({os.path.basename(k): v for k, v in files.items()}, open(e["FILES"], "w"))
    c.count(model("RuleFiles", "INIT Init\nNEXT Next\nINVARIANT Written\n", env=e))
    return e


def shipped():
    return {SHIPPED: open(SHIPPED, encoding="latin-1").read()}



def call(n, c):
    return n if n in ("pi", "e", "phi", "ans", "clight", "csound") else "%s(%s)" % (n, ",".join(c))


def tt(t):
    """text of a tree as the specification writes it"""
    if t["k"] == "num":
        n, d = t["v"]
        return "(%d/%d)" % (n, d) if d != 1 else "(%d)" % n
    if t["k"] == "var":
        return t["n"]
    c = [tt(x) for x in t["c"]]
    if t["p"] == "fn":
        return call(t["n"], c)
    return "(%s)%s(%s)" % (c[0], t["n"], c[1]) if t["p"] == "inf" else "(%s(%s))" % (t["n"], c[0]) if t["p"] == "pre" else "(%s)%s" % (c[0], t["n"])


def supported(t, ops):
    return t["k"] == "var" or (t["k"] == "num" and type(t["v"]) is list) or (t["k"] == "op" and (t["p"] + t["n"]) in ops and all(supported(x, ops) for x in t["c"]))


ARITH = set("pre" + o for o in "+-$") | set("inf" + o for o in "+-*/^") | {"post%", "infmod", "post!"} | set("fn" + o for o in F1 + ["sum", "prod", "min", "max", "avg", "root", "log", "floor"])


def instance(rng, t, m):
    """text of a pattern with small subtrees in the place of its variables"""
    if t["k"] == "num":
        return tt(t)
    if t["k"] == "var":
        if t["n"] not in m:
            small = lambda: rng.choice(["x", "y", "z", "x", "y", "2", "3", "-2", "0.5", "x+1", "x*y", "x^2", "sin(x)", "-y", "2*x", "y^-1", "ln(x)"])
            const = lambda: rng.choice(["2", "3", "-1", "-2", "0.5", "1.5", "4"]) if rng.random() < 0.9 else rng.choice(["", "-"]) + rng.choice(FINE)
            if t["n"][0] == "[":
                m[t["n"]] = ",".join(small() for _ in range(rng.choice([0, 0, 1, 1, 2])))
            else:
                m[t["n"]] = const() if t["n"][0] == "c" and rng.random() < 0.8 else small()
        return m[t["n"]] if t["n"][0] == "[" else "(%s)" % m[t["n"]]
    c = [instance(rng, x, m) for x in t["c"]]
    if t["p"] == "fn":
        return call(t["n"], [x for x in c if x])
    return "%s%s%s" % (c[0], t["n"], c[1]) if t["p"] == "inf" else "(%s(%s))" % (t["n"], c[0]) if t["p"] == "pre" else "(%s)%s" % (c[0], t["n"])


def directed(rng, loaded, n, skip=()):
    """expressions that resemble the left-hand sides of the rules in force"""
    out = []
    rules = [r for i, s in enumerate(loaded["sets"]) for r in s if i not in skip and supported(r["pat"], ARITH | {"fn[]"}) and r["pat"]["k"] == "op"]
    while rules and len(out) < n:
        t = instance(rng, rng.choice(rules)["pat"], {})
        if rng.random() < 0.3:
            t = rng.choice(["(%s)+x", "2*(%s)", "-(%s)", "(%s)^2", "y*(%s)", "(%s)/x"]) % t
        if len(t) < 120:
            out.append(t)
    return out


def identities(c, e, loaded):
    """The rules are identities (MCRules).  Rules that are not are tried out more often."""
    if loaded["n"] != 7:
        return []
    r = c.design("MCRules", "INIT Init\nNEXT Next\nCONSTANT WIDE = %s\nINVARIANTS Sound Shown\n" % ("TRUE" if THOROUGH else "FALSE"), env=dict(e, RULES="simplification.ruleset"))
    said = {(k, int(s), int(n)) for k, s, n in re.findall(r"\b(UNSOUND|USED) (\d+) (\d+)", r.out)}
    c.notes["rules_checked_as_identities"] = len([1 for k, _, _ in said if k == "USED"])
    c.notes["rules_that_are_not_identities"] = bad = sorted((s, n) for k, s, n in said if k == "UNSOUND")
    return [loaded["sets"][s - 1][n - 1] for s, n in bad]


def P15(c):
    rng = c.rng
    e = env(c, "value", shipped())
    loaded = json.load(open(e["LOADED"]))["simplification.ruleset"]
    ts, seen = directed(rng, loaded, 12000 if THOROUGH else 1500), set()
    odd = identities(c, e, loaded)
    if odd:
        ts += directed(rng, {"n": 7, "sets": [odd]}, 1500)
    while len(ts) < (42000 if THOROUGH else 4000):
        ts.append(expr(rng, rng.choice([1, 2, 2, 3, 3, 4]), rng.choice([["x"], ["x", "y"], ["x", "y", "z"]]), rich=rng.random() < 0.7))
    qs = []
    for t in ts:
        if t not in seen and len(t) <= 160:
            seen.add(t)
            q = (t,) + tuple(points(rng, ["x", "y", "z"], 5))
            if rng.random() < 0.1:
                q = tuple(map(gen.longer(rng), q))
            qs.append(("simp", SHIPPED if rng.random() < 0.95 else "-", "-") + q)
    for _ in range(3000 if THOROUGH else 250):        # calls of many operands that differ in one of them, or not at all
        k = rng.choice([3, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20])
        a = [rng.choice(["1", "2", "3", "x", "y", "-2", "sin(x)"]) for _ in range(k)]
        b = list(a)
        b[rng.choice([0, k - 1, k - 1, rng.randrange(k)])] = rng.choice(["2", "x", "2*x", "5", "y"])
        f = rng.choice(["max", "min", "avg", "max", "sum", "prod"])
        t = rng.choice(["%s-%s", "%s*%s", "%s+%s", "%s/%s", "x*%s-x*%s", "max(%s,%s)", "sin(%s)^2+cos(%s)^2"]) % tuple("%s(%s)" % (f, ",".join(l)) for l in (a, b))
        if t not in seen:
            seen.add(t)
            qs.append(("simp", SHIPPED, "-", t) + tuple(points(rng, ["x", "y"], 4)))
    ans = ask(qs)
    again = ask(list(reversed(qs)))[::-1]
    second = {q: a.get("str", "") for q, a in zip(qs, again)}
    c.conform("TraceSimp", qs, ans, lambda q, a: record(q, a, second[q]), env=e, what="values")


# ------------------------------------------------------------- derivatives
CALC = ["+", "+", "-", "*", "*", "*"]


def smooth(rng, d, vs, sure):
    k = rng.random()
    if d <= 0 or k < 0.12:
        return rng.choice(vs) if rng.random() < 0.75 else rng.choice(["2", "3", "0.5", "1", "0", "4", "1.5"] * 5 + FINE)
    a = smooth(rng, d - 1, vs, sure)
    if k < 0.6:
        return "(%s)%s(%s)" % (a, rng.choice(CALC if sure or rng.random() < 0.8 else ["/", "^"]), smooth(rng, d - 1, vs, sure))
    if k < 0.75:
        return "(%s)^%s" % (a, rng.choice(["2", "3", "2", "4"] if sure else ["2", "3", "(-1)", "0.5", "(-2)", "1.5", "x"]))
    if k < 0.8:
        return rng.choice(["-(%s)", "+(%s)", "(%s)%%"] if not sure else ["-(%s)"]) % a
    if k < 0.85:
        return "%s(%s)" % (rng.choice(["sum", "prod"]), ",".join(smooth(rng, d - 1, vs, sure) for _ in range(rng.randint(1, 3))))
    return "%s(%s)" % (rng.choice(["sin", "cos", "ln"] if sure else ["sin", "cos", "exp", "ln", "tan", "asin", "acos", "atan", "sqrt", "lg", "ld", "sinh", "abs"]), a)


def derivs(rng, n):
    """[(expression, must it have a derivative)]"""
    out = []
    while len(out) < n:
        sure = rng.random() < 0.6
        vs = rng.choice([["x"], ["x"], ["x", "y"], ["u", "z"], ["z"], ["x", "y", "z"]])
        f = smooth(rng, rng.choice([1, 2, 2, 3]), vs, sure)
        v = rng.choice(vs)
        k = rng.random()
        if k < 0.03:                                # many operands
            ws = [rng.choice(vs + ["2", "3"]) if rng.random() < 0.6 else rng.choice(["%s^2", "2*%s", "sin(%s)", "-%s"]) % rng.choice(vs) for _ in range(rng.choice([8, 9, 10, 12, 17]))]
            t, ok = "deriv(%s(%s),%s)" % (rng.choice(["sum", "sum", "prod"]), ",".join(ws), v), False
        elif k < 0.45:
            t, ok = "deriv(%s,%s)" % (f, v), sure
        elif k < 0.65:
            one = len([w for w in "xyzu" if w in f.replace("exp", "")]) <= 1
            t, ok = "(%s)'" % f, sure and one
        elif k < 0.75:
            t, ok = "deriv(deriv(%s,%s),%s)" % (f, v, rng.choice(vs)), False
        elif k < 0.82:
            t, ok = "(%s)''" % f, False
        elif k < 0.9:
            t, ok = "%s*deriv(%s,%s)+%s" % (rng.choice(vs), f, v, rng.choice(vs)), sure
        else:
            t, ok = "deriv(%s*deriv(%s,%s),%s)" % (rng.choice(vs), f, v, rng.choice(vs)), False
        if len(t) < 110:
            out.append((t, ok))
    return out


def oracles(c, trees):
    f = os.path.join(SCRATCH, "trees.json")
    json.dump(trees, open(f, "w"))
    r = c.count_run("Derivatives", "INIT Init\nNEXT Next\nINVARIANT Shown\n", env={"TREES": f})
    got = {}
    for m in re.finditer(r'^"?DERIV (\d+) (.*?)"?$', r.out, re.M):
        got[int(m.group(1)) - 1] = None if m.group(2) == "none" else json.loads(m.group(2).replace('\\"', '"'))
    if len(got) != len(trees):
        raise Tool("the specification gave %d of %d derivatives" % (len(got), len(trees)))
    return [got[i] for i in range(len(trees))]


def P16(c):
    rng = c.rng
    c.design("MCDerive", "INIT Init\nNEXT Next\nCONSTANT DEPTH = %d\nINVARIANTS Quotient Settled NoNew Quot\n" % (3 if THOROUGH else 2))
    e = env(c, "deriv", shipped())
    seen, qs, must = set(), [], {}
    for t, ok in derivs(rng, 20000 if THOROUGH else 2000):
        if t not in seen:
            seen.add(t)
            q = (t,) + tuple(points(rng, ["x", "y", "z", "u"], 4))
            if rng.random() < 0.1:
                q = tuple(map(gen.longer(rng), q))
            q = ("simp", SHIPPED, "-") + q
            qs.append(q)
            must[q] = ok
    ans = ask(qs)
    have = [i for i, a in enumerate(ans) if "in" in a]
    orc = dict(zip(have, oracles(c, [ans[i]["in"] for i in have])))
    rq = {}
    for i, o in orc.items():
        if o is not None and len(tt(o)) < 3000:
            rq[qs[i]] = ("simp", "-", "-", tt(o)) + qs[i][4:]
    keys = list(rq)
    ref = {q: a for q, a in zip(keys, ask([rq[q] for q in keys])) if "in" in a}

    def rec(q, a):
        r = record(q, a)
        r["must"] = 1 if must[q] and q in ref else 0
        r["known"] = 1 if q in ref else 0
        r["oracle"] = ref[q]["in"] if q in ref else Z
        if q in ref and a["err"] == "":
            pa = ref[q].get("pts", [])
            r["pts"] = [dict(p, a=num(o["a"]), near=num(o["near"])) for p, o in zip(r["pts"], pa)]
        else:
            r["pts"] = []
        return r
    c.conform("TraceSimp", qs, ans, rec, env=e, what="derivatives")
    # errors: postfix form with several variables, second operand no variable
    es = []
    for _ in range(3000 if THOROUGH else 400):
        f = smooth(rng, 2, ["x", "y"], True)
        es.append(rng.choice(["(%s)'", "deriv(%s,2)", "deriv(%s,x+y)", "deriv(%s,sin(x))", "deriv(x*sgn(%s),x)", "deriv(floor(%s),y)", "x+(%s)'", "deriv(y,deriv(%s,x))", "deriv(x,2)+(%s)", "deriv(%s,y)"]) % f)
    for _ in range(600 if THOROUGH else 80):          # the offending part far behind or deep inside
        k, bad = rng.choice([2, 7, 8, 9, 10, 16, 17]), rng.choice(["deriv(x,2)", "deriv(y,x+y)", "(x*y)'", "deriv(floor(x),x)", "deriv(x^2,x)", "(x^2)'", "(sum(%sy))'" % ("x," * rng.choice([7, 8, 15, 16]))])
        ws = [rng.choice("23x") for _ in range(k)]
        ws[rng.choice([k - 1, k - 1, rng.randrange(k)])] = bad
        if rng.random() < 0.2:
            ws[rng.randrange(k)] = rng.choice(["deriv(x,3)", "(y)'", "(x/y)'", "deriv(sgn(y),y)"])
        t = "%s(%s)" % (rng.choice(["max", "max", "sum", "min", "prod"]), ",".join(ws)) if rng.random() < 0.7 else "sin(" * k + bad + ")" * k
        es.append(rng.choice(["%s", "%s", "deriv(%s,y)", "(%s)'"]) % t)
    es = [("simp", SHIPPED, "-", t) for t in dict.fromkeys(es) if len(t) < 80]
    c.conform("TraceSimp", es, ask(es), record, env=dict(e, ASPECT="error"), what="errors of derivatives")
    independent(c)


DEFS = ["z=4", "x(y)=y+1", "z(x)=2", "cx=3", "cy(x)=x", "f(x)=x^2", "f=7", "f(x,y)=x", "g(x)=sin(x)^2", "y=2", "a=1/2", "b=3", "xs=1", "w(x)=x'", "h(x,y)=deriv(x*y,x)", "n=2", "type=1", "equal(x)=x", "count(x)=1", "TRUE=0", "CONST=2", "x=3", "z=0"]


def independent(c):
    """the same lines in sessions with and without other definitions"""
    rng = c.rng
    qs, pair = [], {}
    for _ in range(3000 if THOROUGH else 350):
        vs = rng.choice([["u"], ["p", "q"], ["t", "u"]])
        body = []
        for _ in range(3):
            f = smooth(rng, rng.choice([1, 2, 2]), vs, rng.random() < 0.7)
            f = f.replace("x", rng.choice(vs)).replace("e" + vs[0] + "p", "exp").replace("e" + vs[-1] + "p", "exp").replace("ma" + vs[0], "max")
            body.append(rng.choice(["deriv(%s,%s)" % (f, rng.choice(vs)), "(%s)'" % f, "(%s)''" % f, "3*deriv(%s,%s)^2" % (f, rng.choice(vs)), "deriv(%s,2)" % f]))
        body = [b for b in body if len(b) < 100]
        defs = [rng.choice(DEFS) for _ in range(rng.randint(1, 4))]
        first = rng.random() < 0.5
        load = "load simplification " + SHIPPED
        a = ("sess", "n", "-", load) + tuple(body)
        b = ("sess", "n", "-") + (tuple(defs) + (load,) if first else (load,) + tuple(defs)) + tuple(body)
        pair[b] = (a, len(body))
        qs.append(b)
    base = {p[0]: x for p, x in zip(pair.values(), ask([p[0] for p in pair.values()]))}
    qs = list(pair)

    def rec(q, a):
        b, k = pair[q]
        if "r" not in base[b] or k == 0:
            return None
        return {"with": [[x["out"], x["err"]] for x in a["r"][-k:]], "without": [[x["out"], x["err"]] for x in base[b]["r"][-k:]]}
    c.conform("TraceSimp", qs, ask(qs), rec, env={"ASPECT": "same", "LOADED": os.path.join(SCRATCH, "loaded.json")}, what="independence of definitions")


# -------------------------------------------------------------- rule files
def comment(rng):
    return rng.choice(["# a comment", "  # -> x", "#", "", "   ", "\t", "# RULESET"])


def rulelines(rng, n, pool):
    out = []
    for _ in range(n):
        l = rng.choice(pool)
        l = rng.choice(["", "", "    ", "\t", " "]) + l + rng.choice(["", "", "", "  # why", " # x -> y", "#"])
        out.append(l)
        if rng.random() < 0.25:
            out.append(comment(rng))
    return out


BADLINES = ["x+ -> x", "x+y", "sum(x -> x", "x -> y", "x+y -> z", "-> x", "x ->", "x*y -> x WHERE z>1", "x*y -> x WHERE", "x -> x WHERE x>", "x -> x WHERE x>1 ; ", "x -> x WHERE x>1 ; x>2 ; x>3 ; x>4", "foo",
            "sum(a,b,cc,d,f,g,h,i,j,k,l) -> a", "x => y", "x -> x WHERE foo(x)", "[xs] ->", "RULES", "x -> 1 WHERE type(y)==VAR", "x - > y", "x*y -> [x]", "x -> -> x", "xRULESET"]
HEADS = ["RULESET", "RULESET", "  RULESET", "RULESET # one", "RULESET 1", "\tRULESET"]
POOL = ["x+y -> sum(x,y)", "sum([xs],sum([ys]),[zs]) -> sum([xs],[ys],[zs])", "x/y -> x*y^(-1)", "--x -> x", "prod([xs],0,[ys]) -> 0", "x^1 -> x", "sum(x,[xs]) -> x+sum([xs]) WHERE type(x)==CONST", "x*y -> y*x WHERE type(x)==VAR ; type(y)==CONST",
        "sin(x)/cos(x) -> tan(x)", "-(x+y) -> -x-y", "0*x -> 0", "x-y -> x+(-y) WHERE x>1 || type(y)==OP", "deriv(x,z) -> 0 WHERE type(x) != OP", "deriv(x+y,z) -> deriv(x,z)+deriv(y,z)", "deriv(x,x) -> 1", "sum(x) -> x", "x->x WHERE FALSE", "a'->-a",
        "min([xs],x,[ys],x,[zs])   ->   min([xs],x,[ys],[zs])", "x  WHERE type(x)==VAR -> x", "count() -> 0", "count(x,[xs]) -> 1+count([xs])", "x*x -> x^2", "1 -> 2", "x^y -> x WHERE y==1 ; type(x)!=CONST ; equal(y,1)", "max(x,y) -> x WHERE x>=y", "min(x,y)->y WHERE y<=x||y<x", "x^y -> x WHERE !(y!=1)"]


def rulefile(rng, sets, bad=0.0, pool=POOL, most=4):
    out = [comment(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < 0.04:
        out.append(rng.choice(pool))
    for _ in range(sets):
        out.append(rng.choice(HEADS))
        out += rulelines(rng, rng.choice([0, 1, 1, 2, 3, most]), pool)
    if rng.random() < bad:
        out.insert(rng.randint(0, len(out)), rng.choice(["", "  "]) + rng.choice(BADLINES))
    return "\n".join(out) + rng.choice(["\n", "\n", "", "\n\n"])


def rec_file(q, a):
    return {"kind": "file", "text": q[3], "max": int(q[2]), "n": a["n"], "sets": [[dict(r, cons=[x["t"] for x in r["cons"]]) for r in s] for s in a["sets"]], "errs": ANSI.sub("", a["errs"])}


# seven rulesets that terminate, for the rules in force
SETS = [["+x -> x", "--x -> x", "x/y -> x*y^(-1)", "tan(x) -> sin(x)/cos(x)", "x% -> x/100"],
        ["x*0 -> 0", "0*x -> 0", "x+0 -> x", "deriv(x,x) -> 1", "deriv(x,z) -> 0 WHERE type(x)!=OP", "deriv(x+y,z) -> deriv(x,z)+deriv(y,z)", "deriv(x*y,z) -> deriv(x,z)*y+x*deriv(y,z)", "deriv(-x,z) -> -deriv(x,z)", "deriv(sin(x),z) -> cos(x)*deriv(x,z)"],
        ["x-y -> x+(-y)", "-(x+y) -> -x+(-y)", "x*y -> prod(x,y)", "x+y -> sum(x,y)", "prod([xs],prod([ys]),[zs]) -> prod([xs],[ys],[zs])", "sum([xs],sum([ys]),[zs]) -> sum([xs],[ys],[zs])"],
        ["min(x,y) -> x WHERE x<=y", "max(x,y) -> x WHERE x>=y", "root(x,y) -> x^(1/y) WHERE y>2 || y<2", "avg([xs]) -> sum([xs])/3 WHERE count([xs])>=3 ; !(count([xs])!=3)", "log(x,y) -> ln(x)/ln(y) WHERE !equal(x,y) ; type(y)!=CONST || y!=2",
         "sum([xs],0,[ys]) -> sum([xs],[ys])", "prod([xs],1,[ys]) -> prod([xs],[ys])", "prod([xs],0,[ys]) -> 0", "sum([xs],x,[ys],x,[zs]) -> sum([xs],prod(2,x),[ys],[zs])", "prod([xs],x,[ys],x,[zs]) -> prod([xs],x^2,[ys],[zs])", "x^1 -> x", "x^0 -> 1", "sum(x) -> x", "prod(x) -> x"],
        ["sum(x) -> x", "prod(x) -> x", "sum([xs],x) -> sum([xs])+x", "prod([xs],x) -> prod([xs])*x", "prod() -> 1", "sum() -> 0"],
        ["0*x -> 0", "1*x -> x", "0+x -> x", "x+(-y) -> x-y", "x+(y+z) -> x+y+z", "x^(-1) -> 1/x"],
        ["x*y -> y*x WHERE type(x)==VAR ; type(y)==CONST", "sin(x)/cos(x) -> tan(x)"]]


def pipeline(rng):
    """a file of seven rulesets from SETS, rules of a set in any order"""
    out = []
    for s in SETS:
        out.append(rng.choice(HEADS))
        out += rulelines(rng, 0, s)
        for l in rng.sample(s, rng.randint(0, len(s)) if rng.random() < 0.4 else len(s)):
            out.append(rng.choice(["", "    ", "\t"]) + l + rng.choice(["", "", " # c"]))
            if rng.random() < 0.1:
                out.append(comment(rng))
    return "\n".join(out) + "\n"


def P17(c):
    rng = c.rng
    qs = []
    for _ in range(6000 if THOROUGH else 900):
        m = rng.choice([1, 2, 3, 7, 7])
        qs.append(("rulefile", "prop", str(m), rulefile(rng, rng.choice([0, 1, 2, 3, 3, m, m + 1]), 0.5)))
    text = list(shipped().values())[0]
    ls = text.split("\n")
    for _ in range(60 if THOROUGH else 8):        # the shipped file with a line disturbed
        k = rng.randrange(len(ls))
        l = ls[:]
        l[k] = rng.choice([l[k].replace("->", "", 1), l[k][:len(l[k]) // 2], l[k].replace("(", "", 1), l[k] + " # x", "  " + l[k], l[k].replace("x", "w", 1)])
        k2 = rng.randrange(max(1, len(l) - 25))
        h = [i for i, x in enumerate(l) if x.startswith("RULESET") and i <= k2]
        l = ["RULESET"] + l[k2:k2 + 25]
        qs.append(("rulefile", "prop", "7", "\n".join(l)))
    for _ in range(40 if THOROUGH else 6):         # long files
        k, out = rng.choice([130, 257, 260, 300]), ["RULESET"]
        for i in range(k):
            out.append(rng.choice(["", "# c", "RULESET"] if rng.random() < 0.02 else ["x+%d -> x" % i, "sin(%d) -> %d" % (i, i), "x*%d->y" % i if rng.random() < 0.001 else "-%d -> 1" % i]))
        if rng.random() < 0.5:
            out += [rng.choice(BADLINES)] + rulelines(rng, 1, POOL)
        qs.append(("rulefile", "prop", "7", "\n".join(out) + "\n"))
    qs = list(dict.fromkeys(qs))
    c.conform("TraceRewrite", qs, ask(qs), rec_file, what="files")
    # what is in force after loading two files one after another
    files = {}
    for i in range(60 if THOROUGH else 14):
        files["p%d" % i] = pipeline(rng)
    for i in range(40 if THOROUGH else 10):
        t = rng.choice([pipeline(rng), rulefile(rng, rng.choice([0, 3, 6, 8]), 0.0), pipeline(rng)])
        l = t.split("\n")
        if rng.random() < 0.7:
            l.insert(rng.randint(0, len(l)), rng.choice(BADLINES))
        files["b%d" % i] = "\n".join(l)
    rulecheck(c, files, 3000 if THOROUGH else 700, lambda: rng.choice(list(files)), "rules in force")


def rulecheck(c, files, n, pick, what, first=()):
    rng = c.rng
    e = env(c, "strategy", dict(files, **shipped()))
    qs = list(first)
    for _ in range(n):
        t = expr(rng, rng.choice([1, 2, 2, 3]), rng.choice([["x"], ["x", "y"]]), rich=rng.random() < 0.4)
        if rng.random() < 0.15:
            t = rng.choice(["deriv(%s,x)", "(%s)'", "deriv(%s,2)"]) % t
        a, b = pick(), rng.choice(["-", "-", pick()])
        if len(t) < 80:
            qs.append(("simp", a, b, gen.longer(rng)(t) if rng.random() < 0.1 else t))
    qs = list(dict.fromkeys(qs))
    c.conform("TraceSimp", qs, ask(qs, files=files), record, env=e, what=what, files=files)


def many(c, n):
    """hundreds of applications of the rules of one set"""
    rng = c.rng
    files = {"m0": "RULESET\n+x -> x\nmax(x) -> x\n" + "RULESET\n" * 6, "m1": "RULESET\n" * 2 + "RULESET\n--x -> x\nx*0 -> 0\n" + "RULESET\n" * 4,
             "m2": "RULESET\n" * 6 + "RULESET\nsin(x) -> cos(x)\ncos(x) -> abs(x)\n"}
    op = {"m0": ["+x", "max(y)", "+2"], "m1": ["--x", "x*0", "--y", "sin(x)*0"], "m2": ["sin(x)", "cos(y)", "sin(cos(x))"]}
    qs = []
    for _ in range(n):
        f = rng.choice(list(files))
        k = rng.choice([65, 129, 130])
        t = "min(%s)" % ",".join(rng.choice(op[f]) for _ in range(k))
        qs.append(("simp", f, "-", t + " " * max(0, 501 - len(t))))
    return files, qs


def P25(c):
    rng = c.rng
    files = {"p%d" % i: pipeline(rng) for i in range(40 if THOROUGH else 8)}
    extra, first = many(c, 60 if THOROUGH else 4)
    own = list(files)
    rulecheck(c, dict(files, **extra), 40000 if THOROUGH else 4000, lambda: rng.choice([SHIPPED] * 3 + own), "pipeline", first)
