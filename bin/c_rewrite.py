import itertools, json, os
import gen
from vlib import *

VARIADIC = ["sum", "prod", "max"]
INFIX = ["+", "*", "-", "^", "/"]
LEAVES = ["x", "y", "z", "0", "1", "2", "3", "0.5"]

CLOSE = ["x", "1", "0.00000000005820766091346740722656", "0.0000000001746229827404022216796875", "1.000030517578125", "0"]     # 2^-34, 3*2^-34, 1+2^-15


# trees: ("leaf", text) | (operator, children)
def rtree(rng, d, leaves=LEAVES):
    k = rng.random()
    if d <= 0 or k < 0.15:
        return ("leaf", rng.choice(leaves))
    if k < 0.6:
        return (rng.choice(VARIADIC[:2] if rng.random() < 0.8 else VARIADIC), [rtree(rng, d - 1, leaves) for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 7]))])
    if k < 0.85:
        return (rng.choice(INFIX), [rtree(rng, d - 1, leaves), rtree(rng, d - 1, leaves)])
    if k < 0.95:
        return ("neg", [rtree(rng, d - 1, leaves)])
    return (rng.choice(["sin", "'"]), [rtree(rng, d - 1, leaves)])


def text(t):
    o, c = t
    if o == "leaf":
        return c
    if o in INFIX:
        return "(%s)%s(%s)" % (text(c[0]), o, text(c[1]))
    if o == "neg":
        return "-(%s)" % text(c[0])
    if o == "'":
        return "(%s)'" % text(c[0])
    return "%s(%s)" % (o, ",".join(text(x) for x in c))


def subtrees(t):
    yield t
    if t[0] != "leaf":
        for x in t[1]:
            yield from subtrees(x)


def abstract(rng, t, names, p):
    """a pattern that resembles t"""
    key = text(t)
    if key in names and rng.random() < 0.85:
        return ("leaf", names[key])
    if rng.random() < p:
        free = [v for v in ["a", "b", "c", "d", "k"] if v not in names.values()]
        if free:
            names[key] = free[0]
            return ("leaf", free[0])
    if t[0] == "leaf":
        return t
    if t[0] in VARIADIC:
        res, i, c = [], 0, t[1]
        while i <= len(c):
            if rng.random() < 0.3:
                n = rng.choice([0, 1, 1, 2, 3, 4])
                key = "[]" + ",".join(text(x) for x in c[i:i + n])
                lists = [v for v in names.values() if v[0] == "["]
                if key in names and rng.random() < 0.8:
                    res.append(("leaf", names[key]))
                elif len(lists) < 4 or rng.random() < 0.2:
                    v = rng.choice(["[l]", "[m]", "[n]", "[o]"])
                    names.setdefault(key, v)
                    res.append(("leaf", v))
                else:
                    n = 0
                i += n
            if i < len(c):
                res.append(abstract(rng, c[i], names, p))
            i += 1
        return (t[0], res)
    return (t[0], [("leaf", rng.choice(["[l]", "[m]"])) if rng.random() < 0.03 else abstract(rng, x, names, p) for x in t[1]])


def pvars(t):
    res = []
    for s in subtrees(t):
        if s[0] == "leaf" and (s[1][0] == "[" or s[1].isalpha()) and s[1] not in res:
            res.append(s[1])
    return res


def constraint(rng, vs):
    plain = [v for v in vs if v[0] != "["] or ["1"]
    lists = [v for v in vs if v[0] == "["] or ["2"]
    v, w, l, m = rng.choice(plain), rng.choice(plain), rng.choice(lists), rng.choice(lists)
    ts = ["type(%s)==CONST" % v, "type(%s)!=VAR" % v, "type(%s)==OP" % v, "type(%s)!=CONST" % v, "!(type(%s)==VAR)" % v,
          "equal(%s,%s)" % (v, w), "!equal(%s,%s)" % (v, w), "equal(%s,-%s) || equal(%s,-%s)" % (v, w, w, v), "%s>1" % v, "%s>=2" % v, "%s<2" % v,
          "%s<=%s" % (v, w), "%s!=0" % v, "(%s mod 2)==0" % v, "%s/%s==1" % (v, w), "%s==%s" % (v, w), "count(%s)==2" % l, "count(%s,%s)>2" % (l, v),
          "count(%s)==count(%s)" % (l, m), "equal(sum(%s),sum(%s))" % (l, m), "sum(%s)>2" % l, "type(sum(%s))==OP" % l, "TRUE", "type(%s)==CONST || type(%s)==CONST" % (v, w),
          "type(type(%s))==CONST" % v, "equal(type(%s),CONST)" % v, "%s" % v, "%s-%s" % (v, w), "max(%s,%s)==%s" % (l, v, v)]
    if rng.random() < 0.05:
        return rng.choice(["FALSE", "1==2", "%s==q" % v, "type(q)==VAR", "TRUE ; FALSE", "1/0", "2>1"])
    return rng.choice(ts)


def pattern(rng, t, p=0.35):
    names = {}
    q = abstract(rng, t, names, p)
    if rng.random() < 0.2 and any(s[0] == "leaf" for s in subtrees(q)):     # disturb it
        leaves = [s for s in subtrees(q) if s[0] == "leaf"]
        v = rng.choice(leaves)
        q = substitute(q, v, rng.choice([("leaf", "a"), ("leaf", "1"), ("leaf", "[l]"), ("leaf", "b")]))
    return q


def substitute(t, a, b):
    if t is a:
        return b
    return t if t[0] == "leaf" else (t[0], [substitute(x, a, b) for x in t[1]])


def where(rng, q):
    n = rng.choice([0, 0, 0, 1, 1, 1, 2, 3, 4] if rng.random() < 0.9 else [0])
    cs = [constraint(rng, pvars(q)) for _ in range(n)]
    return " WHERE " + " ; ".join(cs) if cs else ""


def rhs(rng, vs, d):
    k = rng.random()
    plain = [v for v in vs if v[0] != "["]
    if d <= 0 or k < 0.35:
        return ("leaf", rng.choice(plain + ["0", "1", "2"] if plain else ["0", "1", "x1", "3"][::3]))
    if k < 0.8:
        return (rng.choice(VARIADIC), [("leaf", rng.choice([v for v in vs if v[0] == "["])) if rng.random() < 0.5 and any(v[0] == "[" for v in vs)
                                       else rhs(rng, vs, d - 1) for _ in range(rng.choice([0, 1, 2, 3]))])
    return (rng.choice(INFIX), [rhs(rng, vs, d - 1), rhs(rng, vs, d - 1)]) if k < 0.92 else ("neg", [rhs(rng, vs, d - 1)])


def rule(rng, t):
    s = rng.choice([x for x in subtrees(t)])
    q = pattern(rng, s, rng.choice([0.2, 0.4]))
    while q[0] == "leaf" and q[1][0] == "[":
        q = pattern(rng, s, 0.3)
    return "%s -> %s%s" % (text(q), text(rhs(rng, pvars(q), rng.choice([1, 2]))), where(rng, q) if rng.random() < 0.5 else "")


def identified(r, keep):
    """Numbers the model does not track come as text.  Without conditions only
    their identity matters: each is replaced by a number of its own."""
    ids = {}

    def go(x):
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, dict):
            return {k: ([ids.setdefault(v, 700000001 + len(ids)), 1] if keep else [0, 0]) if k == "v" and isinstance(v, str) else go(v) for k, v in x.items()}
        return x
    return go(r)


def rec_match(q, a):
    if a.get("bad") == "tree":
        raise Tool("tree does not parse: %r" % (q,))
    r = {"kind": "match", "ptext": q[2], "bad": a.get("bad", "")}
    for k, d in (("pat", {"k": "num", "v": [0, 1]}), ("tree", {"k": "num", "v": [0, 1]}), ("vars", []), ("all", []), ("got", 0), ("first", []), ("found", 0), ("at", {}), ("fm", [])):
        r[k] = a.get(k, d)
    return identified(r, " WHERE " not in q[2] and '"v": "' not in json.dumps(r["pat"]))


def listy(t):
    """list variables only where operators take any number of operands"""
    return t[0] == "leaf" or all((t[0] in VARIADIC or not (x[0] == "leaf" and x[1][0] == "[")) and listy(x) for x in t[1])


def P13(c):
    rng = c.rng
    design(c)
    qs, seen = [], set()

    def add(p, t):
        if (p, t) not in seen and len(p) < 200 and len(t) < 300:
            seen.add((p, t))
            if rng.random() < 0.06 and not (set("CO") & set(p)):
                long = gen.longer(rng)
                p, t = long(p), long(t)
            qs.append(("match", "prop", p, t))
    # every small pattern against every small list of operands
    pk = ["[l]", "[m]", "a", "b", "1"]
    pats = ["sum(%s)" % ",".join(p) for n in range(0, 4) for p in itertools.product(pk, repeat=n)]
    pats4 = ["sum(%s)" % ",".join(p) for p in itertools.product(pk, repeat=4)]
    trees = ["sum(%s)" % ",".join(p) for n in range(0, 5) for p in itertools.product(["1", "x"], repeat=n)]
    for p in pats:
        for t in (trees if THOROUGH else rng.sample(trees, 8)):
            add(p, t)
    for p in pats4:
        for t in (trees if THOROUGH else rng.sample(trees, 3)):
            add(p, t)
    for _ in range(20000 if THOROUGH else 1500):     # equality of operands that are almost equal
        u, v = rng.sample(CLOSE + ["sum()", "prod()", "sum(x)", "prod(x)", "-x", "sin(x)", "y", "max(x,1)", "max(x)", "xx"], 2)
        put = lambda t, m: "sum(%s)" % ",".join(m.get(i, i) for i in t[4:-1].split(","))
        add(put(rng.choice(pats4 + pats), {"1": rng.choice([u, v])}), put(rng.choice(trees), {"1": u, "x": v}))
    inner = ["prod(%s)" % ",".join(p) for n in range(0, 3) for p in itertools.product(["[l]", "[m]", "a", "1"], repeat=n)]
    tin = ["prod(%s)" % ",".join(p) for n in range(0, 3) for p in itertools.product(["1", "x"], repeat=n)]
    for _ in range(12000 if THOROUGH else 1500):
        f = lambda a, i: "sum(%s)" % ",".join(rng.choice(i) if rng.random() < 0.4 else rng.choice(a) for _ in range(rng.randint(1, 4)))
        add(f(pk, inner), f(["1", "x", "x"], tin))
    n = 40000 if THOROUGH else 5000
    while n > 0:
        t = rtree(rng, rng.choice([1, 2, 2, 3]), rng.choice([LEAVES, ["x", "1"], ["x", "y", "2"], CLOSE]))
        s = rng.choice(list(subtrees(t))) if rng.random() < 0.4 else t
        q = pattern(rng, s)
        add(text(q) + where(rng, q), text(t))
        n -= 1
    for _ in range(40 if THOROUGH else 8):       # more operands than fit into a byte
        k = rng.choice([250, 255, 256, 257, 258, 260, 300])
        t = ["x"] * k
        for i in rng.sample(range(k), rng.choice([0, 1, 2])):
            t[i] = "1"
        p = rng.choice(["sum([l]) WHERE count([l])>%d" % (k - 2), "sum(x,[l]) WHERE count([l])==%d" % (k - 1), "sum([l],1,[m]) WHERE count([l],[m])>=%d" % (k - 1), "sum([l],1) WHERE count([l])<10", "sum([l]) WHERE count([l])==%d" % (k - 256), "sum(x,[l],x)"])
        qs.append(("match", "prop", p, "sum(%s)" % ",".join(t)))
    c.conform("TraceRewrite", qs, ask(qs), rec_match, env={})


def design(c):
    c.design("MCMatch", "INIT Init\nNEXT Next\nINVARIANTS Sound Complete Once InOrder\nCONSTANTS Pats <- %s Depth = 2\n" % ("PatsBig" if THOROUGH else "PatsSmall"))


def rec_rules(q, a):
    if a.get("bad") == "tree":
        raise Tool("tree does not parse: %r" % (q,))
    r = {"kind": "rules", "rules": list(q[4:]), "cap": int(q[2]), "bad": "rule" if "bad" in a else ""}
    z = {"k": "num", "v": [0, 1]}
    r["in"], r["n"], r["tree"] = a.get("in", z), a.get("n", 0), a.get("tree", z)
    return r


LIBRARY = ["sum([l],sum([m]),[n]) -> sum([l],[m],[n])", "prod([l],0,[m]) -> 0", "sum([l],0,[m]) -> sum([l],[m])", "prod([l],1,[m]) -> prod([l],[m])", "--a -> a",
           "a+b -> sum(a,b)", "sum(a) -> a", "sum() -> 0", "prod(a) -> a", "sum([l],a,[m],a,[n]) -> sum([l],prod(2,a),[m],[n])",
           "sum([l],a,[m],b,[n]) -> sum(b,[l],[m],a,[n]) WHERE type(a)!=CONST ; type(b)==CONST", "a*(b+k) -> a*b+a*k", "(a+b)*k -> a*k+b*k", "a-b -> a+(-b)",
           "sum([l],a,[m],b,[n]) -> sum([l],b,[m],a,[n]) WHERE a>b", "-(a+b) -> -a+(-b)", "a^2 -> a*a", "prod([l],a,[m],a,[n]) -> prod([l],a^2,[m],[n])",
           "max([l],a,[m],b,[n]) -> max([l],a,[m],[n]) WHERE a>=b", "sum([l],a,[m]) -> prod([l],[m]) WHERE count([l])==count([m]) ; type(a)==CONST", "a' -> -a", "0 -> 1", "x -> 2", "y -> x*y", "a -> 1 WHERE type(a)==VAR", "sum(a,b,[l]) -> sum(a+b,[l]) WHERE type(a)==CONST ; type(b)==CONST"]


def P14(c):
    rng = c.rng
    c.design("MCRewrite", "SPECIFICATION Spec\nINVARIANTS Strategy Value0 NoNewVars Bounded Fixpoint\nPROPERTIES Terminates\nCONSTANTS Size = %d\n" % (2 if THOROUGH else 1))
    qs, seen = [], set()
    n = 20000 if THOROUGH else 3500
    while n > 0:
        t = rtree(rng, rng.choice([1, 2, 2, 3]))
        if len(text(t)) > 200:
            continue
        rs = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            rs.append(rng.choice(LIBRARY) if rng.random() < 0.5 else rule(rng, t))
        cap = rng.choice([1, 1, 2, 3, 5, 8])
        q = ("rules", "prop", str(cap), text(t)) + tuple(rs)
        if q not in seen:
            seen.add(q)
            qs.append(q)
        n -= 1
    for _ in range(300 if THOROUGH else 40):         # rules of many variables
        k = rng.choice([7, 8, 9, 10, 10, 11])
        vs = rng.sample(["a", "b", "c", "d", "f", "g", "h", "i", "j", "k", "[l]", "[m]", "n"], k)
        if len([v for v in vs if v[0] == "["]) > 1:
            vs.remove("[m]")
        f = rng.choice(["sum", "prod", "max"])
        rhs = [v for v in vs if rng.random() < 0.8] + [rng.choice(vs)]
        rng.shuffle(rhs)
        args = ["x", "y", "z", "1", "2", "3", "sin(x)", "x*y", "0.5", "-y", "4", "5"]
        t = "%s(%s)" % (f, ",".join(rng.choice(args) for _ in range(k + rng.choice([0, 0, 0, 1, -1]))))
        qs.append(("rules", "prop", "1", rng.choice(["%s", "1+%s"]) % t, "%s(%s) -> prod(%s)" % (f, ",".join(vs), ",".join(rhs))))
    # to the fixpoint: rules of the library that terminate
    term = [LIBRARY[i] for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 15, 18)]
    for _ in range(4000 if THOROUGH else 500):
        t = rtree(rng, rng.choice([1, 2, 3]))
        if len(text(t)) < 120:
            qs.append(("rules", "prop", "0", text(t)) + tuple(rng.sample(term, rng.randint(1, 6))))
    c.conform("TraceRewrite", qs, ask(qs), rec_rules)
