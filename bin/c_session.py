import json, os, re
from vlib import *
import gen
import c_simplify as simp

NAMES = ["f", "g", "h", "c", "k", "foo", "f", "g", "c"]
PARAMS = ["x", "y", "z", "a", "b"]
SMALL = ["0", "1", "2", "3", "4", "5", "7", "10", "0.5", "1.5", "12"]
FNS = {"abs": 1, "floor": 1, "sgn": 1, "max": -1, "min": -1, "sum": -1, "prod": -1, "gcd": 2, "sqrt": 1, "sin": 1, "avg": -1}
ANSI = re.compile("\x1b\\[[0-9;]*m")
UNKNOWN = ["nosuch", "q", "ff", "F"]


class Names:
    """What the generator believes to be defined (only to aim well)."""
    def __init__(self):
        self.d = {}

    def note(self, name, n):
        self.d.setdefault(name, n)


def body(rng, env, vars, depth, hist=0.1):
    def go(d):
        k = rng.random()
        if d <= 0 or k < 0.12:
            j = rng.random()
            if j < 0.45 and vars:
                return rng.choice(vars)
            if j < 0.55 and any(n == 0 for n in env.d.values()):
                return rng.choice([f for f, n in env.d.items() if n == 0])
            if j < 0.55 + hist:
                return rng.choice(["ans", "@0", "@1", "@2", "@(1)", "@ans"])
            return rng.choice(SMALL)
        if k < 0.40:
            a, b = go(d - 1), go(d - 1)
            o = rng.choice("++--***/^")
            if o == "^":
                b = rng.choice(["2", "3", "2", vars[0] if vars else "0", "-1"])
            return rng.choice(["%s%s%s", "%s %s %s", "(%s)%s(%s)", "%s%s(%s)"]) % (a, o, b)
        if k < 0.48:
            return rng.choice(["-%s", "+%s", "-(%s)", "-(%s)"]) % go(d - 1)
        if k < 0.52:
            return "(%s)%s" % (go(d - 1), rng.choice(["!", "%", " 2", "(3)"]))
        if k < 0.58:
            return "(%s)" % go(d - 1)
        if k < 0.85 and env.d:
            return call(rng.choice(list(env.d)), d - 1)
        f = rng.choice(list(FNS))
        n = FNS[f] if FNS[f] > 0 else rng.randint(0, 3) if f not in ("avg",) else rng.randint(1, 3)
        return "%s(%s)" % (f, ",".join(go(d - 1) for _ in range(n)))

    def call(f, d):
        n = env.d[f]
        if n == 0:
            return f
        if rng.random() < 0.03:
            n += rng.choice([-1, 1])
        return "%s(%s)" % (f, rng.choice([",", ", "]).join(go(d) for _ in range(n)))
    return go(depth)


def broken(rng, t):
    t = list(t)
    for _ in range(rng.randint(1, 2)):
        i = rng.randint(0, len(t))
        if rng.random() < 0.5 and t:
            del t[min(i, len(t) - 1)]
        else:
            t.insert(i, rng.choice("()+*/,^! &;.2x@'"))
    return "".join(t)


def definition(rng, env):
    k = rng.random()
    name = rng.choice(NAMES)
    if k < 0.05:
        name = rng.choice(["sin", "max", "pi", "ans", "mod", "C", "2", "+", "-", "x y", "", " ", "f(", "foo_1", "[q]", "gg(1,", "(h)"])
    if k < 0.55:      # prefer new names
        name = rng.choice([n for n in NAMES if n not in env.d] or NAMES)
    n = rng.choice([0, 0, 1, 1, 1, 2, 2, 3] * 4 + [4, 5, 6, 9, 10])
    ps = rng.sample(PARAMS + ["u", "v", "xx", "y_1", "X", "r"], n) if n > 3 or rng.random() < 0.1 else rng.sample(PARAMS, n)
    if rng.random() < 0.04 and n > 0:
        ps[rng.randint(0, n - 1)] = rng.choice(["x", "1", "x+y", "", "(x)", "pi", "c", "sin"])
    if rng.random() < 0.01:
        ps = ["p" * (i + 1) for i in range(rng.choice([9, 10, 11, 12]))]
    vs = list(ps)
    if rng.random() < 0.06:
        vs += ["w"]
    b = body(rng, env, [v for v in vs if v.replace("_", "").isalnum() and v[0].isalpha()], rng.choice([1, 2, 2, 3]))
    if rng.random() < 0.07:
        me = name + ("(%s)" % ",".join(ps) if ps else "")
        b = rng.choice([b + "+" + me, "max(1,2,%s)" % me, "sum(%s,%s,%s)" % (b, b, me), me, "2*(-%s)" % me, "%s+gcd(%s,%s)" % (b, me, b)])
    if rng.random() < 0.06:
        b = rng.choice(["", " ", "1/0", "@99", "x'", "=2", "sqrt(-1)", "1 +", "(2"])
    left = name + ("(%s)" % rng.choice([",", " , ", ", "]).join(ps) if ps or rng.random() < 0.08 else "")
    if rng.random() < 0.05:
        left = broken(rng, left)
    if rng.random() < 0.05:
        b = broken(rng, b)
    if name.isalpha() and len(ps) < 9:
        env.note(name, len(ps))
    return left + rng.choice(["=", " = ", "= ", " ="]) + b


def table(rng, env):
    v = rng.choice(["x", "x", "y", "t", "foo_t"])
    e = body(rng, env, [v], 2, 0.03)
    a = rng.choice(["0", "1", "-2", "5", "-1", "0.5", "-3", "4"])
    b = rng.choice(["5", "3", "10", "-5", "1", "0", "2.5", "-4"])
    s = rng.choice(["1", "2", "0.5", "-1", "0.25", "-2", "3", "-0.5", "1"])
    if env.d and rng.random() < 0.2:
        a = "max(-5,min(9,%s))" % rng.choice(list(env.d))
    if rng.random() < 0.08:
        s = rng.choice(["0", "y", "", "1/0", "0*3", "(1"])
    if rng.random() < 0.06:
        a = rng.choice(["x", "", "1/0", "max(-3,min(5,ans))", "@50", "inf", "-inf"])
    if rng.random() < 0.05:
        e = e + "*" + rng.choice(["q", "1/0", "(", "w"])
    sep = lambda: rng.choice([";", " ; ", "; ", " ;", "  ;  "])
    t = "table " + rng.choice(["", " "]) + e + sep() + a + sep() + b + sep() + s
    if rng.random() < 0.45:
        f = rng.choice(["x+y", "x*y", "x-y", "y-x", "max(x,y)", "x+y^2", "x", "y", "2", "min(x,y)", "10x+y", "x+1", "x-2y"])
        if rng.random() < 0.08:
            f = rng.choice(["x+z", "", "x+", "w", "1/0"])
        i = rng.choice(["0", "1", "100", "-1", "0.5"])
        if rng.random() < 0.06:
            i = rng.choice(["x", "", "2+", "1/0"])
        t += " fold " + f + sep() + i
    if rng.random() < 0.04:
        t = broken(rng, t[6:])
        t = "table " + t
    if rng.random() < 0.03:
        t = rng.choice(["table ", "table 1", "table x;1;2", "table x;1;2;1;4", "table x;0;1;1 fold x+y", "table x ; 0 ; 3 ; 1 fold x;0;1"])
    return t


def line(rng, env, kinds):
    k = rng.choices(list(kinds), list(kinds.values()))[0]
    if k == "def":
        return definition(rng, env)
    if k == "table":
        return table(rng, env)
    if k == "clear":
        j = rng.random()
        if j < 0.25:
            env.d.clear()
            return "clear"
        if j < 0.75 and env.d:
            n = rng.choice(list(env.d))
            del env.d[n]
            return "clear " + n
        return "clear " + rng.choice(UNKNOWN + ["sin", "ans", "+", "mod", "", " ", "f", "g ", "max", "c"])
    if k == "odd":
        return rng.choice(["", "# comment", "#", "help", "license", "clearfoo", "clearx", "tablex", "table", "loadx", "load nofile", "load .", "load simplification .", "load /", "help operators",
                           "load simplification nofile", "load ", " ", "#x=1", "helpx", " clear", "Clear", "x#y"])
    if k == "bad":
        return broken(rng, body(rng, env, rng.choice([[], ["x"]]), 2))
    if k == "fail":
        if env.d and rng.random() < 0.4:      # bodies that fail for some arguments
            f = rng.choice(list(env.d))
            return rng.choice(["%s", "1 + 2 + %s", "2*%s-1", " 3-(%s)", "max(1,%s)"]) % (f + ("(%s)" % ",".join(rng.choice(["0", "1", "-1", "2", "1-1"]) for _ in range(env.d[f])) if env.d[f] else ""))
        if rng.random() < 0.3:
            f = rng.choice(["f", "g", "h"])
            if f not in env.d:
                env.d[f] = 1
                return "%s(x)%s=%s" % (f, rng.choice(["", " "]), rng.choice(["2x+3/(x-1)", "1/x", "x+sqrt(x-2)", "5-1/(x*x)", "x-(x-1)^(-1)", "3*(2+4/(1-x))", "max(1,2,1/x)"]))
        return rng.choice(["1/0", "@100", "sqrt(-2)", "(-8)^(1/3)", "x'", "0^0", "5'", "1+1/(2-2)", "max(1,2/0)", "deriv(x,x)", "2*(3+1/0)", "sin()", "f(1/0)"])
    e = body(rng, env, ["x", "y"] if rng.random() < 0.25 else [], rng.choice([1, 2, 2, 3, 4]), 0.25 if k == "hist" else 0.1)
    return e


MIXES = {
    "P01": dict(eval=6, define=0, **{"def": 4}, table=1.5, clear=0.5),
    "P02": {"def": 5, "eval": 3, "clear": 3, "odd": 0.5, "bad": 0.5},
    "P03": {"def": 4, "eval": 4, "clear": 2, "hist": 2, "table": 0.3},
    "P04": {"hist": 6, "eval": 3, "table": 1, "fail": 2, "def": 1.5, "clear": 0.5, "odd": 1, "bad": 0.5},
    "P05": {"def": 3, "eval": 2, "fail": 2, "bad": 2, "table": 1.5, "clear": 1.5, "odd": 1, "hist": 1},
    "P18": {"table": 8, "def": 1.5, "eval": 1, "hist": 1},
    "P24": {"bad": 4, "fail": 2, "def": 3, "table": 3, "clear": 1, "eval": 1, "odd": 0.5},
    "P27": {"def": 6, "eval": 2, "clear": 2, "hist": 1, "fail": 0.5, "bad": 0.5, "odd": 0.5, "table": 0.3},
    "P07": {"def": 3, "eval": 3, "hist": 2, "table": 0.5, "clear": 1, "odd": 1, "bad": 0.7, "fail": 0.7},
}
MIXES["P01"].pop("define")


def sessions(c, n, mix, loads=0.03, lo=4, hi=12, inter=None):
    """[(flags, lines, files)]: random sessions; files are unique to a session"""
    rng = c.rng
    res = []
    for i in range(n):
        env = Names()
        files = {}

        def lines(k, depth):
            out = []
            for _ in range(k):
                if rng.random() < loads and depth < 3:
                    f = "s%d_%d" % (i, len(files))
                    files[f] = None
                    files[f] = lines(rng.randint(0, 5), depth + 1)
                    out.append("load " + f)
                    if rng.random() < 0.2:
                        out.append("load " + f)
                else:
                    t = line(rng, env, MIXES[mix])
                    if len(t) < 160:
                        out.append(t)
            return out
        warm = [rng.choice(SMALL) + rng.choice(["", "+1", "*2"]) for _ in range(rng.choice([0, 1, 2, 3]))]
        ls = warm + lines(rng.randint(lo, hi), 0)
        if rng.random() < 0.1:
            long = gen.longer(rng)
            ren = lambda ts: [t if "load" in t or "help" in t else long(t) for t in ts]
            ls, files = ren(ls), {f: ren(t) for f, t in files.items()}
        fl = ("i" if rng.random() < 0.5 else "n") if inter is None else inter
        res.append((fl, ls, files))
    return res


WORDS = ["a", "ab", "abc", "b", "bc", "s", "si", "sinx", "sinhx", "ma", "maxx", "p", "pii", "pix", "an", "anss", "lnx", "l", "fo", "foo", "foob", "foo_b", "fo_", "_x", "_", "F", "Foo", "FOO", "cx", "q", "qq", "qqq", "m", "mo", "mody", "ex", "expo", "zz", "zy", "z"]


def many_names(c, n):
    """far more definitions than usual, names that begin with each other"""
    rng, res = c.rng, []
    for _ in range(n):
        ws = rng.sample(WORDS, rng.choice([12, 25, len(WORDS)]))
        ls, have = [], []
        for w in ws:
            k = rng.choice([0, 0, 1, 2])
            use = rng.choice(have) if have and rng.random() < 0.5 else None
            call = "" if use is None else "+" + use[0] + ("(%s)" % ",".join(["2"] * use[1]) if use[1] else "")
            ls.append("%s%s=%d%s%s" % (w, "(%s)" % ",".join(["i", "j"][:k]) if k else "", rng.randint(1, 50), "".join("*" + v for v in ["i", "j"][:k]), call))
            have.append((w, k))
            if rng.random() < 0.2:
                g = have.pop(rng.randrange(len(have)))
                ls.append("clear " + g[0])
                if rng.random() < 0.4:
                    ls.append("clear " + g[0])
        for w, k in rng.sample(have, min(8, len(have))):
            ls.append(w + ("(%s)" % ",".join(["3", "5"][:k]) if k else ""))
        if rng.random() < 0.3:
            ls.append("clear")
        for w in rng.sample(ws, min(8, len(ws))):
            ls.append(rng.choice([w, w + "+1", "%s(1)" % w, "%s(1,2)" % w, w + "=3"]))
        res.append((rng.choice("in"), ls, {}))
    return res


def run(c, sess, aspect, what=""):
    qs, files, rec = plain(sess)
    c.conform("TraceSession", qs, ask(qs, files=files), rec, env={"ASPECT": aspect}, files=files, what=what or aspect)


def plain(sess):
    files, qs, meta = {}, [], {}
    for fl, ls, fs in sess:
        q = ("sess", fl, "-") + tuple(ls)
        for f, t in fs.items():
            files[f] = "".join(x + "\n" for x in t)
            if t and len(f) % 2 == 0:
                files[f] = files[f][:-1]
        qs.append(q)
        meta[q] = fs

    def rec(q, a):
        rs = [{"ok": x["ok"], "out": ANSI.sub("", x["out"]), "err": ANSI.sub("", x["err"])} for x in a["r"]]
        return {"inter": 1 if "i" in q[1] else 0, "lines": list(q[3:]), "files": dict(meta[q], **{"\n": []}), "r": rs}
    return qs, files, rec


# ------------------------------------------------- with simplification rules
def small(rng, env, d=None):
    """an expression that rules have something to do with"""
    vs = rng.choice([["x"], ["x", "y"], []])
    t = simp.expr(rng, rng.choice([1, 1, 2, 2]) if d is None else d, vs or ["2", "3"], rich=rng.random() < 0.4)
    k = rng.random()
    if k < 0.12:
        t = rng.choice(["deriv(%s,x)", "(%s)'", "deriv(%s,2)", "3+(%s)'", "deriv(%s,x+1)"]) % simp.smooth(rng, 2, rng.choice([["x"], ["x"], ["x", "y"]]), rng.random() < 0.7)
    elif k < 0.3 and env.d:
        f = rng.choice(list(env.d))
        t = rng.choice(["%s", "%s+1", "2*%s", "x-%s", "(%s)'"]) % (f if env.d[f] == 0 else "%s(%s)" % (f, ",".join(small(rng, env, 1) for _ in range(env.d[f]))))
    elif k < 0.45:
        t = rng.choice(["sum(%s,%s,%s)", "(%s)*(%s)*(%s)", "%s + %s + %s", "prod(%s,%s,%s)", "(%s)*(%s)-(%s)"]) % tuple(rng.choice(["x", "2", "1/0", "x", "3", "sqrt(2-3)", "y", "0", "1/(2-2)", "@9", "5"]) for _ in range(3))
    return t


def rule_line(rng, env, names):
    k = rng.random()
    if k < 0.12:
        return "load simplification " + rng.choice(names)
    if k < 0.62:
        return small(rng, env)
    if k < 0.82:
        n = rng.choice([f for f in "fgh" if f not in env.d] or ["f"])
        ps = rng.choice([[], ["x"], ["x"], ["x", "y"]])
        env.note(n, len(ps))
        b = small(rng, env)
        if not ps:
            b = re.sub(r"\b[xy]\b", lambda m: rng.choice(["2", "3"]), b)
        return "%s%s = %s" % (n, "(%s)" % ",".join(ps) if ps else "", b)
    if k < 0.88:
        return table(rng, env)
    if k < 0.92 and env.d:
        n = rng.choice(list(env.d))
        del env.d[n]
        return "clear " + n
    return line(rng, env, {"hist": 2, "bad": 2, "fail": 2, "odd": 0.3})


def rule_sessions(c, n, what, **k):
    """sessions in which rules are loaded; the model simplifies by them as well"""
    qs, files, e, rec = with_rules(c, n, **k)
    c.conform("TraceSession", qs, ask(qs, files=files), rec, env=e, files=files, what=what)


def with_rules(c, n, inter=None, aspect="err", bad=0.15, files_too=0.15, looks=False):
    rng = c.rng
    texts = {"p%d" % i: simp.pipeline(rng) for i in range(N(8, 40))}
    for i in range(N(6, 20)):
        t = rng.choice([simp.pipeline(rng), simp.rulefile(rng, rng.choice([0, 3, 6, 8, 7]), 0.0)])
        l = t.split("\n")
        if rng.random() < 0.6:
            l.insert(rng.randint(0, len(l)), rng.choice(simp.BADLINES))
        texts["b%d" % i] = "\n".join(l)
    texts["shipped"] = list(simp.shipped().values())[0]
    good, ill = [f for f in texts if f[0] == "p"], [f for f in texts if f[0] == "b"]
    e = simp.env(c, aspect, {"rules:" + f: t for f, t in texts.items()})
    qs, files = [], dict(texts)
    for i in range(n):
        env, names = Names(), [rng.choice(good), rng.choice(good), rng.choice(ill), rng.choice(ill), "shipped"]
        ls = [rule_line(rng, env, names) for _ in range(rng.choice([0, 0, 1, 2]))]
        ls.append("load simplification " + rng.choice(ill if rng.random() < bad else good + ["shipped"] * 4))
        ls += [rule_line(rng, env, names) for _ in range(rng.randint(2, 6))]
        ls = [t for t in ls if len(t) < 110]
        ds = [t[0] for t in ls if re.match(r"[fgh]\(.*=.*('|deriv)", t)]     # derivatives of derivatives of ... grow exponentially
        ls = [t for t in ls if sum(len(re.findall(d + r"\(", t.split("=")[-1])) for d in set(ds)) <= 1]
        fl = ("i" if rng.random() < 0.5 else "n") if inter is None else inter
        if rng.random() < files_too:       # all of it from a file
            files["r%d" % i] = "".join(t + "\n" for t in ls)
            ls = ["load r%d" % i] + [rule_line(rng, env, names) for _ in range(2)]
        if looks:
            ls.insert(rng.randint(1, len(ls)), "help")
            ls.append("help")
        qs.append(("sess", fl, "-") + tuple(ls))

    def rec(q, a):
        rs = [{"ok": x["ok"], "out": ANSI.sub("", x["out"]), "err": ANSI.sub("", x["err"])} for x in a["r"]]
        own = {m: files[m].split("\n")[:-1] for l in q[3:] for m in re.findall(r"^load (r\d+)$", l)}
        return {"inter": 1 if "i" in q[1] else 0, "lines": list(q[3:]), "files": dict(own, **{"\n": []}), "r": rs}
    return qs, files, e, rec


MC_CFG = "SPECIFICATION Spec\nINVARIANTS TypeOK %sEmit\nPROPERTY StepsOK\n"


def behaviours(c, lines, depth, files=None, probes=(), inter=0, aspect="err", extra=""):
    """Every session of `depth` lines over the alphabet, generated by TLC with
    what the specification says it prints, replayed in the real code."""
    f = os.path.join(SCRATCH, "alphabet.ndjson")
    json.dump({"lines": lines, "files": dict(files or {}, **{"\n": []}), "probes": list(probes), "inter": inter, "depth": depth}, open(f, "w"))
    r = c.design("MCSession", MC_CFG % (("Substitution " if probes else "") + extra), env={"ALPHABET": f})
    leaves = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"LEAF (.*)"$', r.out, re.M)]
    if len(leaves) != len(lines) ** depth:
        raise Tool("MCSession: %d behaviours instead of %d" % (len(leaves), len(lines) ** depth))
    fs = {k: "".join(x + "\n" for x in v) for k, v in (files or {}).items()}
    qs = [("sess", "i" if inter else "n", "-") + tuple(x["l"] for x in leaf) for leaf in leaves]

    def differ(leaf, a):
        for i, (w, g) in enumerate(zip(leaf, a["r"])):
            if w["ok"] != g["ok"]:
                return "line %d should %s" % (i + 1, "succeed" if w["ok"] else "fail")
            if w["out"] != "?" and w["out"] != ANSI.sub("", g["out"]):
                return "line %d should print %r" % (i + 1, w["out"])
            if w["err"] != "?" and (w["err"] != ANSI.sub("", g["err"]) if aspect == "err" else (w["err"] == "") != (g["err"] == "")):
                return "line %d should report %r" % (i + 1, w["err"])
        return ""
    bad, crashed = [], []
    for leaf, q, a in zip(leaves, qs, ask(qs, files=fs)):
        if "crash" in a:
            if a["crash"] != "skipped":
                crashed.append(q)
        elif differ(leaf, a):
            bad.append((leaf, q))
    c.confirm_crashes(crashed, files=fs)
    for (leaf, q), a in zip(bad[:40], ask([q for _, q in bad[:40]], files=fs)):
        d = "crash" not in a and differ(leaf, a)
        if d:
            c.fail("generated session: " + d, {"request": list(q), "files": files, "specified": leaf, "verdict": d})
    c.traces += len(qs)
    c.notes.setdefault("replayed", []).append({"model": "MCSession", "behaviours": len(qs), "alphabet": lines, "depth": depth})
    for k in c.spread(len(leaves), 1):
        c.samples.append({"generated": leaves[k]})


def N(q, t):
    return t if THOROUGH else q


# alphabets of lines, and probes for the substitution theorem
A_CALLS = ["f(x)=x*x+1", "g(x,y)=f(y)-2x", "c=3", "h(y,x)=g(f(x),y)", "f(g(c,2))", "g(f(2),c)+c", "h(c,f(1))", "g(y,x)", "clear f", "clear", "f(f(y+1))", "table f(x)-c;0;2;1"]
A_NAMES = ["f(x)=x+1", "f(x,y)=x-y", "f=7", "g(x)=f(x)*2", "f(3)", "f(5,2)", "f", "g(1)", "clear f", "clear g", "clear", "clear sin", "clear nope", "sin(x)=x", "f(x,x)=x", "g(x)=y", "f(x)=max(1,2,f(x))", "x=2", "x+1"]
A_KEEP = ["c=3", "c=ans", "f(x)=x+c", "f(x)=c*@0-x", "g(x)=f(x)^2", "g(1)", "f(2)", "5", "7-9", "clear c", "clear f", "c+1", "ans+@1"]
A_HIST = ["3", "ans+1", "@1-@0", "@(ans)", "x+ans", "1/0", "c=ans*2", "c", "table x;1;3;1 fold x+y;ans", "table ans;1;2;1", "clear", "-ans", "# 5", "@5"]
A_FAIL = ["f(x)=x+1", "f(x)=x+w", "f(2", "f(1/0)", "f(3)", "c=1/0", "c=@9", "c", "clear c", "x'", "table x;0;2;0", "table f(x);1;0/0;1", "table f(x);0;1;1", "ans", "f(x", "=3", "load nofile"]
A_LOAD = ["load a", "load b", "load .", "load e", "load nofile", "f(2)", "ans+c", "f(x)=x-1", "clear", "c=10"]
FILES = {"a": ["f(x)=x+1", "f(1)", "# c=4", "", "c=ans"], "b": ["load a", "1/0", "ans*2", "load e", "load ."], "e": []}
A_RULES = ["load simplification r", "load simplification s", "load simplification few", "load simplification bad", "load simplification none", "load rr", "f(x)=x+0-1/0*x", "f(x)=x*1-0/x", "x+0*y", "deriv(x*x,x)+x'", "f(3)+deriv(f(y),y)", "table x'+0*x;1;2;1", "(x+y)'",
           "2 + 3*x/(1-1)", "clear"]
R7 = ["# rules", "RULESET", " 0+x -> x", "x+0 -> x  # zero", "RULESET 2", "deriv(x,x) -> 1", "deriv(x,z) -> 0 WHERE type(x)!=OP", "deriv(x+y,z) -> deriv(x,z)+deriv(y,z)", "deriv(x*y,z) -> deriv(x,z)*y+x*deriv(y,z)", "RULESET", "x-y -> x+(-y)", "RULESET",
      "0*x -> 0", "1*x -> x", "x*1 -> x", "RULESET", "", "RULESET", "x+x -> 2*x", "RULESET", "x+1 -> 1+x"]
R_FILES = {"r": R7, "s": ["x -> x"] + R7[:4] + ["RULESET"] * 6 + ["x*y -> y*x WHERE type(x)==CONST ; type(y)==VAR"], "few": R7[:-2], "bad": R7[:-1] + ["x -> y"], "rr": ["load simplification r", "x+0", "load simplification few", "x+0", "load simplification s"]}
A_TABLE = ["table x^2;0;2;1", "table x;3;1;1", "table x;1;3;-0.5 fold x-y;10", "table 1/x;-1;1;1 fold x*2+y;1", "table y+c;0;1;0.25", "c=2", "table c;c;0;c", "table x+y;0;1;1", "table x;0;1;0", "table x;y;1;1",
           "ans", "table x;0;-3;1 fold y;7", "table (x;0;1;1", "table x;0;1;1 fold z;1"]
A_MARK = ["f(x)=x+1", "f(x) = 2*(x +", "f(x)=  x y ) ", "f(1,2)+3", "3 + $$ *4", "1+max(2,3 4,)", "f(x,)=1", "table f(x))+1;0;1;1", "table x; 0 ; 1 +* 2 ;1", "table  x ;0;1;1/0", "2 + 3/(1-1)", "table x;0;1;1 fold x+ ;1",
          "clear foo", "table  x+y ; 0;1;1", " (( 1 )", "f(x,1)=2", "3=4", "h(x)=2x+3/(x-1)", " 1 + 2 + h(1)"]


def long_calls(c, n):
    """single lines with very many calls, side by side and nested"""
    rng, res = c.rng, []
    for _ in range(n):
        ls = ["f(x)=x+1", "g(x,y)=x-y", "c=2", "h(x)=f(x)-g(c,x)"]
        for _ in range(2):
            k = rng.choice([20, 35, 65, 70, 100])
            call = lambda d: rng.choice(["c", "f(%s)", "h(%s)", "g(%s,c)"]).replace("%s", call(d - 1) if d else rng.choice(["1", "c", "x"]))
            ls.append("".join(rng.choice(["+", "-"]) + call(rng.choice([0, 0, 0, 1])) for _ in range(k))[1:])
            ls.append("f(" * (k // 4) + "c" + ")" * (k // 4))
        ls += ["q(x)=" + ls[-1].replace("c", "x"), "q(1)"]
        res.append((rng.choice("in"), ls, {}))
    return res


def big_makers(rng):
    """expressions with a leaf at a place among very many operands, and deep inside"""
    def wide(k, leaf):
        f = rng.choice(["sum", "sum", "max", "min", "prod", "avg"])
        v = lambda: rng.choice(["1", "-1", "1", "1"]) if f == "prod" else rng.choice(["1", "2", "3", "5", "0.5", "-4", "(1+1)"])
        ops = [v() for _ in range(k)]
        for _ in range(rng.choice([1, 1, 3])):
            ops[rng.choice([0, k - 1, k - 1, rng.randrange(k)])] = leaf()
        return "%s(%s)" % (f, ",".join(ops))

    def deep(k, leaf):
        t = leaf()
        for _ in range(k):
            t = rng.choice(["(%s)", "-(%s)", "abs(%s)", "(%s)+1", "1-(%s)", "max(%s,1)"]) % t
        return t
    return wide, deep


def far_names(c, n):
    """definitions that are refused because of something far behind or deep inside, and their likes that are not"""
    rng, res = c.rng, []
    wide, deep = big_makers(rng)
    for _ in range(n):
        ls, f = [], rng.choice(["f", "g", "fun", "h_"])
        for _ in range(rng.choice([3, 4, 5])):
            ps = ["a", "b", "d", "i", "j", "k", "l", "m", "n", "o", "p", "q"][:rng.choice([0, 1, 1, 2, 3, 8, 9, 10])]
            if len(ps) > 1 and rng.random() < 0.2:
                ps[-1] = rng.choice([ps[0], ps[-2], "1", "c", "a+b"])
            call = f + ("(%s)" % ",".join(rng.choice(ps + ["2"]) for _ in ps) if ps else "")
            leaf = lambda: rng.choice([call, call, "u", "c", "2", (ps or ["3"])[-1], (ps or ["3"])[-1], "c", "sin(%s)" % call, "1/0"])
            body = wide(rng.choice([2, 7, 8, 9, 10, 15, 16, 17, 18, 33, 65, 100]), leaf) if rng.random() < 0.65 else deep(rng.choice([2, 8, 9, 16, 17, 33, 64, 65]), leaf)
            ls += [f + ("(%s)" % ",".join(ps) if ps else "") + "=" + body, f + ("(%s)" % ",".join("1" for _ in ps) if ps else ""), "clear " + f if rng.random() < 0.6 else "c=5"]
        res.append((rng.choice("in"), ls, {}))
    return res


def big_lines(c, n):
    """calls with very many operands, deep nesting and long names, in bodies and beside them"""
    rng, res = c.rng, []
    wide, deep = big_makers(rng)
    for _ in range(n):
        a = rng.choice("fghk") + "".join(rng.choice("abcx_") for _ in range(rng.choice([0, 30, 70, 130])))
        p = "".join(rng.choice("uvwx") for _ in range(rng.choice([1, 1, 25, 90])))
        big = lambda leaf: wide(rng.choice([7, 9, 15, 17, 31, 33, 63, 64, 65, 66, 100, 127, 128, 129, 140]), leaf) if rng.random() < 0.7 else deep(rng.choice([9, 17, 33, 65, 70]), leaf)
        ls = [rng.choice(["4", "7", "-3"]), "c=%s" % big(lambda: "ans"), "%s(%s)=%s" % (a, p, big(lambda: rng.choice([p, "c", "2"]))), "clear c", "9",
              "%s(%s)" % (a, rng.choice(["2", "ans", "y"])), big(lambda: rng.choice([a + "(1)", "@1", "3", a + "(@0)"])), "@0-@1", a + "=2", "clear " + a, a + "(2)", big(lambda: "1/0"), "table %s;0;1;1" % big(lambda: "x")]
        res.append((rng.choice("in"), ls, {}))
    return res


def many_calls(c, n):
    """more than a thousand calls in a line"""
    res = []
    for _ in range(n):
        k = c.rng.choice([1001, 1001, 1025])
        res.append((c.rng.choice("in"), ["c=2", "sum(%s)" % ",".join(["c"] * k), "ans-c"], {}))
    return res


def deep_loads(c, n):
    """chains of files that load each other, names of any length"""
    rng, res = c.rng, []
    for i in range(n):
        k = rng.choice([4, 8, 9, 10, 12, 17, 20])
        names = ["l%d_%d_%s" % (i, j, "n" * rng.choice([0, 0, 20, 55, 60, 100, 120, 200])) for j in range(k)]
        fs = {}
        for j, f in enumerate(names):
            fs[f] = [rng.choice(["ans+1", "c%s=%d" % ("d" * (j % 7), j), "@1", "f(x)=x+%d" % j, "f(ans)", "clear f", "# no", "1+1", "2ans"])] + (["load " + names[j + 1]] if j + 1 < k else [rng.choice(["1/0", "7", "nosuch+1"])])
            if rng.random() < 0.5:
                fs[f].append(rng.choice(["ans*2", "f(1)", "cd"] + (["load " + names[rng.randrange(j + 1, k)]] if j + 2 >= k > j + 1 else [])))
        res.append((rng.choice("in"), ["3", "load " + names[0], "ans", "load " + names[rng.randrange(k)], "f(2)"], fs))
    return res


def many_parameters(c, n):
    """functions of up to ten parameters (and one more), used in any order, more than once or not at all"""
    rng, res = c.rng, []
    for _ in range(n):
        k = rng.choice([3, 5, 9, 10, 10, 10, 11])
        ps = rng.sample(["a", "b", "d", "g", "h", "i", "j", "k", "l", "m", "n", "x", "y", "xx", "ab"], k)
        body = rng.choice([[ps[-1]], ps[::-1], rng.sample(ps, min(k, 3)), ps, [rng.choice(ps) for _ in range(6)]])
        text = "".join(rng.choice(["+", "-", "*"]) + rng.choice(["", "", "2*", "-"]) + p for p in body)[1:]
        args = [rng.choice(["1", "2", "3", "5", "7", "11", "-4", "0.5", "q(2,3)", "c", "(1+1)", "z"]) for _ in ps]
        swap = rng.sample(ps, k)
        res.append((rng.choice("in"), ["c=3", "q(u,v)=u-2*v", "f(%s)=%s" % (",".join(ps), text), "f(%s)" % ",".join(args),
                    "r(%s)=f(%s)" % (",".join(ps), ",".join(swap)), "r(%s)" % ",".join(args), "f(%s)" % ",".join(str(i * i + 1) for i in range(k)),
                    "f(%s)" % ",".join(args[:-1])], {}))
    return res


def P01(c):
    run(c, many_parameters(c, N(60, 600)), "out", "many parameters")
    run(c, big_lines(c, N(8, 60)), "out", "long lines")
    run(c, long_calls(c, N(10, 60)), "out", "many calls")
    behaviours(c, A_CALLS, N(3, 4), probes=["f(g(c,2))", "g(f(2),c)+c", "h(c,f(1))", "f(f(2))-g(1,2)"])
    run(c, sessions(c, N(1500, 20000), "P01"), "out")


def P02(c):
    behaviours(c, A_NAMES, N(3, 4))
    run(c, many_names(c, N(60, 600)) + far_names(c, N(120, 1500)), "out", "many names")
    run(c, sessions(c, N(1500, 20000), "P02", lo=5, hi=14), "out")


def P03(c):
    run(c, big_lines(c, N(25, 300)), "out", "long lines")
    behaviours(c, A_KEEP, N(3, 5) if not THOROUGH else 4)
    run(c, many_calls(c, N(1, 5)) + sessions(c, N(1500, 20000), "P03", lo=6, hi=14), "out")


def long_history(c, n):
    """results far back"""
    rng, res = c.rng, []
    for _ in range(n):
        ls = []
        for i in range(rng.choice([7, 8, 9, 15, 16, 17, 31, 33, 60, 110])):
            ls.append(rng.choice(["%d", "%d", "%d", "ans+%d", "-%d", "%d.5", "f(%d)"]) % rng.randint(0, 400))
            if rng.random() < 0.1:
                ls.append(rng.choice(["table x;0;1;1 fold x+y;%d" % i, "1/0", "# 3", "x+1", "f(x)=x*2", "clear", "1+"]))
            if rng.random() < 0.15:
                ls.append("@%d" % rng.randint(0, i + 2))
        for _ in range(8):
            ls.append(rng.choice(["@%d", "@%d-@0", "@%d", "@(%d+1)", "ans*@%d"]) % rng.choice([rng.randint(0, len(ls)), rng.randint(0, 20), len(ls) * 2]))
        res.append((rng.choice("in"), ls, {}))
    return res


def P04(c):
    run(c, long_history(c, N(40, 400)), "out", "long history")
    behaviours(c, A_HIST, N(3, 4))
    run(c, sessions(c, N(1500, 20000), "P04", lo=6, hi=14), "out")


def P05(c):
    behaviours(c, A_FAIL, N(3, 4), aspect="fail")
    run(c, big_lines(c, N(8, 60)), "fail", "long lines")
    run(c, sessions(c, N(1500, 20000), "P05"), "fail")
    behaviours(c, A_RULES, N(2, 3), files=R_FILES, inter=1, aspect="fail")
    rule_sessions(c, N(150, 3000), "with rules", aspect="fail", bad=0.5)


def P07(c):
    run(c, deep_loads(c, N(24, 300)), "out", "chains of files")
    behaviours(c, A_LOAD, N(3, 5), files=FILES)
    run(c, sessions(c, N(1500, 20000), "P07", loads=0.25, lo=3, hi=7), "out")
    behaviours(c, A_RULES, N(2, 3), files=R_FILES, aspect="fail")
    rule_sessions(c, N(150, 3000), "with rules", aspect="out", files_too=0.7)


def long_tables(c, n):
    """hundreds of rows"""
    rng, res = c.rng, []
    for i in range(n):
        k = rng.choice([9, 10, 11, 99, 100, 101, 130, 256, 300] if i % 6 else [256, 257, 300])
        st = rng.choice(["1", "0.5", "-1", "2", "0.25"])
        w = abs(float(st)) * (k - 1)
        a = rng.choice([0, 1, -3, 0.5])
        b = a + w * (-1 if rng.random() < 0.4 else 1) + rng.choice([0, 0, 0.125])
        ls = ["f(x)=x^2-1", "table %s ; %s ; %s ; %s%s" % (rng.choice(["x", "2x-1", "f(x)", "1/x", "sqrt(x)", "7"]), fmt(a), fmt(b), st, rng.choice(["", " fold x+y ; 0", " fold max(x,y);1", " fold y;3"])), "ans"]
        res.append(("i" if i % 12 == 0 else rng.choice("in"), ls, {}))
    return res


def fmt(v):
    return ("%g" % v) if v >= 0 else "-%g" % -v


def P18(c):
    run(c, long_tables(c, N(24, 150)), "out", "long tables")
    behaviours(c, A_TABLE, N(2, 3), inter=0)
    behaviours(c, A_TABLE, N(2, 3), inter=1)
    run(c, sessions(c, N(1500, 20000), "P18", lo=3, hi=7), "out")


def long_markers(c, n):
    """errors far to the right in lines of hundreds of tokens, or to the left of them"""
    rng, res = c.rng, []
    for _ in range(n):
        k = rng.choice([60, 127, 129, 140])
        ops = [rng.choice(["1", "2", "0.5", "f(1)", "c", " 3", "max(1,2)"]) for _ in range(k)]
        bad = lambda: rng.choice(["1/0", "sqrt(-1)", "ln(-1)", "@90", "zz", "f(0)", "g(1,1)", "asin(2)", "root(0,-1)", "5 mod 0"])
        wrong = lambda: rng.choice(["sin()", "mod", "max", "+*3", "f(1,2)", "%", "(1", "1)", "?", "g(1)", "$$"])
        at = rng.choice([0, k - 1, k - 2, rng.randrange(k)])
        e, w = list(ops), list(ops)
        e[at], w[at] = bad(), wrong()
        if rng.random() < 0.5:
            e[rng.randrange(k)] = bad()
        t = rng.choice(["sum(%s)", "1+2*max(3,%s)", "y(x)=x-sum(%s)"])
        res.append(("i", ["f(x)=2/x", "c=4", "g(u,v)=f(u-v)", t % ",".join(e), t % ",".join(w), "+".join(ops[:50]) + "-" + rng.choice([bad(), wrong()]), "c" + " " * rng.choice([70, 130, 260, 300]) + "*" + rng.choice([bad(), wrong()]),
                          "table " + "+".join(ops[:30]) + ";0;%s;1" % rng.choice([bad(), wrong()])], {}))
    return res


def P24(c):
    run(c, long_markers(c, N(12, 120)), "err", "long lines")
    behaviours(c, A_MARK, N(2, 3), inter=1)
    behaviours(c, A_MARK, N(2, 3), inter=0)
    run(c, sessions(c, N(1500, 20000), "P24", lo=3, hi=9), "err")
    rule_sessions(c, N(350, 5000), "with rules")


# ---------------------------------------------------------------- the help
A_HELP = ["f(x)=x-(1-x)", "g(x,y)=f(y)^2-x!", "c=-3", "k=1/4*c", "h(foo)=-(foo-c)^c*(2+foo)", "e1(_)=max(_,-_,1)%", "clear f", "clear", "f(x)=2mod x C(x mod 3)"]


def helps(c, n):
    """sessions that look at the help now and then"""
    res = []
    for fl, ls, fs in sessions(c, n, "P27", lo=4, hi=12):
        out = []
        for l in ls:
            out.append(l)
            if c.rng.random() < 0.25:
                out.append(c.rng.choice(["help", "help", "help operators"]))
        res.append((fl, out + ["help", "help operators"], fs))
    return res


def relist(c, n):
    """what is listed is entered again, in a session of its own: the listing stays"""
    first = [("n", ls, fs) for fl, ls, fs in sessions(c, n, "P27", loads=0, lo=6, hi=14, inter="n")]
    qs, files, rec = plain([(fl, ls + ["help"], fs) for fl, ls, fs in first])
    again = []
    for q, a in zip(qs, ask(qs, files=files)):
        if "crash" in a:
            continue
        ls = ANSI.sub("", a["r"][-1]["out"]).split("\n")
        heads = [i for i, l in enumerate(ls) if l.endswith(":")]
        own = [l for l in ls[heads[-1] + 1:] if " = " in l] if heads else []
        if own and not any("inf" in l or "nan" in l or re.search(r"\de[+-]", l) or re.search(r"\d{9}|\.\d{7}", l) for l in own):
            again.append((q, own))
    qs2, files2, rec2 = plain([("n", own + ["help"], {}) for _, own in again])
    listing = {q2: own for (_, own), q2 in zip(again, qs2)}
    c.conform("TraceSession", qs2, ask(qs2), lambda q, a: dict(rec2(q, a), listing=listing[q]), env={"ASPECT": "help"}, what="entered again")


def P27(c):
    behaviours(c, A_HELP, N(3, 4), extra="ListedAgain ")
    run(c, helps(c, N(500, 8000)), "help")
    run(c, [(fl, ls[:6] + ["help"] + ls[6:] + ["help", "help operators"], fs) for fl, ls, fs in many_names(c, N(30, 300))], "help", "many names")
    run(c, [("n", ["q%s%s=%d" % ("abcdefghijklmnop"[i // 26], "abcdefghijklmnopqrstuvwxyz"[i % 26], i) for i in range(257)] + ["help"], {})], "help", "hundreds of names")
    relist(c, N(350, 5000))
    rule_sessions(c, N(150, 1500), "with rules", aspect="help", looks=True)


# ------------------------------------------------------------- the process
def process(exe, d, q):
    args, stdin = q
    try:
        p = subprocess.run([exe] + list(args), input=stdin.encode("latin-1"), capture_output=True, cwd=d, env=ENV, timeout=30)
    except subprocess.TimeoutExpired:
        return {"crash": "time limit"}
    if p.returncode < 0:
        return {"crash": "signal %d" % -p.returncode}
    err = p.stderr.decode("latin-1")
    head = re.match(r"Error loading simplification ruleset: [^\n]*\n[^\n]*\n", err)
    return {"status": p.returncode, "out": ANSI.sub("", p.stdout.decode("latin-1")), "err": ANSI.sub("", err[head.end():] if head else err)}


def batch_runs(c, n):
    rng = c.rng
    files, qs = {}, []

    def body_lines(k, env, depth, i):
        ls = []
        for _ in range(k):
            j = rng.random()
            if j < 0.06:
                ls.append("quit")
            elif j < 0.14 and depth < 2:
                f = "p%d_%d" % (i, len(files))
                files[f] = ""
                files[f] = text(body_lines(rng.randint(0, 4), env, depth + 1, i))
                ls.append("load " + f)
            elif j < 0.24:
                ls.append(rng.choice(["", "# no", "#quit", "quit ", "quitx", " quit", "#", " "]))
            elif j < 0.34:
                ls.append(rng.choice(["1/0", "foo(", "@9", "clear nope", "load nofile", "load .", "f(x)=y", "table 1"]))
            else:
                t = line(rng, env, {"def": 2, "eval": 5, "hist": 3, "clear": 0.5})
                ls.append(t)
        return ls

    def text(ls):
        t = "".join(x + "\n" for x in ls)
        return t[:-1] if ls and rng.random() < 0.4 else t
    fixed = [((), ""), ((), "\n"), ((), "1"), ((), "1\n"), ((), "1/0"), ((), "quit"), ((), "1/0\nquit\n1"), ((), "quit\n1/0"), (("-c",), "1/0\n"), (("-c", "1", "quit", "1/0"), ""),
             (("-c", "", "# x", "2"), ""), (("-c", "1/0", "2"), ""), (("-c", "1", "x=", "2"), ""), (("--commands", "3"), "4"), (("-i", "-c", "3"), "4\n1/0"), (("-q",), "5"),
             (("-c", "5", "-i"), "6"), (("-x",), "1"), (("-h",), ""), (("-v", "-c", "1"), ""), (("-q", "-i"), "7"), (("--interactive", "-c", "1/0"), "8"), (("--quiet", "--commands", "9", "@0"), ""),
             (("", "-c"), ""), (("-c", "quit"), "1"), (("-i", "-c", "quit"), "1")]
    for a, t in fixed:
        qs.append((a, t))
    for k in N([10, 32, 64, 100, 128, 256, 1000, 1024, 2048, 5000], [10, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 4096, 5000, 10000]):
        for t in ["#" + "x" * (k - 1), "0" * (k - 1) + "7" if k < 300 else "# " + "1/0 " * (k // 4)]:
            qs.append(((), "3\n" + t + "\nans+1\n" + t))
            qs.append(((), t + "\n1/0"))
            qs.append((("-c", t, "2"), ""))
    for k in N([15, 16, 17, 100, 300], [15, 16, 17, 100, 300, 700]):
        qs.append(((), "".join("ans+1\n" if j else "1\n" for j in range(k))))
        qs.append(((), "".join("\n# %d\n" % j for j in range(k)) + "5"))
        files["q%d" % k] = "".join("ans+%d\n" % (j % 3) if j else "1\n" for j in range(k)) + "# " + "y" * k + "\n" + "0" * min(k, 200) + "8"
        qs.append(((), "load q%d\nans" % k))
    qs.append(((), "load q100\nload q16\nans\nload q17\nload q15"))
    for i in range(n):
        env = Names()
        k = rng.random()
        if k < 0.5:
            qs.append(((), text(body_lines(rng.randint(0, 8), env, 0, i))))
        else:
            a = rng.choice([("-c",), ("-c",), ("-q", "-c"), ("-i", "-c"), ("--interactive", "--commands")])
            cmds = [x for x in body_lines(rng.randint(0, 5), env, 0, i)]
            qs.append((a + tuple(cmds), text(body_lines(rng.randint(0, 4), env, 0, i))))
    for k in (255, 256, 257, 512):          # failures and commands beyond a byte
        qs.append(((), "1/0\n" * k + rng.choice(["quit\n", "", "2\n", "quit"])))
        qs.append((("-c",) + ("3",) * (k - 1) + (rng.choice(["1/0", "4", "load nofile"]),), ""))
    return files, qs


def P06(c):
    behaviours(c, ["1", "1/0", "", "# x", "ans+1", "c=ans", "c", "load a", "load b", "f(x)=1/x", "f(0)"], N(2, 3), files={"a": ["1/0", "2", "3"], "b": ["2", "load a", "ans"]})
    exe = build("ccalc")
    d = os.path.join(SCRATCH, "proc")
    os.makedirs(d)
    files, qs = batch_runs(c, N(600, 6000))
    for f, t in files.items():
        open(os.path.join(d, f), "w", encoding="latin-1").write(t)

    hung = []

    def go(q):
        if len(hung) >= 10:
            return {"crash": "skipped"}
        a = process(exe, d, q)
        if "crash" in a:
            hung.append(q)
        return a
    with ThreadPoolExecutor(8) as ex:
        ans = list(ex.map(go, qs))

    def used(t, acc):
        for f in re.findall(r"load (p\d+_\d+|q\d+)", t):
            if f not in acc:
                acc[f] = files[f]
                used(files[f], acc)
        return acc
    recs, idx = [], []
    for q, a in zip(qs, ans):
        if "crash" in a:
            if a["crash"] != "skipped":
                a = process(exe, d, q) if not c.viol else {"crash": "skipped"}
        if "crash" in a:
            if a["crash"] != "skipped":
                c.fail("the program ended with %s" % a["crash"], {"request": [list(q[0]), q[1]], "files": used(q[1] + "\n".join(q[0]), {})})
            continue
        recs.append(dict(a, args=list(q[0]), stdin=q[1], files=dict(used(q[1] + "\n".join(q[0]), {}), **{"\n": ""})))
        idx.append(q)
    bad, r = validate("TraceBatch", recs)
    c.count(r)
    c.traces += len(recs)
    c.notes.setdefault("conformance", []).append({"module": "TraceBatch (processes)", "records": len(recs), "rejected": len(bad)})
    c.samples += [shorten(recs[k]) for k in c.spread(len(recs), 3)]
    ks = sorted(bad)[:40]
    again = [process(exe, d, idx[k]) for k in ks]
    still, _ = validate("TraceBatch", [dict(recs[k], **a) for k, a in zip(ks, again) if "crash" not in a])
    live = [k for k, a in zip(ks, again) if "crash" not in a]
    for k in [live[j] for j in sorted(still)] + [k for k in ks if k not in live]:
        c.fail("TraceBatch: " + bad[k], {"request": [list(idx[k][0]), idx[k][1]], "files": recs[k]["files"], "recorded": recs[k], "verdict": bad[k]})
