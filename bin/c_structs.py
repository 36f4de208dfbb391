import json, os, re
from vlib import *

N = lambda q, t: t if THOROUGH else q


def words(o):
    k = o[0]
    if k in ("add", "addmany") and isinstance(o[1], list):
        return k + " " + " ; ".join(opspec(x) for x in o[1:])
    if k == "noglue":
        return "glue none"
    if k == "lit" or k == "app" or k == "chr":
        return "%s %s" % (k, o[1])
    return " ".join(str(x) if x != "" else "-" for x in o)


def opspec(x):
    return "%s %s %s%s" % (x[0], x[1], x[2], " " + x[3] if x[0] == "inf" else "")


def request(kind, cfg, ops):
    if kind == "vec":
        head = ("vec", str(cfg["elem"]), str(cfg["start"]))
    elif kind == "list":
        head = ("list", str(cfg["elem"]))
    elif kind == "trie":
        head = ("trie", str(cfg["elem"]) + ("n" if cfg.get("long") else ""), " ".join(p or "-" for p in cfg["probes"]))
    elif kind == "strb":
        head = ("strb", cfg["start"])
    else:
        head = ("ops", " ".join(cfg["probes"]), cfg["text"])
    return head + tuple(words(o) for o in ops)


class Runs:
    def __init__(self, c, kind):
        self.c, self.kind, self.qs, self.meta = c, kind, [], {}

    def add(self, cfg, ops):
        q = request(self.kind, cfg, ops)
        if q not in self.meta and ops:
            self.meta[q] = (cfg, ops)
            self.qs.append(q)

    def check(self, what):
        def rec(q, a):
            cfg, ops = self.meta[q]
            return {"kind": self.kind, "start": "heap" if cfg.get("start") == "h" else "", "pay": 1 if cfg.get("elem") else 0, "through": 0 if cfg.get("long") else 1, "probes": cfg.get("probes", []), "text": cfg.get("text", ""), "ops": ops, "r": a["r"]}
        self.c.conform("TraceContainers", self.qs, ask(self.qs), rec, what=what)


def generate(c, kind, ops, depth):
    """all behaviours of the machine of that depth, by TLC"""
    f = os.path.join(SCRATCH, "ops-%s.json" % kind)
    json.dump({"kind": kind, "ops": ops, "depth": depth}, open(f, "w"))
    r = c.design("MCContainers", "INIT Init\nNEXT Next\nINVARIANTS Laws Emit\n", env={"ALPHABET": f})
    hs = [json.loads(m) for m in re.findall(r'^"OPS (.*)"$', r.out, re.M)]
    if not hs:
        raise Tool("MCContainers: no behaviours")
    return [[ops[i - 1] for i in h] for h in hs]


def structures(c):
    c.design("MCStructures", 'INIT Init\nNEXT Next\nINVARIANTS ListRefines TrieRefines\nCONSTANTS NODES = %d\nWORDS = {"", "a", "ab", "abc", "b", "bc"}\n' % N(3, 4))


def vecops(rng, n, elem):
    out, k = [], 0
    for _ in range(n):
        x = rng.random()
        v = lambda: rng.randrange(30)
        if x < 0.45:
            out.append([rng.choice(["push", "pushe"]), v()]); k += 1
        elif x < 0.6:
            m = rng.choice([0, 1, 2, 3, 5, 9, 13])
            out.append(["many"] + [v() for _ in range(m)]); k += m
        elif x < 0.72:
            out.append(["pop"]); k = max(0, k - 1)
        elif x < 0.8 and k:
            out.append(["get", rng.randrange(k)])
        elif x < 0.88 and k:
            out.append(["set", rng.randrange(k), v()])
        elif x < 0.92:
            out.append(["peek"])
        elif x < 0.94:
            out.append(["clear"]); k = 0
        elif x < 0.97:
            out.append(["trim"])
        else:
            out.append(["ensure", rng.choice([0, 1, 5, 17, 40])])
    return out


def listops(rng, n):
    out, k = [], 0
    for _ in range(n):
        x, v = rng.random(), rng.randrange(30)
        if x < 0.25:
            out.append(["app", v]); k += 1
        elif x < 0.45:
            out.append(["insat", rng.choice([0, k, rng.randint(0, k)]), v]); k += 1
        elif x < 0.62:
            out.append(["insafter", rng.choice([-1, k - 1, rng.randint(-1, k - 1)]), v]); k += 1
        elif x < 0.97 and k:
            out.append([rng.choice(["delat", "delnode"]), rng.choice([0, k - 1, rng.randrange(k)])]); k -= 1
        elif x > 0.98:
            out.append(["destroy"]); k = 0
    return out


def P20(c):
    rng = c.rng
    structures(c)
    v = Runs(c, "vec")
    ops = [["push", 1], ["pushe", 2], ["many", 3, 4, 5], ["many"], ["pop"], ["peek"], ["set", 0, 6], ["get", 1], ["clear"], ["trim"], ["ensure", 3]]
    for i, b in enumerate(generate(c, "vec", ops, N(4, 5))):
        v.add({"elem": [1, 8, 3, 16][i % 4], "start": [0, 1, 2, 4][i // 4 % 4]}, b)
    for _ in range(N(400, 6000)):
        e = rng.choice([1, 2, 3, 4, 7, 8, 16, 24, 40, 64])
        v.add({"elem": e, "start": rng.choice([0, 1, 2, 3, 10, 100])}, vecops(rng, rng.choice([10, 30, 60]), e))
    for e in [1, 8, 100, 256, 300, 511]:              # large elements and many of them
        for _ in range(N(2, 10)):
            v.add({"elem": e, "start": rng.choice([0, 1, 255, 256, 300])}, vecops(rng, 10, e) + [[rng.choice(["reps", "bulk"]), rng.choice([255, 256, 257, 300, 600])], ["get", rng.choice([200, 254])], ["many", 3, 4], ["pops", 255], ["push", 7], ["trim"], ["pop"]])
    v.check("vectors")
    l = Runs(c, "list")
    ops = [["app", 1], ["insat", 0, 2], ["insat", 1, 3], ["insat", 2, 4], ["insafter", -1, 5], ["insafter", 0, 6], ["insafter", 1, 7], ["delat", 0], ["delnode", 1], ["delat", 2], ["destroy"]]
    for i, b in enumerate(generate(c, "list", ops, N(4, 6))):
        l.add({"elem": [1, 8, 3, 24][i % 4]}, b)
    for _ in range(N(400, 6000)):
        l.add({"elem": rng.choice([1, 2, 4, 8, 16, 40, 64])}, listops(rng, rng.choice([10, 30, 60])))
    for e in [1, 8, 100, 256, 300, 511]:
        for _ in range(N(2, 10)):
            i = rng.choice([254, 255, 256])
            l.add({"elem": e}, listops(rng, 10) + [["reps", rng.choice([300, 257, 512])], ["insat", i, 8], ["delat", rng.choice([0, i])], ["insafter", i, 5], ["delnode", i + 1], ["app", 2], ["insat", 0, 4]])
    l.check("lists")


LETTERS = "ab"
CHARS = "!\"#$%&'()*+,-./0123456789:;<=>?@AMZ[\\]^_`amz{|"


def triewords(rng):
    if rng.random() < 0.5:
        return [""] + ["".join(rng.choice(LETTERS) for _ in range(rng.randint(1, 5))) for _ in range(9)]
    base = "".join(rng.choice(CHARS) for _ in range(rng.choice([2, 4, 9, 28])))
    return list({base[:rng.randint(1, len(base))] + "".join(rng.choice(CHARS) for _ in range(rng.choice([0, 0, 1, 2]))) for _ in range(8)} | {rng.choice(CHARS), "!", "|"}) + [""]


def P21(c):
    rng = c.rng
    structures(c)
    t = Runs(c, "trie")
    ws = ["", "a", "ab", "abc", "b"]
    ops = [["add", w, i + 1] for i, w in enumerate(ws)] + [["rem", w] for w in ws]
    probes = ["", "a", "ab", "abc", "abcd", "abd", "b", "ba", "c", "ac"]
    for i, b in enumerate(generate(c, "trie", ops, N(4, 5))):
        t.add({"elem": [1, 8, 0, 4][i % 4], "probes": probes}, b)
    for _ in range(N(700, 8000)):
        ws = [w[:28] for w in triewords(rng) if w != "-"]
        pr = list(dict.fromkeys(ws + [w + rng.choice("a~}b!") for w in ws] + [w[:-1] for w in ws] + ["~", "x~y"]))
        pr = [p for p in pr if p != "-"][:40]
        os_ = []
        for _ in range(rng.choice([8, 20, 40])):
            w = rng.choice(ws)
            os_.append(["add", w, rng.randrange(30)] if rng.random() < 0.55 else ["rem", rng.choice([w, w, rng.choice(pr)])])
        t.add({"elem": rng.choice([0, 1, 2, 8, 24]), "probes": pr}, os_)
    for _ in range(N(8, 60)):                         # many strings
        b, n = "".join(rng.choice("ab") for _ in range(rng.randint(0, 3))) or "x", rng.choice([255, 256, 257, 300])
        pr = [b, b + "a", b + "aa", b + "aab", b + "jv", b + "jw", b + "zz", "", b[:1]]
        t.add({"elem": rng.choice([1, 8, 24]), "probes": list(dict.fromkeys(pr))}, [["add", b, 7], ["adds", b, n], ["add", b + "a", 9], ["rem", b + "jv"], ["rem", b], ["rems", b, rng.choice([100, 254, n])]])
    for _ in range(N(20, 300)):                       # long strings, which the iterator does not support
        w = "".join(rng.choice("abc") for _ in range(rng.choice([30, 64, 130, 255, 256, 257, 400, 1000])))
        ws = [w, w[:-1], w + "a", w[:len(w) // 2], w[:-1] + "z", w[:30], w[:3]]
        t.add({"elem": rng.choice([0, 1, 8, 100]), "long": 1, "probes": list(dict.fromkeys(ws))}, [["add", rng.choice(ws), rng.randrange(30)] if rng.random() < 0.6 else ["rem", rng.choice(ws)] for _ in range(rng.choice([5, 12]))])
    t.check("tries")


NAMES = ["+", "-", "++", "a", "ab", "abs", "x1", "+-", "a1", "1a", "$", "mod"]


def anop(rng):
    k = rng.choice(["pre", "inf", "inf", "inf", "post", "fn"])
    n = rng.choice(NAMES)
    return [k, n, rng.choice([0, 1, 2, -1, 3])] if k == "fn" else [k, n, rng.randint(0, 4)] + ([rng.choice("LR")] if k == "inf" else [])


def P22(c):
    rng = c.rng
    o = Runs(c, "ops")
    ops = [["add", ["inf", "+", 1, "L"]], ["add", ["inf", "-", 1, "R"]], ["add", ["inf", "++", 2, "R"]], ["add", ["pre", "+", 3]], ["add", ["fn", "+", -1]], ["del", "inf", "+"], ["del", "pre", "+"], ["del", "fn", "+"], ["glue", "inf", "+"], ["glue", "pre", "+"], ["noglue"],
           ["addmany", ["inf", "-", 1, "L"], ["inf", "++", 1, "R"]]]
    for b in generate(c, "ops", ops, N(4, 5)):
        o.add({"probes": ["+", "-", "++"], "text": "a+++-b"}, b)
    for _ in range(N(600, 8000)):
        b = []
        for _ in range(rng.choice([6, 15, 30])):
            k = rng.random()
            b.append(["add", anop(rng)] if k < 0.5 else ["addmany", anop(rng), anop(rng)] if k < 0.55 else ["del", rng.choice(["pre", "inf", "post", "fn"]), rng.choice(NAMES)] if k < 0.87
                     else ["glue", rng.choice(["pre", "inf", "inf", "post", "fn"]), rng.choice(NAMES)] if k < 0.97 else ["noglue"])
        o.add({"probes": NAMES, "text": rng.choice(["a+++-b", "abs1a 2x1$", "modabs+-a1", "x1+ab1a", "1a1a+a1$$"])}, b)
    for _ in range(N(6, 60)):                         # many operators, added and deleted again
        k = rng.choice([100, 200, 255, 256, 300])
        b = [["add", ["inf", "+", 255, "L"]], ["add", ["inf", "-", rng.choice([255, 254, 128]), "R"]], ["adds", k, 3], ["add", anop(rng)], ["dels", rng.choice([k, 50, k - 1])], ["add", ["fn", "abs", rng.choice([10, 255, 256, 300, 1000])]],
             ["adds", rng.choice([k, 60]), 4], ["add", ["inf", "++", rng.choice([255, 0, 254, 128]), rng.choice("LR")]], ["dels", k], ["adds", 30, 2]]
        o.add({"probes": ["+", "-", "++", "abs", "qaa", "qab", "qcv", "qjv", "qlz"], "text": "abs1a qaaqjv+-"}, b)
    o.check("operator tables")


ASCII = "abc %\\\n\t" * 6 + "".join(chr(i) for i in range(33, 127))


def P23(c):
    rng = c.rng
    s = Runs(c, "strb")
    ops = [["app", ""], ["app", "a"], ["app", "bcd%s"], ["lit", "x"], ["int", 7], ["chr", "z"], ["clear"], ["app", "0123456789"]]
    for i, b in enumerate(generate(c, "strb", ops, N(4, 5))):
        s.add({"start": ["0", "1", "2", "5", "h"][i % 5]}, b)
    for _ in range(N(500, 8000)):
        b = []
        for _ in range(rng.choice([3, 10, 30])):
            k = rng.random()
            t = "".join(rng.choice(ASCII) for _ in range(rng.choice([0, 1, 2, 3, 7, 15, 16, 17, 40, 100] * 6 + [255, 256, 300, 1024, 3000, 9000])))
            b.append(["app", t] if k < 0.5 else ["lit", t] if k < 0.6 else ["int", rng.choice([0, -5, 123456, 99999, -99999, 3])] if k < 0.75 else ["chr", rng.choice(ASCII[:50] if k < 0.8 else ASCII)] if k < 0.95 else ["clear"])
        s.add({"start": rng.choice(["0", "1", "2", "3", "10", "64", "h"])}, b)
    for n in N([65535, 65536, 70000], [65534, 65535, 65536, 65537, 70000, 131072, 200001]):
        s.add({"start": rng.choice(["0", "3", "h"])}, [["chr", "y"], [rng.choice(["app", "lit"]), "abcdefg" * (n // 7) + "x" * (n % 7)], ["chr", "z"], ["app", "tail"]])
    s.check("string builders")
