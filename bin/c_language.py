import json, os, sys
from vlib import *
import gen


def texts(c, n_rand, ex_len):
    """(ctx, text) pairs: exhaustive short token sequences and random ones."""
    rng = c.rng
    seen, res = set(), []

    def add(ctx, t):
        if (ctx, t) not in seen and len(t) < 400 and "\t" not in t:
            seen.add((ctx, t))
            res.append((ctx, t))
    alph = {"arith": ["x", "2", "-", "^", "*", "!", "'", "(", ")", ",", "sin", "max", "pi", "root"],
            "eqp": ["x", "-", "+", "*", "!", "?", "(", ")", ",", "f", "h", "k", "@", "&", ":"],
            "noglue": ["x", "3", "++", "+", "=", "=>", "(", ")", ",", "f", "max", "c"],
            "glfn": ["x", "^", "-", "!", "(", ")", ",", "f", "g", "k"],
            "glf2": ["x", "+", "-", "!", "(", ")", ",", "h", "k"],
            "glue0": ["x", "&", "^", "-", "!", "'", "%", "(", ")", "f", "v", "n"]}
    for ctx, a in alph.items():
        for s in gen.sequences(a, 0, ex_len):
            add(ctx, " ".join(s) if rng.random() < 0.5 else gen.glue_text(rng, s, 0))
    ctxs = ["arith"] * 3 + list(gen.CTXS)
    while n_rand > 0:
        ctx = rng.choice(ctxs)
        e = gen.expr(rng, ctx, rng.choice([2, 3, 3, 4, 5]))
        if len(e) > 45:
            continue
        if rng.random() < 0.5:
            e = gen.mutate(rng, e, gen.pool_of(ctx))
        add(ctx, gen.glue_text(rng, e))
        n_rand -= 1
    return res


def char_texts(c, n, exlen):
    rng = c.rng
    res = []
    small = {"arith": "a2.+-(", "noglue": "f+=>c3", "eqp": "<>-x.", "dots": ".01<x"}
    for ctx, a in small.items():
        for s in gen.sequences(a, 0, exlen):
            res.append((ctx, "".join(s)))
    full = [chr(i) for i in range(32, 127)]
    frag = ["mod", "C", "sin", "asin", "sinh", "max", "pi", "inf", "nan", "[xs]", "1.5", ".", "..", "  ", "+", "++", "+++", "=>", "=", "<>", "<", "foo_bar"]
    for _ in range(n):
        ctx = rng.choice(["arith", "prop", "eqp", "noglue", "glue0", "dots"])
        res.append((ctx, "".join(rng.choice(full) if rng.random() < 0.5 else rng.choice(frag) for _ in range(rng.randint(1, 14)))))
    return res


def run(c, aspect):
    ctxs = os.path.join(SCRATCH, "ctxs.json")
    json.dump(gen.ctx_json(), open(ctxs, "w"))
    env = {"CTXS": ctxs, "ASPECT": aspect}
    setup = gen.ctx_setup()
    if aspect == "tokens":
        ins = char_texts(c, 60000 if THOROUGH else 8000, 6 if THOROUGH else 4) + texts(c, 4000, 2)
    elif aspect == "print":
        ins = texts(c, 60000 if THOROUGH else 12000, 4 if THOROUGH else 3)
    else:
        ins = texts(c, 60000 if THOROUGH else 12000, 4 if THOROUGH else 3)
    if aspect != "tokens":
        ins += char_texts(c, 3000, 2)
    ins += list(long_texts(c))
    if aspect == "print":      # texts of numbers would be cut at such names
        ins = [x for x in ins if x[0] != "dots"]
    qs = [("parse",) + x for x in ins]
    ans = ask(qs, setup=setup)

    def rec(q, a):
        r = {"ctx": q[1], "text": q[2], "toks": a["toks"], "err": a["err"], "at": a["at"]}
        if a["err"] == "":
            if aspect in ("parse", "tree", "print"):
                r["tree"] = a["tree"]
            if aspect == "print":
                r.update(str=a["str"], col=a["col"], eq=a["eq"], re=a["re"] or {"k": "none"})
        elif aspect == "print":
            return None
        return r
    c.conform("TraceParse", qs, ans, rec, env=env, setup=setup, what=aspect)
    return qs, ans


SHUNT_CFG = ("CONSTANTS Ctx <- MCCtx\nAlphabet <- MCAlphabet\nMaxTokens <- MCMaxTokens\n"
             "INIT Init\nNEXT Next\nINVARIANTS %s\n")
LEX_CFG = 'CONSTANTS Kws = %s Chars = %s MaxLen = %d\nINIT Init\nNEXT Next\nINVARIANTS Computes Loses Shape Runs\n'


def shunting(c, inv, depths):
    for which, d in depths:
        c.design("MCShunting", SHUNT_CFG % inv, env={"WHICH": which, "DEPTH": str(d)})


def long_texts(c):
    """Inputs far longer than the initial capacity of every buffer."""
    rng = c.rng
    leaf = lambda: rng.choice(["x", "2", "y", "1.5", "sum(y)", "(x)"])
    join = lambda n, seps: "".join(leaf() + rng.choice(seps) for _ in range(n - 1)) + leaf()
    for n in (255, 256, 257, 300, 520) if THOROUGH else (257, 300):            # beyond what a byte counts
        yield ("arith", "max(%s)" % join(n, [",", ",", ",", "-", ",-", "!,"]))
        yield ("arith", "x-sum(%s)*2" % join(n, ","))
        yield ("arith", "%s*%sy/x" % (join(40, ["+", "*", " ^", " "]), " " * n))
        yield ("arith", "%s(%s" % (" " * n, rng.choice(["x))", "x", "sin())", "sin(x,y))", "x y,)", "-*)"])))
    for _ in range(60 if THOROUGH else 12):
        n = rng.choice([12, 25, 40])
        k = rng.randint(0, 5)
        if k == 0:
            t = "(" * n + "x" + ")" * (n - rng.choice([0, 0, 1]))
        elif k == 1:
            t = "".join("x" + rng.choice("+-*/^") for _ in range(n)) + "x"
        elif k == 2:
            t = "-" * n + "x" + "!" * rng.randint(0, n)
        elif k == 3:
            t = "max(" + ",".join(rng.choice(["x", "2", "sum(x,y)", "-z"]) for _ in range(n)) + ")"
        elif k == 4:
            t = "sin(" * n + "x" + ")" * n
        else:
            t = "x^" * n + "y" + "z " * n
        yield ("arith", t)


def P08(c):
    """tokens"""
    c.design("LexMachine", LEX_CFG % ('{"+","++","mod","+1",".."}', '{"a","d","2",".","+"," ","("}', 6 if THOROUGH else 4))
    c.design("LexMachine", LEX_CFG % ('{"<>","=","=>","f"}', '{"f","<",">","=","1"}', 7 if THOROUGH else 5))
    run(c, "tokens")


def P09(c):
    shunting(c, "Agrees", [("1", 6), ("2", 8), ("3", 6), ("4", 7), ("5", 7), ("6", 7), ("7", 7)] if THOROUGH else [("1", 5), ("2", 5), ("3", 4), ("6", 5)])
    run(c, "tree")


def P10(c):
    shunting(c, "Agrees", [("1", 6), ("2", 8), ("3", 6), ("4", 7), ("5", 7), ("6", 7), ("7", 7)] if THOROUGH else [("1", 4), ("2", 6), ("3", 5), ("7", 5)])
    run(c, "parse")


def P11(c):
    shunting(c, "RoundTrip", [("1", 6), ("2", 8), ("3", 6), ("4", 7), ("5", 7), ("6", 7), ("7", 7)] if THOROUGH else [("1", 5), ("4", 5), ("5", 5), ("6", 5)])
    run(c, "print")
