"""Generators of inputs: texts, expressions, token sequences, contexts."""
import itertools, re

ARITH_PRE = ["$", "@", "+", "-"]
ARITH_INF = ["+", "-", "*", "/", "^", " C ", " mod "]
ARITH_POST = ["!", "%", "'"]
FN1 = "exp sqrt ln ld lg sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh abs ceil floor round trunc frac sgn fib gamma".split()
FN2 = "deriv root log gcd lcm rand".split()
FNV = "max min sum prod avg var".split()
CONST = "pi e phi clight csound ans".split()
VARS = ["x", "y", "z", "a", "b_", "[xs]", "foo"]
NUMS = ["0", "1", "2", "3", "10", "2.5", ".5", "7.", "100", "0.125", "1024", "1.5", "0.1", "12345678", "3.14159"]

# ---------------------------------------------------------------- contexts
# name -> list of (placement, name, precedence/arity, "L"/"R"/"", glue?)
CTXS = {
    # equal precedences of every kind of neighbour, right associative glue
    "eqp": [("pre", "-", 3), ("pre", "@", 5), ("pre", "&", 1), ("inf", "+", 3, "L"), ("inf", "*", 5, "R"), ("inf", "<>", 1, "L"),
            ("inf", ";", 4, "R", True), ("post", "!", 3), ("post", "?", 5), ("post", ":", 1), ("fn", "f", 1), ("fn", "g", 2),
            ("fn", "h", -1), ("fn", "k", 0)],
    # no glue, overlapping names, a name in several placements
    "noglue": [("pre", "+", 2), ("pre", "++", 6), ("inf", "+", 4, "L"), ("inf", "+++", 4, "L"), ("inf", "=>", 1, "R"), ("inf", "=", 2, "R"),
               ("post", "++", 5), ("post", "=", 3), ("fn", "f", 3), ("fn", "max", -1), ("fn", "c", 0), ("pre", "f", 4), ("inf", "c", 3, "L"), ("inf", "over", 3, "L")],
    # names that begin like numbers
    "dots": [("inf", ".", 4, "R", True), ("post", "0", 3), ("inf", "..", 3, "L"), ("fn", "f", 1), ("pre", "<1", 5)],
    # extreme precedences, left associative glue that binds weakest / strongest
    "glue0": [("inf", "&", 0, "L", True), ("inf", "^", 200, "R"), ("pre", "-", 0), ("pre", "!", 200), ("post", "'", 200), ("post", "%", 0),
              ("inf", "|", 7, "L"), ("fn", "f", 1), ("fn", "n", 0), ("fn", "v", -1)],
    # functions implied between neighbours
    "glfn": [("fn", "f", -1, "L", True), ("pre", "-", 3), ("inf", "+", 3, "L"), ("inf", "^", 200, "R"), ("post", "!", 4), ("fn", "g", 1), ("fn", "k", 0)],
    "glf2": [("fn", "h", 2, "L", True), ("pre", "-", 200), ("inf", "+", 0, "R"), ("post", "!", 200), ("fn", "v", -1), ("fn", "k", 0)],
    "glue9": [("inf", "&", 9, "R", True), ("inf", "^", 8, "L"), ("pre", "-", 9), ("pre", "!", 8), ("post", "'", 9), ("post", "%", 8), ("fn", "f", 2), ("fn", "v", -1)],
}


def ctx_setup(names=None):
    res = []
    for n in (names or CTXS):
        fs = []
        for o in CTXS[n]:
            f = "%s %s %d" % (o[0], o[1], o[2])
            if len(o) > 3:
                f += " " + o[3] + ("G" if len(o) > 4 else "")
            fs.append(f)
        res.append(("ctx", n) + tuple(fs))
    return res


def ctx_json():
    r = {}
    for n, ops in CTXS.items():
        c = {"pre": {}, "inf": {}, "post": {}, "fn": {}, "glue": ""}
        for o in ops:
            if o[0] == "inf":
                c["inf"][o[1]] = [o[2], 0 if o[3] == "L" else 1]
            else:
                c[o[0]][o[1]] = o[2]
            if len(o) > 4:
                c["glue"] = o[1]
        r[n] = c
    return r


def lexicon(ctx):
    """pre, inf, post, fns {name: arity} of a context"""
    if ctx == "arith":
        fn = {n: 1 for n in FN1}
        fn.update({n: 2 for n in FN2})
        fn.update({n: -1 for n in FNV})
        fn.update({n: 0 for n in CONST})
        return ARITH_PRE, [x.strip() for x in ARITH_INF], ARITH_POST, fn
    ops = CTXS[ctx]
    return ([o[1] for o in ops if o[0] == "pre"], [o[1] for o in ops if o[0] == "inf"],
            [o[1] for o in ops if o[0] == "post"], {o[1]: o[2] for o in ops if o[0] == "fn"})


def sequences(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


KEPT = set(FN1 + FN2 + FNV + CONST) | {"C", "mod", "clear", "table", "load", "help", "license", "fold", "WHERE", "type", "equal", "TRUE", "FALSE", "OP", "VAR",
                                      "operators", "simplification", "inf", "nan", "quit", "debug", "count"}


def longer(rng):
    """renames the identifiers of a text: long names that begin alike"""
    p = rng.choice(["temperature_", "abcdefghi", "abcdefghij", "p" * 15, "abcdefghijklmno_", "x" * 31, "the_length_of_a_name_is_not_limited_to_"])
    return lambda t: re.sub(r"[\[\]A-Za-z_]+", lambda m: m.group(0) if m.group(0) in KEPT or "[" in m.group(0) or "]" in m.group(0) else p + m.group(0), t)


def glue_text(rng, toks, spaces=0.15):
    """Joins tokens; puts a space where two would merge, and sometimes elsewhere."""
    out = ""
    for t in toks:
        if out and t:
            a, b = out[-1], t[0]
            w = lambda c: c.isalpha() or c in "_[]"
            d = lambda c: c.isdigit() or c == "."
            if (w(a) and w(b)) or (d(a) and d(b)) or rng.random() < spaces:
                out += " " * rng.choice([1, 1, 1, 2, 3])
            elif not w(a) and not d(a) and not w(b) and not d(b) and a not in "()," and b not in "()," and rng.random() < 0.5:
                out += " "
        out += t
    if rng.random() < 0.05:
        out = " " * rng.randint(1, 3) + out
    if rng.random() < 0.05:
        out += " " * rng.randint(1, 3)
    return out


def expr(rng, ctx, depth, nums=NUMS, vars=VARS, fns=None, pre=None, inf=None, post=None):
    """A random well-formed expression as a list of tokens."""
    lpre, linf, lpost, lfn = lexicon(ctx)
    pre = lpre if pre is None else pre
    inf = linf if inf is None else inf
    post = lpost if post is None else post
    fns = lfn if fns is None else fns

    def go(d):
        k = rng.random()
        if d <= 0 or k < 0.12:
            j = rng.random()
            if j < 0.5:
                return [rng.choice(nums)]
            consts = [n for n, a in fns.items() if a == 0]
            if j < 0.65 and consts:
                return [rng.choice(consts)]
            return [rng.choice(vars)]
        if k < 0.45 and inf:
            return go(d - 1) + [rng.choice(inf)] + go(d - 1)
        if k < 0.58 and pre:
            return [rng.choice(pre)] + go(d - 1)
        if k < 0.70 and post:
            return go(d - 1) + [rng.choice(post)]
        if k < 0.82:
            o, c = ("(", ")") if rng.random() < 0.85 else ("{", rng.choice(")}"))
            return [o] + go(d - 1) + [c]
        if k < 0.88 and ctx in ("arith", "eqp", "dots", "glue0", "glue9", "glfn", "glf2"):
            return go(d - 1) + go(d - 1)
        calls = [n for n, a in fns.items() if a != 0]
        if not calls:
            return go(d - 1)
        f = rng.choice(calls)
        n = fns[f] if fns[f] > 0 else rng.choice([0, 1, 2, 3, 4])
        res = [f, "("]
        for i in range(n):
            if i:
                res.append(",")
            res += go(d - 1)
        return res + [")"]
    return go(depth)


def mutate(rng, toks, pool):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        i = rng.randint(0, len(toks))
        if k < 0.35 and toks:
            del toks[min(i, len(toks) - 1)]
        elif k < 0.75:
            toks.insert(i, rng.choice(pool))
        elif k < 0.9 and toks:
            toks[min(i, len(toks) - 1)] = rng.choice(pool)
        elif toks:
            j = rng.randint(0, len(toks) - 1)
            i = min(i, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
    return toks


def pool_of(ctx):
    pre, inf, post, fn = lexicon(ctx)
    return pre + inf + post + list(fn) + VARS + NUMS + ["(", ")", "{", "}", ",", "(", ")", "#", ";", "..", "1.2.3", "inf", "NaN", "Infinity"]
