#!/usr/bin/env python3-vt
"""Writes spec/reference.ndjson: values of the transcendental operators to nine
significant digits, computed with mpmath at 60 digits (run once, committed)."""
import json, os
from mpmath import mp, mpf
import mpmath as m
mp.dps = 60
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ARGS = ["0", "1", "2", "3", "0.5", "0.25", "0.75", "1.5", "2.5", "10", "7", "0.1", "0.9", "0.001", "3.75", "12.5", "100", "0.99", "1.01", "5", "20", "0.3", "1000000000"]
NEG = ["(-%s)" % a for a in ARGS]


def val(t):
    return -mpf(float(t[2:-1])) if t.startswith("(-") else mpf(float(t))


def real(x):
    if isinstance(x, m.mpc):
        return None
    return x


U = {"exp": m.exp, "sqrt": m.sqrt, "ln": m.ln, "ld": lambda x: m.log(x, 2), "lg": m.log10, "sin": m.sin, "cos": m.cos, "tan": m.tan,
     "asin": m.asin, "acos": m.acos, "atan": m.atan, "sinh": m.sinh, "cosh": m.cosh, "tanh": m.tanh, "asinh": m.asinh, "acosh": m.acosh,
     "atanh": m.atanh, "gamma": m.gamma}
out = {}


def entry(text, x):
    """[kind, mantissa, exponent]; kind 0: number, 1: inf, -1: -inf, 2: not a number"""
    if x is None:
        out[text] = [2, 0, 0]
    elif m.isinf(x):
        out[text] = [1 if x > 0 else -1, 0, 0]
    elif x == 0:
        out[text] = [0, 0, 0]
    else:
        k = int(m.floor(m.log10(abs(x))))
        mant = int(m.nint(x / mpf(10) ** k * 10 ** 8))
        if abs(mant) >= 10 ** 9:
            mant, k = mant // 10, k + 1
        if abs(k) > 300:
            return
        out[text] = [0, mant, k]


for f, g in U.items():
    for a in ARGS + NEG:
        x = val(a)
        if f == "sqrt" and x < 0:
            continue              # an error, not a value
        if f == "gamma" and (x <= 0 and x == m.floor(x)):
            continue
        if f in ("sin", "cos", "tan") and abs(x) > 1e8:
            continue
        if f in ("ln", "ld", "lg") and x == 0:
            entry("%s(%s)" % (f, a), mpf("-inf"))
            continue
        if f == "atanh" and abs(x) == 1:
            entry("%s(%s)" % (f, a), mpf("inf") * x)
            continue
        try:
            y = real(g(x))
        except OverflowError:
            continue
        entry("%s(%s)" % (f, a), y)
P = ["0.5", "2", "3", "10", "1.5", "0.1", "7", "100", "2.25"]
for a in P:
    for b in P + ["(-%s)" % p for p in P]:
        x, y = val(a), val(b)
        entry("%s^%s" % (a, b), m.power(x, y))
        entry("root(%s,%s)" % (a, b), m.power(x, mpf(1.0 / float(y))))
        if y > 0 and y != 1:
            entry("log(%s,%s)" % (a, b), m.log(x) / m.log(y))
for a in P:
    for b in ["(-3)", "(-2)", "2", "3", "4", "5", "(-1)"]:
        entry("(-%s)^%s" % (a, b), m.power(-val(a), val(b)))
for n in list(range(0, 40)) + [100, 170]:
    entry("%d!" % n, m.factorial(n))
    entry("fib(%d)" % n, m.fib(n))
    entry("fib(-%d)" % n, m.fib(-n))
    for k in (0, 1, 2, 3, n // 2, n - 1, n):
        if 0 <= k <= n:
            entry("%d C %d" % (n, k), m.binomial(n, k))
for a, b in [("7", "3"), ("10", "7"), ("22", "7"), ("1", "3"), ("2", "0.3"), ("1000000000", "7")]:
    entry("%s/%s" % (a, b), val(a) / val(b))
    entry("%s*%s" % (a, b), val(a) * val(b))
    entry("%s mod %s" % (a, b), m.fmod(val(a), val(b)))
    entry("var(%s,%s,0.1)" % (a, b), (lambda l: sum((v - sum(l) / 3) ** 2 for v in l) / 3)([val(a), val(b), mpf("0.1")]))
    entry("avg(%s,%s,0.1)" % (a, b), (val(a) + val(b) + mpf("0.1")) / 3)
    entry("%s%%" % a, val(a) / 100)
    entry("frac(%s.7)" % a, mpf(".7")) if len(a) < 9 and "." not in a else None
for t, x in [("pi", m.pi), ("e", m.e), ("phi", m.phi), ("csound", mpf("343.2")), ("clight", mpf(299792458))]:
    entry(t, x)
with open(os.path.join(V, "spec", "reference.ndjson"), "w") as f:
    for k in sorted(out):
        f.write(json.dumps({"t": k, "k": out[k][0], "m": out[k][1], "x": out[k][2]}) + "\n")
print(len(out))
