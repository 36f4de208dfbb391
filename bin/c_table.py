import json, os, re
from vlib import *

N = lambda q, t: t if THOROUGH else q
BOX = dict(zip("┌┬┐├┼┤└┴┘─│", ["s6", "se", "sc", "s7", "sf", "sd", "s3", "sb", "s9", "sa", "s5"]))
BOX.update(zip("╔╦╗╠╬╣╚╩╝═║", ["d6", "de", "dc", "d7", "df", "dd", "d3", "db", "d9", "da", "d5"]))


def plain(text):
    """the specification's notation: ~ for escape, {x }x for border characters"""
    s = text.encode("latin-1").decode("utf-8", "replace")
    return "".join("~" if ch == "\x1b" else {"s": "{", "d": "}"}[BOX[ch][0]] + BOX[ch][1] if ch in BOX else ch for ch in s)


def words(o):
    if o[0] in ("cell", "gc", "fmt"):
        return o[0] + " " + o[1].replace("~", "\x1b")
    return " ".join(map(str, o))


class Tables:
    def __init__(self, c):
        self.c, self.qs, self.meta = c, [], {}

    def add(self, ops):
        q = ("table",) + tuple(words(o) for o in ops)
        if q not in self.meta and ops:
            self.meta[q] = ops
            self.qs.append(q)

    def check(self, what):
        def rec(q, a):
            t = plain(a["text"])
            return {"ops": self.meta[q], "lines": t.split("\n")[:-1] if t.endswith("\n") else t.split("\n") if t else []}
        self.c.conform("TraceTable", self.qs, ask(self.qs), rec, what=what)


class Grid:
    """just enough of a table to generate operations that are allowed"""
    def __init__(self):
        self.set, self.x, self.y, self.nc, self.nr, self.own, self.lines = set(), 0, 0, 0, 1, set(), set()

    def free(self):
        return self.x < 11 and (self.x, self.y) not in self.set

    def past(self):
        while self.x < 11 and (self.x, self.y) in self.set:
            self.x += 1

    def put(self):
        self.set.add((self.x, self.y)); self.nc = max(self.nc, self.x + 1); self.past()

    def row(self):
        self.y += 1; self.x = 0
        if self.y >= self.nr:
            self.nr = self.y + 1
        else:
            self.past()

    def span(self, sx, sy):
        w = 1
        while w < sx and (self.x + w, self.y) not in self.set:
            w += 1
        g = 1
        while g < sy and not any((self.x + j, self.y + g) in self.set for j in range(w)):
            g += 1
        for i in range(g):
            for j in range(w):
                if i + j:
                    self.set.add((self.x + j, self.y + i))
        self.nr = max(self.nr, self.y + g); self.nc = max(self.nc, self.x + w); self.own.add((self.x, self.y))


COLORS = ["~[91m", "~[1;36m", "~[33;1m"]


def text(rng):
    def line():
        w = "".join(rng.choice("abcXYZ019.-+ ") for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9] * 12 + [30, 130])))
        if w and rng.random() < 0.25:
            k = rng.randint(0, len(w) - 1)
            w = w[:k] + rng.choice(COLORS) + w[k:] + rng.choice(["", "~[0m"])
            if rng.random() < 0.4:
                w = rng.choice(COLORS) + w[:1] + "~[0m" + rng.choice(COLORS) + w[1:] + "~[0m" if w[0] != "~" else "~[0m" + w
        return w
    return "\n".join(line() for _ in range(rng.choice([1, 1, 1, 1, 2, 2, 3, 4])))


def build(rng):
    """a random table"""
    g, ops = Grid(), []
    cols = rng.choice([1, 2, 3, 4, 4, 5, 10])
    bs = lambda: rng.choice("ssdn")
    spans, styles = rng.random() < 0.7, rng.random() < 0.7
    if rng.random() < 0.6:
        ops.append(["def"] + [rng.choice("lrc") + rng.choice("tbc") for _ in range(rng.randint(1, cols))])
    for r in range(rng.choice([1, 2, 3, 4, 5] * 8 + [9, 12, 20])):
        if r:
            ops.append(["row"]); g.row()
        if rng.random() < 0.3:
            ops.append(["hline", bs()])
        if rng.random() < 0.1:
            ops.append([rng.choice(["hrow"]), rng.choice("lrc")])
        if rng.random() < 0.1:
            ops.append(["vrow", rng.choice("tbc")])
        if rng.random() < 0.06:
            x, y = rng.randrange(cols), rng.randrange(g.nr + 1)
            ops.append(["pos", x, y]); g.x, g.y = x, y; g.nr = max(g.nr, y + 1)
        n = rng.choice([cols, cols, rng.randint(0, cols)])
        while g.x < n and g.free():
            if rng.random() < 0.15:
                ops.append(["h", rng.choice("lrc")])
            if rng.random() < 0.15:
                ops.append(["v", rng.choice("tbc")])
            if spans and rng.random() < 0.3 and (g.x, g.y) not in g.own:
                sx, sy = min(rng.choice([1, 2, 2, 3, 4]), 10 - g.x if g.x < 10 else 1), rng.choice([1, 1, 2, 2, 3])
                if not any((g.x + j, g.y + i) in g.lines for i in range(sy) for j in range(sx)):
                    ops.append(["span", sx, sy]); g.span(sx, sy)
            if styles and rng.random() < 0.15:
                ops.append([rng.choice(["left", "above"]), bs()]); g.lines.add((g.x, g.y))
            k = rng.random()
            ops.append(["empty"] if k < 0.08 else [rng.choice(["cell", "cell", "gc", "fmt"]), text(rng)]); g.put()
    if rng.random() < 0.3:
        ops.append(["vlines", bs()])
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.append(["vline", rng.randint(0, min(10, cols)), bs()]); g.nc = max(g.nc, ops[-1][1] + 1)
    if rng.random() < 0.6:
        if rng.random() < 0.8:
            ops.append(["row"]); g.row()
        if max(g.nc, 1) < 11:
            ops.append(["box", rng.choice("ssd")])
    return ops


ALPHABETS = [
    (["ab", "cd", "xyzw"], [["cell", "ab"], ["cell", "cd\nxyzw"], ["empty"], ["row"], ["span", 2, 1], ["span", 1, 2], ["span", 2, 2], ["pos", 1, 0], ["pos", 0, 1], ["vlines", "s"], ["hline", "s"], ["box", "d"]]),
    (["q", "xyzw"], [["cell", "q"], ["cell", "xyzw"], ["row"], ["span", 3, 2], ["left", "s"], ["above", "d"], ["h", "c"], ["v", "b"], ["vline", 1, "d"], ["pos", 2, 0], ["box", "s"]]),
]


def P19(c):
    rng = c.rng
    t = Tables(c)
    for ws, ops in ALPHABETS:
        f = os.path.join(SCRATCH, "table.json")
        json.dump({"ops": ops, "words": ws, "depth": N(4, 5)}, open(f, "w"))
        r = c.design("MCTable", "INIT Init\nNEXT Next\nINVARIANTS Laws Emit\n", env={"ALPHABET": f})
        hs = [json.loads(m) for m in re.findall(r'^"OPS (.*)"$', r.out, re.M)]
        if not hs:
            raise Tool("MCTable: no behaviours")
        for h in hs:
            t.add([ops[i - 1] for i in h])
    t.check("generated")
    t = Tables(c)
    for _ in range(N(2500, 25000)):
        t.add(build(rng))
    t.check("random")
