"""P26: the heap holds what the state of the session needs, and nothing else"""
import itertools
from vlib import *
import gen
import c_language as lang, c_rewrite as rw, c_session as ses, c_simplify as simp, c_structs as st, c_table as tab

N = lambda q, t: t if THOROUGH else q
ALPHABET = ["f(x)=x+1", "f(x)=y", "g(y)=f(y)*2-ans", "f(2", "1/0", "clear f", "clear", "3", "c=f(1)/0", "f(x,x)=1", "table f(x);0;2;1 fold x+y;0", "table x;0;1", "f(2)+g(3)", "load nofile", "g(x)=2", "x'+1", "f(1,2)", "load simplification bad",
            "load m", "f(x)=f(x)", "h(x)=max(1,g(x),", "clear nope"]
FILES = {"m": ["f(x)=x", "1/0", "c=2", "clear c"], "bad": ["RULESET", "x+0 -> x WHERE type(x)==", "RULESET"]}


def with_mem(rec):
    def go(q, a):
        r = rec(q, a)
        for x, y in zip(r["r"], a["r"]):
            x["mem"] = y["mem"]
        return dict(r, kind="session", left=a["left"])
    return go


def component(q, a):
    return {"kind": q[0], "left": a["left"]}


def requests(c):
    """one call of a part of the program each: what it was given is destroyed again"""
    rng, qs = c.rng, []
    qs += [("parse",) + x for x in lang.texts(c, N(2000, 20000), 2) + lang.char_texts(c, N(500, 5000), 2) + list(lang.long_texts(c))]
    for _ in range(N(1200, 12000)):
        t = rw.rtree(rng, rng.choice([1, 2, 2, 3]))
        if len(rw.text(t)) > 200:
            continue
        if rng.random() < 0.5:
            rs = [rng.choice(rw.LIBRARY) if rng.random() < 0.5 else rw.rule(rng, t) for _ in range(rng.choice([1, 2, 3, 5]))]
            qs.append(("rules", "prop", rng.choice(["1", "2", "5", "8"]), rw.text(t)) + tuple(rs))
        else:
            q = rw.pattern(rng, t)
            qs.append(("match", "prop", rw.text(q) + rw.where(rng, q), rw.text(t)))
    for _ in range(N(300, 3000)):
        k = rng.choice([1, 3, 7])
        qs.append(("rulefile", "prop", str(k), simp.rulefile(rng, rng.choice([k, k + 1, k - 1]), 0.08)))
    for _ in range(N(500, 5000)):
        qs.append(("simp", "shipped", rng.choice(["-", "-", "pipe", "broken", "none"]), rng.choice([
            simp.expr(rng, rng.choice([1, 2, 3]), ["x", "y"]), "deriv(%s,%s)" % (simp.smooth(rng, 2, ["x"], True), rng.choice("xxy2")), "(%s)'+2" % simp.expr(rng, 2, ["x", "y"][:rng.randint(1, 2)])])))
    for _ in range(N(150, 1500)):
        k = rng.choice([10, 30])
        qs.append(st.request("vec", {"elem": rng.choice([1, 8, 24]), "start": rng.choice([0, 1, 10])}, st.vecops(rng, k, 8)))
        qs.append(st.request("list", {"elem": rng.choice([1, 8, 40])}, st.listops(rng, k)))
        ws = [w[:28] for w in st.triewords(rng) if w != "-"]
        qs.append(st.request("trie", {"elem": rng.choice([0, 8]), "probes": ws}, [["add", rng.choice(ws), 1] if rng.random() < 0.6 else ["rem", rng.choice(ws)] for _ in range(k)]))
        qs.append(st.request("ops", {"probes": st.NAMES, "text": "a+++-b"}, [["add", st.anop(rng)] if rng.random() < 0.6 else ["addmany", st.anop(rng), st.anop(rng)] if rng.random() < 0.3 else
                                                                         ["del", rng.choice(["pre", "inf", "post", "fn"]), rng.choice(st.NAMES)] for _ in range(k)]))
        qs.append(st.request("strb", {"start": rng.choice(["0", "1", "10", "h"])}, [["app", "ab" * rng.choice([0, 1, 20])] if rng.random() < 0.5 else ["chr", "x"] if rng.random() < 0.8 else ["clear"] for _ in range(k)]))
    for _ in range(N(800, 8000)):
        qs.append(("table",) + tuple(tab.words(o) for o in tab.build(rng)))
    return list(dict.fromkeys(qs))


def P26(c):
    rng = c.rng
    # every short session
    seqs = list(itertools.product(ALPHABET, repeat=2)) + [tuple(rng.choice(ALPHABET) for _ in range(rng.choice([3, 4, 6, 9]))) for _ in range(N(1200, 20000))]
    qs, files, rec = ses.plain([(rng.choice("in"), list(s), FILES) for s in seqs])
    c.conform("TraceMemory", qs, ask(qs, files=files), with_mem(rec), env={"ASPECT": "out"}, files=files, what="short sessions")
    for mix in ("P02", "P05", "P24", "P07"):
        qs, files, rec = ses.plain(ses.sessions(c, N(250, 4000), mix))
        c.conform("TraceMemory", qs, ask(qs, files=files), with_mem(rec), env={"ASPECT": "out"}, files=files, what="sessions")
    qs, files, rec = ses.plain(ses.many_names(c, N(10, 100)) + ses.long_calls(c, N(3, 30)))
    c.conform("TraceMemory", qs, ask(qs, files=files), with_mem(rec), env={"ASPECT": "out"}, files=files, what="large sessions")
    qs, files, e, rec = ses.with_rules(c, N(200, 3000), bad=0.4)
    c.conform("TraceMemory", qs, ask(qs, files=files), with_mem(rec), env=e, files=files, what="sessions with rules")
    files = {"shipped": list(simp.shipped().values())[0], "pipe": simp.pipeline(rng), "broken": "RULESET\nx+0 -> x\nx*y -> z\n"}
    qs = requests(c)
    c.conform("TraceMemory", qs, ask(qs, setup=gen.ctx_setup(), files=files), component, env={"ASPECT": "out"}, setup=gen.ctx_setup(), files=files, what="components")
