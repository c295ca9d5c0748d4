"""What the library tells about its objects (Dump.tla)."""
import json
from ecv import Case, hx
from gram import N, lines_of
import gram
from p_comp import steps
from p_conf import V, lit, sch, rval, schema_of, KEYS
from p_gram import rnd, seeded, expr_cases
from p_oom import ALL

TYPES = ["any", "bypass", "cmd", "cond", "dynamic", "empty", "expr", "file", "int", "many", "none", "once", "option", "or", "re",
         "re_lex", "seq", "sh_lex", "space", "str", "subset", "uint"]


def i_line(o):
    k = o["op"]
    if k in ("IP", "IL", "IX"):
        return " ".join([k, str(o["n"])] + [hx(s) for s in o["v"]])
    if k == "IV":
        return " ".join([k] + [hx(s) for s in o["v"]])
    if k == "ID":
        return " ".join(["ID"] + ["%s %d" % (hx(e["k"]), e["v"]) for e in o["v"]])
    if k == "IG":
        return "IG %d" % o["n"]
    if k == "IF":
        return "IF %d %s" % (o["n"], hx(o["id"]))
    if k == "IC":
        return " ".join(["IC"] + lit(o["v"]))
    if k == "IS":
        return " ".join(["IS"] + sch(o["sc"]))
    return k


INNER = ("", "ref", "pre-op", "post-op", "post", "term", "next", "dyn")     # used by the library


def examine(r, g, qs):
    """requests on a grammar"""
    q = []
    clear = not any(n["t"] in ("cmd", "expr") for n in g)
    for n in r.sample(range(1, len(g) + 1), min(len(g), 3)) + [1]:
        q.append({"op": "IG", "n": n})
        for i in r.sample([m["id"] for m in g], min(len(g), 3)) + r.sample(["", "zz", "dyn"] if clear else ["zz"], 1):
            if clear or i not in INNER:
                q.append({"op": "IF", "n": n, "id": i})
    for x in qs:
        if x["op"] in ("P", "L"):
            q.append(dict(x, op="I" + x["op"]))
    for x in qs[:1]:
        q.append({"op": "IX", "n": x["n"], "v": x["v"]})
    r.shuffle(q)
    return q


def unset(r, count):
    """nodes as they are when they were just created, some of them with children"""
    out = []
    for _ in range(count):
        n = r.randint(1, 6)
        g = []
        for i in range(n):
            t = r.choice(["seq", "or", "subset", "bypass", "option", "many", "once", "cond", "re_lex", "cmd", "str", "str", "re", "any",
                          "int", "uint", "empty", "none", "space"])
            g.append(N(t, r.choice(["n%d" % (i + 1), "x", ""]), c=[], **({"unset": True} if t in ("str",) else {})))
        lines = ["N %d =%s %s" % (i + 1, m["t"], hx(m["id"])) for i, m in enumerate(g)]
        for i, m in enumerate(g):
            for _ in range(r.randint(0, 3) if m["t"] in ("seq", "or", "subset") else 0):
                c = r.randint(1, n)
                m["c"].append(c)
                lines.append("A %d %d" % (i + 1, c))
        q = []
        for i in range(1, n + 1):
            q.append({"op": "IG", "n": i})
            q.append({"op": "IF", "n": i, "id": r.choice(g)["id"]})
        out.append(Case(lines + [i_line(o) for o in q], {"g": g, "q": q}))
    return out


def values(r, count):
    out = []
    words = ["", "a", "b c", "0", "foo", "-", "[", "]"]
    for _ in range(count):
        q = [{"op": "IT", "types": TYPES}]
        for _ in range(3):
            q.append({"op": "IC", "v": rval(r, 3)})
            q.append({"op": "IS", "sc": schema_of(r, V("d", "", [(x, rval(r, 3)) for x in r.sample(KEYS, 2)]), 0)})
            q.append({"op": "IV", "v": [r.choice(words) for _ in range(r.randint(0, 4))]})
            q.append({"op": "ID", "v": [{"k": r.choice(words + KEYS), "v": r.randint(0, 2)} for _ in range(r.randint(0, 9))]})
        q.append({"op": "I0"})
        out.append(Case(["N 1 empty x6e31", "N 2 none x6e32"] + [i_line(o) for o in q],
                        {"g": [N("empty", "n1"), N("none", "n2")], "q": q}))
    return out


def c23(ck):
    gram.one_line()
    r = seeded(ck, 23)
    cases = []
    for c in rnd(ck, r, ck.n(1500, 12000), ALL, "PPL", nq=4, depth=3, limit=8000):
        g = c.rec["g"]
        q = examine(r, g, c.rec["q"])
        cases.append(Case(lines_of(g) + [i_line(o) for o in q], {"g": g, "q": q}))
    ck.conform("random grammars", cases, "JDump", env={"VIEW": "all"}, steps=steps)
    cases = []
    for c in expr_cases(r, ck.n(300, 3000), ops="PL"):
        g = c.rec["g"]
        q = examine(r, g, c.rec["q"][:2])
        cases.append(Case(lines_of(g) + [i_line(o) for o in q], {"g": g, "q": q}))
    ck.conform("expressions", cases, "JDump", env={"VIEW": "all"}, steps=steps)
    ck.conform("new nodes", unset(r, ck.n(500, 5000)), "JDump", env={"VIEW": "all"}, steps=steps)
    ck.conform("values", values(r, ck.n(400, 4000)), "JDump", env={"VIEW": "all"}, steps=steps)
