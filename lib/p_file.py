"""Checks on the completion of file names (Files.tla, in Grammar.tla)."""
import json
from ecv import Case, CheckError, hx, printed
from gram import N, lines_of, q_line
from p_gram import seeded
from p_comp import steps

TEXTS = ["", "a", "ab", "b", ".", "..", ".a", "a/", "a/a", "a/.", "ab/", "./", "a//a", "a/../a", "zz/", "a/a/", "ab/a/"]


def line(o):
    k = o["op"]
    if k == "FM":
        return "FM %s %s %s" % (o["k"], hx(o["p"]), hx(o["to"]))
    if k == "FU":
        return "FU %s" % hx(o["p"])
    if k == "FT":
        return "FT %d" % o["v"]
    if k == "FE":
        return "FE %d" % o["k"]
    if k == "FR":
        return "FR"
    if k == "OQ":
        return "OQ 60 %d %s" % (o["off"], q_line(o["q"]))
    return q_line(o)


def case(g, q):
    return Case(lines_of(g) + [line(o) for o in q], {"g": g, "q": q})


def tree_case(r, tree):
    g = [N("file", "n1")]
    q = [{"op": "FT", "v": r.randint(0, 1)}]
    for e in sorted(tree, key=lambda e: len(e["p"])):
        q.append({"op": "FM", "k": e["k"], "p": "/".join(e["p"]), "to": e["to"]})
    q += [{"op": "L", "n": 1, "v": [t]} for t in TEXTS]
    return case(g, q)


def grammar(r):
    g = [N("file", "n1"), N("str", "n2", s="ls"), N("str", "n3", s="a")]
    k = r.choice(["alone", "alone", "seq", "or", "many", "option", "subset", "sh", "sh"])
    if k == "seq":
        g.append(N("seq", "n4", c=[2, 1]))
    elif k == "or":
        g.append(N("or", "n4", c=r.choice([[2, 1], [1, 3], [1, 1]])))
    elif k == "many":
        g.append(N("many", "n4", c=[1], min=r.randint(0, 1), max=r.randint(0, 3)))
    elif k == "option":
        g += [N("option", "n4", c=[1]), N("seq", "n5", c=[4, 3])]
    elif k == "subset":
        g.append(N("subset", "n4", c=[1, 2, 3]))
    elif k == "sh":
        g += [N("many", "n4", c=[1], min=0, max=0), N("seq", "n5", c=[2, 4]), N("sh_lex", "n6", c=[5])]
    return g, k


def paths(d):
    return [p for p, k in d.items() if k == "d"]


def random_case(r, names):
    g, kind = grammar(r)
    root = 1 if kind == "alone" else len(g)
    known = {}                       # what should exist
    q = [{"op": "FT", "v": r.randint(0, 1)}]

    def text():
        comps = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            if r.random() < .8 and paths(known):
                comps.append(r.choice(paths(known)))
            else:
                comps.append(r.choice(names))
            comps.append(r.choice(["", "", "", ".", "..", "x"]))
        # never above the top
        out = []
        for c in "/".join(comps).split("/") if comps else []:
            if c == ".." and not [x for x in out if x not in ("", ".", "..")]:
                continue
            if c == ".." and out and out[-1] == "..":
                continue
            out.append(c)
        if out and out[0] == "":
            out[0] = "."
        s = "/".join(out)
        if s.endswith(".."):
            s += "/"
        elif s and not s.endswith("/") and r.random() < .9:
            s += "/"
        n = r.choice(names)
        if n[0] == "/":
            return n
        return s + n[:r.choice([0, 0, 1, 2, len(n), len(n)])]

    if r.random() < .03:
        names = names + ["/nonexistent-ecv/a"]
    for _ in range(r.randint(4, 22)):
        k = r.choice(["FM", "FM", "FM", "FM", "FU", "FT", "L", "L", "L", "L", "P", "OQ", "FE"])
        if k == "FM":
            d = r.choice([""] * 3 + paths(known))
            p = (d + "/" if d else "") + r.choice([n for n in names if "/" not in n])
            fk = r.choice(["d", "d", "f", "f", "l", "p"])
            if fk == "l" and kind == "sh":
                fk = "f"
            to = r.choice(list(known) or ["a"]) if r.random() < .5 else r.choice(["a", "zz", "../a", "ab/../a", "a/", "./a"])
            if fk == "l" and d == "" and to.startswith(".."):
                to = "a"
            if p not in known:
                known[p] = "d" if fk == "d" else "f"
            q.append({"op": "FM", "k": fk, "p": p, "to": to if fk == "l" else ""})
        elif k == "FU":
            if not known:
                continue
            p = r.choice(list(known))
            q.append({"op": "FU", "p": p})
            if not any(x.startswith(p + "/") for x in known):
                del known[p]
        elif k == "FT":
            q.append({"op": "FT", "v": r.randint(0, 1)})
        else:
            t = text()
            if kind == "sh":
                t = r.choice(["ls " + t, "ls '" + t, 'ls "' + t, "ls x " + t, "l", "ls \"" + t + "\" "])
                v = [t]
            else:
                v = {"seq": ["ls"], "option": r.choice([[], [t]]), "many": r.choice([[], ["x"], ["x", "y"]]),
                     "subset": r.choice([[], ["ls"], ["a", "f"]])}.get(kind, []) + [t]
                if r.random() < .08:
                    v = v + ["more"]
            if k == "OQ":
                q.append({"op": "OQ", "off": r.randrange(100), "q": {"op": "L", "n": root, "v": v}})
            elif k == "FE":
                q += [{"op": "FE", "k": r.randint(1, 7)}, {"op": "L", "n": 1, "v": [t]}, {"op": "FR"}]
            else:
                q.append({"op": k, "n": root, "v": v})
    return case(g, q)


def c22(ck):
    r = seeded(ck, 22)
    ts = sorted(printed(ck.model("GenFile", "GenFile" if ck.quick else "GenFileT"), "TREE"))
    if not ts:
        raise CheckError("no tree generated")
    if not ck.quick:
        ts = r.sample(ts, min(len(ts), 12000))
    ck.conform("small trees", [tree_case(r, json.loads(t)) for t in ts], "JFile", env={"VIEW": "items"}, steps=steps)
    cases = []
    for _ in range(ck.n(1500, 15000)):
        names = r.choice([["a", "ab", "abc", ".a", "b", "..b"], ["foo", "foobar", "f", ".foo", "...", "x"],
                          ["a b", "a'b", 'a"b', "a\\b", "a", "-a"], ["name.c", "name.h", "n", "name", "Name", "~x"],
                          ["l" * 101, "l" * 200 + "x", "l" * 255, "l", "." + "m" * 130, "m"]])
        cases.append(random_case(r, names))
    ck.conform("random histories", cases, "JFile", env={"VIEW": "items"}, steps=steps)
