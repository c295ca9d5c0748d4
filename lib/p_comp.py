"""Checks on completion lists (CompList.tla) and parse trees (Pnode.tla)."""
import json, random
from ecv import Case, hx, printed, CheckError
import p_gram
from p_gram import rnd, STRUCT, seeded, j

S = ["", "a", "ab", "abc", "b", "ba", "foo"]


def steps(c):
    return len(c.rec["q"]) + 1


def st(s):
    return "-" if s == "-" else hx(s)


def cl_tok(o):
    k = o["op"]
    if k == "add":
        t = "add:%d:%s:%s" % (o["t"], st(o["start"]), st(o["full"]))
    elif k == "set":
        t = "set:%d:%d:%s" % (o["w"], o["k"], st(o["str"]))
    elif k == "enter":
        t = "enter:%d" % o["n"]
    elif k == "sub":
        t = "sub:%d:%d" % (o["reg"], o["n"])
    elif k == "merge":
        t = "merge:%d:%d" % (o["a"], o["b"])
    elif k == "attr":
        t = "attr:%d" % o["k"]
    elif k == "free":
        t = "free:%d" % o["a"]
    else:
        t = k
    return ("!%d:" % o["fail"] if o.get("fail") else "") + t


def cl_case(q):
    return Case(["CL " + " ".join(cl_tok(o) for o in q)], {"q": q})


def close(q):
    d = 0
    for o in q:
        d += {"enter": 1, "sub": 1, "leave": -1, "abort": -1}.get(o["op"], 0)
    return q + [{"op": "leave"}] * d


def cl_random(r, nops, pfail=0):
    q, fr, busy, items = [], [], set(), [0]
    for _ in range(nops):
        ops = ["sub"] * (2 if not fr else 1)
        if fr:
            ops += ["add"] * 6 + ["set"] * 2 + ["enter"] * 2 + ["leave"] * 2 + ["abort"] + ["merge"] * 3 + ["attr"]
        ops += ["merge", "free"]
        k = r.choice(ops)
        if k in ("enter", "sub") and len(fr) >= 6:
            continue
        o = {"op": k}
        if k == "add":
            t = r.choice([2, 2, 2, 4, 4, 1, 1, 0, 3, 7])
            full = r.choice(S) if t in (2, 4) else "-"
            start = r.choice(S) if t in (2, 4) else "-"
            if t in (2, 4):
                m = r.random()
                if m < .5:
                    start = full[:r.randint(0, len(full))]
                elif m < .6:
                    start = "-"
            if r.random() < .05:
                full = r.choice(S) if full == "-" else "-"
                start = "-"
            if t not in (1, 2, 4):
                full = r.choice(S)
            o.update(t=t, start=start, full=full)
        elif k == "set":
            o.update(w=r.randint(0, 2), k=r.randint(1, 6), str=r.choice(S + ["-"]))
        elif k == "attr":
            o["k"] = r.randint(1, 3)
        elif k == "enter":
            o["n"] = r.randint(1, 6)
            fr.append(0)
        elif k == "sub":
            free = [x for x in range(1, 5) if x not in busy]
            if not free:
                continue
            o.update(reg=r.choice(free), n=r.randint(1, 6))
            fr.append(o["reg"])
            busy.add(o["reg"])
        elif k in ("leave", "abort"):
            x = fr.pop()
            if x and k == "abort":
                busy.discard(x)
        elif k == "merge":
            done = [x for x in busy if x not in fr]
            if not done:
                continue
            o.update(b=r.choice(done), a=0 if fr else 0)
            others = [x for x in done if x != o["b"]]
            if not fr or (others and r.random() < .3):
                if not others:
                    continue
                o["a"] = r.choice(others)
            busy.discard(o["b"])
        elif k == "free":
            done = [x for x in busy if x not in fr]
            if not done or r.random() < .7:
                continue
            o["a"] = r.choice(done)
            busy.discard(o["a"])
        if pfail and k in ("add", "set", "merge", "attr") and r.random() < pfail:
            o["fail"] = r.randint(1, 14 if k == "add" else 6)
        q.append(o)
    q = close(q)
    return cl_case(q) if q else cl_random(r, nops, pfail)


def cl_model(ck, r, count):
    hs = sorted(printed(ck.model("GenCompList", "GenCompList" if ck.quick else "GenCompListT"), "HIST"))
    if not hs:
        raise CheckError("no history generated")
    if count and len(hs) > count:
        hs = r.sample(hs, count)
    return [cl_case(close(json.loads(h))) for h in hs]


def c05(ck):
    r = seeded(ck, 5)
    run = lambda name, cases: ck.conform(name, cases, "JCompList", steps=steps)
    run("all the short histories", cl_model(ck, r, ck.n(8000, 0)))
    run("random histories", [cl_random(r, r.randint(5, 40)) for _ in range(ck.n(2500, 30000))])
    run("random histories, memory runs out", [cl_random(r, r.randint(5, 30), .5) for _ in range(ck.n(1500, 15000))])
    w = dict(STRUCT, none=.3, sh_lex=2, dynamic=2, cmd=1, once=1)
    for i in range(ck.n(1, 6)):
        j(ck, "completion of random grammars", rnd(ck, r, 1500, w, "L"), "all")


# ---------------------------------------------------------------- parse trees
from gram import N, lines_of

PG = [N("str", "a", s="a"), N("str", "b", s="b"), N("or", "o", c=[1, 2]), N("many", "m", c=[3], min=0, max=0),
      N("seq", "s", c=[1, 4])]


def pt_line(o):
    k = o["op"]
    a = ["PT", k]
    if k in ("new",):
        a.append(o["n"])
    elif k == "parse":
        a += [o["n"]] + [hx(x) for x in o["v"]]
    elif k == "link":
        a += [o["p"], o["c"]]
    elif k == "attr":
        a += [o["p"], o["key"], o["a"]]
    elif k == "find":
        a += [o["p"], hx(o["id"])]
    elif k == "next":
        a += [o["p"], o["q"], hx(o["id"]), o["ic"]]
    elif k == "iter":
        a += [o["p"], o["q"], o["ic"]]
    else:
        a.append(o["p"])
    return ("FAIL %d\n" % o["fail"] if o.get("fail") else "") + " ".join(str(x) for x in a)


def pt_case(q):
    return Case(lines_of(PG) + [l for o in q for l in pt_line(o).split("\n")], {"g": PG, "q": q})


class Forest:
    def __init__(self):
        self.par, self.kids, self.nx = {}, {}, 1

    def new(self, par=0):
        i = self.nx
        self.nx += 1
        self.par[i], self.kids[i] = par, []
        if par:
            self.kids[par].append(i)
        return i

    def root(self, i):
        while self.par[i]:
            i = self.par[i]
        return i

    def desc(self, i):
        return [i] + [x for k in self.kids[i] for x in self.desc(k)]

    def unlink(self, i):
        if self.par[i]:
            self.kids[self.par[i]].remove(i)
            self.par[i] = 0

    def free(self, i):
        d = self.desc(i)
        self.unlink(i)
        for x in d:
            del self.par[x], self.kids[x]

    def copy(self, i, par=0):
        n = self.new(par)
        for k in list(self.kids[i]):
            self.copy(k, n)
        return n


def pt_random(r, nops, oom=False):
    f, q, na = Forest(), [], 0
    for _ in range(nops):
        live = sorted(f.par)
        ops = ["new"] * 2 + ["parse"] * 2 if len(live) < 40 else []
        if live:
            ops += ["link"] * 5 + ["unlink", "unlink", "free", "fc", "dl", "attr", "attr", "find", "next", "next", "iter"]
            if len(live) < 40:
                ops += ["dup"] * 2
        k = r.choice(ops)
        o = {"op": k}
        p = r.choice(live) if live else 0
        if k == "new":
            o["n"] = r.choice([0, 1, 2, 3, 4, 5])
            f.new()
        elif k == "parse":
            v = [r.choice("ab") for _ in range(r.randint(0, 3))]
            n = r.choice([4, 4, 5, 1])
            if n == 4:
                x = f.new()
                m = v
            elif n == 5:
                x = f.new()
                if v and v[0] == "a":
                    f.new(x)
                    x, m = f.new(x), v[1:]
                else:
                    m = []
            else:
                x, m = f.new(), []
            for _ in m:
                f.new(f.new(x))
            o.update(n=n, v=v)
        elif k == "link":
            c = [x for x in live if not f.par[x] and f.root(p) != x]
            if not c:
                continue
            c = r.choice(c)
            o.update(p=p, c=c)
            f.par[c] = p
            f.kids[p].append(c)
        elif k == "unlink":
            o["p"] = p
            f.unlink(p)
        elif k == "free":
            p = f.root(p)
            o["p"] = p
            f.free(p)
        elif k == "fc":
            o["p"] = p
            for c in list(f.kids[p]):
                f.free(c)
        elif k == "dl":
            o["p"] = p
            if f.kids[p]:
                f.free(f.kids[p][-1])
        elif k == "dup":
            if len(f.desc(f.root(p))) > 25:
                continue
            o["p"] = p
            f.copy(f.root(p))
        elif k == "attr":
            na += 1
            o.update(p=p, key=r.randint(0, 2), a=na)
        elif k == "find":
            o.update(p=p, id=r.choice(["a", "b", "o", "m", "s", "zz", ""]))
        elif k in ("next", "iter"):
            d = f.desc(p)
            o.update(p=p, q=r.choice(d), ic=r.randint(0, 1))
            if k == "next":
                o["id"] = r.choice(["a", "b", "o", "m", "s", "zz"])
                if r.random() < .1:
                    o["q"] = 0
        q.append(o)
    if oom and f.par:
        # an operation that may fail ends the history
        k = r.choice(["dup", "parse", "attr"])
        o = {"op": k, "p": r.choice(sorted(f.par)), "fail": r.randint(1, 25 if k != "attr" else 5)}
        if k == "parse":
            o = {"op": k, "n": r.choice([4, 5]), "v": [r.choice("ab") for _ in range(r.randint(1, 3))], "fail": o["fail"]}
        if k == "attr":
            o.update(key=r.randint(0, 2), a=na + 1)
        q.append(o)
    return pt_case(q)


def c17(ck):
    r = seeded(ck, 17)
    run = lambda name, cases: ck.conform(name, cases, "JPnode", steps=steps)
    hs = sorted(printed(ck.model("GenPnode", "GenPnode" if ck.quick else "GenPnodeT"), "HIST"))
    if not hs:
        raise CheckError("no history generated")
    hs = r.sample(hs, min(len(hs), ck.n(6000, 60000)))
    run("all the short histories", [pt_case(json.loads(h)) for h in hs])
    run("random histories", [pt_random(r, r.randint(10, 45)) for _ in range(ck.n(1800, 20000))])
    run("random histories, memory runs out", [pt_random(r, r.randint(5, 20), True) for _ in range(ck.n(1000, 8000))])
