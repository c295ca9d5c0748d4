"""Checks on configurations (Config.tla) and the configuration of nodes (NodeConf.tla)."""
import json
from ecv import Case, hx, printed, CheckError
from gram import gen_re, re_str, gen_cond, cond_str, q_line, WORDS
import gram
from p_gram import seeded
from p_comp import steps

TYPES = {"b": 1, "i": 2, "u": 3, "s": 4, "n": 5, "l": 6, "d": 7, "?": 42}
KEYS = ["a", "b", "key", "child"]


def V(t, s="", k=()):
    return {"t": t, "s": s, "k": [{"k": a, "v": v} for a, v in k]}


def lit(v):
    t = v["t"]
    if t == "s":
        return ["s:" + hx(v["s"])]
    if t in "biun":
        return ["%s:%s" % (t, v["s"])]
    out = ["%s:%d" % (t, len(v["k"]))]
    for e in v["k"]:
        out += ([hx(e["k"])] if t == "d" else []) + lit(e["v"])
    return out


def sch(sc):
    out = ["S:%d" % len(sc)]
    for e in sc:
        out += ["-" if e["key"] == "-" else hx(e["key"]), str(TYPES[e["t"]])]
        out += sch(e["sub"]) if e["has"] else ["0"]
    return out


def path(a, p):
    return "/".join([str(a)] + ["#%d" % x["i"] if x["i"] else hx(x["k"]) for x in p])


def cf_line(o):
    k = o["op"]
    w = ["CF", str(o.get("fail", 0)), k]
    if k in ("lit", "new"):
        w += [str(o["a"])] + lit(o["v"])
    elif k in ("set", "del", "get"):
        w += [path(o["a"], o["p"]), hx(o["key"])] + ([str(o["b"])] if k == "set" else [])
    elif k in ("add", "dup"):
        w += [path(o["a"], o["p"]), str(o["b"])]
    elif k == "rm":
        w += [path(o["a"], o["p"]), str(o["n"])]
    elif k == "cmp":
        w += [path(o["a"], o["p"]), path(o["b"], o["q"])]
    elif k == "cnt":
        w += [path(o["a"], o["p"])]
    elif k == "val":
        w += [path(o["a"], o["p"])] + sch(o["sc"])
    elif k == "sch":
        w += sch(o["sc"])
    elif k == "rsv":
        w += [hx(o["key"])]
    else:
        w += [str(o["a"])]
    return " ".join(w)


def op(k, a=1, p=(), b=1, **kw):
    return dict({"op": k, "a": a, "p": list(p), "b": b, "q": list(kw.pop("q", ()))}, **kw)


def cf_case(q):
    return Case(["N 1 empty x6e31", "N 2 none x6e31"] + [cf_line(o) for o in q], {"q": q})


def rscalar(r):
    t = r.choice("bbiuussn")
    return V(t, {"b": lambda: r.choice("01"),
                 "i": lambda: r.choice(["0", "1", "-1", "9223372036854775807", "-9223372036854775808", "4294967296", "4294967297",
                                     "-4294967295", "256", "255"]),
                 "u": lambda: r.choice(["0", "1", "18446744073709551615", "4294967296", "4294967297", "9223372036854775808"]),
                 "s": lambda: r.choice(["", "a", "b", "1", "foo bar"]),
                 "n": lambda: r.choice("12")}[t]())


def rval(r, d=2):
    m = r.random()
    if d == 0 or m < .5:
        return rscalar(r)
    if m < .7:
        if r.random() < .5:
            x = rval(r, d - 1)
            return V("l", "", [("", x if r.random() < .7 else rval(r, d - 1)) for _ in range(r.randint(0, 3))])
        return V("l", "", [("", rval(r, d - 1)) for _ in range(r.randint(0, 3))])
    return V("d", "", [(k, rval(r, d - 1)) for k in r.sample(KEYS, r.randint(0, 3))])


def schema_of(r, v, noise):
    """a schema that the dictionary may respect"""
    out = []
    for e in v["k"]:
        if r.random() < noise / 3:
            continue
        out.append(elt_of(r, e["k"], e["v"], noise))
    if r.random() < .5 or not out:
        out.append(elt_of(r, r.choice(["zz", "other"]), rval(r, 1), noise))
    r.shuffle(out)
    return out


def elt_of(r, key, v, noise):
    t = v["t"]
    if r.random() < noise:
        t = r.choice("biusnld")
    e = {"key": key, "t": t, "has": False, "sub": []}
    if t == "l":
        e["has"] = True
        e["sub"] = [elt_of(r, "-", v["k"][0]["v"] if v["t"] == "l" and v["k"] else rscalar(r), noise)]
    elif t == "d":
        e["has"] = True
        e["sub"] = schema_of(r, v if v["t"] == "d" else V("d"), noise)
    return e


def break_schema(r, sc):
    """one of the ways to make a schema invalid (or not)"""
    sc = json.loads(json.dumps(sc))
    lvl = sc
    es = [(sc, i) for i in range(len(sc))]
    for l, i in es:
        es += [(l[i]["sub"], k) for k in range(len(l[i]["sub"]))]
    l, i = r.choice(es)
    m = r.randrange(9)
    if m == 0:
        l[i]["key"] = r.choice(["id", "attrs", "help", "type"])
    elif m == 1:
        l[i]["key"] = "-" if l[i]["key"] != "-" else "key"
    elif m == 2:
        l.append(dict(l[i]))
    elif m == 3:
        l[i]["has"] = not l[i]["has"]
        l[i]["sub"] = [{"key": "k", "t": "b", "has": False, "sub": []}] if l[i]["has"] else []
    elif m == 4:
        l[i]["t"] = "?"
    elif m == 5:
        l[i].update(has=True, sub=[])
    elif m == 6:
        l[i].update(t=r.choice("ld"))
    elif m == 7:
        l.append({"key": l[0]["key"], "t": "s", "has": False, "sub": []})
    return sc


def rpath(r, v):
    p = []
    while v["k"] and r.random() < .55:
        i = r.randrange(len(v["k"]))
        if v["t"] == "l":
            p.append({"k": "", "i": i + 1})
        else:
            p.append({"k": v["k"][i]["k"], "i": 0})
        v = v["k"][i]["v"]
    if r.random() < .06:
        p.append({"k": r.choice(KEYS), "i": 0} if r.random() < .5 else {"k": "", "i": r.randint(1, 3)})
    return p


def cf_random(r, nops, pfail=0):
    """the values are those that were given to the registers first: paths are often valid"""
    q, shape = [], {1: V("nil"), 2: V("nil"), 3: V("nil"), 4: V("nil")}
    for _ in range(nops):
        free = [i for i in shape if shape[i]["t"] == "nil"]
        used = [i for i in shape if shape[i]["t"] != "nil"]
        k = r.choice(["lit", "lit", "new", "set", "set", "add", "add", "del", "rm", "dup", "dup", "cmp", "cmp", "cnt",
                      "get", "val", "val", "sch", "rsv", "free"])
        if not used and k not in ("lit", "new", "sch", "rsv"):
            k = "lit"
        if k in ("lit", "new", "dup") and not free:
            k = "free"
        a = r.choice(used) if used else 1
        o = op(k, a)
        if k in ("lit", "new"):
            o["a"] = r.choice(free)
            o["v"] = (rval(r) if r.random() < .8 else V("d", "", [("a", rval(r))])) if k == "lit" else \
                r.choice([rscalar(r), V("l"), V("d")])
            shape[o["a"]] = o["v"]
        elif k in ("set", "add"):
            want = "d" if k == "set" else "l"
            b = r.choice([i for i in shape if i != a and (shape[i]["t"] != "nil" or r.random() < .1)] or
                         [i for i in shape if i != a])
            o.update(p=rpath(r, shape[a]), b=b)
            if r.random() < .7:
                o["p"] = o["p"][:0]
            if k == "set":
                o["key"] = r.choice(KEYS)
            if not o["p"] and shape[a]["t"] == want and shape[b]["t"] != "nil":
                e = {"k": o.get("key", ""), "v": shape[b]}
                shape[a] = dict(shape[a], k=[x for x in shape[a]["k"] if k == "add" or x["k"] != o["key"]] + [e])
            shape[b] = V("nil")
        elif k == "del":
            o.update(p=rpath(r, shape[a]), key=r.choice(KEYS))
        elif k == "get":
            o.update(p=rpath(r, shape[a]), key=r.choice(KEYS))
        elif k == "rm":
            o.update(p=rpath(r, shape[a]), n=r.randint(1, 3))
        elif k == "dup":
            o.update(p=rpath(r, shape[a]) if r.random() < .4 else [], b=r.choice(free))
            shape[o["b"]] = shape[a]
        elif k == "cmp":
            o.update(p=rpath(r, shape[a]) if r.random() < .5 else [], b=r.choice(used))
            o["q"] = o["p"] if r.random() < .6 else rpath(r, shape[o["b"]])
        elif k == "cnt":
            o["p"] = rpath(r, shape[a])
        elif k == "val":
            ds = [i for i in used if shape[i]["t"] == "d"]
            if ds and r.random() < .9:
                o["a"] = r.choice(ds)
            v = shape[o["a"]]
            o["sc"] = schema_of(r, v if v["t"] == "d" else V("d"), r.choice([0, 0, .1]))
        elif k == "sch":
            o["sc"] = schema_of(r, V("d", "", [(x, rval(r)) for x in r.sample(KEYS, 2)]), 0)
            if r.random() < .7:
                o["sc"] = break_schema(r, o["sc"])
        elif k == "rsv":
            o["key"] = r.choice(["id", "attrs", "help", "type", "ID", "", "attr", "types"])
        elif k == "free":
            shape[a] = V("nil")
        if pfail and k in ("new", "set", "add", "dup", "val") and r.random() < pfail:
            o["fail"] = r.randint(1, 12)
        q.append(o)
    return q


def near(r, v):
    """another value, that differs in one place"""
    v = json.loads(json.dumps(v))
    at = [v]
    for x in at:
        at += [e["v"] for e in x["k"]]
    x = r.choice(at)
    k = x["k"]
    if x["t"] in "ld" and r.random() < .8:
        m = r.randrange(5)
        if m == 0 and k:
            del k[r.randrange(len(k))]
        elif m == 1 and k:
            del k[-1]
        elif m == 2:
            key = "" if x["t"] == "l" else r.choice([y for y in KEYS + ["yy", "keys"] if y not in [e["k"] for e in k]])
            k.insert(r.randint(0, len(k)) if x["t"] == "l" else len(k), {"k": key, "v": rscalar(r)})
        elif m == 3 and x["t"] == "l" and len(k) > 1:
            i = r.randrange(len(k) - 1)
            k[i], k[i + 1] = k[i + 1], k[i]
        elif k and x["t"] == "d":
            k[0]["k"] = r.choice([y for y in KEYS + ["yy", "keys"] if y not in [e["k"] for e in k]])
    elif x["t"] == "s" and r.random() < .7:
        x["s"] = r.choice([x["s"] + "x", x["s"][:-1], x["s"].upper(), "x" + x["s"]])
    elif x["t"] in "iu" and r.random() < .6:
        n = int(x["s"]) + r.choice([1, -1, 256, 1 << 32, -(1 << 32)])
        lo, hi = (-(1 << 63), (1 << 63) - 1) if x["t"] == "i" else (0, (1 << 64) - 1)
        if lo <= n <= hi:
            x["s"] = str(n)
    else:
        x.update(rscalar(r))
    return v


def cf_near(r):
    """two values that are the same or almost, compared and validated by the same schema"""
    d = r.choice([2, 3, 3, 4])
    v = V("d", "", [(k, rval(r, d)) for k in r.sample(KEYS, r.randint(1, 3))])
    if r.random() < .25:
        x = rval(r, 1)
        v["k"].append({"k": "long", "v": V("l", "", [("", x if r.random() < .9 else rval(r, 1)) for _ in range(r.choice([20, 60]))])})
    if r.random() < .15:
        v["k"].append({"k": "many", "v": V("d", "", [("k%d" % i, rscalar(r)) for i in range(r.choice([20, 70]))])})
    if r.random() < .2:
        v["k"].append({"k": "text", "v": V("s", "ab" * r.choice([40, 150]))})
    w = near(r, v) if r.random() < .8 else v
    sc = schema_of(r, r.choice([v, w]), r.choice([0, 0, 0, .05]))
    q = [op("lit", 1, v=v), op("lit", 2, v=w), op("cmp", 1, b=2), op("cmp", 2, b=1), op("val", 1, sc=sc), op("val", 2, sc=sc),
         op("dup", 2, b=3), op("cmp", 3, b=2), op("cmp", 1, b=3), op("val", 3, sc=sc), op("cnt", 3), op("free", 2), op("cmp", 3, b=1)]
    return q


# ------------------------------------------------------------ nodes
CONFT = ["bypass", "option", "once", "many", "seq", "or", "str", "any", "re", "int", "uint", "cmd", "cond", "re_lex",
         "subset", "empty"]
LEAVES = ["str", "str", "str", "any", "re", "int", "uint", "empty"]
BAD_RE = ["(", "[a", "*a(", "a{2"]


# the setters: the type of node they are for, and whether the child (or string) must be given
SETTERS = {"bypass": ("bypass", 1), "option": ("option", 1), "once": ("once", 1),
           "many": ("many", 1), "seq": ("seq", 1), "or": ("or", 1), "subset": ("subset", 1),
           "expr_val": ("expr", 1), "expr_bin": ("expr", 1), "expr_pre": ("expr", 1), "expr_post": ("expr", 1),
           "expr_open": ("expr", 1), "expr_close": ("expr", 1), "str": ("str", 0), "str_null": ("str", 1),
           "re": ("re", 0), "re_null": ("re", 1), "pat": ("re_lex", 0), "int": ("int", 0), "uint": ("uint", 0)}


class Conf:
    def __init__(self, r, maxn=8):
        self.r = r
        nc = r.randint(1, 4)
        nl = r.randint(2, maxn - nc)
        self.t = [r.choice([t for t in CONFT if t not in LEAVES]) for _ in range(nc)] + \
            [r.choice(LEAVES) for _ in range(nl)]
        self.res = {}
        self.q = []
        self.g = None

    def approx(self, o):
        """what the node may become: for the cost of the requests only"""
        if self.g is None:
            self.g = [gram.N(t if t in ("seq", "or", "subset", "empty") else "none", "x") for t in self.t]
        n = o["n"] - 1
        t = self.t[n]
        if "c" in o:
            if o["op"] == "add":
                self.g[n]["c"].append(o["c"])
            else:
                self.g[n] = gram.N(t, "x", c=[o["c"]], min=0, max=0)
        elif o["op"] == "conf":
            d = {e["k"]: e["v"] for e in o["v"]["k"]}
            c = [int(e["v"]["s"]) for e in d.get("children", V("l"))["k"] if e["v"]["t"] == "n"]
            if "child" in d:
                if d["child"]["t"] != "n":
                    return
                c = [int(d["child"]["s"])]
            if t == "str" or c or t in ("seq", "or"):
                self.g[n] = gram.N(t, "x", c=c, min=0, max=0, s=d["expr"]["s"] if "expr" in d else "")

    def cost(self, q):
        self.approx({"op": "none", "n": 1})
        return gram.cheap(self.g, [q], 3000)

    def re(self, bad=.1):
        r = self.r
        if r.random() < bad:
            s = r.choice(BAD_RE[:2])
            self.res[s] = {"s": s, "ok": False, "re": {"o": "."}}
        else:
            x = gen_re(r)
            s = re_str(x)
            self.res[s] = {"s": s, "ok": True, "re": x}
        return s

    def kid(self, n):
        return self.r.randint(n + 1, len(self.t))

    def kids(self, n, lo=0, hi=3):
        if n >= len(self.t):
            return []
        return [self.kid(n) for _ in range(self.r.randint(lo, hi))]

    def config(self, n):
        """a configuration for node n, mostly valid"""
        r, t = self.r, self.t[n - 1]
        node = lambda: V("n", str(self.kid(n)))
        c = {}
        if t in ("bypass", "option", "once", "many", "cond", "re_lex"):
            c["child"] = node()
        if t == "many":
            if r.random() < .7:
                c["min"] = V("u", r.choice(["0", "1", "2", "4294967294", "4294967295", "4294967296"]
                                           if r.random() < .2 else ["0", "0", "1", "2"]))
            if r.random() < .7:
                c["max"] = V("u", r.choice(["0", "1", "2", "3", "4294967294", "4294967295", "18446744073709551615"]
                                           if r.random() < .2 else ["0", "1", "2"]))
        if t in ("seq", "or", "cmd"):
            c["children"] = V("l", "", [("", V("n", str(k))) for k in self.kids(n)])
        if t == "str":
            c["string"] = V("s", r.choice(["a", "b", "ab", ""]))
        if t == "any" and r.random() < .5:
            c["attr"] = V("s", r.choice(["t1", "t2"]))
        if t == "re":
            c["pattern"] = V("s", self.re())
        if t in ("int", "uint"):
            k = "i" if t == "int" else "u"
            if r.random() < .6:
                c["min"] = V(k, r.choice(["0", "1", "2", "5"] + (["-1", "-3"] if k == "i" else [])))
            if r.random() < .6:
                c["max"] = V(k, r.choice(["0", "1", "3", "12"] + (["-1"] if k == "i" else [])))
            if r.random() < .4:
                c["base"] = V("u", r.choice(["0", "2", "8", "10", "16"]))
        if t == "cmd":
            ids = ["n%d" % (i + 1) for i in range(len(self.t))]
            words = [w for w in ids[n:]] + ["a", "b", "foo"]
            c["expr"] = V("s", gram.cmd_string(r, words, 2) if r.random() < .85 else r.choice(["(a", "a|", "[", "", "a b)"]))
        if t == "cond":
            ids = ["n%d" % (i + 1) for i in range(len(self.t))]
            c["expr"] = V("s", cond_str(gen_cond(r, ids, 2), r) if r.random() < .85 else r.choice(["(a", "root(", "", "foo(a)"]))
        if t == "re_lex" and r.random() < .85:
            pats = []
            for _ in range(r.randint(0, 3)):
                p = {"pattern": V("s", self.re(.05)), "keep": V("b", r.choice("011"))}
                if r.random() < .5:
                    p["attr"] = V("s", r.choice(["t1", "t2"]))
                if r.random() < .04:
                    del p[r.choice(list(p))]
                pats.append(V("d", "", p.items()))
            c["patterns"] = V("l", "", [("", p) for p in pats])
        if c and r.random() < .12:
            m = r.randrange(4)
            k = r.choice(list(c))
            if m == 0:
                del c[k]
            elif m == 1:
                c["unknown"] = rscalar(r) if False else V("b", "1")
            elif m == 2:
                c[k] = V("b", "1") if c[k]["t"] != "b" else V("s", "1")
            else:
                if c[k]["t"] == "l":
                    c[k] = V("l", "", [("", e["v"]) for e in c[k]["k"]] + [("", V("s", "x"))])
                else:
                    c[k] = V("l")
        if t in ("subset", "empty"):
            c = {} if r.random() < .5 else {"a": V("b", "1")}
        # a dictionary has no order
        items = list(c.items())
        r.shuffle(items)
        return V("d", "", items)

    def wrong(self, n):
        """the setter of another type of node, or one that is given no child"""
        r, t = self.r, self.t[n - 1]
        if r.random() < .3:
            a = r.choice([a for a in SETTERS if SETTERS[a][1]])
            return {"op": "w", "n": n, "w": 0, "as": a}
        a = r.choice([a for a in SETTERS if SETTERS[a][0] != t])
        return {"op": "w", "n": n, "w": self.kid(n) if n < len(self.t) and r.random() < .9 else 0, "as": a}

    def conf(self, n, pfail=0):
        r, t = self.r, self.t[n - 1]
        o = {"op": "conf", "n": n, "v": None}
        m = r.random()
        if t in ("seq", "or", "subset") and m < .5 and n < len(self.t):
            o = {"op": "add", "n": n, "c": self.kid(n)}
        elif t == "str" and m < .3:
            o = {"op": "str", "n": n, "s": r.choice(["a", "b", "ab"])}
        elif t == "re" and m < .3:
            o = {"op": "re", "n": n, "s": self.re()}
        elif t == "many" and m < .4:
            o = {"op": "many", "n": n, "c": self.kid(n), "min": r.randint(0, 2), "max": r.randint(0, 3)}
        elif t in ("bypass", "option", "once") and m < .4:
            o = {"op": "child", "n": n, "c": self.kid(n)}
        elif t == "re_lex" and m < .4:
            o = {"op": "pat", "n": n, "s": self.re(), "keep": r.randint(0, 1), "attr": r.choice(["", "t1"])}
        else:
            o["v"] = self.config(n)
        if r.random() < .15:
            o = self.wrong(n)
        if pfail and r.random() < pfail:
            o["fail"] = r.randint(1, 20)
        self.approx(o)
        self.q.append(o)

    def ask(self, n=None):
        r = self.r
        n = n or r.randint(1, len(self.t))
        k = r.choice("PPL")
        toks = ["a", "b", "ab", "1", "2", "12", "a b", "ab 1", "foo"]
        v = [r.choice(toks) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]
        if k == "L":
            v = v[:2] + [r.choice(["", "a", "f"])]
        q = {"op": k, "n": n, "v": v}
        if self.cost(q):
            self.q.append(q)

    def case(self):
        g = [gram.N(t, "n%d" % (i + 1)) for i, t in enumerate(self.t)]
        return Case(["N %d =%s %s" % (i + 1, n["t"], hx(n["id"])) for i, n in enumerate(g)] +
                    [cn_line(o) for o in self.q],
                    {"g": g, "re": list(self.res.values()) or [{"s": "", "ok": False, "re": {"o": "."}}], "q": self.q})


def cn_line(o):
    k = o["op"]
    if k in ("P", "L"):
        return q_line(o)
    w = ["CN", str(o.get("fail", 0)), k, str(o["n"])]
    if k == "conf":
        w += lit(o["v"])
    elif k in ("str", "re"):
        w += [hx(o["s"])]
    elif k == "pat":
        w += [hx(o["s"]), str(o["keep"]), hx(o["attr"] or None)]
    elif k == "w":
        w += [str(o["w"]), o["as"]]
    elif k == "many":
        w += [str(o["c"]), str(o["min"]), str(o["max"])]
    else:
        w += [str(o["c"])]
    return " ".join(w)


def cn_cases(r, count, pfail=0):
    out = []
    for _ in range(count):
        C = Conf(r)
        order = list(range(len(C.t), 0, -1))
        if r.random() < .3:
            C.ask(1)
        for n in order:
            if r.random() < .95:
                C.conf(n)
        for _ in range(r.randint(3, 8)):
            C.conf(r.choice([1, 1, r.randint(1, len(C.t))]), pfail)
            for _ in range(r.randint(1, 3)):
                C.ask(1 if r.random() < .6 else None)
        out.append(C.case())
    return out


def cn_same(r, count, pfail=0):
    """one node that is configured again and again, over fixed children"""
    out = []
    for i in range(count):
        C = Conf(r)
        C.t = [CONFT[i % len(CONFT)], "str", "str", "int"]
        C.q = [{"op": "str", "n": 2, "s": "a"}, {"op": "str", "n": 3, "s": "b"}]
        for _ in range(r.randint(3, 7)):
            C.conf(1, pfail)
            for _ in range(2):
                C.ask(1)
        out.append(C.case())
    return out


def c16(ck):
    r = seeded(ck, 16)
    hist = []
    o = ck.model("GenConfig", "GenConfig" if ck.quick else "GenConfigT")
    hist = [json.loads(x) for x in printed(o, "HIST")]
    if not hist:
        raise CheckError("no history")
    hist.sort(key=lambda h: json.dumps(h))
    hist = r.sample(hist, min(len(hist), ck.n(2000, 40000)))
    cases = [cf_case(h) for h in hist]
    cases += [cf_case(cf_random(r, r.randint(5, 30))) for _ in range(ck.n(1500, 20000))]
    cases += [cf_case(cf_near(r)) for _ in range(ck.n(1500, 15000))]
    cases += [cf_case(cf_random(r, r.randint(5, 20), .4)) for _ in range(ck.n(1500, 20000))]
    ck.conform("containers", cases, "JConfig", env={}, steps=steps)
    cases = cn_cases(r, ck.n(900, 12000)) + cn_cases(r, ck.n(500, 8000), .35)
    cases += cn_same(r, ck.n(600, 8000)) + cn_same(r, ck.n(600, 8000), .5)
    ck.conform("nodes", cases, "JNodeConf", env={"VIEW": "all"}, steps=steps)
