"""Checks on the import of grammars written in YAML (Yaml.tla)."""
import ctypes, json, re as _re
from ecv import Case, hx
import gram
from gram import q_line
from p_gram import seeded
from p_comp import steps
from p_conf import Conf, CONFT, LEAVES, V

NOSCHEMA = ["subset", "empty", "none", "space", "sh_lex", "dynamic", "file", "expr", "nosuchtype", ""]


class Doc:
    """a YAML document: nodes k (s, l, m), s, l (items), p (pairs)"""

    def __init__(self):
        self.n = []

    def new(self, k="s", s=""):
        self.n.append({"k": k, "s": s, "l": [], "p": []})
        return len(self.n)

    def s(self, s):
        return self.new("s", s)

    def pair(self, m, key, v):
        k = self.s(key) if isinstance(key, str) else key
        self.n[m - 1]["p"].append({"k": k, "v": v})

    def refs(self):
        cnt = {1: 1}
        seen = set()

        def go(i):
            if i in seen:
                return
            seen.add(i)
            x = self.n[i - 1]
            for j in x["l"] + [z for p in x["p"] for z in (p["k"], p["v"])]:
                cnt[j] = cnt.get(j, 0) + 1
                go(j)
        go(1)
        return cnt

    def scalar(self, r, s):
        m = r.random()
        if _re.match(r"^[a-zA-Z][a-zA-Z0-9]*$|^-?[0-9]+$", s) and m < .6:
            return s
        if m < .8 and "\n" not in s:
            return "'%s'" % s.replace("'", "''")
        return json.dumps(s)

    def text(self, r):
        cnt = self.refs()
        names = {}

        def flow(i):
            x = self.n[i - 1]
            if i in names:
                return "*" + names[i]
            a = ""
            if cnt[i] > 1 or r.random() < .05:
                names[i] = "a%d" % i
                a = "&a%d " % i
            if x["k"] == "s":
                return a + self.scalar(r, x["s"])
            if x["k"] == "l":
                return a + "[" + ", ".join(flow(j) for j in x["l"]) + "]"
            return a + "{" + ", ".join(key(p["k"]) + " : " + flow(p["v"]) for p in x["p"]) + "}"

        def key(i):
            t = flow(i)
            return ("? " + t + "\n") if self.n[i - 1]["k"] != "s" else t

        def block(i, ind):
            """what follows 'key:' or '-'"""
            x = self.n[i - 1]
            if i in names or x["k"] == "s" or not (x["l"] or x["p"]) or r.random() < .2 or \
                    any(self.n[p["k"] - 1]["k"] != "s" for p in x["p"]):
                return " " + flow(i) + "\n"
            a = ""
            if cnt[i] > 1:
                names[i] = "a%d" % i
                a = " &a%d" % i
            out = a + "\n"
            for j in x["l"]:
                out += " " * ind + "-" + block(j, ind + 2)
            for p in x["p"]:
                out += " " * ind + key(p["k"]) + " :" + block(p["v"], ind + 2)
            return out
        t = block(1, 0) if r.random() < .6 else flow(1) + "\n"
        if t.startswith("\n"):
            t = t[1:]
        elif t.startswith(" &a"):
            t = "---" + t
        elif t.startswith(" "):
            t = t[1:]
        return t


class YGen:
    def __init__(self, r, loops=False, big=False):
        self.r = r
        self.C = C = Conf(r)
        C.t = [t if t not in ("subset", "empty") else r.choice(["seq", "or", "str"]) for t in C.t]
        if r.random() < .03:
            C.t[r.randrange(len(C.t))] = r.choice(["subset", "empty"])
        self.d = Doc()
        self.at = {}
        self.conf = {}
        for n in range(len(C.t), 0, -1):
            v = C.config(n)
            C.approx({"op": "conf", "n": n, "v": v})
            self.conf[n] = v
        if loops:
            self.loop()
        if big:
            self.big()

    def big(self):
        """many nodes, most of them used in several places"""
        r, C = self.r, self.C
        k, m = r.randint(4, 10), r.randint(8, 40)
        C.t = ["or"] + [r.choice(["seq", "seq", "or"]) for _ in range(k)] + ["str"] * m
        n = lambda x: ("", V("n", str(x)))
        C.g = None
        leaf = lambda: r.randint(k + 2, k + m + 1)
        self.conf = {i: V("d", "", [("string", V("s", "a" if i % 3 else "w%d" % i))]) for i in range(k + 2, k + m + 2)}
        for i in range(k + 1, 1, -1):
            kids = [r.randint(i + 1, k + 1) if i < k + 1 and r.random() < .2 else leaf() for _ in range(r.randint(1, 5))]
            self.conf[i] = V("d", "", [("children", V("l", "", [n(x) for x in kids]))])
        self.conf[1] = V("d", "", [("children", V("l", "", [n(x) for x in list(range(2, k + 2)) + [leaf() for _ in range(m)]]))])
        for i in range(k + m + 1, 0, -1):
            C.approx({"op": "conf", "n": i, "v": self.conf[i]})

    def loop(self):
        """seq(word, option(root)), or(word, seq(word, root)), ..."""
        r, C = self.r, self.C
        C.t = ["or", "seq", "str", "str", r.choice(["option", "bypass", "once", "many"]), "int"]
        n = lambda k: ("", V("n", str(k)))
        C.g = None
        self.conf = {
            6: V("d"), 3: V("d", "", [("string", V("s", "a"))]), 4: V("d", "", [("string", V("s", "b"))]),
            5: V("d", "", [("child", V("n", r.choice("12")))]),
            2: V("d", "", [("children", V("l", "", [n(r.choice([3, 4, 6])), n(r.choice([5, 1, 3]))] +
                                          ([n(4)] if r.random() < .5 else [])))]),
            1: V("d", "", [("children", V("l", "", r.sample([n(2), n(3), n(6)], r.randint(1, 3))))])}
        for k in range(6, 0, -1):
            C.approx({"op": "conf", "n": k, "v": self.conf[k]})

    def spell(self, v):
        r, t, s = self.r, v["t"], v["s"]
        if t == "b":
            w = "true" if s == "1" else "false"
            return r.choice([w, w, w.upper(), w.capitalize(), w[:2] + w[2:].upper()])
        if t in "iu" and r.random() < .3:
            k = int(s)
            return r.choice(["+%d" % k if k >= 0 else s, " " + s, "0x%x" % k if k >= 0 else "-0x%x" % -k,
                             "0%o" % k if k >= 0 else "-0%o" % -k])
        return s

    def value(self, v):
        d = self.d
        if v["t"] == "n":
            return self.node(int(v["s"]))
        if v["t"] == "l":
            i = d.new("l")
            for e in v["k"]:
                x = self.value(e["v"])
                d.n[i - 1]["l"].append(x)
            return i
        if v["t"] == "d":
            i = d.new("m")
            for e in v["k"]:
                d.pair(i, e["k"], self.value(e["v"]))
            return i
        return d.s(self.spell(v))

    def node(self, n):
        r, d = self.r, self.d
        if n in self.at:
            return self.at[n]
        i = self.at[n] = d.new("m")
        pairs = [("type", None)]
        if r.random() < .9:
            pairs.append(("id", None))
        if r.random() < .3:
            pairs.append(("help", None))
        if r.random() < .3:
            pairs.append(("attrs", None))
        pairs += [(e["k"], e["v"]) for e in self.conf[n]["k"]]
        r.shuffle(pairs)
        for k, v in pairs:
            if k == "type":
                x = d.s(self.C.t[n - 1])
            elif k == "id":
                x = d.s("n%d" % n)
            elif k == "help":
                x = d.s(r.choice(["help me", "", "x"]))
            elif k == "attrs":
                x = d.new("m")
                for _ in range(r.randint(0, 3)):
                    d.pair(x, r.choice(["k1", "k2", "help", "type"]), d.s(r.choice(["v", "w", ""])))
            else:
                x = self.value(v)
            d.pair(i, k, x)
        return i

    def mutate(self):
        """change something in the document: most of the time, it is no longer valid"""
        r, d = self.r, self.d
        cand = [i for i in range(1, len(d.n) + 1) if i in d.refs()]
        i = r.choice(cand)
        m = r.randrange(10)
        nums = [p["v"] for j in cand for p in d.n[j - 1]["p"]
                if d.n[p["k"] - 1]["s"] in ("min", "max", "base", "keep") and d.n[p["v"] - 1]["k"] == "s"]
        if nums and r.random() < .3:
            i, m = r.choice(nums), 2
        x = d.n[i - 1]
        if m == 0:
            x.update(k="s", s=r.choice(["", "a", "true", "12", "str"]), l=[], p=[])
        elif m == 1:
            x.update(k=r.choice("lm"), l=[], p=[])
        elif m == 2 and x["k"] == "s":
            x["s"] = r.choice(["", "-1", "0", "99999999999999999999", "18446744073709551615", "9223372036854775808", "1x",
                               "yes", "x y", "08", "0x", " ", " -1", "-", "+", "-0", "4294967295", "tru", "true "] + NOSCHEMA)
        elif x["k"] == "m" and x["p"]:
            if m in (3, 4):
                x["p"].remove(r.choice(x["p"]))
            elif m == 5:
                p = dict(r.choice(x["p"]))
                x["p"].insert(r.randint(0, len(x["p"])), p)
            elif m == 6:
                d.pair(i, r.choice(["unknown", "child", "children", "string", "attr", "help", "id", "type", "attrs", "min"]),
                       r.choice(cand))
            elif m == 7:
                r.choice(x["p"])["v"] = r.choice(cand)
            elif m == 8:
                r.choice(x["p"])["k"] = r.choice(cand)
            else:
                r.shuffle(x["p"])
        elif x["k"] == "l" and x["l"]:
            if m < 6:
                x["l"].insert(r.randint(0, len(x["l"])), r.choice(cand))
            else:
                x["l"].remove(r.choice(x["l"]))

    def order(self):
        out = []

        def go(n):
            if n not in out:
                out.append(n)
                for e in self.conf[n]["k"]:
                    for k in ([e["v"]] if e["v"]["t"] == "n" else [x["v"] for x in e["v"]["k"]]):
                        if k["t"] == "n":
                            go(int(k["s"]))
        go(1)
        return out

    def uses_re(self):
        return any(x["k"] == "s" and x["s"] in ("re", "re_lex") for x in self.d.n)

    def case(self, muts, nq, fail=0):
        r = self.r
        self.node(1)
        for _ in range(muts):
            self.mutate()
        text = self.d.text(r)
        res = list(self.C.res.values())
        # any scalar may have become a regular expression: a literal one, or the document is only imported
        known = {x["s"] for x in res}
        for x in self.d.n:
            if x["k"] == "s" and x["s"] not in known:
                known.add(x["s"])
                res.append({"s": x["s"], "ok": compiles(x["s"]),
                            "re": {"o": "cat", "k": [{"o": "c", "s": c} for c in x["s"]]} if x["s"] else {"o": "."}})
                if not x["s"].replace(" ", "").isalnum() and self.uses_re():
                    nq = 0
        imp = {"op": "YI", "y": self.d.n, "re": res or [{"s": "", "ok": False, "re": {"o": "."}}], "t": text,
               "own": r.randint(0, 1), "fail": fail}
        qs = [imp]
        order = self.order()
        toks = ["a", "b", "ab", "1", "2", "12", "a b", "ab 1", "foo"]
        for _ in range(nq):
            n = 1 if r.random() < .7 else r.randint(1, len(order))
            k = r.choice("PPL")
            v = [r.choice(toks) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]
            if k == "L":
                v = v[:2] + [r.choice(["", "a", "f"])]
            if self.C.cost({"op": k, "n": order[n - 1], "v": v}):
                qs.append({"op": k, "n": n, "v": v})
        return ycase(qs)


_libc = ctypes.CDLL(None)


def compiles(s):
    """is it a valid extended regular expression, for the C library?"""
    buf = ctypes.create_string_buffer(1024)
    if _libc.regcomp(buf, s.encode(), 1) != 0:
        return False
    _libc.regfree(buf)
    return True


def ycase(qs):
    lines = []
    for q in qs:
        if q["op"] == "YI":
            lines.append("YI %d %d %s" % (q["fail"], q["own"], "-" if q["t"] is None else hx(q["t"])))
        else:
            lines.append(q_line(q))
    return Case(lines, {"q": [{k: v for k, v in q.items() if k != "t"} for q in qs]})


BROKEN = [None, "", "\n", "# nothing\n", "{", "[", "type: [", "a: b: c\n", "{type: str, string: a", "*a\n", "\t- a",
          "&a\n", "%YAML 9.9\n---\n", "--- {type: str, string: a}\n--- {", "\"abc", "{type: *x, string: a}", "...\n"]
EMPTY_RE = [{"s": "", "ok": False, "re": {"o": "."}}]


SPELL = ["", " ", "0", "1", "2", "3", "-1", "-3", " -1", "\t-3", " 1", "1 ", "+2", " +2", "-+1", "+-1", "--1", "- 1", "1-", "1.", "1.0", "1e1", "0x1",
         "0X2", "-0x1", "0x", "x1", "0x-1", "010", "-010", "08", "00", "-0", "1a", "a1", "1,0", "1_0", "true", "9223372036854775807",
         "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
         "+18446744073709551615", "-18446744073709551615", " -18446744073709551613", "0xffffffffffffffff", "0x7fffffffffffffff",
         "-0x8000000000000000", "01777777777777777777777", "4294967295", "4294967296", "4294967298", "999999999999999999999999999"]
BOOLS = ["true", "false", "True", "FALSE", "tRuE", "yes", "no", "1", "0", "", " true", "true ", "truefalse", "tru", "on", "~", "null"]


def spell_cases(r):
    """all the ways to write a number or a boolean, for each kind of node"""
    cases = []

    def doc(*pairs):
        d = Doc()
        i = d.new("m")
        for k, v in pairs:
            d.pair(i, k, v(d) if callable(v) else d.s(v))
        return d

    def any_(d):
        i = d.new("m")
        d.pair(i, "type", d.s("any"))
        return i

    def pats(s):
        def f(d):
            i = d.new("l")
            for pat, keep in (("a", s), ("b", "true")):
                j = d.new("m")
                d.pair(j, "pattern", d.s(pat))
                d.pair(j, "keep", d.s(keep))
                d.n[i - 1]["l"].append(j)
            return i
        return f
    todo = []
    for s in SPELL:
        for t, keys in (("int", ("min", "max", "base")), ("uint", ("min", "max", "base"))):
            for k in keys:
                todo.append((doc(("type", t), (k, s)),
                             [] if k == "base" and s not in ("2", "3", "+2", " +2", "0", "00", "010", "0X2") else
                             [[x] for x in ("0", "1", "2", "-1", "12", "9223372036854775807", "18446744073709551615", "-9223372036854775808")]))
        for k in ("min", "max"):
            todo.append((doc(("type", "many"), ("child", any_), (k, s)), [["a"] * n for n in range(4)]))
    for s in BOOLS:
        todo.append((doc(("type", "re_lex"), ("patterns", pats(s)), ("child", any_)), [["a"], ["b"], ["ab"], ["bab"]]))
    res = [{"s": x, "ok": True, "re": {"o": "c", "s": x}} for x in "ab"]
    for d, vs in todo:
        qs = [{"op": "YI", "y": d.n, "re": res, "t": d.text(r), "own": r.randint(0, 1), "fail": 0}]
        cases.append(ycase(qs + [{"op": "P", "n": 1, "v": v} for v in vs]))
    return cases


def c18(ck):
    r = seeded(ck, 18)
    cases = []
    for t in BROKEN:
        y = []
        if t is not None and t.startswith("--- {"):   # the first document counts
            y = [{"k": "m", "s": "", "l": [], "p": [{"k": 2, "v": 3}, {"k": 4, "v": 5}]}] + \
                [{"k": "s", "s": s, "l": [], "p": []} for s in ("type", "str", "string", "a")]
        if t == "&a\n":                               # an empty scalar
            y = [{"k": "s", "s": "", "l": [], "p": []}]
        cases.append(ycase([{"op": "YI", "y": y, "re": EMPTY_RE, "t": t, "own": 0, "fail": 0}]))
    cases += spell_cases(r)
    cases += [YGen(r).case(0, r.randint(2, 6)) for _ in range(ck.n(900, 12000))]
    cases += [YGen(r, True).case(0, r.randint(1, 4)) for _ in range(ck.n(200, 2000))]
    cases += [YGen(r, r.random() < .2).case(r.randint(1, 2), 0) for _ in range(ck.n(2000, 20000))]
    cases += [YGen(r, r.random() < .2).case(0, 1, r.randint(1, 70)) for _ in range(ck.n(1200, 12000))]
    cases += [YGen(r, big=True).case(0, 2) for _ in range(ck.n(60, 900))]
    ck.conform("import", cases, "JYaml", env={"VIEW": "all"}, steps=steps)
