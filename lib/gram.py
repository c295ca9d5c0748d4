"""Grammar cases: rendering for the driver, random generation."""
import zlib
import random
from ecv import Case, hx

SPECIAL = set(".[]()*+?{}|^$\\")

# the words that a space node matches; on one line only where lines are typed or printed
SPACES = [" ", "\t ", "\r", "\r\n", "\n \f"]


def one_line():
    del SPACES[2:]


def esc_class(s):
    """characters of a bracket expression"""
    out = ""
    if "]" in s:
        out += "]"
    for ch in s:
        if ch not in "]-^":
            out += ch
    if "^" in s:
        out += "^"
    if "-" in s:
        out += "-"
    return out


def re_str(r, prec=0):
    """POSIX extended regular expression of a syntax tree"""
    o = r["o"]
    if o == "c":
        if len(r["s"]) == 1:
            ch = r["s"]
            return "\\" + ch if ch in SPECIAL else ch
        return "[" + esc_class(r["s"]) + "]"
    if o == "n":
        return "[^" + esc_class(r["s"]) + "]"
    if o in ".^$":
        return o
    if o == "cat":
        x = "".join(re_str(k, 1) for k in r["k"])
        return "(" + x + ")" if prec > 1 else x
    if o == "alt":
        x = "|".join(re_str(k, 0) for k in r["k"])
        return "(" + x + ")" if prec > 0 else x
    return re_str(r["k"][0], 2) + o


def cond_str(c, r=None):
    """text of a condition, with random blanks"""
    sp = lambda: r.choice(["", "", "", " ", "  ", "\t"]) if r else ""
    if c["o"] == "w":
        return sp() + c["s"] + sp()
    if c["o"] == "z":
        return sp() + str(c["z"]) + sp()
    return sp() + c["f"] + sp() + "(" + ",".join(cond_str(a, r) for a in c["a"]) + sp() + ")" + sp()


def node_line(i, n):
    t, h = n["t"], "N %d %s %s" % (i, n["t"], hx(n["id"]))
    if t == "str":
        return h + " " + hx(n["s"])
    if t == "any":
        return h + " " + (hx(n["attr"]) if n["attr"] else "-")
    if t in ("int", "uint"):
        return h + " %s %s %s" % (n["min"] or "-", n["max"] or "-", n["base"] or "-")
    if t == "re":
        return h + " " + hx(n["raw"] if "invalid" in n else re_str(n["re"]))
    if t == "many":
        return h + " %d %d %d" % (n["c"][0], n["min"], n["max"])
    if t in ("option", "once", "sh_lex"):
        return h + " %d" % n["c"][0]
    if t == "cond":
        return h + " %s %d" % (hx(n["s"]), n["c"][0])
    if t == "re_lex":
        return h + " %d " % n["c"][0] + " ".join(
            "%s %d %s" % (hx(n["raw"] if "invalid" in n else re_str(p["re"])), p["keep"], hx(p["attr"] or None)) for p in n["pats"])
    if t == "dynamic":
        return h + " %s %d" % (hx(n["s"]), n["kind"])
    if t in ("user", "user0"):
        rules = "".join("%s=%d," % (x["w"], x["n"]) for x in n["rules"]) + "!%d," % n["em"]
        items = "".join("%s,%s,%s;" % (x["w"], x["t"], x["s"]) for x in n["items"])
        return h + " %s %s %d %d %d" % (hx(rules), hx(items), n["kind"], n["skip"], n["cerr"]) + "".join(" %d" % c for c in n["c"])
    if t == "cmd":
        return h + " %s " % hx(n["s"]) + " ".join(str(c) for c in n["c"])
    return h          # seq, or, subset, bypass: children added later


LATE = ("seq", "or", "subset", "bypass", "expr")


def other_way(i, n):
    """another way to create the same node: variable arguments, or configuration"""
    t, k = n["t"], n.get("c", [])
    how = zlib.crc32(repr((i, t, n["id"], k)).encode()) % 3
    h = "N %d %s%s %s" % (i, "-VC"[how], t, hx(n["id"]))
    kids = "".join(" %d" % c for c in k)
    if how == 0:
        return None
    if t in ("seq", "or", "subset"):
        return h + kids if (len(k) <= 5 if how == 1 else t != "subset") else None
    if how == 2:
        return None
    if t == "bypass" and len(k) == 1:
        return h + kids
    if t == "cmd" and len(k) <= 5:
        return h + " " + hx(n["s"]) + kids
    if t in ("int", "uint") and all(n[x] not in ("", "-", None) for x in ("min", "max", "base")):
        return h + " %s %s %s" % (n["min"], n["max"], n["base"])
    return None


def lines_of(g):
    """the driver lines that build a grammar. Children with a larger index
    are allowed below seq/or/subset/bypass only."""
    first, late, done = [], [], set()
    order = []
    pending = list(range(1, len(g) + 1))
    while pending:
        prog = False
        for i in list(pending):
            n = g[i - 1]
            if n["t"] in LATE or all(c in done for c in n.get("c", [])):
                order.append(i)
                done.add(i)
                pending.remove(i)
                prog = True
        if not prog:
            raise ValueError("cannot order the nodes")
    known = set()
    for i in order:
        n = g[i - 1]
        x = other_way(i, n) if all(c in known for c in n.get("c", [])) else None
        known.add(i)
        first.append(x or node_line(i, n))
        if x:
            continue
        if g[i - 1]["t"] == "expr":
            late += expr_lines(i, g[i - 1])
        elif g[i - 1]["t"] in LATE:
            late += ["A %d %d" % (i, c) for c in g[i - 1]["c"]]
    return first + late


def expr_lines(i, n):
    """in an order given by n["ord"]"""
    ls = []
    for w in n.get("ord", ["old", "val", "bin", "pre", "post", "par"]):
        if w == "val" and n["val"]:
            ls.append("X %d val %d" % (i, n["val"]))
        elif w == "old":
            ls += ["X %d val %d" % (i, k) for k in n.get("old", [])]
        elif w == "par":
            ls += ["X %d par %d %d" % (i, a, b) for a, b in n["par"]]
        elif w != "val":
            ls += ["X %d %s %d" % (i, w, k) for k in n[w]]
    return ls


def expand(g):
    """the same grammar where expr nodes are replaced by what they build"""
    out = [dict(n) for n in g]
    for i, n in enumerate(g):
        if n["t"] != "expr":
            continue

        def new(t, c, **k):
            out.append(N(t, "", c=c, **k))
            return len(out)
        if not n["val"]:
            out[i] = N("none", n["id"])
            continue
        ref = new("seq", [])
        pre = new("or", n["pre"])
        po = new("or", n["post"])
        alts = [n["val"], new("seq", [pre, ref])] + [new("seq", [a, ref, b]) for a, b in n["par"]]
        term = new("seq", [new("or", alts), new("many", [po], min=0, max=0)])
        for b in n["bin"]:
            term = new("seq", [term, new("many", [new("seq", [b, term])], min=0, max=0)])
        out[ref - 1]["c"] = [term]
        out[i] = N("bypass", n["id"], c=[term])
    return out


def q_line(q):
    if q["op"] == "EV":
        return "EV %d %d %d %d %d %s" % (q["n"], q["x"], q["mode"], q["f"], q["miss"], " ".join(hx(x) for x in q["v"]))
    if q["op"] == "OK":
        return "OK %d" % q["n"]
    return "%s %d %s" % (q["op"], q["n"], " ".join(hx(x) for x in q["v"]))


def gcase(g, qs, tag=""):
    return Case(lines_of(g) + [q_line(q) for q in qs], {"g": g, "q": qs}, tag)


# ------------------------------------------------------------ generation
WORDS = ["a", "b", "ab", "abc", "ba", "foo", "foobar", "bar", ""]
ATTRS = ["t1", "t2"]


def N(t, id, **k):
    d = {"t": t, "id": id, "c": []}
    d.update(k)
    return d


def gen_re(r, depth=2):
    """a random regular expression, sometimes anchored"""
    x = gen_re1(r, depth)
    k = r.random()
    if k < .12:
        x = {"o": "cat", "k": [{"o": "^"}] * (k < .09) + [x] + [{"o": "$"}] * (k > .06)}
        if r.random() < .3:
            x = {"o": "alt", "k": [x, gen_re1(r, depth)]}
    return x


def gen_re1(r, depth):
    k = r.random()
    if depth == 0 or k < 0.35:
        m = r.random()
        if m < 0.6:
            return {"o": "c", "s": r.choice("abfo12")}
        if m < 0.8:
            return {"o": "c", "s": "".join(sorted(set(r.choice("abcfo019") for _ in range(2)) | {"r"}))}
        if m < 0.9:
            return {"o": "n", "s": "".join(sorted({r.choice("ab"), r.choice("fo")}))}
        return {"o": "."}
    if k < 0.65:
        return {"o": "cat", "k": [gen_re1(r, depth - 1) for _ in range(r.randint(2, 3))]}
    if k < 0.8:
        return {"o": "alt", "k": [gen_re1(r, depth - 1) for _ in range(2)]}
    return {"o": r.choice("*+?"), "k": [gen_re1(r, depth - 1)]}


BIG = ["4294967296", "4294967297", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551616", "010", "8", "08",
       "00", "99999999999999999999999"]


def gen_cond(r, ids, depth=3):
    """a random condition, mostly well typed"""
    def nodeset(d):
        k = r.random()
        if d <= 0 or k < 0.3:
            return F(r.choice(["root", "current"]))
        if k < 0.45:
            return F("first_child", nodeset(d - 1))
        if k < 0.53:
            return F(r.choice(["or", "and"]), *[nodeset(d - 1) for _ in range(r.randint(2, 3))])
        if k < 0.97:
            return F("find", nodeset(d - 1), W(r.choice(ids)))
        return F("find", W("x"), W(r.choice(ids)))

    def F(f, *a):
        return {"o": "f", "f": f, "a": list(a)}

    def W(s):
        return {"o": "w", "s": s}

    def num(d):
        k = r.random()
        if k < 0.3:
            return {"o": "z", "z": r.randint(0, 3)}
        if k < 0.4:
            return {"o": "z", "z": r.choice(BIG)}
        if k < 0.5 and d > 0:
            return F(r.choice(["or", "and"]), *[num(d - 1) for _ in range(r.randint(2, 3))])
        return F("count", nodeset(d - 1))

    def text(d):
        if r.random() < 0.5 and d > 0:
            return F(r.choice(["or", "and"]), *[text(d - 1) for _ in range(2)])
        return W(r.choice(["eq", "w", "w.1", "_"]))

    def boolean(d):
        k = r.random()
        if k < 0.4:
            return F("bool", any_(d - 1))
        if k < 0.7 and d > 0:
            return F(r.choice(["or", "and"]), *[boolean(d - 1) for _ in range(2)])
        return F("cmp", W(r.choice(["eq", "ne", "gt", "le"])), num(d - 1), num(d - 1))

    def any_(d):
        k = r.random()
        if d <= 0 or k < 0.1:
            return r.choice([W(r.choice(["eq", "w"])), {"o": "z", "z": r.randint(0, 2)}])
        if k < 0.3:
            return nodeset(d)
        if k < 0.5:
            return num(d)
        if k < 0.6:
            return F("bool", any_(d - 1))
        if k < 0.75:
            return F(r.choice(["or", "and"]), *[any_(d - 1) for _ in range(r.randint(2, 3))])
        if k < 0.95:
            m = r.random()
            if m < 0.6:
                return F("cmp", W(r.choice(["eq", "ne", "gt", "lt", "ge", "le"])), num(d), num(d))
            if m < 0.8:
                return F("cmp", W(r.choice(["eq", "ne"])), nodeset(d - 1), nodeset(d - 1))
            if m < 0.87:      # the type of the result matters
                x = [r.choice([{"o": "z", "z": 0}, {"o": "z", "z": 1}, F("find", F("root"), W("zz")), F("bool", {"o": "z", "z": 0}), F("root")])
                     for _ in range(4)]
                return F("cmp", W(r.choice(["eq", "ne"])), F(r.choice(["or", "and"]), *x[:r.randint(2, 3)]), x[3])
            if m < 0.95:
                x = r.choice([text, boolean])
                return F("cmp", W(r.choice(["eq", "ne", "eq", "ne", "gt"])), x(d - 1), x(d - 1))
            return F("cmp", W(r.choice(["eq", "ne", "gt", "zz"])), any_(d - 1), any_(d - 1))
        return r.choice([F("or", any_(d - 1)), F("nosuch", any_(d - 1)), F("bool"),
                         F("count", {"o": "z", "z": 1}), F("root", W("x")), F("current", {"o": "z", "z": 1})])
    return any_(depth)


def cmd_string(r, words, depth=3):
    """a random, mostly valid, command string"""
    def term(d):
        k = r.random()
        if d <= 0 or k < 0.5:
            x = r.choice(words)
        elif k < 0.75:
            x = "(" + expr(d - 1) + ")"
        else:
            x = "[" + expr(d - 1) + "]"
        while r.random() < 0.15:
            x += r.choice("*+")
        return x

    def expr(d):
        n = r.choice([1, 2, 2, 3])
        out = term(d)
        for _ in range(n - 1):
            out += r.choice([" ", "|", ",", " | ", ", "]) + term(d - 1)
        return out
    return expr(depth)


class Gen:
    """random grammar; the type mix is given by weights"""

    def __init__(self, r, weights, words=WORDS, max_depth=4, loops=0.0, share=0.15, ids=None):
        self.r, self.w, self.words = r, weights, words
        self.max_depth, self.loops, self.share = max_depth, loops, share
        self.g = []
        self.complete = []      # finished nodes that can be shared
        self.ids = ids
        self.guard = []         # nodes usable as loop targets, with a guard

    def new(self, t, **k):
        i = len(self.g) + 1
        id = self.r.choice(self.ids) if self.ids else "n%d" % i
        self.g.append(N(t, id, **k))
        return i

    def leaf(self):
        r = self.r
        ts = [t for t in self.w if t in ("str", "any", "empty", "none", "space", "int", "uint", "re", "file", "user", "user0")]
        t = r.choices(ts, [self.w[x] for x in ts])[0]
        if t == "str":
            return self.new("str", s=r.choice(self.words))
        if t == "any":
            return self.new("any", attr=r.choice(["", "", "t1", "t2"]))
        if t in ("int", "uint"):
            lo, hi = sorted([r.randint(0, 30), r.randint(0, 30)])
            return self.new(t, min=r.choice([str(lo), "-"]), max=r.choice([str(hi), "-"]), base=r.choice([0, 10, 16, 8, 2]))
        if t == "re":
            return self.new("re", re=gen_re(r))
        if t in ("user", "user0"):
            i = self.new(t)
            self.user(i, 0)
            return i
        return self.new(t)

    def user(self, i, kind):
        r, n = self.r, self.g[i - 1]
        word = lambda: r.choice([w for w in self.words if not set(w) & set("=,;!*")])
        n.update(kind=kind, skip=r.randint(0, 2), cerr=int(r.random() < .04), em=r.choices([-1, 0, -2], [12, 5, 1])[0],
                 rules=[{"w": word() if r.random() < .8 else "*", "n": r.choices([1, 2, 3, 0, -1, -2], [8, 4, 2, 3, 2, .7])[0]} for _ in range(r.randint(0, 4))],
                 items=[{"w": r.choice("ba"), "t": r.choice("fffpur"), "s": word()} for _ in range(r.randint(0, 4))])
        for x in n["items"]:
            if x["t"] == "u":
                x["s"] = ""

    def node(self, d, guarded=False):
        """guarded: a token is consumed before this node since the loop targets"""
        r = self.r
        if guarded and self.guard and r.random() < self.loops:
            return r.choice(self.guard)
        if self.complete and r.random() < self.share:
            return r.choice(self.complete)
        ts = [t for t in self.w if t in ("seq", "or", "many", "option", "subset", "once", "bypass",
                                         "sh_lex", "re_lex", "cond", "dynamic", "cmd", "user", "user0")]
        if d <= 0 or not ts or r.random() < 0.3:
            i = self.leaf()
            self.complete.append(i)
            return i
        t = r.choices(ts, [self.w[x] for x in ts])[0]
        if t == "seq":
            i = self.new("seq")
            c = []
            loopable = self.loops > 0 and r.random() < 0.5
            if loopable:
                # a consuming first child allows loops in the next ones
                c.append(self.new("str", s=r.choice([w for w in self.words if w])))
                self.guard.append(i)
                for _ in range(r.randint(1, 3)):
                    k = r.random()
                    if k < 0.5:
                        c.append(self.new("option", c=[0]))
                        o = c[-1]
                        inner = self.node(d - 2, True)
                        if inner in self.guard:
                            # the target is not finished: go through a bypass
                            inner = self.new("bypass", c=[inner])
                        self.g[o - 1]["c"] = [inner]
                    else:
                        c.append(self.node(d - 1, True))
                self.guard.remove(i)
            else:
                for _ in range(r.randint(0 if r.random() < .1 else 1, 4)):
                    c.append(self.node(d - 1, False))
            self.g[i - 1]["c"] = c
        elif t in ("or", "subset"):
            i = self.new(t)
            self.g[i - 1]["c"] = [self.node(d - 1, guarded) for _ in range(r.randint(1, 4))]
        elif t == "bypass":
            i = self.new(t)
            self.g[i - 1]["c"] = [self.node(d - 1, guarded)]
        else:
            i = self.new(t)
            self.fill(i, t, d)
        self.complete.append(i)
        return i

    def fill(self, i, t, d):
        r, n = self.r, self.g[i - 1]
        if t == "dynamic":
            n.update(s=r.choice(["n1", "n2", "n3", "k"] if not self.ids else self.ids), kind=r.randint(0, 2))
            return
        if t == "cmd":
            kids = [self.node(d - 2) for _ in range(r.randint(0, 3))]
            words = [self.g[c - 1]["id"] for c in kids] + ["a", "b", "foo"]
            n.update(c=kids, s=cmd_string(r, words))
            return
        n["c"] = [self.node(d - 1, False)]
        if t in ("user", "user0"):
            self.user(i, r.randint(1, 3))
        if t == "many":
            mn = r.choice([0, 0, 1, 2])
            n.update(min=mn, max=r.choice([0, 0, mn + r.randint(0, 2)]))
        elif t == "cond":
            n["s"] = cond_str(gen_cond(r, self.ids or ["n%d" % k for k in range(1, len(self.g) + 1)] + ["zz"]), r)
        elif t == "re_lex":
            pats = [{"re": gen_re(r), "keep": int(r.random() < .8), "attr": r.choice(["", "t1", "t2"])}
                    for _ in range(r.randint(0, 3))]
            pats.append({"re": {"o": "+", "k": [{"o": "c", "s": " "}]}, "keep": 0, "attr": ""})
            if r.random() < .6:
                pats.append({"re": {"o": "+", "k": [{"o": "c", "s": "abfor"}]}, "keep": 1, "attr": r.choice(ATTRS)})
            n["pats"] = pats


def strings_in(g):
    out = []
    for n in g:
        if n["t"] == "str":
            out.append(n["s"])
        elif n["t"] in ("int", "uint"):
            out += ["7", "12", "0x1f"]
        elif n["t"] == "dynamic":
            out += [n["s"] + "0", n["s"] + "1", n["s"], "a"]
        elif n["t"] == "cmd":
            out += ["a", "b", "foo"]
        elif n["t"] in ("re", "re_lex"):
            out += ["a", "ab", "foo", "a b"]
        elif n["t"] in ("user", "user0"):
            out += [x["w"].replace("*", "a") for x in n["rules"]] + [x["s"] for x in n["items"]] + ["a"]
        elif n["t"] == "space":
            out += SPACES
    return out or ["a"]


def sh_quote(r, toks):
    """a shell-like line that holds these words, with random quoting"""
    out = []
    for t in toks:
        k = r.random()
        if t == "" or k < 0.2:
            q = r.choice("'\"")
            out.append(q + t + q)
        elif k < 0.3:
            out.append("\\" + t)
        elif k < 0.4 and len(t) > 1:
            out.append(t[0] + r.choice(["'%s'", '"%s"']) % t[1:])
        else:
            out.append(t)
    s = r.choice(["", " "]) + r.choice([" ", "  ", "\t"]).join(out) + r.choice(["", "", " "])
    if r.random() < 0.15:
        s += r.choice(["'", '"', "\\", "#c", " #c", '"a', "'f"])
    return s


MAXLEN = 6


class Sampler:
    """random walk in a grammar that produces mostly matching inputs"""

    def __init__(self, r, g):
        self.r, self.g, self.budget = r, g, 60

    def walk(self, n, d=0):
        r, nd = self.r, self.g[n - 1]
        self.budget -= 1
        if self.budget < 0 or d > 14:
            return []
        t = nd["t"]
        if t == "str":
            return [nd["s"]]
        if t == "any":
            return [r.choice(["a", "zz", "foo"])]
        if t in ("int", "uint"):
            return [str(r.randint(0, 31))]
        if t == "re":
            return [self.re(nd["re"])]
        if t == "space":
            return [r.choice([" "] + SPACES)]
        if t == "file":
            return ["f"]
        if t in ("empty", "none"):
            return []
        if t in ("user", "user0"):
            fill = lambda k: [r.choice(["a", "b", "foo"]) for _ in range(k)]
            if nd["kind"] in (0, 2):
                x = r.choice([q for q in nd["rules"] if q["n"] > 0] or [{"w": "a", "n": 0}])
                first = self.walk(nd["c"][0], d + 1)[:1] if nd["kind"] == 2 else []
                return ((first or [x["w"].replace("*", "zz")]) + fill(x["n"] - 1))[:max(x["n"], 0)]
            if nd["kind"] == 1:
                return fill(nd["skip"]) + self.walk(nd["c"][0], d + 1)
            return [x for _ in range(r.randint(1, 2)) for x in self.walk(nd["c"][0], d + 1)]
        if t == "dynamic":
            return [nd["s"] + str(r.randint(0, 2))] if nd["kind"] == 0 else (
                [nd["s"]] if nd["kind"] == 1 else ["a"] * r.randint(0, 2))
        if t == "expr":
            return self.expr(nd, d, r.randint(0, 7))
        if t == "seq":
            return [x for c in nd["c"] for x in self.walk(c, d + 1)]
        if t == "or":
            return self.walk(r.choice(nd["c"]), d + 1) if nd["c"] else []
        if t == "many":
            hi = nd["max"] or nd["min"] + 2
            return [x for _ in range(r.randint(nd["min"], max(nd["min"], hi))) for x in self.walk(nd["c"][0], d + 1)]
        if t == "option":
            return self.walk(nd["c"][0], d + 1) if r.random() < .6 else []
        if t == "subset":
            c = list(nd["c"])
            r.shuffle(c)
            return [x for k in c[:r.randint(0, len(c))] for x in self.walk(k, d + 1)]
        if t == "sh_lex":
            return [sh_quote(r, self.walk(nd["c"][0], d + 1))]
        if t == "re_lex":
            return [r.choice([" ", " ", ""]).join(self.walk(nd["c"][0], d + 1))]
        if t == "cmd":
            ids = {self.g[c - 1]["id"]: c for c in nd["c"]}
            out = []
            import re as _re
            for w in _re.findall(r"[a-zA-Z0-9_-]+", nd["s"]):
                if r.random() < .7:
                    out += self.walk(ids[w], d + 1) if w in ids else [w]
            return out
        return self.walk(nd["c"][0], d + 1)

    def expr(self, nd, d, sz):
        r = self.r
        if not nd["val"]:
            return []
        k = r.random()
        w = lambda c: self.walk(c, d + 1)
        if sz <= 0 or k < .08:
            return w(nd["val"])
        if k < .35 and nd["pre"]:
            return w(r.choice(nd["pre"])) + self.expr(nd, d, sz - 1)
        if k < .5 and nd["post"]:
            return self.expr(nd, d, sz - 1) + w(r.choice(nd["post"]))
        if k < .65 and nd["par"]:
            a, b = r.choice(nd["par"])
            return w(a) + self.expr(nd, d, sz - 1) + w(b)
        if nd["bin"]:
            a = r.randint(0, sz - 1)
            return self.expr(nd, d, a) + w(r.choice(nd["bin"])) + self.expr(nd, d, sz - 1 - a)
        return w(nd["val"])

    def re(self, x):
        r, o = self.r, x["o"]
        if o == "c":
            return r.choice(x["s"])
        if o == "n":
            return r.choice([c for c in "abfoxz" if c not in x["s"]])
        if o == ".":
            return r.choice("abx")
        if o in "^$":
            return ""
        if o == "cat":
            return "".join(self.re(k) for k in x["k"])
        if o == "alt":
            return self.re(r.choice(x["k"]))
        n = {"*": r.randint(0, 2), "+": r.randint(1, 2), "?": r.randint(0, 1)}[o]
        return "".join(self.re(x["k"][0]) for _ in range(n))


def gen_input(r, g, root):
    v = Sampler(r, g).walk(root)
    k = r.random()
    pool = strings_in(g)
    if k < 0.15 and v:
        v.pop(r.randrange(len(v)))
    elif k < 0.3:
        v.insert(r.randint(0, len(v)), r.choice(pool + ["zz", ""]))
    elif k < 0.4 and len(v) > 1:
        i = r.randrange(len(v) - 1)
        v[i], v[i + 1] = v[i + 1], v[i]
    elif k < 0.45:
        v = [r.choice(pool) for _ in range(r.randint(0, 4))]
    return v[:MAXLEN]


def comp_input(r, g, root):
    v = gen_input(r, g, root)
    k = r.random()
    if v and k < 0.5:
        v = v[:r.randint(1, len(v))]
        v[-1] = v[-1][:r.randint(0, len(v[-1]))]
    elif k < 0.9:
        v = v[:MAXLEN - 1] + [r.choice(["", "", "a", "f", "fo"])]
    return v


class Cost:
    """upper bound of the number of parse and completion steps"""
    CAP = 10 ** 7

    def __init__(self, g):
        self.g, self.m = g, {}
        self.ml = {}

    def minlen(self, n, seen=()):
        if n in seen:
            return 50
        if not seen and n in self.ml:
            return self.ml[n]
        nd = self.g[n - 1]
        t, c, s = nd["t"], nd["c"], seen + (n,)
        if t in ("str", "any", "int", "uint", "re", "space", "file", "sh_lex", "re_lex"):
            x = 1 if t not in ("sh_lex", "re_lex") else 0
        elif t == "seq":
            x = sum(self.minlen(k, s) for k in c)
        elif t == "or":
            x = min([self.minlen(k, s) for k in c] or [0])
        elif t in ("once", "bypass", "cond"):
            x = self.minlen(c[0], s)
        else:
            x = 0
        if not seen:
            self.ml[n] = x
        return x

    def memo(self, key, f):
        if key not in self.m:
            self.m[key] = self.CAP      # a loop without consumption
            self.m[key] = min(self.CAP, f())
        return self.m[key]

    def parse(self, n, L):
        if L < 0:
            return 1
        return self.memo(("p", n, L), lambda: self._parse(n, L))

    def _parse(self, n, L):
        nd = self.g[n - 1]
        t, c = nd["t"], nd["c"]
        if t == "seq":
            x, off = 1, 0
            for k in c:
                x += self.parse(k, L - off)
                off += self.minlen(k)
                if off > L:
                    break
            return x
        if t == "or":
            return 1 + sum(self.parse(k, L) for k in c)
        if t == "many":
            return 1 + (L + 1) * self.parse(c[0], L)
        if t == "subset":
            return self.subset(tuple(c), L)
        if t in ("sh_lex", "re_lex"):
            return 8 + self.parse(c[0], 8)
        if t == "cmd":
            return (1 + sum(self.parse(k, L) for k in c)) * 3 ** min(8, len(nd["s"]) // 2)
        if c:
            return 1 + self.parse(c[0], L)
        return 1

    def subset(self, c, L):
        if L < 0 or not c:
            return 1
        return self.memo(("s", c, L), lambda: 1 + sum(
            self.parse(k, L) + self.subset(c[:i] + c[i + 1:], L - self.minlen(k)) for i, k in enumerate(c)))

    def comp(self, n, L):
        if L < 0:
            return 1
        return self.memo(("c", n, L), lambda: self._comp(n, L))

    def _comp(self, n, L):
        nd = self.g[n - 1]
        t, c = nd["t"], nd["c"]
        if t == "seq":
            return 1 + self.cseq(n, 0, L)
        if t == "or":
            return 1 + sum(self.comp(k, L) for k in c)
        if t == "many":
            return 1 + self.cmany(n, L)
        if t == "subset":
            return self.csubset(tuple(c), L)
        if t in ("sh_lex", "re_lex"):
            return 8 + self.comp(c[0], 8)
        if t == "cmd":
            return (1 + sum(self.comp(k, L) for k in c)) * 3 ** min(8, len(nd["s"]) // 2)
        if c:
            return 1 + self.comp(c[0], L)
        return 1

    def cseq(self, n, i, L):
        c = self.g[n - 1]["c"]
        if i >= len(c):
            return 1

        def f():
            x = self.comp(c[i], L)
            for j in range(L):
                x += self.parse(c[i], j)
                if j >= self.minlen(c[i]):
                    x += self.cseq(n, i + 1, L - j)
            return x
        return self.memo(("cs", n, i, L), f)

    def cmany(self, n, L):
        c = self.g[n - 1]["c"][0]

        def f():
            x = self.comp(c, L)
            for j in range(1, L):
                x += self.parse(c, j)
                if j >= self.minlen(c):
                    x += self.cmany(n, L - j)
            return x
        return self.memo(("cm", n, L), f)

    def csubset(self, c, L):
        if L < 0 or not c:
            return 1
        return self.memo(("cb", c, L), lambda: 1 + sum(self.comp(k, L) for k in c) + sum(
            self.parse(k, L) + self.csubset(c[:i] + c[i + 1:], L - self.minlen(k)) for i, k in enumerate(c)))


def cheap(g, qs, limit):
    k = Cost(expand(g))
    try:
        return sum(k.parse(q["n"], len(q["v"])) if q["op"] in ("P", "EV") else k.comp(q["n"], len(q["v"]))
                   for q in qs) <= limit
    except RecursionError:
        return False
