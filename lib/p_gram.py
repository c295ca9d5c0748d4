"""Checks on what a grammar accepts, returns and proposes (Grammar.tla)."""
import itertools, json, random
from ecv import printed, CheckError
from gram import *
import gram, large

TOPS = ("seq", "or", "subset", "one")
STRUCT = {"str": 8, "any": 1, "empty": 1, "none": 1, "space": 1, "seq": 4, "or": 4, "many": 3, "option": 3,
          "subset": 3, "bypass": 1}


def flatten(t, g):
    i = len(g) + 1
    n = N(t["t"], "n%d" % i)
    g.append(n)
    if t["t"] == "str":
        n["s"] = t["s"]
    if t["t"] == "many":
        n.update(min=t["min"], max=t["max"])
    n["c"] = [flatten(c, g) for c in t["c"]]
    return i


def universe(ck, frac, r):
    """the small grammars enumerated by the model"""
    out = []
    for top in TOPS:
        o = ck.model("GenGrammar", "GenGrammar_" + top)
        terms = [json.loads(x) for x in printed(o, "TERM")]
        if not terms:
            raise CheckError("no grammar generated")
        if frac < 1:
            terms.sort(key=lambda t: json.dumps(t))
            terms = r.sample(terms, max(1, int(len(terms) * (frac if len(terms) > 500 else min(1, 3 * frac)))))
        out += terms
    return out


def words(n, alpha=("a", "ab")):
    return [list(w) for k in range(n + 1) for w in itertools.product(alpha, repeat=k)]


def small(ck, ops, frac, r):
    cases = []
    pin = words(3) + [["zz"], ["a", "zz"], [""], ["a", "a", "ab", "ab"]]
    cin = [w + [x] for w in words(2) for x in ("", "a", "ab")] + [[], ["b"], ["abc"], ["a", "b"]]
    for t in universe(ck, frac, r):
        g = []
        flatten(t, g)
        qs = []
        if "P" in ops:
            qs += [{"op": "P", "n": 1, "v": v} for v in pin]
        if "L" in ops:
            qs += [{"op": "L", "n": 1, "v": v} for v in cin]
        cases.append(gcase(g, qs))
    return cases


def rnd(ck, r, count, weights, ops, nq=12, depth=4, loops=.4, must=None, limit=20000, **kw):
    """random grammars with random, mostly matching, inputs"""
    cases, tries = [], 0
    while len(cases) < count:
        tries += 1
        if tries > 60 * count + 1000:
            raise CheckError("the generator does not find enough cases")
        G = Gen(r, weights, loops=loops, **kw)
        root = G.node(depth)
        if must and not any(n["t"] in must for n in G.g):
            continue
        qs = []
        for _ in range(nq):
            op = r.choice(ops)
            v = gen_input(r, G.g, root) if op == "P" else comp_input(r, G.g, root)
            qs.append({"op": op, "n": root, "v": v})
        if not cheap(G.g, qs, limit):
            continue
        try:
            cases.append(gcase(G.g, qs))
        except ValueError:
            pass
    return cases


def uniq_q(cases):
    """remove the duplicated queries of a case"""
    for c in cases:
        seen, q = set(), []
        for x in c.rec["q"]:
            k = json.dumps(x)
            if k not in seen:
                seen.add(k)
                q.append(x)
        c.rec["q"] = q
        c.lines = lines_of(c.rec["g"]) + [q_line(x) for x in q]
    return cases


def j(ck, name, cases, view):
    ck.conform(name, uniq_q(cases), "JGrammar", env={"VIEW": view})


def seeded(ck, k):
    return random.Random(ck.seed * 1000 + k)


ALL = {"str": 10, "any": 2, "int": 1, "uint": 1, "empty": 1, "space": .3, "re": 1, "seq": 6, "or": 6, "many": 4, "option": 3,
       "subset": 3, "once": 2, "bypass": 2, "cond": 2, "re_lex": 1, "sh_lex": 1, "dynamic": 1, "cmd": 2, "user": .7, "user0": .3}


def c02(ck):
    r = seeded(ck, 2)
    j(ck, "small grammars", small(ck, "P", ck.n(.45, 1), r), "verdict")
    for i in range(ck.n(1, 8)):
        j(ck, "random grammars", rnd(ck, r, 2500, STRUCT, "P"), "verdict")
    j(ck, "deep random grammars", rnd(ck, r, ck.n(400, 4000), STRUCT, "P", depth=6), "verdict")
    j(ck, "all the types of nodes", rnd(ck, r, ck.n(700, 7000), ALL, "P"), "verdict")
    j(ck, "large grammars and inputs", large.cases(r, ck.n(90, 900), "P"), "verdict")


def c03(ck):
    r = seeded(ck, 3)
    j(ck, "small grammars", small(ck, "P", ck.n(.45, 1), r), "tree")
    w = dict(STRUCT, subset=6, many=5, once=1)
    for i in range(ck.n(1, 8)):
        j(ck, "random grammars", rnd(ck, r, 2500, w, "P"), "tree")
    j(ck, "deep random grammars", rnd(ck, r, ck.n(400, 4000), w, "P", depth=6), "tree")
    j(ck, "all the types of nodes", rnd(ck, r, ck.n(900, 9000), ALL, "P"), "tree")
    j(ck, "large grammars and inputs", large.cases(r, ck.n(60, 600), "P"), "tree")


def c04(ck):
    r = seeded(ck, 4)
    j(ck, "small grammars", small(ck, "L", ck.n(.35, 1), r), "items")
    for i in range(ck.n(1, 8)):
        j(ck, "random grammars", rnd(ck, r, 2500, dict(STRUCT, none=.3), "L"), "items")
    j(ck, "deep random grammars", rnd(ck, r, ck.n(300, 3000), STRUCT, "L", depth=6), "items")
    j(ck, "all the types of nodes", rnd(ck, r, ck.n(700, 7000), ALL, "L"), "items")
    j(ck, "large grammars and inputs", large.cases(r, ck.n(60, 600), "L"), "items")


# ------------------------------------------------------------------ numbers
def in_base(v, b):
    d = "0123456789abcdefghijklmnopqrstuvwxyz"
    s, m = "", abs(v)
    while m:
        s = d[m % b] + s
        m //= b
    return ("-" if v < 0 else "") + (s or "0")


NOTABLE = [0, 1, 2, 7, 8, 9, 10, 15, 16, 35, 36, 99, 100, 127, 128, 255, 256, 1000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1,
           2 ** 32, 10 ** 18, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 10 ** 30]


def num_strings(r, lo, hi, base):
    """strings around the bounds, in all the ways they can be written"""
    vals = set()
    for v in (lo, hi):
        if v is not None:
            vals |= {v - 1, v, v + 1}
    vals |= set(r.sample(NOTABLE, 4)) | {-x for x in r.sample(NOTABLE, 3)}
    out = []
    for v in sorted(vals):
        b = base or r.choice([8, 10, 10, 16])
        s = in_base(v, b)
        sign = "-" if s[0] == "-" else ""
        s = s.lstrip("-")
        if b == 16 and (base == 0 or r.random() < .4):
            s = r.choice(["0x", "0X"]) + s
        elif b == 8 and base == 0:
            s = "0" + s
        if r.random() < .2:
            s = s.upper() if "x" not in s and "X" not in s else s
        if r.random() < .12 and base != 0:
            s = "0" * r.randint(1, 3) + s
        if not sign and r.random() < .1:
            sign = "+"
        if r.random() < .08:
            sign = r.choice([" ", "\t", "  "]) + sign
        out.append(sign + s)
        if r.random() < .15:
            out.append(sign + s + r.choice([" ", "x", "g", ".", "-", "z", "9a", "8", "0"]))
    out += r.sample(["", "-", "+", " ", "0x", "0", "-0", "+0", "00", "08", "09", "0x1G", "--1", "+-1", "- 1", "1-", "a",
                     "f", "z", "Z", "0xf", "0XF", "x1", "1e3", "077", "-077", "0x-1", "1 1"], 7)
    return out


def num_cases(r, count):
    cases = []
    for _ in range(count):
        t = r.choice(["int", "uint"])
        base = r.choice([0, 0, 10, 10, 16, 16, 8, 2, 36, r.randint(2, 36)])
        rng = (lambda: r.choice([1, -1]) * r.choice(NOTABLE) + r.randint(-1, 1)) if t == "int" else \
              (lambda: r.choice(NOTABLE) + r.randint(0, 1))
        lim = (-2 ** 63, 2 ** 63 - 1) if t == "int" else (0, 2 ** 64 - 1)
        clip = lambda v: max(lim[0], min(lim[1], v))
        lo = clip(rng()) if r.random() < .7 else None
        hi = clip(rng()) if r.random() < .7 else None
        if r.random() < .9 and lo is not None and hi is not None and lo > hi:
            lo, hi = hi, lo
        g = [N(t, "n1", min="-" if lo is None else str(lo), max="-" if hi is None else str(hi), base=base)]
        qs = [{"op": "OK", "n": 1, "v": []}]
        for s in num_strings(r, lo, hi, base):
            qs.append({"op": r.choice("PV"), "n": 1, "v": [s]})
        qs += [{"op": "P", "n": 1, "v": []}, {"op": "L", "n": 1, "v": ["1"]}, {"op": "P", "n": 1, "v": ["1", "2"]}]
        cases.append(gcase(g, qs))
    return cases


def c07(ck):
    r = seeded(ck, 7)
    j(ck, "integer nodes", num_cases(r, ck.n(6000, 60000)), "all")
    # every short string over a small alphabet
    strs = ["".join(w) for k in range(0, ck.n(4, 5)) for w in itertools.product("017x-+ aF", repeat=k)]
    cases = []
    for t in ("int", "uint"):
        for base in (0, 8, 10, 16):
            for mn, mx in (("-", "-"), ("1", "-"), ("-", "1"), ("0", "7")):
                g = [N(t, "n1", min=mn, max=mx, base=base)]
                for k in range(0, len(strs), 100):
                    cases.append(gcase(g, [{"op": "V", "n": 1, "v": [s]} for s in strs[k:k + 100]]))
    j(ck, "all the short strings", cases, "all")


# -------------------------------------------------------- regular expressions
BADRE = ["(", "(a", "[", "[a", "a{2,1}", "a{1", "[[:foo:]]", "\\", "a\\", "[b-a]", "(a|", "[[.zz.]]"]


def re_cases(r, count):
    cases = []
    for _ in range(count):
        g = [N("re", "n1", re=gen_re(r, r.randint(1, 3)))]
        S = Sampler(r, g)
        qs = [{"op": "OK", "n": 1, "v": []}]
        for _ in range(10):
            s = S.re(g[0]["re"])
            k = r.random()
            if k < .5:
                s = list(s)
                m = r.random()
                if m < .3:
                    s.insert(r.randint(0, len(s)), r.choice("abfo12"))
                elif m < .6 and s:
                    s.pop(r.randrange(len(s)))
                elif s and m < .9:
                    s[r.randrange(len(s))] = r.choice("abfo1 x")
                else:
                    s.insert(r.randint(0, len(s)), "\n")
                s = "".join(s)
                if m > .95:
                    s = s.upper()
            qs.append({"op": "P", "n": 1, "v": [s] if r.random() < .9 else [s, s]})
        qs += [{"op": "P", "n": 1, "v": []}, {"op": "L", "n": 1, "v": [r.choice(["", "a"])]}]
        cases.append(gcase(g, qs))
    for b in BADRE:
        g = [N("re", "n1", re={"o": "."}, invalid=1, raw=b)]
        cases.append(gcase(g, [{"op": "OK", "n": 1, "v": []}]))
        g = [N("any", "n1", attr=""), N("re_lex", "n2", c=[1], invalid=1, raw=b,
                                       pats=[{"re": {"o": "."}, "keep": 1, "attr": ""}])]
        cases.append(gcase(g, [{"op": "OK", "n": 2, "v": []}]))
    return cases


def relex_cases(r, count):
    """a lexer above nodes that select tokens by attribute"""
    cases = []
    while len(cases) < count:
        pats = [{"re": gen_re(r, r.randint(0, 2)), "keep": int(r.random() < .75), "attr": r.choice(["", "t1", "t2"])}
                for _ in range(r.randint(0, 3))]
        if r.random() < .7:
            pats.append({"re": {"o": r.choice(["c"]), "s": " "}, "keep": int(r.random() < .2), "attr": ""})
        if r.random() < .5:
            pats.append({"re": {"o": "+", "k": [{"o": "c", "s": "abfor"}]}, "keep": 1, "attr": r.choice(["t1", "t2", ""])})
        r.shuffle(pats)
        g = []
        for k in range(r.randint(1, 3)):
            g.append(N("any", "n%d" % (k + 1), attr=r.choice(["", "t1", "t2"])))
        g.append(N("str", "n%d" % (len(g) + 1), s=r.choice(["a", "ab", "foo"])))
        m = len(g)
        g.append(N("or", "n%d" % (m + 1), c=list(range(1, m + 1))))
        g.append(N("many", "n%d" % (m + 2), c=[m + 1], min=0, max=r.choice([0, 0, 2])))
        g.append(N("re_lex", "n%d" % (m + 3), c=[m + 2], pats=pats))
        root = m + 3
        if r.random() < .3:
            g.append(N("str", "n%d" % (m + 4), s="a"))
            g.append(N("seq", "n%d" % (m + 5), c=[m + 4, m + 3] if r.random() < .5 else [m + 3, m + 4]))
            root = m + 5
        S = Sampler(r, g)
        qs = []
        for _ in range(10):
            s = "".join(r.choice([S.re(p["re"]) for p in pats] or ["a"]) if r.random() < .75 else
                        r.choice(["a", "b", " ", "ab", "foo", "1", "x", "\n", "A"]) for _ in range(r.randint(0, 4)))
            v = [s]
            if root != m + 3:
                v = ["a", s] if g[-1]["c"][0] == m + 4 else [s, "a"]
            if r.random() < .1:
                v = v + ["a"]
            qs.append({"op": r.choice("PPPL"), "n": root, "v": v})
        if not cheap(g, qs, 20000):
            continue
        cases.append(gcase(g, qs))
    return cases


def c08(ck):
    r = seeded(ck, 8)
    j(ck, "regular expressions", re_cases(r, ck.n(4000, 40000)), "all")
    j(ck, "lexers", relex_cases(r, ck.n(3000, 30000)), "all")
    j(ck, "long texts", large.relex_long(r, ck.n(40, 400)), "all")
    w = dict(STRUCT, re=3, re_lex=4)
    j(ck, "in random grammars", rnd(ck, r, ck.n(600, 8000), w, "PPL", must=("re_lex",)), "all")


# ----------------------------------------------------------------- conditions
def set_cases(r, count):
    """sets of nodes that have the same size, and some nodes in common"""
    cases = []
    for _ in range(count):
        g = [N("str", "a", s="a"), N("str", "b", s="b"), N("str", "c", s="c"), N("seq", "p", c=[1]), N("seq", "p", c=[2]),
             N("seq", "r", c=[3, 1]), N("or", "k", c=[4, 5, 6]), N("many", "x", c=[7], min=0, max=0)]
        sets = ["first_child(find(root(),p))", "find(root(),a)", "find(root(),b)", "first_child(find(root(),k))", "find(root(),p)",
                "find(find(root(),k),a)", "first_child(first_child(find(root(),k)))", "first_child(find(root(),r))", "find(first_child(root()),a)"]
        s = "cmp(%s,%s,%s)" % (r.choice(["eq", "ne"]), r.choice(sets), r.choice(sets))
        if r.random() < .3:
            s = "cmp(%s,count(%s),%s)" % (r.choice(["eq", "ne", "lt", "gt", "le", "ge"]), r.choice(sets), r.choice(["2", "3", "count(%s)" % r.choice(sets)]))
        g.append(N("cond", "q", c=[8], s=s))
        qs = []
        for _ in range(5):
            v = []
            for _ in range(r.choice([2, 3, 4, 6, 12])):
                v += r.choice([["a"], ["b"], ["c", "a"]])
            qs.append({"op": "P", "n": 9, "v": v})
        cases.append(gcase(g, qs))
    return cases


def c09(ck):
    r = seeded(ck, 9)
    w = {"str": 6, "any": 1, "empty": .5, "seq": 5, "or": 3, "many": 3, "option": 3, "cond": 5, "subset": 1}
    for i in range(ck.n(1, 6)):
        j(ck, "conditions in random grammars",
          rnd(ck, r, 2500, w, "P", must=("cond",), ids=["a", "b", "k", "x"]), "all")
    j(ck, "conditions, distinct ids", rnd(ck, r, ck.n(1000, 8000), w, "P", must=("cond",)), "all")
    # focused: a fixed tree, conditions of every form
    cases = []
    for _ in range(ck.n(2500, 25000)):
        g = [N("str", "a", s="a"), N("str", "b", s="b"), N("or", "k", c=[1, 2]),
             N("many", "x", c=[3], min=0, max=0)]
        g.append(N("cond", "q", c=[r.choice([1, 3, 4, 4])],
                   s=cond_str(gen_cond(r, ["a", "b", "k", "x", "q", "t", "zz"], r.randint(1, 4)), r)))
        g.append(N("seq", "t", c=r.choice([[3, 5], [4, 5], [1, 5, 2], [5], [3, 5, 4]])))
        qs = [{"op": "OK", "n": 5, "v": []}]
        for _ in range(5):
            qs.append({"op": "P", "n": 6, "v": gen_input(r, g, 6)})
        cases.append(gcase(g, qs))
    j(ck, "conditions of every form", cases, "all")
    j(ck, "sets of nodes", set_cases(r, ck.n(800, 8000)), "all")
    j(ck, "many nodes, long conditions", large.cond_long(r, ck.n(120, 1200)), "all")
    # syntax: valid and invalid texts
    cases = []
    toks = ["root", "f", "bool", "(", ")", ",", "3", " ", "a.b", "_x", "root()", "count(root())", "1a", "-", "."]
    texts = ["".join(t) for k in range(0, 4) for t in itertools.product(toks, repeat=k)]
    if ck.quick:
        texts = r.sample(texts, 1500)
    texts += ["".join(r.choice(toks) for _ in range(r.randint(4, 9))) for _ in range(ck.n(500, 20000))]
    for s in texts:
        g = [N("any", "a", attr=""), N("cond", "q", c=[1], s=s)]
        cases.append(gcase(g, [{"op": "OK", "n": 2, "v": []}, {"op": "P", "n": 2, "v": ["x"]}]))
    j(ck, "texts of conditions", cases, "all")


# ------------------------------------------------------------- once, dynamic
def c10(ck):
    r = seeded(ck, 10)
    w = {"str": 6, "any": 1, "empty": .5, "seq": 5, "or": 3, "many": 4, "option": 2, "once": 5, "dynamic": 3, "subset": 2}
    for i in range(ck.n(1, 6)):
        j(ck, "random grammars", rnd(ck, r, 2500, w, "PPL", must=("once", "dynamic"), share=.3), "all")
    j(ck, "random grammars, repeated ids",
      rnd(ck, r, ck.n(1500, 10000), w, "PPL", must=("once", "dynamic"), ids=["a", "b", "k"], share=.3), "all")
    # a many of alternatives, each usable once
    cases = []
    for _ in range(ck.n(1500, 15000)):
        k = r.randint(1, 4)
        g = [N("str", "w%d" % i, s="abcd"[i]) for i in range(k)]
        opts = []
        for i in range(k):
            if r.random() < .7:
                g.append(N("once", "o%d" % i, c=[i + 1]))
                opts.append(len(g))
            else:
                opts.append(i + 1)
        if r.random() < .4:
            g.append(N("dynamic", "dd", s=r.choice(["w0", "o0", "w1", "m"]), kind=r.randint(0, 2)))
            opts.append(len(g))
        r.shuffle(opts)
        g.append(N(r.choice(["or", "or", "subset"]), "alt", c=opts))
        g.append(N("many", "m", c=[len(g)], min=r.choice([0, 0, 1]), max=r.choice([0, 0, 3])))
        root = len(g)
        qs = []
        for _ in range(8):
            v = [r.choice(["a", "b", "c", "d", "w00", "w01", "w0"][:k] + ["a", "w00", "w01"]) for _ in range(r.randint(0, 5))]
            op = r.choice("PPL")
            if op == "L":
                v = v[:4] + [r.choice(["", "", "a", "w"])]
            qs.append({"op": op, "n": root, "v": v})
        if cheap(g, qs, 20000):
            cases.append(gcase(g, qs))
    j(ck, "alternatives usable once", cases, "all")
    j(ck, "many alternatives", large.once_long(r, ck.n(30, 300)), "all")


# ------------------------------------------------------------ command strings
def c11(ck):
    r = seeded(ck, 11)
    syms = ["a", "b", "x", "+", "*", "|", ",", "(", ")", "[", "]"]
    cases = []

    def case(text):
        g = [N("str", "x", s="foo"), N("any", "y", attr=""), N("cmd", "c", c=[1, 2], s=text)]
        ws = [w for w in ("a", "b", "foo") if w == "foo" or w in text] or ["a"]
        ins = [list(v) for k in range(0, 4) for v in itertools.product(ws, repeat=k)]
        ins = r.sample(ins, min(len(ins), 7))
        qs = [{"op": "OK", "n": 3, "v": []}] + [{"op": "P", "n": 3, "v": v} for v in ins]
        qs.append({"op": "L", "n": 3, "v": r.choice(ins)[:2] + [r.choice(["", "", "f"])]})
        return gcase(g, qs)
    # every sequence of symbols
    for k in range(0, 5):
        all_ = list(itertools.product(syms, repeat=k))
        if k == 4 and ck.quick:
            all_ = r.sample(all_, 3000)
        cases += [case(" ".join(t) if k else "") for t in all_]
    j(ck, "all the short command strings", cases, "all")
    cases = []
    for _ in range(ck.n(1500, 20000)):
        t = cmd_string(r, ["a", "b", "x", "y", "foo", "a-b", "_z1"], r.randint(1, 4))
        k = r.random()
        if k < .15:
            i = r.randint(0, len(t))
            t = t[:i] + r.choice("+*|,()[] .!\t") + t[i:]
        elif k < .2 and t:
            i = r.randrange(len(t))
            t = t[:i] + t[i + 1:]
        c = case(t)
        if len(t) < 24 and cheap(c.rec["g"], c.rec["q"], 10 ** 6):
            cases.append(c)
    j(ck, "random command strings", cases, "all")
    j(ck, "long command strings", large.cmd_long(r, ck.n(60, 600)), "all")
    w = dict(STRUCT, cmd=6)
    j(ck, "in random grammars", rnd(ck, r, ck.n(1000, 10000), w, "PPL", must=("cmd",), limit=60000), "all")


# ---------------------------------------------------------------- expressions
def expr_grammar(r):
    """an expr node, sometimes below a lexer or in a sequence, sometimes with
    values that contain expressions"""
    g = []

    def st(s):
        g.append(N("str", "n%d" % (len(g) + 1), s=s))
        return len(g)

    def op(pool):
        k = r.random()
        if k < .8:
            return st(pool.pop(r.randrange(len(pool))))
        if k < .9:
            a, b = st(pool.pop(r.randrange(len(pool)))), st(pool.pop(r.randrange(len(pool))))
            g.append(N("or", "n%d" % (len(g) + 1), c=[a, b]))
        else:
            a, b = st(pool.pop(r.randrange(len(pool)))), st(r.choice(["z", "y"]))
            g.append(N("seq", "n%d" % (len(g) + 1), c=[a, b]))
        return len(g)

    # the same words can be used by operators of different kinds
    bins, pres, posts = list("+*-/%|&<"), list("-!~+_@?:"), list("^!$*+;#.")
    if r.random() < .7:
        pres, posts = list("~_@?:!"), list("^$;#.>=")
    g.append(N("int", "n1", min="0", max="99", base=10))
    val = 1
    k = r.random()
    if k < .3:
        a = st("x")
        g.append(N("or", "n%d" % (len(g) + 1), c=[1, a]))
        val = len(g)
    elif k < .4:
        a = st("v")
        g.append(N("seq", "n%d" % (len(g) + 1), c=[a, 1]))
        val = len(g)
    e = N("expr", "", val=val, bin=[], pre=[], post=[], par=[])
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        e["bin"].append(op(bins))
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        e["pre"].append(op(pres))
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        e["post"].append(op(posts))
    for _ in range(r.choice([0, 1, 1, 2])):
        a, b = ("(", ")") if not e["par"] else ("[", "]")
        e["par"].append([st(a), st(b)])
    k = r.random()
    e["ord"] = ["val", "bin", "pre", "post", "par"]
    r.shuffle(e["ord"])
    if r.random() < .1:
        e["old"] = [st("old")]
        e["ord"].insert(0, "old")
    if k < .03 and "old" not in e:
        e["val"] = 0
    fun = 0
    if e["val"] and r.random() < .25:
        # a function call: f ( expr )
        ids = [st("f"), st("("), 0, st(")")]
        g.append(N("seq", "n%d" % (len(g) + 1), c=ids))
        fun = len(g)
        g.append(N("or", "n%d" % (len(g) + 1), c=[fun, val] if r.random() < .5 else [val, fun]))
        e["val"] = len(g)
    g.append(e)
    e["id"] = "n%d" % len(g)
    x = len(g)
    if fun:
        g[fun - 1]["c"][2] = x
    e["c"] = sorted(set(([e["val"]] if e["val"] else []) + e["bin"] + e["pre"] + e["post"] + sum(e["par"], [])))
    root = x
    k = r.random()
    if k < .15:
        a = st("let")
        g.append(N("seq", "n%d" % (len(g) + 1), c=[a, x] if r.random() < .5 else [x, a]))
        root = len(g)
    elif k < .25:
        g.append(N("option", "n%d" % (len(g) + 1), c=[x]))
        root = len(g)
    elif k < .45:
        pats = [{"re": {"o": "+", "k": [{"o": "c", "s": "0123456789"}]}, "keep": 1, "attr": ""},
                {"re": {"o": "+", "k": [{"o": "c", "s": " "}]}, "keep": 0, "attr": ""},
                {"re": {"o": "+", "k": [{"o": "c", "s": "abcdefghijklmnopqrstuvwxyz"}]}, "keep": 1, "attr": ""},
                {"re": {"o": "."}, "keep": 1, "attr": ""}]
        g.append(N("re_lex", "n%d" % (len(g) + 1), c=[x], pats=pats))
        root = len(g)
    return g, root, x


def expr_input(r, g, root):
    v = Sampler(r, g).walk(root)[:13]
    pool = [n["s"] for n in g if n["t"] == "str"] + ["1", "22", "5"]
    k = r.random()
    if g[root - 1]["t"] == "re_lex":
        return v
    if k < .12 and v:
        v.pop(r.randrange(len(v)))
    elif k < .24:
        v.insert(r.randint(0, len(v)), r.choice(pool))
    elif k < .3 and len(v) > 1:
        i = r.randrange(len(v) - 1)
        v[i], v[i + 1] = v[i + 1], v[i]
    return v


def expr_cases(r, count, ops="PEEEL", limit=40000):
    cases = []
    tries = 0
    while len(cases) < count:
        tries += 1
        if tries > 60 * count + 1000:
            raise CheckError("the generator does not find enough cases")
        g, root, x = expr_grammar(r)
        qs = []
        for _ in range(10):
            op = r.choice(ops)
            v = expr_input(r, g, root)
            if op == "E":
                top = g[root - 1]["t"] != "seq" and r.random() < .3
                mode = r.randint(0, 7) + (8 if (root == x or g[root - 1]["t"] == "re_lex") and top else 0)
                qs.append({"op": "EV", "n": root, "x": x, "mode": mode, "v": v,
                           "f": r.choice([0, 0, 1, 2, 3, 4, 5, 7, 9]), "miss": r.randint(1, 7) if r.random() < .03 else 0})
            elif op == "L":
                v = v[:r.randint(0, 3)]
                v = v[:-1] + [v[-1][:r.randint(0, len(v[-1]))]] if v and r.random() < .5 else v + [""]
                if g[root - 1]["t"] == "re_lex":
                    v = v[:1]
                qs.append({"op": "L", "n": root, "v": v})
            else:
                qs.append({"op": "P", "n": root, "v": v})
        # parsing does not backtrack much: only completion is costly
        qs = [q for q in qs if q["op"] != "L" or cheap(g, [q], limit)]
        if qs:
            cases.append(gcase(g, qs))
    return cases


def expr_small(r, frac):
    """every short sequence of tokens, on fixed sets of operators"""
    cases = []
    toks = ["1", "2", "+", "*", "!", "(", ")"]
    for nb, npre, npost, npar in itertools.product((0, 1, 2), (0, 1), (0, 1), (0, 1)):
        if nb + npre + npost == 0:
            continue
        g = [N("int", "n1", min="0", max="9", base=10)]
        for s in ("+", "*", "!", "!", "(", ")"):
            g.append(N("str", "n%d" % (len(g) + 1), s=s))
        e = N("expr", "n8", val=1, bin=[2, 3][:nb], pre=[4][:npre], post=[5][:npost], par=[[6, 7]][:npar])
        e["c"] = [1] + e["bin"] + e["pre"] + e["post"] + sum(e["par"], [])
        g.append(e)
        qs = []
        for k in range(0, 7):
            al = [t for t in toks if (t not in "()" or npar) and (t != "+" or nb) and (t != "*" or nb > 1)
                  and (t != "!" or npre + npost)]
            ws = list(itertools.product(al, repeat=k))
            if k >= 4:
                ws = r.sample(ws, int(min(len(ws), 300 * frac)))
            for w in ws:
                q = {"op": "EV", "n": 8, "x": 8, "mode": r.randint(0, 7), "v": list(w), "f": r.choice([0, 0, 1, 2, 3, 4]),
                     "miss": 0}
                qs.append(q)
        for k in range(0, len(qs), 20):
            cases.append(gcase(g, qs[k:k + 20]))
    return cases


def c12(ck):
    r = seeded(ck, 12)
    j(ck, "short token sequences", expr_small(r, ck.n(1, 12)), "all")
    for i in range(ck.n(1, 8)):
        j(ck, "random expressions", expr_cases(r, 2500), "all")
    j(ck, "long expressions", large.expr_long(r, ck.n(60, 600)), "all")
    j(ck, "completion of expressions", expr_cases(r, ck.n(600, 6000), "L"), "all")


def c26(ck):
    r = seeded(ck, 26)
    U = dict(STRUCT, user=6, user0=2)
    must = ("user", "user0")
    j(ck, "nodes of the application", rnd(ck, r, ck.n(4000, 40000), U, "PPLL", must=must), "all")
    j(ck, "nodes of the application, loops", rnd(ck, r, ck.n(800, 8000), U, "PL", must=must, loops=.5), "all")
    j(ck, "with all the types of nodes", rnd(ck, r, ck.n(2500, 25000), dict(ALL, user=6, user0=2), "PPLL", must=must), "all")
