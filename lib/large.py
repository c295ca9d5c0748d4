"""Large grammars and inputs: long repetitions, many children, deep nesting, long words."""
from gram import N, gcase


def word(r, n):
    return "".join(r.choice("abc") for _ in range(n))


def size(r, hi=300):
    """mostly around powers of two"""
    k = r.choice([8, 10, 16, 20, 32, 40, 64, 100, 128, 200, 256, 300])
    return max(2, min(hi, k + r.choice([-1, 0, 0, 1, 1, 2])))


def repeat(r, hi=300):
    n = size(r, hi)
    mn, mx = r.choice([(0, 0), (n, 0), (n - 1, n), (0, n), (n, n), (0, n - 1), (n + 1, 0), (0, 65536), (0, 65537), (65536, 0), (65537, 0)])
    item = r.randrange(3)
    g = [N("many", "n1", c=[2], min=mn, max=mx)]
    if item == 0:
        g += [N("str", "n2", s="a")]
        unit = ["a"]
    elif item == 1:
        g += [N("seq", "n2", c=[3, 4]), N("str", "n3", s="a"), N("option", "n4", c=[5]), N("str", "n5", s="b")]
        unit = ["a"] + ["b"] * r.randint(0, 1)
    else:
        g += [N("or", "n2", c=[3, 4]), N("str", "n3", s="b"), N("any", "n4", attr="")]
        unit = ["a"]
    ins = [unit * k for k in (n - 1, n, n + 1)]
    ins.append(unit * n + ["zz"] if item != 2 else unit * (n // 2))
    if r.random() < .5:       # something after it
        g += [N("seq", "top", c=[1, len(g) + 2]), N("option", "o", c=[len(g) + 3]), N("str", "e", s="end")]
        ins += [v + ["end"] for v in ins[:2]]
        top = len(g) - 2
    else:
        top = 1
    return g, top, ins, [v + [x] for v in r.sample(ins, 1) for x in ("", "a")]


def wide(r, hi=300):
    t = r.choice(["seq", "or", "or", "seq"])
    n = size(r, 300 if t == "or" else hi)
    ws = ["w%d" % i for i in range(n)]
    g = [N(t, "n1", c=list(range(2, n + 2)))] + [N("str", "s%d" % i, s=w) for i, w in enumerate(ws)]
    if t == "seq":
        ins = [ws, ws[:-1], ws + ["more"], ws[:n // 2] + ["x"] + ws[n // 2 + 1:]]
        comp = [ws[:r.choice([1, n // 2, n - 1])] + [x] for x in ("", "w")]
    else:
        ins = [[w] for w in (ws[0], ws[-1], ws[n // 2], ws[min(n - 1, 256)], "w")]
        comp = [[""], ["w1"], [ws[-1]], [ws[-1][:-1]]]
    return g, 1, ins, comp


def subset(r, hi=0):
    n = r.randint(5, 12)
    ws = ["k%d" % i for i in range(n)]
    g = [N("subset", "n1", c=list(range(2, n + 2)))] + [N("str", "s%d" % i, s=w) for i, w in enumerate(ws)]
    ins = []
    for _ in range(3):
        v = ws[:]
        r.shuffle(v)
        ins.append(v)
    ins += [ins[0][:-1] + ins[0][:1], ins[1][:n - 2], ins[2] + ["k0"], ins[0][:n - 1] + ["zz"]]
    return g, 1, ins, [v[:k] + [""] for v in ins[:2] for k in (n - 3, n - 1, n)] + [[""], ["k1"]]


def subset_amb(r, hi=0):
    """children that compete for the same words: the order they are tried in decides the number that match"""
    n = r.randint(5, 6)
    g = [N("subset", "n1", c=list(range(2, n + 2)))]
    for i in range(n):
        k = r.random()
        nid = "s%d" % i
        if k < .35:
            g.append(N("str", nid, s=r.choice("abc")))
        elif k < .5:
            g.append(N("any", nid, attr=""))
        else:
            g.append(None)
            kids = []
            for w in (r.choice("abc") for _ in range(r.randint(2, 3))):
                kids.append(w)
            g[-1] = (nid, kids)
    for i in range(1, n + 1):
        if isinstance(g[i], tuple):
            nid, kids = g[i]
            at = len(g) + 1
            g[i] = N("seq", nid, c=list(range(at, at + len(kids))))
            g += [N("str", "%sx%d" % (nid, j), s=w) for j, w in enumerate(kids)]
    ins = []
    for _ in range(6):          # made of what the children accept, in some order
        order = list(range(1, n + 1))
        r.shuffle(order)
        v = []
        for i in order[:r.randint(4, n)]:
            x = g[i]
            v += [x["s"]] if x["t"] == "str" else [r.choice("abc")] if x["t"] == "any" else [g[c - 1]["s"] for c in x["c"]]
        ins.append(v)
    return g, 1, ins, [v[:k] + [x] for v in ins[:1] for k in (3, len(v)) for x in ("", "a")]


def deep(r, hi=0):
    """a tower of nodes over a word"""
    n = size(r, 70)
    g = []
    for i in range(n):
        t = r.choice(["option", "seq", "or", "bypass", "many", "subset"])
        g.append(N(t, "n%d" % (i + 1), c=[i + 2]))
        if t == "many":
            g[-1].update(min=r.randint(0, 1), max=r.randint(1, 2))
    g.append(N("str", "leaf", s="a"))
    return g, 1, [["a"], [], ["b"], ["a", "a"]], [["", ], ["a"]]


def long_words(r, hi=0):
    n = r.choice([40, 63, 64, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 3000])
    w = word(r, n)
    x = w[:-1] + ("a" if w[-1] != "a" else "b")
    g = [N("or", "n1", c=[2, 3, 4]), N("str", "n2", s=w), N("str", "n3", s=x), N("seq", "n4", c=[2, 3])]
    if r.random() < .5:         # and long identifiers
        for i, nd in enumerate(g):
            nd["id"] = "i" * (n % 301) + "%d" % i
    return g, 1, [[w], [x], [w[:-1]], [w + "a"], [w, x], [x, w]], [[w[:n // 2]], [w[:-1]], [w, ""], [w, w[:n // 2]], [""]]


KINDS = (repeat, repeat, wide, subset, deep, long_words, subset_amb)


def cases(r, count, ops):
    out = []
    for i in range(count):
        g, top, ins, comp = KINDS[i % len(KINDS)](r, 40 if "L" in ops else 300)
        qs = []
        if "P" in ops:
            qs += [{"op": "P", "n": top, "v": v} for v in ins]
        if "L" in ops:
            qs += [{"op": "L", "n": top, "v": v} for v in comp]
        out.append(gcase(g, qs))
    return out


# ------------------------------------------------ one node type at a time
def lines(r, count):
    """command lines of many words"""
    out = []
    for _ in range(count):
        s = ""
        for _ in range(size(r, 41 if r.random() < .9 else 66)):
            k = r.random()
            w = word(r, r.randint(1, 4))
            s += w if k < .6 else "'%s %s'" % (w, w) if k < .7 else '"%s\\"%s"' % (w, w) if k < .8 else "%s\\ %s" % (w, w) if k < .9 else "''"
            s += r.choice([" ", " ", "  ", "\t"])
        out.append(s + r.choice(["", "x", "'x", '"', "\\", "# a comment", "'x"]))
    return out


def sh_long(r, count):
    """a lexer above a repetition, on long lines"""
    out = []
    for t in lines(r, count):
        g = [N("any", "n1", attr=""), N("many", "n2", c=[1], min=0, max=0), N("sh_lex", "n3", c=[2])]
        out.append(gcase(g, [{"op": "P", "n": 3, "v": [t]}, {"op": "P", "n": 3, "v": [t.rstrip("'\"\\x ")]}, {"op": "L", "n": 3, "v": [t]}]))
    return out


def relex_long(r, count):
    """texts of many tokens, and long tokens"""
    def cl(s):
        return {"o": "c", "s": s}
    out = []
    for i in range(count):
        pats = [{"re": {"o": "+", "k": [cl("abc")]}, "keep": 1, "attr": "t1"}, {"re": {"o": "+", "k": [cl("012")]}, "keep": 1, "attr": "t2"},
                {"re": {"o": "+", "k": [cl(" ")]}, "keep": int(r.random() < .2), "attr": ""}, {"re": cl("+=;"), "keep": int(r.random() < .8), "attr": r.choice(["", "t1"])}]
        r.shuffle(pats)
        g = [N("any", "n1", attr="t1"), N("any", "n2", attr="t2"), N("any", "n3", attr=""),
             N("or", "n4", c=r.choice([[1, 2, 3], [1, 2], [3], [2, 3], [3, 1]])), N("many", "n5", c=[4], min=0, max=0), N("re_lex", "n6", c=[5], pats=pats)]
        qs = []
        for n in (size(r, 33), size(r, 41)):
            s = "".join(r.choice(["a", "bc", "0", "12", " ", "+", ";"]) for _ in range(n))
            qs.append({"op": "P", "n": 6, "v": [s]})
            qs.append({"op": "P", "n": 6, "v": [s + "!"]})
        for n in (size(r, 66), size(r, 130)):
            qs.append({"op": "P", "n": 6, "v": [word(r, n) + r.choice(["", " ", ";"]) + "0" * r.randint(1, n)]})
        out.append(gcase(g, qs))
        g = [N("re", "n1", re=r.choice([{"o": "+", "k": [cl("abc")]}, {"o": "*", "k": [cl("ab")]}, {"o": "*", "k": [{"o": "."}]}]))]
        w = word(r, size(r))
        out.append(gcase(g, [{"op": "P", "n": 1, "v": [x]} for x in (w, w + "x", "x" + w, w.replace("c", "a"), w[:-1] + "\n")]))
    return out


def once_long(r, count):
    """many alternatives, each usable once"""
    out = []
    for _ in range(count):
        k = r.choice([8, 9, 12, 16, 17])
        g = [N("str", "w%d" % i, s="k%d" % i) for i in range(k)]
        opts = []
        for i in range(k):
            if r.random() < .85:
                g.append(N("once", r.choice(["o", "o%d" % i, "o%d" % i]), c=[i + 1]))
                opts.append(len(g))
            else:
                opts.append(i + 1)
        g.append(N("or", "alt", c=opts))
        g.append(N("many", "m", c=[len(g)], min=0, max=0))
        n = len(g)
        qs = []
        for _ in range(4):
            v = ["k%d" % i for i in range(k)]
            r.shuffle(v)
            qs.append({"op": "P", "n": n, "v": v})
            i = r.randrange(1, k)
            qs.append({"op": "P", "n": n, "v": v[:i] + [r.choice(v[:i])] + v[i:]})
        qs += [{"op": "L", "n": n, "v": v[:i] + [x]} for i in (1, k // 2, k) for x in ("", "k1")]
        out.append(gcase(g, qs))
    return out


def cond_long(r, count):
    """conditions that count many nodes, and long conditions"""
    out = []
    for _ in range(count):
        n = size(r, 130)
        g = [N("str", "a", s="a"), N("str", "b", s="b"), N("or", "k", c=[1, 2]), N("many", "x", c=[3], min=0, max=0)]
        s = "cmp(%s,count(find(root(),%s)),%d)" % (r.choice(["eq", "ne", "lt", "gt", "le", "ge"]), r.choice("abk"), n + r.choice([-1, 0, 0, 1]))
        for _ in range(r.choice([0, 0, 1, 3, 12])):
            s = r.choice(["and(%s)", "or(%s)", "not(%s)", "and(not(%s))", "bool(%s)", "and(%s,bool(root()))", "or(bool(find(root(),zz)),%s)"]) % s
        if r.random() < .3:         # long identifiers
            x = "i" * r.choice([30, 63, 64, 127, 128, 255, 256])
            for i in (1, 2, 3):
                s = s.replace("root(),%s)" % "abk"[i - 1], "root(),%s%d)" % (x, i))
                g[i - 1]["id"] = "%s%d" % (x, i)
        g.append(N("cond", "q", c=[4], s=s))
        ins = [["a"] * i for i in (n - 1, n, n + 1)] + [[r.choice("ab") for _ in range(n)]]
        out.append(gcase(g, [{"op": "OK", "n": 5, "v": []}] + [{"op": "P", "n": 5, "v": v} for v in ins]))
    return out


def cmd_long(r, count):
    """command strings of many parts"""
    out = []
    for _ in range(count):
        k = r.choice([8, 9, 16, 20, 33])
        sep = r.choice([" ", " ", "|", "|", ", "])
        if sep == ", ":
            k = r.choice([4, 5, 6, 7])
        ws = ["w%d" % i for i in range(k)]
        parts = ws[:]
        for i in range(k):
            d = r.random()
            if d < .1:
                parts[i] = "[%s]" % ws[i]
            elif d < .2:
                parts[i] = "(%s)" % ws[i]
            elif d < .25 and sep == "|":
                parts[i] = "%s end" % ws[i]
            elif d < .3 and sep == " ":
                parts[i] = "(%s|%s)" % (ws[i], "z")
        t = sep.join(parts)
        d = r.randint(0, 30)
        if r.random() < .3:
            t = "(" * d + t + ")" * d
        elif r.random() < .3:
            t = "[" * d + t + "]" * d
        g = [N("str", "x", s="foo"), N("any", "y", attr=""), N("cmd", "c", c=[1, 2], s=t)]
        if sep == " ":
            ins = [ws, ws[:-1], ws[1:], ws + ["z"], ws[:k // 2] + ws[k // 2 + 1:]]
        elif sep == "|":
            ins = [[r.choice(ws)] for _ in range(4)] + [[ws[-1], "end"], [ws[0], "end"], ["w"]]
        else:
            v = ws[:]
            r.shuffle(v)
            ins = [ws, v, v[:-1], v + v[:1]]
        out.append(gcase(g, [{"op": "OK", "n": 3, "v": []}] + [{"op": "P", "n": 3, "v": v} for v in ins]
                         + ([{"op": "L", "n": 3, "v": r.choice(ins)[:2] + [""]}] if sep != ", " or k < 5 else [])))
    return out


def expr_long(r, count):
    """long chains of operators, deep parentheses"""
    out = []
    for _ in range(count):
        g = [N("int", "n1", min="0", max="9", base=10)]
        for s in ("+", "*", "-", "!", "~", "(", ")"):
            g.append(N("str", "n%d" % (len(g) + 1), s=s))
        e = N("expr", "n9", val=1, bin=r.choice([[2, 3], [3, 2], [2]]), pre=[4], post=[5] if r.random() < .5 else [], par=[[7, 8]])
        e["c"] = [1] + e["bin"] + e["pre"] + e["post"] + [7, 8]
        g.append(e)
        ops = [g[i - 1]["s"] for i in e["bin"]]
        qs = []
        for kind in range(6):
            n = r.choice([8, 9, 10, 16, 17])        # a document for TLC has 255 levels
            num = lambda: str(r.randint(0, 3))
            if kind == 0:
                v = [num()]
                for _ in range(n):
                    v += [r.choice(ops), num()]
            elif kind == 1:
                v = ["("] * n + ["1"] + [")"] * n
            elif kind == 2:
                v = ["-"] * n + ["1"] + ["!"] * (n if e["post"] else 0)
            elif kind == 3:
                v = [num()]
                for _ in range(n // 2):
                    v += [r.choice(ops), "(", num()]
                v += [")"] * (n // 2)
            elif kind == 4:
                v = ["("] * (n // 2) + [num()]
                for _ in range(n // 2):
                    v += [r.choice(ops), num(), ")"]
            else:
                v = ["("] * n + ["1"] + [")"] * (n - 1)
            qs.append({"op": "P", "n": 9, "v": v})
            qs.append({"op": "EV", "n": 9, "x": 9, "mode": r.randint(0, 7), "v": v, "f": r.choice([0, 0, 0, n, n // 2]), "miss": 0})
        out.append(gcase(g, qs))
    return out
