"""Checks on line edition (Edit.tla)."""
import gram
from ecv import Case, hx
from gram import Gen, gen_input, lines_of
from p_gram import seeded
from p_comp import steps

W = {"str": 10, "any": 1, "int": 1, "uint": 1, "empty": 1, "space": .3, "re": .5,
     "seq": 6, "or": 6, "many": 2, "option": 2, "subset": 2, "once": 1, "bypass": 1, "user": 1, "user0": .3}
WORDS = ["a", "b", "ab", "abc", "ba", "foo", "foobar", "bar", "barrel", "foo bar"]
HELPS = ["", "help", "some text", "x y"]
KEYS = {"TAB": "\t", "HOME": "\x01", "END": "\x05", "LEFT": "\x02", "RIGHT": "\x06", "BACK": "\x08", "KILL": "\x0b",
        "KILLALL": "\x15", "DELWORD": "\x17", "PREV": "\x10", "NEXT": "\x0e"}
EDITS = ["LEFT", "RIGHT", "HOME", "END", "BACK", "BACK", "KILL", "KILLALL", "DELWORD", "DELWORD"]
PROMPTS = ["", "> ", "p", "prompt> ", "a b$ ", "%s%n ", None]


def grammar(r):
    while True:
        G = Gen(r, W, words=WORDS, loops=.2)
        n = G.node(3)
        G.g.append(gram.N("sh_lex", "lex", c=[n]))
        g = G.g
        for x in g:
            if r.random() < .35:
                x["help"] = r.choice(HELPS)
        root = len(g)
        g.append(gram.N("sh_lex", "lex", c=[r.randint(1, root - 1)]))  # another one
        if gram.cheap(g, [{"op": "L", "n": root, "v": ["a"] * 5}], 2500):
            return g, root, n


def quote(r, w):
    k = r.random()
    if " " in w or w == "" or k < .1:
        return r.choice(['"%s"', "'%s'"]) % w
    if k < .15:
        return "\\" + w
    return w


def a_line(r, g, n):
    """some text that may be typed, and where it may be cut"""
    v = [quote(r, w) for w in gen_input(r, g, n)[:4]]
    s = r.choice([" ", " ", "  ", " ", " ", "\t", " \t"]).join(v)
    if r.random() < .1:
        s = " " + s
    if r.random() < .25:
        s += r.choice([" ", "  ", " zz", " f", '"', " #x"])
    if s and r.random() < .5:
        s = s[:r.randint(0, len(s))]
    return s


def op(name, **kw):
    return dict({"op": name, "fail": 0}, **kw)


def line_of(o):
    w = [o["op"], str(o["fail"])]
    k = o["op"]
    if k == "EN":
        w += [str(o["n"]), str((2 if o["nohist"] else 0) + (4 if o.setdefault("nocomp", 0) else 0) + o.get("sig", 0)), str(o["tty"])]
    elif k == "EI":
        w += [hx(o["s"])]
    elif k == "EM":
        w += [str(o["d"])]
    elif k == "EL":
        w += [str(o["trim"])]
    elif k == "ET":
        w += [str(ord(o["s"]))]
    elif k == "EH":
        w += [hx(o["s"]), hx(o["full"])]
    elif k == "EK":
        w += [hx(o["s"])]
    elif k in ("EC", "EX"):
        w += [hx(x) for x in o["v"]]
    elif k == "EP":
        w += ["-" if o.get("null") else hx(o["s"]), str(o["esc"])]
    elif k == "EF":
        w += [str(o["size"]), str(o["file"])]
    elif k in ("EG", "EQ"):
        if k == "EQ":
            w += [str(o["n"])]
        if o.get("eof"):
            w += ["-"]
        elif o["tty"]:
            w += [hx("".join(KEYS.get(x, x) for x in o["k"]) + "\n")]
        else:
            w += [hx(o["s"] + "\n")]
    return " ".join(w)


def case(g, q):
    lines = lines_of(g)
    for i, n in enumerate(g):
        if "help" in n:
            lines.append("NA 0 %d %s" % (i + 1, hx(n["help"])))
    return Case(lines + [line_of(o) for o in q], {"g": g, "q": q})


def prompt(r, fail=0):
    p = r.choice(PROMPTS)
    esc = r.randint(0, 1)
    if p and esc and r.random() < .7:
        p = "\t%s\t%s" % (r.choice(["x", "[1m"]), p)
    return op("EP", s=p or "", null=int(p is None), esc=esc, fail=0 if p is None else fail)


def columns(r):
    """words that differ by more than their case"""
    v = {}
    for _ in range(r.choice([0, 1, 2, 5, 12, 40])):
        w = "".join(r.choice("abABxX_1") for _ in range(r.choice([1, 2, 3, 5, 9, r.choice([30, 76, 77, 90])])))
        v.setdefault(w.lower(), w)
    v = list(v.values())
    r.shuffle(v)
    return v


def editing(r, pfail=0):
    g, root, n = grammar(r)
    if r.random() < .15:  # without lexer
        root = n
    q = [op("EN", n=root, nohist=r.randint(0, 1), tty=0)]
    f = lambda: r.randint(1, 60) if r.random() < pfail else 0
    q[0]["fail"] = f()
    length = 0
    for _ in range(r.randint(2, 9)):
        k = r.choice(["new", "new", "EI", "EM", "EL", "ET", "ET", "ET", "ET?", "ET?", "EH", "ES", "ES", "EP", "EK", "EC", "EX"])
        if k == "new" or length > 60:
            q.append(op("EN", n=root, nohist=1, tty=0))
            s = a_line(r, g, n)
            length = len(s)
            if s:
                q.append(op("EI", s=s))
        elif k == "EI":
            s = r.choice([" ", "a", "f", "b", " foo"])
            length += len(s)
            q.append(op("EI", s=s))
        elif k == "EM":
            q.append(op("EM", d=r.choice([-1, -2, -50, 1, 50])))
        elif k == "EL":
            q.append(op("EL", trim=r.randint(0, 1), fail=f()))
        elif k == "ET":
            length += 10
            q.append(op("ET", s="\t", fail=f()))
        elif k == "ET?":
            q.append(op("ET", s="?", fail=f()))
        elif k == "EH":
            s = a_line(r, g, n)
            q.append(op("EH", s=s, full=s + r.choice(["", "", " a"]), fail=f()))
        elif k == "ES":
            q.append(op("ES", fail=f()))
        elif k == "EP":
            q.append(prompt(r, r.choice([0, 1]) if pfail else 0))
        elif k == "EK":
            q.append(op("EK", s=a_line(r, g, n), fail=f()))
        elif k == "EC":
            q.append(op("EC", v=columns(r)))
        elif k == "EX":
            q.append(op("EX", v=[r.choice(["", "a", "<int>", "d" * 19, "d" * 20, "d" * 35, "help me"]) for _ in range(2 * r.choice([0, 1, 2, 5]))]))
    return case(g, q)


def history(r, pfail=0):
    g, root, n = grammar(r)
    q = [op("EN", n=root, nohist=r.randint(0, 1), tty=0)]
    pool = [a_line(r, g, n) for _ in range(4)] + ["", " ", "foo", "x\\ y", "b " * r.choice([10, 130, 600])]
    closed = False
    for _ in range(r.randint(3, 12)):
        k = r.choice(["EN", "EF", "EF", "EG", "EG", "EG", "EG", "EQ", "eof"])
        if k == "EN" or closed:
            q.append(op("EN", n=root, nohist=r.randint(0, 1), tty=0))
            closed = False
        if k == "EF":
            q.append(op("EF", size=r.choice([0, 1, 2, 3, 50]), file=r.choice([0, 1, 1, 1]),
                        fail=1 if r.random() < pfail else 0))
            if not (q[-1]["size"] and q[-1]["file"]):
                q[-1]["fail"] = 0
        elif k == "EG":
            q.append(op("EG", s=r.choice(pool), eof=0, tty=0, fail=1 if r.random() < pfail else 0))
        elif k == "EQ":
            q.append(op("EQ", s=r.choice(pool), n=r.choice([root, root, len(g)]), tty=0))
        elif k == "eof" and r.random() < .3:
            q.append(op("EG", s="", eof=1, tty=0))
            closed = True
    return case(g, q)


def typing(r):
    """keys on a terminal"""
    plain = r.random() < .25
    g, root, n = grammar(r)
    nocomp = int(r.random() < .15)
    q = [op("EN", n=root, nohist=r.randint(0, 1), tty=1, nocomp=nocomp, sig=r.choice([0, 0, 0, 1, 8]))]
    recall = False
    if not q[0]["nohist"] and r.random() < .6:  # lines to recall
        recall = True
        for _ in range(r.randint(1, 3)):
            q.append(op("EG", k=list(r.choice(["foo", "bar x", "a", "foo bar"])), eof=0, tty=1))
    for _ in range(r.randint(1, 3)):
        if r.random() < (.6 if plain else .2):
            q.append(prompt(r))
        edit = r.random() < .5
        tab = [] if nocomp else ["TAB"]
        keys = []
        if recall and r.random() < .5:
            keys += ["PREV"] * r.randint(1, 2)
        for c in a_line(r, g, n)[:r.choice([1, 3, 6, 15])]:
            if c != "\t":
                keys.append(c)
            if r.random() < .3:
                keys.append(r.choice(tab * 6 + ["?", "LEFT", "RIGHT", "HOME", "END"]))
            if edit and r.random() < .2:
                keys.append(r.choice(EDITS))
            if recall and r.random() < .12:
                back = "PREV" in keys and "NEXT" not in keys[len(keys) - keys[::-1].index("PREV"):]
                keys.append(r.choice(["PREV", "NEXT"]) if back else "PREV")
        if r.random() < .7:
            keys += tab
        if "?" not in keys and r.random() < .2:
            keys.append("?")
        if plain:
            keys = [x for x in keys if len(x) == 1 and x != "?"]
        if r.random() < .5:
            q.append(op("EG", k=keys, eof=0, tty=1))
        else:
            q.append(op("EQ", k=keys, n=r.choice([root, root, len(g)]), tty=1))
    return case(g, q)


def c19(ck):
    gram.one_line()
    r = seeded(ck, 19)
    cases = [editing(r) for _ in range(ck.n(900, 9000))]
    cases += [editing(r, .5) for _ in range(ck.n(500, 6000))]
    cases += [history(r) for _ in range(ck.n(250, 2500))]
    cases += [history(r, .25) for _ in range(ck.n(120, 1500))]
    cases += [typing(r) for _ in range(ck.n(350, 3000))]
    ck.conform("edit", cases, "JEdit", env={}, steps=steps)
