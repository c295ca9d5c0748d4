"""C06: shell lexing and quoting."""
import itertools, random
import large
from ecv import Case, hx
from p_gram import rnd, j, seeded, STRUCT
from gram import N, gcase

ALPHA = "a '\"\\#\n"


def lex_cases(qs, n=150):
    cases = []
    for k in range(0, len(qs), n):
        part = qs[k:k + n]
        cases.append(Case(["SHLEX %d %s" % (q["f"], "-" if q["null"] else hx(q["s"])) for q in part], {"q": part}))
    return cases


def q(s, f):
    return {"s": "" if s is None else s, "f": f, "null": s is None}


def rand_line(r, words):
    """something that a user may type"""
    out = ""
    for _ in range(r.randint(0, 4)):
        w = r.choice(words)
        k = r.random()
        if k < .3:
            w = r.choice("'\"") + w + r.choice(["'", '"', "'", '"', ""])
        elif k < .45 and w:
            p = r.randint(0, len(w))
            w = w[:p] + r.choice(["\\", "''", '""', "'", '"', "\\\\", "\\ ", "\\'"]) + w[p:]
        out += w + r.choice([" ", " ", "  ", "\t", "", "\n", " # c\n"])
    return out.rstrip(" ") if r.random() < .5 else out


def sh_grammars(r, count):
    """a shell lexer above a small grammar, parse and completion of lines"""
    cases = []
    for _ in range(count):
        words = r.sample(["foo", "foobar", "bar", "to to", "ba", "f'o", "a", "ab", "#x", "q\"q"], r.randint(2, 5))
        g = [N("str", "n%d" % (k + 1), s=w) for k, w in enumerate(words)]
        m = len(g)
        g.append(N("or", "n%d" % (m + 1), c=list(range(1, m + 1))))
        t = r.choice(["many", "seq", "option", "seq2"])
        if t == "many":
            g.append(N("many", "n%d" % (m + 2), c=[m + 1], min=r.choice([0, 1]), max=r.choice([0, 2, 3])))
        elif t == "option":
            g.append(N("option", "n%d" % (m + 2), c=[m + 1]))
        elif t == "seq":
            g.append(N("seq", "n%d" % (m + 2), c=[r.randint(1, m), m + 1]))
        else:
            g.append(N("seq", "n%d" % (m + 2), c=[m + 1, m + 1, r.randint(1, m)]))
        g.append(N("sh_lex", "n%d" % (m + 3), c=[m + 2]))
        root = m + 3
        if r.random() < .2:
            g.append(N("or", "n%d" % (m + 4), c=[r.randint(1, m), root, r.randint(1, m)]))
            root = m + 4
        qs = []
        for _ in range(10):
            line = rand_line(r, words + ["fo", "b", "", "zz"])
            v = [line] if r.random() < .95 else [line, "a"]
            qs.append({"op": r.choice("PLLL"), "n": root, "v": v})
        cases.append(gcase(g, qs))
    return cases


def c06(ck):
    r = seeded(ck, 6)
    ck.model("ShLexDesign", "ShLexDesign" if ck.quick else "ShLexDesignT")
    strs = ["".join(w) for k in range(ck.n(5, 7)) for w in itertools.product(ALPHA, repeat=k)]
    if not ck.quick:
        strs = strs[:7 ** 5] + r.sample(strs, 60000)
    qs = [q(s, f) for s in strs for f in ((0, 1, 2, 3) if ck.quick else (0, 3))]
    if ck.quick:
        # and a part of the longer ones
        qs += [q("".join(r.choice(ALPHA) for _ in range(r.randint(5, 8))), r.randint(0, 7)) for _ in range(12000)]
    ck.conform("all the short strings", lex_cases(qs), "JLex")
    qs = [q(None, f) for f in range(8)]
    qs += [q("".join(r.choice("ab \t\n\r\f'\"\\#x~!") for _ in range(r.randint(0, 60))), r.randint(0, 7))
           for _ in range(ck.n(4000, 40000))]
    qs += [q(rand_line(r, ["foo", "bar", "a", "x#y", "#z", ""]), r.randint(0, 7)) for _ in range(ck.n(4000, 40000))]
    ck.conform("random strings", lex_cases(qs, 60), "JLex")
    # words around the size of a buffer
    qs = []
    for n in (4095, 8189, 8190, 8191, 8192, 9000):
        qs += [q("x" * n, 0), q("a '" + "x" * n + "' b", 1), q("\"" + "x" * n, 2), q("a " + "x" * (n - 1) + "\\y z ", 2)]
    ck.conform("long words", lex_cases(qs, 1), "JLex")
    ck.conform("long lines", lex_cases([q(s, r.randint(0, 7)) for s in large.lines(r, ck.n(80, 800))], 4), "JLex")
    j(ck, "long lines, lexer nodes", large.sh_long(r, ck.n(60, 600)), "all")
    j(ck, "lexer nodes", sh_grammars(r, ck.n(2500, 25000)), "all")
    j(ck, "lexers in random grammars",
      rnd(ck, r, ck.n(500, 5000), dict(STRUCT, sh_lex=5), "PLL", must=("sh_lex",)), "all")
