"""Checks on the helpers for strings and numbers (Text.tla, Murmur.tla)."""
import itertools
from ecv import Case, hx
from p_gram import seeded

I64, U64 = 2 ** 63, 2 ** 64
EDGE = [0, 1, 2, 7, 8, 9, 10, 35, 36, 127, 128, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, I64 - 1, I64, I64 + 1, U64 - 1, U64, U64 + 1,
        10 ** 18, 10 ** 19, 10 ** 20, 10 ** 25]
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def line(o):
    k = o["op"]
    if k in ("cnt", "sw"):
        return "TX %s %s %s" % (k, hx(o["a"]), hx(o["b"]))
    if k == "sp":
        return "TX sp %s" % hx(o["a"])
    if k in ("ll", "ul"):
        return "TX %s %s %d %s %s" % (k, hx(o["a"]), o["base"], o["min"], o["max"])
    if k == "hash":
        return "TX hash %d %d %s" % (o["off"], o["num"], "x" + bytes(o["l"]).hex())
    return "TX fmt %s" % o["w"]


def cases(qs, n=40):
    out = []
    for k in range(0, len(qs), n):
        part = qs[k:k + n]
        lines = []
        for o in part:
            if o.get("fail"):
                lines.append("FAIL 1")
            lines.append(line(o))
        out.append(Case(lines, {"q": [{x: y for x, y in o.items() if x not in ("w", "fail", "num", "off")} for o in part]}))
    return out


def inbase(n, b):
    s = ""
    while True:
        s = DIG[n % b] + s
        n //= b
        if n == 0:
            return s


def number(r):
    b = r.choice([0, 0, 10, 10, 16, 8, 2, 36, 3, 7, 35])
    n = r.choice(EDGE) if r.random() < .7 else r.randrange(2 ** r.choice([4, 8, 33, 64, 70]))
    n = max(0, n + r.choice([0, 0, 0, -1, 1]))
    rb = b or r.choice([10, 10, 16, 8])
    s = inbase(n, rb)
    if rb == 16 and (b == 0 or r.random() < .5):
        s = r.choice(["0x", "0X"]) + s
    elif b == 0 and rb == 8:
        s = "0" + s
    if r.random() < .15:
        s = s.upper()
    if r.random() < .15 and rb != 2:
        s = "0" * r.randint(1, 30) + s
    s = r.choice(["", "", "", "-", "+", " ", "  -", "\t", "- ", "--", "+-", "-+"][:12 if r.random() < .5 else 6]) + s
    k = r.random()
    if k < .08:
        s += r.choice([" ", "z", "-", ".", "x", "0x", "\n", "_", "\xe9"])
    elif k < .12:
        p = r.randint(0, len(s))
        s = s[:p] + r.choice([" ", "-", "+", "z", "g", "9", "1"]) + s[p:]
    elif k < .15:
        s = r.choice(["", " ", "-", "+", "0x", "x", "0", "-0", "00", "08", "0x-1", "1e3", "abc", "nan", "inf", "0xg", "-0x8000000000000000", "0x"])
    if "0b" in s.lower():
        return number(r)
    return s, (b if r.random() < .97 else r.choice([1, 37, 100])), n


def bounds(r, n, lo, hi):
    c = [lo, hi, 0, n, -n, n - 1, n + 1, -n - 1, -n + 1, 1, -1]
    c = [x for x in c if lo <= x <= hi]
    a = lo if r.random() < .4 else r.choice(c)
    b = hi if r.random() < .4 else r.choice(c)
    return str(a), str(b)


def ints(r, count):
    out = []
    for _ in range(count):
        s, b, n = number(r)
        k = r.choice(["ll", "ul"])
        lo, hi = bounds(r, n, -I64, I64 - 1) if k == "ll" else bounds(r, n, 0, U64 - 1)
        out.append({"op": k, "a": s, "base": b, "min": lo, "max": hi})
    return out


def text(r, n=None):
    return "".join(r.choice("ab% \xe9\n9") for _ in range(r.choice([0, 1, 2, 5, 20, 63, 64, 127, 128, 255, 256, 1000]) if n is None else n))


def fmts(r, count):
    out = []
    for k in range(count):
        form, w, p, n = r.randint(0, 6), r.choice([0, 1, 5, -5, 30, -30, 300]), r.choice([-1, -1, 0, 1, 3, 10, 100]), r.choice([0, 1, -1, 42, 2 ** 31 - 1, 1 - 2 ** 31])
        a, b = text(r), text(r)
        t = lambda s: {"k": "t", "s": s}
        S = {"k": "s", "w": w, "p": p, "s": a}
        D = lambda w: {"k": "d", "w": w, "n": n}
        l = {0: [S, t("<"), D(0), t(">" + b)], 1: [S, t("<"), D(0), t(">" + b)], 2: [t(a + "%"), D(w)], 3: [t(a), t(b)], 4: [t(a)], 5: [t("Z")], 6: []}[form]
        if k % 250 == 0:
            a = "".join(r.choice("ab%9") for _ in range(r.choice([4096, 32766, 32767, 32768, 65535, 65536, 70000])))
            form, l = 4, [t(a)]
        out.append({"op": "fmt", "l": l, "w": "%d %d %d %s %d %s" % (form, w, p, hx(a), n, hx(b)), "fail": r.random() < .1})
    return out


def hashes(r, count):
    out = []
    for k in range(count):
        n = k % 20 if k < 200 else r.choice([0, 1, 3, 21, 64, 255, 256, 257, 1000])
        num = r.choice([0, 1, 0x9747b28c, 2 ** 32 - 1, r.randrange(2 ** 32)])
        out.append({"op": "hash", "off": r.randint(0, 7), "num": num, "seed": list(num.to_bytes(4, "little")),
                    "l": [r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(n)]})
    return out


def pairs(r, count):
    short = ["".join(w) for k in range(4) for w in itertools.product("ab", repeat=k)]
    out = [{"op": op, "a": a, "b": b} for a in short for b in short for op in ("cnt", "sw")]
    for _ in range(count):
        a = text(r)
        p = r.randint(0, len(a))
        b = r.choice([a, a[:p], a + text(r, 2), a[:p] + text(r, 3), text(r), a[1:], a[:-1] + "Z", a.upper()])
        if r.random() < .5:
            a, b = b, a
        out.append({"op": r.choice(["cnt", "sw"]), "a": a, "b": b})
    return out


def blanks(r, count):
    sp = [" ", "\t", "\n", "\r", "\f"]
    out = [{"op": "sp", "a": "".join(w)} for k in range(4) for w in itertools.product(sp + ["a", "\x1f"], repeat=k)]
    out += [{"op": "sp", "a": chr(c)} for c in range(1, 256) if c != 11]
    for _ in range(count):
        s = "".join(r.choice(sp) for _ in range(r.choice([1, 5, 40, 300])))
        p = r.randint(0, len(s))
        out.append({"op": "sp", "a": s if r.random() < .5 else s[:p] + r.choice(["a", "0", "\xa0", "\x85", "_", "\x08", "\x01"]) + s[p:]})
    return out


def c25(ck):
    r = seeded(ck, 25)
    run = lambda name, qs: ck.conform(name, cases(qs), "JText", steps=lambda c: len(c.rec["q"]) + 1)
    run("numbers", ints(r, ck.n(20000, 200000)))
    run("beginnings of strings", pairs(r, ck.n(3000, 30000)))
    run("spaces", blanks(r, ck.n(1000, 10000)))
    run("formats", fmts(r, ck.n(2500, 25000)))
    run("hashes", hashes(r, ck.n(1500, 15000)))
