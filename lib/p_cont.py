"""Checks on the containers: string vectors, tables and dictionaries, vectors."""
import itertools, json, random
from ecv import Case, hx, printed, CheckError

SLOTS = 5


def steps(c):
    return len(c.rec["q"]) + 1


def run(ck, name, cases, module):
    ck.conform(name, cases, module, steps=steps)


def seeded(ck, k):
    return random.Random(ck.seed * 1000 + k)


# ------------------------------------------------------------ string vectors
WORDS = ["", "a", "b", "ab", "ba", "aa", "A", "z", "foo", "Foo", "a b", "~", "!", "0", "10", "9", "abc"]


def sv_line(o):
    k = o["op"]
    a = ["SV", k, str(o["i"])]
    if k == "from":
        a += [hx(x) for x in o["l"]]
    elif k == "add":
        a.append("-" if o["null"] else hx(o["s"]))
    elif k == "set":
        a += [str(o["idx"]), "-" if o["null"] else hx(o["s"])]
    elif k in ("dup", "cmp"):
        a.append(str(o["j"]))
    elif k == "ndup":
        a += [str(o["j"]), str(o["off"]), str(o["len"])]
    elif k == "attr":
        a += [str(o["idx"]), str(o["a"])]
    elif k == "sort":
        a.append(o["mode"])
    return " ".join(a)


def long_words(r):
    """long words that differ by their last character or by their length"""
    out = []
    for _ in range(3):
        w = "".join(r.choice("ab c") for _ in range(r.choice([7, 15, 31, 32, 63, 64, 127, 128, 255, 256, 300])))
        out += [w + "x", w + "y", w, w[:-1], w.upper()]
    return out


def sv_random(r, nops, pfail=0.0, words=WORDS, nfrom=4, sort=True):
    vec, q, lines, na = {}, [], [], 0
    WORDS = words
    for _ in range(nops):
        free = [i for i in range(1, SLOTS + 1) if i not in vec]
        live = sorted(vec)
        ops = []
        if free:
            ops += ["new", "from"]
        if live:
            ops += ["add"] * 5 + ["set"] * 3 + ["del"] * 2 + ["attr"] * 4 + ["sort"] * (2 if sort else 0) + ["free"]
            if len(live) > 1:
                ops += ["cmp"] * 3
            if free:
                ops += ["dup"] * 3 + ["ndup"] * 3
        k = r.choice(ops)
        o = {"op": k, "i": r.choice(free if k in ("new", "from") else live)}
        i = o["i"]
        n = len(vec.get(i, []))
        idx = lambda: r.choice([0, n - 1 if n else 0, r.randint(0, n), n, -1 if r.random() < .2 else 0])
        if k == "new":
            vec[i] = []
        elif k == "from":
            o["l"] = [r.choice(WORDS) for _ in range(r.randint(0, nfrom))]
            vec[i] = list(o["l"])
        elif k == "add":
            o["s"], o["null"] = r.choice(WORDS), r.random() < .03
            if not o["null"]:
                vec[i].append(o["s"])
        elif k == "set":
            o["idx"], o["s"], o["null"] = idx(), r.choice(WORDS), r.random() < .03
        elif k == "del":
            vec[i] = vec[i][:-1]
        elif k == "dup":
            o["j"] = r.choice(free)
            vec[o["j"]] = list(vec[i])
        elif k == "ndup":
            o["j"] = r.choice(free)
            o["off"], o["len"] = r.randint(0, n + 1), r.randint(0, n + 1)
            if r.random() < .7 and n:
                o["off"] = r.randint(0, n)
                o["len"] = r.randint(0, n - o["off"])
            elif r.random() < .2:
                o["off"], o["len"] = -1, r.choice([0, 1])
            elif r.random() < .2:
                o["off"], o["len"] = r.choice([0, 1]), -1
            if 0 <= o["off"] and 0 <= o["len"] and o["off"] + o["len"] <= n:
                vec[o["j"]] = vec[i][o["off"]:o["off"] + o["len"]]
        elif k == "free":
            del vec[i]
        elif k == "attr":
            o["idx"] = idx()
            o["a"] = 0
            if r.random() < .85:
                na += 1
                o["a"] = na
        elif k == "cmp":
            o["j"] = r.choice(live)
        elif k == "sort":
            o["mode"] = r.choice(["-", "-", "r", "l"])
        if pfail and r.random() < pfail:
            lines.append("FAIL %d" % r.randint(1, 3))
        lines.append(sv_line(o))
        q.append(o)
    return Case(lines, {"q": q})


def sv_model(ck, r, count):
    out = ck.model("StrvecAlgo", "GenStrvec")
    hs = sorted(printed(out, "HIST"))
    if not hs:
        raise CheckError("no history generated")
    if count and len(hs) > count:
        hs = r.sample(hs, count)
    cases = []
    for h in hs:
        q = json.loads(h)
        cases.append(Case([sv_line(o) for o in q], {"q": q}))
    return cases


def c14(ck):
    r = seeded(ck, 14)
    ck.model("StrvecAlgo", "StrvecAlgoQ" if ck.quick else "StrvecAlgo")
    run(ck, "all the short histories", sv_model(ck, r, ck.n(12000, 0)), "JStrvec")
    run(ck, "random histories", [sv_random(r, r.randint(8, 40)) for _ in range(ck.n(2000, 30000))], "JStrvec")
    run(ck, "long words", [sv_random(r, r.randint(8, 25), words=long_words(r)) for _ in range(ck.n(250, 3000))], "JStrvec")
    run(ck, "words of any bytes",
        [sv_random(r, r.randint(8, 25), words=["".join(chr(r.choice([1, 9, 10, 65, 127, 128, 195, 233, 255])) for _ in range(r.randint(1, 4)))
                                               for _ in range(6)], sort=False) for _ in range(ck.n(250, 3000))], "JStrvec")
    run(ck, "long vectors", [sv_random(r, r.randint(8, 20), nfrom=r.choice([40, 130, 300])) for _ in range(ck.n(100, 1500))], "JStrvec")
    run(ck, "random histories, memory runs out",
        [sv_random(r, r.randint(8, 30), .4) for _ in range(ck.n(800, 10000))], "JStrvec")


# ------------------------------------------------- hash tables, dictionaries
def ht_line(o, w, view):
    k = o["op"]
    a = [w, k, str(o["i"])]
    if k in ("set", "get", "has", "del"):
        a.append("-" if o["bad"] and o["k"] == "-" else o["k"])
    if k == "set":
        a += [str(o["v"]), str(o["own"])]
    if k == "dup":
        a.append(str(o["j"]))
    if view:
        a.append("V")
    return " ".join(a)


def ht_random(r, nops, dict_, nkeys, pfail=0.0, viewp=.4):
    w = "DI" if dict_ else "HT"
    keys = set()
    while len(keys) < nkeys:
        if dict_:
            s = "".join(r.choice("abcxyz019_ \xe9") for _ in range(r.choice([0, 1, 2, 3, 5, 9, 17] + [64, 300] * (nkeys < 9))))
        else:
            s = "".join(chr(r.choice([0, 1, 65, 66, 255, r.randint(0, 255)])) for _ in range(r.choice([1, 1, 2, 3, 4, 5, 8, 13, 40] + [300] * (nkeys < 9))))
        keys.add(hx(s))
    keys = sorted(keys)
    m, q, lines, nv = {}, [], [], 0
    for n in range(nops):
        free = [i for i in range(1, SLOTS + 1) if i not in m]
        live = sorted(m)
        ops = []
        if live:
            ops += ["set"] * 8 + ["get"] * 3 + ["has"] + ["del"] * 3
            if len(live) > 1 or r.random() < .1:
                ops.append("free")
            if free:
                ops += ["dup"]
        if not live or (free and r.random() < .04):
            ops = ["new"]
        k = r.choice(ops)
        o = {"op": k, "i": r.choice(free if k == "new" else live)}
        i = o["i"]
        if k in ("set", "get", "has", "del"):
            have = sorted(m[i])
            o["k"] = r.choice(have) if have and r.random() < (.7 if k != "set" else .25) else r.choice(keys)
            o["bad"] = False
            if r.random() < .02:
                o["k"], o["bad"] = "-", True
        if k == "set":
            o["v"], o["own"] = 0, 1
            if r.random() < .93:
                nv += 1
                o["v"] = nv
                o["own"] = int(r.random() < .85)
            if not o["bad"]:
                m[i].add(o["k"])
        elif k == "del":
            m[i].discard(o["k"])
        elif k == "new":
            m[i] = set()
        elif k == "dup":
            o["j"] = r.choice(free)
            m[o["j"]] = set(m[i])
        elif k == "free":
            del m[i]
        if pfail and r.random() < pfail:
            lines.append("FAIL %d" % r.randint(1, 5))
        lines.append(ht_line(o, w, r.random() < viewp or n == nops - 1))
        q.append(o)
    return Case(lines, {"q": q})


def ht_fill(r, dict_):
    """a table filled with a large number of keys, then read and emptied"""
    w = "DI" if dict_ else "HT"
    n = r.choice([127, 128, 129, 255, 256, 257, 511, 513, 600, 700])
    keys = [hx("k%d" % k) for k in range(n)]
    q = [{"op": "new", "i": 1}]
    q += [{"op": "set", "i": 1, "k": k, "bad": False, "v": v + 1, "own": 1} for v, k in enumerate(keys)]
    q += [{"op": "get", "i": 1, "k": k, "bad": False} for k in r.sample(keys, 30)]
    q += [{"op": "dup", "i": 1, "j": 2}]
    q += [{"op": "set", "i": 1, "k": k, "bad": False, "v": n + 1 + v, "own": 1} for v, k in enumerate(r.sample(keys, 30))]
    q += [{"op": "del", "i": r.randint(1, 2), "k": k, "bad": False} for k in r.sample(keys, r.choice([20, 100]))]
    q += [{"op": "has", "i": r.randint(1, 2), "k": k, "bad": False} for k in r.sample(keys, 30)]
    q += [{"op": "free", "i": 1}, {"op": "get", "i": 2, "k": keys[-1], "bad": False}]
    see = {n, len(q) - 1, len(q) - 3}
    return Case([ht_line(o, w, k in see) for k, o in enumerate(q)], {"q": q})


def ht_model(ck, r, count):
    out = ck.model("HtableAlgo", "GenDict")
    hs = sorted(printed(out, "HIST"))
    if not hs:
        raise CheckError("no history generated")
    if count and len(hs) > count:
        hs = r.sample(hs, count)
    cases = []
    for n, h in enumerate(hs):
        q = json.loads(h)
        for o in q:
            if "k" in o:
                o["k"] = hx(o["k"])
        w = "HT" if n % 2 else "DI"
        cases.append(Case([ht_line(o, w, True) for o in q], {"q": q}))
    return cases


def c13(ck):
    r = seeded(ck, 13)
    ck.model("HtableAlgo", "HtableAlgoQ" if ck.quick else "HtableAlgo")
    run(ck, "all the short histories", ht_model(ck, r, ck.n(10000, 100000)), "JDict")
    run(ck, "random histories, few keys",
        [ht_random(r, r.randint(10, 40), n % 2, r.randint(1, 8)) for n in range(ck.n(1500, 20000))], "JDict")
    run(ck, "random histories, tables that grow",
        [ht_random(r, r.randint(100, 260), n % 2, r.randint(20, 150), viewp=.02) for n in range(ck.n(120, 1500))], "JDict")
    run(ck, "large tables", [ht_fill(r, n % 2) for n in range(ck.n(20, 200))], "JDict")
    run(ck, "random histories, memory runs out",
        [ht_random(r, r.randint(10, 60), n % 2, r.randint(5, 40), .4) for n in range(ck.n(500, 6000))], "JDict")


# ------------------------------------------------------------------- vectors
def ve_random(r, nops, pfail=0.0, cap=30, more=6):
    vec, q, lines, nv = {}, [], [], 0
    for _ in range(nops):
        free = [i for i in range(1, SLOTS + 1) if i not in vec]
        live = sorted(vec)
        ops = []
        if free:
            ops += ["new"] * (1 if live else 5)
        if live:
            ops += ["add"] * more + ["get"] * 2 + ["free"]
            if free:
                ops += ["dup"] * 2 + ["ndup"] * 3
        k = r.choice(ops)
        o = {"op": k, "i": r.choice(free if k == "new" else live)}
        i = o["i"]
        n = vec[i][1] if i in vec else 0
        if k == "new":
            o["sz"] = r.choice([1, 2, 4, 8, 3, 5, 16, 100, 101, 0, 0, 0, 0, -1 if r.random() < .2 else 0])
            line = "VE new %d %d %d" % (i, o["sz"], r.choice([0, 0, 1, 3]))
            if o["sz"] >= 0:
                vec[i] = (o["sz"], 0)
        elif k == "add":
            sz = vec[i][0]
            o["w"] = {0: "o", 100: "o", 101: "o", 1: "1", 2: "2", 4: "4", 8: r.choice("8p"), 3: "b", 5: "b", 16: "b"}[sz]
            if o["w"] not in "ob" and r.random() < .3:
                o["w"] = "b"
            if sz and r.random() < .15:
                o["w"] = r.choice("1248p")
            bits = {"o": 0, "b": 8 * min(sz, 8), "1": 8, "2": 16, "4": 32, "8": 64, "p": 64}[o["w"]]
            if bits:
                o["val"] = str(r.choice([0, 1, 2 ** bits - 1, r.randrange(2 ** bits)]))
            else:
                nv += 1 if nv == 0 or r.random() < .7 else 0
                o["val"] = str(nv)
            if n >= cap:
                continue
            line = "VE add %d %s %s" % (i, o["w"], o["val"])
            if o["w"] in "ob" or (8 if o["w"] == "p" else int(o["w"])) == sz:
                vec[i] = (sz, n + 1)
        elif k == "get":
            o["idx"] = r.choice([0, n - 1, n, n + 1, -1, r.randint(0, n)])
            line = "VE get %d %d" % (i, o["idx"])
        elif k == "dup":
            o["j"] = r.choice(free)
            line = "VE dup %d %d" % (i, o["j"])
            vec[o["j"]] = vec[i]
        elif k == "ndup":
            o["j"] = r.choice(free)
            o["off"], o["len"] = r.randint(0, n + 1), r.randint(0, n + 1)
            if r.random() < .7:
                o["off"] = r.randint(0, n)
                o["len"] = r.randint(0, n - o["off"])
            elif r.random() < .2:
                o["off"], o["len"] = r.choice([(-1, 1), (1, -1), (-1, 0), (0, -1)])
            line = "VE ndup %d %d %d %d" % (i, o["j"], o["off"], o["len"])
            if 0 <= o["off"] and 0 <= o["len"] and o["off"] + o["len"] <= n:
                vec[o["j"]] = (vec[i][0], o["len"])
        else:
            line = "VE free %d" % i
            del vec[i]
        if pfail and r.random() < pfail:
            lines.append("FAIL %d" % r.randint(1, 2))
        lines.append(line)
        q.append(o)
    return Case(lines, {"q": q})


def c15(ck):
    r = seeded(ck, 15)
    run(ck, "random histories", [ve_random(r, r.randint(8, 40)) for _ in range(ck.n(4000, 50000))], "JVec")
    run(ck, "long vectors", [ve_random(r, r.randint(60, 400), cap=300, more=80) for _ in range(ck.n(40, 1000))], "JVec")
    run(ck, "random histories, memory runs out",
        [ve_random(r, r.randint(8, 40), .4) for _ in range(ck.n(1500, 15000))], "JVec")
