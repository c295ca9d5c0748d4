"""Checks on the services of the process (Runtime.tla)."""
import json
from ecv import Case, CheckError, hx, printed
from p_gram import seeded
from p_comp import steps

NAMES = ["str", "seq", "int", "foo", "bar", "st", "strx"]
LOGS = ["a", "b", "ab", "node", "log", "malloc", "a long name of type", ""]
OVER = [(1 << 63, 2), ((1 << 32) + 1, 1 << 32), (3, ((1 << 64) - 1) // 3 + 1), (1 << 40, 1 << 40), ((1 << 64) - 1, (1 << 64) - 1)]


def tok(o):
    k = o["op"]
    if k == "IR":
        return "IR:%d:%d:%d:%d" % (o["k"], o["prio"], o["init"], o["exit"])
    if k == "II":
        return "II:%d" % o["fail"]
    if k == "MR":
        return "MR:%d" % o["h"]
    if k == "MA":
        return "MA:%d:%s:%s:%s:%d" % (o["i"], o["kind"], o["a"], o["b"], o["fail"])
    if k == "MF":
        return "MF:%d:%d" % (o["i"], o["func"])
    if k == "LT":
        return "LT:%s:%d" % (hx(o["s"]), o["fail"])
    if k == "LN":
        return "LN:%d" % o["id"]
    if k == "LF":
        return "LF:%d:%d" % (o["cb"], o["tag"])
    if k == "LL":
        return "LL:%d" % o["l"]
    if k == "LG":
        return "LG:%d:%d:%s:%d" % (o["id"], o["l"], hx(o["s"]), o["num"])
    if k == "NT":
        return "NT:%d:%s:%d" % (o["tag"], hx(o["s"]), o["over"])
    if k == "NL":
        return "NL:%s" % hx(o["s"])
    if k == "NN":
        return "NN:%d:%s" % (o["i"], hx(o["s"]))
    if k == "NQ":
        return "NQ:%d" % o["i"]
    return k


def case(q):
    return Case(["RT " + " ".join(tok(o) for o in q)], {"q": q})


def alloc(r, h):
    kind = r.choice("mfcrsn")
    o = {"op": "MA", "i": r.randrange(6), "kind": kind, "b": "0", "fail": 1 if h and r.random() < .2 else 0, "ov": 0}
    a = r.choice([0, 1, 2, 7, 8, 31, 100, 1000])
    o["size"] = a
    if kind == "c":
        b = r.choice([0, 1, 3, 16])
        o["b"], o["size"] = str(b), a * b
        if h and r.random() < .3:
            a, b = r.choice(OVER)
            o.update(a=str(a), b=str(b), size=0, ov=1, fail=0)
            return o
    elif kind == "r":
        o["size"] = a = max(a, 1)
    elif kind == "s":
        o["size"] = a + 1
    elif kind == "n":
        b = r.choice([0, 1, 5, 50, 2000])
        o["b"], o["size"] = str(b), min(a, b) + 1
    o["a"] = str(a)
    return o


def random_case(r, n):
    q = []
    h = 0
    tags = 0
    for k in range(r.randint(0, 4)):
        q.append({"op": "IR", "k": k, "prio": r.choice([0, 10, 40, 50, 75, 80, 99]), "init": r.choice([0, 1, 1, 1, 2 if r.random() < .3 else 1]),
                  "exit": r.randint(0, 1)})
        if r.random() < .4:
            o = {"op": "MR", "h": r.randint(0, 5)}
            h = o["h"] if o["h"] in (1, 2) else h
            q.append(o)
    if h == 0 or r.random() < .3:
        h = r.choice([1, 2])
        q.append({"op": "MR", "h": h})
    if r.random() < .3:
        q.append(alloc(r, h))
    fail = r.randint(1, 900) if r.random() < .3 else 0
    q.append({"op": "II", "fail": fail})
    maybe_down = fail or any(o.get("init") == 2 for o in q)
    for _ in range(0 if maybe_down else n):
        k = r.choice(["MR", "MA", "MA", "MF", "LT", "LT", "LN", "LF", "LL", "LG", "LG", "LG", "NT", "NT", "NL", "NL", "NN", "NN", "NQ", "ND"])
        if k == "MR":
            q.append({"op": "MR", "h": r.randint(0, 5)})
        elif k == "MA":
            q.append(alloc(r, h))
        elif k == "MF":
            q.append({"op": "MF", "i": r.randrange(6), "func": r.randint(0, 1)})
        elif k == "LT":
            q.append({"op": "LT", "s": r.choice(LOGS), "fail": r.choice([0, 0, 0, 1, 2])})
        elif k == "LN":
            q.append({"op": "LN", "id": r.choice([0, 1, 5, 31, 32, 33, 34, 35, 40, -1, 1000, 1 << 30])})
        elif k == "LF":
            q.append({"op": "LF", "cb": 0, "tag": 0} if r.random() < .4 else {"op": "LF", "cb": r.randint(1, 2), "tag": r.randint(0, 3)})
        elif k == "LL":
            q.append({"op": "LL", "l": r.choice([0, 1, 3, 4, 6, 7, 8, 100, -1])})
        elif k == "LG":
            i = r.choice([0, 5, 32, 33, -1, 5000])
            if 0 <= i < 100:
                q.append({"op": "LN", "id": i})
            q.append({"op": "LG", "id": i, "l": r.randint(0, 7), "s": r.choice(["", "text", "%s %n", "x" * 30]), "num": r.randint(-5, 70000)})
        elif k == "NT" and tags < 12:
            q.append({"op": "NT", "tag": tags, "s": r.choice(NAMES), "over": r.randint(0, 1)})
            tags += 1
        elif k == "NL":
            q.append({"op": "NL", "s": r.choice(NAMES)})
        elif k == "NN":
            q.append({"op": "NN", "i": r.randrange(6), "s": r.choice(NAMES)})
        elif k == "NQ":
            q.append({"op": "NQ", "i": r.randrange(6)})
        elif k == "ND":
            q.append({"op": "ND"})
    q += [{"op": "Z"}, {"op": "IX"}, {"op": "Z"}]
    # (the library uses its own types to initialize itself)
    mine = any(o["op"] == "NT" and o["s"] in ("str", "seq", "int") for o in q)
    if not maybe_down and not mine and r.random() < .5:
        q += [{"op": "II", "fail": 0}, {"op": "NN", "i": 0, "s": "seq"}, {"op": "NQ", "i": 0}, {"op": "Z"}, {"op": "IX"}, {"op": "Z"}]
    return q


def c20(ck):
    r = seeded(ck, 20)
    hs = sorted(printed(ck.model("GenRuntime", "GenRuntime" if ck.quick else "GenRuntimeT"), "HIST"))
    if not hs:
        raise CheckError("no history generated")
    hs = r.sample(hs, min(len(hs), ck.n(1200, 12000)))
    cases = [case(json.loads(h) + [{"op": "MR", "h": 1}, {"op": "II", "fail": 0}, {"op": "IX"}, {"op": "Z"}]) for h in hs]
    cases += [case(random_case(r, r.randint(3, 25))) for _ in range(ck.n(900, 9000))]
    # each allocation of the initialization fails in turn
    ks = range(1, 3000)
    for k in r.sample(ks, 150) if ck.quick else ks:
        cases.append(case([{"op": "IR", "k": 0, "prio": r.choice([0, 99]), "init": 1, "exit": 1}, {"op": "MR", "h": 1 + k % 2},
                           {"op": "II", "fail": k}, {"op": "IX"}, {"op": "Z"}]))
    ck.conform("runtime", cases, "JRuntime", steps=steps)
