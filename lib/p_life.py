"""C01: lifetime of the nodes of a grammar."""
import json, random
from ecv import Case, hx, printed

LIST = ("seq", "or")                    # add and replace
ONE = ("bypass", "option", "once", "many", "cond", "re_lex")   # one replaceable child


class History:
    def __init__(self):
        self.kind, self.h, self.lines, self.q = [], {}, ["TRACK"], []
        self.valued = set()             # expressions that have a value

    def op(self, o, n, c, line):
        self.q.append({"op": o, "n": n, "c": list(c)})
        self.lines += [line, "RV"]

    def new(self, kind, c=()):
        i = len(self.kind) + 1
        self.kind.append(kind)
        self.h[i] = 1
        id = hx("n%d" % i)
        a = " ".join(str(x) for x in c)
        if kind in ("option", "once", "sh_lex"):
            line = "N %d %s %s %s" % (i, kind, id, a)
        elif kind == "many":
            line = "N %d many %s %s 0 2" % (i, id, a)
        elif kind == "cond":
            line = "N %d cond %s %s %s" % (i, id, hx("bool(root())"), a)
        elif kind == "re_lex":
            line = "N %d re_lex %s %s %s 1 -" % (i, id, a, hx("a+"))
        elif kind == "cmd":
            line = "N %d cmd %s %s %s" % (i, id, hx(" ".join(["w"] + ["n%d" % x for x in c[:2]])
                                                  if i % 3 else "n%d" % c[0]), a)
        elif kind == "bypass":
            line = "N %d bypass %s %s" % (i, id, a)
        else:
            line = "N %d %s %s" % (i, kind, id)
        self.op("new", i, c, line)
        return i

    def add(self, p, c):
        self.op("add" if self.kind[p - 1] != "bypass" else "set", p, [c], "A %d %d" % (p, c))

    def part(self, p, what, c):
        """a part of an expression"""
        self.op("addl", p, c, "X %d %s %s" % (p, what, " ".join(str(x) for x in c)))

    def set(self, p, c):
        if self.kind[p - 1] in LIST:
            self.op("setl", p, c, "RSL %d %s" % (p, " ".join(str(x) for x in c)))
        else:
            self.op("set", p, c[:1], "RS %d %d" % (p, c[0]))

    def hold(self, n):
        self.h[n] += 1
        self.op("hold", n, [], "RH %d" % n)

    def drop(self, n):
        self.h[n] -= 1
        self.op("drop", n, [], "RD %d" % n)

    def nil(self, r, held):
        """children of which one is missing: nothing is made, nothing is kept"""
        c = [r.choice(held) for _ in range(r.randint(0, 4))]
        c.insert(r.randint(0, len(c)), 0)
        k = r.choice(["Vseq", "Vor", "Vsubset", "Vcmd", "Vcmd", "option", "once", "many", "sh_lex", "Vbypass", "cond"])
        line = "RNIL 0 %s %s " % (k, hx("z"))
        if k == "many":
            line += "0 0 2"
        elif k == "cond":
            line += hx("bool(root())") + " 0"
        elif k == "Vcmd":
            line += hx("a") + " " + " ".join(map(str, c))
        elif k[0] == "V" and k != "Vbypass":
            line += " ".join(map(str, c))
        else:
            line += "0"
        self.op("nil", 0, [], line)

    def add_nil(self, p):
        self.op("nil", p, [], "RANIL %d" % p)

    def held(self):
        return [i for i in self.h if self.h[i] > 0]

    def finish(self):
        for i in sorted(self.held(), key=lambda x: (x * 7919) % 101):
            while self.h[i] > 0:
                self.drop(i)
        return Case(self.lines, {"n": len(self.kind), "kind": self.kind, "q": self.q})


def from_model(r, ops, n):
    """a history generated by the model, with random kinds of nodes"""
    deg = {i: sum(1 for o in ops if o["op"] == "add" and o["n"] == i) for i in range(1, n + 1)}
    repl = {o["n"]: len(o["c"]) for o in ops if o["op"] == "setl"}
    H = History()
    ph = None
    m = {}
    for i in range(1, n + 1):
        if deg[i] == 1 and repl.get(i, 1) == 1 and r.random() < .6:
            k = r.choice(ONE)
        elif i in repl:
            k = r.choice(LIST)
        else:
            k = r.choice(LIST + ("subset",))
        if k in ONE and k != "bypass":
            if ph is None:
                ph = H.new("empty")
            m[i] = H.new(k, [ph])
        else:
            m[i] = H.new(k)
    if ph is not None:
        H.drop(ph)
    for o in ops:
        p, c = m[o["n"]], [m[x] for x in o["c"]]
        if o["op"] == "add":
            if H.kind[p - 1] in ONE:
                H.set(p, c)
            else:
                H.add(p, c[0])
        elif o["op"] == "setl":
            H.set(p, c)
        else:
            H.drop(p)
    return H.finish()


def random_history(r, size, nops, expr=False, nil=False):
    H = History()
    while len(H.kind) < size:
        held = H.held()
        k = "expr" if expr and r.random() < .4 else r.choice(["str", "empty", "any", "seq", "or", "subset", "bypass", "seq", "or", "subset", "bypass",
                      "option", "once", "many", "sh_lex", "cond", "re_lex", "cmd", "expr"])
        if k in ("option", "once", "many", "sh_lex", "cond", "re_lex"):
            if not held:
                continue
            H.new(k, [r.choice(held)])
        elif k == "cmd":
            if not held:
                continue
            H.new(k, [r.choice(held) for _ in range(r.randint(1, 3))])
        elif k in ("str", "any"):
            i = len(H.kind) + 1
            H.kind.append(k)
            H.h[i] = 1
            H.op("new", i, [], "N %d %s %s %s" % (i, k, hx("n%d" % i), hx("a")))
        else:
            H.new(k)
        if r.random() < .3:
            step(r, H)
    for _ in range(nops):
        step(r, H, nil)
    return H.finish()


def step(r, H, nil=False):
    held = H.held()
    if not held:
        return
    x = r.random()
    p = r.choice(held)
    k = H.kind[p - 1]
    if nil and r.random() < .2:
        if k in ("seq", "or", "subset") and r.random() < .4:
            H.add_nil(p)
        else:
            H.nil(r, held)
        return
    if x < .4:
        if k in ("seq", "or", "subset", "bypass"):
            H.add(p, r.choice(held))
        elif k == "expr":
            w = r.choice(["val", "val", "bin", "bin", "pre", "post", "par"])
            if w != "val" or p not in H.valued:
                H.part(p, w, [r.choice(held) for _ in range(2 if w == "par" else 1)])
                if w == "val":
                    H.valued.add(p)
    elif x < .6:
        if k in LIST and any(q["op"] in ("add", "setl") and q["n"] == p for q in H.q):
            H.set(p, [r.choice(held) for _ in range(r.randint(0, 3))])
        elif k in ONE:
            H.set(p, [r.choice(held)])
    elif x < .7:
        H.hold(p)
    else:
        H.drop(p)


def run(ck):
    ck.model("NodeRefAlgo", ck.n("NodeRefAlgoQ", "NodeRefAlgo"))
    r = random.Random(ck.seed * 7 + 1)
    for cfg in ("GenNodeRef", "GenNodeRefSet"):
        out = ck.model("GenNodeRef", cfg)
        hs = [json.loads(h) for h in printed(out, "HIST")]
        cases = []
        for rep in range(ck.n(2, 12)):
            cases += [from_model(r, h, 3) for h in hs]
        ck.conform("histories of " + cfg, cases, "JNodeRef", steps=lambda c: len(c.rec["q"]) + 1)
    cases = [random_history(r, r.randint(2, 7), r.randint(4, 24)) for _ in range(ck.n(4000, 60000))]
    ck.conform("random histories", cases, "JNodeRef", steps=lambda c: len(c.rec["q"]) + 1)
    cases = [random_history(r, r.randint(3, 7), r.randint(8, 30), True) for _ in range(ck.n(1500, 20000))]
    ck.conform("random histories of expressions", cases, "JNodeRef", steps=lambda c: len(c.rec["q"]) + 1)
    cases = [random_history(r, r.randint(2, 6), r.randint(4, 20), nil=True) for _ in range(ck.n(1500, 20000))]
    ck.conform("random histories with missing children", cases, "JNodeRef", steps=lambda c: len(c.rec["q"]) + 1)
    ck.assumptions.append("exhaustive for graphs of 3 nodes (4 edges; 3 edges with one replacement), "
                          "random for larger ones")
