"""Memory that runs out, at every possible place (JOom.tla)."""
from ecv import Case, hx
from gram import LATE, N, cheap, cmd_string, expr_lines, gcase, node_line, q_line
from p_gram import ALL, expr_cases, rnd, seeded, uniq_q

PTS, NEW = 70, 2000

def creations(r, g):
    """lines that build the grammar, with the functions that take all the children when possible"""
    lines, ops, done, late = [], [], set(), []
    pending = list(range(1, len(g) + 1))

    def node(i, line):
        lines.append("ON %d %s" % (NEW, line[2:]))
        ops.append({"op": "ON", "n": i})

    def change(line):
        lines.append("OA %d %s" % (NEW, line))
        ops.append({"op": "OA"})

    def changes(i):
        n = g[i - 1]
        for l in expr_lines(i, n) if n["t"] == "expr" else ["A %d %d" % (i, c) for c in n["c"]]:
            change(l)
    while pending:
        ready = [i for i in pending if all(c in done for c in g[i - 1].get("c", []) + g[i - 1].get("old", []))]
        if ready:
            i = r.choice(ready)
            n = g[i - 1]
            k, t, h = n.get("c", []), n["t"], "N %d V%s %s " % (i, n["t"], hx(n["id"]))
            v = r.random() < .7
            if t in ("seq", "or", "subset") and len(k) <= 5 and v:
                node(i, (h + " ".join(map(str, k))).strip())
            elif t == "bypass" and k and v:
                node(i, h + "%d" % k[0])
            elif t == "cmd" and len(k) <= 5 and v:
                node(i, (h + hx(n["s"]) + " " + " ".join(map(str, k))).strip())
            elif t in ("int", "uint") and v and "-" not in (n["min"], n["max"], n["base"]) and n["max"] and int(n["max"]) < 1 << 62 and n["base"]:
                node(i, h + "%s %s %s" % (n["min"], n["max"], n["base"]))
            else:
                node(i, node_line(i, n))
                if t in LATE:
                    changes(i)
        else:
            i = r.choice([i for i in pending if g[i - 1]["t"] in LATE])
            node(i, node_line(i, g[i - 1]))
            late.append(i)
        done.add(i)
        pending.remove(i)
    for i in late:
        changes(i)
    return lines, ops


def oom(r, c):
    g = c.rec["g"]
    lines, ops = creations(r, g)
    for q in c.rec["q"]:
        lines.append("OQ %d %d %s" % (PTS, r.randrange(1000), q_line(q)))
        ops.append({"op": "OQ", "q": q})
    return Case(lines, {"g": g, "q": ops})


def cmd_case(r):
    t = cmd_string(r, ["a", "b", "x", "y", "c"], r.randint(1, 3))
    g = [N("str", "x", s="foo"), N("any", "y", attr=""), N("cmd", "c", c=[1, 2], s=t)]
    qs = [{"op": "P", "n": 3, "v": [r.choice("ab") for _ in range(r.randint(0, 3))]}, {"op": "L", "n": 3, "v": [""]}]
    return gcase(g, [q for q in qs if cheap(g, [q], 10 ** 6)])


def c21(ck):
    r = seeded(ck, 21)
    run = lambda name, cases: ck.conform(name, [oom(r, c) for c in uniq_q(cases)], "JOom", env={"VIEW": "all"}, cpu=30)
    for _ in range(ck.n(1, 8)):
        run("random grammars", rnd(ck, r, 1300, ALL, "PPPL", nq=5, depth=3, limit=8000))
        run("commands", [cmd_case(r) for _ in range(300)])
        run("expressions", [c for c in expr_cases(r, 250)])
