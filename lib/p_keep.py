"""Answers that are kept while other requests are made (Keep.tla)."""
import json
from ecv import Case, CheckError, hx, printed
from gram import cheap, comp_input, gen_input, lines_of, Gen
from p_comp import steps
from p_gram import seeded
from p_oom import ALL


def k_line(o):
    k = o["op"]
    if k in ("KP", "KL"):
        return " ".join([k, str(o["r"]), str(o["n"])] + [hx(s) for s in o["v"]])
    if k == "KD":
        return "KD %d %d" % (o["r"], o["b"])
    if k == "KA":
        return "KA %d %d" % (o["n"], o["c"])
    return "%s %d" % (k, o["r"])


def fill(r, hist, limit, weights):
    """a history of this shape on a random grammar; None if it would cost too much"""
    G = Gen(r, weights, loops=.3)
    root = G.node(3)
    g = json.loads(json.dumps(G.g))
    cur = json.loads(json.dumps(g))
    q = []
    for o in hist:
        o = dict(o)
        if o["op"] in ("KP", "KL"):
            o["n"] = root if r.random() < .8 else r.randint(1, len(g))
            o["v"] = gen_input(r, cur, root) if o["op"] == "KP" else comp_input(r, cur, root)
            if not cheap(cur, [{"op": o["op"][1], "n": o["n"], "v": o["v"]}], limit):
                return None
        elif o["op"] == "KA":
            l = [i + 1 for i, n in enumerate(g) if n["t"] in ("seq", "or", "subset")]
            if not l:
                continue
            o["n"] = r.choice(l)
            o["c"] = r.choice([i + 1 for i, n in enumerate(g) if n["t"] in ("str", "any", "int", "empty")] or [0])
            if o["c"] == 0:
                continue
            cur[o["n"] - 1]["c"].append(o["c"])
        q.append(o)
    if not q:
        return None
    try:
        return Case(lines_of(g) + [k_line(o) for o in q], {"g": g, "q": q})
    except ValueError:
        return None


def shape(r, n):
    used, out = set(), []
    for _ in range(n):
        k = r.choice(["KP", "KP", "KL", "KL", "KV", "KV", "KV", "KF", "KD", "KA"])
        if k in ("KV", "KF", "KD") and not used:
            continue
        if k in ("KV", "KF"):
            x = r.choice(sorted(used))
            out.append({"op": k, "r": x})
            if k == "KF":
                used.discard(x)
        elif k == "KD":
            b = r.choice(sorted(used))
            x = r.choice([i for i in range(1, 5) if i != b])
            out.append({"op": k, "r": x, "b": b})
            used.add(x)
        elif k == "KA":
            out.append({"op": k})
        else:
            x = r.randint(1, 4)
            out.append({"op": k, "r": x})
            used.add(x)
    return out


def c24(ck):
    r = seeded(ck, 24)
    hist = sorted(printed(ck.model("GenKeep", "GenKeep" if ck.quick else "GenKeepT"), "HIST"))
    if not hist:
        raise CheckError("no history")
    hist = [json.loads(h) for h in r.sample(hist, min(len(hist), ck.n(1500, 12000)))]
    cases = []
    for h in hist + [shape(r, r.randint(6, 20)) for _ in range(ck.n(900, 8000))]:
        w = ALL if r.random() < .6 else dict(ALL, dynamic=6, once=4, sh_lex=3, re_lex=3, cmd=4)
        for _ in range(40):
            c = fill(r, h, 3000, w)
            if c is not None:
                cases.append(c)
                break
    ck.conform("kept answers", cases, "JKeep", env={"VIEW": "all"}, steps=steps)
