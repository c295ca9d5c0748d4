#!/usr/bin/env python3
"""mutate.py SEED COUNT [file-pattern]: small random changes of the library that compile and pass its tests, and
whether the checks see them. A development tool: the survivors are read by hand."""
import glob, json, os, random, re, subprocess, sys, fnmatch
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED, COUNT = int(sys.argv[1]), int(sys.argv[2])
PAT = sys.argv[3] if len(sys.argv) > 3 else "*"
WT = "/tmp/mwt%d" % SEED
G = ["C02", "C04", "C21", "C03", "C12", "C01", "C16"]
MAP = {
    "ecoli_complete.c": ["C05", "C04", "C21", "C19"], "ecoli_config.c": ["C16", "C21", "C18"], "ecoli_dict.c": ["C13", "C16"],
    "ecoli_editline.c": ["C19"], "ecoli_htable.c": ["C13"], "ecoli_init.c": ["C20"], "ecoli_log.c": ["C20"], "ecoli_malloc.c": ["C20"],
    "ecoli_murmurhash.c": ["C13"], "ecoli_node.c": ["C01", "C20", "C16", "C21"], "ecoli_node_any.c": ["C08", "C02", "C16", "C21"],
    "ecoli_node_bypass.c": G, "ecoli_node_cmd.c": ["C11", "C16", "C21", "C01"], "ecoli_node_cond.c": ["C09", "C16", "C21", "C01"],
    "ecoli_node_dynamic.c": ["C10", "C02", "C21"], "ecoli_node_empty.c": G, "ecoli_node_expr.c": ["C12", "C21", "C01"],
    "ecoli_node_file.c": ["C22"], "ecoli_node_helper.c": ["C16", "C21", "C11"], "ecoli_node_int.c": ["C07", "C16", "C21"],
    "ecoli_node_many.c": G, "ecoli_node_none.c": G, "ecoli_node_once.c": ["C10"] + G, "ecoli_node_option.c": G, "ecoli_node_or.c": G,
    "ecoli_node_re.c": ["C08", "C16", "C21"], "ecoli_node_re_lex.c": ["C08", "C16", "C21", "C01"], "ecoli_node_seq.c": G,
    "ecoli_node_sh_lex.c": ["C06", "C04", "C21", "C01"], "ecoli_node_space.c": G, "ecoli_node_str.c": G, "ecoli_node_subset.c": G,
    "ecoli_parse.c": ["C17", "C03", "C02", "C21"], "ecoli_string.c": ["C07", "C19", "C15"], "ecoli_strvec.c": ["C14", "C06", "C21"],
    "ecoli_vec.c": ["C15"], "ecoli_yaml.c": ["C18"],
}
RULES = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
    (r"\+\+", "--"), (r" \+ ", " - "), (r" - ", " + "), (r"!(?=[a-z(])", ""), (r"return 0;", "return -1;"), (r"return -1;", "return 0;"),
    (r"goto fail;", ";"), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"), (r"^(\t+)[a-z_>\-\.\[\]]+ [-+|&]?= [^;{]*;$", r"\1;"),
    (r"^(\t+)[a-z_]+\([^;]*\);$", r"\1;"), (r"EC_COMP_FULL", "EC_COMP_PARTIAL"), (r"NULL;", "(void *)1;"), (r"^(\t+)(if|while) \((.*)\)( \{)?$", r"\1\2 (0 && (\3))\4"),
    (r"^(\t+)if \((.*)\)( \{)?$", r"\1if (1 || (\2))\3"),
]


def sh(cmd, **k):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
    except subprocess.TimeoutExpired:
        return None


def candidates():
    out = []
    for f in sorted(glob.glob("/repo/src/*.c")):
        b = os.path.basename(f)
        if b not in MAP or not fnmatch.fnmatch(b, PAT):
            continue
        excl = False
        for i, l in enumerate(open(f).read().split("\n")):
            if "LCOV_EXCL_START" in l:
                excl = True
            if "LCOV_EXCL_STOP" in l:
                excl = False
            t = l.strip()
            if excl or t.startswith(("*", "/*", "//", "#", "EC_LOG", "\"", "struct", "assert", "ec_assert")) or not l.startswith("\t") or "dump" in l or "_print" in l:
                continue
            for k, (a, bb) in enumerate(RULES):
                for m in re.finditer(a, l):
                    n = l[:m.start()] + re.sub(a, bb, m.group(0)) + l[m.end():] if not a.startswith("^") else re.sub(a, bb, l)
                    if n != l:
                        out.append((b, i, l, n))
    return out


r = random.Random(SEED)
cs = candidates()
r.shuffle(cs)
# the same number from each file, more or less
by = {}
for c in cs:
    by.setdefault(c[0], []).append(c)
order = []
while any(by.values()):
    for b in sorted(by):
        if by[b]:
            order.append(by[b].pop())
if PAT == "*":
    r.shuffle(order)
sh("rm -rf %s; cp -a /repo %s" % (WT, WT))
for s in ("build.sh", "test.sh"):
    t = open("/opt/vp/" + s).read().replace("/repo", WT).replace("/opt/vp/build.sh", WT + "/.b_build.sh")
    open(WT + "/.b_" + s, "w").write(t)
sh("rm -rf %s/_build; bash %s/.b_build.sh" % (WT, WT))
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
n = caught = 0
for b, i, l, new in order:
    if n >= COUNT:
        break
    p = WT + "/src/" + b
    text = open(p).read()
    ls = text.split("\n")
    ls[i] = new
    open(p, "w").write("\n".join(ls))
    try:
        x = sh("bash %s/.b_build.sh" % WT, timeout=100)
        if x is None or x.returncode != 0:
            continue
        sh("rm -f %s/.t.json" % WT)
        x = sh("timeout 60 bash %s/.b_test.sh %s/.t.json" % (WT, WT), timeout=100)
        if x is None or not os.path.exists(WT + "/.t.json"):
            continue
        t = json.load(open(WT + "/.t.json"))
        if any(s not in t["passed"] for s in stable):
            continue
        n += 1
        e = dict(os.environ, ECV_REPO=WT, ECV_EVIDENCE="/tmp/ev.m%d" % SEED)
        hit = None
        for c in MAP[b]:
            x = sh("timeout 300 python3 %s/check.py %s" % (V, c), env=e)
            if x.returncode == 1 and "VIOLATION" in x.stdout:
                hit = c
                break
            if x.returncode not in (0, 1):
                hit = "rc%d" % x.returncode + c
        caught += hit is not None
        print("%s %s:%d\n    - %s\n    + %s" % ("caught by " + hit if hit else "SURVIVED", b, i + 1, l.strip(), new.strip()), flush=True)
    finally:
        open(p, "w").write(text)
print("%d of %d" % (caught, n))
sh("rm -rf %s" % WT)
