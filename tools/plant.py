#!/usr/bin/env python3
"""plant.py SPEC.py...: make planted bugs in a scratch copy of /repo and keep the valid ones in seeded/.

A SPEC file calls plant(id, property, edits, demo, needs, breaks); edits: [(file, old, new)].
plant.py --run ID...: run the checks of the kept bugs against them (scratch copy)."""
import glob, json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt%s" % os.environ.get("WT", "")
DEMO = '''#!/bin/bash
# run in the root of the built repository
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
gcc -std=gnu99 -g -w -fsanitize=address -Iinclude -Isrc -o "$tmp/demo" "$here/demo.c" -L_build -lecoli %s || exit 3
cd_repo=$PWD
cd "$tmp"
ASAN_OPTIONS=detect_leaks=0 LD_LIBRARY_PATH="$cd_repo/_build" timeout 60 ./demo > out 2>&1 < /dev/null
rc=$?
tail -5 out
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def fresh():
    if not os.path.exists(WT):
        sh("cp -a /repo %s" % WT)
        for s in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + s).read().replace("/repo", WT).replace("/opt/vp/build.sh", WT + "/.b_build.sh")
            open(WT + "/.b_" + s, "w").write(t)
        sh("rm -rf %s/_build" % WT)
    sh("git -C %s checkout -q -- ." % WT)
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (WT, WT))


def build():
    r = sh("bash %s/.b_build.sh" % WT)
    return r.returncode == 0, r.stdout[-600:] + r.stderr[-600:]


def plant(id, prop, edits, demo, needs, breaks, libs="", keep_demo=None):
    fresh()
    d = os.path.join(V, "seeded", id)
    tmp = "/tmp/plant.%s" % id
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/demo.c", "w").write(demo)
    open(tmp + "/demo.sh", "w").write(DEMO % libs)
    os.chmod(tmp + "/demo.sh", 0o755)
    ok, out = build()
    if not ok:
        return print(id, "clean tree does not build", out)
    r = sh("bash %s/demo.sh" % tmp, cwd=WT)
    if r.returncode != 0:
        return print(id, "REJECTED: demo fails on the clean tree:", r.returncode, r.stdout[-800:], r.stderr[-800:])
    for f, a, b in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(a) != 1:
            return print(id, "REJECTED: %d occurrences in %s of %r" % (s.count(a), f, a))
        open(p, "w").write(s.replace(a, b))
    diff = sh("git -C %s diff" % WT).stdout
    for f in {e[0] for e in edits}:
        base = set(sh("git -C /repo show 2904a34:%s" % f).stdout.split("\n"))
        for l in sh("git -C %s diff %s" % (WT, f)).stdout.split("\n"):
            if l.startswith("-") and not l.startswith("---") and l[1:] not in base:
                print(id, "WARNING: not an original line:", l)
    ok, out = build()
    if not ok:
        return print(id, "REJECTED: does not build", out)
    sh("bash %s/.b_test.sh %s/t.json" % (WT, tmp))
    t = json.load(open(tmp + "/t.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base["stable"]
    missing = [x for x in stable if x not in t["passed"]]
    if missing:
        return print(id, "REJECTED: tests fail:", missing)
    r = sh("bash %s/demo.sh" % tmp, cwd=WT)
    if r.returncode == 0:
        return print(id, "REJECTED: demo passes with the bug", r.stdout[-500:])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in ("demo.c", "demo.sh"):
        shutil.copy(os.path.join(tmp, f), d)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)
    print(id, "kept (demo rc %d)" % r.returncode, end=" ", flush=True)
    run(id, applied=True)


def run(id, applied=False, tier="quick"):
    d = os.path.join(V, "seeded", id)
    meta = json.load(open(d + "/meta.json"))
    if not applied:
        fresh()
        r = sh("git -C %s apply %s/patch.diff" % (WT, d))
        if r.returncode != 0:
            return print(id, "patch does not apply", r.stderr)
    e = dict(os.environ, ECV_REPO=WT, ECV_EVIDENCE="/tmp/ev.%s" % os.path.basename(WT))
    r = sh("python3 %s/check.py %s %s" % (V, meta["property"], tier), env=e)
    caught = r.returncode == 1 and "VIOLATION property=%s " % meta["property"] in r.stdout
    last = r.stdout.strip().split("\n")[-1] if r.stdout.strip() else r.stderr[-300:]
    print(id, meta["property"], "CAUGHT" if caught else "MISSED rc=%d" % r.returncode, last, flush=True)


if sys.argv[1] == "--run":
    ids = sys.argv[2:] or sorted(os.path.basename(x) for x in glob.glob(V + "/seeded/*"))
    for i in ids:
        run(i)
else:
    for f in sys.argv[1:]:
        exec(open(f).read())
sh("rm -rf %s" % WT)
