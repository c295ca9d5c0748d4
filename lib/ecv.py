"""Shared machinery of the checks: build, conformance driver, TLC, verdicts."""
import concurrent.futures, glob, hashlib, json, os, random, re, shutil
import signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ECV_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


# ---------------------------------------------------------------- strings
def hx(s):
    """word of the driver protocol for a string (latin-1), None for NULL"""
    if s is None:
        return "-"
    return "x" + s.encode("latin-1").hex()


# ---------------------------------------------------------------- build
CFLAGS = ["-g", "-O1", "-std=gnu99", "-D_GNU_SOURCE", "-fno-omit-frame-pointer",
          "-fsanitize=address", "-w"]


class Work:
    """scratch directory of a run, removed at the end"""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run.", dir=BUILD)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def _cc(job):
    src, obj, flags = job
    r = subprocess.run(["gcc"] + flags + ["-c", "-o", obj, src],
                       capture_output=True, text=True)
    return src, r.returncode, r.stderr


def build(work, name="drv", extra=(), ldextra=(), skip=(), harness=None):
    """compile the library from the working tree together with the driver"""
    odir = work.path(name + ".o")
    os.makedirs(odir)
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    if not srcs:
        raise CheckError("no source in %s/src" % REPO)
    hs = sorted(glob.glob(os.path.join(HARNESS, "*.c"))) if harness is None else harness
    flags = CFLAGS + list(extra) + ["-I" + os.path.join(REPO, "include"),
                                    "-I" + os.path.join(REPO, "src"), "-I" + HARNESS]
    jobs = []
    for s in srcs + hs:
        obj = os.path.join(odir, ("h_" if s in hs else "") + os.path.basename(s) + ".o")
        jobs.append((s, obj, flags))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for src, rc, err in ex.map(_cc, jobs):
            if rc != 0:
                raise CheckError("cannot compile %s:\n%s" % (src, err[-2000:]))
    exe = work.path(name)
    r = subprocess.run(["gcc", "-fsanitize=address", "-o", exe] + [j[1] for j in jobs]
                       + list(ldextra) + ["-ledit", "-lyaml"], capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("cannot link the driver:\n" + r.stderr[-2000:])
    return exe


# ---------------------------------------------------------------- driver
class Case:
    """id, driver lines, record for the judge; filled with the observations"""
    __slots__ = ("id", "lines", "rec", "obs", "leak", "crash", "tag", "skip")

    def __init__(self, lines, rec, tag=""):
        self.lines, self.rec, self.tag = lines, rec, tag
        self.obs, self.leak, self.crash, self.id, self.skip = [], None, None, None, False


DRV_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:"
                           "symbolize=1:handle_segv=1:detect_stack_use_after_return=0",
           "LC_ALL": "C", "TERM": "dumb", "HOME": "/nonexistent", "PATH": "/usr/bin:/bin"}


def _run_batch(exe, cases, cpu, cwd, slow):
    """run the cases in one driver process, restarting it after a crash.
    slow: the cases, of all the batches, that did not end"""
    todo = list(cases)
    crashes = 0
    while todo:
        if len(slow) >= 6:
            for c in todo:
                c.skip = True
            return
        by = {c.id: c for c in todo}
        text = "".join("C %d\n%s\nE\n" % (c.id, "\n".join(c.lines)) for c in todo)
        try:
            p = subprocess.run([exe, str(cpu)], input=text.encode("latin-1"), env=DRV_ENV,
                               capture_output=True, cwd=cwd, timeout=800)
        except subprocess.TimeoutExpired:
            raise CheckError("the driver exceeded its wall-clock limit")
        out, err, rc = p.stdout.decode("latin-1"), p.stderr.decode("latin-1", "replace"), p.returncode
        cur, done, exited = None, set(), False
        for line in out.split("\n"):
            if not line:
                continue
            try:
                o = json.loads(line)
            except ValueError:
                if rc == 0:
                    raise CheckError("bad driver output: %r" % line[:300])
                continue        # partial line of a crashed driver
            if "begin" in o:
                cur = by[o["begin"]]
                cur.obs, cur.leak, cur.crash = [], None, None
            elif "end" in o:
                cur.leak = o["leak"]
                done.add(cur.id)
                cur = None
            elif "exit" in o:
                exited = True
            elif cur is not None:
                cur.obs.append(o)
        if rc == 0 and exited and len(done) == len(todo):
            return
        if rc in (3, 4):
            raise CheckError("driver failure %d: %s" % (rc, err[-500:]))
        crashes += 1
        # crash: the case in progress is responsible
        if cur is None:
            # crashed outside of a case (between cases or at exit)
            last = todo[len(done) - 1] if done else todo[0]
            last.crash = {"rc": rc, "err": "outside of a case: " + summarize(err)}
            todo = [c for c in todo if c.id not in done and c is not last]
        else:
            cur.crash = {"rc": rc, "err": summarize(err)}
            todo = [c for c in todo if c.id not in done and c is not cur]
        if "TIMEOUT" in err:
            slow.append(cur)
        if crashes >= 12 or len(slow) >= 6:       # enough to tell
            for c in todo:
                c.skip = True
            return


def summarize(err):
    keep = [l for l in err.split("\n") if re.search(
        r"ERROR: AddressSanitizer|SUMMARY|TIMEOUT|RUNAWAY|BROKEN|[Aa]ssert|^\s+#[0-9] ", l)]
    return "\n".join(keep[:14]) or err[-600:]


def run_driver(exe, cases, work, cpu=10, batches=None):
    for i, c in enumerate(cases):
        c.id = i + 1
    n = batches or NCPU * 2
    chunks = [cases[i::n] for i in range(n) if cases[i::n]]
    cwd = work.path("cwd")
    os.makedirs(cwd, exist_ok=True)
    slow = []
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(_run_batch, exe, ch, cpu, cwd, slow) for ch in chunks]:
            f.result()


# ---------------------------------------------------------------- TLC
TLC_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(work, module, cfg=None, env=None, workers=None, args=(), timeout=840, heap="12g",
        spec_dir=SPEC):
    """run TLC on a module; returns (stdout, generated, distinct)"""
    e = dict(os.environ)
    e.update(env or {})
    for attempt in range(3):
        meta = tempfile.mkdtemp(prefix="tlc.", dir=work.dir)
        os.mkdir(meta + "/tmp")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + meta + "/tmp", "-cp", JARS,
               "tlc2.TLC", "-workers", str(workers or NCPU), "-metadir", meta, "-noGenerateSpecTE",
               "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=spec_dir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC exceeded %d s on %s" % (timeout, module))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        # the tool itself failed (its modules could not be loaded, the JVM did not start): once more
        if "Starting..." in out:
            break
        time.sleep(1 + 2 * attempt)
    m = TLC_STATS.findall(out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return p.returncode, out if "Starting..." in out else out + p.stderr, gen, dist


def printed(out, prefix):
    """lines printed by PrintT("<prefix> <json>")"""
    res = []
    for line in out.split("\n"):
        if line.startswith('"' + prefix + " "):
            body = json.loads(line) if line.endswith('"') else None
            if body is None:
                continue
            res.append(body[len(prefix) + 1:])
    return res


def evidence_dir():
    d = os.environ.get("ECV_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    return d


def judge(work, module, cases, cfg=None, timeout=840, extra_env=None, steps=None):
    """check the recorded cases against the specification; list of rejections.
    steps(case): number of states of the case (1 if not given)"""
    recs = []
    for c in cases:
        r = dict(c.rec)
        r["id"] = c.id
        r["o"] = c.obs
        recs.append(r)
    if not recs:
        return [], 0, 0
    path = work.path("obs.%s.%d.ndjson" % (module, len(os.listdir(work.dir))))
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    env = {"OBS": path}
    env.update(extra_env or {})
    rc, out, gen, dist = tlc(work, module, cfg, env=env, timeout=timeout)
    os.unlink(path)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise CheckError("TLC failed on %s (rc=%d):\n%s" % (module, rc, tail(out)))
    want = len(recs) if steps is None else sum(steps(c) for c in cases)
    if dist != want:
        raise CheckError("%s judged %d states instead of %d" % (module, dist, want))
    bad = [json.loads(b) for b in printed(out, "BAD")]
    seen, uniq = set(), []
    for b in bad:
        k = b["id"]
        if k not in seen:
            seen.add(k)
            uniq.append(b)
    return uniq, gen, dist


def tail(out, n=4000):
    i = out.find("*** Errors:")
    if i < 0:
        i = out.find("Error:")
    if i >= 0:
        return out[i:i + n]
    return out[-n:]


def model_check(work, module, cfg=None, timeout=840, args=(), workers=None, env=None):
    """exhaustive exploration of a design; returns (generated, distinct, out)"""
    rc, out, gen, dist = tlc(work, module, cfg, timeout=timeout, args=args, workers=workers, env=env)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise CheckError("model checking of %s failed (rc=%d):\n%s" % (module, rc, tail(out)))
    return gen, dist, out
