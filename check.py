#!/usr/bin/env python3
"""check.py ID            decide one property (VERIF_TIER, VERIF_SEED)
   check.py --replay FILE re-run the case of a replay file
   check.py --build       build all monitors once (used as setup_cmd)

Builds the monitored binaries from /repo's working tree in a scratch directory,
runs the workloads of the property, reads the event streams of the monitors and
writes evidence/<ID>.json. Exit 0: held; 1: VIOLATION line; 2: the check failed."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, queue

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS, BINS          # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
NPROC = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()


class BuildError(Exception):
    pass


# ------------------------------------------------------------------- build
def build(names, scratch):
    """compile the wanted binaries, in parallel"""
    inc = os.path.join(scratch, "inc")
    os.makedirs(inc, exist_ok=True)
    with open(os.path.join(inc, "TQMeshConfig.h"), "w") as f:
        f.write('#pragma once\n#include <string>\n#define TQMESH_VERSION_MAJOR 1\n#define TQMESH_VERSION_MINOR 3\n'
                '#define TQMESH_SOURCE_DIR "%s"\n' % scratch)
    errs = []
    objs = {}                   # (source, compiler) -> object; shared between binaries

    def cmd(cc):
        return (["/usr/bin/env"] + cc.split() + ["-w", "-I" + inc] +
                ["-I%s/src/%s" % (REPO, d) for d in ("utils", "algorithm", "extern_libs", "app")] +
                ["-I" + os.path.join(HERE, "harness")])

    def sources(n):
        return [(s, BINS[n]["cc"]) if isinstance(s, str) else s for s in BINS[n]["src"]]

    for n in names:
        for k in sources(n):
            objs.setdefault(k, os.path.join(scratch, "o%d.o" % len(objs)))

    def run(c):
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            errs.append(r.stdout.decode(errors="replace")[-3000:])

    def compile_one(k):
        run(cmd(k[1]) + ["-c", k[0].replace("@REPO", REPO).replace("@H", os.path.join(HERE, "harness")), "-o", objs[k]])

    ths = [threading.Thread(target=compile_one, args=(k,)) for k in objs]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise BuildError("\n".join(errs))

    def one(n):
        run(["/usr/bin/env"] + BINS[n]["cc"].split() + [objs[k] for k in sources(n)] + BINS[n].get("link", "").split() + ["-o", os.path.join(scratch, n)])

    ths = [threading.Thread(target=one, args=(n,)) for n in names]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise BuildError("\n".join(errs))


def env_for(scratch, i):
    e = dict(os.environ)
    t = os.path.join(scratch, "w%d" % i)
    os.makedirs(t, exist_ok=True)
    e["TQH_TMP"] = t
    e["TQH_REPO"] = REPO
    e["TQH_BIN"] = scratch
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["LC_ALL"] = "C"
    return e


def command(scratch, binary, args):
    b = BINS[binary]
    exe = os.path.join(scratch, b.get("exe", binary))
    return b.get("wrap", "").split() + [exe] + args


# -------------------------------------------------------------------- runs
class Case:
    __slots__ = ("job", "k", "desc", "steps", "viol", "ev", "st", "sig", "end", "err", "exc", "done")

    def __init__(self, job, k):
        self.job, self.k = job, k
        self.desc = ""
        self.steps, self.viol, self.err = [], [], []
        self.ev, self.st = {}, {}
        self.sig = self.end = self.exc = None
        self.done = False


class Runner:
    def __init__(self, prop, scratch, seed, limit):
        self.prop, self.scratch, self.seed = prop, scratch, seed
        self.limit = limit                      # wall time at which no new chunk starts
        self.q = queue.Queue()
        self.lock = threading.Lock()
        self.bad = []                           # offending cases
        self.n = 0
        self.ev = {}
        self.st = {}
        self.sigs = set()
        self.samples = []
        self.perjob = {}
        self.trouble = []
        self.stop = False

    def take(self, c):
        P = self.prop
        prob = None
        mine = [v for v in c.viol if v[0] == P]
        if mine:
            prob = mine[0]
        elif c.exc is not None and PROPS[P].get("crash", True):
            prob = (P, "exception", c.exc)
        elif not c.done and PROPS[P].get("crash", True):
            what = {"sig24": "hang (CPU limit)", "sig9": "hang (CPU limit)"}.get(c.end, "abnormal end " + str(c.end))
            key = "hang" if c.end in ("sig24", "sig9") else "crash"
            prob = (P, key, what + " after: " + (c.steps[-1] if c.steps else "-") + " | " + " ".join(c.err)[:900])
        with self.lock:
            self.n += 1
            j = self.perjob.setdefault("%s/%s" % (c.job["bin"], c.job["profile"]), 0)
            self.perjob["%s/%s" % (c.job["bin"], c.job["profile"])] = j + 1
            for a, b in ((self.ev, c.ev), (self.st, c.st)):
                for k, v in b.items():
                    a[k] = a.get(k, 0) + v
            weight = c.ev.get(P, 0) if not PROPS[P].get("any_event") else sum(c.ev.values())
            if weight > 0 and c.sig:
                self.sigs.add((c.job["profile"], c.sig))
            if len(self.samples) < 4 and weight > 0 and (self.n % 7 == 1 or len(self.samples) == 0):
                self.samples.append({"profile": c.job["profile"], "seed": self.seed, "case": c.k, "input": c.desc,
                                     "steps": c.steps[:12], "oracle_evaluations": c.ev, "observed": c.st})
            if prob:
                self.bad.append((c, prob))
                if len(self.bad) >= 6:
                    self.stop = True

    def chunk(self, wid, job, a, b, factor=1):
        e = env_for(self.scratch, wid)
        e["TQH_CPU"] = str(factor * job.get("cpu", BINS[job["bin"]].get("cpu", 40)))
        cmd = command(self.scratch, job["bin"], [job["profile"], str(self.seed), str(a), str(b)])
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=e["TQH_TMP"])
        hard = threading.Timer(max(20, self.limit + 240 - time.time()), p.kill)
        hard.start()
        errbuf = []
        th = threading.Thread(target=lambda: errbuf.append(p.stderr.read()))
        th.start()
        c = None
        killed = False
        again = []
        for raw in p.stdout:
            f = raw.decode(errors="replace").rstrip("\n").split("\t")
            t = f[0]
            if t == "CASE":
                c = Case(job, int(f[1]))
            elif c is None:
                continue
            elif t == "DESC":
                c.desc = "\t".join(f[1:])
            elif t == "STEP":
                c.steps.append(f[1])
            elif t == "VIOL":
                c.viol.append((f[1], f[2], f[3] if len(f) > 3 else ""))
            elif t == "EV":
                c.ev[f[1]] = c.ev.get(f[1], 0) + int(f[2])
            elif t == "ST":
                c.st[f[1]] = c.st.get(f[1], 0) + int(f[2])
            elif t == "SIG":
                c.sig = f[1]
            elif t == "ERR":
                c.err.append(f[1])
            elif t == "EXC":
                c.exc = f[1] if len(f) > 1 else "?"
            elif t == "DONE":
                c.done = True
            elif t == "END":
                c.end = f[2]
                if not c.done and c.end != "rc0" and any(x == "ERRFOLLOWS" for x in f[3:]):
                    pass
                pend = c
                # ERR lines precede END
                if factor == 1 and pend.end in ("sig24", "sig9") and not pend.viol:
                    again.append(pend.k)        # slow machine or a hang: decide with more time
                else:
                    self.take(pend)
                c = None
                if self.stop:
                    killed = True
                    p.kill()
                    break
        p.wait()
        th.join(5)
        hard.cancel()
        if p.returncode != 0 and not killed:
            with self.lock:
                self.trouble.append("%s %s %d-%d ended with %s: %s" % (job["bin"], job["profile"], a, b, p.returncode,
                                    (errbuf[0] if errbuf else b"").decode(errors="replace")[-400:]))
        for k in again[:3]:
            if not self.stop:
                self.chunk(wid, job, k, k + 1, 3)

    def run(self):
        jobs = PROPS[self.prop]["jobs"]
        lists = []
        for j in jobs:
            n = j["n"] if TIER == "quick" else j.get("N", j["n"] * 20)
            sz = j.get("chunk", max(1, min(100, n // NPROC or 1)))
            lists.append([(j, a, min(n, a + sz)) for a in range(0, n, sz)])
        # interleave the profiles
        while any(lists):
            for x in lists:
                if x:
                    self.q.put(x.pop(0))
        started = set()

        def work(w):
            while not self.stop:
                try:
                    j, a, b = self.q.get_nowait()
                except queue.Empty:
                    return
                key = (j["bin"], j["profile"])
                if time.time() > self.limit and key in started:
                    with self.lock:
                        self.st["chunks-skipped-for-time"] = self.st.get("chunks-skipped-for-time", 0) + 1
                    continue
                started.add(key)
                self.chunk(w, j, a, b)
        ths = [threading.Thread(target=work, args=(w,)) for w in range(NPROC)]
        [t.start() for t in ths]
        [t.join() for t in ths]


def known():
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) profile=(\S+) key=(\S+) match=/(.*)/ (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    if sys.argv[1] == "--build":
        scratch = tempfile.mkdtemp(prefix="tqv.")
        try:
            build(sorted({b for b in BINS if "src" in BINS[b]}), scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        scratch = tempfile.mkdtemp(prefix="tqv.")
        try:
            need = {r["binary"]}
            need |= set(BINS[r["binary"]].get("needs", []))
            build(sorted({BINS[n].get("exe", n) for n in need}), scratch)
            e = env_for(scratch, 0)
            return subprocess.run(command(scratch, r["binary"], [r["profile"], str(r["seed"]), str(r["case"]), str(r["case"] + 1)]), env=e, cwd=e["TQH_TMP"]).returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    prop = sys.argv[1]
    if prop not in PROPS:
        print("unknown property", prop)
        return 2
    spec = PROPS[prop]
    budget = spec.get("budget", 100) if TIER == "quick" else spec.get("Budget", 2400)
    scratch = tempfile.mkdtemp(prefix="tqv.")
    try:
        need = set()
        for j in spec["jobs"]:
            b = BINS[j["bin"]]
            need.add(b.get("exe", j["bin"]))
            need |= set(b.get("needs", []))
        try:
            build(sorted(need), scratch)
        except BuildError as ex:
            print("CHECK-ERROR: the monitored binaries do not build\n" + str(ex))
            return 2
        tb = time.time() - T0
        R = Runner(prop, scratch, SEED, time.time() + budget)
        R.run()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    fresh, seen = [], set()
    kf = known()
    for c, (p, key, msg) in R.bad:
        hit = [k for k in kf if k[0] == prop and k[1] == c.job["profile"] and k[2] == key and re.search(k[3], msg)]
        if hit:
            if hit[0] not in seen:
                seen.add(hit[0])
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][4]))
        else:
            fresh.append((c, key, msg))
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": R.n,
            "distinct_nontrivial": len(R.sigs),
            "rule": spec["rule"],
            "samples": R.samples,
            "oracle_evaluations": R.ev.get(prop, 0) if not spec.get("any_event") else sum(R.ev.values()),
            "executions_per_workload": R.perjob,
            "observed": {k: v for k, v in sorted(R.st.items())},
            "build_s": round(tb, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        for n, (c, key, msg) in enumerate(fresh[:6]):
            path = os.path.join(HERE, "evidence", "replay", "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump({"property": prop, "binary": c.job["bin"], "profile": c.job["profile"], "seed": SEED, "case": c.k,
                           "key": key, "message": msg, "input": c.desc, "steps": c.steps, "stderr": c.err,
                           "all_violations": c.viol[:40],
                           "rerun": "python3 check.py --replay " + path}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s/%s case %d [%s] %s" % (c.job["bin"], c.job["profile"], c.k, key, msg[:600]))
        return 1
    if R.trouble:
        print("CHECK-ERROR: " + "; ".join(R.trouble[:3]))
        return 2
    if R.n == 0 or (R.ev.get(prop, 0) == 0 and not spec.get("any_event")):
        print("CHECK-ERROR: nothing was observed")
        return 2
    print("OK property=%s: %d executions, %d oracle evaluations, %d distinct, %.0f s" %
          (prop, R.n, ev["coverage"]["oracle_evaluations"], len(R.sigs), time.time() - T0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as ex:     # never let an error of the check look like a verdict
        print("CHECK-ERROR: %r" % (ex,))
        sys.exit(2)
