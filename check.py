#!/usr/bin/env python3
"""Driver: check.py <ID> [--replay FILE]

Builds the harness against /repo's working tree, runs the workers of a check, judges their
reports, writes /verif/evidence/<ID>.json, and prints the verdict.

exit 0: held on everything explored. exit 1: `VIOLATION property=<ID> replay=<path>`.
exit 2: no answer (build failure, timeout which does not repeat, killed worker, harness error).
"""
import json, os, re, resource, signal, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from driver import checks, build
from driver.build import BuildFailed, Inconclusive

WORKERS = 8


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.replay = replay


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.evaluations = 0
        self.sigs = set()
        self.distinct_extra = 0
        self.counters = {}
        self.samples = []
        self.stages = []
        self.notes = []

    def scratch(self, *parts):
        p = os.path.join(VERIF, "target", "run", self.pid, *parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def count(self, k, n):
        if k.startswith("max:"):
            self.counters[k] = max(self.counters.get(k, 0), n)
        else:
            self.counters[k] = self.counters.get(k, 0) + n

    def absorb(self, rep):
        self.evaluations += rep["evaluations"]
        self.sigs.update(rep["sigs"])
        for k, n in rep["counters"].items():
            self.count(k, n)
        for s in rep["samples"]:
            if len(self.samples) < 6:
                self.samples.append(s)

    def violate(self, msg, replay):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.pid, replay.get("name", "x")))
        replay = dict(replay, property=self.pid, tier=self.tier, seed=self.seed, message=msg)
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
            f.write("\n")
        raise Violation(msg, path)


# Checks which a sanitizer's report counts for
HEAP = re.compile(r"free\(\)|malloc|realloc|corrupted|unsorted|tcache|munmap_chunk")
SANITIZED = {"C01", "C10", "C19", "C20", "C23", "C26"}
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}


def tail(s, n=60):
    return "\n".join(s.strip().splitlines()[-n:])


def much_stack():
    """Main thread can have this much stack, for values nested very deep. Workers lower the limit, until they need it."""
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    most = 900 << 20
    resource.setrlimit(resource.RLIMIT_STACK, (most if hard == resource.RLIM_INFINITY else min(most, hard), hard))


def run_worker(ctx, st, exe, env, seed, w, workers, cases, secs, only=None, limit=None):
    """Run 1 worker. Returns (status, report, stderr, case)"""
    tag = "%s-%d" % (st["name"], w)
    out, prog, err = (ctx.scratch(tag + e) for e in (".json", ".progress", ".err"))
    for p in (out, prog):
        if os.path.exists(p):
            os.unlink(p)
    cmd = [exe, "--check", st.get("check", ctx.pid), "--seed", str(seed), "--worker", str(w), "--workers", str(workers),
           "--cases", str(cases), "--secs", str(secs), "--out", out, "--progress", prog, "--tier", ctx.tier]
    for k, v in st.get("args", {}).items():
        cmd += ["--" + k, str(v)]
    if only is not None:
        cmd += ["--only", str(only)]
    with open(err, "wb") as e:
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=e, cwd=ctx.scratch(""), preexec_fn=much_stack)
        try:
            rc = p.wait(timeout=limit or secs + 150)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
    with open(err, errors="replace") as e:
        stderr = e.read()
    try:
        case = int(open(prog).read().split()[0])
    except Exception:
        case = None
    rep = None
    if rc in (0, 10) and os.path.exists(out):
        rep = json.load(open(out))
    return rc, rep, stderr, case


def judge(ctx, st, exe, env, seed, w, cases, res):
    rc, rep, stderr, case = res
    name = "%s-s%d" % (st["name"], seed)
    base = {"stage": st["name"], "worker_seed": seed, "exe": os.path.basename(exe), "flavour": st["flav"]}
    if rc == 0 and rep:
        ctx.absorb(rep)
        return
    if rc == 10 and rep:
        v = rep["violation"]
        ctx.violate(v["message"], dict(base, name="%s-c%d" % (name, v["case"]), case=v["case"]))
    if rc is None:
        # Worker did not finish. Does it hang, if case is run alone?
        if case is None:
            raise Inconclusive("worker of %s did not start within time" % st["name"])
        rc2, rep2, err2, _ = run_worker(ctx, st, exe, env, seed, w, WORKERS, cases, 60, only=case, limit=90)
        if rc2 is None and ctx.pid != "C10":
            ctx.violate("does not terminate: case %d still running after 90 s" % case, dict(base, name="%s-c%d" % (name, case), case=case))
        raise Inconclusive("worker of %s ran out of time at case %s, but the case alone finishes" % (st["name"], case))
    sanitizer = "ERROR: AddressSanitizer" in stderr or "WARNING: ThreadSanitizer" in stderr
    crashed = rc < 0 and -rc in CRASH
    if ctx.pid == "C10":
        # Abort is not undefined behaviour, save where monitors of memory cause it
        crashed = crashed and not (-rc == signal.SIGABRT and not HEAP.search(stderr))
    if sanitizer and ctx.pid not in SANITIZED:
        raise Inconclusive("worker of %s: sanitizer report, which this check does not judge: %s" % (st["name"], tail(stderr, 20)))
    if crashed or sanitizer:
        what = "process killed by %s" % signal.Signals(-rc).name if rc < 0 else "sanitizer report"
        ctx.violate("%s in case %s: %s" % (what, case, tail(stderr, 40)[:4000]), dict(base, name="%s-c%s" % (name, case), case=case))
    raise Inconclusive("worker of %s ended with status %s: %s" % (st["name"], rc, tail(stderr)))


def run_bins(ctx, stages, replay=None):
    """Build what all stages need, then run their workers"""
    flavs = {}
    for st in stages:
        if "gen" not in st:
            flavs.setdefault(st["flav"], set()).add(st["bin"])
    t = time.time()
    with ThreadPoolExecutor(max(1, len(flavs))) as ex:
        futs = {f: ex.submit(build.cargo, f, sorted(b)) for f, b in flavs.items()}
        built = {f: fut.result() for f, fut in futs.items()}
    ctx.counters["build_s"] = round(time.time() - t, 1)

    def binary(st):
        if "gen" not in st:
            return built[st["flav"]][st["bin"]]
        # Source is generated, and differs between stages, so built only when needed
        t = time.time()
        ctx.count("generated_definitions", st["types"])
        b = build.cargo(st["flav"], [st["bin"]], (ctx.seed * 100 + st["gen"], st["types"]))[st["bin"]]
        ctx.count("build_s", round(time.time() - t, 1))
        return b

    if replay and "stage" not in replay:
        # Did not build
        for st in stages:
            binary(st)
        return
    if replay:
        st = next(s for s in stages if s["name"] == replay["stage"])
        exe, env = binary(st)
        res = run_worker(ctx, st, exe, env, replay["worker_seed"], 0, 1, 0, 600, only=replay["case"], limit=600)
        sys.stderr.write(res[2])
        judge(ctx, st, exe, env, replay["worker_seed"], 0, 0, res)
        return
    for i, st in enumerate(stages):
        t = time.time()
        cases, secs = st[ctx.tier]
        exe, env = binary(st)
        seed = ctx.seed * 1000 + st.get("seed_offset", i)
        n = st.get("workers", WORKERS)
        before = ctx.evaluations
        with ThreadPoolExecutor(n) as ex:
            futs = [ex.submit(run_worker, ctx, st, exe, env, seed, w, n, cases, secs) for w in range(n)]
            results = [f.result() for f in futs]
        # Lowest case which fails first, so the verdict does not depend on timing
        order = sorted(range(n), key=lambda w: (results[w][0] == 0, results[w][3] or 0))
        for w in order:
            judge(ctx, st, exe, env, seed, w, cases, results[w])
        ctx.stages.append({"stage": st["name"], "flavour": st["flav"], "seed": seed, "evaluations": ctx.evaluations - before,
                           "wall_s": round(time.time() - t, 1)})


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % pid):
                out.append(line[len("finding: "):].strip())
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        tier, seed = replay["tier"], replay["seed"]
    c = checks.CHECKS[pid]
    ctx = Ctx(pid, tier, seed)
    start = time.time()
    status, violations = 0, 0
    try:
        stages = [s for s in c.get("bins", []) if s[tier][0] > 0]
        if stages and not (replay and "func" in replay):
            try:
                run_bins(ctx, stages, replay)
            except BuildFailed as e:
                # What must compile, and is the business of this check
                for err in e.errors:
                    if "build_error" in c and re.search(c["build_error"], err):
                        ctx.violate("does not compile: " + err.strip()[:3000], {"name": "build"})
                raise
        for func in c.get("funcs", []):
            if not replay or replay.get("func") == func.__name__:
                t = time.time()
                func(ctx)
                ctx.stages.append({"stage": func.__name__, "wall_s": round(time.time() - t, 1)})
        for k, least in c.get("floors", {}).items():
            if not replay and ctx.counters.get(k, 0) < least:
                raise Inconclusive("monitor saw too little: %s = %s, expected at least %s" % (k, ctx.counters.get(k, 0), least))
    except Violation as v:
        print("%s: %s" % (pid, str(v)[:6000]))
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        status, violations = 1, 1
    except Inconclusive as e:
        print("%s: INCONCLUSIVE: %s" % (pid, e))
        status = 2
    except Exception:
        traceback.print_exc()
        print("%s: INCONCLUSIVE: error in driver" % pid)
        status = 2
    wall = time.time() - start
    distinct = len(ctx.sigs) + ctx.distinct_extra
    if not replay and status != 2:
        cov = {
            "evaluations": ctx.evaluations,
            "distinct_nontrivial": distinct,
            "rule": c["rule"],
            "samples": ctx.samples or ["(none: stopped at first violation)"],
            "observed": ctx.counters,
            "stages": ctx.stages,
        }
        if ctx.notes:
            cov["notes"] = ctx.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov,
                       "assumptions": c.get("assumptions", checks.ASSUMPTIONS), "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
            f.write("\n")
    if status == 0:
        for line in known_findings(pid):
            print("KNOWN-FINDING: " + line)
        print("%s: held on %d evaluations (%d distinct non-trivial), %.0f s" % (pid, ctx.evaluations, distinct, wall))
    sys.exit(status)


main()
