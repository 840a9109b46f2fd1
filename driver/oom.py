"""C23: every allocation of a buffer fails in turn, each in a process of its own. How does it end?"""
import re, resource, signal, subprocess
from concurrent.futures import ThreadPoolExecutor

from . import build
from .build import Inconclusive

SCENARIOS = ["with_capacity", "with_capacity_unchecked", "reserve", "push", "shrink", "serialize_mega", "serialize_vecs", "serialize_json", "serialize_bigs"]
HANDLER = re.compile(r"memory allocation of (\d+) bytes failed")


def no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def one(exe, env, cwd, scenario, k, strategy):
    try:
        p = subprocess.run([exe, "--scenario", scenario, "--k", str(k), "--strategy", str(strategy)], env=env, cwd=cwd,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, preexec_fn=no_core)
    except subprocess.TimeoutExpired:
        raise Inconclusive("oom %s k=%d did not end within 120 s" % (scenario, k))
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")


def how(rc):
    return "killed by %s" % signal.Signals(-rc).name if rc < 0 else "exit status %d" % rc


def oom(ctx):
    flavs = ["dbg", "rel0"] + (["rel"] if ctx.tier == "thorough" else [])
    strategies = [0, 1, 2, 3] if ctx.tier == "thorough" else [0, 1]
    for flav in flavs:
        exe, env = build.cargo(flav, ["oom"])["oom"]
        cwd = ctx.scratch("oom", "x").rsplit("/", 1)[0]
        jobs = []
        for sc in SCENARIOS:
            for st in strategies:
                rc, out, err = one(exe, env, cwd, sc, 1000000, st)
                m = re.search(r"DONE allocations=(\d+) injected=0", out)
                if rc != 0 or not m:
                    # Whatever it is, it's not about allocation failure
                    raise Inconclusive("scenario %s does not run without failures: %s: %s" % (sc, how(rc), err[-500:]))
                jobs += [(sc, k, st) for k in range(int(m.group(1)))]
        jobs += [("capacity", k, 0) for k in range(7)]
        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(lambda j: one(exe, env, cwd, *j), jobs))
        for (sc, k, st), (rc, out, err) in zip(jobs, results):
            ctx.evaluations += 1
            where = "%s: allocation %d of storage buffer failed (%s, realloc strategy %d)" % (flav, k, sc, st)
            if rc == -signal.SIGABRT and HANDLER.search(err):
                ctx.count("allocation_failures_handled", 1)
                ctx.count("allocation_failures_" + sc, 1)
                ctx.sigs.add(hash_of("%s %s %d" % (sc, HANDLER.search(err).group(1), k)))
                continue
            if rc == -signal.SIGKILL:
                raise Inconclusive(where + ": process was killed")
            if rc == 0 and "injected=0" in out:
                raise Inconclusive(where + ": not as many allocations as before")
            ctx.violate("%s, but process did not end by the allocation-failure handler: %s; %s%s" % (where, how(rc), out[-300:], err[-700:]),
                        {"name": "oom-%s-%s-%d-%d" % (flav, sc, k, st), "func": "oom", "scenario": sc, "k": k, "strategy": st})


def hash_of(s):
    import hashlib
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:7], "big")
