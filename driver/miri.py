"""Workloads interpreted by Miri, which sees every kind of undefined behaviour (C10), and has other targets: 32-bit and big-endian."""
import json, os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

from . import build
from .build import Inconclusive

# Number of processes of each workload, and time limit, for C10
WORK = {
    "quick": {"e2e": 3, "store": 1, "ub": 1, "sess": 1, "derser": 1, "fault": 1},
    "thorough": {"e2e": 3, "store": 1, "ub": 1, "sess": 1, "derser": 1, "fault": 1, "mon": 1, "pos": 1, "threads": 1},
}
SECONDS = {"quick": 90, "thorough": 900}
# On a 32-bit target
WORK32 = {"ub": 4, "store": 2, "e2e": 2}
BINS = sorted(WORK["thorough"]) + ["util"]
I686 = "i686-unknown-linux-gnu"
S390X = "s390x-unknown-linux-gnu"
PATCH = {"num-bigint": "0.4.3", "num-integer": "0.1.45"}
UB = re.compile(r"error: (Undefined Behavior|Data race)")
HOME_CARGO = "/root/.cargo"


def env(target):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "MIRI"))}
    e.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", MIRI_SYSROOT=os.path.join(build.TARGET, "miri", "sysroot-" + target))
    return e


def prepare():
    """Crate for Miri: same sources, but newer toolchain, and so dependencies without lock files it can't read"""
    d = os.path.join(build.TARGET, "miri")
    os.makedirs(os.path.join(d, "vendor"), exist_ok=True)
    regs = [r for r in os.listdir(HOME_CARGO + "/registry/src")]
    toml = open(os.path.join(build.HARNESS, "Cargo.toml")).read()
    toml = toml.replace('path = "../', 'path = "%s/' % build.VERIF)
    toml = toml.replace('name = "srv"\nversion', 'name = "srv"\nautobins = false\nversion', 1)
    toml = toml.replace('[lib]\nname = "srv"\n', '[lib]\nname = "srv"\npath = "%s/src/lib.rs"\n' % build.HARNESS)
    for b in BINS:
        toml += '\n[[bin]]\nname = "%s"\npath = "%s/src/bin/%s.rs"\n' % (b, build.HARNESS, b)
    toml += "\n[patch.crates-io]\n"
    for name, version in PATCH.items():
        dst = os.path.join(d, "vendor", name)
        if not os.path.exists(dst):
            src = next(p for r in regs for p in [os.path.join(HOME_CARGO, "registry/src", r, "%s-%s" % (name, version))] if os.path.exists(p))
            shutil.copytree(src, dst)
            lock = os.path.join(dst, "Cargo.lock")
            if os.path.exists(lock):
                os.unlink(lock)
        toml += '%s = { path = "vendor/%s" }\n' % (name, name)
    path = os.path.join(d, "Cargo.toml")
    if not os.path.exists(path) or open(path).read() != toml:
        with open(path, "w") as f:
            f.write(toml)
    return d


def miri_run(d, e, target, bin, args, flags, limit):
    e = dict(e, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-address-reuse-rate=0 " + flags)
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--no-default-features", "--target", target, "--bin", bin, "--"] + args
    # Cargo's own lock is held only while it checks the build is fresh
    p = subprocess.Popen(cmd, env=e, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    try:
        err = p.communicate(timeout=limit)[1]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, ""
    return p.returncode, err.decode(errors="replace")


def stage(ctx, target, label, work, secs, func="miri"):
    """Returns reason if Miri could not be used"""
    flags = "-Zmiri-tree-borrows"
    t0 = time.time()
    d = prepare()
    e = env(target)
    p = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", target], env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode != 0:
        return "cannot build standard library for %s: %s" % (target, p.stdout.decode(errors="replace")[-300:])
    for b in work:
        try:
            rc, err = miri_run(d, e, target, b, ["--check", ctx.pid, "--cases", "0"], flags, 400)
        except OSError as ex:
            return str(ex)
        if rc != 0:
            # Code may well build only with the toolchain it's pinned to
            return "%s does not build or start for %s with newer toolchain: %s" % (b, target, err[-600:])
    ctx.stages.append({"stage": "miri_%s_build" % label, "wall_s": round(time.time() - t0, 1)})
    t = time.time()

    def one(job):
        b, w = job
        seed = ctx.seed * 1000 + 500 + BINS.index(b) + 40 * ["64", "32", "big_endian"].index(label)
        out, prog = (ctx.scratch("miri-%s-%s-%d%s" % (label, b, w, x)) for x in (".json", ".progress"))
        for f in (out, prog):
            if os.path.exists(f):
                os.unlink(f)
        args = ["--check", ctx.pid, "--seed", str(seed), "--worker", str(w), "--workers", str(work[b]), "--cases", "1000000", "--secs", str(secs), "--out", out, "--progress", prog]
        rc, err = miri_run(d, e, target, b, args, flags, secs + 60)
        case = int(open(prog).read().split()[0]) if os.path.exists(prog) and open(prog).read().split() else None
        rep = json.load(open(out)) if rc in (0, 10) and os.path.exists(out) else None
        return b, w, seed, rc, rep, err, case

    jobs = [(b, w) for b in work for w in range(work[b])]
    with ThreadPoolExecutor(9) as ex:
        results = list(ex.map(one, jobs))
    for b, w, seed, rc, rep, err, case in results:
        if rc == 0 and rep:
            ctx.count("miri_cases", rep["evaluations"])
            ctx.count("miri_%s_cases_%s" % (label, b), rep["evaluations"])
            rep["counters"] = {"miri_" + k: v for k, v in rep["counters"].items() if not k.startswith(("max:", "stopped", "form_", "used_"))}
            ctx.absorb(rep)
        elif rc == 10 and rep:
            v = rep["violation"]
            ctx.violate("on %s: %s" % (target, v["message"]),
                        {"name": "miri-%s-%s-c%s" % (label, b, v["case"]), "func": func, "bin": b, "target": target, "case": v["case"], "worker_seed": seed})
        elif UB.search(err) and ctx.pid == "C10":
            i = UB.search(err).start()
            ctx.violate("Miri (%s, %s), case %s: %s" % (target, b, case, err[i:i + 3500]),
                        {"name": "miri-%s-%s-c%s" % (label, b, case), "func": func, "bin": b, "target": target, "case": case, "worker_seed": seed})
        elif rc is None:
            ctx.notes.append("Miri: process %d of %s (%s) stopped at case %s, which takes too long" % (w, b, label, case))
        else:
            ctx.notes.append("Miri: process %d of %s (%s) ended early at case %s: %s" % (w, b, label, case, err[-300:]))
    ctx.stages.append({"stage": "miri_%s" % label, "wall_s": round(time.time() - t, 1)})
    return None


def used(ctx, why):
    if why:
        ctx.notes.append("Miri not used: " + why)
        ctx.count("miri_unavailable", 1)


def miri(ctx):
    used(ctx, stage(ctx, build.TRIPLE, "64", WORK[ctx.tier], SECONDS[ctx.tier]))
    if ctx.tier == "thorough":
        used(ctx, stage(ctx, I686, "32", WORK32, SECONDS[ctx.tier]))


def util32(ctx):
    """C25 where pointers are 32 bits"""
    used(ctx, stage(ctx, I686, "32", {"util": 4}, 20 if ctx.tier == "quick" else 200, "util32"))


def foreign(name):
    """A workload where pointers are 32 bits, and where numbers are big-endian"""
    def foreign(ctx):
        if ctx.tier == "thorough":
            used(ctx, stage(ctx, I686, "32", {name: 8}, 110, "foreign"))
            used(ctx, stage(ctx, S390X, "big_endian", {name: 8}, 110, "foreign"))
    return foreign
