"""Building the harness against /repo's working tree, in several flavours."""
import os, re, subprocess

from . import gensers, gentypes

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
PINNED = "/root/.rustup/toolchains/nightly-2023-01-28-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"


class Inconclusive(Exception):
    pass


class BuildFailed(Inconclusive):
    """The compiler rejected the harness"""
    def __init__(self, flav, out):
        # Each error by itself
        self.errors = [e for e in re.split(r"\n(?=error|warning)", "\n" + out) if e.lstrip().startswith("error")]
        super().__init__("harness does not build (%s):\n%s" % (flav, "\n".join("\n".join(self.errors).splitlines()[:40])))


def pinned_env():
    """Same compiler as the repository's own build"""
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="1.70.0",
        RUSTC=PINNED + "/bin/rustc",
        RUSTDOC=PINNED + "/bin/rustdoc",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        # Incremental compilation by this compiler panics when a file which is included changes
        CARGO_INCREMENTAL="0",
        RUST_BACKTRACE="0",
    )
    return e


# flavour: (profile, opt level, extra RUSTFLAGS, galloc)
FLAVOURS = {
    # Debug assertions and overflow checks on
    "dbg": ("dev", None, "", True),
    # As users' release builds: no debug assertions or overflow checks
    "rel0": ("release", "0", "", True),
    "rel": ("release", "3", "", True),
    # Fields of structs in other orders than usual (with seed 1, sign of `BigInt` is before its digits)
    "rnd1": ("dev", None, "-Zrandomize-layout -Zlayout-seed=1", True),
    "rnd2": ("release", "0", "-Zrandomize-layout -Zlayout-seed=2", True),
    "asan": ("dev", None, "-Zsanitizer=address", False),
    "asanrel": ("release", "0", "-Zsanitizer=address", False),
    "tsan": ("release", "1", "-Zsanitizer=thread", False),
}


def run(cmd, env, cwd=VERIF, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def cargo(flav, bins, gen=None):
    """Build `bins`. Returns {bin: (path, env to run it with)}. `gen`: (seed, number) of definitions to generate for bin `gen` or `genser`"""
    profile, opt, flags, galloc = FLAVOURS[flav]
    env = pinned_env()
    tdir = os.path.join(TARGET, flav)
    if gen:
        path = os.path.join(TARGET, "gen", "%s-%d-%d.rs" % (bins[0], *gen))
        text = {"gen": gentypes, "genser": gensers}[bins[0]].generate(*gen)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.exists(path) or open(path).read() != text:
            with open(path, "w") as f:
                f.write(text)
        env["SRV_GEN"] = path
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", tdir]
    for b in bins:
        cmd += ["--bin", b]
    if profile == "release":
        cmd.append("--release")
    if opt is not None:
        env["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = opt
    if not galloc:
        cmd.append("--no-default-features")
    sub = "release" if profile == "release" else "debug"
    if flags:
        env["RUSTFLAGS"] = flags
        cmd += ["--target", TRIPLE]
        sub = TRIPLE + "/" + sub
    try:
        rc, out = run(cmd, env)
    except subprocess.TimeoutExpired:
        raise Inconclusive("build of %s timed out" % flav)
    # The pinned compiler fails on some randomized layouts (of enums with a niche and zero-sized fields). Any others do as well
    for more in range(3):
        if rc != 0 and "-Zlayout-seed=" in (flags or "") and "internal compiler error" in out:
            env["RUSTFLAGS"] = flags + "%d" % more
            try:
                rc, out = run(cmd, env)
            except subprocess.TimeoutExpired:
                raise Inconclusive("build of %s timed out" % flav)
    if rc != 0:
        raise BuildFailed(flav, out)
    renv = dict(env)
    renv["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1"
    renv["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1"
    return {b: (os.path.join(tdir, sub, b), renv) for b in bins}
