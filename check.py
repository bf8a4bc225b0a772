#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] | check.py --replay FILE | check.py --setup

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Anything else: the check itself failed.
"""
from concurrent.futures import ThreadPoolExecutor
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
CRATES = ("ml-kem", "x-wing", "dhkem")
GENERIC = ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C13 C14 C15 C16 C17 C18 C22").split()
ALL_IDS = [f"C{i:02d}" for i in range(1, 24)]


class CheckError(Exception):
    """The check could not do its job: never a violation"""


class Violation(Exception):
    def __init__(self, replay, message):
        self.replay, self.message = replay, message


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------------ building
def base_env():
    env = dict(os.environ)
    for line in open("/opt/vp/env.sh"):
        m = re.match(r"export (\w+)=(.*)$", line.strip())
        if m and m.group(1) != "PATH":
            env[m.group(1)] = m.group(2)
    env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin"
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_NET_OFFLINE"] = "true"
    for k in list(env):
        if k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER") or k.startswith("CARGO_PROFILE_"):
            del env[k]
    return env


ENV = base_env()


def repo_digest():
    """Content of everything that can affect the crates under test"""
    h = hashlib.sha256()
    out = subprocess.run(["git", "-C", REPO, "ls-files", "-z", "--cached", "--others", "--exclude-standard"], capture_output=True)
    names = out.stdout.decode().split("\0") if out.returncode == 0 else []
    names = sorted({n for n in names if n}) or sorted(
        os.path.relpath(os.path.join(d, f), REPO) for c in CRATES for d, _, fs in os.walk(f"{REPO}/{c}") for f in fs
    )
    for n in names:
        p = os.path.join(REPO, n)
        if os.path.isfile(p):
            h.update(n.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


DIGEST = None


def freshen(target_dir):
    """Cargo trusts modification times; a different content always rebuilds here."""
    global DIGEST
    DIGEST = DIGEST or repo_digest()
    os.makedirs(target_dir, exist_ok=True)
    stamp = os.path.join(target_dir, "verif-repo-digest")
    if not os.path.exists(stamp) or open(stamp).read() != DIGEST:
        for prof in glob.glob(f"{target_dir}/*/.fingerprint") + glob.glob(f"{target_dir}/*/*/.fingerprint"):
            for c in CRATES:
                for d in glob.glob(f"{prof}/{c}-*"):
                    shutil.rmtree(d, ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(DIGEST)


def cargo(crate, target_dir, args, rustflags="", toolchain=None, timeout=800, more=None):
    freshen(target_dir)
    env = dict(ENV, CARGO_TARGET_DIR=target_dir, **(more or {}))
    if rustflags:
        env["RUSTFLAGS"] = rustflags
    if toolchain:
        env["RUSTUP_TOOLCHAIN"] = toolchain
    t = time.time()
    try:
        p = subprocess.run(["cargo", *args], cwd=os.path.join(VERIF, crate), env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"building {crate} took more than {timeout} s")
    if p.returncode != 0:
        raise CheckError(f"building {crate} failed (cargo {' '.join(args)}):\n{p.stderr[-6000:]}")
    log(f"[{crate}: cargo {' '.join(args)}: {time.time() - t:.1f} s]")


def build_harness(profile="release"):
    cargo("harness", TARGET, ["build", "--offline", "--profile", profile])
    return f"{TARGET}/{profile}/harness"


def build_asan():
    d = f"{TARGET}/asan"
    cargo("harness", d, ["build", "--offline", "--profile", "checked", "--target", TRIPLE], "-Zsanitizer=address", NIGHTLY)
    return f"{d}/{TRIPLE}/checked/harness"


NIGHTLY = f"nightly-{TRIPLE}"
PROBE_ALL = "ml-std ml-det ml-zero xw-rand xw-zero dh-zero k256 p256 p384 p521 x25519"
PROBE_MIN = "ml xw k256 p256 p384 p521 x25519"


def probe_builds(tier):
    """(name, profile, features)"""
    b = [
        ("release-none", "release", PROBE_MIN),
        ("release-all", "release", PROBE_ALL),
        ("debug-all", "dev", PROBE_ALL),
        ("debug-none", "dev", PROBE_MIN),
        ("size-all", "size", PROBE_ALL),
        ("size-ml-xw", "size", "ml xw"),
        ("ml", "release", "ml"),
        ("ml+std", "release", "ml-std"),
        ("ml+deterministic", "release", "ml-det"),
        ("ml+zeroize", "release", "ml-zero"),
        ("ml+std+zeroize", "release", "ml-std ml-zero"),
        ("xw", "release", "xw"),
        ("xw+getrandom", "release", "xw-rand"),
        ("xw+zeroize", "release", "xw-zero"),
        ("k256", "release", "k256"),
        ("p256", "release", "p256"),
        ("p384", "release", "p384"),
        ("p521", "release", "p521"),
        ("x25519", "release", "x25519"),
        ("dh+zeroize", "release", "dh-zero k256 p256 p384 p521 x25519"),
    ]
    if tier == "thorough":
        b += [(f"ml[{f}]/{p}", p, f) for p in ("release", "dev", "size") for f in ("ml", "ml-std ml-det", "ml-det ml-zero", "ml-std ml-det ml-zero", "ml-std", "ml-det", "ml-zero")]
        b += [(f"xw[{f}]/{p}", p, f) for p in ("dev", "size") for f in ("xw", "xw-rand", "xw-zero", "xw-rand xw-zero")]
        b += [(f"dh[{c}{z}]/{p}", p, c + z) for p in ("release", "dev", "size") for c in ("k256", "p256", "p384", "p521", "x25519") for z in ("", " dh-zero")]
    return b


def build_probes(tier, into):
    """One profile after another would be slow: cargo locks only the directory of a profile"""
    d = f"{TARGET}/probe"
    freshen(d)
    all = [(i, *x) for i, x in enumerate(probe_builds(tier))]

    def go(profile):
        for i, _, p, feats in all:
            if p == profile:
                cargo("probe", d, ["build", "--offline", "--profile", profile, "--features", feats])
                shutil.copy(f"{d}/{'debug' if profile == 'dev' else profile}/probe", f"{into}/probe{i}")

    def native():
        """For this very processor, with all its vector instructions"""
        n = f"{TARGET}/probe-native"
        freshen(n)
        feats = next(x[3] for x in all if x[1] == "release-all")
        cargo("probe", n, ["build", "--offline", "--release", "--target", TRIPLE, "--features", feats], "-Ctarget-cpu=native")
        shutil.copy(f"{n}/{TRIPLE}/release/probe", f"{into}/probe-native")

    with ThreadPoolExecutor() as e:
        for f in [e.submit(go, p) for p in sorted({x[2] for x in all})] + [e.submit(native)]:
            f.result()
    return [(name, f"{into}/probe{i}") for i, name, _, _ in all] + [("release-all-native", f"{into}/probe-native")]


WASM = "wasm32-unknown-unknown"
WASM_FEATURES = "ml-det ml-zero xw-zero dh-zero k256 p256 p384 p521 x25519"


def build_wasm(into):
    """The probe for a 32-bit target, as programs that node runs: [(name, path)].
    No standard library for that target is installed, so `core` and `alloc` are built from the toolchain's sources, of which a copy has to
    do without the one dependency (of `std`, which is not built) that cargo would want to fetch."""
    d = f"{TARGET}/wasm"
    freshen(d)
    src = f"{d}/library"
    if not os.path.exists(f"{src}/complete"):
        root = subprocess.run(["rustc", "--print", "sysroot"], env=dict(ENV, RUSTUP_TOOLCHAIN=NIGHTLY), capture_output=True, text=True).stdout.strip()
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(f"{root}/lib/rustlib/src/rust/library", src, symlinks=True)
        for f, was in (("std/Cargo.toml", r"\[target\.[^\n]*\]\ndlmalloc = [^\n]*\n"), ("Cargo.lock", r'\[\[package\]\]\nname = "dlmalloc"\n(?:[^\n]+\n)*\n'), ("Cargo.lock", r' "dlmalloc",\n')):
            t = open(f"{src}/{f}").read()
            with open(f"{src}/{f}", "w") as o:
                o.write(re.sub(was, "", t))
        open(f"{src}/complete", "w").close()

    def go(profile):
        args = ["build", "--offline", "-Zbuild-std=core,alloc", "--target", WASM, "--profile", profile, "--features", WASM_FEATURES]
        cargo("probewasm", d, args, toolchain=NIGHTLY, more={"__CARGO_TESTS_ONLY_SRC_ROOT": src})
        wasm, prog = f"{into}/{profile}.wasm", f"{into}/wasm32-{profile}"
        shutil.copy(f"{d}/{WASM}/{profile}/probewasm.wasm", wasm)
        with open(prog, "w") as f:
            f.write(f"#!/bin/sh\nexec node {VERIF}/probewasm/run.js {wasm}\n")
        os.chmod(prog, 0o755)
        return f"wasm32-{profile}", prog

    with ThreadPoolExecutor() as e:
        return list(e.map(go, ("release", "checked")))


SANCOV = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"


SANMEM = "-Cpasses=forceattrs -Cpasses=function(tsan) -Cpasses=sancov-module -Cllvm-args=-force-attribute=sanitize_thread -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-atomics=0 -Cllvm-args=-sanitizer-coverage-level=1 -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
CT_KINDS = {"blocks": ("ct", SANCOV + " ", []), "memory": ("ctmem", SANMEM + " ", ["-DMEMORY"]), "plain": ("ctplain", "", ["-DPLAIN"])}


def build_ct(kind, profile="release"):
    d, flags, define = CT_KINDS[kind]
    if profile == "written":
        d, flags = d + "-written", "-Cpasses=function(sroa,simplifycfg) " + flags
    d = f"{TARGET}/{d}"
    os.makedirs(d, exist_ok=True)
    # named by its contents, so that cargo links again when they change
    o = f"{d}/cov-{hashlib.sha256(open(f'{VERIF}/ctprobe/cov.c', 'rb').read()).hexdigest()[:12]}.o"
    p = subprocess.run(["gcc", "-O2", "-fno-builtin", "-fno-tree-loop-distribute-patterns", *define, "-c", f"{VERIF}/ctprobe/cov.c", "-o", o], capture_output=True, text=True)
    if p.returncode:
        raise CheckError("gcc: " + p.stderr)
    flags += f"-Clink-arg={o}"
    cargo("ctprobe", d, ["build", "--offline", "--profile", profile, "--target", TRIPLE], flags)
    return f"{d}/{TRIPLE}/{profile}/ctprobe"


def build_cmp(profile="release"):
    """The cases of the harness, with every comparison in the code under test reporting its operands"""
    d = f"{TARGET}/cmp"
    os.makedirs(d, exist_ok=True)
    o = f"{d}/cmp.o"
    p = subprocess.run(["gcc", "-O2", "-fno-builtin", "-c", f"{VERIF}/cmpfuzz/cmp.c", "-o", o], capture_output=True, text=True)
    if p.returncode:
        raise CheckError("gcc: " + p.stderr)
    cargo("cmpfuzz", d, ["build", "--offline", "--profile", profile], more={"RUSTC_WRAPPER": f"{VERIF}/cmpfuzz/rustc-wrap.sh", "CMPFUZZ_OBJ": o})
    return f"{d}/{profile}/cmpfuzz"


# ------------------------------------------------------------------------------------------------ running
def run(cmd, timeout, env=None):
    """(exit status, output); negative status: signal"""
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env or ENV, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return None, f"{e.stdout or ''}{e.stderr or ''}"


CRASHES = {-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP}


HUNG = 4


def whole_run(ctx, replay):
    """Makes a replay file one that does everything the check did"""
    r = json.load(open(replay))
    r["whole_run"] = {"check": ctx.pid, "tier": ctx.tier}
    json.dump(r, open(replay, "w"), indent=1)


def explore(ctx, binary, mode, prop, extra=(), env=None, name=""):
    """Runs one property of a harness binary; returns what it covered, or raises Violation."""
    out, replay = f"{ctx.tmp}/{prop}{name}.json", ctx.replay_path(name)
    cmd = [binary, mode, prop, "--seed", str(ctx.seed), "--tier", ctx.tier, "--out", out, "--replay", replay, *extra]
    rc, text = run(cmd, ctx.limit, env)
    if rc == 0:
        return json.load(open(out))
    if rc == 1 and os.path.exists(replay):
        rc2, _ = run([build_harness() if "cmpfuzz" in binary else binary, "replay", replay], 200, env)
        msg = message_of(text)
        if rc2 == 0:
            # it takes what the process did before (or at the same time): replaying means doing all of it again
            whole_run(ctx, replay)
            msg += " (only after, or next to, the cases that were run before it: the case alone holds)"
        raise Violation(replay, msg)
    if rc == HUNG and os.path.exists(replay):
        # slow, or without end?  The case alone, in a process of its own
        alone = build_harness() if "cmpfuzz" in binary else binary
        rc2, text2 = run([alone, "replay", replay], 200, env)
        if rc2 is None:
            raise Violation(replay, message_of(text) + ", nor in 200 s when run alone")
        if rc2 == 1:
            raise Violation(replay, message_of(text2))
        # it finishes alone: either something else held this process up, or the cases before it left something behind
        msg = message_of(text)
        rc2, text2 = run(cmd, ctx.limit, env)
        if rc2 in (HUNG, 1) and os.path.exists(replay):
            whole_run(ctx, replay)
            raise Violation(replay, f"{message_of(text2)} (only after, or next to, the cases that were run before it: alone it finishes; so in two runs)")
        raise CheckError(f"{prop}: {msg}, but it did when run alone, and when everything was run again")
    if rc in CRASHES:
        # the process died: find the case by running the shards one at a time, writing down each case first
        log(f"[{prop} died with signal {-rc}; looking for the case]\n{text[-3000:]}")
        for shard in range(16):
            rc2, text2 = run(cmd + ["--shard", str(shard), "--threads", "1", "--trace", ctx.tmp], ctx.limit, env)
            if rc2 in CRASHES:
                f = f"{ctx.tmp}/{shard}.json"
                shutil.copy(f, replay)
                raise Violation(replay, f"the process died with signal {-rc2}\n{text2[-2000:]}")
            if rc2 == 1 and os.path.exists(replay):
                raise Violation(replay, message_of(text2))
        raise CheckError(f"{prop} died with signal {-rc}, but not when run again")
    if rc is None:
        raise CheckError(f"{prop} did not finish in {ctx.limit} s")
    raise CheckError(f"{prop}: the harness failed with status {rc}\n{text[-4000:]}")


def message_of(text):
    m = re.search(r"^FAILED (.*)$", text, re.M)
    return m.group(1) if m else text[-500:]


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="verif-")
        self.suffix = ""
        self.limit = 600 if tier == "quick" else 6 * 3600

    def replay_path(self, name=""):
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        p = f"{VERIF}/replays/{self.pid}-{self.tier}-{self.seed}{self.suffix}{name}.json"
        if os.path.exists(p):
            os.remove(p)
        return p


ASSUME = {
    "model": "The reference models in /verif/refmodel (Keccak, FIPS 203, X-Wing, RFC 7748, short Weierstrass arithmetic) are right; they share no code with /repo, and their own tests check published constants and algebraic identities.",
    "sample": "The property is decided on the generated cases only.",
    "deps": "The dependencies outside /repo (sha3, hybrid-array, curve crates) are exercised together with it as pinned.",
}


# about 12 s each
STEERED_CASES = {
    "C01": 140_000, "C02": 120_000, "C03": 64_000, "C04": 44_000, "C05": 34_000, "C06": 36_000, "C07": 36_000, "C08": 20_000, "C09": 6_000,
    "C11": 100_000, "C12": 32_000, "C13": 36_000, "C14": 34_000, "C15": 16_000, "C16": 130_000, "C17": 44_000, "C18": 42_000, "C22": 30_000,
}
COMPARISONS = (
    " Second stage: cases of the same kind are run on a build in which every comparison in the code under test reports its operands; where one has not yet come "
    "out equal (or greater, or less), its operands are looked for in the case's byte strings and exchanged, or the distance between them is followed. Oracle and "
    "triviality rule are the same; the counts of both stages are added (they use different generators)."
)


def check_fn(pid):
    return {"C10": check_crash, "C19": check_features, "C20": check_ct, "C21": check_ct, "C23": check_ct}.get(pid, check_generic)


def check_generic(ctx):
    h = build_harness()
    cov = explore(ctx, h, "run", ctx.pid)
    # the same property, with cases steered by the comparisons the code makes
    # (a fixed amount of work; the limit in seconds is for machines much slower than the one this was made on)
    n = STEERED_CASES[ctx.pid]
    much = ["--execs", str(n), "--secs", "120"] if ctx.tier == "quick" else ["--execs", str(100 * n), "--secs", "3600"]
    c = explore(ctx, build_cmp(), "run", ctx.pid, much, name="-cmp")
    if c["comparisons_observed"] == 0 or c["evaluations"] < 10:
        raise CheckError(f"the comparison-guided stage saw {c['comparisons_observed']} comparisons in {c['evaluations']} cases")
    cov["comparison_guided"] = c
    cov["rule"] += COMPARISONS
    for k in ("evaluations", "distinct_nontrivial"):
        cov[k] += c[k]
    return cov, [ASSUME["model"], ASSUME["sample"], ASSUME["deps"]]


def check_features(ctx):
    h = build_harness()
    skipped = []
    with ThreadPoolExecutor() as e:
        native, wasm = e.submit(build_probes, ctx.tier, ctx.tmp), e.submit(build_wasm, ctx.tmp)
    builds = native.result()
    probe = dict(builds)["release-all"]
    # other targets: where the toolchain at hand cannot build for them, the evidence says so
    try:
        builds += wasm.result()
    except CheckError as e:
        log(f"[{e}]")
        skipped.append("Builds for wasm32 (32-bit) could not be made here and were not compared.")
    env = dict(ENV, VERIF_PROBES=",".join(f"{n}={f}" for n, f in builds))
    cov = explore(ctx, h, "run", "C19", env=env)
    cov["builds"] = [n for n, _ in builds]
    try:
        n = big_endian(ctx, requests_by_op(ctx, h), probe)
        cov["builds"].append("s390x (big-endian; under Miri)")
        cov["big_endian_requests"] = n
        cov["evaluations"] += n
        cov["distinct_nontrivial"] += n
    except CheckError as e:
        log(f"[{e}]")
        skipped.append("A big-endian build could not be made or run here and was not compared.")
    return cov, [ASSUME["sample"], "Of other targets than x86_64, only wasm32 and (in few cases) s390x are compared; one rustc version per target.", *skipped]


def check_ct(ctx):
    """C20, C21 and C23.  An optimizer may compile a masked selection into a branch, or into a choice between two addresses.  What
    differs in an optimized build alone is therefore not held against the code: it has to differ as well in a build that is
    not optimized, except that conditional assignments of single values become selects."""
    try:
        return check_ct_optimized(ctx)
    except Violation as v:
        b = build_ct("memory" if ctx.pid == "C23" else "blocks", "written")
        rc, text = run([b, "replay", v.replay], 300)
        if rc == 1:
            raise
        if rc != 0:
            raise CheckError(f"{b} replay: status {rc}\n{text[-2000:]}")
        log(f"[only in the optimized build: {v.message}; all cases again, on the code as written]")
        cov = explore(ctx, b, "run", ctx.pid, ["--scale", "40"], name="-written")
        os.remove(v.replay)
        cov["added_by_the_optimizer"] = v.message
        return cov, [
            "The optimized build differs (see added_by_the_optimizer) where the code as written does not: what is reported on is the latter, with fewer cases.",
            ASSUME["sample"],
        ]


def check_ct_optimized(ctx):
    cov = None
    # thorough: other optimization levels too
    for prof in ["release"] if ctx.tier == "quick" else ["release", "o2", "o1", "size"]:
        b = build_ct("memory" if ctx.pid == "C23" else "blocks", prof)
        c = explore(ctx, b, "run", ctx.pid, name="" if prof == "release" else f"-{prof}")
        cov = c if cov is None else merge(cov, c)
    if ctx.pid == "C23":
        return cov, [
            "Addresses are those of loads and stores of up to 16 bytes in the optimized LLVM IR and of the spans of libc's copying functions; what the back end adds (spills) and wider accesses are not seen.",
            "Latencies are out of scope.",
            ASSUME["sample"],
        ]
    n = {"C20": 900, "C21": 300}[ctx.pid] * (1 if ctx.tier == "quick" else 20)
    cov["machine_level_pairs"] = grind(ctx, build_ct("plain"), n, ctx.seed)
    return cov, [
        "Control flow is observed at two levels: basic blocks of the optimized LLVM IR with libc byte comparisons (exact sequence), and machine instructions and branches executed in a release build under callgrind (counts).",
        "Memory addresses are left to C23; instruction latencies are out of scope.",
        ASSUME["sample"],
    ]


def grind(ctx, binary, n, seed, cases=None):
    """Instruction and branch counts of both runs of each case, from callgrind"""
    if cases is None:
        rc, text = run([binary, "cases", ctx.pid, "--n", str(n), "--seed", str(seed)], 300)
        if rc != 0:
            raise CheckError("ctprobe cases failed: " + text[-2000:])
        cases = [l for l in text.splitlines() if l.startswith("{")]
    parts = 6
    procs = []
    for i in range(parts):
        mine = cases[i::parts]
        if not mine:
            continue
        d = f"{ctx.tmp}/grind{i}"
        os.makedirs(d)
        with open(f"{d}/cases", "w") as f:
            f.write("\n".join(mine) + "\n")
        cmd = ["valgrind", "--tool=callgrind", "--branch-sim=yes", f"--callgrind-out-file={d}/o", binary, "grind", ctx.pid, "--cases", f"{d}/cases"]
        env = dict(ENV, LD_BIND_NOW="1")
        procs.append((mine, d, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(f"{d}/err", "w"), env=env)))
    total = 0
    for mine, d, p in procs:
        try:
            p.wait(ctx.limit)
        except subprocess.TimeoutExpired:
            p.kill()
            raise CheckError("callgrind did not finish")
        if p.returncode != 0:
            raise CheckError(f"callgrind ended with {p.returncode}: {open(f'{d}/err').read()[-2000:]}")
        # dumps of the operations that ctprobe runs first, to warm up
        warm = len(glob.glob(f"{d}/o.*")) - 2 * len(mine)
        if warm != {"C20": 28, "C21": 30}[ctx.pid]:
            raise CheckError(f"callgrind left {warm} dumps too many")
        for i, case in enumerate(mine):
            t = []
            for k in (0, 1):
                m = re.search(r"^totals: (.*)$", open(f"{d}/o.{warm + 2 * i + k + 1}").read(), re.M)
                x = m.group(1).split()
                t.append((int(x[0]), int(x[1]), int(x[3])))
            total += 1
            if t[0][0] < 10000:
                raise CheckError(f"callgrind saw only {t[0][0]} instructions")
            # k256: one of two paths that differ in instructions, not in the number of branches (see dh.rs)
            mirrored = '"Ec":' in case and json.loads(case)["Ec"]["curve"] % 4 == 0
            if t[0][mirrored:] != t[1][mirrored:]:
                path = ctx.replay_path("-machine")
                msg = f"the executed instructions differ: (instructions, conditional branches, indirect branches) {t[0]} against {t[1]}"
                json.dump({"property": ctx.pid, "level": "machine", "message": msg, "case": json.loads(case), "seed": seed}, open(path, "w"), indent=1)
                raise Violation(path, msg)
    return total


def merge(a, b):
    for k in ("evaluations", "executions_inside_cases", "distinct_nontrivial", "systematic_cases", "random_cases"):
        a[k] = a.get(k, 0) + b.get(k, 0)
    for k, v in b.get("classes", {}).items():
        a.setdefault("classes", {})[k] = a.get("classes", {}).get(k, 0) + v
    return a


def check_crash(ctx):
    """C10: every generator of this framework, with only panics, aborts and errors counting"""
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "stages": {}}
    cov["rule"] = (
        "The cases of every other property's generators are run in (a) an optimized build with overflow checks and debug assertions, (b) the same under "
        "AddressSanitizer, (c) for a short time with comparison-guided generation in the optimized build with checks, (d) for a small sample of raw requests, Miri. Verdicts of the functional oracles are ignored: only panics, signals, sanitizer or Miri reports, "
        "hangs and Err results count. Non-trivial: as counted by each generator."
    )
    quick = ctx.tier == "quick"
    stages = [("checked", build_harness("checked"), 12 if quick else 100), ("asan", build_asan(), 4 if quick else 40)]
    for stage, binary, scale in stages:
        env = dict(ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=0")
        n = {"evaluations": 0, "executions_inside_cases": 0, "distinct_nontrivial": 0}
        t = time.time()
        for p in GENERIC:
            c = explore(ctx, binary, "crash", p, ["--scale", str(scale)], env, f"-{stage}-{p}")
            for k in n:
                n[k] += c[k]
            if len(cov["samples"]) < 8 and stage == "checked":
                cov["samples"] += [{"generator": p, "case": s} for s in c["samples"][:1]]
        n["wall_s"] = round(time.time() - t, 1)
        cov["stages"][stage] = n
        cov["evaluations"] += n["evaluations"]
        # the two stages share a seed, so their cases overlap: count the larger
        cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], n["distinct_nontrivial"])
    t = time.time()
    n = {"evaluations": 0, "comparisons_observed": 0}
    cmp = build_cmp("checked")
    for p in GENERIC if not quick else STEERED:
        much = STEERED_CASES[p] // 10 if quick else 10 * STEERED_CASES[p]
        c = explore(ctx, cmp, "crash", p, ["--execs", str(much), "--secs", "10" if quick else "400"], name=f"-cmp-{p}")
        for k in n:
            n[k] += c[k]
    cov["stages"]["checked, steered by comparisons"] = dict(n, wall_s=round(time.time() - t, 1))
    cov["evaluations"] += n["evaluations"]
    t = time.time()
    n = miri(ctx)
    cov["stages"]["miri"] = {"evaluations": n, "wall_s": round(time.time() - t, 1)}
    cov["evaluations"] += n
    return cov, [ASSUME["sample"], "A generator that never yields a valid scalar makes ECDH key generation loop; that is its specification, and is not tried."]


STEERED = "C01 C02 C03 C06 C07 C08 C11 C12 C13 C15 C16 C17".split()
MIRI_FEATURES = "ml-std ml-det ml-zero xw-zero dh-zero p256 x25519"


def miri_cmd(target=None):
    """With a target: for the answers on that target only, without the checks that make Miri slow"""
    flags = "-Zmiri-disable-isolation"
    if target:
        flags += " -Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-alignment-check"
    return ["cargo", "miri", "run", "--offline", *(["--target", target] if target else []), "--features", MIRI_FEATURES], dict(
        ENV, CARGO_TARGET_DIR=f"{TARGET}/miri", RUSTUP_TOOLCHAIN=NIGHTLY, MIRIFLAGS=flags
    )


def miri_judge(rc, err):
    """None, or what went wrong in the code under test"""
    if rc == 0:
        return None
    if "Undefined Behavior" in err or "panicked at" in err:
        m = re.search(r"error: Undefined Behavior: .*|panicked at .*\n.*", err)
        return "Miri: " + (m.group(0) if m else err[-300:])
    raise CheckError(f"Miri ended with {rc}: {err[-3000:]}")


def requests_by_op(ctx, harness):
    rc, text = run([harness, "requests", "--n", "600", "--seed", str(ctx.seed)], 300)
    if rc != 0:
        raise CheckError("harness requests failed: " + text[-2000:])
    by = {}
    for l in text.splitlines():
        by.setdefault(l.split(" ")[0], []).append(l)
    return by


def miri_batches(ctx, want, rounds, by, target=None):
    """Requests of these operations, one process for each list of operations; yields (requests, exit status, standard error, answers)"""
    freshen(f"{TARGET}/miri")
    cmd, env = miri_cmd(target)
    p = subprocess.run(cmd, cwd=f"{VERIF}/probe", env=env, input="", capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("building for Miri failed: " + p.stderr[-3000:])
    for r in range(rounds):
        procs = []
        for ops in want:
            lines = [by[o][r % len(by[o])] for o in ops if o in by]
            f = tempfile.NamedTemporaryFile("w+", dir=ctx.tmp, suffix=".req", delete=False)
            f.write("\n".join(lines) + "\n")
            f.close()
            e = open(f.name + ".err", "w")
            procs.append((lines, f.name, subprocess.Popen(cmd, cwd=f"{VERIF}/probe", env=env, stdin=open(f.name), stdout=open(f.name + ".out", "w"), stderr=e)))
        for _, _, p in procs:
            try:
                p.wait(600)
            except subprocess.TimeoutExpired:
                for _, _, q in procs:
                    q.kill()
                raise CheckError("Miri did not finish in 600 s")
        for lines, f, p in procs:
            yield lines, p.returncode, open(f + ".err").read(), open(f + ".out").read().split()


def miri_violation(ctx, message, request, name, **more):
    path = ctx.replay_path(name)
    json.dump({"property": ctx.pid, "level": "miri", "message": message, "case": {"request": request}, "seed": ctx.seed, **more}, open(path, "w"), indent=1)
    raise Violation(path, message)


def miri(ctx):
    """A few raw requests, including the ones that only parse and serialize, under Miri"""
    by = requests_by_op(ctx, build_harness("checked"))
    if ctx.tier == "quick":
        want = [["0.rtd", "0.rte", "0.gen"], ["1.rtd", "1.rte", "1.encdet"], ["2.rtd", "2.rte", "x.rt"], ["0.dec"], ["0.enc"], ["1.gendet"]]
        rounds = 1
    else:
        want = [["0.rtd", "0.rte", "0.gen", "0.enc"], ["0.dec"], ["1.rtd", "1.rte", "1.gendet", "1.encdet"], ["1.dec"], ["2.rtd", "2.rte", "2.gen", "2.enc"], ["2.dec"], ["x.rt", "x.enc", "x.dec"], ["P-256.gen", "P-256.dec", "X25519.enc", "X25519.dec"]]
        rounds = 12
    done = 0
    for lines, rc, err, answers in miri_batches(ctx, want, rounds, by):
        m = miri_judge(rc, err)
        if m:
            miri_violation(ctx, m, lines[min(len(answers), len(lines) - 1)], "-miri")
        if len(answers) != len(lines):
            raise CheckError("Miri did not answer every request")
        done += len(answers)
    return done


BIG_ENDIAN = "s390x-unknown-linux-gnu"


def other_answer(request, answer, rc, err, native, target):
    """None, or how the answer of a build for another target differs"""
    if answer is None:
        return f"the build for {target} failed where others answer: {miri_judge(rc, err) or f'exit status {rc}'}"
    if answer != native:
        i = next((i for i in range(0, min(len(answer), len(native)), 2) if answer[i : i + 2] != native[i : i + 2]), None)
        return f"builds disagree: {target} and x86_64: {request.split(' ')[0]}: {len(answer) // 2} and {len(native) // 2} bytes, the first difference is byte {None if i is None else i // 2}"
    return None


def honest_requests(probe, seed, n):
    """Decapsulations of ciphertexts made for the key (most of the generated ones are not accepted)"""
    by = {}
    for i in range(n):
        b = lambda tag: hashlib.shake_256(f"{seed} {i} {tag}".encode()).hexdigest(64)
        ask = lambda l: subprocess.run([probe], input=l + "\n", capture_output=True, text=True).stdout.strip()
        for ps, dk, ct in (("0", 1632, 768), ("1", 2400, 1088), ("2", 3168, 1568), ("x", 32, 1120)):
            k = ask(f"{ps}.gen {b('key')[: 64 if ps == 'x' else 128]}")
            c = ask(f"{ps}.enc {k[2 * dk :]} {b('m')}")
            by.setdefault(f"{ps}.honest", []).append(f"{ps}.dec {k[: 2 * dk]} {c[: 2 * ct]}")
    return by


def big_endian(ctx, by, probe, want=None):
    """Answers of a big-endian build, interpreted by Miri, against the ones of the build named"""
    if want:
        rounds = 1
    elif ctx.tier == "quick":
        by = dict(by, **honest_requests(probe, ctx.seed, 1))
        want = [["0.encdet"], ["1.gendet"], ["2.rtd", "2.rte", "x.rt", "X25519.gen"], ["0.honest"], ["1.honest"], ["0.rtd", "0.rte", "0.eqd", "0.gen"], ["2.encdet"], ["2.honest"]]
        rounds = 1
    else:
        by = dict(by, **honest_requests(probe, ctx.seed, 12))
        want = [["0.honest", "1.honest"], ["2.honest"], ["x.honest"], ["0.rtd", "0.rte", "0.gen", "0.enc"], ["0.dec", "0.pub"], ["1.rtd", "1.rte", "1.gendet", "1.encdet"], ["1.dec"], ["2.rtd", "2.rte", "2.gen", "2.enc"], ["2.dec"], ["x.rt", "x.enc", "x.dec"], ["P-256.gen", "P-256.dec", "X25519.enc", "X25519.dec"]]
        rounds = 12
    done = 0
    for lines, rc, err, answers in miri_batches(ctx, want, rounds, by, BIG_ENDIAN):
        native = subprocess.run([probe], input="\n".join(lines) + "\n", capture_output=True, text=True).stdout.split()
        if len(native) != len(lines):
            raise CheckError("the native build did not answer every request")
        for i, l in enumerate(lines):
            m = other_answer(l, answers[i] if i < len(answers) else None, rc, err, native[i], BIG_ENDIAN)
            if m:
                miri_violation(ctx, m, l, "-s390x", target=BIG_ENDIAN)
            done += 1
    return done


# ------------------------------------------------------------------------------------------------ entry points
def known(pid):
    """Listed findings of this property (known_findings.jsonl); see DESIGN.md"""
    f = f"{VERIF}/known_findings.jsonl"
    if not os.path.exists(f):
        return []
    return [e for e in (json.loads(l) for l in open(f) if l.strip() and not l.startswith("#")) if e.get("property") == pid and "finding" in e]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        build_harness()
        return 0
    if a.replay:
        return replay(a.replay)
    if a.id not in ALL_IDS:
        ap.error("which property?")
    ctx = Ctx(a.id, a.tier, a.seed)
    t = time.time()
    fn = check_fn(a.id)
    code, bad = 0, 0
    try:
        try:
            cov, assume = fn(ctx)
        except Violation as v:
            print(f"{a.id}: {v.message}")
            print(f"VIOLATION property={a.id} replay={v.replay}")
            r = json.load(open(v.replay))
            cov = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped at the first violation", "samples": [r.get("case")], "message": v.message[:2000]}
            assume, code, bad = [], 1, 1
        for e in known(a.id):
            print(f"KNOWN-FINDING: property={a.id} {e['finding']}")
        ev = {
            "property": a.id,
            "tier": a.tier,
            "seed": a.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": assume,
            "wall_s": round(time.time() - t, 2),
            "violations": bad,
        }
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{a.id}.json", "w") as f:
            json.dump(ev, f, indent=1)
        if code == 0:
            print(f"{a.id}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial), {ev['wall_s']} s")
    except CheckError as e:
        log(f"CHECK-ERROR {a.id}: {e}")
        code = 2
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    return code


def replay(path):
    """Runs one recorded case again: exit 1 if it still fails."""
    path = os.path.abspath(path)
    r = json.load(open(path))
    pid = r["property"]
    ctx = Ctx(pid, "quick", r.get("seed", 1))
    try:
        if "whole_run" in r:
            w = r["whole_run"]
            shutil.rmtree(ctx.tmp, ignore_errors=True)
            ctx = Ctx(w["check"], w["tier"], r["seed"])
            ctx.suffix = "-again"
            try:
                check_fn(w["check"])(ctx)
                print("replay: the property held")
                return 0
            except Violation as v:
                print("replay:", v.message)
                return 1
        if pid in ("C20", "C21") and r.get("level") == "machine":
            try:
                grind(ctx, build_ct("plain"), 1, 1, [json.dumps(r["case"])])
                print("replay: the property held")
                return 0
            except Violation as v:
                print("replay:", v.message)
                return 1
        if r.get("level") == "miri" and "target" in r:
            ctx.pid = pid
            native = dict(build_probes("quick", ctx.tmp))["release-all"]
            try:
                big_endian(ctx, {"only": [r["case"]["request"]]}, native, [["only"]])
                print("replay: the property held")
                return 0
            except Violation as v:
                print("replay:", v.message)
                return 1
        if r.get("level") == "miri":
            freshen(f"{TARGET}/miri")
            cmd, env = miri_cmd()
            p = subprocess.run(cmd, cwd=f"{VERIF}/probe", env=env, input=r["case"]["request"] + "\n", capture_output=True, text=True)
            m = miri_judge(p.returncode, p.stderr)
            print("replay:", m or "the property held")
            return 1 if m else 0
        if pid in ("C20", "C21", "C23"):
            prof = next((p for p in ("o2", "o1", "size", "written") if f"-{p}" in os.path.basename(path)), "release")
            b, env = build_ct("memory" if pid == "C23" else "blocks", prof), ENV
        elif pid == "C19":
            b = build_harness()
            builds = build_probes("quick", ctx.tmp)
            try:
                builds += build_wasm(ctx.tmp)
            except CheckError as e:
                log(f"[{e}]")
            env = dict(ENV, VERIF_PROBES=",".join(f"{n}={f}" for n, f in builds))
        elif pid == "C10":
            b = build_asan() if r.get("stage") == "asan" or "-asan-" in path else build_harness("checked")
            env = dict(ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1")
        else:
            b, env = build_harness(), ENV
        rc, text = run([b, "replay", path], 900, env)
        print(text.strip()[-3000:])
        return 1 if rc == 1 or rc in CRASHES or rc is None else (0 if rc == 0 else 2)
    except CheckError as e:
        log(f"CHECK-ERROR: {e}")
        return 2
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
