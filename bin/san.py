"""C19 and C20: the workloads under AddressSanitizer, ThreadSanitizer and Miri."""

import json
import os
import re

import vlib
from vlib import NCPU, SEED, THOROUGH, TIER, Inconclusive, RepoBroken, cargo, drive, env, log, parallel, run

HOST = "x86_64-unknown-linux-gnu"


def build_san(kind, bins, features):
    """Builds drivers with a sanitizer, and with the standard library instrumented as well where needed."""
    a = ["build", "--offline", "--locked", "--target", HOST, "--features", ",".join(features)]
    for b in bins:
        a += ["--bin", b]
    if kind == "thread":
        a.append("-Zbuild-std")
    flags = "-Zsanitizer=" + kind
    cargo("drive", a, "san-" + kind, toolchain="nightly", env_=env(RUSTFLAGS=flags))
    d = os.path.join(vlib.TARGET, "san-" + kind, HOST, "debug")
    rebuild = "cd %s/harness/drive && CARGO_TARGET_DIR=%s/san-%s RUSTFLAGS=%s cargo +nightly %s" % (vlib.VERIF, vlib.TARGET, kind, flags, " ".join(a))
    return {b: os.path.join(d, b) for b in bins}, rebuild


SAN_ENV = dict(
    ASAN_OPTIONS="exitcode=66:detect_leaks=1:halt_on_error=1:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0",
    LSAN_OPTIONS="exitcode=66",
    TSAN_OPTIONS="exitcode=66:halt_on_error=1:second_deadlock_stack=1",
)


def only_memory(res, part):
    """What a workload for another property finds out otherwise is for that property's check."""
    keep = [v for v in part.violations if v["key"] in ("crash", "sanitizer")]
    other = len(part.violations) - len(keep)
    res.violations += keep
    res.evaluations += part.evaluations
    res.extra.setdefault("workloads under AddressSanitizer", []).append(
        dict(runs=part.extra.get("runs", []), verdicts_left_to_other_checks=other, property=part.prop))


MIRI_BAD = re.compile(r"^error: (Undefined Behavior: [^\n]*|memory leaked[^\n]*|[^\n]*deadlock[^\n]*|[^\n]*data race[^\n]*)", re.M | re.I)


def miri_build(bin_, features, release):
    a = ["miri", "run", "--offline", "--locked", "--bin", bin_] + (["--release"] if release else [])
    if features:
        a += ["--features", ",".join(features)]
    # Runs nothing, but everything is built.
    cargo("drive", a + ["--", "none"], "miri", toolchain="nightly", env_=env(MIRIFLAGS="-Zmiri-disable-isolation"))
    return a


def miri(res, bin_, features, jobs, secs):
    """Runs (family, flags, release) jobs under Miri, in parallel."""
    args = {}
    for rel in sorted({j[2] for j in jobs}):
        args[rel] = miri_build(bin_, features, rel)
    todo = list(enumerate(jobs))
    out = []

    def worker():
        while True:
            try:
                i, (family, flags, rel) = todo.pop(0)
            except IndexError:
                return
            out.append((i, one(i, family, flags, rel)))

    def one(i, family, flags, rel):
        f = os.path.join(vlib.EVIDENCE, ".%s-miri-%d.json" % (res.prop, i))
        if os.path.exists(f):
            os.unlink(f)
        seed = SEED * 1000 + i
        e = env(MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=%d %s" % (seed, flags), CARGO_TARGET_DIR=os.path.join(vlib.TARGET, "miri"))
        cmd = ["cargo", "+nightly"] + args[rel] + ["--", res.prop, "--tier", TIER, "--seed", str(seed), "--threads", "1", "--secs", str(secs), "--out", f]
        if family:
            cmd += ["--family", family]
        rc, so, se = run(cmd, timeout=secs + 400, cwd=os.path.join(vlib.VERIF, "harness", "drive"), env_=e)
        label = "Miri, %s%s, seed %d, %s" % (family or "all", ", no debug assertions" if rel else "", seed, flags)
        m = MIRI_BAD.search(se)
        if m:
            res.violate("sanitizer", "[%s] %s" % (label, m.group(1)), report=se[m.start():m.start() + 6000],
                        cmd=["sh", "-c", "cd %s/harness/drive && CARGO_TARGET_DIR=%s MIRIFLAGS='%s' %s" % (vlib.VERIF, e["CARGO_TARGET_DIR"], e["MIRIFLAGS"], " ".join(cmd))])
            return label
        if rc in (0, 1) and os.path.exists(f):
            j = json.load(open(f))
            os.unlink(f)
            for v in j["violations"]:
                res.violate("miri:%s:%s" % (v["family"], v["index"]), "[%s] %s:%s %s" % (label, v["family"], v["index"], v["message"]), notes=v["notes"],
                            cmd=["sh", "-c", "cd %s/harness/drive && CARGO_TARGET_DIR=%s MIRIFLAGS='%s' %s" % (vlib.VERIF, e["CARGO_TARGET_DIR"], e["MIRIFLAGS"], " ".join(cmd))])
            vlib.merge(res, dict(j, distinct_nontrivial=0, events={"miri: " + k: v for k, v in j["events"].items() if not k.startswith("max:")}), label)
            return label
        raise Inconclusive("%s: ended with %s\n%s\n%s" % (label, rc, so[-1500:], se[-5000:]))

    parallel([worker] * max(1, NCPU - 1))
    res.extra.setdefault("miri_processes", 0)
    res.extra["miri_processes"] += len(jobs)


def native(res, bin_, features, quick, secs):
    import plans

    exes = plans.build([bin_], features)

    def one(p):
        rebuild = "cd %s/harness/drive && CARGO_TARGET_DIR=%s/drive cargo build --offline --bin %s --features %s %s" % (vlib.VERIF, vlib.TARGET, bin_, ",".join(features), "--release" if p == "release" else "")
        drive(res, exes[p][0], res.prop, p, secs, threads=max(2, NCPU // 2), scale=1.0 if THOROUGH else quick, rebuild=rebuild)

    parallel([lambda p=p: one(p) for p in ("debug", "release")])


# Workloads for AddressSanitizer: (driver, property, scale in the quick check).
WORKLOADS = [("sign", "C01", 0.5), ("sign", "C05", 1), ("enc", "C09", 0.2), ("enc", "C10", 2), ("enc", "C25", 3), ("proto", "C07", 0.5), ("proto", "C21", 1),
             ("proto", "C23", 1), ("cred", "C14", 0.5), ("cred", "C15", 2), ("rsa", "C02", 0.3), ("rsa", "C22", 0.5)]


def c19(res):
    secs = 600 if THOROUGH else 40
    families = ["exhaustive", "random", "api", "sizes", "faults", "bombs", "dropped", "rsa-view"]
    TREE = "-Zmiri-tree-borrows"
    jobs = [(f, "-Zmiri-symbolic-alignment-check", False) for f in families] + [("exhaustive", "", True), ("random", TREE, True), ("api", TREE, True)]
    if THOROUGH:
        jobs += [(f, TREE, True) for f in families] + [(f, "", False) for f in families if f != "rsa-view"]

    def asan():
        exes, rebuild = build_san("address", sorted({w[0] for w in WORKLOADS} | {"mem"}), ["rsa", "serde"])
        drive(res, exes["mem"], "C19", "AddressSanitizer", secs, threads=NCPU // 2, scale=1 if THOROUGH else 0.5, env_=env(**SAN_ENV), rebuild=rebuild)
        for bin_, prop, scale in WORKLOADS:
            part = vlib.Result(prop)
            drive(part, exes[bin_], prop, "AddressSanitizer " + prop, 120 if THOROUGH else 20, threads=NCPU // 2, scale=0.5 if THOROUGH else scale * 0.3, env_=env(**SAN_ENV), rebuild=rebuild)
            only_memory(res, part)

    parallel([lambda: native(res, "mem", ["rsa"], 12, secs), asan, lambda: miri(res, "mem", ["rsa"], jobs, 400 if THOROUGH else 25)])
    res.assumptions.append("Undefined behaviour is what Miri (Stacked and Tree Borrows), AddressSanitizer and LeakSanitizer report in the executions observed.")


def sendsync(res):
    try:
        cargo("sendsync", ["check", "--offline", "--locked"], "sendsync")
    except (Inconclusive, RepoBroken) as ex:
        text = str(ex)
        m = re.search(r"^error\[E0277\]: `[^\n]*` cannot be (sent|shared) between threads safely.*?(?=^error|\Z)", text, re.M | re.S)
        if not m:
            raise
        res.violate("threads", "a type of the library can no longer be %s between threads:\n%s" % (m.group(1), m.group(0)[:2500]),
                    cmd=["sh", "-c", "cd %s/harness/sendsync && CARGO_TARGET_DIR=%s/sendsync cargo check --offline" % (vlib.VERIF, vlib.TARGET)])
        return False
    res.add_events({"types checked for Send and Sync by the compiler": 70})
    return True


def c20(res):
    if not sendsync(res):
        return
    secs = 900 if THOROUGH else 45
    families = ["shared", "fresh", "clones-serializer", "clones-sign", "clones-builder", "nested", "panics", "handed"]
    rates = ["", "-Zmiri-preemption-rate=0.05", "-Zmiri-preemption-rate=0.3", "-Zmiri-preemption-rate=0.1 -Zmiri-tree-borrows"]
    jobs = [(f, rates[i % 4], False) for i, f in enumerate(families)]
    if THOROUGH:
        jobs = [(f, rates[k % 4], k % 2 == 1) for k in range(4) for f in families]

    def tsan():
        exes, rebuild = build_san("thread", ["conc"], ["rsa"])
        drive(res, exes["conc"], "C20", "ThreadSanitizer", secs, threads=NCPU // 2, scale=1, env_=env(**SAN_ENV), rebuild=rebuild)

    parallel([lambda: native(res, "conc", ["rsa"], 6, secs), tsan, lambda: miri(res, "conc", [], jobs, 400 if THOROUGH else 25)])
    res.assumptions.append("The interleavings are those which the scheduler, the pauses in displayed values and Miri's preemption produced; they are counted, not enumerated.")
