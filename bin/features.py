"""C18: the same inputs give the same messages in every feature set and profile."""

import itertools
import os
import random
import re
import threading

import vlib
from vlib import NCPU, SEED, THOROUGH, Inconclusive, RepoBroken, cargo, log, run

FEATURES = ["alloc", "std", "derive", "hmac", "either", "rsa06", "rsa09", "serde", "json", "test", "js"]
FIXED = [(), ("dflt",), tuple(FEATURES), ("alloc",), ("std",), ("alloc", "derive", "hmac", "serde", "test"), ("dflt", "rsa06", "rsa09", "either", "json", "test")]
NOSTD = ["alloc", "derive", "serde", "test", "js"]


def pairwise(n, rng):
    """Random subsets until every pair of features has been on, off, and one without the other."""
    left = {(a, b, x, y) for a, b in itertools.combinations(FEATURES, 2) for x in (0, 1) for y in (0, 1)}
    out = []

    def cover(c):
        return {(a, b, int(a in c), int(b in c)) for a, b in itertools.combinations(FEATURES, 2)}

    for c in FIXED:
        left -= cover(c)
    while len(out) < n:
        best = max((tuple(f for f in FEATURES if rng.random() < 0.5) for _ in range(30)), key=lambda c: len(cover(c) & left))
        if best not in out and best not in FIXED:
            out.append(best)
            left -= cover(best)
    return out, len(left)


class Seen:
    """All values of a key are the same."""

    def __init__(self, res):
        self.res = res
        self.first = {}
        self.shared = {}
        self.lock = threading.Lock()
        self.lines = 0
        self.bad = 0

    def add(self, crate, label, args, text):
        keys = set()
        with self.lock:
            for line in text.splitlines():
                try:
                    key, entry, value = line.split("\t")
                except ValueError:
                    raise Inconclusive("%s: unexpected output %r" % (label, line[:300]))
                key = crate + " " + key
                self.lines += 1
                keys.add(key)
                if value.startswith("PANIC"):
                    self.report(key, "panics in %s, entry %s: %s" % (label, entry, value), label, args)
                f = self.first.setdefault(key, (value, label, entry, args))
                if f[0] != value:
                    self.report(key, "%s: %s in %s (%s), %s in %s (%s)" % (key, f[0], f[1], f[2], value, label, entry), label, args, f)
            for k in keys:
                self.shared[k] = self.shared.get(k, 0) + 1

    def report(self, key, message, label, args, first=None):
        self.bad += 1
        if self.bad <= 20:
            kind = " ".join(key.split(" ")[2:])
            self.res.violate("differs:%s:%s" % (kind, label), message, cmd=["echo", "see rebuild"], rebuild="; ".join(([first[3]] if first else []) + [args]))


def c18(res):
    rng = random.Random("c18 %d" % SEED)
    cases = 300 if THOROUGH else 80
    sets, left = pairwise(150 if THOROUGH else 16, rng)
    jobs = []
    for i, c in enumerate(FIXED + sets):
        jobs.append(("probe", c, "debug"))
        if i < 5 or i % 4 == 0:
            jobs.append(("probe", c, "opt"))
        if i in (1, 2):
            jobs.append(("probe", c, "release"))
    singles = [(f,) for f in FEATURES if (f,) not in FIXED]
    jobs += [("probe", c, "debug") for c in singles]
    cred = ["alloc", "std", "serde", "json"]
    jobs += [("credprobe", c, p) for k in range(len(cred) + 1) for c in itertools.combinations(cred, k) for p in ("debug", "opt")] + [("credprobe", ("dflt",), "debug")]
    seen = Seen(res)
    done = {"probe": set(), "credprobe": set(), "check": set(), "nostd": set()}
    lock = threading.Lock()
    stop = []
    broken = []
    missing = []
    deadline = vlib.T0 + (780 if THOROUGH else 500)
    skipped = []

    def build(crate, c, profile, target):
        a = ["build", "--offline", "--locked", "--profile", "dev" if profile == "debug" else profile, "--features", ",".join(c)]
        cargo(crate, a, target)
        return os.path.join(vlib.TARGET, target, profile, crate)

    def job(crate, c, profile, target):
        label = "%s [%s] %s" % (crate, ",".join(c), profile)
        try:
            exe = build(crate, c, profile, target)
        except RepoBroken as ex:
            with lock:
                broken.append((label, ex.text))
            return
        except Inconclusive as ex:
            if not re.search(r"^error[^\n]*\n\s+--> src/main\.rs:", str(ex), re.M):
                raise
            # What other feature sets have is missing; or what the program uses is gone altogether.
            with lock:
                missing.append((crate, label, str(ex)))
            return
        args = [str(SEED), str(cases)] if crate == "probe" else []
        rc, out, err = run([exe] + args, timeout=300)
        again = "cd %s/harness/%s && CARGO_TARGET_DIR=%s/%s cargo run --offline --profile %s --features '%s' -- %s" % (vlib.VERIF, crate, vlib.TARGET, target, "dev" if profile == "debug" else profile, ",".join(c), " ".join(args))
        if rc is None:
            raise Inconclusive("%s does not finish" % label)
        if rc != 0:
            res.violate("crash:" + label, "%s ends with %s: %s" % (label, rc, err[-2000:]), rebuild=again, cmd=["true"])
            return
        seen.add(crate, label, again, out)
        with lock:
            done[crate].add((c, profile))

    def check(c, target):
        label = "check [%s]" % ",".join(c)
        try:
            cargo("nostd", ["check", "--offline", "--locked", "--features", ",".join(c)], target)
        except RepoBroken as ex:
            with lock:
                broken.append((label, ex.text))
            return
        with lock:
            done["check"].add(c)

    def nostd(c, target):
        label = "no standard library [%s]" % ",".join(c)
        try:
            cargo("nostd", ["check", "--offline", "--locked", "-Zbuild-std=core,alloc", "--target", "x86_64-unknown-none", "--features", ",".join(c)], target, toolchain="nightly")
        except RepoBroken as ex:
            with lock:
                broken.append((label, ex.text))
            return
        except Inconclusive as ex:
            if "can't find crate for `std`" not in str(ex):
                raise
            with lock:
                broken.append((label, str(ex)))
            return
        with lock:
            done["nostd"].add(c)

    allsets = [c for k in range(len(FEATURES)) for c in itertools.combinations([f for f in FEATURES if f != "json"], k)]
    checks = allsets if THOROUGH else rng.sample(allsets, 60)
    nsets = [c for k in range(len(NOSTD) + 1) for c in itertools.combinations(NOSTD, k)]
    work = [lambda t, j=j: job(*j, t) for j in jobs]
    work += [lambda t, c=c: check(c, t) for c in checks]
    # Each worker has a target directory of its own.
    it = iter(work)

    def worker(i):
        while not stop:
            with lock:
                f = next(it, None)
                if f is None:
                    return
                if vlib.time.time() > deadline:
                    skipped.append(1)
                    continue
            try:
                f("features%d" % i if i else "features")
            except BaseException:
                stop.append(1)
                raise

    def nworker():
        for c in (nsets if THOROUGH else [(), tuple(NOSTD), ("alloc",)] + rng.sample(nsets, 3)):
            nostd(c, "nostd")

    vlib.parallel([lambda i=i: worker(i) for i in range(4)] + [nworker])
    for i in range(4):
        # What is only needed once.
        for p in ("debug", "opt", "release"):
            d = os.path.join(vlib.TARGET, "features%d" % i if i else "features", p, "deps")
            if os.path.isdir(d):
                for f in os.listdir(d):
                    if f.startswith(("probe-", "liboauth", "credprobe-", "oauth")) and not f.endswith(".d") and THOROUGH:
                        os.unlink(os.path.join(d, f))
    for label, text in broken[:5]:
        res.violate("build:" + label, "%s: does not compile:\n%s" % (label, text), cmd=["true"])
    for crate, label, text in missing[:5]:
        if done[crate]:
            res.violate("missing:" + label, "%s: lacks what other feature sets have:\n%s" % (label, text[-3000:]), cmd=["true"])
        else:
            raise Inconclusive(text)
    shared = [k for k, n in seen.shared.items() if n > 1]
    res.evaluations = seen.lines
    res.distinct = len(shared)
    res.rule = "distinct (case, method and form of message or other observation) compared between at least two builds"
    res.samples = ["%s = %s (first in %s, %s)" % (k, seen.first[k][0], seen.first[k][1], seen.first[k][2]) for k in shared[:: max(1, len(shared) // 6)]][:6]
    res.add_events({"lines compared": seen.lines, "probe builds run": len(done["probe"]), "credential probe builds run": len(done["credprobe"]), "feature sets checked": len(done["check"]), "feature sets built without a standard library": len(done["nostd"]), "keys shared by at least 10 builds": sum(n >= 10 for n in seen.shared.values())})
    res.extra["uncovered_feature_pairs"] = left
    res.extra["skipped_for_time"] = len(skipped)
    if not res.violations and (len(done["probe"]) < 15 or not shared):
        raise Inconclusive("too few builds were compared: %s" % {k: len(v) for k, v in done.items()})
