"""Common parts of the checks: building, running drivers, collecting what they observed."""

import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
THOROUGH = TIER == "thorough"
SEED = int(os.environ.get("VERIF_SEED") or 1)
NCPU = os.cpu_count() or 4
T0 = time.time()


def log(*a):
    print(*a, flush=True)


class Inconclusive(Exception):
    """The check could not decide: an error of the check, not of the code."""


class RepoBroken(Exception):
    """The code under test does not compile in a configuration in which it should."""

    def __init__(self, text):
        super().__init__(text)
        self.text = text


class Result:
    """What was observed for one property."""

    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.distinct = 0
        self.rule = ""
        self.samples = []
        self.extra = {}
        self.violations = []  # dicts with at least "message" and "replay"
        self.assumptions = []
        self.level = "exploration"
        self.exhaustive = None
        self.events = {}

    def violate(self, key, message, **replay):
        self.violations.append(dict(key=key, message=message, **replay))

    def add_events(self, ev):
        for k, v in ev.items():
            if k.startswith("max:"):
                self.events[k] = max(self.events.get(k, 0), v)
            else:
                self.events[k] = self.events.get(k, 0) + v


def env(**extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "RUST_BACKTRACE", "MIRIFLAGS", "RUSTC_WRAPPER"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.update({k: v for k, v in extra.items() if v is not None})
    return e


def run(cmd, timeout=None, cwd=None, env_=None, stdin=None, limit_as=None):
    """Runs a command in its own process group; returns (rc, stdout, stderr); rc is None on timeout."""

    def pre():
        os.setsid()
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))

    p = subprocess.Popen(cmd, cwd=cwd, env=env_ or env(), stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=pre)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out, err


def cargo(crate, args, target, timeout=800, toolchain=None, env_=None):
    """Runs cargo for a harness crate. Raises RepoBroken if rustc reports an error located in the
    repository, and Inconclusive on any other failure."""
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + args
    e = env_ or env()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, target)
    rc, out, err = run(cmd, timeout=timeout, cwd=os.path.join(VERIF, "harness", crate), env_=e)
    if rc == 0:
        return out, err
    text = err[-12000:]
    if rc is not None:
        # error[...]: ...\n  --> /repo/...
        for m in re.finditer(r"^error[^\n]*\n\s+--> ([^\n:]+):", err, re.M):
            path = m.group(1)
            if os.path.realpath(path).startswith(os.path.realpath(REPO) + os.sep):
                raise RepoBroken(err[m.start():m.start() + 3000])
    raise Inconclusive("cargo %s failed in %s (rc %s):\n%s" % (" ".join(args), crate, rc, text))


def parallel(fns):
    """Runs the functions in threads; returns their results, re-raising the first exception."""
    res = [None] * len(fns)
    exc = [None] * len(fns)

    def go(i):
        try:
            res[i] = fns[i]()
        except BaseException as ex:  # noqa
            exc[i] = ex

    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fns))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for ex in exc:
        if isinstance(ex, RepoBroken):
            raise ex
    for ex in exc:
        if ex is not None:
            raise ex
    return res


SIGNAMES = {4: "SIGILL", 6: "SIGABRT", 7: "SIGBUS", 8: "SIGFPE", 11: "SIGSEGV"}


def drive(res, exe, prop, label, secs, threads=4, scale=1.0, env_=None, extra_args=(), wrapper=(), rebuild=None, timeout=None):
    """Runs a driver executable for a property and merges what its monitors saw into `res`."""
    os.makedirs(EVIDENCE, exist_ok=True)
    outf = os.path.join(EVIDENCE, ".%s-%s.json" % (prop, re.sub(r"\W", "_", label)))
    if os.path.exists(outf):
        os.unlink(outf)
    cmd = list(wrapper) + [exe, prop, "--tier", TIER, "--seed", str(SEED), "--out", outf, "--threads", str(threads), "--secs", str(secs), "--scale", str(scale)] + list(extra_args)
    rc, out, err = run(cmd, timeout=timeout or (secs + 240), env_=env_)
    base = dict(driver=exe, label=label, rebuild=rebuild, env={k: v for k, v in (env_ or {}).items() if os.environ.get(k) != v} if env_ else {})
    if rc in (0, 1):
        try:
            j = json.load(open(outf))
        except Exception as ex:
            raise Inconclusive("%s %s: no result (%s)\n%s\n%s" % (prop, label, ex, out[-2000:], err[-4000:]))
        os.unlink(outf)
        if rc == 1 and not j["violations"]:
            raise Inconclusive("%s %s: exit 1 without a violation\n%s" % (prop, label, err[-3000:]))
        for v in j["violations"]:
            res.violate("%s:%s" % (v["family"], v["index"]), "[%s] %s:%s %s" % (label, v["family"], v["index"], v["message"]), family=v["family"], index=v["index"], notes=v["notes"], seed=SEED, tier=TIER, **base)
        return merge(res, j, label)
    m = re.search(r"(WARNING: ThreadSanitizer: [^\n]*|ERROR: (?:Address|Leak)Sanitizer: [^\n]*)", err)
    if m:
        if "fatal error" in m.group(1):
            raise Inconclusive("%s %s: %s" % (prop, label, err[-3000:]))
        res.violate("sanitizer", "[%s] %s" % (label, m.group(1)), report=err[m.start():m.start() + 8000], seed=SEED, tier=TIER, cmd=cmd, **base)
        return None
    m = re.search(r"^CRASH (\d+) (\d+) (\d+)$", err, re.M)
    if m or (rc is not None and rc < 0 and -rc in SIGNAMES):
        sig = int(m.group(1)) if m else -rc
        where = m.groups()[1:] if m else ("?", "?")
        # A crash of the real code under a driver without unsafe code of its own.
        res.violate("crash", "[%s] the process was killed by %s in case %s" % (label, SIGNAMES.get(sig, sig), ":".join(where)), stderr=err[-6000:], seed=SEED, tier=TIER, **base)
        return None
    m = re.search(r"^HANG (\S+) (\d+)$", err, re.M)
    if m:
        # Decide by running this case alone, with nothing else competing.
        fam, idx = m.group(1), m.group(2)
        rc2, _, _ = run(list(wrapper) + [exe, prop, "--tier", TIER, "--seed", str(SEED), "--replay", "%s:%s" % (fam, idx)], timeout=150, env_=env_)
        if rc2 is None:
            res.violate("%s:%s" % (fam, idx), "[%s] case %s:%s does not finish" % (label, fam, idx), family=fam, index=int(idx), seed=SEED, tier=TIER, **base)
            return None
    raise Inconclusive("%s %s: driver ended with %s\n%s\n%s" % (prop, label, rc, out[-3000:], err[-6000:]))


def merge(res, j, label):
    res.evaluations += j["evaluations"]
    res.distinct = max(res.distinct, j["distinct_nontrivial"])
    res.rule = res.rule or j["rule"]
    res.samples += [s for s in j["samples"] if s not in res.samples][: max(0, 8 - len(res.samples))]
    res.add_events(j["events"])
    res.extra.setdefault("runs", []).append(dict(label=label, evaluations=j["evaluations"], distinct_nontrivial=j["distinct_nontrivial"], families=j["families"], debug_assertions=j["debug_assertions"], wall_ms=j["wall_ms"]))
    return j


def known_findings(prop):
    """Entries `finding: property=<id> key=<key> <text>`; `fixed:` entries suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def finish(res):
    """Writes the evidence and replay files, prints the verdict, returns the exit code."""
    os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
    known = known_findings(res.prop)
    for text in known.values():
        log("KNOWN-FINDING: property=%s %s" % (res.prop, text))
    bad = [v for v in res.violations if v["key"] not in known]
    cov = dict(evaluations=res.evaluations, distinct_nontrivial=res.distinct, rule=res.rule, samples=res.samples or ["(no case completed)"], events=res.events)
    if res.exhaustive is not None:
        cov["exhaustive"] = res.exhaustive
    cov.update(res.extra)
    ev = dict(property=res.prop, tier=TIER, seed=SEED, level=res.level, coverage=cov, assumptions=res.assumptions, wall_s=round(time.time() - T0, 2), violations=len(bad))
    path = os.path.join(EVIDENCE, res.prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(path + ".tmp", path)
    if not bad:
        log("%s held on everything explored: %d evaluations, %d distinct non-trivial, %.1f s" % (res.prop, res.evaluations, res.distinct, time.time() - T0))
        return 0
    shown = 0
    for v in bad:
        h = hashlib.sha256(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
        rp = os.path.join(EVIDENCE, "replay", "%s-%s.json" % (res.prop, h))
        with open(rp, "w") as f:
            json.dump(dict(property=res.prop, **v), f, indent=1, default=str)
        if shown < 5:
            log("VIOLATION property=%s replay=%s" % (res.prop, rp))
            log("  " + str(v["message"])[:1500].replace("\n", "\n  "))
            for n in v.get("notes", [])[:4]:
                log("    " + n[:800])
        shown += 1
    return 1
