"""How each property is decided."""

import json
import os

import derive
import features
import san
import vlib
import web
from vlib import NCPU, THOROUGH, cargo, drive, parallel, log

PROFILES = [("debug", []), ("release", ["--release"])]


def build(bins, features=(), crate="drive", target=None, profiles=PROFILES):
    """Builds driver binaries from the current tree in the given profiles, in parallel."""
    target = target or crate
    a = ["build", "--offline", "--locked"]
    for b in bins:
        a += ["--bin", b]
    if features:
        a += ["--features", ",".join(features)]
    parallel([lambda p=p: cargo(crate, a + p[1], target) for p in profiles])
    return {p[0]: [os.path.join(vlib.TARGET, target, p[0], b) for b in bins] for p in profiles}


def plain(bin_, features=(), quick=1.0, secs=(45, 900), threads=None, assumptions=(), before=None):
    """A property decided by one driver in both profiles."""

    def go(res):
        extra = {}

        def aside():
            if before:
                extra.update(before())

        exes = parallel([lambda: build([bin_], features), aside])[0]
        res.assumptions += list(assumptions)

        def one(p):
            rebuild = "cd %s/harness/drive && CARGO_TARGET_DIR=%s/drive cargo build --offline --bin %s %s %s" % (
                vlib.VERIF, vlib.TARGET, bin_, "--features " + ",".join(features) if features else "", "--release" if p == "release" else "")
            drive(res, exes[p][0], res.prop, p, secs[1] if THOROUGH else secs[0], threads=threads or max(2, NCPU // 2), scale=1.0 if THOROUGH else quick, rebuild=rebuild, env_=vlib.env(**extra))

        parallel([lambda p=p: one(p) for p, _ in PROFILES])

    return go


def bare():
    """A program which signs with a build that has neither `std` nor `alloc`."""
    cargo("bare", ["build", "--offline", "--locked", "--release"], "bare")
    return dict(BARE_NONCE=os.path.join(vlib.TARGET, "bare", "release", "bare"))


ORACLE = "The oracle (RFC 5849 encoder, parsers, base string, SHA-1, HMAC) is independent code in harness/oracle, self-tested on the RFC's vectors."

PLANS = {
    "C01": plain("sign", quick=12, assumptions=[ORACLE]),
    "C02": plain("rsa", ["rsa"], quick=16, assumptions=[ORACLE]),
    "C03": plain("sign", quick=6, assumptions=[ORACLE]),
    "C04": plain("sign", quick=24, assumptions=[ORACLE]),
    "C05": plain("sign", quick=30, assumptions=[ORACLE]),
    "C06": plain("proto", quick=10),
    "C07": plain("proto", quick=30, assumptions=[ORACLE]),
    "C08": plain("proto", quick=30),
    "C09": plain("enc", quick=8, assumptions=[ORACLE]),
    "C10": plain("enc", quick=12),
    "C11": plain("fresh", quick=6, before=bare, assumptions=["Randomness of the operating system is assumed; what is observed is that nonces depend on at least 64 bits of it and do not repeat."]),
    "C12": plain("fresh", quick=8, assumptions=["The clock is interposed at clock_gettime and its relatives in the driver."]),
    "C13": plain("rsa", ["rsa"], quick=10),
    "C14": plain("cred", ["serde"], quick=24, assumptions=[ORACLE]),
    "C15": plain("cred", ["serde"], quick=30),
    "C16": derive.c16,
    "C17": derive.c17,
    "C18": features.c18,
    "C19": san.c19,
    "C20": san.c20,
    "C21": plain("proto", quick=30),
    "C22": plain("rsa", ["rsa"], quick=16),
    "C23": plain("proto", quick=6),
    "C24": plain("enc", quick=16, assumptions=[ORACLE]),
    "C25": plain("enc", quick=16),
    "C26": web.c26,
}


def replay(prop, j):
    """Runs one recorded case again."""
    import subprocess

    if j.get("rebuild"):
        log("$", j["rebuild"])
        if subprocess.call(j["rebuild"], shell=True):
            return 2
    if j.get("family") is not None:
        cmd = [j["driver"], prop, "--tier", j["tier"], "--seed", str(j["seed"]), "--replay", "%s:%s" % (j["family"], j["index"])]
    elif j.get("cmd"):
        cmd = j["cmd"]
    else:
        print(json.dumps(j, indent=1))
        return 2
    log("$", " ".join(cmd))
    return subprocess.call(cmd, env=vlib.env(**j.get("env", {})))
