"""C26: the example server and client, run as they are and observed over HTTP."""

import fcntl
import os
import re
import shutil
import signal
import socket
import struct
import subprocess
import sys
import time

import vlib
from vlib import NCPU, TARGET, THOROUGH, Inconclusive, cargo, drive, log, parallel

ADDR = ("127.0.0.1", 8080)
SRC = os.path.join(TARGET, "examples-src")


def listening():
    with socket.socket() as s:
        s.settimeout(2)
        return s.connect_ex(ADDR) == 0


def lo_up():
    with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as s:
        r = struct.pack("16sH14s", b"lo", 0, b"")
        flags = struct.unpack("16sH14s", fcntl.ioctl(s, 0x8913, r))[1]
        fcntl.ioctl(s, 0x8914, struct.pack("16sH14s", b"lo", flags | 1, b""))


def build(release):
    """Builds the examples from a copy, so that nothing is written to the repository."""
    cmd = ["cargo", "build", "--offline", "--locked", "--bins"] + (["--release"] if release else [])
    rc, out, err = vlib.run(cmd, timeout=700, cwd=SRC, env_=vlib.env(CARGO_TARGET_DIR=os.path.join(TARGET, "examples")))
    if rc != 0:
        raise Inconclusive("the examples do not compile:\n" + err[-6000:])
    d = os.path.join(TARGET, "examples", "release" if release else "debug")
    return os.path.join(d, "server"), os.path.join(d, "client")


def sources():
    if os.path.exists(SRC):
        shutil.rmtree(SRC)
    os.makedirs(SRC)
    shutil.copytree(os.path.join(vlib.REPO, "examples", "src"), os.path.join(SRC, "src"))
    with open(os.path.join(vlib.REPO, "examples", "Cargo.toml")) as f:
        t = f.read()
    with open(os.path.join(SRC, "Cargo.toml"), "w") as f:
        f.write(t.replace('"../', '"%s/' % vlib.REPO))
    shutil.copy(os.path.join(vlib.VERIF, "harness", "examples.lock"), os.path.join(SRC, "Cargo.lock"))


def c26(res):
    if listening() or os.environ.get("WEB_ISOLATE"):
        if os.environ.get("WEB_ISOLATED"):
            raise Inconclusive("port 8080 is in use in a network of its own")
        # Something else has the port: start over in a network of our own.
        sys.stdout.flush()
        os.environ.pop("WEB_ISOLATE", None)
        os.environ["WEB_ISOLATED"] = "1"
        os.execvp("unshare", ["unshare", "-Urn", sys.executable] + sys.argv)
    if os.environ.get("WEB_ISOLATED"):
        lo_up()
    sources()
    exes = {}

    def drivers():
        for p in ("debug", "release"):
            cargo("drive", ["build", "--offline", "--locked", "--bin", "web"] + (["--release"] if p == "release" else []), "drive")

    def servers():
        exes["debug"] = build(False)
        exes["release"] = build(True)

    parallel([drivers, servers])
    keys = ",".join(vlib.known_findings("C26"))
    for p in ("debug", "release"):
        one(res, p, *exes[p], keys)
    res.assumptions.append("The server is the program in examples/, with the credentials written in it; parameters of the same key more than once are left out, which it does not claim to sort.")


def one(res, p, server, client, keys):
    errf = os.path.join(TARGET, "examples-server-%s.log" % p)
    with open(errf, "w") as e:
        srv = subprocess.Popen([server], stdin=subprocess.DEVNULL, stdout=e, stderr=e, env=vlib.env(RUST_LOG="off"), start_new_session=True)
    try:
        t0 = time.time()
        while not listening():
            if srv.poll() is not None:
                raise Inconclusive("the server ended at once: " + open(errf).read()[-2000:])
            if time.time() - t0 > 20:
                raise Inconclusive("the server does not listen")
            time.sleep(0.05)
        rebuild = "cd %s && CARGO_TARGET_DIR=%s/examples cargo build --offline %s; %s & cd %s/harness/drive && CARGO_TARGET_DIR=%s/drive cargo build --offline --bin web %s" % (
            SRC, TARGET, "--release" if p == "release" else "", server, vlib.VERIF, TARGET, "--release" if p == "release" else "")
        drive(res, os.path.join(TARGET, "drive", p, "web"), "C26", p, 300 if THOROUGH else 60, threads=NCPU, scale=1.0 if THOROUGH else 4.0, rebuild=rebuild, env_=vlib.env(WEB_KNOWN=keys))
        # The whole flow, by the example client.
        runs = 40 if THOROUGH else 8
        for i in range(runs):
            rc, out, err = vlib.run([client], timeout=60)
            if rc is None:
                raise Inconclusive("the client does not finish")
            lines = out.splitlines()
            want = [r"foo=GET(&|$).*oauth_token=token", r"bar=POST&baz=%EF%BC%B0%EF%BC%AF%EF%BC%B3%EF%BC%B4&.*oauth_token=token"]
            if rc != 0 or len(lines) != 2 or not all(re.search(w, l) for w, l in zip(want, lines)):
                res.violate("client", "[%s] the example client does not complete the flow (exit %s): %r %s" % (p, rc, out[:500], err[-1500:]), rebuild=rebuild, cmd=[client])
                break
            res.add_events({"flows completed by the example client": 1})
        if srv.poll() is not None:
            res.violate("crash", "[%s] the server ended with %s: %s" % (p, srv.returncode, open(errf).read()[-2000:]), rebuild=rebuild, cmd=[client])
        res.add_events({"panics logged by the server": open(errf, errors="replace").read().count(" panicked at ")})
    finally:
        try:
            os.killpg(srv.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        srv.wait()
