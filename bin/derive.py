"""C16 and C17: the derive macro, observed on generated programs."""

import json
import os
import re
import shutil
import subprocess

import derivegen
import vlib
from vlib import NCPU, SEED, THOROUGH, TARGET, Inconclusive, RepoBroken, drive, log, parallel

LOCK = os.path.join(vlib.VERIF, "harness", "drive", "Cargo.lock")


ARTIFACTS = {}


def compile_all(root, cmd, timeout=700):
    """Runs cargo on the workspace; returns the compiler's messages: (package, message) and success."""
    shutil.copy(LOCK, os.path.join(root, "Cargo.lock"))
    e = vlib.env(CARGO_TARGET_DIR=os.path.join(TARGET, "derive-build"))
    rc, out, err = vlib.run(["cargo", cmd, "--offline", "--workspace", "--keep-going", "--message-format=json"], timeout=timeout, cwd=root, env_=e)
    if rc is None:
        raise Inconclusive("cargo %s did not finish" % cmd)
    msgs, finished = [], None
    ARTIFACTS.clear()
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        j = json.loads(line)
        if j["reason"] == "compiler-message":
            msgs.append((j["target"]["name"], j["target"]["src_path"], j["message"]))
        elif j["reason"] == "compiler-artifact":
            ARTIFACTS[j["target"]["name"].replace("-", "_")] = [x for x in j["filenames"] if x.endswith(".rlib")]
        elif j["reason"] == "build-finished":
            finished = j["success"]
    if finished is None:
        raise Inconclusive("cargo %s failed (rc %s):\n%s" % (cmd, rc, err[-5000:]))
    root = os.path.realpath(root)
    for name, src, m in msgs:
        if m["level"] in ("error", "error: internal compiler error") and not os.path.realpath(src).startswith(root + os.sep):
            text = m.get("rendered") or m["message"]
            if os.path.realpath(src).startswith(os.path.realpath(vlib.REPO) + os.sep):
                raise RepoBroken(text)
            raise Inconclusive("%s does not compile:\n%s" % (name, text[:4000]))
    return msgs, finished


def primary(m):
    """Locations of a message: the primary spans, outside of the macros which expanded to them."""
    out = []
    for s in m["spans"]:
        if s["is_primary"]:
            while s.get("expansion") and s["expansion"].get("span") and not s["file_name"].endswith(".rs"):
                s = s["expansion"]["span"]
            out.append((s["file_name"], s["line_start"], s["line_end"], s["byte_start"], s["byte_end"]))
    return out


# Outside of Cargo, the library is `oauth1_request` unless the attribute says otherwise.
OUTSIDE = """
#[derive(%(lib)s::Request)]
%(attr)s
struct Query<'a> { status: &'a str, oauth_a: Option<u8>, #[oauth1(rename = "a~", fmt = std::fmt::LowerHex::fmt)] n: u32, #[oauth1(skip_if = str::is_empty)] z: String }

fn main() {
    let q = Query { status: "a b\\u{e9}", oauth_a: None, n: 255, z: String::new() };
    assert_eq!(%(lib)s::to_form(&q), "a~=ff&status=a%%20b%%C3%%A9");
    let q = Query { status: "", oauth_a: Some(3), n: 16, z: "+".into() };
    assert_eq!(%(lib)s::to_form(&q), "a~=10&oauth_a=3&status=&z=%%2B");
    println!("done");
}
"""


def outside(res):
    """Compiles without Cargo and its environment."""
    rlibs = ARTIFACTS.get("oauth1_request")
    if not rlibs:
        raise Inconclusive("no library among the build's artifacts: %s" % sorted(ARTIFACTS))
    d = os.path.join(TARGET, "derive-outside")
    os.makedirs(d, exist_ok=True)
    e = {k: v for k, v in vlib.env().items() if not k.startswith("CARGO_") and not k.startswith("RUST")}
    for lib, attr, edition in [("oauth1_request", "", "2018"), ("oauth1_request", "", "2021"), ("oauth", "#[oauth1(crate = oauth)]", "2018"), ("other", "#[oauth1(crate = ::other)]", "2024")]:
        src = os.path.join(d, "%s_%s.rs" % (lib, edition))
        with open(src, "w") as f:
            f.write(OUTSIDE % dict(lib=lib, attr=attr))
        exe = src[:-3]
        cmd = ["rustc", "--edition", edition, "--crate-name", "outside", "-o", exe, "-L", "dependency=" + os.path.join(os.path.dirname(rlibs[0]), "deps"), "-L", "dependency=" + os.path.dirname(rlibs[0]), "--extern", "%s=%s" % (lib, rlibs[0]), src]
        rc, out, err = vlib.run(cmd, timeout=300, cwd=d, env_=e)
        what = "a declaration compiled by rustc alone, with the library as `%s` (%s)" % (lib, attr or "no attribute")
        if rc is None or "E0786" in err or "E0514" in err:
            raise Inconclusive("%s: %s" % (what, err[-2000:]))
        if rc != 0:
            res.violate("outside:%s:%s" % (lib, edition), "%s is rejected:\n%s" % (what, err[-3000:]), source=open(src).read(), cmd=cmd)
            continue
        rc, out, err = vlib.run([exe], timeout=60, cwd=d, env_=e)
        if rc is None:
            raise Inconclusive("%s did not finish" % what)
        if rc != 0 or out != "done\n":
            res.violate("outside:%s:%s" % (lib, edition), "%s misbehaves:\n%s" % (what, err[-3000:]), source=open(src).read(), cmd=cmd)
            continue
        res.add_events({"declarations compiled without Cargo": 1})


def c16(res):
    root = os.path.join(TARGET, "derive")
    rounds = 6 if THOROUGH else 1
    count = 500 if THOROUGH else 350
    res.assumptions.append("The struct declarations are those of the generator's grammar (bin/derivegen.py), in four editions.")
    decls = 0
    for k in range(rounds):
        seed = SEED * 1000 + k
        if os.path.exists(root):
            shutil.rmtree(root)
        members = derivegen.generate(root, seed, count)
        msgs, ok = compile_all(root, "build")
        bad = {}
        for name, src, m in msgs:
            if not m["level"].startswith("error"):
                continue
            for f, *_ in primary(m) or [(None,)]:
                g = re.search(r"(d\d\d_\d)/src/(m\d+)\.rs$", f or "")
                if g:
                    bad.setdefault(g.groups(), m.get("rendered") or m["message"])
                elif f:
                    # errors of the generated program itself
                    bad.setdefault((name, "main"), m.get("rendered") or m["message"])
        if not ok and not bad:
            raise Inconclusive("the generated programs do not compile, without a message in a declaration")
        for (mem, mod), text in sorted(bad.items()):
            path = os.path.join(root, mem, "src", mod + ".rs")
            res.violate("rejected:%s:%s" % (mem, mod), "a well-formed declaration is rejected (%s %s):\n%s" % (mem, mod, text[:1500]), source=open(path).read(), seed=seed)
        decls += count * len(members)
        rebuild = "python3 %s/bin/derivegen.py %s %d %d && cp %s %s && cd %s && CARGO_TARGET_DIR=%s/derive-build cargo build --offline --workspace" % (vlib.VERIF, root, seed, count, LOCK, root, root, TARGET)
        if ok:
            parallel([lambda x=x: drive(res, os.path.join(TARGET, "derive-build", "debug", x), "C16", x, 120, threads=1, rebuild=rebuild) for x in members])
        if ok and k == 0:
            outside(res)
        if res.violations:
            break
    res.extra["declarations"] = decls
    res.extra["distinct_rule_note"] = "the number of distinct forms is that of the program with the most"
    if len(res.extra.get("runs", [])) > 40:
        res.extra["runs"] = res.extra["runs"][:40]


def c17(res):
    import derivebad

    root = os.path.join(TARGET, "derive-bad")
    rounds = 8 if THOROUGH else 1
    count = 1200 if THOROUGH else 900
    res.rule = "distinct malformed declarations, each refused by the compiler at its own place"
    res.assumptions.append("Each malformed declaration has at least one mistake of the kinds in bin/derivebad.py; the compiler's own location of the error is taken.")
    seen = set()
    for k in range(rounds):
        if os.path.exists(root):
            shutil.rmtree(root)
        expect = derivebad.generate(root, SEED * 1000 + k, count)
        msgs, _ = compile_all(root, "check")
        hits, stray, odd = {}, {}, []
        for name, src, m in msgs:
            text = m.get("rendered") or m["message"]
            if not m["level"].startswith("error"):
                continue
            if re.match(r"aborting due to|Some errors have|For more information", m["message"]):
                continue
            if name.endswith("_n"):
                raise Inconclusive("a generated declaration is wrong by itself:\n" + text[:2000])
            where = primary(m)
            files = set()
            for f, l0, l1, *_ in where:
                g = re.search(r"([a-z]\d\d_\d)/src/(m\d+)\.rs$", f)
                if not g:
                    continue
                key = g.groups()
                files.add(key)
                kind, first, last, decl, must = expect[key]
                if "panicked" in m["message"]:
                    res.violate("panic:%s:%s" % key, "the macro panics on (%s):\n%s\n%s" % (kind, decl, text[:800]), source=decl)
                if first <= l0 and l1 <= last:
                    hits.setdefault(key, []).append(m["message"])
                else:
                    stray.setdefault(key, text)
            if not files:
                odd.append(text)
        if odd:
            # An error which is in no generated declaration at all.
            res.violate("elsewhere", "an error is located outside of every declaration:\n" + odd[0][:1500], count=len(odd))
        n = 0
        for key, (kind, first, last, decl, must) in sorted(expect.items()):
            res.evaluations += 1
            n += 1
            if must and key not in hits:
                res.violate("accepted:%s:%s" % key, "no error in a malformed declaration (%s; %s %s lines %d-%d):\n%s" % (kind, key[0], key[1], first, last, decl), source=decl)
            elif must:
                seen.add(decl)
                res.add_events({"refused: " + kind.split(" (")[0].split(" '")[0].split(" of ")[0]: 1, "errors located in the declaration": len(hits[key])})
                if len(res.samples) < 6 and n % 97 == 3:
                    res.samples.append("%s: %s" % (kind, hits[key][0]))
            else:
                res.add_events({"soup refused" if key in hits else "soup accepted": 1})
            if key in stray:
                res.violate("stray:%s:%s" % key, "an error is located outside of the malformed declaration (%s), in a well-formed neighbour:\n%s" % (kind, stray[key][:1500]), source=decl)
        if res.violations:
            break
    res.distinct = len(seen)
