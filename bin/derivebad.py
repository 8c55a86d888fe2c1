"""Generates malformed declarations for `derive(Request)`, each beside well-formed ones."""

import os
import random

import derivegen as g

SAFE = set(g.UNRES)
D = g.D

GOOD_FIELDS = [
    "%s: u64", "%s: ::std::string::String", "%s: Option<u8>", "#[oauth1(fmt = ::drive::derived::angle)] %s: bool",
    "#[oauth1(skip)] %s: ::drive::derived::Opaque", "#[oauth1(skip_if = ::drive::derived::short)] %s: i32", "#[oauth1(encoded)] %s: u8",
    "#[oauth1(option = true, skip_if = ::drive::derived::never)] %s: ::drive::derived::Maybe<u64>",
    "#[oauth1()] %s: char", "/// doc\n    %s: &'static str",
]
CHARS = [chr(c) for c in range(128) if chr(c) not in SAFE] + ["é", "あ", "🦀", "\u0301", "ſ", "\u200b", "\ufeff", "\x80", "Ａ", "．", "\u2024"]


def esc(s):
    out = ""
    for c in s:
        if c in '"\\' or ord(c) < 32 or ord(c) >= 127:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return '"%s"' % out


# Arguments which stand alone on a `u64` field and are wrong whatever surrounds them.
UNKNOWN = ["foo", "foo = 1", "foo(bar)", "skipif = ::drive::derived::never", "renam = \"x\"", "Encoded", "encode", "skip_if_", "options = true", "a::b", "::skip", "self::encoded", "_", "crate = ::drive::derived::again::inner", "krate = ::oauth", "fmt_", "format = ::drive::derived::angle", "default", "ENCODED", "option::value = true", "rename::x = \"y\"", "skipped", "key = \"x\"", "name = \"x\"", "bound", "with = ::drive::derived::angle"]
SHAPES = ["encoded = true", "encoded = \"x\"", "encoded()", "encoded(true)", "encoded = false", "skip = true", "skip = false", "skip()", "skip(x)", "skip = ::drive::derived::never", "rename", "rename(\"x\")", "rename()", "option", "option()", "option(true)", "option(false)", "fmt", "fmt(::drive::derived::angle)", "fmt()", "skip_if", "skip_if(::drive::derived::never)", "skip_if()"]
TYPES = ["rename = 1", "rename = b\"x\"", "rename = 'c'", "rename = x", "rename = x::y", "rename = \"a\" + \"b\"", "rename = true", "rename = 1.5", "rename = (\"x\")", "rename = [\"x\"]", "rename = &\"x\"", "rename = -1", "option = \"true\"", "option = 1", "option = yes", "option = !true", "option = ::std::option::Option", "option = 'c'", "option = {true}", "fmt = \"::drive::derived::angle\"", "fmt = 1", "fmt = |x, f| Ok(())", "fmt = ::drive::derived::angle()", "fmt = {::drive::derived::angle}", "fmt = true", "fmt = &::drive::derived::angle", "fmt = 'c'", "skip_if = \"x\"", "skip_if = true", "skip_if = |_| true", "skip_if = !::drive::derived::never", "skip_if = 0", "skip_if = ::drive::derived::never(&1)", "skip_if = [::drive::derived::never]", "fmt = \"\"", "fmt = (1, 2)"]
REPEAT = [("encoded", "encoded"), ("skip", "skip"), ("fmt = ::drive::derived::angle", "fmt = ::drive::derived::angle"), ("fmt = ::drive::derived::angle", "fmt = ::drive::derived::ignored"), ("option = false", "option = false"), ("option = false", "option = true"), ("option = true", "option = false"), ("rename = \"%k\"", "rename = \"%k\""), ("rename = \"%k\"", "rename = \"%k2\""), ("skip_if = ::drive::derived::never", "skip_if = ::drive::derived::never"), ("skip_if = ::drive::derived::never", "skip_if = ::drive::derived::always")]
SYNTAX = ["#[oauth1(,)]", "#[oauth1(encoded encoded)]", "#[oauth1(rename =)]", "#[oauth1(= \"x\")]", "#[oauth1(encoded,,skip)]", "#[oauth1(\"x\")]", "#[oauth1(fmt = a b)]", "#[oauth1(encoded;)]", "#[oauth1(1)]", "#[oauth1(rename = = \"x\")]", "#[oauth1(rename \"x\")]", "#[oauth1((encoded))]", "#[oauth1({encoded})]", "#[oauth1(encoded: true)]", "#[oauth1(-skip)]", "#[oauth1(rename => \"x\")]", "#[oauth1(#[skip])]", "#[oauth1(skip | encoded)]", "#[oauth1(fmt = )]", "#[oauth1(encoded = )]", "#[oauth1(!)]", "#[oauth1(skip[])]", "#[oauth1(rename{\"x\"})]", "#[oauth1]", "#[oauth1 = \"x\"]", "#[oauth1 = 1]", "#[oauth1(skip.encoded)]", "#[oauth1('a)]", "#[oauth1(skip = ,)]", "#[oauth1(option = true false)]"]
CONTAINER = ["foo", "encoded", "skip", "rename = \"x\"", "fmt = ::drive::derived::angle", "option = true", "skip_if = ::drive::derived::never", "crates = ::oauth", "krate = ::drive::derived::again::inner", "crate", "crate()", "crate(::oauth)", "crate = 1", "crate = || 1", "crate = true", "crate = a + b", "crate = f()", "a::b = 1", "name = \"x\"", "rename_all = \"camelCase\"", "Crate = ::drive::derived::again::inner", "crate = 'c'"]
SHAPE_DECL = ["pub enum Bad { A, B }", "pub enum Bad {}", "pub enum Bad { A { a: u8 }, B(u8) }", "pub struct Bad;", "pub struct Bad(u8);", "pub struct Bad();", "pub struct Bad(pub u8, #[oauth1(rename = \"x\")] pub u8);", "pub struct Bad<T>(T);", "pub union Bad { a: u8, b: u8 }", "pub enum Bad<'a> { A(&'a str) }", "pub enum Bad<T: Clone> where T: Copy { A(T) }", "pub struct Bad<const N: usize>([u8; N]);", "#[oauth1()] pub enum Bad { A }", "#[repr(u8)] pub enum Bad { A = 1, #[allow(dead_code)] B }", "pub struct Bad where u8: Copy;", "#[oauth1(crate = ::drive::derived::again::inner)] pub struct Bad(u8);"]

# Found by the type checker: (attributes, type).
BAD_TYPES = [
    ("fmt = bad_arity", "u64"), ("fmt = bad_arg", "u64"), ("fmt = bad_ret", "u64"), ("fmt = by_value", "u64"), ("fmt = NOT_FN", "u64"), ("fmt = ::drive::derived::reversed", "u64"), ("fmt = ::drive::derived::hex", "::std::string::String"), ("fmt = more", "u64"), ("fmt = ::drive::derived::never", "u64"),
    ("skip_if = bad_pred", "u64"), ("skip_if = pred_arg", "u64"), ("skip_if = pred_value", "u64"), ("skip_if = NOT_FN", "u64"), ("skip_if = ::drive::derived::negative", "u64"), ("skip_if = str::is_empty", "u64"), ("skip_if = ::std::option::Option::is_none", "Option<u64>"), ("skip_if = ::drive::derived::angle", "u64"), ("skip_if = pred_two", "u64"),
    ("option = true", "u64"), ("option = true", "::std::string::String"), ("option = true", "::drive::derived::OwnOption<u64>"), ("option = true, fmt = ::drive::derived::angle", "u64"), ("option = true", "::std::result::Result<u64, u64>"), ("option = true", "&'static str"), ("option = true", "::std::vec::Vec<u64>"),
    ("", "()"), ("", "::std::vec::Vec<u8>"), ("", "::drive::derived::Opaque"), ("", "Option<::drive::derived::Opaque>"), ("encoded", "()"), ("option = false", "Option<u64>"), ("", "::drive::derived::Maybe<u64>"), ("", "::std::option::Option<u64>"), ("encoded", "::drive::derived::Maybe<u64>"), ("skip_if = ::drive::derived::never", "::drive::derived::Opaque"), ("", "[u8; 2]"), ("option = false, encoded", "Option<u64>"), ("fmt = ::drive::derived::angle", "::drive::derived::Opaque"), ("fmt = ::std::fmt::LowerHex::fmt", "::std::string::String"),
]
HELPERS = """    use std::fmt::{Formatter, Result};
    pub fn bad_arity(_: &u64) -> Result { Ok(()) }
    pub fn more(_: &u64, _: &mut Formatter<'_>, _: u8) -> Result { Ok(()) }
    pub fn bad_arg(_: &bool, _: &mut Formatter<'_>) -> Result { Ok(()) }
    pub fn bad_ret(_: &u64, _: &mut Formatter<'_>) -> bool { true }
    pub fn by_value(_: u64, _: &mut Formatter<'_>) -> Result { Ok(()) }
    pub const NOT_FN: u8 = 1;
    pub fn bad_pred(_: &u64) -> u8 { 1 }
    pub fn pred_arg(_: &::std::string::String) -> bool { true }
    pub fn pred_value(_: u64) -> bool { true }
    pub fn pred_two(_: &u64, _: &u64) -> bool { true }
"""
UNRESOLVED = ["fmt = missing", "fmt = ::drive::derived::missing", "skip_if = missing::f", "skip_if = ::drive::derived::Assoc::missing_fn", "fmt = Self::nope", "fmt = <u64 as Missing>::f"]


def spell_args(rng, args, force=None):
    """One or more attributes."""
    args = list(args)
    if len(args) == 1 and rng.random() < 0.3:
        args.insert(rng.randrange(2), "encoded" if not args[0].startswith("encoded") else "fmt = ::drive::derived::angle")
        if args[0].split(" ")[0].split("(")[0] == args[1].split(" ")[0].split("(")[0]:
            args = args[:1]
    if rng.random() < 0.5 and len(args) > 1:
        out = ["#[oauth1(%s%s)]" % (a, rng.choice(["", ","])) for a in args]
    else:
        out = ["#[oauth1(%s%s)]" % (", ".join(args), rng.choice(["", ","]))]
    if rng.random() < 0.1:
        out = ["#[cfg_attr(all(), %s)]" % a[2:-1] for a in out]
    if rng.random() < 0.1:
        out.insert(0, "#[oauth1()]")
    if rng.random() < 0.1:
        out.insert(rng.randrange(len(out) + 1), "/// doc\n   ")
    return " ".join(out)


def struct(rng, bad_fields, cattrs="", unique=True):
    """A struct of well-formed fields and the given ones."""
    fields = []
    n = rng.choice([0, 0, 1, 2, 3, 6])
    for i in range(n):
        fields.append(rng.choice(GOOD_FIELDS) % ("ok_%d" % i))
    fields = fields + []
    for b in bad_fields:
        fields.insert(rng.randrange(len(fields) + 1), b)
    gen = rng.choice(["", "", "", "<'a>", "<T>"])
    if gen == "<'a>":
        fields.insert(rng.randrange(len(fields) + 1), "life: &'a str")
    if gen == "<T>":
        fields.insert(rng.randrange(len(fields) + 1), "generic: T")
    return "%spub struct Bad%s {\n    %s%s\n}" % (cattrs + "\n" if cattrs else "", gen, ",\n    ".join(fields), rng.choice(["", ","]) if fields else "")


def key(rng):
    return rng.choice(["a", "zz", "oauth_tok", "x", "Key", "k1", "oauth_z", "o.k~-"])


def macro_level(rng):
    """A declaration which the macro itself must refuse: (kind, source)."""
    k = rng.randrange(12)
    if k == 0:
        return "shape of the type", rng.choice(SHAPE_DECL)
    if k == 1:
        return "unknown attribute", struct(rng, [spell_args(rng, [rng.choice(UNKNOWN)]) + " f: u64"])
    if k == 2:
        return "wrong shape", struct(rng, [spell_args(rng, [rng.choice(SHAPES)]) + " f: u64"])
    if k == 3:
        return "ill-typed value", struct(rng, [spell_args(rng, [rng.choice(TYPES)]) + " f: u64"])
    if k == 4:
        a, b = rng.choice(REPEAT)
        kk = key(rng)
        a, b = (x.replace("%k2", kk + "2").replace("%k", kk) for x in (a, b))
        args = [a, b]
        if rng.random() < 0.3:
            other = next(o for o in ["encoded", "rename = \"q\"", "skip_if = ::drive::derived::short"] if o.split(" ")[0] not in (a.split(" ")[0],))
            args.insert(rng.randrange(3), other)
        if rng.random() < 0.2:
            args.append(a)
        ty = "Option<u64>" if "option = true" in (a, b) else "u64"
        return "repeated attribute", struct(rng, [spell_args(rng, args) + " f: " + ty])
    if k == 5:
        return "syntax error", struct(rng, [rng.choice(SYNTAX) + " f: u64"])
    if k == 6:
        c = rng.choice(CONTAINER)
        if rng.random() < 0.2:
            return "container attribute", struct(rng, [], rng.choice([s for s in SYNTAX]))
        if rng.random() < 0.15:
            return "repeated container attribute", struct(rng, [], "#[oauth1(crate = ::drive::derived::again::inner)]\n#[oauth1(crate = ::drive::derived::again::inner)]")
        return "container attribute", struct(rng, [], "#[oauth1(%s)]" % c)
    if k in (7, 8):
        c = rng.choice(CHARS)
        base = "".join(rng.choice(g.UNRES) for _ in range(rng.choice([0, 0, 1, 3, 10])))
        i = rng.randrange(len(base) + 1)
        args = ["rename = " + esc(base[:i] + c + base[i:])]
        if rng.random() < 0.3:
            args.append(rng.choice(["fmt = ::drive::derived::angle", "encoded", "skip_if = ::drive::derived::never"]))
        return "key not URI-safe (%r)" % c, struct(rng, [spell_args(rng, args) + " f: u64"])
    if k == 9:
        name = rng.choice(g.NON_ASCII + ["aé", "é", "x名"])
        return "non-ASCII field name", struct(rng, [rng.choice(["", "#[oauth1(encoded)] ", "#[oauth1(skip_if = ::drive::derived::never)] "]) + name + ": u64"])
    # Two parameters of the same key.
    kk = rng.choice(["type", "fn", "a", "zz", "oauth_tok", "x_", "A", "_", "~", "1", "oauth_z", "k.y", "loop", "x1y2"])
    ways = ["rename"] * 2
    if g.ident_ok(kk) and rng.random() < 0.6:
        ways[0] = "ident"
    fields = []
    for n, w in enumerate(ways + (["rename"] if rng.random() < 0.2 else [])):
        extra = rng.choice([[], [], ["encoded"], ["skip_if = ::drive::derived::always"], ["fmt = ::drive::derived::nothing"]])
        if w == "ident":
            name = "r#" + kk if kk in g.KEYWORDS else kk
            fields.append((spell_args(rng, extra) + " " if extra else "") + name + ": u64")
        else:
            fields.append(spell_args(rng, extra + ["rename = " + g.literal(rng, kk)]) + " dup_%d: %s" % (n, rng.choice(["u64", "Option<u64>"])))
    # `encoded` added twice by chance is a mistake all the same.
    return "duplicate key %r" % kk, struct(rng, fields)


def type_level(rng):
    a, ty = rng.choice(BAD_TYPES)
    return "type of %s with (%s)" % (ty, a), struct(rng, [("#[oauth1(%s)] " % a if a else "") + rng.choice(["f", "oauth_n", "tmp", "value", "r#type"]) + ": " + ty])


def unresolved(rng):
    a = rng.choice(UNRESOLVED)
    return "unresolved path (%s)" % a, struct(rng, ["#[oauth1(%s)] f: u64" % a])


TOKENS = ["encoded", "skip", "rename", "fmt", "option", "skip_if", "crate", "=", ",", "::", "\"x\"", "\"é\"", "\"\"", "true", "1", "'c'", "b\"x\"", "x", "r#type", "self", "Self", "super", "<", ">", "as", "u64", "|", "||", "!", "?", "&", "#", "..", "=>", "->", "-", ".", ";", ":", "'a", "_", "fn", "impl", "dyn", "if", "else", "match", "loop", "return", "async", "unsafe", "macro_rules", "$", "@", "~", "1.5", "r\"x\"", "c", "move", "\"\\u{0}\"", "\"a\\\n b\"", "1u8", "\"x\"y"]


def soup_tokens(rng, n):
    out = []
    for _ in range(n):
        if rng.random() < 0.2:
            o, c = rng.choice(["()", "[]", "{}"])
            out.append(o + soup_tokens(rng, rng.randrange(4)) + c)
        else:
            out.append(rng.choice(TOKENS[:9] if rng.random() < 0.5 else TOKENS[:-1]))
    return " ".join(out)


def soup(rng):
    f = ["#[oauth1(%s)] f%d: u64" % (soup_tokens(rng, rng.randrange(8)), i) for i in range(rng.randrange(4))]
    return "token soup", struct(rng, f, "#[oauth1(%s)]" % soup_tokens(rng, rng.randrange(6)) if rng.random() < 0.4 else "")


GROUPS = [("b15", "2015", "oauth1_request", 0, macro_level), ("b18", "2018", "oauth", 1, macro_level), ("b21", "2021", "oauth", 2, macro_level), ("b24", "2024", "my_oauth", 3, macro_level), ("t21", "2021", "oauth", 2, type_level), ("t24", "2024", "my_oauth", 3, type_level), ("u21", "2021", "oauth", 2, unresolved), ("s21", "2021", "oauth", 2, soup)]


def generate(root, seed, count):
    """Returns {(member, module): (kind, first line, last line, source)}."""
    expect = {}
    members = []
    for base, edition, lib, c, make in GROUPS:
        name = base + "_0"
        members.append(name)
        g.member(root, name, edition, g.CRATES[c][3])
        g.member(root, base + "_n", edition, "noop = { path = \"%s\" }" % os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "noop"))
        rng = random.Random("%s bad %s" % (seed, base))
        main = "#![allow(warnings)]\n%s" % ("extern crate drive;\nextern crate oauth1_request;\n" if edition == "2015" else "")
        n = count // 4 if make is unresolved else count
        for i in range(n):
            # Well-formed neighbours.
            src = g.make(rng, i, edition, lib) if i % 3 == 0 else ""
            if edition == "2015":
                src = src.replace("dyn ::std", "::std")
            kind, decl = make(rng)
            plain = "pub mod bad {\n" + (HELPERS if make is type_level else "") + "#[derive(::noop::Request)]\n%s\n}\n" % decl
            g.write(os.path.join(root, base + "_n", "src", "m%d.rs" % i), plain)
            src += "\npub mod bad {\n" + (HELPERS if make is type_level else "")
            src += "    #[derive(%s::Request)]\n    pub struct Before { pub a: u64, #[oauth1(rename = \"k\")] pub b: Option<u8> }\n\n" % lib
            first = src.count("\n") + 1
            src += "#[derive(%s::Request)]\n%s\n" % (lib, decl)
            last = src.count("\n")
            src += "\n    #[derive(%s::Request)]\n    pub struct After { #[oauth1(skip)] pub a: u64, pub b: bool }\n}\n" % lib
            g.write(os.path.join(root, name, "src", "m%d.rs" % i), src)
            main += "pub mod m%d;\n" % i
            expect[(name, "m%d" % i)] = (kind, first, last, decl, make is not soup)
        main += "fn main() {}\n"
        # The same declarations under a macro which accepts everything.
        g.write(os.path.join(root, base + "_n", "src", "main.rs"), main.replace("extern crate oauth1_request;", "extern crate noop;"))
        members.append(base + "_n")
        g.write(os.path.join(root, name, "src", "main.rs"), main)
    g.workspace(root, members)
    return expect
