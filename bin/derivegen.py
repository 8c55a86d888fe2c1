"""Generates programs of structs deriving `Request`, together with what each of them declares.

Every declaration is in the grammar which the documentation allows, so that the programs compile; the
expected parameters are computed by the generated program from the values themselves.
"""

import os
import random
import re

PROTO = ["oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature_method", "oauth_timestamp", "oauth_token", "oauth_verifier", "oauth_version"]
RESERVED = set(PROTO) | {"oauth_signature"}
UNRES = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"
IDENT = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"
HAZARDS = ["tmp", "value", "helper", "serializer", "fmt", "this", "ser", "bind", "f", "t", "x", "end", "Fmt", "T", "F", "serialize", "_S", "_oauth1_request", "Some", "Option"]
KEYWORDS = ["type", "fn", "match", "ref", "move", "async", "dyn", "try", "gen", "yield", "abstract", "union", "default", "auto", "raw", "loop", "where", "impl", "static", "in", "as", "box", "macro", "become", "priv", "virtual", "final", "do", "override", "typeof", "unsized", "await", "const", "enum", "extern", "for", "if", "let", "mod", "mut", "pub", "return", "struct", "trait", "unsafe", "use", "while", "true", "false", "break", "continue", "else"]
PLAIN_OK = {"union", "default", "auto", "raw"}
NON_ASCII = ["naïve", "ключ", "名前", "ſ"]

D = "::drive::derived::"
SHOW = (D + "Assoc::show", "::std::format!(\"{:?}\", x)")
ANGLE = (D + "angle", D + "with(x, " + D + "angle)")
IGNORED = (D + "ignored", "::std::string::String::from(\"ignored & gone\")")
NOTHING = (D + "nothing", "::std::string::String::new()")
ENCODED = (D + "encoded", D + "with(x, " + D + "encoded)")
DISPLAY = ("::std::fmt::Display::fmt", "::std::string::ToString::to_string(x)")
DEBUG = ("::std::fmt::Debug::fmt", "::std::format!(\"{:?}\", x)")
ALWAYS = (D + "always", "true")
NEVER = (D + "never", "false")
SHORT = (D + "short", D + "short(x)")


class Kind:
    """A field type: how to name, make, display, format and test it."""

    def __init__(self, ty, gen, display=True, canonical=None, debug=True, fmts=(), preds=(), owner=None, life=False, alt=None, ctext=None):
        self.ty, self.gen, self.display, self.life, self.owner = ty, gen, display, life, owner
        # Expressions of values whose text is canonically encoded.
        self.cgen = gen if canonical is True else canonical
        self.cowner = ctext
        self.fmts = list(fmts) + [IGNORED, NOTHING]
        self.preds = list(preds) + [ALWAYS, NEVER]
        if display:
            self.fmts += [ANGLE, ENCODED, DISPLAY, (D + "angle::<_>", ANGLE[1])]
            self.preds += [SHORT]
        if debug:
            self.fmts += [SHOW, DEBUG]
        self.safe_fmts = [NOTHING] + ([ENCODED] if display else []) + ([DISPLAY] if self.cgen else [])
        self.alt = alt or [ty]


def integer(ty):
    preds = []
    if ty == "i32":
        preds = [(D + "negative", "*x < 0")]
    if ty == "u64":
        preds = [(D + "ODD", "*x % 2 == 1"), (D + "Assoc::odd", "*x % 2 == 1")]
    fmts = [(D + "POINTER", "::std::format!(\"{} {}\", x, x)")] if ty == "u64" else []
    if ty not in ("f64",):
        fmts.append(("::std::fmt::LowerHex::fmt", "::std::format!(\"{:x}\", x)"))
        fmts.append(("<%s as ::std::fmt::Binary>::fmt" % ty, "::std::format!(\"{:b}\", x)"))
    return Kind(ty, "(r.u64() >> r.below(64)) as %s" % ty, canonical=True, preds=preds, fmts=fmts)


STRFMT = [(D + "reversed", D + "with(&**x, " + D + "reversed)"), ("<str as ::std::fmt::Display>::fmt", "::std::string::ToString::to_string(x)"), ("<str as ::std::fmt::Debug>::fmt", "::std::format!(\"{:?}\", x)")]
STRPRED = [("str::is_empty", "x.is_empty()"), ("<str>::is_empty", "x.is_empty()"), ("str::is_ascii", "x.is_ascii()")]

KINDS = [
    integer("u8"), integer("i32"), integer("u64"), integer("i128"), integer("usize"),
    Kind("::std::num::NonZeroU32", "::std::num::NonZeroU32::new(r.u64() as u32 | 1).unwrap()", canonical=True),
    Kind("::std::num::Wrapping<i64>", "::std::num::Wrapping(r.u64() as i64)", canonical=True),
    Kind("bool", "r.chance(1, 2)", canonical=True, preds=[("::std::clone::Clone::clone", "*x")]),
    Kind("char", "::drive::derived::any_char(r)", canonical="(b'a' + r.below(26) as u8) as char", preds=[("char::is_ascii", "x.is_ascii()")]),
    Kind("f64", "f64::from_bits(r.u64())", canonical=True),
    Kind("::std::string::String", D + "text(r)", canonical=D + "canonical(r)", fmts=STRFMT, preds=STRPRED + [("::std::string::String::is_empty", "x.is_empty()")]),
    Kind("&'a str", "&*own", owner=D + "text(r)", ctext=D + "canonical(r)", canonical="&*own", life=True, fmts=STRFMT, preds=STRPRED),
    Kind("&'static str", "\"st & ic\"", canonical="\"st.at-ic\"", fmts=STRFMT, preds=STRPRED),
    Kind("::std::boxed::Box<str>", D + "text(r).into_boxed_str()", canonical=D + "canonical(r).into_boxed_str()", fmts=STRFMT, preds=STRPRED),
    Kind("::std::rc::Rc<str>", "::std::rc::Rc::<str>::from(" + D + "text(r))", canonical="::std::rc::Rc::<str>::from(" + D + "canonical(r))", fmts=STRFMT, preds=STRPRED),
    Kind("::std::sync::Arc<::std::string::String>", "::std::sync::Arc::new(" + D + "text(r))", canonical="::std::sync::Arc::new(" + D + "canonical(r))", fmts=[(D + "reversed", D + "with(&***x, " + D + "reversed)")], preds=STRPRED),
    Kind("::std::borrow::Cow<'a, str>", "if r.chance(1, 2) { ::std::borrow::Cow::Borrowed(&*own) } else { ::std::borrow::Cow::Owned(own.clone()) }", owner=D + "text(r)", life=True, fmts=STRFMT, preds=STRPRED),
    Kind("::drive::derived::Val", "::drive::derived::val(r)"),
    Kind("&'a ::drive::derived::Val", "&own", owner="::drive::derived::val(r)", life=True),
    Kind("&'a dyn ::std::fmt::Display", "&own as &dyn ::std::fmt::Display", owner="::drive::derived::val(r)", life=True, debug=False),
    Kind("::std::boxed::Box<dyn ::std::fmt::Display>", "::std::boxed::Box::new(" + D + "text(r)) as ::std::boxed::Box<dyn ::std::fmt::Display>", debug=False, alt=["::std::boxed::Box<dyn ::std::fmt::Display + 'static>", "::std::boxed::Box<dyn ::std::fmt::Display>"]),
    Kind("&'a &'a u64", "&own", owner="&5u64", life=True, canonical=True),
    Kind("::std::net::IpAddr", "::std::net::IpAddr::from((r.u64() as u32).to_be_bytes())", canonical=True, preds=[("::std::net::IpAddr::is_loopback", "x.is_loopback()")]),
    Kind(D + "OwnOption<u64>", D + "OwnOption(r.u64())"),
    Kind(D + "own::Option<u64>", D + "own::Option(r.u64())", debug=False),
    Kind("<" + D + "HasU64 as " + D + "Has>::A", "r.u64()", canonical=True),
    Kind("(u8, ::std::string::String)", "(r.u64() as u8, " + D + "text(r))", display=False),
    Kind("[u16; 3]", "[r.u64() as u16; 3]", display=False),
    Kind("::std::vec::Vec<u8>", "(0..r.below(5)).map(|i| i as u8).collect::<::std::vec::Vec<u8>>()", display=False, fmts=[(D + "hex", D + "with(&**x, " + D + "hex)")], preds=[("<[u8]>::is_empty", "x.is_empty()"), ("::std::vec::Vec::is_empty", "x.is_empty()")]),
    Kind("()", "()", display=False),
    Kind(D + "Opaque", D + "Opaque(7)", display=False, debug=False),
    Kind("fn(u8) -> u8", "{ fn same(x: u8) -> u8 { x } same as fn(u8) -> u8 }", display=False, debug=False),
    Kind("::std::option::Option<u64>", "if r.chance(1, 2) { Some(r.u64()) } else { None }", display=False, preds=[("::std::option::Option::is_none", "x.is_none()")]),
]

INNER = dict(T="::std::string::String", U="u64", V="&'static str", W="::drive::derived::Val")

# Functions of nasty names, for `fmt` (of `u64`) and `skip_if` (of `u64`).
LOCAL_FNS = ["tmp", "value", "helper", "serializer", "fmt", "Fmt", "this", "show", "Display", "serialize", "_oauth1"]

NASTY_MOD = [
    "pub struct Fmt; pub struct Formatter; pub trait Display {}",
    "pub struct DeriveRequestAssertion; pub struct FmtHelper;",
    "pub type Result<T> = ::std::result::Result<T, ()>;",
    "pub enum Never { Some, None, Ok, Err } #[allow(unused_imports)] pub use self::Never::*;",
    "pub trait Request {} pub trait Serializer {} pub struct Builder;",
    "pub mod core { pub mod fmt {} pub mod option {} } pub mod std { pub mod fmt {} } pub mod oauth {} pub mod oauth1_request {} pub mod alloc {}",
    "pub trait Evil { fn serialize_parameter(&mut self) {} fn serialize_parameter_encoded(&mut self) {} fn fmt_impls_fn(&self) {} fn skip_if_impls_fn(&self) {} fn as_ref(&self) -> u8 { 0 } fn serialize_oauth_token(&mut self) {} } impl<T: ?::std::marker::Sized> Evil for T {}",
    "macro_rules! if_ { () => {} } macro_rules! unimplemented { () => { loop {} } } macro_rules! stringify { ($($t:tt)*) => { 0 } } macro_rules! concat { ($($t:tt)*) => { 0 } }",
    "pub struct Option<T = u64>(pub T); impl<T: ::std::fmt::Display> ::std::fmt::Display for Option<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { ::std::fmt::Display::fmt(&self.0, f) } }",
    "pub struct Vec; pub struct String; pub struct Box; pub type Copy = (); pub trait Fn {} pub trait Sized {} pub type str_ = u8;",
    "#[allow(non_camel_case_types)] pub type u64_ = u8; pub const TMP: u8 = 1; pub static VALUE: u8 = 2; pub const HELPER: u8 = 3;",
    "pub trait Drop {} pub trait Into {} pub trait AsRef {} pub trait ToString {} pub trait Iterator {}",
]
NASTY_LOCAL = ["let tmp = 1; let value = \"v\"; let helper = (); let serializer = 'c'; let fmt = 2u8; let this = 0; let _ = (tmp, value, helper, serializer, fmt, this);"]


def literal(rng, s):
    """Spellings of a string literal."""
    k = rng.randrange(8)
    if k == 0:
        return 'r"%s"' % s
    if k == 1:
        return 'r##"%s"##' % s
    if k == 2 and s:
        i = rng.randrange(len(s))
        return '"%s\\x%02x%s"' % (s[:i], ord(s[i]), s[i + 1:])
    if k == 3 and s:
        i = rng.randrange(len(s))
        return '"%s\\u{%x}%s"' % (s[:i], ord(s[i]), s[i + 1:])
    if k == 4 and len(s) > 1:
        i = rng.randrange(1, len(s))
        return '"%s\\\n        %s"' % (s[:i], s[i:])
    return '"%s"' % s


def near_proto(rng, alphabet):
    s = rng.choice(PROTO + ["oauth_signature", "oauth_", "oauth"])
    k = rng.randrange(5)
    if k == 0:
        s = s[: rng.randrange(1, len(s) + 1)]
    elif k == 1:
        s += rng.choice(alphabet)
    elif k == 2:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(alphabet) + s[i + 1:]
    elif k == 3:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(alphabet) + s[i:]
    else:
        i = len(s) - 1
        s = s[:i] + chr(ord(s[i]) + rng.choice([-1, 1]))
        if s[-1] not in alphabet:
            s = s[:-1] + "_"
    return s


def random_key(rng):
    k = rng.randrange(4)
    if k == 0:
        s = near_proto(rng, UNRES)
    elif k == 1:
        s = "".join(rng.choice(UNRES) for _ in range(rng.randrange(1, 4)))
    elif k == 2:
        s = "".join(rng.choice(UNRES) for _ in range(rng.randrange(1, 30)))
    else:
        s = rng.choice(["a", "Z", "0", "~", "-", ".", "_", "status", "include_entities", "oauth", "zz", "n", "p", "OAUTH_TOKEN", "oauth_tokeN"])
    return s


def ident_ok(s):
    return s and not s[0].isdigit() and s not in ("_", "self", "Self", "super", "crate") and all(c in IDENT for c in s)


def random_ident(rng):
    """Returns (spelling, name)."""
    k = rng.randrange(10)
    if k < 2:
        s = rng.choice(HAZARDS)
        return s, s
    if k < 4:
        s = rng.choice(KEYWORDS)
        return ("r#" + s, s) if s not in PLAIN_OK or rng.random() < 0.5 else (s, s)
    if k < 7:
        while True:
            s = near_proto(rng, IDENT)
            if ident_ok(s) and s not in KEYWORDS:
                return ("r#" + s if rng.random() < 0.1 else s), s
    while True:
        s = "".join(rng.choice(IDENT) for _ in range(rng.choice([1, 1, 2, 3, 8, 40])))
        if ident_ok(s) and s not in KEYWORDS:
            return s, s


def attrs(rng, metas, noise=True):
    """Spells attribute arguments, in any grouping."""
    metas = list(metas)
    rng.shuffle(metas)
    groups = []
    while metas:
        n = rng.randrange(1, len(metas) + 1)
        groups.append(metas[:n])
        metas = metas[n:]
    out = []
    for g in groups:
        sp = [rng.choice(["%s", " %s ", "%s\n"]) % m for m in g]
        text = "#[oauth1(%s%s)]" % (",".join(sp), rng.choice(["", "", ","]))
        if rng.random() < 0.08:
            text = "#[cfg_attr(all(), %s)]" % text[2:-1]
        out.append(text)
    if noise:
        for n, p in [("#[oauth1()]", 0.05), ("/// A `value`.\n", 0.1), ("#[allow(dead_code)]", 0.1), ("#[cfg(all())]", 0.05), ("#[cfg_attr(any(), oauth1(unknown))]", 0.05), ("/** doc */", 0.04), ("#[cfg_attr(any(), doc = \"x\")]", 0.03), ("#[allow(dead_code,)]", 0.02)]:
            if rng.random() < p:
                out.insert(rng.randrange(len(out) + 1), n)
    return " ".join(out) if rng.random() < 0.5 else "\n        ".join(out)


class Field:
    pass


def make_field(rng, i, ctx, used_names, used_keys):
    f = Field()
    while True:
        f.spell, name = random_ident(rng)
        if name not in used_names:
            break
    if name in RESERVED:
        # Not a name for a parameter unless renamed or skipped.
        pass
    f.pre, f.metas, f.uses_life = "", [], False
    f.generic = None
    choice = rng.random()
    if ctx["types"] and choice < 0.2:
        g = rng.choice(ctx["types"])
        inner = INNER[g]
        base = next(k for k in KINDS if k.ty == inner)
        k = Kind(g, base.gen, canonical=base.cgen, debug=False)
        f.generic = g
    elif ctx["const"] and choice < 0.26:
        k = Kind(D + "Arr<N>", D + "Arr::<4>([r.u64() as u8; 4])", canonical=True)
    elif ctx["own_option"] and choice > 0.7:
        k = rng.choice([x for x in KINDS if x.ty in ("u64", "u8", "bool")])
    else:
        k = rng.choice(KINDS)
    skip = rng.random() < 0.08
    if skip and rng.random() < 0.3:
        k = rng.choice([Kind("::std::marker::PhantomData<%s>" % t, "::std::marker::PhantomData::<%s>" % INNER.get(t, t), display=False) for t in ctx["types"] + ["dyn ::std::fmt::Debug"]])
    if k.life:
        f.uses_life = True
    # Optional?
    form = "plain"
    if k.ty != "::std::option::Option<u64>" and rng.random() < 0.35 and not k.ty.startswith("::std::marker"):
        form = rng.choice(["Option", "Option", "Option", "true", "true", "alias", "false", "redundant"])
        if ctx["own_option"] and form in ("Option", "false", "redundant"):
            form = "true"
        if form == "false" and not any(x is SHOW for x in k.fmts):
            form = "Option"
    elif ctx["own_option"] and k.display and not k.life and rng.random() < 0.3 and k.ty in ("u64", "u8", "bool"):
        form = "own"
    elif rng.random() < 0.05:
        form = "plain-false"
    ty = rng.choice(k.alt)
    encoded = rng.random() < 0.25
    fmt = None
    pred = None
    if form == "own":
        encoded = encoded and False
        fmts, safe = [IGNORED], []
        preds = [ALWAYS, NEVER]
    elif form == "false":
        fmts, safe = [SHOW, IGNORED, NOTHING, DEBUG], [NOTHING]
        preds = [("::std::option::Option::is_none", "x.is_none()"), ALWAYS, NEVER, ("::std::option::Option::is_some", "x.is_some()")]
    else:
        fmts, safe, preds = k.fmts, k.safe_fmts, k.preds
    local = None
    if form not in ("false", "own") and k.ty == "u64" and ctx["local_fns"] and rng.random() < 0.5:
        n = rng.choice(ctx["local_fns"])
        local = (n, "::std::format!(\"%s{}\", *x + 1)" % n)
    needs_fmt = form == "false" or not k.display
    if skip:
        f.skip = True
        f.metas.append("skip")
        needs_fmt = False
    else:
        f.skip = False
    canonical_text = False
    if encoded:
        if not needs_fmt and k.cgen and form not in ("own",) and rng.random() < 0.7:
            canonical_text = True
            if rng.random() < 0.2:
                fmt = DISPLAY
        elif safe:
            fmt = rng.choice(safe)
            canonical_text = fmt is DISPLAY
        else:
            encoded = False
    if fmt is None and not encoded and (needs_fmt or rng.random() < 0.3):
        fmt = local if local else rng.choice(fmts)
    if rng.random() < 0.25:
        pred = rng.choice(preds)
        if form not in ("false", "own") and k.ty == "u64" and ctx["local_preds"] and rng.random() < 0.6:
            n = rng.choice(ctx["local_preds"])
            pred = (n, "*x % 3 == 0")
    if encoded:
        f.metas.append("encoded")
    if fmt:
        f.metas.append("fmt = " + fmt[0])
    if pred:
        f.metas.append("skip_if = " + pred[0])
    # Key.
    rename = rng.random() < 0.35
    if name in RESERVED and not f.skip:
        rename = True
    if not f.skip and not rename and name in used_keys:
        rename = True
    if rng.random() < 0.03 and (f.skip or rename):
        n = rng.choice(NON_ASCII)
        if n not in used_names:
            f.spell, name = n, n
    f.key = name
    if rename:
        while True:
            key = random_key(rng)
            if f.skip or (key not in used_keys and key not in RESERVED):
                break
        f.key = key
        f.metas.append("rename = " + literal(rng, key))
    used_names.add(name)
    if not f.skip:
        used_keys.add(f.key)
    # Type and value.
    gen, owner = k.gen, k.owner
    if encoded and canonical_text:
        gen = k.cgen
        owner = k.cowner or k.owner
    f.pre = ""
    if owner:
        f.pre = "let own%d = %s;" % (i, owner)
        gen = gen.replace("own", "own%d" % i)
    f.wrapped = form in ("Option", "true", "alias", "redundant")
    if form == "Option":
        f.ty = "Option<%s>" % ty
    elif form == "redundant":
        f.ty = "Option<%s>" % ty
        f.metas.append("option = true")
    elif form == "true":
        f.ty = rng.choice(["::std::option::Option<%s>", "::core::option::Option<%s>" if ctx["edition"] != "2015" else "::std::option::Option<%s>", "::std::option::Option<%s>"]) % ty
        f.metas.append("option = true")
    elif form == "alias":
        f.ty = D + "Maybe<%s>" % ty
        f.metas.append("option = true")
    elif form == "false":
        f.ty = "Option<%s>" % ty
        f.metas.append("option = false")
    elif form == "own":
        f.ty = "Option<%s>" % ty
        if k.ty == "u64" and rng.random() < 0.5:
            # Not an `Option` of anything, as far as can be seen.
            f.ty = "Option"
        if f.ty != "Option" or rng.random() < 0.2:
            f.metas.append("option = false")
        gen = "decl::Option(%s)" % gen if ctx["module"] else "Option(%s)" % gen
    else:
        f.ty = ty
        if form == "plain-false":
            f.metas.append("option = false")
    if f.wrapped or form == "false":
        f.value = "if r.chance(2, 3) { ::std::option::Option::Some(%s) } else { ::std::option::Option::None }" % gen
    else:
        f.value = gen
    # Expected parameter.
    text = fmt[1] if fmt else ("::std::string::ToString::to_string(&x.0)" if form == "own" else "::std::string::ToString::to_string(x)")
    push = "e.push(%sparam(%s, %s, %s));" % (D, '"%s"' % f.key, text, "true" if encoded else "false")
    if pred:
        push = "if !(%s) { %s }" % (pred[1], push)
    if f.wrapped:
        push = "if let ::std::option::Option::Some(x) = f%d.as_ref() { %s }" % (i, push)
    else:
        push = "{ let x = &f%d; let _ = x; %s }" % (i, push)
    f.push = "" if f.skip else push
    return f


def make(rng, n, edition, lib, big=False):
    """One module with one declaration; returns its source."""
    ctx = dict(types=[], const=False, used_const=False, edition=edition, local_fns=[], local_preds=[], own_option=False)
    shape = rng.choices(["module", "fn", "macro", "unsized"], [6, 3, 2, 0.6])[0]
    ctx["module"] = shape in ("module", "macro")
    if rng.random() < 0.3 and shape != "macro":
        ctx["types"] = rng.sample(["T", "U", "V", "W"], rng.randrange(1, 4))
    if rng.random() < 0.15:
        ctx["const"] = True
    nasty = rng.sample(range(len(NASTY_MOD)), rng.choice([0, 0, 1, 1, 2, 3]))
    if 1 in nasty and rng.random() < 0.5:
        nasty = nasty[:1]
    # These define the same names.
    excl = [(0, 4), (4, 5)]
    for a, b in excl:
        if a in nasty and b in nasty:
            nasty.remove(b)
    ctx["own_option"] = 8 in nasty
    if 6 in nasty and shape != "module":
        nasty.remove(6)
    if 3 in nasty and shape != "module":
        nasty.remove(3)
    if 8 in nasty and shape == "fn":
        pass
    taken = set()
    if 0 in nasty:
        taken |= {"Fmt", "Display"}
    if rng.random() < 0.4 and shape == "module":
        names = [x for x in LOCAL_FNS]
        rng.shuffle(names)
        ctx["local_fns"] = names[:3]
        ctx["local_preds"] = [x for x in names[3:5]]
    if shape == "macro":
        return make_macro(rng, n, edition, lib)
    if shape == "unsized":
        return make_unsized(rng, n, edition, lib)
    nf = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 20]) if not big else rng.randrange(60, 140)
    names, keys = set(), set()
    fields = [make_field(rng, i, ctx, names, keys) for i in range(nf)]
    life = any(f.uses_life for f in fields)
    # Unused type parameters are not allowed.
    text = " ".join(f.ty for f in fields)
    used = [t for t in ctx["types"] if re.search(r"\b%s\b" % t, re.sub(r"::std::\w+::\w+<dyn[^>]*>|HasU64|::drive::\w+::\w+", "", text))]
    ctx["used_const"] = "Arr<N>" in text
    params, args = [], []
    if life:
        params.append("'a" if rng.random() < 0.7 else "'a: 'a")
    where = []
    for t in used:
        b = rng.choice(["%s", "%s: ::std::clone::Clone", "%s: ::std::fmt::Display", "%s: ::std::clone::Clone + ::std::fmt::Display", "%s:"]) % t
        if rng.random() < 0.2:
            where.append("%s: ::std::marker::%s" % (t, "Sized"))
        params.append(b)
    if ctx["used_const"]:
        params.append("const N: usize")
    if used and not ctx["used_const"] and rng.random() < 0.15:
        params[-1] += " = u64"
    sname = rng.choice(["S", "S", "Item", "Fmt", "Display", "Result", "Formatter", "Request", "Serializer", "DeriveRequestAssertion", "r#struct", "Some_", "HMAC", "Option_", "R", "F"])
    clash = {"Fmt": (0,), "Display": (0,), "Formatter": (0,), "DeriveRequestAssertion": (1,), "Result": (2,), "Request": (4,), "Serializer": (4,)}
    if any(c in nasty for c in clash.get(sname, ())) or (sname in ctx["types"]) or sname in ctx["local_fns"]:
        sname = "S"
    derive = lib + "::Request"
    if rng.random() < 0.15 and sname != "Request" and 4 not in nasty:
        derive = None
    if derive and 5 in nasty:
        derive = "::" + derive if edition != "2015" else "::" + derive
    cattrs = []
    dk = rng.randrange(10)
    if dk == 0:
        cattrs.append("crate = ::drive::derived::again::inner")
    elif dk == 1:
        cattrs.append("crate = ::drive::derived::again::used")
    elif dk == 2:
        cattrs.append("crate = ::" + lib)
    vis = lambda: rng.choice(["pub ", "pub(crate) ", "pub(super) " if ctx["module"] else "pub "])
    gen = ("<%s%s>" % (", ".join(params), rng.choice(["", ","]))) if params else rng.choice(["", "", "<>"])
    lines = []
    removed = ""
    for i, f in enumerate(fields):
        a = attrs(rng, f.metas)
        lines.append("    %s%s%s%s: %s" % (a + ("\n        " if a and "\n" in a else " " if a else ""), "", vis(), f.spell, f.ty))
        if rng.random() < 0.03:
            lines.append("    #[cfg(any())] #[oauth1(bogus)] pub gone_%d: Missing" % i)
    body = ",\n".join(lines) + (rng.choice([",", ""]) if lines else "")
    others = rng.choice(["", "", "#[allow(dead_code)]\n", "/// Documented.\n", "#[repr(C)]\n", "#[must_use]\n"])
    decl = "%s\n%s#[allow(non_camel_case_types, non_snake_case, dead_code, uncommon_codepoints, mixed_script_confusables)]\n%s%sstruct %s%s%s {\n%s\n}\n" % (
        "#[derive(%s)]" % (derive or "Request"), attrs(rng, cattrs, False) + "\n" if cattrs else rng.choice(["", "", "#[oauth1()]\n"]), others, "pub ", sname, gen, (" where %s%s" % (", ".join(where), rng.choice(["", ","]))) if where else "", body)
    head = ""
    if derive is None:
        head = "use %s%s::Request;\n" % ("::", lib) if edition != "2015" else "use %s::Request;\n" % lib
    items = "\n".join(NASTY_MOD[i] for i in nasty)
    fns = "\n".join("#[allow(dead_code)] pub fn %s(x: &u64, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { ::std::write!(f, \"%s{}\", *x + 1) }" % (x, x) for x in ctx["local_fns"])
    fns += "\n" + "\n".join("#[allow(dead_code)] pub fn %s(x: &u64) -> bool { *x %% 3 == 0 }" % x for x in ctx["local_preds"])
    # Functions and tuple structs share a name space.
    if any(x in ("Fmt", "Display") for x in ctx["local_fns"] + ctx["local_preds"]) and 0 in nasty:
        fns = fns.replace("pub fn Fmt(", "pub fn Fmt_(").replace("pub fn Display(", "pub fn Display_(")
        decl = decl.replace("= Fmt", "= Fmt_").replace("= Display", "= Display_")
    build = "%s%s { %s }" % ("decl::" if ctx["module"] else "", sname, ", ".join("%s: f%d" % (f.spell, i) for i, f in enumerate(fields)))
    run = "let mut e: ::std::vec::Vec<::drive::derived::Param> = ::std::vec::Vec::new();\n"
    for i, f in enumerate(fields):
        run += "    %s\n    let f%d = %s;\n    %s\n" % (f.pre, i, f.value, f.push)
    run += "    let it = %s;\n    %sjudge(&it, e, m)\n" % (build, D)
    # Types which nothing else determines.
    allow = "#[allow(unused, non_camel_case_types, non_snake_case, unexpected_cfgs)]"
    mutm = "r: &mut ::drive::Rng, m: &mut ::drive::Mon"
    if ctx["module"]:
        return "// %s\n%s\npub mod decl {\n%s%s\n%s\n%s}\n\n#[allow(unused)]\npub fn run(%s) -> ::drive::Res {\n%s}\n" % (shape, allow, head, items, fns, decl, mutm, run)
    # Items in a function are visible to the values as well, so these are made outside.
    return "// %s\n#[allow(unused, non_camel_case_types, non_snake_case)]\npub fn run(%s) -> ::drive::Res {\n%s%s\n%s\n%s\n%s%s}\n" % (shape, mutm, head, items, rng.choice(NASTY_LOCAL + [""]), decl, "", run)


def make_macro(rng, n, edition, lib):
    """A declaration whose parts come from a macro's arguments."""
    nf = rng.randrange(1, 6)
    names, keys = set(), set()
    parts, run, build = [], "let mut e: ::std::vec::Vec<::drive::derived::Param> = ::std::vec::Vec::new();\n", []
    for i in range(nf):
        while True:
            spell, name = random_ident(rng)
            if name not in names and name not in keys and name not in RESERVED:
                break
        names.add(name)
        keys.add(name)
        k = rng.choice([x for x in KINDS if x.display and not x.life])
        opt = rng.random() < 0.5
        value = k.gen
        if opt:
            value = "if r.chance(2, 3) { ::std::option::Option::Some(%s) } else { ::std::option::Option::None }" % value
        parts.append("%s: %s" % (spell, "Option<%s>" % k.ty if opt else k.ty))
        push = "e.push(%sparam(\"%s\", ::std::string::ToString::to_string(x), false));" % (D, name)
        run += "    let f%d = %s;\n" % (i, value)
        run += "    if let ::std::option::Option::Some(x) = f%d.as_ref() { %s }\n" % (i, push) if opt else "    { let x = &f%d; %s }\n" % (i, push)
        build.append("%s: f%d" % (spell, i))
    frag = rng.choice(["ty", "ty", "tt"])
    extra = rng.random() < 0.5 and "value" not in names
    kind = "$t:ty" if frag == "ty" else "[$($t:tt)+]"
    use = "$t" if frag == "ty" else "$($t)+"
    sep = ","
    if frag == "tt":
        parts = [re.sub(r": (.*)$", r": [\1]", p) for p in parts]
    src = "#[allow(unused, non_camel_case_types, non_snake_case)]\npub mod decl {\n"
    src += "    macro_rules! declare { ($n:ident { $($f:ident : %s)%s* }) => {\n        #[derive(%s::Request)]\n        pub struct $n { $(pub $f: %s,)* %s }\n    } }\n" % (kind, sep, lib, use, "#[oauth1(rename = \"value~\", fmt = ::drive::derived::angle)] pub value: u64" if extra else "")
    src += "    declare!(S { %s });\n}\n" % ((sep + " ").join(parts))
    if extra:
        build.append("value: 5")
        run += "    e.push(%sparam(\"value~\", \"<5>\".to_string(), false));\n" % D
        if "value~" in keys:
            return make_macro(rng, n, edition, lib)
    run += "    let it = decl::S { %s };\n    %sjudge(&it, e, m)\n" % (", ".join(build), D)
    return "// macro\n%s\n#[allow(unused)]\npub fn run(r: &mut ::drive::Rng, m: &mut ::drive::Mon) -> ::drive::Res {\n%s}\n" % (src, run)


def make_unsized(rng, n, edition, lib):
    fmt = rng.random() < 0.5
    first = rng.choice(["a", "zz", "oauth_n"])
    last = rng.choice(["oauth_to", "last", "tmp", "r#dyn"])
    gen = rng.choice(["T: ?Sized", "T: ?Sized + ::std::fmt::Display", "T: ::std::fmt::Display + ?Sized"])
    key = last.replace("r#", "")
    return """// unsized
pub mod decl {
    #[derive(%s::Request)]
    pub struct S<%s> { pub %s: u64, %s pub %s: T }
}

pub fn run(r: &mut ::drive::Rng, m: &mut ::drive::Mon) -> ::drive::Res {
    let a = r.u64();
    let t = %stext(r);
    let mut e = ::std::vec::Vec::new();
    e.push(%sparam("%s", a.to_string(), false));
    e.push(%sparam("%s", %s, false));
    let s = decl::S { %s: a, %s: t };
    let it: &decl::S<dyn ::std::fmt::Display> = &s;
    %sjudge(&it, e, m)
}
""" % (lib, gen, first, "#[oauth1(fmt = ::drive::derived::angle)]" if fmt else "", last, D, D, first, D, key, "format!(\"<{}>\", t)" if fmt else "t.clone()", first, last, D)


CRATES = [("d15", "2015", "oauth1_request", "oauth1-request = { version = \"0.6\" }"), ("d18", "2018", "oauth", "oauth = { package = \"oauth1-request\", version = \"0.6\" }"), ("d21", "2021", "oauth", "oauth = { package = \"oauth1-request\", version = \"0.6\" }"), ("d24", "2024", "my_oauth", "my_oauth = { package = \"oauth1-request\", version = \"0.6\" }")]


def member(root, name, edition, dep, extra=""):
    os.makedirs(os.path.join(root, name, "src"), exist_ok=True)
    toml = "[package]\nname = \"%s\"\nversion = \"0.0.0\"\nedition = \"%s\"\npublish = false\n\n[dependencies]\ndrive = { path = \"%s\" }\n%s\n%s" % (name, edition, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "drive"), dep, extra)
    write(os.path.join(root, name, "Cargo.toml"), toml)


def write(path, text):
    if os.sep + "d15_" in path and path.endswith(".rs"):
        # `dyn ::std` is a path in the 2015 edition.
        text = text.replace("dyn ::std", "::std")
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def workspace(root, members):
    repo = os.environ.get("VERIF_REPO", "/repo")
    write(os.path.join(root, "Cargo.toml"), "[workspace]\nresolver = \"2\"\nmembers = [%s]\n\n[patch.crates-io]\noauth-credentials = { path = \"%s/oauth-credentials\" }\noauth1-request = { path = \"%s/oauth1-request\" }\noauth1-request-derive = { path = \"%s/oauth1-request-derive\" }\n\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\ndebug-assertions = true\n\n[profile.dev.package.\"*\"]\nopt-level = 1\ndebug-assertions = true\n" % (", ".join('"%s"' % m for m in members), repo, repo, repo))


def generate(root, seed, count, copies=2):
    """Writes a workspace; returns the members' names."""
    members = []
    for base, edition, lib, dep in CRATES:
        for c in range(copies):
            name = "%s_%d" % (base, c)
            members.append(name)
            member(root, name, edition, dep)
            rng = random.Random("%s %s %d" % (seed, base, c))
            main = "#![allow(warnings)]\n%s%s\n" % ("extern crate drive;\n" if edition == "2015" else "", "extern crate %s;\n" % lib if edition == "2015" else "")
            fams = []
            for i in range(count):
                src = make(rng, i, edition, lib, big=i % 97 == 96)
                write(os.path.join(root, name, "src", "m%d.rs" % i), src)
                main += "pub mod m%d;\n" % i
                fams.append("::drive::mon::fam(\"%s-m%d\", 40, 400, |r, m, _| m%d::run(r, m))" % (name, i, i))
            main += "static PROPS: &'static [::drive::mon::Prop] = &[::drive::mon::Prop { id: \"C16\", rule: \"distinct forms of derived requests, of generated declarations, each compared with the hand-written request\", families: &[%s] }];\nfn main() { ::drive::main(PROPS); }\n" % ",\n".join(fams)
            write(os.path.join(root, name, "src", "main.rs"), main)
    workspace(root, members)
    return members


if __name__ == "__main__":
    import sys
    print(generate(sys.argv[1], int(sys.argv[2]), int(sys.argv[3])))
