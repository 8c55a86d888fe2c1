//! C02 (RSA-SHA1), C13 (secrets are not disclosed), C22 (run-time choice of methods).

use std::fmt::{Debug, Display, Write as _};

use drive::entries::{self, run};
use drive::gen::{self, Val};
use drive::keys::{self, Key};
use drive::mon::{catch, fam, Prop};
use drive::monitors::{Ev, RecConfig, RecFull, RecMin, SegBuf};
use drive::requests::{proto_call, AnyReq, Manual};
use drive::spec::*;
use drive::{clip, codec, ensure, ensure_eq, Mon, Res, Rng};
use either::Either::{self, Left, Right};
use oauth::serializer::auth::Authorizer;
use oauth::serializer::{Serializer, Urlencoder};
use oauth::signature_method::{HmacSha1, Plaintext, Sign, SignatureMethod};
use oauth::{Builder, Credentials, Request, RsaSha1, Rsa09Sha1, Token, HMAC_SHA1, PLAINTEXT};

fn pick_key(r: &mut Rng) -> &'static Key {
    let ks = keys::all();
    // Small keys are faster.
    match r.below(20) {
        0..=11 => &ks[0],
        12..=15 => &ks[1],
        16..=17 => &ks[2],
        _ => &ks[r.range(2, ks.len() - 1)],
    }
}

const VARIANTS: [&str; 8] = ["06 owned", "06 borrowed", "06 key viewed", "06 From<key>", "09 owned", "09 borrowed", "09 key viewed", "09 From<key>"];

fn send_rsa<R: Request + ?Sized>(v: usize, k: &Key, t: Transport, spec: &Spec, req: &R) -> (String, Option<String>, (u64, u64)) {
    match v {
        0 => send(t, spec, req, k.m06.clone()),
        1 => send(t, spec, req, &k.m06),
        2 => send(t, spec, req, AsRef::<RsaSha1>::as_ref(&k.k06)),
        3 => send(t, spec, req, RsaSha1::from(k.k06.clone())),
        4 => send(t, spec, req, k.m09.clone()),
        5 => send(t, spec, req, &k.m09),
        6 => send(t, spec, req, AsRef::<Rsa09Sha1>::as_ref(&k.k09)),
        _ => send(t, spec, req, Rsa09Sha1::from(k.k09.clone())),
    }
}

fn c02_random(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let enc = r.chance(1, 3);
    let spec = Spec::random(r, enc).fixed(r);
    m.note(|| spec.describe());
    let (req, kind) = AnyReq::random(r, &spec.params);
    let k = pick_key(r);
    let v = r.below(8);
    let t = *r.pick(&TRANSPORTS);
    m.note(|| format!("request kind {kind}, key of {} bits, {}, {t:?}", k.bits, VARIANTS[v]));
    let (msg, body, at) = send_rsa(v, k, t, &spec, &req);
    let p = check_params(&spec, "RSA-SHA1", USES_BOTH, t, &msg, at)?;
    check_signature(&spec, &k.check(), t, &p, body.as_deref())?;
    m.count("signatures verified with the public key", 1);
    m.count(&format!("key of {} bits", k.bits), 1);
    m.count(&format!("variant {}", VARIANTS[v]), 1);
    // Other secrets and another way to hold the key, same signature.
    let mut other = spec.clone();
    other.client.1 = gen::secret(r);
    if let Some(t) = &mut other.token {
        t.1 = gen::secret(r);
    }
    let v2 = (v + 1 + r.below(7)) % 8;
    m.note(|| format!("then {} and secrets {:?} {:?}", VARIANTS[v2], other.client.1, other.token));
    let (msg2, _, _) = send_rsa(v2, k, t, &other, &req);
    ensure_eq!(msg, msg2, "the signature depends on the secrets or on how the key is held ({} vs. {})", VARIANTS[v], VARIANTS[v2]);
    m.count("variant pairs compared", 1);
    m.seen(msg.as_bytes());
    m.sample(|| format!("{} bits, {}: {msg}", k.bits, VARIANTS[v]));
    Ok(())
}

/// Every key with every way to hold it.
fn c02_keys(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let k = &keys::all()[i as usize % keys::all().len()];
    let spec = Spec::random(r, true).fixed(r);
    let req = Manual(spec.params.clone());
    m.note(|| format!("key of {} bits, {}", k.bits, spec.describe()));
    let t = *r.pick(&TRANSPORTS);
    let mut first: Option<String> = None;
    for v in 0..8 {
        let (msg, _, _) = send_rsa(v, k, t, &spec, &req);
        match &first {
            None => {
                let p = check_params(&spec, "RSA-SHA1", USES_BOTH, t, &msg, (0, u64::MAX - 9))?;
                check_signature(&spec, &k.check(), t, &p, None)?;
                first = Some(msg);
            }
            Some(f) => ensure_eq!(&msg, f, "{} differs from {}", VARIANTS[v], VARIANTS[0]),
        }
        m.count("signatures compared", 1);
    }
    m.count(&format!("key of {} bits", k.bits), 8);
    m.seen(first.unwrap().as_bytes());
    Ok(())
}

fn c02_entries(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let e = (i % entries::COUNT as u64) as usize;
    let mut spec = Spec::random(r, true);
    let req = Manual(spec.params.clone());
    let k = &keys::all()[0];
    m.note(|| format!("entry point {}, {}", entries::name(e), spec.describe()));
    let t0 = now();
    let out = if i / 41 % 2 == 0 { run(e, &spec, &req, &k.m06, "p")? } else { run(e, &spec, &req, k.m09.clone(), "p")? };
    let at = (t0, now());
    spec.method = out.method;
    check_message(&spec, &k.check(), out.transport, &out.msg, at)?;
    m.count(&format!("entry {}", entries::name(e)), 1);
    m.seen(out.msg.as_bytes());
    Ok(())
}

// ---------------------------------------------------------------------------------------------

struct Needles {
    all: Vec<(String, String)>,
}

fn to_dec(hex: &str) -> String {
    let mut d: Vec<u8> = vec![0];
    for c in hex.chars() {
        let mut carry = c.to_digit(16).unwrap();
        for x in d.iter_mut() {
            let v = *x as u32 * 16 + carry;
            *x = (v % 10) as u8;
            carry = v / 10;
        }
        while carry > 0 {
            d.push((carry % 10) as u8);
            carry /= 10;
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}

impl Needles {
    fn new() -> Self {
        Needles { all: Vec::new() }
    }

    fn secret(mut self, what: &str, s: &str) -> Self {
        let b = s.as_bytes();
        let mut add = |form: &str, t: String| self.all.push((format!("{what} ({form})"), t));
        add("plain", s.to_owned());
        add("percent-encoded", codec::enc(s));
        add("double percent-encoded", codec::enc(&codec::enc(s)));
        let esc = format!("{s:?}");
        add("escaped", esc[1..esc.len() - 1].to_owned());
        let list = |sep: &str, f: &dyn Fn(&u8) -> String| b.iter().map(f).collect::<Vec<_>>().join(sep);
        add("byte list", list(", ", &|x| x.to_string()));
        add("hex byte list", list(", ", &|x| format!("{x:x}")));
        add("hex", list("", &|x| format!("{x:02x}")));
        add("HEX", list("", &|x| format!("{x:02X}")));
        add("base64", codec::b64(b).trim_end_matches('=').to_owned());
        self
    }

    fn key(mut self, k: &Key) -> Self {
        for (i, p) in k.parts.iter().enumerate() {
            let p = p.trim_start_matches('0');
            let mut add = |form: &str, t: String| self.all.push((format!("private number {i} ({form})"), t));
            add("hex", p.to_lowercase());
            add("HEX", p.to_uppercase());
            add("decimal", to_dec(p));
            let padded = format!("{}{}", "0".repeat((16 - p.len() % 16) % 16), p);
            for (j, l) in padded.as_bytes().chunks(16).enumerate() {
                let l = std::str::from_utf8(l).unwrap();
                let n = u64::from_str_radix(l, 16).unwrap();
                if n > 1 << 40 {
                    add(&format!("limb {j}"), n.to_string());
                    add(&format!("hex limb {j}"), format!("{n:x}"));
                    add(&format!("HEX limb {j}"), format!("{n:X}"));
                }
                for h in [n >> 32, n & 0xffff_ffff] {
                    if h > 100_000_000 {
                        add(&format!("half limb {j}"), h.to_string());
                    }
                }
            }
        }
        self
    }

    fn scan(&self, m: &mut Mon, what: &str, text: &str) -> Res {
        m.count("texts scanned", 1);
        m.count("bytes scanned", text.len() as u64);
        for (name, n) in &self.all {
            ensure!(!text.contains(&**n), "{what} discloses {name} {n:?}:\n  {}", clip(text));
        }
        Ok(())
    }

    fn debug<T: Debug + ?Sized>(&self, m: &mut Mon, what: &str, x: &T) -> Res {
        m.count(&format!("Debug of {what}"), 1);
        for s in [format!("{x:?}"), format!("{x:#?}"), format!("{x:x?}"), format!("{x:#X?}"), format!("{:?}", Some(x)), format!("{x:030.40?}")] {
            m.seen(&[]);
            self.scan(m, &format!("Debug form of {what}"), &s)?;
        }
        Ok(())
    }
}

/// A secret which cannot occur anywhere by chance.
fn marked(r: &mut Rng) -> String {
    let mut s = String::from("sEc");
    for _ in 0..r.range(9, 40) {
        s.push((b'a' + r.below(26) as u8) as char);
    }
    match r.below(5) {
        0 => s.insert_str(r.below(s.len()), "\""),
        1 => s.push_str("%&=+ /"),
        2 => s.insert(4, 'é'),
        3 => s.push('\n'),
        _ => {}
    }
    s
}

struct C13 {
    spec: Spec,
    needles: Needles,
}

fn c13_spec(r: &mut Rng) -> C13 {
    let mut spec = Spec::random(r, true);
    spec.client.1 = marked(r);
    spec.token = if r.chance(4, 5) { Some((gen::text(r), marked(r))) } else { None };
    let mut needles = Needles::new().secret("client secret", &spec.client.1);
    if let Some(t) = &spec.token {
        needles = needles.secret("token secret", &t.1);
    }
    C13 { spec, needles }
}

/// Credentials, tokens and builders.
fn c13_credentials(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let C13 { mut spec, needles: n } = c13_spec(r);
    if spec.token.is_none() {
        spec.token = Some(("t".into(), marked(r)));
    }
    let n = n.secret("token secret", &spec.token.as_ref().unwrap().1);
    m.note(|| spec.describe());
    let (c, t) = (&spec.client, spec.token.as_ref().unwrap());
    n.debug(m, "Credentials<&str>", &spec.client_ref())?;
    n.debug(m, "Credentials<String>", &Credentials::new(c.0.clone(), c.1.clone()))?;
    n.debug(m, "&mut Credentials<Box<str>>", &mut Credentials::<Box<str>>::new((&*c.0).into(), (&*c.1).into()))?;
    n.debug(m, "Credentials<Vec<u8>>", &Credentials { identifier: c.0.clone().into_bytes(), secret: c.1.clone().into_bytes() })?;
    n.debug(m, "Credentials<Option<&str>>", &Credentials { identifier: Some(&*c.0), secret: Some(&*c.1) })?;
    let token: Token<String, Box<str>> = Token::new(Credentials::new(c.0.clone(), c.1.clone()), Credentials::new((&*t.0).into(), (&*t.1).into()));
    n.debug(m, "Token", &token)?;
    n.debug(m, "Token::as_ref", &token.as_ref())?;
    n.debug(m, "Token of parts", &Token::from_parts(&*c.0, &*c.1, &*t.0, &*t.1))?;
    n.debug(m, "list of tokens", &[token.clone(), token.clone()][..])?;
    n.debug(m, "Builder", &spec.builder(HMAC_SHA1))?;
    n.debug(m, "Builder of PLAINTEXT", &spec.builder(PLAINTEXT))?;
    n.debug(m, "Builder::with_token", &Builder::with_token(token.clone(), Plaintext::<SegBuf>::with_buf()))?;
    n.debug(m, "Builder of token.as_ref()", &Builder::with_token(token.as_ref(), HmacSha1::new()))?;
    let k = pick_key(r);
    let n = n.key(k);
    n.debug(m, "Builder of RSA-SHA1 06", &spec.builder(k.m06.clone()))?;
    n.debug(m, "Builder of &RSA-SHA1 06", &spec.builder(&k.m06))?;
    n.debug(m, "Builder of RSA-SHA1 09", &spec.builder(k.m09.clone()))?;
    n.debug(m, "RsaSha1 06", &k.m06)?;
    n.debug(m, "RsaSha1 09", &k.m09)?;
    n.debug(m, "key viewed as RsaSha1 06", AsRef::<RsaSha1>::as_ref(&k.k06))?;
    n.debug(m, "key viewed as RsaSha1 09", AsRef::<Rsa09Sha1>::as_ref(&k.k09))?;
    n.debug(m, "choice of methods", &[Left::<_, RsaSha1>(Left::<_, HmacSha1>(k.m09.clone())), Right(k.m06.clone())][..])?;
    n.debug(m, "Builder of a choice", &spec.builder(Left::<_, HmacSha1>(k.m09.clone())))?;
    m.seen(spec.client.1.as_bytes());
    m.sample(|| format!("{:?}", spec.builder(k.m09.clone())));
    Ok(())
}

/// Observes an `Authorizer` or signer at every stage.
fn stages<SM>(m: &mut Mon, n: &Needles, name: &str, spec: &Spec, sm: SM, has_secret_signature: bool) -> Res
where
    SM: SignatureMethod + Clone + Debug,
    SM::Sign: Debug + Clone,
{
    n.debug(m, &format!("{name} method"), &sm)?;
    let opts = spec.options();
    n.debug(m, "auth::Options", &opts)?;
    for t in TRANSPORTS {
        let (c, tk) = (spec.client_ref(), spec.token_ref());
        let mut a = match t {
            Transport::Header => Authorizer::authorization(&spec.method, &*spec.uri, c, tk, &opts, sm.clone()),
            Transport::Form => Authorizer::form(&spec.method, &*spec.uri, c, tk, &opts, sm.clone()),
            Transport::Query => Authorizer::query(&spec.method, spec.uri.clone(), c, tk, &opts, sm.clone()),
        };
        let what = format!("Authorizer of {name}, {t:?}");
        n.debug(m, &what, &a)?;
        for i in 0..8 {
            proto_call(&mut a, i);
            n.debug(m, &what, &a)?;
        }
        a.serialize_parameter("p", "v w");
        a.serialize_parameter_encoded("q", "v%20w");
        n.debug(m, &what, &a)?;
        n.debug(m, &what, &a.clone())?;
        let msg = a.end();
        let all = parse(t, &spec.uri, &msg)?;
        for (k, v) in &all {
            if k == "oauth_signature" && has_secret_signature {
                ensure_eq!(*v, drive::rfc::signing_key(&spec.client.1, spec.token_secret()), "signature");
            } else {
                n.scan(m, &format!("{k} of {what}"), v)?;
            }
        }
        if !has_secret_signature {
            n.scan(m, &format!("message of {name}"), &msg)?;
        }
        m.seen(msg.as_bytes());
    }
    let mut s = sm.sign_with(&spec.client.1, spec.token_secret());
    let what = format!("{name} signer");
    n.debug(m, &what, &s)?;
    s.request_method("GET");
    n.debug(m, &what, &s)?;
    s.uri("http");
    n.debug(m, &what, &s)?;
    s.parameter("a", "b");
    s.delimiter();
    s.consumer_key("x");
    n.debug(m, &what, &s)?;
    n.debug(m, &what, &s.clone())?;
    let sig = s.end().to_string();
    if !has_secret_signature {
        n.scan(m, &format!("{name} signature"), &sig)?;
    }
    Ok(())
}

fn c13_stages(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let C13 { spec, needles: n } = c13_spec(r);
    m.note(|| spec.describe());
    match r.below(5) {
        0 => stages(m, &n, "HMAC-SHA1", &spec, HMAC_SHA1, false)?,
        1 => {
            stages(m, &n, "PLAINTEXT", &spec, PLAINTEXT, true)?;
            stages(m, &n, "PLAINTEXT with a custom buffer", &spec, Plaintext::<SegBuf>::with_buf(), true)?;
        }
        2 => {
            let k = pick_key(r);
            let n = n.key(k);
            stages(m, &n, "RSA-SHA1 06", &spec, k.m06.clone(), false)?;
            stages(m, &n, "&RSA-SHA1 06", &spec, &k.m06, false)?;
        }
        3 => {
            let k = pick_key(r);
            let n = n.key(k);
            stages(m, &n, "RSA-SHA1 09", &spec, k.m09.clone(), false)?;
            stages(m, &n, "&RSA-SHA1 09", &spec, &k.m09, false)?;
        }
        _ => {
            let k = pick_key(r);
            let n = n.key(k);
            stages(m, &n, "choice", &spec, Left::<_, Either<&Rsa09Sha1, HmacSha1>>(k.m06.clone()), false)?;
            stages(m, &n, "choice", &spec, Right::<Plaintext<SegBuf>, _>(Left::<_, HmacSha1>(&k.m09)), false)?;
            stages(m, &n, "choice", &spec, Left::<_, HmacSha1>(PLAINTEXT), true)?;
        }
    }
    Ok(())
}

/// Whole messages through every entry point.
fn c13_messages(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let C13 { spec, needles: n } = c13_spec(r);
    let e = (i % entries::COUNT as u64) as usize;
    m.note(|| format!("{} {}", entries::name(e), spec.describe()));
    let (req, _) = AnyReq::random(r, &spec.params);
    let out = match i / 41 % 4 {
        0 => run(e, &spec, &req, HMAC_SHA1, "")?,
        1 => run(e, &spec, &req, &keys::all()[0].m06, "")?,
        2 => run(e, &spec, &req, &keys::all()[0].m09, "")?,
        _ => {
            let out = run(e, &spec, &req, PLAINTEXT, "")?;
            for (k, v) in parse(out.transport, &spec.uri, &out.msg)? {
                if k != "oauth_signature" {
                    n.scan(m, &k, &v)?;
                }
            }
            m.seen(out.msg.as_bytes());
            return Ok(());
        }
    };
    n.scan(m, "the message", &out.msg)?;
    // A misuse panic is no leak either.
    if cfg!(debug_assertions) {
        if let Err((msg, _)) = catch(|| spec.builder(HMAC_SHA1).authorize("GET", "http://h/?a", &())) {
            n.scan(m, "panic message", &msg)?;
        }
        let misordered = catch(|| {
            let o = spec.options();
            let mut a: Authorizer<'_, Plaintext> = Authorizer::form("GET", "http://h/", spec.client_ref(), spec.token_ref(), &o, PLAINTEXT);
            a.serialize_parameter("b", "v");
            a.serialize_parameter("a", "v");
            a.end()
        });
        if let Err((msg, _)) = misordered {
            n.scan(m, "panic message", &msg)?;
        }
    }
    let mut u = Urlencoder::form_with_buf(String::new());
    u.serialize_parameter("k", "v");
    n.debug(m, "Urlencoder", &u)?;
    m.seen(out.msg.as_bytes());
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn cfg(r: &mut Rng, name: &'static str) -> RecConfig {
    RecConfig { name, use_nonce: r.chance(2, 3), use_timestamp: r.chance(2, 3), signature: codec::enc(&gen::text(r)) }
}

/// A signature method and what it recorded.
trait Observed {
    fn events(&self) -> Vec<Ev> {
        Vec::new()
    }
}
impl Observed for HmacSha1 {}
impl<W> Observed for Plaintext<W> {}
impl Observed for RsaSha1 {}
impl Observed for &Rsa09Sha1 {}
impl Observed for RecFull {
    fn events(&self) -> Vec<Ev> {
        self.take()
    }
}
impl Observed for RecMin {
    fn events(&self) -> Vec<Ev> {
        self.take()
    }
}

struct Ctx<'a> {
    spec: &'a Spec,
    req: &'a AnyReq,
    e: usize,
    script: &'a [(u8, String, u64)],
}

/// A sequence of calls made to a signer directly, with clones in between.
fn play<S: Sign + Clone>(mut s: S, script: &[(u8, String, u64)]) -> Vec<String> {
    let mut out = vec![s.get_signature_method_name().to_owned()];
    for (op, text, n) in script {
        let v = Val::Text(codec::enc(text), gen::How::Pieces(*n));
        match op {
            0 => s.request_method("PATCH"),
            1 => s.uri(&v),
            2 => s.parameter("key", &v),
            3 => s.delimiter(),
            4 => s.callback(&v),
            5 => s.consumer_key(&v),
            6 => s.nonce(&v),
            7 => s.signature_method(),
            8 => s.timestamp(*n),
            9 => s.token(&v),
            10 => s.verifier(&v),
            11 => s.version(),
            12 => out.push(s.clone().end().to_string()),
            _ => out.push(format!("{} {} {}", s.use_nonce(), s.use_timestamp(), s.get_signature_method_name())),
        }
    }
    out.push(s.end().to_string());
    out
}

fn same<SM, E>(m: &mut Mon, name: &str, cx: &Ctx<'_>, sm: SM, wrap: impl Fn(SM) -> E) -> Res
where
    SM: SignatureMethod + Clone + Observed,
    SM::Sign: Clone,
    E: SignatureMethod + Clone,
    E::Sign: Clone,
{
    m.note(|| format!("method {name}, entry point {}", entries::name(cx.e)));
    sm.events();
    let alone = run(cx.e, cx.spec, cx.req, sm.clone(), "")?;
    let ev1 = sm.events();
    let chosen = run(cx.e, cx.spec, cx.req, wrap(sm.clone()), "")?;
    let ev2 = sm.events();
    ensure_eq!(alone.msg, chosen.msg, "message of {name} alone and as a choice");
    ensure_eq!(ev1, ev2, "signer calls of {name} alone and as a choice");
    let (cs, ts) = (&cx.spec.client.1, cx.spec.token_secret());
    let a = play(sm.clone().sign_with(cs, ts), cx.script);
    let ev1 = sm.events();
    let b = play(wrap(sm.clone()).sign_with(cs, ts), cx.script);
    let ev2 = sm.events();
    ensure_eq!(a, b, "signer results of {name} alone and as a choice");
    ensure_eq!(ev1, ev2, "signer calls of {name} alone and as a choice, driven directly");
    m.count(&format!("compared {name}"), 1);
    m.count("signer calls compared", ev1.len() as u64);
    m.seen(chosen.msg.as_bytes());
    Ok(())
}

fn c22_choice(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = Spec::random(r, true).fixed(r);
    let (req, _) = AnyReq::random(r, &spec.params);
    let script: Vec<(u8, String, u64)> = (0..r.below(24)).map(|_| (r.below(14) as u8, gen::text(r), r.u64())).collect();
    m.note(|| spec.describe());
    m.note(|| format!("direct calls {script:?}"));
    let cx = Ctx { spec: &spec, req: &req, e: r.below(entries::COUNT), script: &script };
    let k = &keys::all()[0];
    let k9: &'static Rsa09Sha1 = &k.m09;
    let full = RecFull::new(cfg(r, "X-FULL"));
    let min = RecMin::new(cfg(r, "X-MIN"));
    let decoy = RecFull::new(RecConfig { name: "DECOY", use_nonce: !full.cfg.use_nonce, use_timestamp: !full.cfg.use_timestamp, signature: "decoy".into() });
    type Deep<T> = Either<Either<RecFull, T>, Either<RecMin, HmacSha1>>;
    match r.below(8) {
        0 => {
            same(m, "HMAC-SHA1", &cx, HMAC_SHA1, Left::<_, Plaintext>)?;
            same(m, "PLAINTEXT", &cx, PLAINTEXT, Right::<HmacSha1, _>)?;
        }
        1 => {
            same(m, "PLAINTEXT", &cx, Plaintext::<SegBuf>::with_buf(), Left::<_, RecFull>)?;
            same(m, "HMAC-SHA1", &cx, HMAC_SHA1, Right::<RecMin, _>)?;
        }
        2 => {
            same(m, "RSA-SHA1 06", &cx, k.m06.clone(), Left::<_, HmacSha1>)?;
            same(m, "RSA-SHA1 09", &cx, k9, Right::<RsaSha1, _>)?;
        }
        3 => same(m, "custom, all callbacks", &cx, full, |x| Left::<_, RecMin>(x))?,
        4 => same(m, "custom, all callbacks", &cx, full, |x| Right::<RecMin, _>(x))?,
        5 => same(m, "custom, default callbacks", &cx, min, |x| Right::<RecFull, _>(x))?,
        6 => same(m, "custom, all callbacks, nested", &cx, full, |x| -> Deep<HmacSha1> { Left(Left(x)) })?,
        _ => {
            same(m, "custom, all callbacks, nested", &cx, full, |x| -> Either<Either<RecMin, Either<HmacSha1, RecFull>>, Plaintext> { Left(Right(Right(x))) })?;
            same(m, "custom, default callbacks, nested", &cx, min, |x| -> Deep<Plaintext> { Right(Left(x)) })?;
            same(m, "HMAC-SHA1, nested", &cx, HMAC_SHA1, |x| -> Deep<Plaintext> { Right(Right(x)) })?;
        }
    }
    ensure!(decoy.take().is_empty(), "a signer that was not chosen was called");
    Ok(())
}

/// What one builder holding a choice does when cloned and used repeatedly.
fn c22_builder(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = Spec::random(r, true).fixed(r);
    let req = Manual(spec.params.clone());
    m.note(|| spec.describe());
    let (full, min) = (RecFull::new(cfg(r, "X-FULL")), RecMin::new(cfg(r, "X-MIN")));
    let left = r.chance(1, 2);
    let choice: Either<RecFull, RecMin> = if left { Left(full.clone()) } else { Right(min.clone()) };
    let b = spec.builder(choice);
    let mut last: Option<(String, Vec<Ev>)> = None;
    for i in 0..r.range(2, 4) {
        let msg = if i % 2 == 0 { b.authorize(&spec.method, &spec.uri, &req) } else { b.clone().into_authorization(&spec.method, &spec.uri, &req) };
        let (fe, me) = (full.take(), min.take());
        let (used, other) = if left { (fe, me) } else { (me, fe) };
        ensure!(other.is_empty(), "the method that was not chosen was called: {other:?}");
        ensure!(used.len() >= 4, "only {} calls were made to the chosen method", used.len());
        if let Some(l) = &last {
            ensure_eq!(*l, (msg.clone(), used.clone()), "repeated use of a builder holding a choice");
        }
        last = Some((msg, used));
    }
    let alone = if left { spec.builder(full.clone()).authorize(&spec.method, &spec.uri, &req) } else { spec.builder(min.clone()).authorize(&spec.method, &spec.uri, &req) };
    let ev = if left { full.take() } else { min.take() };
    let (msg, evs) = last.unwrap();
    ensure_eq!(alone, msg, "message");
    ensure_eq!(ev, evs, "signer calls");
    m.count("builders holding a choice", 1);
    m.seen(msg.as_bytes());
    let mut w = String::new();
    let _ = write!(w, "{}", &spec.uri as &dyn Display);
    Ok(())
}

static PROPS: &[Prop] = &[
    Prop {
        id: "C02",
        rule: "cases: random specification signed by RSA-SHA1 with one of six keys (512 to 2048 bits, one of odd size, one with exponent 3) held in one of eight ways over both back ends, in header, form or query; non-trivial once the signature was verified with the public key by independent modular exponentiation over the base string rebuilt from the message, and compared with another way of holding the key under other secrets; distinct by message",
        families: &[fam("random", 1500, 120_000, c02_random), fam("keys", 60, 3000, c02_keys), fam("entries", 41 * 8, 41 * 200, c02_entries)],
    },
    Prop {
        id: "C13",
        rule: "cases: marked secrets and RSA keys put into every type with a Debug form at every stage of use, and into messages of every entry point; every text is scanned for each secret and private number in plain, encoded, escaped, byte-list, hexadecimal, base64, decimal and limb form; non-trivial once texts were scanned; distinct by secrets and messages",
        families: &[fam("credentials", 400, 40_000, c13_credentials), fam("stages", 400, 40_000, c13_stages), fam("messages", 41 * 16, 41 * 2000, c13_messages)],
    },
    Prop {
        id: "C22",
        rule: "cases: random request and secrets signed by a method alone and wrapped in a (nested) choice, through a random entry point and by a random sequence of direct signer calls with clones; non-trivial once messages, results and recorded signer calls were compared; distinct by message",
        families: &[fam("choice", 6000, 800_000, c22_choice), fam("builder", 2000, 200_000, c22_builder)],
    },
];

fn main() {
    drive::main(PROPS);
}
