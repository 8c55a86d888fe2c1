//! C01 (HMAC-SHA1), C03 (PLAINTEXT), C04 (messages parse back), C05 (entry points agree).

use std::fmt::Display;

use drive::entries::{self, run};
use drive::gen::{self, How, Val};
use drive::mon::{fam, Prop};
use drive::monitors::{RecConfig, RecFull, SegBuf};
use drive::requests::{text_param, AnyReq, Manual};
use drive::rfc::Check;
use drive::spec::*;
use drive::{clip, codec, ensure, ensure_eq, Mon, Res, Rng};
use oauth::signature_method::Plaintext;
use oauth::{Builder, Credentials, ParameterList, Request, Token, HMAC_SHA1, PLAINTEXT};

fn verify_hmac<R: Request + ?Sized>(m: &mut Mon, t: Transport, spec: &Spec, req: &R) -> Res {
    let (msg, body, at) = send(t, spec, req, HMAC_SHA1);
    let parsed = check_params(spec, "HMAC-SHA1", USES_BOTH, t, &msg, at)?;
    check_signature(spec, &Check::Hmac, t, &parsed, body.as_deref())?;
    m.count("signatures verified by the server model", 1);
    m.count(
        match t {
            Transport::Header => "headers",
            Transport::Form => "forms",
            Transport::Query => "queries",
        },
        1,
    );
    m.count("parameters received", (parsed.all.len() + body.map_or(0, |b| b.matches('=').count())) as u64);
    m.seen(msg.as_bytes());
    m.sample(|| format!("{t:?} {} {} => {msg}", spec.method, spec.uri));
    Ok(())
}

fn c01_random(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let enc = r.chance(1, 3);
    let spec = Spec::random(r, enc);
    m.note(|| spec.describe());
    let (req, kind) = AnyReq::random(r, &spec.params);
    m.note(|| format!("request kind {kind}"));
    m.count(&format!("request kind {kind}"), 1);
    verify_hmac(m, *r.pick(&TRANSPORTS), &spec, &req)
}

/// All combinations of the secrets' encoded lengths around the SHA-1 block size.
fn c01_key_lengths(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let (a, b) = ((i % 70) as usize, (i / 70 % 71) as usize);
    fn of_len(r: &mut Rng, n: usize) -> String {
        let mut s = String::new();
        let mut left = n;
        while left > 0 {
            let c = match r.below(4) {
                0 if left >= 3 => *r.pick(&[' ', '&', '%', '+', '\0']),
                1 if left >= 6 => 'é',
                2 if left >= 9 => '語',
                3 if left >= 12 => '🦀',
                _ => (b'a' + r.below(26) as u8) as char,
            };
            left -= codec::enc(&c.to_string()).len();
            s.push(c);
        }
        s
    }
    let mut spec = Spec::random_without_params(r);
    spec.client.1 = of_len(r, a);
    spec.token = if b == 70 { None } else { Some(("t".into(), of_len(r, b))) };
    m.note(|| spec.describe());
    m.count("key length combinations", 1);
    verify_hmac(m, *r.pick(&TRANSPORTS), &spec, &())
}

/// Parameters of the same key: sorted by encoded value, whatever the list type.
fn c01_duplicates(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut spec = Spec::random_without_params(r);
    const V: &[&str] = &["", "0", "1", "9", ":", ";", "A", "Z", "_", "a", "z", "~", "é", "ü", "語", "🦀", " ", "!", "-", ".", "/", "%", "%7E", "+", "&", "=", "\u{7f}", "\0"];
    let nk = r.range(1, 3);
    let keys: Vec<String> = (0..nk).map(|_| gen::key(r)).collect();
    let n = r.range(2, 12);
    let ps = (0..n)
        .map(|_| {
            let k = r.pick(&keys).clone();
            let mut v: String = (0..r.below(4)).map(|_| *r.pick(V)).collect();
            if r.chance(1, 6) {
                v = gen::text(r);
            }
            gen::Param::raw(k, Val::Text(v, gen::how(r)))
        })
        .collect();
    spec.set_params(ps);
    m.note(|| spec.describe());
    let (req, kind) = AnyReq::random(r, &spec.params);
    m.count(&format!("request kind {kind}"), 1);
    verify_hmac(m, *r.pick(&TRANSPORTS), &spec, &req)
}

fn c01_big(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let mut spec = Spec::random_without_params(r);
    let unit = ["a", "é", "語x", "🦀 ", "%&="][r.below(5)];
    let ps = match i % 4 {
        0 => (0..r.range(1000, 6000)).map(|_| gen::Param::raw(gen::key(r), Val::U64(r.u64()))).collect(),
        1 => vec![text_param("big", &unit.repeat(r.range(30_000, 200_000)))],
        2 => (0..300).map(|j| text_param("dup", &format!("{unit}{}", j * 7919 % 300))).collect(),
        _ => {
            spec.client.1 = unit.repeat(r.range(10_000, 60_000));
            spec.client.0 = unit.repeat(r.range(10_000, 60_000));
            spec.uri = format!("http://h/{}", unit.repeat(r.range(10_000, 60_000)));
            Vec::new()
        }
    };
    spec.set_params(ps);
    let (req, kind) = AnyReq::random(r, &spec.params);
    m.note(|| format!("big case {} kind {kind}", i % 4));
    m.count("bytes of big inputs", spec.params.iter().map(|p| p.plain.len() + p.key.len()).sum::<usize>() as u64);
    verify_hmac(m, *r.pick(&TRANSPORTS), &spec, &req)
}

#[derive(oauth::Request)]
struct Derived<'a, V> {
    zeta: &'a str,
    alpha: V,
    oauth_consumer: u64,
    #[oauth1(encoded)]
    oauth_nonce_: String,
    #[oauth1(rename = "oauth_session_handle")]
    session: Option<&'a str>,
    #[oauth1(skip)]
    #[allow(dead_code)]
    oauth_token: u8,
    #[oauth1(skip_if = str::is_empty)]
    oauth_tokens: String,
    #[oauth1(rename = "-~")]
    dash: bool,
    r#type: char,
}

fn c01_derived(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut spec = Spec::random_without_params(r);
    let v = gen::val(r);
    let t: Vec<String> = (0..4).map(|_| gen::text(r)).collect();
    let req = Derived {
        zeta: &t[0],
        alpha: &v,
        oauth_consumer: r.u64(),
        oauth_nonce_: codec::enc(&t[1]),
        session: if r.chance(1, 2) { Some(&*t[2]) } else { None },
        oauth_token: 1,
        oauth_tokens: t[3].clone(),
        dash: r.chance(1, 2),
        r#type: gen::any_char(r),
    };
    let mut ps = vec![
        text_param("zeta", &t[0]),
        text_param("alpha", &v.text()),
        text_param("oauth_consumer", &req.oauth_consumer.to_string()),
        text_param("oauth_nonce_", &t[1]),
        text_param("-~", &req.dash.to_string()),
        text_param("type", &req.r#type.to_string()),
    ];
    if let Some(s) = req.session {
        ps.push(text_param("oauth_session_handle", s));
    }
    if !t[3].is_empty() {
        ps.push(text_param("oauth_tokens", &t[3]));
    }
    spec.set_params(ps);
    m.note(|| spec.describe());
    m.count("request kind derived", 1);
    verify_hmac(m, *r.pick(&TRANSPORTS), &spec, &req)
}

/// Every entry point, verified as the server would.
fn c01_entries(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let e = (i % entries::COUNT as u64) as usize;
    let mut spec = Spec::random(r, true);
    let req = Manual(spec.params.clone());
    let prefix = gen::text(r);
    m.note(|| format!("entry point {}, prior content {prefix:?}", entries::name(e)));
    m.note(|| spec.describe());
    let t0 = now();
    let out = run(e, &spec, &req, HMAC_SHA1, &prefix)?;
    let at = (t0, now());
    spec.method = out.method;
    check_message(&spec, &Check::Hmac, out.transport, &out.msg, at)?;
    m.count(&format!("entry {}", entries::name(e)), 1);
    m.seen(out.msg.as_bytes());
    Ok(())
}

fn c01_free(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let e = (i % entries::FREE_COUNT as u64) as usize;
    let mut spec = Spec::random(r, true);
    (spec.callback, spec.verifier, spec.nonce, spec.timestamp, spec.version) = (None, None, None, None, false);
    if spec.token.is_none() {
        spec.token = Some((gen::text(r), gen::secret(r)));
    }
    let req = Manual(spec.params.clone());
    m.note(|| format!("entry point {}", entries::free_name(e)));
    m.note(|| spec.describe());
    let t0 = now();
    let out = entries::run_free(e, &spec, &req, HMAC_SHA1);
    let at = (t0, now());
    spec.method = out.method;
    check_message(&spec, &Check::Hmac, out.transport, &out.msg, at)?;
    m.count(&format!("entry {}", entries::free_name(e)), 1);
    m.seen(out.msg.as_bytes());
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn plain_secrets(sig: &str) -> Result<(String, String), String> {
    let Some((a, b)) = sig.split_once('&') else { return Err(format!("no `&` in decoded signature {sig:?}")) };
    if b.contains('&') {
        return Err(format!("several `&` in decoded signature {sig:?}"));
    }
    Ok((codec::dec_canonical(a)?, codec::dec_canonical(b)?))
}

fn c03_random(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = Spec::random(r, true);
    m.note(|| spec.describe());
    let req = Manual(spec.params.clone());
    let t = *r.pick(&TRANSPORTS);
    let buf = r.below(3);
    let sign = |t, spec: &Spec, req: &Manual| match buf {
        0 => send(t, spec, req, PLAINTEXT),
        1 => send(t, spec, req, Plaintext::<SegBuf>::with_buf()),
        _ => send(t, spec, req, Plaintext::<String>::default()),
    };
    m.count(["buffer String (PLAINTEXT)", "custom buffer", "buffer String (default)"][buf], 1);
    let (msg, _, at) = sign(t, &spec, &req);
    let p = check_params(&spec, "PLAINTEXT", USES_BOTH, t, &msg, at)?;
    let want = (spec.client.1.clone(), spec.token_secret().unwrap_or("").to_owned());
    ensure_eq!(plain_secrets(&p.signature)?, want, "secrets in the PLAINTEXT signature of {:?}", clip(&msg));
    check_signature(&spec, &Check::Plaintext, t, &p, None)?;
    // The same secrets give the same signature whatever else is signed.
    let mut other = Spec::random(r, true);
    other.client.1 = spec.client.1.clone();
    other.token = spec.token.as_ref().map(|t| (gen::text(r), t.1.clone()));
    m.note(|| format!("other: {}", other.describe()));
    let oreq = Manual(other.params.clone());
    let t2 = *r.pick(&TRANSPORTS);
    let (msg2, _, at) = sign(t2, &other, &oreq);
    let p2 = check_params(&other, "PLAINTEXT", USES_BOTH, t2, &msg2, at)?;
    ensure_eq!(p.signature, p2.signature, "PLAINTEXT signature depends on the request");
    m.count("signatures decoded", 2);
    m.seen(p.signature.as_bytes());
    m.sample(|| format!("secrets {want:?} => {}", p.signature));
    Ok(())
}

/// Every pair of ASCII characters in every place of the two secrets, and every scalar value.
fn c03_chars(_: &mut Rng, m: &mut Mon, i: u64) -> Res {
    const PER: u32 = 512;
    for c in (i as u32 * PER..(i as u32 + 1) * PER).filter_map(char::from_u32) {
        for (cs, ts) in [(format!("{c}"), "x".to_owned()), ("x".to_owned(), format!("a{c}b")), (format!("{c}{c}"), format!("{c}"))] {
            let t = Token::from_parts("ck", &cs, "tk", &ts);
            let msg = oauth::get("http://h/", &(), &t, PLAINTEXT);
            let sig = drive::rfc::parse_header(&msg)?.into_iter().find(|p| p.0 == "oauth_signature").ok_or("no signature")?.1;
            ensure_eq!(plain_secrets(&sig)?, (cs.clone(), ts.clone()), "secrets with {c:?}");
            m.count("signatures decoded", 1);
        }
        m.seen(&(c as u32).to_be_bytes());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn rec_cfg(r: &mut Rng) -> RecConfig {
    RecConfig {
        name: *r.pick(&["HMAC-SHA256", "X-CUSTOM", "a.b_c~d", "1"]),
        use_nonce: r.chance(3, 4),
        use_timestamp: r.chance(3, 4),
        signature: codec::enc(&gen::text(r)),
    }
}

fn c04_random(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let enc = r.chance(1, 2);
    let spec = Spec::random(r, enc);
    m.note(|| spec.describe());
    let (req, kind) = AnyReq::random(r, &spec.params);
    m.note(|| format!("request kind {kind}"));
    let t = *r.pick(&TRANSPORTS);
    let parsed;
    let msg;
    match r.below(3) {
        0 => {
            let (m_, _, at) = send(t, &spec, &req, HMAC_SHA1);
            parsed = check_params(&spec, "HMAC-SHA1", USES_BOTH, t, &m_, at)?;
            ensure_eq!(codec::unb64(&parsed.signature)?.len(), 20, "length of the HMAC-SHA1 signature");
            msg = m_;
        }
        1 => {
            let (m_, _, at) = send(t, &spec, &req, PLAINTEXT);
            parsed = check_params(&spec, "PLAINTEXT", USES_BOTH, t, &m_, at)?;
            msg = m_;
        }
        _ => {
            let cfg = rec_cfg(r);
            m.note(|| format!("{cfg:?}"));
            let (m_, _, at) = send(t, &spec, &req, RecFull::new(cfg.clone()));
            parsed = check_params(&spec, cfg.name, Uses { nonce: cfg.use_nonce, timestamp: cfg.use_timestamp }, t, &m_, at)?;
            ensure_eq!(codec::enc(&parsed.signature), cfg.signature, "custom signature");
            msg = m_;
        }
    }
    m.count("messages parsed", 1);
    m.count("parameters parsed", parsed.all.len() as u64);
    m.count(&format!("{t:?}"), 1);
    m.count(&format!("request kind {kind}"), 1);
    m.seen(msg.as_bytes());
    m.sample(|| format!("{t:?}: {msg}"));
    Ok(())
}

/// Every presence combination of the optional parameters.
fn c04_combinations(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let mut spec = Spec::random(r, true);
    let bit = |n: u64| i >> n & 1 == 1;
    spec.token = if bit(0) { Some((gen::text(r), gen::secret(r))) } else { None };
    spec.callback = if bit(1) { Some(gen::text(r)) } else { None };
    spec.verifier = if bit(2) { Some(gen::text(r)) } else { None };
    spec.nonce = if bit(3) { Some(gen::text(r)) } else { None };
    spec.timestamp = if bit(4) { Some(timestamp(r)) } else { None };
    spec.version = bit(5);
    if bit(6) {
        spec.params.clear();
    }
    let t = TRANSPORTS[(i >> 7) as usize % 3];
    let cfg = RecConfig { name: "N", use_nonce: (i >> 7) / 3 & 1 == 0, use_timestamp: (i >> 7) / 6 & 1 == 0, signature: String::new() };
    m.note(|| format!("{t:?} {cfg:?} {}", spec.describe()));
    let req = Manual(spec.params.clone());
    let (msg, _, at) = send(t, &spec, &req, RecFull::new(cfg.clone()));
    check_params(&spec, "N", Uses { nonce: cfg.use_nonce, timestamp: cfg.use_timestamp }, t, &msg, at)?;
    m.count("option combinations", 1);
    m.seen(msg.as_bytes());
    Ok(())
}

/// One hostile character in each place where a value may go.
fn c04_chars(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    const PER: u32 = 64;
    for c in (i as u32 * PER..(i as u32 + 1) * PER).filter_map(char::from_u32) {
        let s = match c as u32 % 3 {
            0 => c.to_string(),
            1 => format!("a{c}"),
            _ => format!("{c}{c}z"),
        };
        let spec = Spec {
            method: "GET".into(),
            uri: "http://h/".into(),
            client: (s.clone(), s.clone()),
            token: Some((s.clone(), s.clone())),
            callback: Some(s.clone()),
            verifier: Some(s.clone()),
            nonce: Some(s.clone()),
            timestamp: Some(1),
            version: true,
            params: vec![
                gen::Param { key: "a".into(), val: Val::Text(s.clone(), How::Whole), encoded: false, plain: s.clone() },
                gen::Param { key: "p".into(), val: Val::Text(codec::enc(&s), How::Whole), encoded: true, plain: s.clone() },
            ],
        };
        let req = Manual(spec.params.clone());
        let t = *r.pick(&TRANSPORTS);
        let (msg, _, at) = send(t, &spec, &req, HMAC_SHA1);
        check_params(&spec, "HMAC-SHA1", USES_BOTH, t, &msg, at)?;
        m.count("characters in every value", 1);
        m.seen(msg.as_bytes());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn c05_agree(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = Spec::random(r, true).fixed(r);
    let req = Manual(spec.params.clone());
    m.note(|| spec.describe());
    let which = r.below(3);
    let prefix = gen::text(r);
    m.note(|| format!("prior content {prefix:?}"));
    let cfg = rec_cfg(r);
    let go = |e: usize, spec: &Spec, prefix: &str| match which {
        0 => run(e, spec, &req, HMAC_SHA1, prefix),
        1 => run(e, spec, &req, PLAINTEXT, prefix),
        _ => run(e, spec, &req, RecFull::new(cfg.clone()), prefix),
    };
    for e in 0..entries::COUNT {
        m.note(|| format!("entry point {}", entries::name(e)));
        let out = go(e, &spec, &prefix)?;
        let mut ref_spec = spec.clone();
        ref_spec.method = out.method.clone();
        let reference = go(
            match out.transport {
                Transport::Header => 36,
                Transport::Form => 37,
                Transport::Query => 38,
            },
            &ref_spec,
            "",
        )?;
        ensure_eq!(out.msg, reference.msg, "{} differs from the serializer driven by hand", entries::name(e));
        m.count(&format!("entry {}", entries::name(e)), 1);
        m.seen(out.msg.as_bytes());
    }
    // The reference itself is a genuine message.
    if which == 0 {
        let out = go(37, &spec, "")?;
        check_message(&spec, &Check::Hmac, Transport::Form, &out.msg, (0, u64::MAX - 5))?;
        m.sample(|| out.msg.clone());
    }
    Ok(())
}

fn c05_free(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut spec = Spec::random(r, true);
    (spec.callback, spec.verifier, spec.nonce, spec.timestamp, spec.version) = (None, None, None, None, false);
    if spec.token.is_none() {
        spec.token = Some((gen::text(r), gen::secret(r)));
    }
    let req = Manual(spec.params.clone());
    m.note(|| spec.describe());
    for e in 0..entries::FREE_COUNT {
        m.note(|| format!("entry point {}", entries::free_name(e)));
        let t0 = now();
        let out = entries::run_free(e, &spec, &req, HMAC_SHA1);
        let at = (t0, now());
        let mut s = spec.clone();
        s.method = out.method;
        let p = check_message(&s, &Check::Hmac, Transport::Header, &out.msg, at)?;
        // With the generated values fixed, the builder gives the very same text.
        s.nonce = p.nonce;
        s.timestamp = p.timestamp;
        let again = s.builder(HMAC_SHA1).authorize(&s.method, &s.uri, &req);
        ensure_eq!(out.msg, again, "{} differs from the builder", entries::free_name(e));
        m.count(&format!("entry {}", entries::free_name(e)), 1);
        m.seen(out.msg.as_bytes());
    }
    Ok(())
}

/// URI, credentials and buffers of different types, and ways to make a builder.
fn c05_types(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut spec = Spec::random(r, false).fixed(r);
    if spec.token.is_none() {
        spec.token = Some((gen::text(r), gen::secret(r)));
    }
    m.note(|| spec.describe());
    let req = Manual(spec.params.clone());
    let (met, uri) = (&*spec.method, &*spec.uri);
    let reference = spec.builder(HMAC_SHA1).authorize(met, uri, &req);
    let (ci, cs) = (&*spec.client.0, &*spec.client.1);
    let (ti, ts) = { let t = spec.token.as_ref().unwrap(); (&*t.0, &*t.1) };
    fn set<'a, SM: oauth::signature_method::SignatureMethod, C: AsRef<str>, T: AsRef<str>>(b: &mut Builder<'a, SM, C, T>, s: &'a Spec) {
        b.callback(s.callback.as_deref()).verifier(s.verifier.as_deref()).nonce(s.nonce.as_deref());
        b.timestamp(s.timestamp.and_then(std::num::NonZeroU64::new)).version(s.version);
    }
    let mut b1: Builder<'_, _, String, String> = Builder::new(Credentials::new(ci.to_owned(), cs.to_owned()), HMAC_SHA1);
    b1.token(Credentials::new(ti.to_owned(), ts.to_owned()));
    set(&mut b1, &spec);
    ensure_eq!(b1.authorize(met, uri.to_owned(), &req), reference, "String credentials");
    let mut b2 = Builder::with_token(Token::from_parts(ci, cs, ti, ts), HMAC_SHA1);
    set(&mut b2, &spec);
    ensure_eq!(b2.authorize(met, &uri, &req), reference, "with_token");
    let mut b3: Builder<'_, _, Box<str>, std::rc::Rc<str>> =
        Builder::with_token(Token::new(Credentials::new(ci.into(), cs.into()), Credentials::new(ti.into(), ts.into())), oauth::HmacSha1::default());
    set(&mut b3, &spec);
    ensure_eq!(b3.authorize(met, format_args!("{}", uri), &req), reference, "mixed credentials");
    let cow: std::borrow::Cow<'_, str> = uri.into();
    ensure_eq!(b3.clone().authorize(met, cow, &req), reference, "Cow URI");
    let d: &dyn Display = &Val::Text(uri.to_owned(), gen::how(r));
    ensure_eq!(b3.authorize(met, d, &req), reference, "URI written in pieces");
    ensure_eq!(b3.into_authorization(met, Val::Text(uri.to_owned(), gen::how(r)), &&&req), reference, "URI written in pieces, into_authorization");
    // Requests of other types, and through references.
    let list: ParameterList<String, Val> = spec.params.iter().map(|p| (p.key.clone(), p.val.clone())).collect();
    ensure_eq!(b1.authorize(met, uri, &list), reference, "ParameterList");
    ensure_eq!(b1.authorize(met, uri, &Some(&list)), reference, "Option<&ParameterList>");
    let mut l2 = list;
    ensure_eq!(b1.authorize(met, uri, &&mut l2), reference, "&mut ParameterList");
    m.count("type variants compared", 9);
    m.seen(reference.as_bytes());
    ensure!(!reference.is_empty(), "empty message");
    Ok(())
}

static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "cases: random specification (method, URI, secrets, options, parameters with hostile values, duplicate keys and keys around the protocol names) signed with HMAC-SHA1 in header, form or query by some request type and entry point; a case is non-trivial once the server model received and verified a signed message; distinct by the whole message",
        families: &[
            fam("random", 12000, 2_000_000, c01_random),
            fam("key-lengths", 4970, 4970 * 20, c01_key_lengths),
            fam("duplicates", 6000, 800_000, c01_duplicates),
            fam("derived", 2000, 200_000, c01_derived),
            fam("entries", 41 * 40, 41 * 4000, c01_entries),
            fam("free", 600, 60_000, c01_free),
            fam("big", 16, 400, c01_big),
        ],
    },
    Prop {
        id: "C03",
        rule: "cases: random secrets (and every Unicode scalar value) signed with PLAINTEXT through default and custom buffers, together with an unrelated request of the same secrets; non-trivial once the received signature was decoded and both secrets recovered; distinct by signature",
        families: &[fam("random", 10000, 1_500_000, c03_random), fam("chars", 2176, 2176, c03_chars)],
    },
    Prop {
        id: "C04",
        rule: "cases: random hostile specifications signed by HMAC-SHA1, PLAINTEXT and a custom method, every presence combination of options, and every Unicode scalar value below U+3000 in every value; non-trivial once the message was parsed by the transport's grammar; distinct by message",
        families: &[
            fam("random", 14000, 2_000_000, c04_random),
            fam("combinations", 1536 * 2, 1536 * 100, c04_combinations),
            fam("chars", 0x3000 / 64, 0x110000 / 64, c04_chars),
        ],
    },
    Prop {
        id: "C05",
        rule: "cases: one random specification signed through all 41 builder and serializer entry points (byte equality with the hand-driven serializer, prior content kept), all 10 free functions, and credential/URI/request type variants; distinct by message",
        families: &[fam("agree", 500, 60_000, c05_agree), fam("free", 400, 50_000, c05_free), fam("types", 700, 90_000, c05_types)],
    },
];

fn main() {
    drive::main(PROPS);
}
