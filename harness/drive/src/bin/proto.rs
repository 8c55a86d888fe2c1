//! C06 (builder state), C07 (custom signature methods), C08 (request serialization), C21 (misuse
//! guards), C23 (recording serializer).

use std::collections::HashSet;
use std::fmt::{self, Display, Formatter, Write};
use std::num::NonZeroU64;

use drive::codec::enc;
use drive::entries;
use drive::gen::{self, How, Param, Val, SIGNED_PROTO};
use drive::mon::{catch, fam, Prop};
use drive::monitors::*;
use drive::requests::*;
use drive::rfc::Check;
use drive::spec::*;
use drive::{clip, ensure, ensure_eq, Mon, Res, Rng};
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::recorder::{Record, Recorder};
use oauth::serializer::{Serializer, SerializerExt};
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Request, Token, HMAC_SHA1, PLAINTEXT};

// --------------------------------------------------------------------------------------------- C06

type B<'a, SM> = Builder<'a, SM, &'a str, &'a str>;

/// Signs through a builder without consuming it.
fn sign_ref<SM: SignatureMethod + Clone, R: Request>(e: usize, b: &B<SM>, spec: &Spec, req: &R, junk: &str) -> Result<(Transport, String, String), String> {
    use Transport::*;
    let (m, u) = (&*spec.method, &*spec.uri);
    let strip = |s: String| s.strip_prefix(junk).map(str::to_owned).ok_or_else(|| format!("prior content of the buffer altered: {:?}", clip(&s)));
    Ok(match e {
        0 => (Header, m.into(), b.authorize(m, u, req)),
        1 => (Form, m.into(), b.to_form(m, u, req)),
        2 => (Query, m.into(), b.to_query(m, u.to_owned(), req)),
        3 => (Header, m.into(), strip(b.authorize_with_buf(junk.to_owned(), m, u, req))?),
        4 => (Form, m.into(), strip(b.to_form_with_buf(junk.to_owned(), m, u, req))?),
        5 => (Header, "GET".into(), b.get(u, req)),
        6 => (Form, "POST".into(), b.post_form(u, req)),
        7 => (Query, "DELETE".into(), b.delete_query(u.to_owned(), req)),
        8 => (Header, m.into(), b.clone().into_authorization(m, u, req)),
        9 => (Form, m.into(), b.clone().into_form(m, u, req)),
        10 => (Query, m.into(), b.clone().into_query(m, u.to_owned(), req)),
        11 => (Header, m.into(), strip(b.clone().into_authorization_with_buf(junk.to_owned(), m, u, req))?),
        _ => (Form, m.into(), strip(b.clone().into_form_with_buf(junk.to_owned(), m, u, req))?),
    })
}

fn sign_consuming<SM: SignatureMethod + Clone, R: Request>(e: usize, b: B<SM>, spec: &Spec, req: &R) -> (Transport, String) {
    use Transport::*;
    let (m, u) = (&*spec.method, &*spec.uri);
    match e {
        0 => (Header, b.into_authorization(m, u, req)),
        1 => (Form, b.into_form(m, u, req)),
        2 => (Query, b.into_query(m, u.to_owned(), req)),
        3 => (Header, b.into_authorization_with_buf(String::new(), m, u, req)),
        _ => (Form, b.into_form_with_buf(String::new(), m, u, req)),
    }
}

fn c06_history<SM: SignatureMethod + Clone>(r: &mut Rng, m: &mut Mon, sm: SM, check: Check) -> Res {
    let pool: Vec<String> = (0..24).map(|_| gen::text(r)).collect();
    let pool = &pool;
    fn pick<'a>(r: &mut Rng, pool: &'a [String]) -> &'a str {
        r.pick(pool)
    }
    let mut nonces = HashSet::new();
    let fresh = |r: &mut Rng| -> Spec {
        Spec {
            method: "GET".into(),
            uri: "http://example.com/".into(),
            client: (pick(r, pool).into(), pick(r, pool).into()),
            token: None,
            callback: None,
            verifier: None,
            nonce: None,
            timestamp: None,
            version: false,
            params: Vec::new(),
        }
    };
    // SAFETY of the model: `Spec` holds copies; the builder borrows from the pool.
    let find = |s: &str| -> &str { pool.iter().find(|p| *p == s).unwrap() };
    let mut live: Vec<(B<SM>, Spec)> = Vec::new();
    let s = fresh(r);
    live.push((Builder::new(Credentials::new(find(&s.client.0), find(&s.client.1)), sm.clone()), s));
    let steps = if m.thorough { r.range(5, 120) } else { r.range(5, 40) };
    let mut trace = String::new();
    for _ in 0..steps {
        let i = r.below(live.len());
        let n = live.len();
        let (b, s) = &mut live[i];
        let op = r.below(20);
        match op {
            0 | 1 => {
                let t = (pick(r, pool), pick(r, pool));
                match r.below(4) {
                    0 => {
                        b.token(None);
                        s.token = None;
                    }
                    1 => {
                        b.token(Some(Credentials::new(t.0, t.1)));
                        s.token = Some((t.0.into(), t.1.into()));
                    }
                    _ => {
                        b.token(Credentials::new(t.0, t.1));
                        s.token = Some((t.0.into(), t.1.into()));
                    }
                }
            }
            2 | 3 => {
                let v = pick(r, pool);
                if r.chance(1, 3) {
                    b.callback(None);
                    s.callback = None;
                } else {
                    b.callback(v);
                    s.callback = Some(v.into());
                }
            }
            4 | 5 => {
                let v = pick(r, pool);
                if r.chance(1, 3) {
                    b.verifier(None);
                    s.verifier = None;
                } else {
                    b.verifier(Some(v));
                    s.verifier = Some(v.into());
                }
            }
            6 | 7 => {
                let v = pick(r, pool);
                if r.chance(1, 2) {
                    b.nonce(None);
                    s.nonce = None;
                } else {
                    b.nonce(v);
                    s.nonce = Some(v.into());
                }
            }
            8 | 9 => {
                let v = timestamp(r);
                if r.chance(1, 2) {
                    b.timestamp(None);
                    s.timestamp = None;
                } else {
                    b.timestamp(NonZeroU64::new(v).unwrap());
                    s.timestamp = Some(v);
                }
            }
            10 => {
                let v = r.chance(1, 2);
                b.version(v);
                s.version = v;
            }
            11 => {
                // several setters in one chain, the last one of each kind wins
                let (v, w) = (pick(r, pool), pick(r, pool));
                b.callback(v).verifier(w).callback(w).verifier(None).version(true).nonce(v).version(false).verifier(v);
                (s.callback, s.verifier, s.nonce, s.version) = (Some(w.into()), Some(v.into()), Some(v.into()), false);
            }
            12 | 13 if n < 4 => {
                let c = live[i].clone();
                live.push(c);
                m.count("builder clones", 1);
            }
            14 if n < 4 => {
                let mut s = fresh(r);
                let client = Credentials::new(find(&s.client.0), find(&s.client.1));
                let b = if r.chance(1, 2) {
                    let t = (pick(r, pool), pick(r, pool));
                    s.token = Some((t.0.into(), t.1.into()));
                    Builder::with_token(Token::new(client, Credentials::new(t.0, t.1)), sm.clone())
                } else {
                    Builder::new(client, sm.clone())
                };
                live.push((b, s));
            }
            15 if n > 1 => {
                // clone_from overwrites everything
                let j = r.below(live.len());
                let c = live[j].clone();
                live[i].0.clone_from(&c.0);
                live[i].1 = c.1;
            }
            _ => {
                s.method = gen::method(r);
                s.uri = gen::uri(r);
                s.set_params(gen::params(r, false));
                let (req, _) = AnyReq::random(r, &s.params);
                let consume = r.chance(1, 8) && n > 1;
                let t0 = now();
                let (t, method, msg, spec);
                if consume {
                    let (b, s) = live.swap_remove(i);
                    let e = r.below(5);
                    trace.push_str(&format!(" {i}:consume{e}"));
                    let (t_, msg_) = sign_consuming(e, b, &s, &req);
                    (t, method, msg, spec) = (t_, s.method.clone(), msg_, s);
                } else {
                    let e = r.below(13);
                    trace.push_str(&format!(" {i}:sign{e}"));
                    let (b, s) = &live[i];
                    let (t_, m_, msg_) = sign_ref(e, b, s, &req, pick(r, pool))?;
                    (t, method, msg, spec) = (t_, m_, msg_, s.clone());
                }
                let mut spec = spec;
                spec.method = method;
                let p = check_message(&spec, &check, t, &msg, (t0, now())).map_err(|e| format!("after{trace}: {e}\n  model: {}", spec.describe()))?;
                if spec.nonce.is_none() {
                    ensure!(nonces.insert(p.nonce.clone()), "nonce {:?} left over from an earlier request, after{trace}", p.nonce);
                }
                m.count("messages checked against the model state", 1);
                m.seen(msg.as_bytes());
                continue;
            }
        }
        trace.push_str(&format!(" {i}:{op}"));
        m.count("state changing operations", 1);
    }
    m.sample(|| format!("history{trace}"));
    Ok(())
}

fn c06_builders(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    if i % 3 == 0 {
        c06_history(r, m, PLAINTEXT, Check::Plaintext)
    } else {
        c06_history(r, m, HMAC_SHA1, Check::Hmac)
    }
}

/// The same for `Options` shared by hand-made serializers.
fn c06_options(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let pool: Vec<String> = (0..12).map(|_| gen::text(r)).collect();
    let mut s = Spec::random(r, true);
    (s.callback, s.verifier, s.nonce, s.timestamp, s.version) = (None, None, None, None, false);
    let base = s.clone();
    let mut all: Vec<(Options, Spec)> = vec![(if r.chance(1, 2) { Options::new() } else { Options::default() }, s)];
    for _ in 0..r.range(3, 25) {
        let i = r.below(all.len());
        let n = all.len();
        let (o, s) = &mut all[i];
        let v = r.pick(&pool);
        let none = r.chance(1, 3);
        match r.below(9) {
            0 => {
                o.callback(if none { None } else { Some(&**v) });
                s.callback = if none { None } else { Some(v.clone()) };
            }
            1 => {
                o.verifier(if none { None } else { Some(&**v) });
                s.verifier = if none { None } else { Some(v.clone()) };
            }
            2 => {
                o.nonce(if none { None } else { Some(&**v) });
                s.nonce = if none { None } else { Some(v.clone()) };
            }
            3 => {
                let t = timestamp(r);
                o.timestamp(if none { None } else { NonZeroU64::new(t) });
                s.timestamp = if none { None } else { Some(t) };
            }
            4 => {
                o.version(none);
                s.version = none;
            }
            5 if n < 3 => {
                let c = all[i].clone();
                all.push(c);
            }
            _ => {
                let req = Manual(s.params.clone());
                let t = *r.pick(&TRANSPORTS);
                let t0 = now();
                let (c, k) = (base.client_ref(), base.token_ref());
                let msg = match t {
                    Transport::Header => req.serialize(Authorizer::authorization(&s.method, &s.uri, c, k, o, HMAC_SHA1)),
                    Transport::Form => req.serialize(Authorizer::form(&s.method, &s.uri, c, k, o, HMAC_SHA1)),
                    Transport::Query => req.serialize(Authorizer::query(&s.method, s.uri.clone(), c, k, o, HMAC_SHA1)),
                };
                check_message(s, &Check::Hmac, t, &msg, (t0, now())).map_err(|e| format!("{e}\n  model: {}", s.describe()))?;
                m.count("messages checked against the model state", 1);
                m.seen(msg.as_bytes());
                continue;
            }
        }
        m.count("state changing operations", 1);
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C07

const NAMES: &[&str] = &["HMAC-SHA256", "X", "my.method_1~", "RSA-SHA1", ""];

fn config(r: &mut Rng) -> (RecConfig, String) {
    let sig = gen::text(r);
    let cfg = RecConfig { name: r.pick(NAMES), use_nonce: r.chance(2, 3), use_timestamp: r.chance(2, 3), signature: enc(&sig) };
    (cfg, sig)
}

/// The events which the documented protocol calls for.
fn expected_events(spec: &Spec, cfg: &RecConfig, full: bool, p: &Parsed) -> Vec<Ev> {
    let mut ps: Vec<(String, String, Option<usize>)> = spec.params.iter().map(|p| (p.key.clone(), enc(&p.plain), None)).collect();
    let mut put = |i: usize, v: Option<String>| {
        if let Some(v) = v {
            ps.push((SIGNED_PROTO[i].to_owned(), enc(&v), Some(i)));
        }
    };
    put(0, spec.callback.clone());
    put(1, Some(spec.client.0.clone()));
    put(2, p.nonce.clone());
    put(3, Some(cfg.name.to_owned()));
    put(4, p.timestamp.map(|t| t.to_string()));
    put(5, spec.token.as_ref().map(|t| t.0.clone()));
    put(6, spec.verifier.clone());
    put(7, if spec.version { Some("1.0".into()) } else { None });
    ps.sort();
    let mut out = vec![Ev::SignWith(spec.client.1.clone(), spec.token.as_ref().map(|t| t.1.clone())), Ev::Method(spec.method.clone()), Ev::Uri(enc(&spec.uri))];
    for (n, (k, v, i)) in ps.into_iter().enumerate() {
        if n > 0 {
            out.push(Ev::Delim);
        }
        let v = enc(&v);
        out.push(match i {
            Some(3) if full => Ev::SignatureMethod,
            Some(7) if full => Ev::Version,
            Some(i) if full => Ev::Proto(SIGNED_PROTO[i], v),
            _ => Ev::Param(k, v),
        });
    }
    out.push(Ev::End);
    out
}

fn concat(evs: &[Ev], name: &str) -> String {
    let mut s = String::new();
    let mut method = "";
    for e in evs {
        match e {
            Ev::SignWith(..) | Ev::End => {}
            Ev::Method(m) => method = m,
            Ev::Uri(u) => {
                s.push_str(u);
                s.push('&');
            }
            Ev::Param(k, v) => s.push_str(&format!("{k}%3D{v}")),
            Ev::Proto(k, v) => s.push_str(&format!("{k}%3D{v}")),
            Ev::SignatureMethod => s.push_str(&format!("oauth_signature_method%3D{name}")),
            Ev::Version => s.push_str("oauth_version%3D1.0"),
            Ev::Delim => s.push_str("%26"),
        }
    }
    format!("{}&{s}", enc(&method.to_ascii_uppercase()))
}

fn check_events(m: &mut Mon, spec: &Spec, cfg: &RecConfig, sig: &str, full: bool, t: Transport, msg: &str, mut got: Vec<Ev>, at: (u64, u64)) -> Res {
    let uses = if full { Uses { nonce: cfg.use_nonce, timestamp: cfg.use_timestamp } } else { USES_BOTH };
    let p = check_params(spec, cfg.name, uses, t, msg, at)?;
    ensure_eq!(p.signature, sig, "the signature transmitted is not the one returned");
    // The method may be given as is or as it stands in the base string.
    let upper = enc(&spec.method.to_ascii_uppercase());
    for e in got.iter_mut() {
        if let Ev::Method(x) = e {
            if *x == upper {
                *x = spec.method.clone();
            }
        }
    }
    let want = expected_events(spec, cfg, full, &p);
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!(
            "calls to the signer differ from the documented protocol at call {i}: got {:?}, expected {:?}\n  all calls: {}",
            got.get(i),
            want.get(i),
            clip(&format!("{got:?}"))
        ));
    }
    // The base string a server computes from the received message.
    let mut all = p.all.clone();
    if t == Transport::Header {
        all.extend(spec.plain_params());
    }
    ensure_eq!(concat(&got, cfg.name), drive::rfc::base_string(&spec.method, &spec.uri, &all), "concatenating the calls does not give the base string");
    m.count("signer calls checked", got.len() as u64);
    m.count("requests signed by custom methods", 1);
    m.max("signer calls of a request", got.len() as u64);
    m.seen(concat(&got, cfg.name).as_bytes());
    m.sample(|| format!("{got:?}"));
    Ok(())
}

fn c07_protocol(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = Spec::random(r, true);
    let (cfg, sig) = config(r);
    m.note(|| format!("{cfg:?} {}", spec.describe()));
    let (req, kind) = AnyReq::random(r, &spec.params);
    m.count(&format!("request kind {kind}"), 1);
    let t = *r.pick(&TRANSPORTS);
    if r.chance(2, 3) {
        let sm = RecFull::new(cfg.clone());
        let (msg, _, at) = send(t, &spec, &req, sm.clone());
        check_events(m, &spec, &cfg, &sig, true, t, &msg, sm.take(), at)
    } else {
        let sm = RecMin::new(cfg.clone());
        let (msg, _, at) = send(t, &spec, &req, sm.clone());
        check_events(m, &spec, &sm.cfg.clone(), &sig, false, t, &msg, sm.take(), at)
    }
}

fn c07_entries(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let mut spec = Spec::random(r, true);
    let (cfg, sig) = config(r);
    let n = entries::COUNT + entries::FREE_COUNT;
    let e = (i % n as u64) as usize;
    if e >= entries::COUNT {
        (spec.callback, spec.verifier, spec.nonce, spec.timestamp, spec.version) = (None, None, None, None, false);
        spec.token = Some((gen::text(r), gen::text(r)));
    }
    let req = Manual(spec.params.clone());
    let sm = RecFull::new(cfg.clone());
    let pre = gen::text(r);
    m.note(|| format!("{cfg:?} {}", spec.describe()));
    let t0 = now();
    let out = if e < entries::COUNT { entries::run(e, &spec, &req, sm.clone(), &pre)? } else { entries::run_free(e - entries::COUNT, &spec, &req, sm.clone()) };
    let at = (t0, now());
    let name = if e < entries::COUNT { entries::name(e) } else { entries::free_name(e - entries::COUNT) };
    m.note(|| format!("entry point {name}"));
    m.count(&format!("entry {name}"), 1);
    spec.method = out.method;
    check_events(m, &spec, &cfg, &sig, true, out.transport, &out.msg, sm.take(), at)
}

// --------------------------------------------------------------------------------------------- C08

fn key_of(c: &Call) -> Option<&str> {
    match c {
        Call::Raw(k, _) | Call::Encoded(k, _) => Some(k),
        Call::Proto(i) => Some(SIGNED_PROTO[*i]),
        Call::End => None,
    }
}

fn check_calls(m: &mut Mon, ps: &[Param], out: &RecOut, id: u64, exact_order: bool) -> Res {
    ensure_eq!(out.id, id, "the output is not the serializer's");
    let calls = &out.calls;
    let shown = || clip(&format!("{calls:?}"));
    ensure!(calls.iter().filter(|c| **c == Call::End).count() == 1 && calls.last() == Some(&Call::End), "`end` is not called exactly once and last: {}", shown());
    let protos: Vec<usize> = calls.iter().filter_map(|c| if let Call::Proto(i) = c { Some(*i) } else { None }).collect();
    ensure_eq!(protos, (0..8).collect::<Vec<_>>(), "protocol parameter calls in {}", shown());
    let keys: Vec<&str> = calls.iter().filter_map(key_of).collect();
    if let Some(w) = keys.windows(2).find(|w| w[0].as_bytes() > w[1].as_bytes()) {
        return Err(format!("key {:?} comes after {:?} in {}", w[1], w[0], shown()));
    }
    let mut got: Vec<(String, String, bool)> = calls
        .iter()
        .filter_map(|c| match c {
            Call::Raw(k, v) => Some((k.clone(), v.clone(), false)),
            Call::Encoded(k, v) => Some((k.clone(), v.clone(), true)),
            _ => None,
        })
        .collect();
    let mut want: Vec<(String, String, bool)> = ps.iter().map(|p| (p.key.clone(), p.val.text(), p.encoded)).collect();
    if !exact_order {
        got.sort();
        want.sort();
    }
    ensure_eq!(got, want, "parameters emitted");
    m.count("serializer calls checked", calls.len() as u64);
    Ok(())
}

fn c08_requests(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let mut ps = gen::params(r, i % 3 == 0);
    if i % 5 == 0 {
        // keys all around the protocol names
        ps = (0..r.range(1, 40)).map(|_| Param::raw(gen::key(r), Val::U64(r.below(4) as u64))).collect();
    }
    ps.sort_by_cached_key(Param::order);
    let (req, kind) = AnyReq::random(r, &ps);
    m.note(|| format!("kind {kind} params {:?}", ps.iter().map(|p| (&p.key, &p.val, p.encoded)).collect::<Vec<_>>()));
    m.count(&format!("request kind {kind}"), 1);
    let id = r.u64();
    let a = req.serialize(RecSer::new(id));
    check_calls(m, &ps, &a, id, true)?;
    // through references, and again
    let mut req = req;
    let b = (&&req).serialize(RecSer::new(id));
    let c = (&mut req).serialize(RecSer::new(id));
    let d = Some(&req).serialize(RecSer::new(id));
    let e = Some(Some(&&mut req)).serialize(RecSer::new(id));
    let f = req.serialize(RecSer::new(id));
    for (how, o) in [("&&R", b), ("&mut R", c), ("Some(&R)", d), ("Some(Some(&&mut R))", e), ("a second time", f)] {
        ensure_eq!(o, a, "serializing through {how} differs");
    }
    m.count("serializations", 6);
    m.seen(format!("{:?}", a.calls).as_bytes());
    m.sample(|| format!("{kind}: {:?}", a.calls));
    Ok(())
}

/// `AssertSorted` over iterators which only promise ascending keys.
fn c08_assert_sorted(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    use oauth::request::AssertSorted;
    let mut ps: Vec<Param> = (0..r.below(30)).map(|_| Param::raw(gen::key(r), gen::val(r))).collect();
    ps.sort_by_cached_key(Param::order);
    let id = r.u64();
    let req = AssertSorted::new(ps.iter().map(|p| (&*p.key, &p.val)));
    let a = req.serialize(RecSer::new(id));
    check_calls(m, &ps, &a, id, true)?;
    let b = req.clone().serialize(RecSer::new(id));
    ensure_eq!(a, b, "a cloned request serializes differently");
    // chained, filtered, mapped iterators
    let k = r.below(ps.len() + 1);
    let it = ps[..k].iter().chain(&ps[k..]).map(|p| (p.key.clone(), p.val.text()));
    let c = AssertSorted::new(it).serialize(RecSer::new(id));
    ensure_eq!(a, c, "a chained iterator serializes differently");
    // iterators which do not know how many they are, or know it only in part
    let d = AssertSorted::new(ps.iter().map(|p| (&*p.key, &p.val)).filter(|_| true)).serialize(RecSer::new(id));
    ensure_eq!(a, d, "a filtered iterator serializes differently");
    let mut left = ps.iter();
    let d = AssertSorted::new(std::iter::from_fn(move || left.next().map(|p| (&*p.key, &p.val)))).serialize(RecSer::new(id));
    ensure_eq!(a, d, "an iterator without a size hint serializes differently");
    let d = AssertSorted::new(ps[..k].iter().chain(ps[k..].iter().skip_while(|_| false)).map(|p| (&*p.key, &p.val))).serialize(RecSer::new(id));
    ensure_eq!(a, d, "an iterator of a partly known size serializes differently");
    // nothing at all
    let e = AssertSorted::new(std::iter::empty::<(&str, u8)>()).serialize(RecSer::new(id));
    ensure_eq!(e, ().serialize(RecSer::new(id)), "an empty iterator differs from the unit request");
    check_calls(m, &[], &e, id, true)?;
    m.seen(format!("{:?}", a.calls).as_bytes());
    Ok(())
}

/// Every single key of up to two characters around a protocol name's prefix.
fn c08_boundaries(_: &mut Rng, m: &mut Mon, i: u64) -> Res {
    const UNRES: &[u8] = b"-.0Az_a~";
    let names = SIGNED_PROTO;
    let name = names[(i % 8) as usize];
    let cut = (i / 8) as usize;
    if cut > name.len() {
        return Ok(());
    }
    for a in UNRES.iter().map(Some).chain([None]) {
        for b in UNRES.iter().map(Some).chain([None]) {
            let mut k = name[..cut].as_bytes().to_vec();
            k.extend(a);
            if a.is_some() {
                k.extend(b);
            }
            let k = String::from_utf8(k).unwrap();
            if gen::is_proto(&k) {
                continue;
            }
            let ps = vec![text_param(&k, "v")];
            let l = oauth::ParameterList::new([(&*k, "v")]).serialize(RecSer::new(i));
            check_calls(m, &ps, &l, i, true)?;
            m.count("boundary keys", 1);
        }
    }
    m.seen(format!("{name} {cut}").as_bytes());
    Ok(())
}

// --------------------------------------------------------------------------------------------- C21

/// A URI that is also a buffer and writes itself in pieces.
#[derive(Clone)]
struct PieceBuf {
    text: String,
    how: How,
}

impl Write for PieceBuf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.text.push_str(s);
        Ok(())
    }
}

impl Display for PieceBuf {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        Val::Text(self.text.clone(), self.how.clone()).fmt(f)
    }
}

const GUARD_ENTRIES: usize = 36;

fn guard_entry<SM: SignatureMethod + Clone>(e: usize, spec: &Spec, how: &How, sm: SM) -> String {
    let b = spec.builder(sm.clone());
    let (u, q) = (Val::Text(spec.uri.clone(), how.clone()), PieceBuf { text: spec.uri.clone(), how: how.clone() });
    let m = &*spec.method;
    let o = spec.options();
    let (c, t) = (spec.client_ref(), spec.token_ref());
    let tok = Token::from_parts("a", "b", "c", "d");
    let req = Manual(spec.params.clone());
    let r = &req;
    match e {
        0 => b.authorize(m, u, r),
        1 => b.to_form(m, u, r),
        2 => b.to_query(m, q, r).text,
        3 => b.authorize_with_buf(String::new(), m, u, r),
        4 => b.to_form_with_buf(String::new(), m, u, r),
        5 => b.into_authorization(m, u, r),
        6 => b.into_form(m, u, r),
        7 => b.into_query(m, q, r).text,
        8 => b.into_authorization_with_buf(String::new(), m, u, r),
        9 => b.into_form_with_buf(String::new(), m, u, r),
        10 => b.get(u, r),
        11 => b.put(u, r),
        12 => b.post(u, r),
        13 => b.delete(u, r),
        14 => b.options(u, r),
        15 => b.head(u, r),
        16 => b.connect(u, r),
        17 => b.patch(u, r),
        18 => b.trace(u, r),
        19 => b.put_form(u, r),
        20 => b.post_form(u, r),
        21 => b.options_form(u, r),
        22 => b.patch_form(u, r),
        23 => b.get_query(q, r).text,
        24 => b.put_query(q, r).text,
        25 => b.post_query(q, r).text,
        26 => b.delete_query(q, r).text,
        27 => b.patch_query(q, r).text,
        28 => r.serialize(Authorizer::authorization(m, u, c, t, &o, sm)),
        29 => r.serialize(Authorizer::form(m, u, c, t, &o, sm)),
        30 => r.serialize(Authorizer::query(m, q, c, t, &o, sm)).text,
        31 => r.serialize(Authorizer::authorization_with_buf(String::new(), m, u, c, t, &o, sm)),
        32 => r.serialize(Authorizer::form_with_buf(String::new(), m, u, c, t, &o, sm)),
        33 => oauth::authorize(m, u, r, &tok, sm),
        34 => oauth::get(u, r, &tok, sm),
        _ => oauth::trace(u, r, &tok, sm),
    }
}

fn c21_uri(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let mut spec = Spec::random(r, true);
    let e = (i % GUARD_ENTRIES as u64) as usize;
    let how = gen::how(r);
    let misuse = r.chance(2, 3);
    if misuse {
        let n = if r.chance(1, 4) { r.range(2, 4) } else { 1 };
        for _ in 0..n {
            let len = spec.uri.chars().count();
            let at = match r.below(4) {
                0 => 0,
                1 => len,
                _ => r.below(len + 1),
            };
            let b = spec.uri.char_indices().nth(at).map_or(spec.uri.len(), |(b, _)| b);
            spec.uri.insert(b, '?');
        }
        if r.chance(1, 3) {
            spec.uri.push_str("a=b&c");
        }
    } else if r.chance(1, 2) {
        // look-alikes which are no query delimiters
        spec.uri.push_str(r.pick(&["%3F", "？", "¿", "⁇", "\u{1f}", "%3fa=b", "/>@"]));
    }
    m.note(|| format!("entry {e} uri {:?} {how:?} {}", spec.uri, spec.describe()));
    let which = r.below(3);
    let (cfg, _) = config(r);
    let res = catch(|| match which {
        0 => guard_entry(e, &spec, &how, HMAC_SHA1),
        1 => guard_entry(e, &spec, &how, PLAINTEXT),
        _ => guard_entry(e, &spec, &how, RecFull::new(cfg)),
    });
    match (misuse, res) {
        (true, Err(_)) => m.count("URIs with a query rejected", 1),
        (true, Ok(msg)) => {
            ensure!(!cfg!(debug_assertions), "a URI with a query part was signed in a debug build: {:?}", clip(&msg));
            m.count("URIs with a query in release builds (no guard)", 1);
        }
        (false, Ok(_)) => m.count("query-less URIs accepted", 1),
        (false, Err((msg, loc))) => return Err(format!("valid use panicked at {loc}: {}", clip(&msg))),
    }
    m.seen(format!("{e} {misuse} {} {how:?}", spec.uri).as_bytes());
    m.sample(|| format!("entry {e}, URI {:?} written {how:?}: misuse {misuse}", spec.uri));
    Ok(())
}

/// One operation on a hand-driven signing serializer.
#[derive(Clone, Debug)]
enum Op {
    Param(String, Val),
    Encoded(String, Val),
    Proto(usize),
}

impl Op {
    fn key(&self) -> &str {
        match self {
            Op::Param(k, _) | Op::Encoded(k, _) => k,
            Op::Proto(i) => SIGNED_PROTO[*i],
        }
    }
}

fn drive_ops<W: Write, SM: SignatureMethod>(mut a: Authorizer<'_, SM, W>, ops: &[Op], done: &std::cell::Cell<usize>) -> W {
    for op in ops {
        match op {
            Op::Param(k, v) => a.serialize_parameter(k, v),
            Op::Encoded(k, v) => a.serialize_parameter_encoded(k, v),
            Op::Proto(i) => proto_call(&mut a, *i),
        }
        done.set(done.get() + 1);
    }
    a.end()
}

fn emitted(spec: &Spec, cfg: Option<&RecConfig>, i: usize) -> bool {
    match i {
        0 => spec.callback.is_some(),
        2 => cfg.map_or(true, |c| c.use_nonce),
        4 => cfg.map_or(true, |c| c.use_timestamp),
        5 => spec.token.is_some(),
        6 => spec.verifier.is_some(),
        7 => spec.version,
        _ => true,
    }
}

fn c21_order(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = Spec::random_without_params(r);
    let (cfg, _) = config(r);
    let which = r.below(3);
    let cfg_ref = if which == 2 { Some(&cfg) } else { None };
    // A valid sequence, then one possible disturbance.
    let mut ops: Vec<Op> = (0..8).map(Op::Proto).collect();
    let small = r.chance(1, 2);
    for _ in 0..r.below(8) {
        let k = if small { ((b'a' + r.below(26) as u8) as char).to_string() } else { gen::key(r) };
        ops.push(if r.chance(1, 3) {
            Op::Encoded(k, Val::Text(enc(&gen::text(r)), gen::how(r)))
        } else {
            Op::Param(k, gen::val(r))
        });
    }
    ops.sort_by(|a, b| a.key().cmp(b.key()));
    match r.below(5) {
        0 => {}
        1 => {
            let i = r.below(ops.len());
            let op = ops.remove(i);
            ops.insert(r.below(ops.len() + 1), op);
        }
        2 => {
            let i = r.below(ops.len() - 1);
            ops.swap(i, i + 1);
        }
        3 => ops.insert(r.below(ops.len() + 1), Op::Param(gen::key(r), gen::val(r))),
        _ => r.shuffle(&mut ops),
    }
    // First call which feeds a key that sorts before the previous one.
    let first_bad = |all: bool| {
        let mut prev: &str = "";
        for (i, op) in ops.iter().enumerate() {
            if let Op::Proto(p) = op {
                if !all && !emitted(&spec, cfg_ref, *p) {
                    continue;
                }
            }
            if op.key().as_bytes() < prev.as_bytes() {
                return Some(i);
            }
            prev = op.key();
        }
        None
    };
    let bad = first_bad(false);
    m.note(|| format!("method {which} {ops:?} {}", spec.describe()));
    let t = *r.pick(&TRANSPORTS);
    let done = std::cell::Cell::new(0);
    let opts = spec.options();
    let (c, k) = (spec.client_ref(), spec.token_ref());
    fn go<SM: SignatureMethod>(t: Transport, spec: &Spec, c: Credentials<&str>, k: Option<Credentials<&str>>, o: &Options, sm: SM, ops: &[Op], done: &std::cell::Cell<usize>) -> String {
        match t {
            Transport::Header => drive_ops(Authorizer::authorization(&spec.method, &spec.uri, c, k, o, sm), ops, done),
            Transport::Form => drive_ops(Authorizer::form(&spec.method, &spec.uri, c, k, o, sm), ops, done),
            Transport::Query => drive_ops(Authorizer::query(&spec.method, spec.uri.clone(), c, k, o, sm), ops, done),
        }
    }
    let t0 = now();
    let res = catch(|| match which {
        0 => go(t, &spec, c, k, &opts, HMAC_SHA1, &ops, &done),
        1 => go(t, &spec, c, k, &opts, PLAINTEXT, &ops, &done),
        _ => go(t, &spec, c, k, &opts, RecFull::new(cfg.clone()), &ops, &done),
    });
    let t1 = now();
    match (bad, res) {
        (None, Ok(msg)) => {
            m.count("ordered sequences accepted", 1);
            // `first_bad(true)` differs when an unused protocol parameter is out of place, which is
            // harmless, or when it is called several times.
            let mut s = spec.clone();
            s.set_params(
                ops.iter()
                    .filter_map(|op| match op {
                        Op::Param(k, v) => Some(Param::raw(k.clone(), v.clone())),
                        Op::Encoded(k, v) => Some(Param { key: k.clone(), val: v.clone(), encoded: true, plain: drive::codec::dec_canonical(&v.text()).unwrap() }),
                        Op::Proto(_) => None,
                    })
                    .collect(),
            );
            let (name, uses) = match which {
                0 => ("HMAC-SHA1", USES_BOTH),
                1 => ("PLAINTEXT", USES_BOTH),
                _ => (cfg.name, Uses { nonce: cfg.use_nonce, timestamp: cfg.use_timestamp }),
            };
            check_params(&s, name, uses, t, &msg, (t0, t1))?;
        }
        (None, Err((msg, loc))) => {
            if first_bad(true).is_none() {
                return Err(format!("valid use panicked at {loc}: {}", clip(&msg)));
            }
            m.count("misplaced unused protocol parameter rejected", 1);
        }
        (Some(i), Err(_)) => {
            if cfg!(debug_assertions) {
                let ok = done.get() == i || Some(done.get()) == first_bad(true);
                ensure!(ok, "misordered call {i} ({:?}) panicked only at call {}", ops[i].key(), done.get());
            }
            m.count("misordered keys rejected", 1);
        }
        (Some(i), Ok(msg)) => {
            ensure!(!cfg!(debug_assertions), "key {:?} of call {i} sorts before the previous one and was signed in a debug build: {:?}", ops[i].key(), clip(&msg));
            m.count("misordered keys in release builds (no guard)", 1);
        }
    }
    m.seen(format!("{ops:?} {t:?} {which}").as_bytes());
    m.sample(|| format!("{:?}: misordered at {bad:?}", ops.iter().map(Op::key).collect::<Vec<_>>()));
    Ok(())
}

/// All ordered pairs of edge keys and protocol names.
fn c21_pairs(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut spec = Spec::random_without_params(r);
    spec.token = Some(("t".into(), "s".into()));
    spec.callback = Some("c".into());
    spec.verifier = Some("v".into());
    spec.version = true;
    let mk = |r: &mut Rng| match r.below(3) {
        0 => Op::Proto(r.below(8)),
        1 => Op::Param(gen::key(r), Val::Bool(true)),
        _ => Op::Encoded(gen::key(r), Val::Bool(true)),
    };
    let ops = [mk(r), mk(r)];
    let bad = ops[1].key().as_bytes() < ops[0].key().as_bytes();
    let done = std::cell::Cell::new(0);
    let opts = spec.options();
    let res = catch(|| drive_ops(Authorizer::form(&spec.method, &spec.uri, spec.client_ref(), spec.token_ref(), &opts, PLAINTEXT), &ops, &done));
    m.note(|| format!("{ops:?}"));
    match (bad, res) {
        (false, Err((msg, loc))) => return Err(format!("keys in order, but it panicked at {loc}: {msg}")),
        (true, Ok(_)) => ensure!(!cfg!(debug_assertions), "{:?} after {:?} was signed in a debug build", ops[1].key(), ops[0].key()),
        _ => {}
    }
    m.count(if bad { "misordered pairs" } else { "ordered pairs" }, 1);
    m.seen(format!("{ops:?}").as_bytes());
    Ok(())
}

/// Valid use, hostile values, every entry point: nothing may panic.
fn c21_valid(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let mut spec = Spec::random(r, true);
    let e = (i % entries::COUNT as u64) as usize;
    if r.chance(1, 8) {
        // everything empty
        spec = Spec { method: String::new(), uri: String::new(), client: Default::default(), token: Some(Default::default()), callback: Some(String::new()), verifier: Some(String::new()), nonce: Some(String::new()), ..spec };
    }
    let pre = gen::text(r);
    let (req, kind) = AnyReq::random(r, &spec.params);
    m.note(|| format!("entry {} kind {kind} {}", entries::name(e), spec.describe()));
    let t0 = now();
    let out = match r.below(3) {
        0 => entries::run(e, &spec, &req, HMAC_SHA1, &pre)?,
        1 => entries::run(e, &spec, &req, PLAINTEXT, &pre)?,
        _ => {
            let (cfg, _) = config(r);
            entries::run(e, &spec, &req, RecMin::new(cfg), &pre)?
        }
    };
    ensure!(!out.msg.is_empty(), "empty message (clock {t0})");
    let _ = (oauth::to_form(&req), oauth::to_query(spec.uri.clone(), &req), req.serialize(Recorder::new()));
    m.count("valid uses", 1);
    m.seen(out.msg.as_bytes());
    Ok(())
}

// --------------------------------------------------------------------------------------------- C23

fn c23_history(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut rec = if r.chance(1, 2) { Recorder::new() } else { Recorder::default() };
    let mut want: Vec<Call> = Vec::new();
    let mut forks: Vec<(Recorder, Vec<Call>)> = Vec::new();
    for _ in 0..r.below(30) {
        match r.below(10) {
            0..=2 => {
                // any text is fine as a key here
                let (k, v) = (if r.chance(1, 3) { gen::text(r) } else { gen::key(r) }, gen::val(r));
                rec.serialize_parameter(&k, &v);
                want.push(Call::Raw(k, v.text()));
            }
            3..=5 => {
                let (k, v) = (gen::key(r), gen::val(r));
                rec.serialize_parameter_encoded(&k, &v);
                want.push(Call::Encoded(k, v.text()));
            }
            6 => {
                rec.serialize_oauth_parameters();
                want.extend((0..8).map(Call::Proto));
            }
            7 => forks.push((rec.clone(), want.clone())),
            _ => {
                let i = r.below(8);
                proto_call(&mut rec, i);
                want.push(Call::Proto(i));
            }
        }
        same(rec.history(), &want)?;
        m.count("recorder states compared", 1);
    }
    let other = rec.clone();
    ensure!(other == rec, "a clone of the recorder differs");
    for (f, w) in forks {
        ensure_eq!(f == rec, w == want, "equality of recorders");
        same(f.history(), &w)?;
        same(&f.end(), &w)?;
    }
    same(&rec.end(), &want)?;
    m.seen(format!("{want:?}").as_bytes());
    m.sample(|| format!("{want:?}"));
    Ok(())
}

fn as_call(x: &Record) -> Call {
    match x {
        Record::Parameter(k, v) => Call::Raw(k.clone(), v.clone()),
        Record::ParameterEncoded(k, v) => Call::Encoded(k.clone(), v.clone()),
        Record::Callback => Call::Proto(0),
        Record::ConsumerKey => Call::Proto(1),
        Record::Nonce => Call::Proto(2),
        Record::SignatureMethod => Call::Proto(3),
        Record::Timestamp => Call::Proto(4),
        Record::Token => Call::Proto(5),
        Record::Verifier => Call::Proto(6),
        Record::Version => Call::Proto(7),
    }
}

fn same(h: &[Record], want: &[Call]) -> Res {
    let got: Vec<Call> = h.iter().map(as_call).collect();
    ensure_eq!(got, want, "the record differs from the calls made");
    Ok(())
}

fn rec_of<K, V>(c: &Call, k: impl Fn(&str) -> K, v: impl Fn(&str) -> V) -> Record<K, V> {
    match c {
        Call::Raw(a, b) => Record::Parameter(k(a), v(b)),
        Call::Encoded(a, b) => Record::ParameterEncoded(k(a), v(b)),
        Call::Proto(0) => Record::Callback,
        Call::Proto(1) => Record::ConsumerKey,
        Call::Proto(2) => Record::Nonce,
        Call::Proto(3) => Record::SignatureMethod,
        Call::Proto(4) => Record::Timestamp,
        Call::Proto(5) => Record::Token,
        Call::Proto(6) => Record::Verifier,
        _ => Record::Version,
    }
}

struct Silent;
impl Display for Silent {
    fn fmt(&self, _: &mut Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}

fn c23_equality(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    // Pairs which are equal, or nearly so.
    let near = |r: &mut Rng, s: &str| -> String {
        let mut t = s.to_owned();
        match r.below(8) {
            0..=3 => {}
            4 => t.push(gen::any_char(r)),
            5 => {
                t.pop();
            }
            6 => t = gen::text(r),
            _ => {
                let n = t.chars().count();
                if n > 0 {
                    let i = r.below(n);
                    let c = gen::any_char(r);
                    t = t.chars().enumerate().map(|(j, d)| if j == i { c } else { d }).collect();
                }
            }
        }
        t
    };
    let call = |r: &mut Rng, k: String, v: String| match r.below(5) {
        0 | 1 => Call::Raw(k, v),
        2 | 3 => Call::Encoded(k, v),
        _ => Call::Proto(r.below(8)),
    };
    let (k, v) = (gen::key(r), gen::text(r));
    let (k2, v2) = (near(r, &k), near(r, &v));
    let a = call(r, k, v);
    let b = if r.chance(1, 3) {
        match &a {
            Call::Raw(..) => Call::Raw(k2, v2),
            Call::Encoded(..) => Call::Encoded(k2, v2),
            c => c.clone(),
        }
    } else {
        call(r, k2, v2)
    };
    m.note(|| format!("{a:?} / {b:?}"));
    let want = a == b;
    let (h1, h2) = (gen::how(r), gen::how(r));
    let sa = rec_of(&a, str::to_owned, str::to_owned);
    let sb = rec_of(&b, str::to_owned, str::to_owned);
    let pa = rec_of(&a, |k| WrapKey(k.into(), 1), |v| Val::Text(v.to_owned(), h1.clone()));
    let pb = rec_of(&b, |k| Box::<str>::from(k), |v| Val::Text(v.to_owned(), h2.clone()));
    let cb = rec_of(&b, |k| std::sync::Arc::<str>::from(k), |v| v.chars().map(String::from).collect::<Vec<_>>().concat());
    let eqs = [sa == sb, sb == sa, sa == pb, pb == sa, pa == sb, sb == pa, pa == pb, pb == pa, pa == cb, cb == pa, !(sa != sb), !(pa != pb)];
    ensure!(eqs.iter().all(|e| *e == want), "equality should be {want}: {eqs:?}");
    ensure!(sa == sa.clone() && pa == pa.clone() && pa == sa && sa == pa && pb == sb, "a record does not equal itself");
    // values which write nothing, against others
    let e: Record<&str, Silent> = Record::Parameter("k", Silent);
    let t = Record::Parameter("k", Val::Text(if let Call::Raw(_, v) | Call::Encoded(_, v) = &a { v.clone() } else { String::new() }, h1));
    let te = matches!(&t, Record::Parameter(_, v) if v.text().is_empty());
    ensure!((e == t) == te && (t == e) == te, "a value which writes nothing: equality should be {te}");
    // numbers against their text
    let n = r.u64() >> r.below(64);
    ensure!(Record::Parameter("k", n) == Record::Parameter("k".to_owned(), n.to_string()), "{n} differs from its text");
    ensure!(Record::Parameter("k", n) != Record::Parameter("k".to_owned(), format!("0{n}")), "{n} equals 0{n}");
    ensure!(Record::Parameter("k", n) != Record::ParameterEncoded("k", n), "kinds are confused");
    m.count("record comparisons", eqs.len() as u64 + 7);
    m.count(if want { "equal pairs" } else { "unequal pairs" }, 1);
    m.seen(format!("{a:?} {b:?}").as_bytes());
    Ok(())
}

/// Requests recorded by the recorder and by an independent serializer.
fn c23_requests(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut ps = gen::params(r, true);
    ps.sort_by_cached_key(Param::order);
    let (req, _) = AnyReq::random(r, &ps);
    let h = req.serialize(Recorder::new());
    let mut calls = req.serialize(RecSer::new(0)).calls;
    calls.pop();
    same(&h, &calls)?;
    ensure!(h == calls.iter().map(|c| rec_of(c, str::to_owned, str::to_owned)).collect::<Vec<_>>(), "history differs from the expected records");
    let o = <Record>::OAUTH_PARAMETERS;
    ensure!(().serialize(Recorder::new()) == o && Option::<()>::None.serialize(Recorder::new()) == o, "OAUTH_PARAMETERS differ from a parameterless request");
    ensure!(oauth::ParameterList::<String, String>::default().serialize(Recorder::new()) == o, "OAUTH_PARAMETERS differ from an empty list");
    ensure!(<Record<&str, u8>>::OAUTH_PARAMETERS.iter().zip(&o).all(|(a, b)| a == b && b == a), "OAUTH_PARAMETERS depend on the type");
    same(&o, &(0..8).map(Call::Proto).collect::<Vec<_>>())?;
    m.count("requests recorded", 1);
    m.seen(format!("{calls:?}").as_bytes());
    Ok(())
}

static PROPS: &[Prop] = &[
    Prop {
        id: "C06",
        rule: "messages signed in a random builder history and compared with the model state at that moment",
        families: &[fam("builders", 3000, 60000, c06_builders), fam("options", 3000, 60000, c06_options)],
    },
    Prop {
        id: "C07",
        rule: "requests whose complete sequence of signer calls was checked; distinct base strings fed",
        families: &[fam("protocol", 6000, 150000, c07_protocol), fam("entries", 2000, 50000, c07_entries)],
    },
    Prop {
        id: "C08",
        rule: "distinct call sequences of requests serialized into a recording serializer",
        families: &[fam("requests", 6000, 150000, c08_requests), fam("assert-sorted", 3000, 60000, c08_assert_sorted), fam("boundaries", 200, 200, c08_boundaries)],
    },
    Prop {
        id: "C21",
        rule: "distinct uses, valid or misuse at a known call, run under catch_unwind",
        families: &[
            fam("uri", 6000, 150000, c21_uri),
            fam("order", 6000, 150000, c21_order),
            fam("pairs", 6000, 100000, c21_pairs),
            fam("valid", 4000, 150000, c21_valid),
        ],
    },
    Prop {
        id: "C23",
        rule: "distinct histories and record pairs compared with the model",
        families: &[fam("history", 4000, 100000, c23_history), fam("equality", 10000, 200000, c23_equality), fam("requests", 3000, 60000, c23_requests)],
    },
];

fn main() {
    drive::main(PROPS);
}
