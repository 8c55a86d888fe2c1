//! C26: the example server, observed over HTTP. The server listens where it always does
//! (127.0.0.1:8080); `WEB_KNOWN` names the findings which are not reported again.

use std::io::{Read, Write as _};
use std::net::{SocketAddr, TcpStream};
use std::num::NonZeroU64;
use std::time::{Duration, Instant};

use drive::codec::{dec, enc};
use drive::gen;
use drive::mon::{fam, serial, Prop};
use drive::requests::*;
use drive::rfc::{self, Check, Pairs};
use drive::spec::{now, Transport, TRANSPORTS};
use drive::{clip, ensure, ensure_eq, Mon, Res, Rng};
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, HMAC_SHA1, PLAINTEXT};

const BASE: &str = "http://127.0.0.1:8080";
const FORM: &str = "application/x-www-form-urlencoded";

fn known(key: &str) -> bool {
    std::env::var("WEB_KNOWN").unwrap_or_default().split(',').any(|k| k == key)
}

#[derive(Clone)]
struct Http {
    method: String,
    target: String,
    auth: Vec<Vec<u8>>,
    form: Option<Vec<u8>>,
}

impl std::fmt::Debug for Http {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} {}", self.method, self.target)?;
        for a in &self.auth {
            write!(f, " Authorization: {:?}", String::from_utf8_lossy(a))?;
        }
        if let Some(b) = &self.form {
            write!(f, " form: {:?}", String::from_utf8_lossy(b))?;
        }
        Ok(())
    }
}

#[derive(Debug)]
struct Reply {
    status: u16,
    body: String,
}

/// Sends a request on a connection of its own. `None`: the connection was closed without a reply.
fn http(h: &Http) -> Result<Option<Reply>, String> {
    let addr: SocketAddr = "127.0.0.1:8080".parse().unwrap();
    let t0 = Instant::now();
    let mut c = loop {
        match TcpStream::connect_timeout(&addr, Duration::from_secs(20)) {
            Ok(c) => break c,
            Err(e) if t0.elapsed() < Duration::from_secs(3) => {
                let _ = e;
                std::thread::sleep(Duration::from_millis(50));
            }
            Err(e) => return Err(format!("the server does not accept connections any more: {e}")),
        }
    };
    c.set_read_timeout(Some(Duration::from_secs(30))).unwrap();
    let mut m = format!("{} {} HTTP/1.1\r\nHost: 127.0.0.1:8080\r\nConnection: close\r\n", h.method, h.target).into_bytes();
    for a in &h.auth {
        m.extend_from_slice(b"Authorization: ");
        m.extend_from_slice(a);
        m.extend_from_slice(b"\r\n");
    }
    if let Some(f) = &h.form {
        m.extend_from_slice(format!("Content-Type: {FORM}\r\nContent-Length: {}\r\n", f.len()).as_bytes());
    }
    m.extend_from_slice(b"\r\n");
    m.extend_from_slice(h.form.as_deref().unwrap_or(b""));
    let sent = c.write_all(&m);
    let mut out = Vec::new();
    let got = c.read_to_end(&mut out);
    if out.is_empty() {
        if let Err(e) = &got {
            if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) {
                return Err("no reply within 30 seconds".into());
            }
        }
        let _ = sent;
        return Ok(None);
    }
    let text = String::from_utf8_lossy(&out).into_owned();
    let Some((head, body)) = text.split_once("\r\n\r\n") else { return Err(format!("malformed reply {:?}", clip(&text))) };
    let status = head.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| format!("malformed reply {:?}", clip(head)))?;
    Ok(Some(Reply { status, body: body.to_owned() }))
}

/// The form format as servers accept it.
fn parse(s: &str) -> Result<Pairs, String> {
    let mut out = Vec::new();
    for p in s.split('&').filter(|p| !p.is_empty()) {
        let (k, v) = p.split_once('=').unwrap_or((p, ""));
        out.push((dec(&k.replace('+', " "))?, dec(&v.replace('+', " "))?));
    }
    Ok(out)
}

/// The three operations of the server.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Temp,
    Access,
    Get,
    Post,
}

const OPS: [Op; 4] = [Op::Temp, Op::Access, Op::Get, Op::Post];

/// What a client would sign, and where it sends it.
#[derive(Clone, Debug)]
struct Call {
    method: String,
    path: String,
    sign_method: String,
    sign_uri: String,
    client: (String, String),
    token: Option<(String, String)>,
    callback: Option<String>,
    verifier: Option<String>,
    nonce: Option<String>,
    timestamp: Option<u64>,
    version: bool,
    hmac: bool,
    transport: Transport,
    /// Whether what accompanies a header goes into a form or into the query.
    in_form: bool,
    params: Vec<gen::Param>,
}

impl Call {
    fn genuine(r: &mut Rng, op: Op) -> Call {
        let s = |a: &str, b: &str| (a.to_owned(), b.to_owned());
        let (method, path) = match op {
            Op::Temp => ("POST", "/request_temp_credentials"),
            Op::Access => ("POST", "/request_token"),
            Op::Get => ("GET", "/echo"),
            Op::Post => ("POST", "/echo"),
        };
        let mut params = Vec::new();
        for p in gen::params(r, true) {
            // The server does not claim to sort values of the same key, nor to take long targets.
            if p.plain.len() < 1000 && params.iter().all(|q: &gen::Param| q.key != p.key) && params.len() < 20 {
                params.push(p);
            }
        }
        params.sort_by_cached_key(gen::Param::order);
        Call {
            method: method.into(),
            path: path.into(),
            sign_method: method.into(),
            sign_uri: format!("{BASE}{path}"),
            client: s("client", "client_secret"),
            token: match op {
                Op::Temp => None,
                Op::Access => Some(s("request", "request_secret")),
                _ => Some(s("token", "token_secret")),
            },
            callback: if op == Op::Temp { Some("oob".into()) } else if r.chance(1, 5) { Some(text(r)) } else { None },
            verifier: if op == Op::Access { Some("verifier".into()) } else { None },
            nonce: if r.chance(1, 2) { Some(text(r)) } else { None },
            timestamp: match r.below(4) {
                0 => Some(now() - r.below(15) as u64),
                1 => Some(now() + r.below(15) as u64),
                _ => None,
            },
            version: r.chance(1, 3),
            hmac: r.chance(3, 4),
            transport: *r.pick(&TRANSPORTS),
            in_form: op != Op::Get && r.chance(1, 2),
            params,
        }
    }

    fn sign<SM: SignatureMethod + Clone>(&self, r: &mut Rng, sm: SM) -> (Http, Pairs) {
        let (req, _) = AnyReq::random(r, &self.params);
        let mut b = Builder::new(Credentials::new(&*self.client.0, &*self.client.1), sm);
        b.token(self.token.as_ref().map(|t| Credentials::new(&*t.0, &*t.1)))
            .callback(self.callback.as_deref())
            .verifier(self.verifier.as_deref())
            .nonce(self.nonce.as_deref())
            .timestamp(self.timestamp.and_then(NonZeroU64::new))
            .version(self.version);
        let mut h = Http { method: self.method.clone(), target: self.path.clone(), auth: Vec::new(), form: None };
        let mut all = Vec::new();
        let target = |q: String| format!("{}{}", self.path, q.strip_prefix(&*self.sign_uri).unwrap());
        match self.transport {
            Transport::Header => {
                let v = b.authorize(&self.sign_method, &self.sign_uri, &req);
                all.extend(rfc::parse_header(&v).unwrap_or_default());
                h.auth.push(v.into_bytes());
                let form = oauth::to_form(&req);
                all.extend(rfc::parse_form(&form).unwrap_or_default());
                if self.in_form {
                    h.form = Some(form.into_bytes());
                } else {
                    h.target = target(oauth::to_query(self.sign_uri.clone(), &req));
                }
            }
            Transport::Form => {
                let v = b.to_form(&self.sign_method, &self.sign_uri, &req);
                all.extend(rfc::parse_form(&v).unwrap_or_default());
                h.form = Some(v.into_bytes());
            }
            Transport::Query => {
                let v = b.to_query(&self.sign_method, self.sign_uri.clone(), &req);
                all.extend(rfc::parse_query(&v, &self.sign_uri).unwrap_or_default());
                h.target = target(v);
            }
        }
        (h, all)
    }

    fn http(&self, r: &mut Rng) -> (Http, Pairs) {
        if self.hmac {
            self.sign(r, HMAC_SHA1)
        } else {
            self.sign(r, PLAINTEXT)
        }
    }

    fn describe(&self) -> String {
        clip(&format!("{self:?}"))
    }
}

fn text(r: &mut Rng) -> String {
    // The server takes no empty value in a header.
    let t = gen::text(r);
    if t.is_empty() || t.len() > 2000 { "x".into() } else { t }
}

/// What a successful reply must be.
fn check_reply(op: Op, reply: &Reply, all: &Pairs) -> Res {
    ensure_eq!(reply.status, 200, "a genuine request was refused; reply {:?}", clip(&reply.body));
    let mut got = parse(&reply.body)?;
    let pair = |a: &str, b: &str| (a.to_owned(), b.to_owned());
    let mut want = match op {
        Op::Temp => vec![pair("oauth_token", "request"), pair("oauth_token_secret", "request_secret"), pair("oauth_callback_confirmed", "true")],
        Op::Access => vec![pair("oauth_token", "token"), pair("oauth_token_secret", "token_secret")],
        _ => all.clone(),
    };
    got.sort();
    want.sort();
    ensure_eq!(got, want, "reply of {op:?}");
    Ok(())
}

fn genuine(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let op = OPS[i as usize % 4];
    let mut c = Call::genuine(r, op);
    c.transport = TRANSPORTS[i as usize / 4 % 3];
    m.note(|| c.describe());
    let t0 = Instant::now();
    let (h, all) = c.http(r);
    m.note(|| clip(&format!("{h:?}")));
    let reply = http(&h)?;
    if t0.elapsed() > Duration::from_secs(8) {
        m.count("too slow to judge", 1);
        return Ok(());
    }
    let reply = reply.ok_or("a genuine request got no reply")?;
    check_reply(op, &reply, &all)?;
    m.count(&format!("accepted {op:?} {:?} {}", c.transport, if c.hmac { "HMAC-SHA1" } else { "PLAINTEXT" }), 1);
    m.seen(format!("{h:?}").as_bytes());
    m.sample(|| format!("{h:?} => {reply:?}"));
    Ok(())
}

/// Replaces a parameter of the message, wherever it is.
fn replace(h: &mut Http, key: &str, f: impl Fn(&str) -> String) -> bool {
    let mut hit = false;
    let part = |s: &str, hit: &mut bool| {
        s.split('&')
            .map(|p| match p.split_once('=') {
                Some((k, v)) if k == key => {
                    *hit = true;
                    format!("{k}={}", enc(&f(&dec(v).unwrap())))
                }
                _ => p.to_owned(),
            })
            .collect::<Vec<_>>()
            .join("&")
    };
    if let Some((p, q)) = h.target.clone().split_once('?') {
        h.target = format!("{p}?{}", part(q, &mut hit));
    }
    if let Some(b) = &h.form {
        h.form = Some(part(std::str::from_utf8(b).unwrap(), &mut hit).into_bytes());
    }
    for a in &mut h.auth {
        let s = String::from_utf8(a.clone()).unwrap();
        let out: Vec<String> = s["OAuth ".len()..]
            .split(',')
            .map(|p| match p.split_once('=') {
                Some((k, v)) if k == key => {
                    hit = true;
                    format!("{k}=\"{}\"", enc(&f(&dec(v.trim_matches('"')).unwrap())))
                }
                _ => p.to_owned(),
            })
            .collect();
        *a = format!("OAuth {}", out.join(",")).into_bytes();
    }
    hit
}

/// Adds a parameter outside of the header.
fn add(h: &mut Http, p: &str) {
    match &mut h.form {
        Some(b) => {
            if !b.is_empty() {
                b.push(b'&');
            }
            b.extend_from_slice(p.as_bytes());
        }
        None => {
            h.target.push(if h.target.contains('?') { '&' } else { '?' });
            h.target.push_str(p);
        }
    }
}

fn remove_any(h: &mut Http, r: &mut Rng, keys: &[String]) -> Option<String> {
    let key = r.pick(keys).clone();
    let mut hit = false;
    let mut strip = |s: &str| {
        s.split('&')
            .filter(|p| {
                let here = p.split_once('=').map_or(false, |(k, _)| k == key);
                hit |= here;
                !here
            })
            .collect::<Vec<_>>()
            .join("&")
    };
    if let Some((p, q)) = h.target.clone().split_once('?') {
        let q = strip(q);
        h.target = if q.is_empty() { p.to_owned() } else { format!("{p}?{q}") };
    }
    if let Some(b) = &h.form {
        h.form = Some(strip(std::str::from_utf8(b).unwrap()).into_bytes());
    }
    hit.then_some(key)
}

/// A text which is not `s`.
fn other(r: &mut Rng, s: &str) -> String {
    loop {
        let t = match r.below(6) {
            0 => format!("{s}x"),
            1 => s.chars().skip(1).collect(),
            2 => s.to_uppercase(),
            3 => format!(" {s}"),
            4 => s.chars().rev().collect(),
            _ => gen::text(r),
        };
        if t != s && t.len() < 2000 {
            return t;
        }
    }
}

const FORGERIES: &[&str] = &[
    "method signed", "method sent", "path sent", "uri signed", "client identifier", "client secret", "token identifier", "token secret", "verifier", "signature bits", "signature text", "age",
    "value changed", "parameter added", "parameter removed", "key renamed", "protocol value changed", "no token", "extra token", "extra verifier", "no verifier", "method name", "signature of another",
    "wrong callback",
];

/// A single alteration of a genuine request must be refused.
fn forged(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let kind = FORGERIES[i as usize % FORGERIES.len()];
    let op = match kind {
        "path sent" | "uri signed" | "client identifier" => *r.pick(&OPS),
        "method signed" | "method sent" => *r.pick(&[Op::Get, Op::Post]),
        "verifier" | "no verifier" => Op::Access,
        "extra token" | "wrong callback" => Op::Temp,
        "extra verifier" => *r.pick(&[Op::Temp, Op::Get, Op::Post]),
        "no token" | "token identifier" | "token secret" => *r.pick(&[Op::Access, Op::Get, Op::Post]),
        _ => *r.pick(&OPS),
    };
    let mut c = Call::genuine(r, op);
    // A PLAINTEXT signature covers nothing but the secrets.
    let covered = !matches!(kind, "client identifier" | "client secret" | "token identifier" | "token secret" | "verifier" | "signature text" | "age" | "no token" | "extra token" | "extra verifier" | "no verifier" | "wrong callback");
    c.hmac |= covered;
    if matches!(kind, "value changed" | "parameter removed" | "key renamed") && c.params.is_empty() {
        c.params.push(text_param("k", "v"));
    }
    let swap = |s: &str| if s == "GET" { "POST".to_owned() } else { "GET".to_owned() };
    match kind {
        "method signed" => c.sign_method = if r.chance(1, 2) { swap(&c.method) } else { (*r.pick(&["PUT", "DELETE", "HEAD", ""])).to_owned() },
        "method sent" => {
            c.method = swap(&c.method);
            // The form of a GET request is read as well.
        }
        "path sent" => {
            let cred: &[&str] = match op {
                Op::Temp => &["/request_token", "/echo"],
                Op::Access => &["/request_temp_credentials", "/echo"],
                _ => &["/request_token", "/request_temp_credentials", "/echo/", "//echo", "/ech%6F", "/ECHO"],
            };
            c.path = (*r.pick(cred)).to_owned();
        }
        "uri signed" => {
            c.sign_uri = match r.below(9) {
                0 => format!("https://127.0.0.1:8080{}", c.path),
                1 => format!("http://127.0.0.1{}", c.path),
                2 => format!("http://127.0.0.1:80{}", c.path),
                3 => format!("http://localhost:8080{}", c.path),
                4 => format!("{}/", c.sign_uri),
                5 => c.sign_uri.replace("8080/", "8080//"),
                6 => c.sign_uri.to_uppercase(),
                7 => c.path.clone(),
                _ => other(r, &c.sign_uri).replace('?', ""),
            }
        }
        "client identifier" => c.client.0 = other(r, &c.client.0),
        "client secret" => c.client.1 = other(r, &c.client.1),
        "token identifier" => {
            let t = c.token.as_mut().unwrap();
            t.0 = other(r, &t.0);
        }
        "token secret" => {
            let t = c.token.as_mut().unwrap();
            t.1 = other(r, &t.1);
        }
        "verifier" => c.verifier = Some(other(r, "verifier")),
        "age" => {
            c.timestamp = Some(match r.below(4) {
                0 => 1,
                1 => now() - 31,
                _ => (now() - 31 - (r.u64() >> (40 + r.below(20)))).max(1),
            })
        }
        "no token" => c.token = None,
        "extra token" => c.token = Some((text(r), String::new())),
        "extra verifier" => c.verifier = Some(if r.chance(1, 2) { "verifier".into() } else { text(r) }),
        "no verifier" => c.verifier = None,
        "wrong callback" => c.callback = if r.chance(1, 4) { None } else { Some(other(r, "oob")) },
        _ => {}
    }
    if c.hmac && c.sign_method == c.method && c.sign_uri == format!("{BASE}{}", c.path) && matches!(kind, "method signed" | "method sent" | "path sent" | "uri signed") {
        m.count("alteration without effect", 1);
        return Ok(());
    }
    m.note(|| format!("{kind}: {}", c.describe()));
    let t0 = Instant::now();
    let (mut h, all) = c.http(r);
    let keys: Vec<String> = c.params.iter().map(|p| p.key.clone()).collect();
    let ok = match kind {
        "signature bits" => {
            let (bit, byte) = (r.below(8), r.below(20));
            replace(&mut h, "oauth_signature", |s| {
                let mut b = drive::codec::unb64(s).unwrap();
                b[byte] ^= 1 << bit;
                drive::codec::b64(&b)
            })
        }
        "signature text" => {
            let hmac = c.hmac;
            let seed = r.u64();
            replace(&mut h, "oauth_signature", |s| loop {
                let mut r = Rng::new(seed);
                let t = match r.below(8) {
                    0 => s[..s.len() - 1].to_owned(),
                    1 => String::new(),
                    2 => "A".repeat(28),
                    3 => drive::codec::b64(&[0; 20]),
                    4 => drive::codec::b64(&vec![7; r.below(60)]),
                    5 => format!("{s}{s}"),
                    6 => s.replace('&', ""),
                    _ => other(&mut r, s),
                };
                // Another text of the same bytes is no forgery.
                let same = hmac && t.trim_end_matches('=') == s.trim_end_matches('=');
                break if t == s || same { "x".into() } else { t };
            })
        }
        "value changed" => {
            let k = r.pick(&keys).clone();
            let seed = r.u64();
            replace(&mut h, &k, |s| other(&mut Rng::new(seed), s))
        }
        "parameter added" => {
            let k = gen::key(r);
            let v = gen::text(r);
            if v.len() > 2000 || k.len() > 2000 {
                return Ok(());
            }
            add(&mut h, &format!("{}={}", enc(&k), enc(&v)));
            true
        }
        "parameter removed" => remove_any(&mut h, r, &keys).is_some(),
        "key renamed" => {
            let k = r.pick(&keys).clone();
            let v = all.iter().find(|p| p.0 == k).unwrap().1.clone();
            let nk = loop {
                let n = gen::key(r);
                if n != k && n.len() < 2000 {
                    break n;
                }
            };
            if remove_any(&mut h, r, &[k]).is_none() {
                return Err("harness: nothing removed".into());
            }
            add(&mut h, &format!("{}={}", enc(&nk), enc(&v)));
            true
        }
        "protocol value changed" => {
            let k = *r.pick(&["oauth_consumer_key", "oauth_nonce", "oauth_timestamp", "oauth_token", "oauth_version", "oauth_callback", "oauth_verifier"]);
            let seed = r.u64();
            if !replace(&mut h, k, |s| {
                if k == "oauth_timestamp" { (s.parse::<u64>().unwrap() + 1).to_string() } else { other(&mut Rng::new(seed), s) }
            }) {
                return Ok(());
            }
            true
        }
        "method name" => replace(&mut h, "oauth_signature_method", |_| (*r_pick(i, &["HMAC-SHA256", "RSA-SHA1", "hmac-sha1", "", "PLAINTEXT "])).to_owned()),
        "signature of another" => {
            let mut d = Call::genuine(r, op);
            d.hmac = true;
            d.params = c.params.clone();
            d.params.push(text_param("zzzz_other", "1"));
            d.params.sort_by_cached_key(gen::Param::order);
            let (_, others) = d.http(r);
            let sig = others.iter().find(|p| p.0 == "oauth_signature").unwrap().1.clone();
            replace(&mut h, "oauth_signature", |_| sig.clone())
        }
        _ => true,
    };
    ensure!(ok, "harness: {kind} did not alter anything: {h:?}");
    m.note(|| clip(&format!("{h:?}")));
    let reply = http(&h)?;
    if t0.elapsed() > Duration::from_secs(8) && kind != "age" {
        m.count("too slow to judge", 1);
        return Ok(());
    }
    let reply = reply.ok_or_else(|| format!("a request with an altered {kind} got no reply"))?;
    if reply.status == 200 {
        let plain = !c.hmac && matches!(kind, "client secret" | "token secret" | "signature text");
        if plain && known("plaintext-signature-not-verified") {
            m.count("known: PLAINTEXT signature not verified", 1);
            return Ok(());
        }
        if kind == "extra token" || kind == "no token" {
            return Err(format!("a request with {kind} was accepted"));
        }
        return Err(format!("a forged request was accepted: {kind}"));
    }
    ensure!((400..500).contains(&reply.status), "status {} for a forged request ({kind})", reply.status);
    m.count(&format!("refused: {kind}"), 1);
    m.seen(format!("{h:?}").as_bytes());
    m.sample(|| format!("{kind}: {h:?} => {}", reply.status));
    Ok(())
}

fn r_pick<'a>(i: u64, xs: &'a [&'a str]) -> &'a &'a str {
    &xs[(i / FORGERIES.len() as u64) as usize % xs.len()]
}

/// Malformed input of any kind gets a reply, and is accepted only if it is genuine after all.
fn malformed(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let op = *r.pick(&OPS);
    let mut c = Call::genuine(r, op);
    c.hmac = true;
    c.timestamp = None;
    if i % 3 != 0 {
        c.transport = Transport::Header;
    }
    let (mut h, _) = c.http(r);
    let mut huge = false;
    match r.below(10) {
        0..=4 if !h.auth.is_empty() => {
            // bytes of the header
            let a = &mut h.auth[0];
            for _ in 0..r.range(1, 3) {
                if a.is_empty() {
                    break;
                }
                let at = r.below(a.len());
                const ODD: &[u8] = b"\"\\%,= \t&;OAauth0\x80\xff\xe3\xc0~!{}()<>@:/?'";
                let b = ODD[r.below(ODD.len())];
                match r.below(6) {
                    0 => a[at] = b,
                    1 => a.insert(at, b),
                    2 => {
                        a.remove(at);
                    }
                    3 => a.truncate(at),
                    4 => {
                        let to = r.range(at, (at + 8).min(a.len()));
                        let piece = a[at..to].to_vec();
                        a.splice(at..at, piece);
                    }
                    _ => {
                        a[at] = 0x21 + r.below(0x5e) as u8;
                    }
                }
            }
        }
        5 => {
            const HEADERS: &[&str] = &[
                "", "OAuth", "OAuth ", "OAuth  ", "OAuth ,", "OAuth a", "OAuth a=", "OAuth =b", "OAuth a=\"", "OAuth a=\"\\", "OAuth a=\"\\\"", "OAuth a=b,", "OAuth a=b,,c=d", "OAuth a=b c=d",
                "OAuthx a=b", "OAuth\ta=b", "Basic YTpi", "oauth a=b", "OAuth a=%", "OAuth a=%zz", "OAuth a=%ff", "OAuth a=\"%ff\"", "OAuth a=\"\u{80}\"", "OAuth %ff=b", "OAuth oauth_signature=\"a\"",
                "OAuth a = b", "OAuth a=\"b\"c", "OAuth realm=\"\"", "=", "\"", "\\", "OAuth oauth_timestamp=\"-1\"",
            ];
            h.auth = vec![r.pick(HEADERS).as_bytes().to_vec()];
            if r.chance(1, 4) {
                h.auth.push(r.pick(HEADERS).as_bytes().to_vec());
            }
        }
        6 => {
            const TS: &[&str] = &["0", "-1", "+5", "99999999999999999999", "18446744073709551615", "18446744073709551586", "18446744073709551585", "9223372036854775807", "1e9", "", " 1", "0x10", "１", "00001"];
            let t = *r.pick(TS);
            huge = matches!(t, "18446744073709551615" | "18446744073709551586");
            replace(&mut h, "oauth_timestamp", |_| t.to_owned());
        }
        7 => {
            const FORMS: &[&str] = &["&", "=", "&&&", "a", "%", "a=%ff", "oauth_signature", "oauth_token=&oauth_token=", "+=+", "=&=", "\0", "oauth_consumer_key=client&oauth_consumer_key=client"];
            h.form = Some(r.pick(FORMS).as_bytes().to_vec());
        }
        8 => {
            let n = r.below(300);
            h.form = Some((0..n).map(|_| r.u64() as u8).collect());
        }
        _ => {
            // more of the same
            let more = *r.pick(&["oauth_signature=x", "oauth_token=token", "oauth_nonce=", "oauth_timestamp=1", "oauth_signature_method=PLAINTEXT", "oauth_consumer_key=", "oauth_verifier=verifier"]);
            add(&mut h, more);
        }
    }
    if h.auth.iter().any(|a| a.iter().any(|b| matches!(b, b'\r' | b'\n' | 0))) {
        return Ok(());
    }
    m.note(|| clip(&format!("{h:?}")));
    let Some(reply) = http(&h)? else {
        if huge && known("huge-timestamp-panic") {
            m.count("known: panics on a huge timestamp", 1);
            return Ok(());
        }
        return Err("no reply to a malformed request".into());
    };
    m.count(&format!("malformed: status {}", reply.status), 1);
    if reply.status == 200 && matches!(op, Op::Get | Op::Post) {
        // The reply tells what the server understood.
        let all = parse(&reply.body)?;
        let one = |k: &str| all.iter().find(|p| p.0 == k).map(|p| &*p.1).unwrap_or("");
        if one("oauth_signature_method") == "HMAC-SHA1" {
            let uri = format!("{BASE}{}", h.target.split('?').next().unwrap());
            // The signature is not signed, so that a second one is no forgery.
            let sigs: Vec<&String> = all.iter().filter(|p| p.0 == "oauth_signature").map(|p| &p.1).collect();
            // Values of the same key are sorted before encoding by this server.
            let mut keys: Vec<&String> = all.iter().map(|p| &p.0).filter(|k| *k != "oauth_signature").collect();
            let n = keys.len();
            keys.sort();
            keys.dedup();
            if keys.len() == n {
                let mut verdicts = sigs.iter().map(|s| {
                    let s = if s.len() == 27 { format!("{s}=") } else { s.to_string() };
                    rfc::verify(&Check::Hmac, &h.method, &uri, &all, &s, "client_secret", Some("token_secret"))
                });
                ensure!(verdicts.any(|v| v.is_ok()), "accepted, but no signature verifies: {:?}", clip(&reply.body));
                m.count("malformed, but genuine after all", 1);
            }
            ensure_eq!((one("oauth_consumer_key"), one("oauth_token")), ("client", "token"), "accepted credentials");
        } else if one("oauth_signature_method") != "PLAINTEXT" {
            return Err(format!("accepted with method {:?}", one("oauth_signature_method")));
        }
    }
    ensure!(reply.status < 500, "status {}", reply.status);
    m.seen(format!("{h:?}").as_bytes());
    m.sample(|| format!("{h:?} => {}", reply.status));
    Ok(())
}

/// Each extreme number, on its own.
fn numbers(_: &mut Rng, m: &mut Mon, i: u64) -> Res {
    const T: &[&str] = &["18446744073709551585", "18446744073709551586", "18446744073709551615", "18446744073709551616", "9223372036854775808", "4294967296", "0", "1"];
    let t = T[i as usize % T.len()];
    let mut r = Rng::new(i);
    let mut c = Call::genuine(&mut r, Op::Get);
    c.hmac = true;
    c.timestamp = t.parse().ok().filter(|&t| t > 0);
    c.params.clear();
    let (mut h, _) = c.http(&mut r);
    if c.timestamp.is_none() {
        replace(&mut h, "oauth_timestamp", |_| t.to_owned());
    }
    m.note(|| format!("timestamp {t}"));
    match http(&h)? {
        None => {
            let big = t.parse::<u64>().map_or(false, |t| t > u64::MAX - 30);
            if big && known("huge-timestamp-panic") {
                m.count("known: panics on a huge timestamp", 1);
            } else {
                return Err(format!("no reply to timestamp {t}"));
            }
        }
        Some(p) => {
            // Whether the far future is in time is up to the server; the past is not.
            ensure!(p.status == 200 && c.timestamp.map_or(false, |t| t > now()) || (400..500).contains(&p.status), "timestamp {t}: status {}", p.status);
            m.count("extreme timestamps answered", 1);
        }
    }
    // The server goes on.
    genuine(&mut r, m, i)
}

static PROPS: &[Prop] = &[Prop {
    id: "C26",
    rule: "distinct HTTP requests answered by the running example server",
    families: &[fam("genuine", 1500, 40_000, genuine), fam("forged", 2400, 60_000, forged), fam("malformed", 2000, 60_000, malformed), serial("numbers", 8, 24, numbers)],
}];

fn main() {
    drive::main(PROPS);
}
