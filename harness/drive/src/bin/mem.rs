//! C19: no undefined behaviour, and only valid UTF-8 is written. To be run under Miri and
//! AddressSanitizer; the UTF-8 monitors work in any build.

use std::cell::{Cell, RefCell};
use std::fmt::{self, Display, Formatter, Write};

use drive::entries;
use drive::gen::{self, How, Param, Val};
use drive::mon::{catch, fam, Prop};
use drive::requests::{AnyReq, Manual};
use drive::spec::*;
use drive::{clip, ensure, ensure_eq, Mon, Res, Rng};
use either::Either;
use oauth::serializer::auth::Authorizer;
use oauth::serializer::recorder::{Record, Recorder};
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::{HmacSha1, Plaintext, Sign, SignatureMethod};
use oauth::{Credentials, ParameterList, Request, Token, HMAC_SHA1, PLAINTEXT};

// ---- the monitors: every text from the library is looked at byte by byte.

thread_local! {
    static SEEN: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// `std::str::from_utf8` is not used, lest the optimizer believes that a `str` is valid anyway.
#[inline(never)]
fn valid(b: &[u8]) -> bool {
    let b = std::hint::black_box(b);
    if cfg!(miri) {
        // Miri does not optimize.
        return std::str::from_utf8(b).is_ok();
    }
    let mut i = 0;
    let cont = |i: usize| b.get(i).map_or(false, |x| (0x80..0xc0).contains(x));
    while i < b.len() {
        let x = b[i];
        let n = match x {
            0..=0x7f => 1,
            0xc2..=0xdf => 2,
            0xe0..=0xef => 3,
            0xf0..=0xf4 => 4,
            _ => return false,
        };
        for k in 1..n {
            if !cont(i + k) {
                return false;
            }
        }
        let second = b.get(i + 1).copied().unwrap_or(0);
        match x {
            0xe0 if second < 0xa0 => return false,
            0xed if second >= 0xa0 => return false,
            0xf0 if second < 0x90 => return false,
            0xf4 if second >= 0x90 => return false,
            _ => {}
        }
        i += n;
    }
    true
}

fn look(what: &str, s: &str) {
    let b = s.as_bytes();
    SEEN.with(|c| c.set((c.get().0 + 1, c.get().1 + b.len() as u64)));
    if !valid(b) {
        BAD.with(|x| {
            x.borrow_mut().get_or_insert_with(|| format!("{what} was given bytes which are not UTF-8: {b:02x?}"));
        });
    }
}

fn verdict(m: &mut Mon) -> Res {
    let (n, k) = SEEN.with(|c| c.replace((0, 0)));
    m.count("texts looked at", n);
    m.count("bytes looked at", k);
    match BAD.with(|b| b.borrow_mut().take()) {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// A caller's writer.
#[derive(Clone, Debug, Default)]
struct Eye(Vec<u8>);

impl Write for Eye {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        look("a writer", s);
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        self.write_str(c.encode_utf8(&mut [0; 4]))
    }
}

impl Display for Eye {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(&String::from_utf8_lossy(&self.0))
    }
}

/// A writer which only has so much room, inline.
#[derive(Clone, Debug)]
struct Small<const N: usize> {
    buf: [u8; N],
    len: usize,
}

impl<const N: usize> Default for Small<N> {
    fn default() -> Self {
        Small { buf: [0; N], len: 0 }
    }
}

impl<const N: usize> Write for Small<N> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        look("a small writer", s);
        let b = s.as_bytes();
        self.buf.get_mut(self.len..self.len + b.len()).ok_or(fmt::Error)?.copy_from_slice(b);
        self.len += b.len();
        Ok(())
    }
}

impl<const N: usize> Display for Small<N> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(&String::from_utf8_lossy(&self.buf[..self.len]))
    }
}

/// Looks at a displayed value in several ways of formatting it.
fn display<T: Display>(what: &str, x: &T) {
    struct W<'a>(&'a str);
    impl Write for W<'_> {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            look(self.0, s);
            Ok(())
        }
    }
    let w = &mut W(what);
    let _ = write!(w, "{x}");
    if cfg!(miri) {
        return;
    }
    let _ = write!(w, "{x:.2}");
    let _ = write!(w, "{x:>7}");
    let _ = write!(w, "{x:^#09.3}");
    look(what, &x.to_string());
}

/// A caller's signature method.
#[derive(Clone, Debug)]
struct EyeMethod;

#[derive(Clone, Debug)]
struct EyeSign;

impl SignatureMethod for EyeMethod {
    type Sign = EyeSign;
    fn sign_with(self, a: &str, b: Option<&str>) -> EyeSign {
        look("sign_with", a);
        b.map(|b| look("sign_with", b));
        EyeSign
    }
}

impl Sign for EyeSign {
    type Signature = &'static str;
    fn get_signature_method_name(&self) -> &'static str {
        "Ü"
    }
    fn request_method(&mut self, s: &str) {
        look("Sign::request_method", s);
    }
    fn uri<T: Display>(&mut self, t: T) {
        display("Sign::uri", &t);
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        look("Sign::parameter", k);
        display("Sign::parameter", &v);
    }
    fn delimiter(&mut self) {}
    fn end(self) -> &'static str {
        "sig"
    }
}

struct EyeSer;

impl Serializer for EyeSer {
    type Output = ();
    fn serialize_parameter<V: Display>(&mut self, k: &str, v: V) {
        look("Serializer", k);
        display("Serializer", &v);
    }
    fn serialize_parameter_encoded<V: Display>(&mut self, k: &str, v: V) {
        look("Serializer", k);
        display("Serializer", &v);
    }
    oauth::serializer::skip_serialize_oauth_parameters!();
    fn end(self) {}
}

// ---- values

/// Writes its pieces one by one; fails after the last if told to.
struct Pieces<'a>(Vec<&'a str>, bool);

impl Display for Pieces<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.0.iter().try_for_each(|p| f.write_str(p))?;
        if self.1 {
            return Err(fmt::Error);
        }
        Ok(())
    }
}

/// All the ways in which a value reaches the encoders.
fn everywhere<V: Display + ?Sized>(v: &V) -> Res {
    let c = Credentials::new("c", "s");
    let mut o = oauth::serializer::auth::Options::new();
    o.nonce("n").timestamp(std::num::NonZeroU64::new(1));
    // The value of a parameter: encoded for the message, doubly encoded for the signature.
    let mut a = Authorizer::form_with_buf(Eye::default(), "GET", "http://a/", c, None, &o, EyeMethod);
    a.serialize_parameter("k", v);
    a.serialize_parameter_encoded("l", "%41");
    a.serialize_oauth_parameters();
    let out = a.end();
    ensure!(valid(&out.0), "the buffer of a form holds bytes which are not UTF-8: {:02x?}", out.0);
    let mut a = Authorizer::authorization_with_buf(Eye::default(), "GET", "http://a/", c, None, &o, EyeMethod);
    a.serialize_parameter("k", v);
    a.serialize_oauth_parameters();
    let out = a.end();
    ensure!(valid(&out.0), "the buffer of a header holds bytes which are not UTF-8: {:02x?}", out.0);
    let mut u = Urlencoder::form_with_buf(Eye::default());
    u.serialize_parameter("k", v);
    u.serialize_parameter("k2", v);
    let out = u.end();
    ensure!(valid(&out.0), "the buffer of an encoder holds bytes which are not UTF-8: {:02x?}", out.0);
    Ok(())
}

const CLASSES: [&str; 7] = ["a", "~", "%", "é", "あ", "🦀", "\0"];

/// All short texts over seven classes of characters, split at every point.
fn exhaustive(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    // i enumerates texts of up to 5 classes; there is time for a few of them only under Miri.
    let n = *r.pick(&[57, 400, 2_801]);
    let mut i = if cfg!(miri) { r.below(n) } else { i as usize };
    let mut len = 0;
    let mut n = 1;
    while i >= n {
        i -= n;
        n *= CLASSES.len();
        len += 1;
    }
    let mut text: Vec<&str> = Vec::new();
    for _ in 0..len {
        text.push(CLASSES[i % CLASSES.len()]);
        i /= CLASSES.len();
    }
    let whole = text.concat();
    m.note(|| format!("{whole:?}"));
    let offs: Vec<usize> = whole.char_indices().map(|x| x.0).chain([whole.len()]).collect();
    for (k, &at) in offs.iter().enumerate() {
        let (a, b) = whole.split_at(at);
        everywhere(&Pieces(vec![a, b], false))?;
        if k % 2 == 0 {
            everywhere(&Pieces(vec![a, "", b, a], false))?;
        }
        m.count("texts and splits", 1);
    }
    everywhere(&Pieces(text.clone(), false))?;
    m.seen(whole.as_bytes());
    m.sample(|| format!("{whole:?}, at every split"));
    verdict(m)
}

fn short_text(r: &mut Rng) -> String {
    if cfg!(miri) {
        (0..r.below(6)).map(|_| gen::any_char(r)).collect()
    } else {
        gen::text(r)
    }
}

fn random(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let t = short_text(r);
    m.note(|| format!("{t:?}"));
    everywhere(&Val::Text(t.clone(), gen::how(r)))?;
    everywhere(&gen::val(r))?;
    everywhere(&Pieces(gen::pieces(&t, r.u64()), false))?;
    // Keys, URIs, credentials and options.
    let c = Credentials::new(&*t, &*t);
    let mut o = oauth::serializer::auth::Options::new();
    o.callback(&*t).verifier(&*t).nonce(&*t).version(true);
    let a = Authorizer::authorization_with_buf(Eye::default(), &t, Pieces(gen::pieces(&t.replace('?', "!"), r.u64()), false), c, Some(c), &o, EyeMethod);
    let out = ().serialize(a);
    ensure!(valid(&out.0), "the buffer of a header holds bytes which are not UTF-8: {:02x?}", out.0);
    let mut o = oauth::serializer::auth::Options::new();
    o.version(true);
    let a = Authorizer::query("GET", Eye(b"http://a/".to_vec()), c, Some(c), &o, Plaintext::<Eye>::with_buf());
    let out = ().serialize(a);
    ensure!(valid(&out.0), "the buffer of a query holds bytes which are not UTF-8: {:02x?}", out.0);
    let s = Plaintext::<Eye>::with_buf().sign_with(&t, Some(&t)).end();
    ensure!(valid(&s.0), "a PLAINTEXT signature is not UTF-8: {:02x?}", s.0);
    m.seen(t.as_bytes());
    verdict(m)
}

/// Lengths around the sizes of internal buffers: signing keys, blocks of the hash.
fn sizes(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let a = if i < 200 { i as usize } else { r.below(300) };
    let ch = *r.pick(&["k", "é", "%", "🦀", "あ"]);
    let b = r.below(if cfg!(miri) { 80 } else { 200 });
    let (cs, ts) = (ch.repeat(a), if r.chance(3, 4) { Some("t".repeat(b)) } else { None });
    m.note(|| format!("secrets of {} and {:?} bytes", cs.len(), ts.as_ref().map(String::len)));
    let mut s = HMAC_SHA1.sign_with(&cs, ts.as_deref());
    s.request_method("GET");
    s.uri(Pieces(vec!["x"; r.below(140)], false));
    display("HMAC-SHA1 signature", &s.end());
    let s = PLAINTEXT.sign_with(&cs, ts.as_deref());
    display("PLAINTEXT signature", &s.clone().end());
    m.seen(&[a as u8, b as u8, ts.is_some() as u8, ch.len() as u8]);
    verdict(m)
}

/// Writers and values which fail or panic half-way, over and over.
fn faults(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let t = short_text(r);
    let c = Credentials::new("client", "secret");
    let o = Default::default();
    m.note(|| format!("{t:?}"));
    let a = catch(|| ().serialize(Authorizer::authorization_with_buf(Small::<60>::default(), "GET", "http://a/", c, Some(c), &o, EyeMethod)));
    m.count(if a.is_ok() { "writes which fitted" } else { "panics of a full writer" }, 1);
    let a = catch(|| {
        let mut a = Authorizer::form_with_buf(Small::<250>::default(), "GET", "http://a/", c, None, &o, HMAC_SHA1);
        a.serialize_parameter("a", Pieces(gen::pieces(&t, 1), false));
        let b = a.clone();
        a.serialize_parameter("b", Pieces(gen::pieces(&t, 1), r.chance(1, 3)));
        a.serialize_oauth_parameters();
        drop(b);
        a.end()
    });
    m.count(if a.is_ok() { "writes which fitted" } else { "panics of a full writer or failing value" }, 1);
    let mut list: ParameterList<String, Box<str>> = ParameterList::default();
    let made = catch(|| {
        let mut n = 0;
        let limit = r.below(12);
        list.extend((0..8).map(|i| {
            n += 1;
            if n == limit {
                panic!("the iterator refuses");
            }
            (format!("k{}", i * 7 % 5), t.clone().into_boxed_str())
        }));
    });
    m.count(if made.is_ok() { "lists extended" } else { "panics of an iterator" }, 1);
    let _ = catch(|| look("a form", &oauth::to_form(&list)));
    struct Bomb(Cell<u32>);
    impl Display for Bomb {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            f.write_str("é%")?;
            if self.0.get() == 0 {
                panic!("boom");
            }
            self.0.set(self.0.get() - 1);
            f.write_str("z")
        }
    }
    let n = r.below(12) as u32;
    let l = catch(|| ParameterList::new(vec![("a", Bomb(Cell::new(n))), ("a", Bomb(Cell::new(8))), ("b", Bomb(Cell::new(n)))]));
    m.count(if l.is_ok() { "lists of exploding values made" } else { "lists exploded" }, 1);
    if let Ok(l) = l {
        let _ = catch(|| l.serialize(Recorder::new()).len());
        let _ = catch(|| look("a form", &oauth::to_form(&l)));
    }
    let _ = catch(|| drop(ParameterList::new(vec![("a", Bomb(Cell::new(0))), ("a", Bomb(Cell::new(1)))])));
    m.seen(t.as_bytes());
    verdict(m)
}

/// A key or value which counts how often it is dropped, and panics when the countdown reaches it.
struct Bomb<'a> {
    left: &'a Cell<u32>,
    drops: &'a RefCell<Vec<u32>>,
    id: usize,
    text: Box<str>,
}

impl<'a> Bomb<'a> {
    fn new(left: &'a Cell<u32>, drops: &'a RefCell<Vec<u32>>, text: &str) -> Self {
        let mut d = drops.borrow_mut();
        d.push(0);
        Bomb { left, drops, id: d.len() - 1, text: text.into() }
    }

    fn tick(&self) {
        match self.left.get() {
            0 => {}
            1 => {
                self.left.set(0);
                panic!("boom");
            }
            n => self.left.set(n - 1),
        }
    }
}

impl Drop for Bomb<'_> {
    fn drop(&mut self) {
        self.drops.borrow_mut()[self.id] += 1;
    }
}

impl AsRef<str> for Bomb<'_> {
    fn as_ref(&self) -> &str {
        self.tick();
        &self.text
    }
}

impl Display for Bomb<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let mid = self.text.char_indices().nth(1).map_or(0, |c| c.0);
        f.write_str(&self.text[..mid])?;
        self.tick();
        f.write_str(&self.text[mid..])
    }
}

/// Lists of owned keys and values any of which may panic at any point: each of them is to be
/// dropped exactly once.
fn bombs(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let (left, drops) = (Cell::new(0), RefCell::new(Vec::new()));
    let most = if cfg!(miri) { 9 } else { *r.pick(&[5, 20, 70]) };
    let n = r.below(most);
    let few = r.chance(1, 2);
    let make = |r: &mut Rng| {
        let k = if few { (*r.pick(&["a", "b", "oauth_nonce_"])).to_owned() } else { short_text(r) };
        let v = if r.chance(1, 2) { (*r.pick(&["", "1", "2", "3"])).to_owned() } else { short_text(r) };
        (Bomb::new(&left, &drops, &k), Bomb::new(&left, &drops, &v))
    };
    let items: Vec<_> = (0..n).map(|_| make(r)).collect();
    let more: Vec<_> = (0..r.below(6)).map(|_| make(r)).collect();
    let fuse = 1 + r.below(1 + 8 * n) as u32;
    let fuses = [r.chance(2, 3), r.chance(1, 3), r.chance(1, 3), r.chance(1, 3), r.chance(1, 3)].map(|b| if b { fuse } else { 0 });
    m.note(|| format!("{n} items, then {}; panics after {fuses:?} looks", more.len()));
    let mut boom = 0;
    let list = {
        left.set(fuses[0]);
        let l = if r.chance(1, 2) { catch(|| ParameterList::<_, _, Vec<_>>::new(items)) } else { catch(|| items.into_iter().filter(|_| true).collect::<ParameterList<_, _>>()) };
        boom += l.is_err() as u32;
        l.unwrap_or_default()
    };
    let mut list = list;
    left.set(fuses[1]);
    boom += catch(|| list.extend(more)).is_err() as u32;
    left.set(fuses[2]);
    let recorded = catch(|| list.serialize(Recorder::new()));
    boom += recorded.is_err() as u32;
    left.set(fuses[3]);
    let text = catch(|| oauth::to_form(&list));
    boom += text.is_err() as u32;
    if let Ok(t) = &text {
        look("a form", t);
    }
    left.set(fuses[4]);
    let back = catch(|| ParameterList::from_sorted(list.into_inner()).map(|l| l.into_inner().len()));
    boom += back.is_err() as u32;
    left.set(0);
    let d = drops.borrow();
    ensure!(d.iter().all(|n| *n == 1), "keys and values were dropped this often: {d:?}");
    m.count("keys and values dropped once", d.len() as u64);
    m.count("panics of keys and values in lists", boom as u64);
    m.seen(format!("{n} {boom} {fuses:?}").as_bytes());
    verdict(m)
}

/// All the rest of the safe API, for the sanitizers to watch.
fn api(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let mut spec = Spec::random_without_params(r);
    if cfg!(miri) {
        spec.nonce = None;
        for t in [&mut spec.client.0, &mut spec.client.1] {
            *t = t.chars().take(12).collect();
        }
        spec.callback = spec.callback.map(|t| t.chars().take(8).collect());
        spec.verifier = spec.verifier.map(|t| t.chars().take(8).collect());
        spec.token = spec.token.map(|(a, b)| (a.chars().take(8).collect(), b.chars().take(70).collect()));
    }
    let ps: Vec<Param> = if cfg!(miri) {
        (0..r.below(3)).map(|k| Param::raw(format!("{}{k}", *r.pick(&["a", "oauth", "z"])), Val::Text(short_text(r), gen::how(r)))).collect()
    } else {
        gen::params(r, false)
    };
    spec.set_params(ps);
    m.note(|| spec.describe());
    let (req, kind) = AnyReq::random(r, &spec.params);
    let e = i as usize % entries::COUNT;
    let out = match r.below(5) {
        0 => entries::run(e, &spec, &req, PLAINTEXT, "pre"),
        1 => entries::run(e, &spec, &req, Plaintext::<Eye>::with_buf(), "pré"),
        2 => entries::run(e, &spec, &req, Either::<HmacSha1, EyeMethod>::Right(EyeMethod), ""),
        _ => entries::run(e, &spec, &req, Either::<HmacSha1, EyeMethod>::Left(HMAC_SHA1), "pre"),
    };
    // What is wrong otherwise is for other checks to judge.
    let Ok(out) = out else { return verdict(m) };
    look("a message", &out.msg);
    if spec.token.is_some() && r.chance(1, 3) {
        let o = entries::run_free(r.below(entries::FREE_COUNT), &spec, &req, HMAC_SHA1);
        look("a message", &o.msg);
    }
    req.serialize(EyeSer);
    look("a form", &oauth::to_form(&req));
    look("a query", &oauth::to_query("http://a/".to_owned(), &req));
    let recs = req.serialize(Recorder::new());
    drop(recs.clone());
    let dbg = format!("{recs:?} {:?} {:?} {:?}", spec.builder(HMAC_SHA1), spec.options(), spec.client_ref());
    look("a formatter", &dbg);
    for x in &recs {
        if let Record::Parameter(k, v) | Record::ParameterEncoded(k, v) = x {
            look("a record", k);
            look("a record", v);
        }
    }
    let t: Token<String, String> = Token::from_parts("a".to_owned(), "b".to_owned(), short_text(r), short_text(r));
    let t2 = t.clone().map_client(String::into_boxed_str);
    look("a token", t2.token.identifier());
    drop(format!("{t2:?}"));
    drop(t);
    // The library's own nonce.
    let o = Default::default();
    let mut a = Authorizer::authorization_with_buf(Eye::default(), "GET", "http://a/", spec.client_ref(), None, &o, EyeMethod).clone();
    a.serialize_oauth_parameters();
    ensure!(valid(&a.end().0), "a header with the library's nonce is not UTF-8");
    m.count(&format!("request kind {kind}"), 1);
    m.seen(out.msg.as_bytes());
    m.sample(|| clip(&out.msg));
    verdict(m)
}

/// Half-used serializers and signers are dropped, forgotten by nobody, cloned.
fn dropped(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let t = short_text(r);
    let c = Credentials::new(&*t, &*t);
    let o = Default::default();
    let stop = r.below(10);
    m.note(|| format!("{t:?} dropped after {stop} calls"));
    macro_rules! half {
        ($a:expr) => {{
            let mut a = $a;
            for i in 0..stop {
                if r.chance(1, 4) {
                    a = a.clone();
                }
                if i < 8 {
                    drive::requests::proto_call(&mut a, i);
                } else {
                    a.serialize_parameter("z", &*t);
                }
            }
            drop(a);
        }};
    }
    half!(Authorizer::authorization("GET", "http://a/", c, Some(c), &o, HMAC_SHA1));
    half!(Authorizer::form_with_buf(Eye::default(), "GET", "http://a/", c, None, &o, PLAINTEXT));
    half!(Authorizer::query("GET", Eye(b"http://a/".to_vec()), c, None, &o, Plaintext::<Eye>::with_buf()));
    half!(Urlencoder::form());
    half!(Recorder::new());
    let req = Manual(vec![Param::raw("k".into(), Val::Text(t.clone(), How::Whole))]);
    let mut rec = Recorder::new();
    rec.serialize_parameter("x", &t);
    look("a record", &format!("{:?}", rec.history()));
    drop((req, rec));
    m.seen(&[stop as u8, t.len() as u8]);
    verdict(m)
}

#[cfg(feature = "rsa")]
mod rsa {
    use super::*;
    use oauth::signature_method::{rsa_sha1_06, rsa_sha1_09};
    use oauth::{RsaSha1, Rsa09Sha1};

    /// A toy key, quick enough for an interpreter. It is too small to sign.
    fn tiny06() -> rsa_sha1_06::RsaPrivateKey {
        use rsa_sha1_06::DecodePrivateKey as _;
        rsa_sha1_06::RsaPrivateKey::from_pkcs8_der(include_bytes!("../../../keys/rsa512.der")).unwrap()
    }

    fn tiny09() -> rsa_sha1_09::RsaPrivateKey {
        use rsa_sha1_09::DecodePrivateKey as _;
        rsa_sha1_09::RsaPrivateKey::from_pkcs8_der(include_bytes!("../../../keys/rsa512.der")).unwrap()
    }

    /// A private key in every kind of place is viewed as a signature method and used.
    pub fn view(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
        macro_rules! go {
            ($key:expr, $ty:ty) => {{
                let key = $key;
                let boxed = Box::new(key.clone());
                let list = vec![key.clone(), key.clone()];
                let held = (1u8, key.clone(), 2u16);
                let arr = [key.clone()];
                let (a, b, c, d, e): (&$ty, &$ty, &$ty, &$ty, &$ty) = (key.as_ref(), (*boxed).as_ref(), list[1].as_ref(), held.1.as_ref(), arr[0].as_ref());
                ensure_eq!(std::mem::size_of_val(a), std::mem::size_of_val(&key), "size of the view");
                ensure_eq!(std::mem::align_of_val(a), std::mem::align_of_val(&key), "alignment of the view");
                let owned = [a.clone(), b.clone(), c.clone(), d.clone(), e.clone(), <$ty>::from(key.clone()), <$ty>::new(key.clone())];
                look("a formatter", &format!("{a:?} {owned:?}"));
                drop((boxed, list, held, arr));
                // The views are gone, their clones are not.
                let n = if cfg!(miri) { 1 } else { owned.len() };
                let mut sigs = Vec::new();
                let mut make = |mut s: <&$ty as SignatureMethod>::Sign| {
                    s.request_method("GET");
                    s.uri("http");
                    s.parameter("a", "é");
                    sigs.push(s.end().to_string());
                };
                if !cfg!(miri) || m.thorough {
                    make(AsRef::<$ty>::as_ref(&key).sign_with("", None));
                    for o in owned.iter().take(n - 1) {
                        make(o.sign_with("x", Some("y")));
                    }
                } else {
                    let mut s = AsRef::<$ty>::as_ref(&key).sign_with("", None);
                    s.uri("http");
                    look("a formatter", &format!("{:?}", s.clone()));
                }
                for s in &sigs {
                    look("a signature", s);
                    ensure_eq!(s, &sigs[0], "signatures of the same key");
                }
                m.count("views of private keys", 5);
                m.count("signatures with viewed keys", sigs.len() as u64);
            }};
        }
        if i % 2 == 0 {
            go!(tiny06(), RsaSha1);
        } else {
            go!(tiny09(), Rsa09Sha1);
        }
        m.seen(&[(i % 2) as u8]);
        let _ = r;
        verdict(m)
    }

    
}

/// Whether the library panics is for other checks to judge; the case ends there.
macro_rules! quiet {
    ($($name:ident = $f:expr;)*) => {
        $(fn $name(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
            match catch(|| $f(r, m, i)) {
                Ok(x) => x,
                Err((msg, loc)) if loc.starts_with("src/") || loc.contains("harness/") => {
                    eprintln!("HARNESS-ERROR panic at {loc}: {msg}");
                    std::process::exit(3);
                }
                Err(_) => {
                    m.count("cases ended by a panic of the library", 1);
                    verdict(m)
                }
            }
        })*
    };
}

quiet! {
    exhaustive_ = exhaustive;
    random_ = random;
    sizes_ = sizes;
    faults_ = faults;
    api_ = api;
    dropped_ = dropped;
}

#[cfg(feature = "rsa")]
quiet! {
    view_ = rsa::view;
}

fn main() {
    drive::main(PROPS);
}

static PROPS: &[Prop] = &[Prop {
    id: "C19",
    rule: "distinct texts written in pieces, messages, and sizes of secrets",
    families: &[
        // 1 + 7 + 49 + 343 + 2401 + 16807
        fam("exhaustive", 2_801, 19_608, exhaustive_),
        fam("random", 2_000, 60_000, random_),
        fam("sizes", 300, 6_000, sizes_),
        fam("faults", 400, 10_000, faults_),
        fam("bombs", 800, 20_000, bombs),
        fam("api", 820, 20_000, api_),
        fam("dropped", 400, 8_000, dropped_),
        #[cfg(feature = "rsa")]
        fam("rsa-view", 2, 40, view_),
    ],
}];
