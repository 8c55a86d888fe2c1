//! Signs the same requests in whatever way the features allow: `probe SEED CASES [CASE]` prints lines of
//! `key TAB entry TAB value`, where all values of a key must be the same, in this and in every other
//! build.

use std::fmt::{self, Display, Formatter, Write as _};
use std::io::Write as _;
use std::num::NonZeroU64;
use std::panic::{catch_unwind, AssertUnwindSafe};

use oauth::request::AssertSorted;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::{Plaintext, Sign, SignatureMethod};
use oauth::{Builder, Credentials, ParameterList, Request, Token};
use oracle::gen::{self, How, Param, Val, SIGNED_PROTO};
use oracle::mon::jstr;
use oracle::Rng;

/// A buffer which the library knows nothing about.
#[derive(Clone, Debug, Default, PartialEq)]
struct Buf(Vec<u8>);

impl fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

impl Display for Buf {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(std::str::from_utf8(&self.0).unwrap())
    }
}

impl Buf {
    fn of(s: &str) -> Self {
        Buf(s.as_bytes().to_vec())
    }
}

/// A request written by hand.
struct Manual<'a>(&'a [Param]);

impl<'a> Request for Manual<'a> {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut next = 0;
        for p in self.0 {
            while next < 8 && *SIGNED_PROTO[next] < *p.key {
                proto(&mut s, next);
                next += 1;
            }
            if p.encoded {
                s.serialize_parameter_encoded(&p.key, &p.val);
            } else {
                s.serialize_parameter(&p.key, &p.val);
            }
        }
        if next == 0 {
            s.serialize_oauth_parameters();
            next = 8;
        }
        while next < 8 {
            proto(&mut s, next);
            next += 1;
        }
        s.end()
    }
}

fn proto<S: Serializer>(s: &mut S, i: usize) {
    match i {
        0 => s.serialize_oauth_callback(),
        1 => s.serialize_oauth_consumer_key(),
        2 => s.serialize_oauth_nonce(),
        3 => s.serialize_oauth_signature_method(),
        4 => s.serialize_oauth_timestamp(),
        5 => s.serialize_oauth_token(),
        6 => s.serialize_oauth_verifier(),
        _ => s.serialize_oauth_version(),
    }
}

/// A signature method of this program, which shows what it is fed.
#[derive(Clone, Copy, Debug)]
struct Show;

struct ShowSign(Buf);

impl SignatureMethod for Show {
    type Sign = ShowSign;
    fn sign_with(self, c: &str, t: Option<&str>) -> ShowSign {
        let mut b = Buf::default();
        write!(b, "{:?}{:?}", c, t).unwrap();
        ShowSign(b)
    }
}

impl Sign for ShowSign {
    type Signature = Buf;
    fn get_signature_method_name(&self) -> &'static str {
        "SHOW"
    }
    fn request_method(&mut self, m: &str) {
        write!(self.0, "!{m}").unwrap();
    }
    fn uri<T: Display>(&mut self, u: T) {
        write!(self.0, "!{u}").unwrap();
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        write!(self.0, "!{k}={v}").unwrap();
    }
    fn delimiter(&mut self) {
        self.0.write_str("!&").unwrap();
    }
    fn end(self) -> Buf {
        self.0
    }
    fn callback<V: Display>(&mut self, v: V) {
        self.parameter("c", v);
    }
    fn timestamp(&mut self, v: u64) {
        self.parameter("ts", v);
    }
}

/// The same, which uses neither a nonce nor a timestamp.
#[derive(Clone, Copy, Debug)]
struct Still;

struct StillSign(ShowSign);

impl SignatureMethod for Still {
    type Sign = StillSign;
    fn sign_with(self, c: &str, t: Option<&str>) -> StillSign {
        StillSign(Show.sign_with(c, t))
    }
}

impl Sign for StillSign {
    type Signature = Buf;
    fn get_signature_method_name(&self) -> &'static str {
        "STILL"
    }
    fn request_method(&mut self, m: &str) {
        self.0.request_method(m);
    }
    fn uri<T: Display>(&mut self, u: T) {
        self.0.uri(u);
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        self.0.parameter(k, v);
    }
    fn delimiter(&mut self) {
        self.0.delimiter();
    }
    fn end(self) -> Buf {
        self.0.end()
    }
    fn use_nonce(&self) -> bool {
        false
    }
    fn use_timestamp(&self) -> bool {
        false
    }
}

struct Case {
    method: String,
    uri: String,
    client: (String, String),
    token: Option<(String, String)>,
    callback: Option<String>,
    verifier: Option<String>,
    nonce: String,
    timestamp: NonZeroU64,
    version: bool,
    params: Vec<Param>,
}

impl Case {
    fn random(r: &mut Rng) -> Self {
        let o = |r: &mut Rng| if r.chance(1, 3) { Some(gen::text(r)) } else { None };
        let mut params = gen::params(r, true);
        params.sort_by_cached_key(Param::order);
        Case {
            method: gen::method(r),
            uri: gen::uri(r),
            client: (gen::text(r), gen::secret(r)),
            token: if r.chance(2, 3) { Some((gen::text(r), gen::secret(r))) } else { None },
            callback: o(r),
            verifier: o(r),
            nonce: gen::text(r),
            timestamp: NonZeroU64::new(r.u64() >> r.below(63) | 1).unwrap(),
            version: r.chance(1, 2),
            params,
        }
    }

    fn client(&self) -> Credentials<&str> {
        Credentials::new(&*self.client.0, &*self.client.1)
    }

    fn token(&self) -> Option<Credentials<&str>> {
        self.token.as_ref().map(|t| Credentials::new(&*t.0, &*t.1))
    }

    fn builder<SM: SignatureMethod>(&self, sm: SM) -> Builder<'_, SM, &str, &str> {
        let mut b = Builder::new(self.client(), sm);
        b.token(self.token()).callback(self.callback.as_deref()).verifier(self.verifier.as_deref()).nonce(&*self.nonce).timestamp(self.timestamp).version(self.version);
        b
    }

    fn options(&self) -> Options<'_> {
        let mut o = Options::new();
        o.callback(self.callback.as_deref()).verifier(self.verifier.as_deref()).nonce(&*self.nonce).timestamp(self.timestamp).version(self.version);
        o
    }
}

struct Out {
    w: std::io::BufWriter<std::io::Stdout>,
    case: u64,
    whole: bool,
}

impl Out {
    fn put(&mut self, key: &str, entry: &str, f: impl FnOnce() -> String) {
        let v = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(s) if self.whole => jstr(&s),
            Ok(s) => format!("{} {}", s.len(), &hex(&oracle::hash::sha1(s.as_bytes()))[..24]),
            Err(e) => format!("PANIC {}", jstr(e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default().as_str())),
        };
        writeln!(self.w, "{} {}\t{}\t{}", self.case, key, entry, v).unwrap();
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn sign<SM: SignatureMethod + Clone, R: Request>(o: &mut Out, c: &Case, label: &str, how: &str, sm: SM, req: &R) {
    let (m, u) = (&*c.method, &*c.uri);
    let key = |t: &str| format!("{label} {t}");
    let e = |n: &str| format!("{how} {n}");
    let b = c.builder(sm.clone());
    o.put(&key("header"), &e("authorize_with_buf"), || b.authorize_with_buf(Buf::default(), m, u, req).to_string());
    o.put(&key("header"), &e("into_authorization_with_buf"), || b.clone().into_authorization_with_buf(Buf::default(), m, u, req).to_string());
    o.put(&key("form"), &e("into_form_with_buf"), || b.clone().into_form_with_buf(Buf::default(), m, u, req).to_string());
    o.put(&key("query"), &e("to_query"), || b.to_query(m, Buf::of(u), req).to_string());
    o.put(&key("query"), &e("into_query"), || b.clone().into_query(m, Buf::of(u), req).to_string());
    let opts = c.options();
    o.put(&key("header"), &e("Authorizer"), || req.serialize(Authorizer::authorization_with_buf(Buf::default(), m, u, c.client(), c.token(), &opts, sm.clone())).to_string());
    o.put(&key("form"), &e("Authorizer"), || req.serialize(Authorizer::form_with_buf(Buf::default(), m, u, c.client(), c.token(), &opts, sm.clone())).to_string());
    o.put(&key("query"), &e("Authorizer"), || req.serialize(Authorizer::query(m, Buf::of(u), c.client(), c.token(), &opts, sm.clone())).to_string());
    #[cfg(feature = "has_alloc")]
    {
        o.put(&key("header"), &e("authorize"), || b.authorize(m, u, req));
        o.put(&key("form"), &e("to_form"), || b.to_form(m, u, req));
        o.put(&key("form"), &e("to_form_with_buf"), || b.to_form_with_buf(Buf::default(), m, u, req).to_string());
        o.put(&key("header"), &e("into_authorization"), || b.clone().into_authorization(m, u, req));
        o.put(&key("form"), &e("into_form"), || b.clone().into_form(m, u, req));
        o.put(&key("query"), &e("to_query String"), || b.to_query(m, u.to_owned(), req));
        o.put(&key("header"), &e("Authorizer String"), || req.serialize(Authorizer::authorization(m, u, c.client(), c.token(), &opts, sm.clone())));
        if m == "PATCH" {
            o.put(&key("header"), &e("patch"), || b.patch(u, req));
            o.put(&key("form"), &e("patch_form"), || b.patch_form(u, req));
        }
    }
    o.put(&key("log"), &e("sign"), || format!("{:?}", sm.clone().sign_with("s", None).get_signature_method_name()));
}

fn kinds<SM: SignatureMethod + Clone>(o: &mut Out, c: &Case, label: &str, sm: SM) {
    sign(o, c, label, "manual", sm.clone(), &Manual(&c.params));
    sign(o, c, &format!("{label} empty"), "()", sm.clone(), &());
    sign(o, c, &format!("{label} empty"), "None", sm.clone(), &None::<()>);
    if c.params.iter().all(|p| !p.encoded) {
        let pairs: Vec<(&str, &Val)> = c.params.iter().map(|p| (&*p.key, &p.val)).collect();
        sign(o, c, label, "AssertSorted", sm.clone(), &AssertSorted::new(pairs.iter().map(|&(k, v)| (k, v))));
        let mut mixed = pairs.clone();
        mixed.reverse();
        sign(o, c, label, "ParameterList", sm, &ParameterList::new(mixed));
    }
}

#[cfg(feature = "has_derive")]
mod derived {
    use super::*;

    #[derive(oauth::Request)]
    pub struct D<'a> {
        pub zebra: &'a str,
        #[oauth1(rename = "oauth_a~")]
        pub a: Option<u64>,
        #[oauth1(fmt = up, skip_if = empty)]
        pub oauth_n: &'a str,
        #[oauth1(encoded)]
        pub n: u64,
        #[oauth1(skip)]
        pub _s: (),
        pub r#type: Val,
    }

    fn up(s: &str, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "{}.", s)
    }

    fn empty(s: &str) -> bool {
        s.is_empty()
    }
}

fn derive_params(t: &str, v: &Val, n: u64) -> Vec<Param> {
    let p = |k: &str, t: String| Param { key: k.to_owned(), plain: t.clone(), val: Val::Text(t, How::Whole), encoded: false };
    let mut out = vec![Param { encoded: true, ..p("n", n.to_string()) }];
    if n % 2 == 0 {
        out.push(p("oauth_a~", n.to_string()));
    }
    if !t.is_empty() {
        out.push(p("oauth_n", format!("{t}.")));
    }
    out.push(p("type", v.text()));
    out.push(p("zebra", t.to_owned()));
    out
}

/// A method which works without an allocator.
fn plaintext() -> Plaintext<Buf> {
    Plaintext::with_buf()
}

fn main() {
    let mut a = std::env::args().skip(1).map(|x| x.parse::<u64>().unwrap());
    let (seed, cases, one) = (a.next().unwrap_or(1), a.next().unwrap_or(10), a.next());
    std::panic::set_hook(Box::new(|_| ()));
    let mut o = Out { w: std::io::BufWriter::new(std::io::stdout()), case: 0, whole: one.is_some() };
    #[cfg(feature = "rsa06")]
    let m06 = {
        use oauth::signature_method::rsa_sha1_06::{DecodePrivateKey, RsaPrivateKey};
        oauth::signature_method::rsa_sha1_06::RsaSha1::new(RsaPrivateKey::from_pkcs8_der(include_bytes!("../../keys/rsa512.der")).unwrap())
    };
    #[cfg(feature = "rsa09")]
    let m09 = {
        use oauth::signature_method::rsa_sha1_09::{DecodePrivateKey, RsaPrivateKey};
        oauth::signature_method::rsa_sha1_09::RsaSha1::new(RsaPrivateKey::from_pkcs8_der(include_bytes!("../../keys/rsa512.der")).unwrap())
    };
    for case in 0..cases {
        if one.map_or(false, |x| x != case) {
            continue;
        }
        o.case = case;
        let mut r = Rng::for_case(seed, "probe", case);
        let c = Case::random(&mut r);
        kinds(&mut o, &c, "plain", plaintext());
        kinds(&mut o, &c, "show", Show);
        #[cfg(feature = "has_alloc")]
        sign(&mut o, &c, "plain", "PLAINTEXT", oauth::PLAINTEXT, &Manual(&c.params));
        #[cfg(feature = "has_hmac")]
        kinds(&mut o, &c, "hmac", oauth::HMAC_SHA1);
        #[cfg(feature = "either")]
        {
            use either::Either;
            type E<L> = Either<L, Show>;
            sign(&mut o, &c, "plain", "Left", E::<Plaintext<Buf>>::Left(plaintext()), &Manual(&c.params));
            sign(&mut o, &c, "show", "Right", E::<Plaintext<Buf>>::Right(Show), &Manual(&c.params));
            #[cfg(feature = "has_hmac")]
            sign(&mut o, &c, "hmac", "Left", E::<oauth::HmacSha1>::Left(oauth::HMAC_SHA1), &Manual(&c.params));
        }
        if case % 8 == 0 {
            #[cfg(feature = "rsa06")]
            {
                kinds(&mut o, &c, "rsa", &m06);
                sign(&mut o, &c, "rsa", "owned 06", m06.clone(), &Manual(&c.params));
            }
            #[cfg(feature = "rsa09")]
            {
                kinds(&mut o, &c, "rsa", &m09);
                sign(&mut o, &c, "rsa", "owned 09", m09.clone(), &Manual(&c.params));
            }
        }
        // A derived request and the same one by hand.
        let (t, v, n) = (gen::text(&mut r), gen::val(&mut r), r.u64() % 1000);
        let by_hand = derive_params(&t, &v, n);
        sign(&mut o, &c, "derive", "manual", Show, &Manual(&by_hand));
        #[cfg(feature = "has_derive")]
        {
            let d = derived::D { zebra: &t, a: if n % 2 == 0 { Some(n) } else { None }, oauth_n: &t, n, _s: (), r#type: v.clone() };
            sign(&mut o, &c, "derive", "derived", Show, &d);
        }
        // Without a signature.
        let man = Manual(&c.params);
        o.put("unsigned form", "with_buf", || man.serialize(Urlencoder::form_with_buf(Buf::default())).to_string());
        o.put("unsigned query", "Urlencoder", || man.serialize(Urlencoder::query(Buf::of(&c.uri))).to_string());
        #[cfg(feature = "has_alloc")]
        {
            o.put("unsigned form", "to_form", || oauth::to_form(&man));
            o.put("unsigned query", "to_query", || oauth::to_query(c.uri.clone(), &man));
        }
        #[cfg(feature = "has_std")]
        if let Some(tk) = c.token() {
            let t = Token::new(c.client(), tk);
            o.put("free", "authorize", || {
                // The nonce and the timestamp are the library's; the rest is fixed.
                let m = oauth::authorize("GET", "http://example.com/", &(), &t, Show);
                format!("{}", m.matches("oauth_").count() > 5)
            });
        }
        // A method which needs neither a nonce nor a timestamp works without a clock.
        o.put("timeless", "to_query", || Builder::<_, &str, &str>::new(c.client(), Still).to_query("GET", Buf::of(&c.uri), &man).to_string());
        o.put("timeless", "into_query", || Builder::<_, &str, &str>::new(c.client(), Still).into_query("GET", Buf::of(&c.uri), &man).to_string());
        o.put("timeless", "Authorizer", || man.serialize(Authorizer::query("GET", Buf::of(&c.uri), c.client(), None::<Credentials<&str>>, &Options::new(), Still)).to_string());
        #[cfg(feature = "has_alloc")]
        o.put("timeless", "to_query String", || Builder::<_, &str, &str>::new(c.client(), Still).to_query("GET", c.uri.clone(), &man));
        #[cfg(feature = "test")]
        {
            use oauth::serializer::recorder::Recorder;
            let records = |req: &dyn Fn(Recorder) -> String| req(Recorder::new());
            o.put("recorder", "manual", || records(&|r| format!("{:?}", man.serialize(r).len() >= c.params.len())));
        }
        // Credentials.
        let (cl, tk) = (c.client(), c.token().unwrap_or_else(|| Credentials::new("", "")));
        o.put("credentials", "debug", || format!("{:?} {:?} {:?}", cl, Token::new(cl, tk), c.options()));
        let whole = format!("{:?}", [cl.identifier(), cl.secret(), tk.identifier(), tk.secret()]);
        let show = |t: Token<&str>| format!("{:?}", [t.client.identifier(), t.client.secret(), t.token.identifier(), t.token.secret()]);
        o.put("parts", "strings", || whole.clone());
        o.put("parts", "from_parts", || show(Token::from_parts(cl.identifier(), cl.secret(), tk.identifier(), tk.secret())));
        o.put("parts", "new", || show(Token::new(cl, tk).as_ref()));
        o.put("parts", "mapped", || show(Token::new(cl.map(Box::<str>::from), tk.map(Box::<str>::from)).map(std::rc::Rc::<str>::from).as_ref()));
        #[cfg(feature = "json")]
        {
            let text = serde_json::to_string(&cl).unwrap();
            o.put("json", "serde", || text.clone());
            let back: Credentials<std::borrow::Cow<'_, str>> = serde_json::from_str(&text).unwrap();
            o.put("parts", "json", || show(Token::new(back.as_ref(), tk)));
        }
    }
    o.w.flush().unwrap();
}
