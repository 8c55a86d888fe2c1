//! C14 (credentials and tokens), C15 (serde).

use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::marker::PhantomData;
use std::num::NonZeroU64;
use std::rc::Rc;
use std::sync::Arc;

use drive::gen;
use drive::mon::{fam, Prop};
use drive::requests::*;
use drive::rfc::Check;
use drive::spec::*;
use drive::{clip, ensure, ensure_eq, Mon, Res, Rng};
use oauth::serializer::auth::Authorizer;
use oauth::{Builder, Credentials, Request, Token, HMAC_SHA1, PLAINTEXT};
use serde::de::{self, Deserialize, Deserializer};
use serde::ser::{self, Serialize};
use serde_derive::{Deserialize, Serialize};

// --------------------------------------------------------------------------------------------- C14

/// A string-like type with an identity of its own.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Tag<const N: u8> {
    text: String,
    id: u64,
}

impl<const N: u8> AsRef<str> for Tag<N> {
    fn as_ref(&self) -> &str {
        &self.text
    }
}

fn four(r: &mut Rng) -> [String; 4] {
    let mut v: [String; 4] = std::array::from_fn(|i| if r.chance(1, 2) { gen::text(r) } else { format!("{}{i}", gen::text(r)) });
    if r.chance(1, 10) {
        // equal parts
        v[r.below(4)] = v[r.below(4)].clone();
    }
    v
}

fn same_cred<T: AsRef<str>>(c: &Credentials<T>, id: &str, secret: &str, what: &str) -> Res {
    ensure_eq!(c.identifier.as_ref(), id, "{what}: field identifier");
    ensure_eq!(c.secret.as_ref(), secret, "{what}: field secret");
    ensure_eq!(c.identifier(), id, "{what}: identifier()");
    ensure_eq!(c.secret(), secret, "{what}: secret()");
    for (i, r) in [c.as_ref(), Credentials::<&str>::from(c), c.as_ref().as_ref()].iter().enumerate() {
        ensure_eq!((r.identifier, r.secret), (id, secret), "{what}: borrowed {i}");
    }
    // Borrowing does not copy.
    ensure!(std::ptr::eq(c.as_ref().identifier, c.identifier.as_ref()), "{what}: as_ref() is another identifier");
    ensure!(std::ptr::eq(c.as_ref().secret, c.secret.as_ref()), "{what}: as_ref() is another secret");
    Ok(())
}

fn same_token<C: AsRef<str>, T: AsRef<str>>(t: &Token<C, T>, p: &[String; 4], what: &str) -> Res {
    same_cred(&t.client, &p[0], &p[1], &format!("{what}: client"))?;
    same_cred(&t.token, &p[2], &p[3], &format!("{what}: token"))?;
    same_cred(&t.client(), &p[0], &p[1], &format!("{what}: client()"))?;
    same_cred(&t.token(), &p[2], &p[3], &format!("{what}: token()"))?;
    for r in [t.as_ref(), Token::<&str>::from(t), Token::<&str, &str>::from_ref(&t.client, &t.token), t.as_ref().as_ref(), Token::new(t.client(), t.token())] {
        ensure_eq!([r.client.identifier, r.client.secret, r.token.identifier, r.token.secret], [&*p[0], &*p[1], &*p[2], &*p[3]], "{what}: borrowed");
    }
    Ok(())
}

fn c14_parts(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let p = four(r);
    m.note(|| format!("parts {p:?}"));
    let [a, b, c, d] = &p;
    macro_rules! each {
        ($($ty:ident: $f:expr),* $(,)?) => {$({
            let f = $f;
            let what = stringify!($ty);
            let cr = Credentials::new(f(a), f(b));
            same_cred(&cr, a, b, what)?;
            same_cred(&cr.clone(), a, b, what)?;
            same_cred(&Credentials { identifier: f(a), secret: f(b) }, a, b, what)?;
            let t = Token::new(cr, Credentials::new(f(c), f(d)));
            same_token(&t, &p, what)?;
            same_token(&t.clone(), &p, what)?;
            same_token(&Token::from_parts(f(a), f(b), f(c), f(d)), &p, what)?;
            same_token(&Token { client: t.client.clone(), token: t.token.clone() }, &p, what)?;
            same_token(&Token::from_parts(f(a), f(b), &**c, &**d), &p, what)?;
            same_token(&Token::from_parts(&**a, &**b, f(c), f(d)), &p, what)?;
            m.count("token types", 1);
        })*};
    }
    each!(
        String: |s: &String| s.clone(),
        Str: (|s| s) as for<'x> fn(&'x String) -> &'x str,
        BoxStr: |s: &String| Box::<str>::from(&**s),
        RcStr: |s: &String| Rc::<str>::from(&**s),
        ArcStr: |s: &String| Arc::<str>::from(&**s),
        CowBorrowed: (|s| Cow::Borrowed(s)) as for<'x> fn(&'x String) -> Cow<'x, str>,
        CowOwned: |s: &String| Cow::<'static, str>::Owned(s.clone()),
        Tagged: |s: &String| Tag::<0> { text: s.clone(), id: 7 },
    );
    let t: Token<&str> = Token::from_parts(a, b, c, d);
    let copy = t;
    let client = t.client;
    same_token(&t, &p, "copied from")?;
    same_token(&copy, &p, "copy")?;
    same_cred(&client, a, b, "copied client")?;
    m.seen(format!("{p:?}").as_bytes());
    m.sample(|| format!("{copy:?}"));
    Ok(())
}

/// Applies a logging function to parts with identities.
fn c14_map(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let p = four(r);
    m.note(|| format!("parts {p:?}"));
    let base = r.u64() >> 8;
    fn tag<const N: u8>(s: &str, id: u64) -> Tag<N> {
        Tag { text: s.to_owned(), id }
    }
    let log = RefCell::new(Vec::new());
    let n = Cell::new(0u64);
    // The result tells which call made it from what.
    let f = |t: Tag<0>| -> Tag<1> {
        log.borrow_mut().push(t.id);
        n.set(n.get() + 1);
        Tag { text: format!("{}!", t.text), id: t.id + 1000 }
    };
    let g = |t: Tag<1>| -> Tag<2> {
        log.borrow_mut().push(t.id);
        Tag { text: format!("?{}", t.text), id: t.id + 1000 }
    };
    let calls = |want: &[u64], what: &str| -> Res {
        let mut got = std::mem::take(&mut *log.borrow_mut());
        got.sort();
        let mut want = want.to_vec();
        want.sort();
        ensure_eq!(got, want, "{what}: calls of the mapping function");
        Ok(())
    };
    let t0 = |i: usize| tag::<0>(&p[i], base + i as u64);
    let t1 = |i: usize| tag::<1>(&format!("{}!", p[i]), base + i as u64 + 1000);
    let t2 = |i: usize| tag::<2>(&format!("?{}!", p[i]), base + i as u64 + 2000);

    let c = Credentials::new(t0(0), t0(1)).map(f);
    ensure_eq!((&c.identifier, &c.secret), (&t1(0), &t1(1)), "Credentials::map");
    calls(&[base, base + 1], "Credentials::map")?;
    let c = c.map(g);
    ensure_eq!((&c.identifier, &c.secret), (&t2(0), &t2(1)), "Credentials::map, again");
    calls(&[base + 1000, base + 1001], "Credentials::map, again")?;

    let t = Token::from_parts(t0(0), t0(1), t0(2), t0(3));
    let a = t.clone().map_client(f);
    ensure_eq!((&a.client.identifier, &a.client.secret, &a.token.identifier, &a.token.secret), (&t1(0), &t1(1), &t0(2), &t0(3)), "map_client");
    calls(&[base, base + 1], "map_client")?;
    let b = t.clone().map_token(f);
    ensure_eq!((&b.client.identifier, &b.client.secret, &b.token.identifier, &b.token.secret), (&t0(0), &t0(1), &t1(2), &t1(3)), "map_token");
    calls(&[base + 2, base + 3], "map_token")?;
    let ab = a.clone().map_token(f);
    calls(&[base + 2, base + 3], "map_token")?;
    let ba = b.map_client(f);
    calls(&[base, base + 1], "map_client")?;
    let both = t.clone().map(f);
    calls(&[base, base + 1, base + 2, base + 3], "Token::map")?;
    for (what, x) in [("map_client then map_token", &ab), ("map_token then map_client", &ba), ("Token::map", &both)] {
        ensure_eq!((&x.client.identifier, &x.client.secret, &x.token.identifier, &x.token.secret), (&t1(0), &t1(1), &t1(2), &t1(3)), "{what}");
    }
    let mixed = a.map_client(g);
    ensure_eq!((&mixed.client.identifier, &mixed.client.secret, &mixed.token.identifier, &mixed.token.secret), (&t2(0), &t2(1), &t0(2), &t0(3)), "map_client twice");
    calls(&[base + 1000, base + 1001], "map_client twice")?;
    // Each part gets its own result also when the function counts.
    let k = Cell::new(0);
    let numbered = t.map(|x| {
        k.set(k.get() + 1);
        format!("{}#{}", x.id - base, k.get())
    });
    let mut nums = Vec::new();
    for (i, s) in [&numbered.client.identifier, &numbered.client.secret, &numbered.token.identifier, &numbered.token.secret].iter().enumerate() {
        let (id, num) = s.split_once('#').ok_or("lost")?;
        ensure_eq!(id, i.to_string(), "Token::map with a counting function");
        nums.push(num.to_owned());
    }
    nums.sort();
    ensure_eq!(nums, ["1", "2", "3", "4"], "Token::map with a counting function");
    m.count("mapping calls observed", n.get());
    m.seen(format!("{p:?}").as_bytes());
    Ok(())
}

/// Random chains of conversions.
fn c14_chain(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut p = four(r);
    let mut t: Token<String, Rc<str>> = Token::from_parts(p[0].clone(), p[1].clone(), Rc::from(&*p[2]), Rc::from(&*p[3]));
    let mut ops = Vec::new();
    for _ in 0..r.range(1, 12) {
        let op = r.below(9);
        ops.push(op);
        t = match op {
            0 => t.map_client(|s| s),
            1 => t.map_token(|s| s),
            2 => Token::new(t.client, t.token),
            3 => {
                let Token { client: Credentials { identifier: a, secret: b }, token: Credentials { identifier: c, secret: d } } = t;
                Token::from_parts(a, b, c, d)
            }
            4 => {
                let x = t.as_ref();
                Token::new(x.client.map(str::to_owned), x.token.map(Rc::from))
            }
            5 => {
                // swaps client and token
                p = [p[2].clone(), p[3].clone(), p[0].clone(), p[1].clone()];
                Token { client: t.token.map(|s| s.to_string()), token: t.client.map(Rc::from) }
            }
            6 => {
                let x = t.clone();
                drop(t);
                x
            }
            7 => {
                p[0].push('x');
                p[1].push('x');
                t.map_client(|s| s + "x")
            }
            _ => {
                p[2].push('y');
                p[3].push('y');
                t.map_token(|s| Rc::from(format!("{s}y")))
            }
        };
        same_token(&t, &p, "in a chain")?;
    }
    m.note(|| format!("{ops:?}"));
    m.seen(format!("{ops:?}").as_bytes());
    Ok(())
}

fn c14_sign(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut spec = Spec::random(r, false).fixed(r);
    spec.token = Some((gen::text(r), gen::secret(r)));
    m.note(|| spec.describe());
    let p = [spec.client.0.clone(), spec.client.1.clone(), spec.token.as_ref().unwrap().0.clone(), spec.token.as_ref().unwrap().1.clone()];
    let req = Manual(spec.params.clone());
    let owned: Token = Token::from_parts(p[0].clone(), p[1].clone(), p[2].clone(), p[3].clone());
    let mixed: Token<Box<str>, Tag<3>> = Token::new(owned.client.clone().map(Into::into), owned.token.clone().map(|text| Tag { text, id: 0 }));
    let opts = spec.options();
    let (me, u) = (&*spec.method, &*spec.uri);
    fn set<'a, SM, C: AsRef<str>, T: AsRef<str>>(mut b: Builder<'a, SM, C, T>, s: &'a Spec) -> Builder<'a, SM, C, T>
    where
        SM: oauth::signature_method::SignatureMethod,
    {
        b.callback(s.callback.as_deref()).verifier(s.verifier.as_deref()).nonce(s.nonce.as_deref()).timestamp(s.timestamp.and_then(NonZeroU64::new)).version(s.version);
        b
    }
    macro_rules! forms {
        ($sm:expr, $check:expr) => {{
            let mut out: Vec<(&'static str, String)> = Vec::new();
            let tr = TRANSPORTS[r.below(3)];
            macro_rules! go {
                ($what:literal, $b:expr) => {{
                    let b = set($b, &spec);
                    out.push(($what, match tr {
                        Transport::Header => b.authorize(me, u, &req),
                        Transport::Form => b.to_form(me, u, &req),
                        Transport::Query => b.to_query(me, u.to_owned(), &req),
                    }));
                }};
            }
            go!("with_token(owned)", Builder::with_token(owned.clone(), $sm));
            go!("with_token(as_ref)", Builder::with_token(owned.as_ref(), $sm));
            go!("with_token(from &)", Builder::with_token(Token::<&str>::from(&owned), $sm));
            go!("with_token(from_ref)", Builder::with_token(Token::from_ref(&owned.client, &owned.token), $sm));
            go!("with_token(mixed)", Builder::with_token(mixed.clone(), $sm));
            go!("with_token(mixed as_ref)", Builder::with_token(mixed.as_ref(), $sm));
            go!("parts", { let mut b = Builder::new(owned.client.clone(), $sm); b.token(owned.token.clone()); b });
            go!("parts, mixed", { let mut b = Builder::new(mixed.client.clone(), $sm); b.token(Some(owned.token())); b });
            go!("parts, borrowed", { let mut b = Builder::new(owned.client(), $sm); b.token(mixed.token.clone()); b });
            go!("token replaced", { let mut b = Builder::with_token(Token::new(owned.client(), owned.client()), $sm); b.token(owned.token()); b });
            out.push(("authorizer", match tr {
                Transport::Header => req.serialize(Authorizer::authorization(me, u, owned.client(), Some(owned.token()), &opts, $sm)),
                Transport::Form => req.serialize(Authorizer::form(me, u, owned.client(), Some(owned.token()), &opts, $sm)),
                Transport::Query => req.serialize(Authorizer::query(me, u.to_owned(), owned.client(), Some(owned.token()), &opts, $sm)),
            }));
            for (what, x) in &out {
                ensure_eq!(*x, out[0].1, "message with {what}");
            }
            // and it is the right one
            check_message(&spec, $check, tr, &out[0].1, (0, 0))?;
            // the free functions choose nonce and time themselves
            let mut free = spec.clone();
            free.callback = None;
            free.verifier = None;
            free.nonce = None;
            free.timestamp = None;
            free.version = false;
            let t0 = now();
            let msgs = [oauth::authorize(me, u, &req, &owned, $sm), oauth::authorize(me, u, &req, &owned.as_ref(), $sm), oauth::authorize(me, u, &req, &mixed, $sm)];
            let t1 = now();
            for x in &msgs {
                check_message(&free, $check, Transport::Header, x, (t0, t1))?;
            }
            m.count("messages compared", out.len() as u64 + 3);
        }};
    }
    forms!(HMAC_SHA1, &Check::Hmac);
    forms!(PLAINTEXT, &Check::Plaintext);
    m.seen(spec.describe().as_bytes());
    Ok(())
}

// --------------------------------------------------------------------------------------------- C15

const ID: &str = "oauth_token";
const SECRET: &str = "oauth_token_secret";

/// A value of a self-describing format.
#[derive(Clone, Debug, PartialEq)]
enum Node {
    Unit,
    None,
    Bool(bool),
    U64(u64),
    I64(i64),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    Some(Box<Node>),
    Newtype(Box<Node>),
    Seq(Vec<Node>),
    Map(Vec<(Node, Node)>),
    /// Fails when read.
    Broken,
}

#[derive(Debug, PartialEq)]
struct Error(String);

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl ser::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

/// Reads a node as a text or binary format would; `style` says how strings are handed over.
#[derive(Clone, Copy)]
struct Reader<'de, 'x> {
    node: &'de Node,
    style: &'x Cell<u64>,
    fixed: Option<u64>,
    human: bool,
}

impl<'de, 'x> Reader<'de, 'x> {
    fn at(self, node: &'de Node) -> Self {
        Reader { node, ..self }
    }
    fn next(&self) -> u64 {
        if let Some(s) = self.fixed {
            return s;
        }
        let s = self.style.get();
        self.style.set(s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407));
        s >> 33
    }
}

struct SeqR<'de, 'x>(Reader<'de, 'x>, std::slice::Iter<'de, Node>);
struct MapR<'de, 'x>(Reader<'de, 'x>, std::slice::Iter<'de, (Node, Node)>, Option<&'de Node>, bool);

impl<'de, 'x> de::SeqAccess<'de> for SeqR<'de, 'x> {
    type Error = Error;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        self.1.next().map(|n| seed.deserialize(self.0.at(n))).transpose()
    }
}

impl<'de, 'x> de::MapAccess<'de> for MapR<'de, 'x> {
    type Error = Error;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        if self.2.is_some() {
            return Err(Error("a value was not read".into()));
        }
        match self.1.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.2 = Some(v);
                seed.deserialize(self.0.at(k)).map(Some)
            }
        }
    }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        let v = self.2.take().ok_or_else(|| Error("a value was read without its key".into()))?;
        seed.deserialize(self.0.at(v))
    }
    fn size_hint(&self) -> Option<usize> {
        if self.3 {
            Some(self.1.len())
        } else {
            None
        }
    }
}

impl<'de, 'x> Deserializer<'de> for Reader<'de, 'x> {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.node {
            Node::Unit => v.visit_unit(),
            Node::None => v.visit_none(),
            Node::Bool(b) => v.visit_bool(*b),
            Node::U64(n) => v.visit_u64(*n),
            Node::I64(n) => v.visit_i64(*n),
            Node::F64(n) => v.visit_f64(*n),
            Node::Str(s) => match self.next() % 6 {
                0 => v.visit_str(s),
                1 => v.visit_borrowed_str(s),
                2 => v.visit_string(s.clone()),
                3 => v.visit_bytes(s.as_bytes()),
                4 => v.visit_borrowed_bytes(s.as_bytes()),
                _ => v.visit_byte_buf(s.clone().into_bytes()),
            },
            Node::Bytes(s) => match self.next() % 3 {
                0 => v.visit_bytes(s),
                1 => v.visit_borrowed_bytes(s),
                _ => v.visit_byte_buf(s.clone()),
            },
            Node::Some(n) => v.visit_some(self.at(n)),
            Node::Newtype(n) => v.visit_newtype_struct(self.at(n)),
            Node::Seq(s) => v.visit_seq(SeqR(self, s.iter())),
            Node::Map(s) => {
                let hint = self.next() % 2 == 0;
                let mut a = MapR(self, s.iter(), None, hint);
                let r = v.visit_map(&mut a)?;
                if a.1.next().is_some() || a.2.is_some() {
                    return Err(Error("rest of a map was not read".into()));
                }
                Ok(r)
            }
            Node::Broken => Err(Error("broken".into())),
        }
    }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.node {
            Node::None | Node::Unit => v.visit_none(),
            Node::Some(n) => v.visit_some(self.at(n)),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

fn near_key(r: &mut Rng) -> String {
    loop {
        let k = match r.below(4) {
            0 => r
                .pick(&[
                    "oauth_callback_confirmed", "oauth_toke", "oauth_tokens", "oauth_token_", "oauth_token_secre", "oauth_token_secret_", "oauth_token_secrets", "OAUTH_TOKEN",
                    "Oauth_Token_Secret", "oauth_token ", " oauth_token", "oauth_token\0", "token", "secret", "identifier", "", "oauth_token_secret\n", "oauth-token", "oauth_token-secret",
                    "key", "consumer_key", "oauth_session_handle", "user_id", "screen_name", "oauth_tokеn",
                ])
                .to_string(),
            1 => gen::key(r),
            2 => gen::text(r),
            _ => {
                // one edit away
                let mut s = r.pick(&[ID, SECRET]).to_string().into_bytes();
                let i = r.below(s.len());
                match r.below(3) {
                    0 => s[i] ^= 0x20,
                    1 => {
                        s.remove(i);
                    }
                    _ => s.insert(i, b'_'),
                }
                String::from_utf8_lossy(&s).into_owned()
            }
        };
        if k != ID && k != SECRET {
            return k;
        }
    }
}

fn any_node(r: &mut Rng, depth: usize) -> Node {
    match r.below(if depth == 0 { 8 } else { 12 }) {
        0 => Node::Unit,
        1 => Node::None,
        2 => Node::Bool(r.chance(1, 2)),
        3 => Node::U64(r.u64()),
        4 => Node::I64(r.u64() as i64),
        5 => Node::F64(1.5),
        6 => Node::Str(gen::text(r)),
        7 => Node::Bytes(vec![0xff, 0, 0x80]),
        8 => Node::Some(Box::new(any_node(r, depth - 1))),
        9 => Node::Newtype(Box::new(any_node(r, depth - 1))),
        10 => Node::Seq((0..r.below(4)).map(|_| any_node(r, depth - 1)).collect()),
        _ => {
            // may contain the very same field names, deeper
            let mut v: Vec<(Node, Node)> = (0..r.below(4)).map(|_| (Node::Str(near_key(r)), any_node(r, depth - 1))).collect();
            if r.chance(1, 2) {
                v.push((Node::Str(ID.into()), Node::Str("nested".into())));
                v.push((Node::Str(SECRET.into()), Node::Str("nested".into())));
            }
            Node::Map(v)
        }
    }
}

/// What a response contains.
#[derive(Debug, Clone)]
struct Case {
    id: String,
    secret: String,
    /// Occurrences of the two fields.
    ids: usize,
    secrets: usize,
    fields: Vec<(Node, Node)>,
}

fn case(r: &mut Rng, valid: bool, dup_others: bool) -> Case {
    let (id, secret) = (gen::text(r), gen::secret(r));
    let (ids, secrets) = if valid { (1, 1) } else { *r.pick(&[(0, 1), (1, 0), (0, 0), (2, 1), (1, 2), (2, 2), (3, 1), (0, 2), (2, 0)]) };
    let mut f: Vec<(Node, Node)> = Vec::new();
    for i in 0..ids {
        // a repeated field may have the same or another value
        f.push((Node::Str(ID.into()), Node::Str(if i == 0 || r.chance(1, 2) { id.clone() } else { gen::text(r) })));
    }
    for i in 0..secrets {
        f.push((Node::Str(SECRET.into()), Node::Str(if i == 0 || r.chance(1, 2) { secret.clone() } else { gen::secret(r) })));
    }
    for _ in 0..*r.pick(&[0, 0, 1, 2, 3, 8, 30]) {
        let mut k = near_key(r);
        if !dup_others {
            k = format!("{}{k}", f.len());
        }
        f.push((Node::Str(k), any_node(r, 2)));
    }
    r.shuffle(&mut f);
    Case { id, secret, ids, secrets, fields: f }
}

fn json_str(r: &mut Rng, s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c if r.chance(1, 8) => {
                for u in c.encode_utf16(&mut [0; 2]) {
                    write!(o, "\\u{:04X}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json(r: &mut Rng, n: &Node) -> String {
    let ws = |r: &mut Rng| *r.pick(&["", "", " ", "\n", "\t "]);
    match n {
        Node::Unit | Node::None | Node::Broken => "null".into(),
        Node::Bool(b) => b.to_string(),
        Node::U64(x) => x.to_string(),
        Node::I64(x) => x.to_string(),
        Node::F64(x) => format!("{x:?}"),
        Node::Str(s) => json_str(r, s),
        Node::Bytes(b) => format!("{b:?}"),
        Node::Some(n) | Node::Newtype(n) => json(r, n),
        Node::Seq(v) => format!("[{}]", v.iter().map(|n| json(r, n)).collect::<Vec<_>>().join(",")),
        Node::Map(v) => {
            let mut o = String::from("{");
            for (i, (k, v)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push_str(ws(r));
                let Node::Str(k) = k else { unreachable!() };
                o.push_str(&json_str(r, k));
                o.push_str(ws(r));
                o.push(':');
                o.push_str(ws(r));
                o.push_str(&json(r, v));
                o.push_str(ws(r));
            }
            o.push('}');
            o
        }
    }
}

#[derive(Deserialize)]
struct Flat<T> {
    #[serde(flatten)]
    inner: Credentials<T>,
    #[serde(default)]
    oauth_callback_confirmed: Option<de::IgnoredAny>,
}

#[derive(Deserialize)]
struct FlatRest<T> {
    #[serde(flatten)]
    inner: Credentials<T>,
    #[serde(flatten)]
    rest: std::collections::BTreeMap<String, serde_json::Value>,
}

#[derive(Deserialize)]
#[serde(untagged)]
enum Untagged<T> {
    Number(f64),
    Cred(Credentials<T>),
}

#[derive(Deserialize)]
#[serde(tag = "kind of message")]
enum Tagged<T> {
    #[serde(rename = "t")]
    Token(Credentials<T>),
}

#[derive(Deserialize)]
struct Outer<T> {
    credentials: Vec<Option<Credentials<T>>>,
}

#[derive(Serialize, Deserialize)]
#[serde(remote = "Credentials")]
struct Def<T> {
    #[serde(rename = "client_identifier")]
    identifier: T,
    #[serde(rename = "client_secret")]
    secret: T,
}

#[derive(Deserialize)]
struct Helper(#[serde(with = "Def")] Credentials);
#[derive(Serialize)]
struct HelperRef<'a>(#[serde(with = "Def")] Credentials<&'a str>);

fn judge<T: AsRef<str>, E: std::fmt::Display>(m: &mut Mon, c: &Case, what: &str, got: Result<Credentials<T>, E>) -> Res {
    let valid = c.ids == 1 && c.secrets == 1;
    match got {
        Ok(x) => {
            ensure!(valid, "{what}: {} {ID} and {} {SECRET} accepted, as {:?} {:?}", c.ids, c.secrets, x.identifier(), x.secret());
            ensure_eq!((x.identifier(), x.secret()), (&*c.id, &*c.secret), "{what}");
            m.count("accepted", 1);
        }
        Err(e) => {
            ensure!(!valid, "{what}: valid fields rejected: {e}");
            m.count("rejected", 1);
        }
    }
    m.count(what, 1);
    Ok(())
}

/// A string which can only be made from a string.
#[derive(Debug, Deserialize, Clone)]
struct Text(String);
impl AsRef<str> for Text {
    fn as_ref(&self) -> &str {
        &self.0
    }
}

fn c15_json(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let valid = r.chance(3, 5);
    let c = case(r, valid, true);
    let text = json(r, &Node::Map(c.fields.clone()));
    m.note(|| format!("{} {}: {text}", c.ids, c.secrets));
    judge(m, &c, "from_str", serde_json::from_str::<Credentials>(&text))?;
    judge(m, &c, "from_slice", serde_json::from_slice::<Credentials<Box<str>>>(text.as_bytes()))?;
    judge(m, &c, "from_reader", serde_json::from_reader::<_, Credentials>(std::io::Cursor::new(&text)))?;
    judge(m, &c, "Cow", serde_json::from_str::<Credentials<Cow<str>>>(&text))?;
    judge(m, &c, "newtype", serde_json::from_str::<Credentials<Text>>(&text))?;
    judge(m, &c, "flattened", serde_json::from_str::<Flat<String>>(&text).map(|f| f.inner)).or_else(|e| {
        // The other field of `Flat` may be repeated.
        let n = c.fields.iter().filter(|(k, _)| *k == Node::Str("oauth_callback_confirmed".into())).count();
        if n > 1 {
            Ok(())
        } else {
            Err(e)
        }
    })?;
    let rest = serde_json::from_str::<FlatRest<String>>(&text);
    if let Ok(f) = &rest {
        // Everything else is left for the others.
        for (k, _) in &c.fields {
            if let Node::Str(k) = k {
                ensure!(k == ID || k == SECRET || f.rest.contains_key(k), "flattening lost the field {k:?}");
            }
        }
    }
    judge(m, &c, "flattened with rest", rest.map(|f| f.inner))?;
    judge(m, &c, "untagged", serde_json::from_str::<Untagged<String>>(&text).map(|u| match u {
        Untagged::Cred(c) => c,
        Untagged::Number(n) => Credentials::new(n.to_string(), n.to_string()),
    }))?;
    if !c.fields.iter().any(|(k, _)| *k == Node::Str("kind of message".into())) {
        let mut f = c.fields.clone();
        f.insert(r.below(f.len() + 1), (Node::Str("kind of message".into()), Node::Str("t".into())));
        let text = json(r, &Node::Map(f));
        judge(m, &c, "internally tagged", serde_json::from_str::<Tagged<String>>(&text).map(|Tagged::Token(c)| c))?;
    }
    let outer = format!("{{\"credentials\":[null,{text},{{\"oauth_token_secret\":\"b\",\"oauth_token\":\"a\"}}]}}");
    judge(m, &c, "nested", serde_json::from_str::<Outer<String>>(&outer).map(|mut o| {
        let last = o.credentials.pop().flatten().expect("last");
        assert_eq!((last.identifier(), last.secret()), ("a", "b"));
        o.credentials.pop().flatten().expect("second")
    }))?;
    // A parsed value has lost repetitions already.
    if c.ids <= 1 && c.secrets <= 1 {
        if let Ok(v) = serde_json::from_str::<serde_json::Value>(&text) {
            judge(m, &c, "from_value", serde_json::from_value::<Credentials>(v.clone()))?;
            judge(m, &c, "&Value", Credentials::<String>::deserialize(&v))?;
        }
    }
    if !text.contains('\\') {
        judge(m, &c, "borrowed", serde_json::from_str::<Credentials<&str>>(&text))?;
    }
    m.seen(text.as_bytes());
    m.sample(|| clip(&text));
    Ok(())
}

/// Values that are not texts, and input which breaks off, are errors and never a wrong value.
fn c15_ill(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut c = case(r, true, true);
    let which = if r.chance(1, 2) { ID } else { SECRET };
    let bad = loop {
        let n = any_node(r, 1);
        if !matches!(n, Node::Str(_)) {
            match &n {
                Node::Some(b) | Node::Newtype(b) if matches!(**b, Node::Str(_) | Node::Some(_) | Node::Newtype(_)) => continue,
                _ => break n,
            }
        }
    };
    for (k, v) in &mut c.fields {
        if *k == Node::Str(which.into()) {
            *v = bad.clone();
        }
    }
    let text = json(r, &Node::Map(c.fields.clone()));
    m.note(|| text.clone());
    ensure!(serde_json::from_str::<Credentials>(&text).is_err(), "{which} is not a text, but accepted");
    ensure!(serde_json::from_str::<Flat<String>>(&text).is_err(), "{which} is not a text, but accepted flattened");
    let style = Cell::new(r.u64());
    for bad in [bad, Node::Broken, Node::Bytes(vec![b'a', 0xff])] {
        for (k, v) in &mut c.fields {
            if *k == Node::Str(which.into()) {
                *v = bad.clone();
            }
        }
        let node = Node::Map(c.fields.clone());
        let rd = Reader { node: &node, style: &style, fixed: None, human: r.chance(1, 2) };
        if !matches!(bad, Node::Newtype(_) | Node::Some(_)) {
            ensure!(Credentials::<String>::deserialize(rd).is_err(), "{which} is {bad:?}, but accepted");
        }
    }
    // Not a map at all
    for text in ["null", "[]", "[\"a\",\"b\"]", "\"oauth_token\"", "1", "{}", "true", "[[\"oauth_token\",\"a\"],[\"oauth_token_secret\",\"b\"]]"] {
        ensure!(serde_json::from_str::<Credentials>(text).is_err(), "accepted {text}");
    }
    // Broken off
    let good = case(r, true, true);
    let text = json(r, &Node::Map(good.fields.clone()));
    for _ in 0..4 {
        let cut = (0..=r.below(text.len())).rev().find(|i| text.is_char_boundary(*i)).unwrap();
        ensure!(serde_json::from_str::<Credentials>(&text[..cut]).is_err(), "accepted {:?}", &text[..cut]);
    }
    // An error in any other value or key is passed on.
    let mut f = good.fields.clone();
    f.insert(r.below(f.len() + 1), if r.chance(1, 2) { (Node::Str("x".into()), Node::Broken) } else { (Node::Broken, Node::Unit) });
    let node = Node::Map(f);
    let e = Credentials::<String>::deserialize(Reader { node: &node, style: &style, fixed: None, human: true });
    ensure_eq!(e.map(|_| ()), Err(Error("broken".into())), "an error of the format");
    // Fields of optional type are not optional.
    let mut c = case(r, true, true);
    c.fields.retain(|(k, _)| *k != Node::Str(which.into()));
    let node = Node::Map(c.fields.clone());
    let e = Credentials::<Option<String>>::deserialize(Reader { node: &node, style: &style, fixed: None, human: true });
    ensure!(e.is_err(), "missing {which} accepted for an optional type");
    m.count("ill-formed", 12);
    m.seen(text.as_bytes());
    Ok(())
}

fn c15_binary(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let valid = r.chance(3, 5);
    let mut c = case(r, valid, true);
    for _ in 0..r.below(3) {
        // keys which are not even text
        let at = r.below(c.fields.len() + 1);
        let mut k = r.pick(&[ID, SECRET, "x", ""]).as_bytes().to_vec();
        let at2 = r.below(k.len() + 1);
        k.insert(at2, *r.pick(&[0xff, 0x80, 0xc0]));
        c.fields.insert(at, (Node::Bytes(k), any_node(r, 2)));
    }
    let node = Node::Map(c.fields.clone());
    let in_seq = Node::Seq(vec![node.clone()]);
    m.note(|| format!("{node:?}"));
    let style = Cell::new(r.u64());
    for style_of_all in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5)] {
        for human in [true, false] {
            let rd = Reader { node: &node, style: &style, fixed: style_of_all, human };
            judge(m, &c, "node", Credentials::<String>::deserialize(rd))?;
            judge(m, &c, "node, boxed", Credentials::<Box<str>>::deserialize(rd))?;
            if matches!(style_of_all, Some(1 | 4)) {
                judge(m, &c, "node, borrowed", Credentials::<&str>::deserialize(rd))?;
            }
            judge(m, &c, "node, nested", Vec::<Credentials>::deserialize(rd.at(&in_seq)).map(|mut v| v.pop().unwrap()))?;
        }
    }
    // Flattening copies keys which are text only.
    if !c.fields.iter().any(|(k, _)| matches!(k, Node::Bytes(_))) && c.fields.iter().filter(|(k, _)| *k == Node::Str("oauth_callback_confirmed".into())).count() <= 1 {
        for s in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5)] {
            let rd = Reader { node: &node, style: &style, fixed: s, human: false };
            judge(m, &c, "node, flattened", Flat::<String>::deserialize(rd).map(|f| f.inner))?;
        }
    }
    // A map given by iterator
    let strs: Vec<(&str, String)> = c.fields.iter().filter_map(|(k, v)| match (k, v) {
        (Node::Str(k), Node::Str(v)) => Some((&**k, v.clone())),
        _ => None,
    }).collect();
    let d = de::value::MapDeserializer::<_, de::value::Error>::new(strs.into_iter());
    judge(m, &c, "MapDeserializer", Credentials::<String>::deserialize(d))?;
    m.seen(format!("{node:?}").as_bytes());
    Ok(())
}

fn url_field(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b' ' if r.chance(1, 2) => o.push('+'),
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b'-' | b'.' | b'*' if !r.chance(1, 10) => o.push(b as char),
            b => write!(o, "{}", if r.chance(1, 2) { format!("%{b:02X}") } else { format!("%{b:02x}") }).unwrap(),
        }
    }
    o
}

fn c15_urlencoded(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let valid = r.chance(3, 5);
    let mut c = case(r, valid, true);
    for (_, v) in &mut c.fields {
        if !matches!(v, Node::Str(_)) {
            *v = Node::Str(gen::text(r));
        }
    }
    let text = c
        .fields
        .iter()
        .map(|(k, v)| match (k, v) {
            (Node::Str(k), Node::Str(v)) if v.is_empty() && r.chance(1, 2) => url_field(r, k),
            (Node::Str(k), Node::Str(v)) => format!("{}={}", url_field(r, k), url_field(r, v)),
            _ => unreachable!(),
        })
        .collect::<Vec<_>>()
        .join(if r.chance(1, 8) { "&&" } else { "&" });
    m.note(|| format!("{} {}: {text}", c.ids, c.secrets));
    judge(m, &c, "urlencoded", serde_urlencoded::from_str::<Credentials>(&text))?;
    judge(m, &c, "urlencoded bytes", serde_urlencoded::from_bytes::<Credentials<Box<str>>>(text.as_bytes()))?;
    judge(m, &c, "urlencoded reader", serde_urlencoded::from_reader::<Credentials, _>(text.as_bytes()))?;
    judge(m, &c, "urlencoded Cow", serde_urlencoded::from_str::<Credentials<Cow<str>>>(&text))?;
    let n = c.fields.iter().filter(|(k, _)| *k == Node::Str("oauth_callback_confirmed".into())).count();
    if n <= 1 {
        judge(m, &c, "urlencoded, flattened", serde_urlencoded::from_str::<Flat<String>>(&text).map(|f| {
            assert_eq!(f.oauth_callback_confirmed.is_some(), n == 1);
            f.inner
        }))?;
    }
    m.seen(text.as_bytes());
    m.sample(|| clip(&text));
    Ok(())
}

fn c15_toml(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let valid = r.chance(3, 5);
    let c = case(r, valid, false);
    let mut text = String::new();
    for (k, v) in &c.fields {
        let (Node::Str(k), Node::Str(v)) = (k, v) else {
            if let (Node::Str(k), v @ (Node::Bool(_) | Node::Seq(_))) = (k, v) {
                let v = if let Node::Bool(b) = v { b.to_string() } else { "[1, [\"oauth_token\"], {oauth_token = 'x'}]".into() };
                writeln!(text, "{} = {v}", toml_str(k)).unwrap();
            }
            continue;
        };
        writeln!(text, "{} = {}", toml_str(k), toml_str(v)).unwrap();
    }
    m.note(|| text.clone());
    judge(m, &c, "toml", toml::from_str::<Credentials>(&text).map_err(|e| e.to_string()))?;
    judge(m, &c, "toml, flattened", toml::from_str::<Flat<String>>(&text).map(|f| f.inner).map_err(|e| e.to_string()))?;
    if valid {
        let back = toml::to_string(&Credentials::new(&c.id, &c.secret)).map_err(|e| format!("toml: {e}"))?;
        judge(m, &c, "toml, back", toml::from_str::<Credentials>(&back).map_err(|e| e.to_string()))?;
    }
    m.seen(text.as_bytes());
    Ok(())
}

fn toml_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04X}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---- serialization

/// Records which fields are written.
struct RecFields {
    fields: Vec<(String, String)>,
    declared: Option<usize>,
    ends: usize,
    fail_at: usize,
}

struct Rec<'a>(&'a RefCell<RecFields>);
struct StrOnly<'a>(PhantomData<&'a ()>);

impl<'a> Rec<'a> {
    fn put<T: ?Sized + Serialize>(&mut self, key: &str, v: &T) -> Result<(), Error> {
        let mut r = self.0.borrow_mut();
        if r.fields.len() == r.fail_at {
            r.fields.push((String::new(), String::new()));
            return Err(Error("full".into()));
        }
        let v = v.serialize(StrOnly(PhantomData))?;
        r.fields.push((key.to_owned(), v));
        Ok(())
    }
}

impl<'a> ser::SerializeStruct for Rec<'a> {
    type Ok = u64;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T) -> Result<(), Error> {
        self.put(key, v)
    }
    fn end(self) -> Result<u64, Error> {
        let mut r = self.0.borrow_mut();
        r.ends += 1;
        if r.fields.len() == r.fail_at {
            return Err(Error("full".into()));
        }
        Ok(0xfeed)
    }
}

impl<'a> ser::SerializeMap for Rec<'a> {
    type Ok = u64;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Error> {
        Err(Error("key alone".into()))
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Error> {
        Err(Error("value alone".into()))
    }
    fn serialize_entry<K: ?Sized + Serialize, V: ?Sized + Serialize>(&mut self, k: &K, v: &V) -> Result<(), Error> {
        let k = k.serialize(StrOnly(PhantomData))?;
        self.put(&k, v)
    }
    fn end(self) -> Result<u64, Error> {
        ser::SerializeStruct::end(self)
    }
}

macro_rules! unsupported {
    ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {$(
        fn $f(self, $($a: $t),*) -> Result<$r, Error> {
            $(let _ = $a;)*
            Err(Error(concat!("unexpected ", stringify!($f)).into()))
        }
    )*};
}

macro_rules! common {
    ($ok:ty) => {
        unsupported! {
            serialize_bool(v: bool) -> $ok;
            serialize_i8(v: i8) -> $ok;
            serialize_i16(v: i16) -> $ok;
            serialize_i32(v: i32) -> $ok;
            serialize_i64(v: i64) -> $ok;
            serialize_u8(v: u8) -> $ok;
            serialize_u16(v: u16) -> $ok;
            serialize_u32(v: u32) -> $ok;
            serialize_u64(v: u64) -> $ok;
            serialize_f32(v: f32) -> $ok;
            serialize_f64(v: f64) -> $ok;
            serialize_char(v: char) -> $ok;
            serialize_bytes(v: &[u8]) -> $ok;
            serialize_none() -> $ok;
            serialize_unit() -> $ok;
            serialize_unit_struct(n: &'static str) -> $ok;
            serialize_unit_variant(n: &'static str, i: u32, v: &'static str) -> $ok;
            serialize_seq(n: Option<usize>) -> Self::SerializeSeq;
            serialize_tuple(n: usize) -> Self::SerializeTuple;
            serialize_tuple_struct(n: &'static str, l: usize) -> Self::SerializeTupleStruct;
            serialize_tuple_variant(n: &'static str, i: u32, v: &'static str, l: usize) -> Self::SerializeTupleVariant;
            serialize_struct_variant(n: &'static str, i: u32, v: &'static str, l: usize) -> Self::SerializeStructVariant;
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<$ok, Error> {
            Err(Error("unexpected some".into()))
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<$ok, Error> {
            Err(Error("unexpected newtype".into()))
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<$ok, Error> {
            Err(Error("unexpected newtype".into()))
        }
    };
}

impl<'a> ser::Serializer for Rec<'a> {
    type Ok = u64;
    type Error = Error;
    type SerializeSeq = ser::Impossible<u64, Error>;
    type SerializeTuple = ser::Impossible<u64, Error>;
    type SerializeTupleStruct = ser::Impossible<u64, Error>;
    type SerializeTupleVariant = ser::Impossible<u64, Error>;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = ser::Impossible<u64, Error>;
    common!(u64);
    fn serialize_str(self, _: &str) -> Result<u64, Error> {
        Err(Error("unexpected str".into()))
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, Error> {
        self.0.borrow_mut().declared = Some(n);
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Error> {
        self.0.borrow_mut().declared = n;
        Ok(self)
    }
}

impl<'a> ser::Serializer for StrOnly<'a> {
    type Ok = String;
    type Error = Error;
    type SerializeSeq = ser::Impossible<String, Error>;
    type SerializeTuple = ser::Impossible<String, Error>;
    type SerializeTupleStruct = ser::Impossible<String, Error>;
    type SerializeTupleVariant = ser::Impossible<String, Error>;
    type SerializeMap = ser::Impossible<String, Error>;
    type SerializeStruct = ser::Impossible<String, Error>;
    type SerializeStructVariant = ser::Impossible<String, Error>;
    common!(String);
    fn serialize_str(self, s: &str) -> Result<String, Error> {
        Ok(s.to_owned())
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
        Err(Error("unexpected struct".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> {
        Err(Error("unexpected map".into()))
    }
}

#[derive(Serialize)]
struct FlatSer<'a, T> {
    before: u32,
    #[serde(flatten)]
    c: &'a Credentials<T>,
    oauth_callback_confirmed: bool,
}

fn two_fields(v: &serde_json::Value, id: &str, secret: &str, extra: usize, what: &str) -> Res {
    let o = v.as_object().ok_or_else(|| format!("{what}: not an object: {v}"))?;
    ensure_eq!(o.get(ID).and_then(|v| v.as_str()), Some(id), "{what}: {ID}");
    ensure_eq!(o.get(SECRET).and_then(|v| v.as_str()), Some(secret), "{what}: {SECRET}");
    ensure_eq!(o.len(), 2 + extra, "{what}: number of fields of {v}");
    Ok(())
}

fn c15_serialize(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let (id, secret) = (gen::text(r), gen::secret(r));
    m.note(|| format!("{id:?} {secret:?}"));
    let c = Credentials::new(id.clone(), secret.clone());
    let case = Case { id: id.clone(), secret: secret.clone(), ids: 1, secrets: 1, fields: vec![] };
    for fail_at in 0..4 {
        let rec = RefCell::new(RecFields { fields: vec![], declared: None, ends: 0, fail_at });
        let got = c.serialize(Rec(&rec));
        let rec = rec.into_inner();
        if fail_at <= 2 {
            ensure_eq!(got, Err(Error("full".into())), "an error of the format at {fail_at}");
            ensure!(rec.fields.len() <= fail_at + 1 && (fail_at == 2 || rec.ends == 0), "serialization went on after an error");
        } else {
            ensure_eq!(got, Ok(0xfeed), "result of serialize");
            let mut f = rec.fields.clone();
            f.sort();
            ensure_eq!(f, vec![(ID.to_owned(), id.clone()), (SECRET.to_owned(), secret.clone())], "fields");
            ensure_eq!((rec.declared.unwrap_or(2), rec.ends), (2, 1), "declared number of fields, and ends");
        }
    }
    let what = "to_string";
    let text = serde_json::to_string(&c).map_err(|e| e.to_string())?;
    two_fields(&serde_json::from_str(&text).map_err(|e| e.to_string())?, &id, &secret, 0, what)?;
    judge(m, &case, "round trip", serde_json::from_str::<Credentials>(&text))?;
    judge(m, &case, "round trip, pretty", serde_json::from_str::<Credentials>(&serde_json::to_string_pretty(&c.as_ref()).map_err(|e| e.to_string())?))?;
    two_fields(&serde_json::to_value(c.as_ref()).map_err(|e| e.to_string())?, &id, &secret, 0, "to_value")?;
    two_fields(&serde_json::to_value(c.clone().map(Box::<str>::from)).map_err(|e| e.to_string())?, &id, &secret, 0, "to_value")?;
    let flat = FlatSer { before: 1, c: &c, oauth_callback_confirmed: true };
    let v = serde_json::to_value(&flat).map_err(|e| e.to_string())?;
    two_fields(&v, &id, &secret, 2, "flattened")?;
    judge(m, &case, "round trip, flattened", serde_json::from_str::<Flat<String>>(&serde_json::to_string(&flat).map_err(|e| e.to_string())?).map(|f| f.inner))?;
    for (n, extra) in [(serde_urlencoded::to_string(&c), &[][..]), (serde_urlencoded::to_string(&flat), &["before", "oauth_callback_confirmed"])] {
        let text = n.map_err(|e| e.to_string())?;
        let keys: std::collections::BTreeSet<&str> = text.split('&').map(|p| p.split('=').next().unwrap()).collect();
        let want: std::collections::BTreeSet<&str> = [ID, SECRET].iter().copied().chain(extra.iter().copied()).collect();
        ensure_eq!(keys, want, "urlencoded fields of {text}");
        ensure_eq!(text.split('&').count(), want.len(), "urlencoded fields of {text}");
        judge(m, &case, "urlencoded round trip", serde_urlencoded::from_str::<Credentials>(&text))?;
    }
    // Under other names, as documented.
    let text = serde_json::to_string(&HelperRef(c.as_ref())).map_err(|e| e.to_string())?;
    let v: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    ensure_eq!(v, serde_json::json!({"client_identifier": id, "client_secret": secret}), "remote definition");
    judge(m, &case, "remote definition", serde_json::from_str::<Helper>(&text).map(|h| h.0))?;
    // Other types
    let n = Credentials { identifier: r.u64(), secret: r.u64() };
    let back: Credentials<u64> = serde_json::from_str(&serde_json::to_string(&n).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    ensure_eq!((back.identifier, back.secret), (n.identifier, n.secret), "numbers");
    let d = de::value::MapDeserializer::<_, de::value::Error>::new([(ID, 1u8), (SECRET, 2u8)].into_iter());
    let back = Credentials::<u8>::deserialize(d).map_err(|e| e.to_string())?;
    ensure_eq!((back.identifier, back.secret), (1, 2), "numbers");
    m.seen(text.as_bytes());
    m.sample(|| text.clone());
    Ok(())
}

static PROPS: &[Prop] = &[
    Prop {
        id: "C14",
        rule: "A case counts by its four parts, chain of operations or signed input.",
        families: &[fam("parts", 4000, 400_000, c14_parts), fam("map", 4000, 400_000, c14_map), fam("chain", 4000, 400_000, c14_chain), fam("sign", 1500, 150_000, c14_sign)],
    },
    Prop {
        id: "C15",
        rule: "A case counts by its text or value: the two fields zero to three times each, in random order among other fields.",
        families: &[
            fam("json", 4000, 400_000, c15_json),
            fam("ill", 2000, 200_000, c15_ill),
            fam("binary", 2000, 150_000, c15_binary),
            fam("urlencoded", 4000, 400_000, c15_urlencoded),
            fam("toml", 2000, 150_000, c15_toml),
            fam("serialize", 3000, 300_000, c15_serialize),
        ],
    },
];

fn main() {
    drive::main(PROPS);
}
