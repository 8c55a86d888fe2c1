//! Judging derived requests, and the functions which generated declarations refer to.

use std::fmt::{self, Debug, Display, Formatter, Write};
use std::num::NonZeroU64;

use oauth::{Builder, Credentials, Request, HMAC_SHA1, PLAINTEXT};
use oracle::codec::enc;
use oracle::gen::How;
pub use oracle::gen::{any_char, val, Param, Val};
use oracle::{ensure, ensure_eq, rfc, Mon, Res};

use crate::monitors::{Call, RecSer};
use crate::requests::Manual;

/// One expected parameter; `text` is what the value writes.
pub fn param(key: &str, text: String, encoded: bool) -> Param {
    let plain = if encoded { oracle::codec::dec_canonical(&text).expect("canonical text") } else { text.clone() };
    Param { key: key.to_owned(), val: Val::Text(text, How::Whole), encoded, plain }
}

fn signed<R: Request>(r: &R) -> (String, String, String, String) {
    let mut b = Builder::<_, &str, &str>::new(Credentials::new("client", "secret"), HMAC_SHA1);
    b.nonce("nonce").timestamp(NonZeroU64::new(1)).version(true).callback("c").verifier("v").token(Credentials::new("t", "s"));
    let mut p = Builder::<_, &str, &str>::new(Credentials::new("client", "secret"), PLAINTEXT);
    p.nonce("nonce").timestamp(NonZeroU64::new(2));
    (b.authorize("GET", "http://example.com/", r), b.to_form("POST", "http://example.com/", r), p.to_query("PUT", "http://example.com/".to_owned(), r), oauth::to_form(r))
}

/// Compares a derived request with the equivalent hand-written one.
pub fn judge<R: Request>(got: &R, mut expected: Vec<Param>, m: &mut Mon) -> Res {
    expected.sort_by(|a, b| a.key.as_bytes().cmp(b.key.as_bytes()));
    let manual = Manual(expected);
    m.note(|| format!("expected {:?}", manual.0.iter().map(|p| (&p.key, &p.val, p.encoded)).collect::<Vec<_>>()));
    let a = got.serialize(RecSer::new(7));
    let b = manual.serialize(RecSer::new(7));
    for w in a.calls.windows(2) {
        let key = |c: &Call| match c {
            Call::Raw(k, _) | Call::Encoded(k, _) => Some(k.clone()),
            Call::Proto(i) => Some(oracle::gen::SIGNED_PROTO[*i].to_owned()),
            Call::End => None,
        };
        if let (Some(x), Some(y)) = (key(&w[0]), key(&w[1])) {
            ensure!(x.as_bytes() < y.as_bytes(), "{y:?} follows {x:?}");
        }
    }
    ensure_eq!(a, b, "calls made by the derived request, against the declaration");
    let again = got.serialize(RecSer::new(8));
    ensure_eq!(again.calls, a.calls, "serialized again");
    let by_ref = Some(&got).serialize(RecSer::new(9));
    ensure_eq!(by_ref.calls, a.calls, "serialized through a reference");
    let (a, b) = (signed(got), signed(&manual));
    ensure_eq!(a, b, "messages of the derived request, against the hand-written one");
    let mut back = rfc::parse_form(&a.3)?;
    let mut want: Vec<(String, String)> = manual.0.iter().map(|p| (p.key.clone(), p.plain.clone())).collect();
    back.sort();
    want.sort();
    ensure_eq!(back, want, "form of the derived request");
    m.count("parameters", manual.0.len() as u64);
    m.seen(a.3.as_bytes());
    m.sample(|| a.3.clone());
    Ok(())
}

// ---- formatting functions

pub fn angle<T: Display + ?Sized>(x: &T, f: &mut Formatter<'_>) -> fmt::Result {
    write!(f, "<{}", x)?;
    f.write_char('>')
}

pub fn encoded<T: Display + ?Sized>(x: &T, f: &mut Formatter<'_>) -> fmt::Result {
    f.write_str(&enc(&x.to_string()))
}

pub fn reversed(x: &str, f: &mut Formatter<'_>) -> fmt::Result {
    x.chars().rev().try_for_each(|c| f.write_char(c))
}

pub fn hex(x: &[u8], f: &mut Formatter<'_>) -> fmt::Result {
    x.iter().try_for_each(|b| write!(f, "{:02x}", b))
}

pub fn ignored<T: ?Sized>(_: &T, f: &mut Formatter<'_>) -> fmt::Result {
    f.write_str("ignored & gone")
}

pub fn nothing<T: ?Sized>(_: &T, _: &mut Formatter<'_>) -> fmt::Result {
    Ok(())
}

pub const POINTER: fn(&u64, &mut Formatter<'_>) -> fmt::Result = double;

fn double(x: &u64, f: &mut Formatter<'_>) -> fmt::Result {
    write!(f, "{} {}", x, x)
}

pub struct Assoc;
impl Assoc {
    pub fn show<T: Debug>(x: &T, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", x)
    }
    pub fn odd(x: &u64) -> bool {
        x % 2 == 1
    }
}

/// Text of a value formatted by a function.
pub fn with<T: ?Sized, F: Fn(&T, &mut Formatter<'_>) -> fmt::Result>(x: &T, f: F) -> String {
    struct W<'a, T: ?Sized, F>(&'a T, F);
    impl<'a, T: ?Sized, F: Fn(&T, &mut Formatter<'_>) -> fmt::Result> Display for W<'a, T, F> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            (self.1)(self.0, f)
        }
    }
    W(x, f).to_string()
}

// ---- predicates

pub fn always<T: ?Sized>(_: &T) -> bool {
    true
}

pub fn never<T: ?Sized>(_: &T) -> bool {
    false
}

pub fn short<T: Display + ?Sized>(x: &T) -> bool {
    x.to_string().len() < 4
}

pub fn negative(x: &i32) -> bool {
    *x < 0
}

pub const ODD: fn(&u64) -> bool = Assoc::odd;

// ---- types

#[derive(Clone, Copy, Debug)]
pub struct Arr<const N: usize>(pub [u8; N]);

impl<const N: usize> Display for Arr<N> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        hex(&self.0, f)
    }
}

/// Neither `Display` nor `Debug`.
pub struct Opaque(pub u8);

/// A type of the same name as the standard one.
#[derive(Clone, Debug)]
pub struct OwnOption<T>(pub T);

impl<T: Display> Display for OwnOption<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "own {}", self.0)
    }
}

pub type Maybe<T> = Option<T>;

impl<T> OwnOption<T> {
    /// Not called by a derived request: `OwnOption` is not `Option`.
    pub fn as_ref(&self) -> Option<&T> {
        None
    }
}

/// A trait with an associated type.
pub trait Has {
    type A;
}

#[derive(Clone, Copy, Debug)]
pub struct HasU64;

impl Has for HasU64 {
    type A = u64;
}

impl Display for HasU64 {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str("has")
    }
}

/// Other names of the library.
pub mod again {
    pub extern crate oauth as inner;
    pub use oauth as used;
}

// ---- values

pub fn text(r: &mut oracle::Rng) -> String {
    oracle::gen::text(r)
}

/// Text which is percent-encoded already.
pub fn canonical(r: &mut oracle::Rng) -> String {
    enc(&oracle::gen::text(r))
}

/// A type of the name of `Option`, which a path tells apart.
pub mod own {
    use std::fmt::{self, Display, Formatter};

    pub struct Option<T>(pub T);

    impl<T: Display> Display for Option<T> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            write!(f, "own {}", self.0)
        }
    }
}
