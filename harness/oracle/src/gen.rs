//! Generators of hostile and realistic inputs.

use std::cell::{Cell, RefCell};
use std::fmt::{self, Display, Formatter, Write};
use std::sync::OnceLock;

use crate::codec::enc;
use crate::rng::Rng;

pub const SIGNED_PROTO: [&str; 8] = [
    "oauth_callback",
    "oauth_consumer_key",
    "oauth_nonce",
    "oauth_signature_method",
    "oauth_timestamp",
    "oauth_token",
    "oauth_verifier",
    "oauth_version",
];

pub fn is_proto(k: &str) -> bool {
    k == "oauth_signature" || SIGNED_PROTO.contains(&k)
}

const NASTY: &[&str] = &[
    "", "%", "%%", "%41", "%zz", "%2", "%E3%81", "a%20b", "a+b", " ", "  ", "&", "=", "a=b&c=d", "&oauth_token=x",
    "\",oauth_token=\"x", "\"", ",", ", ", "\\", "\\\"", "\r\nX: y", "\n", "\0", "\x7f", "\x1b[0m", "?", "#", "/", ":", ";", "@", "!", "$",
    "'", "(", ")", "*", "[", "]", "{", "}", "|", "^", "`", "<", ">", "~", "-", ".", "_", "ü", "é", "ß", "日本語", "🦀", "👩‍👩‍👧", "\u{202e}",
    "\u{feff}", "\u{10ffff}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "e\u{301}", "&amp;", "../../", "%00", "%25", "%2525", "%26",
    "oauth_signature", "OAuth ", "0", "-1", "1e9", "true", "NaN", "\u{0}\u{1}\u{2}", "{}", "{0}", "%s", "😀😀", "ＰＯＳＴ", "A", "z", "Z", "9",
];

/// Texts which programs and protocols like to treat specially.
const WORDS: &[&str] = &[
    "oob", "OOB", "null", "NULL", "none", "None", "nil", "undefined", "true", "false", "True", "yes", "no", "on", "off", "0", "1", "00", "01", "+1", "-0", "0x0", "1.0", "1.1", "2.0", "1.0a", "inf", "nan", "NaN",
    "GET", "POST", "PUT", "HEAD", "get", "Get", "OAuth", "oauth", "OAuth2", "Bearer", "Basic", "realm", "realm=", "oauth_token", "oauth_token_secret", "oauth_callback", "oauth_nonce", "oauth_timestamp", "oauth_version", "oauth_verifier",
    "oauth_signature", "oauth_consumer_key", "oauth_signature_method", "oauth_callback_confirmed", "oauth_body_hash", "HMAC-SHA1", "HMAC-SHA256", "PLAINTEXT", "RSA-SHA1", "none ", " none", "key", "secret", "token", "client", "test", "example",
    "a", "b", "c", "x", "foo", "bar", "status", "localhost", "http", "https", "http://", "https://", "http://localhost/", "https://example.com/callback", "urn:ietf:wg:oauth:2.0:oob", "/", "//", ".", "..", "*", "**", "default", "hidden", "<hidden>", "[]", "{}", "\"\"", "''", "()",
    "None", "Some", "Some(\"a\")", "Ok", "undefined ", "constructor", "\t", "\r", "\r\n", "\u{a0}", "\u{3000}", "\u{200b}", "\u{2028}", "K", "ſ", "ı", "İ", "ﬀ", "Ａ", "１", "٣", "½", "Ω",
];

const UNRES: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~";

pub fn any_char(r: &mut Rng) -> char {
    match r.below(10) {
        0..=2 => UNRES[r.below(UNRES.len())] as char,
        3..=5 => r.below(128) as u8 as char,
        6 => char::from_u32(0x80 + r.below(0x80) as u32).unwrap(),
        7 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap(),
        8 => loop {
            if let Some(c) = char::from_u32(0x800 + r.below(0xf800) as u32) {
                break c;
            }
        },
        _ => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap_or('𐀀'),
    }
}

fn length(r: &mut Rng) -> usize {
    match r.below(40) {
        0..=19 => r.below(12),
        20..=31 => r.below(40),
        32..=36 => r.range(40, 140),
        37..=38 => *r.pick(&[19, 20, 21, 31, 32, 33, 61, 62, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 511, 512, 513]),
        _ => r.range(500, 5000),
    }
}

thread_local! {
    /// How many very large texts or lists the case at hand may still get.
    static BIG: Cell<u32> = const { Cell::new(0) };
    /// Texts which the case at hand has had already.
    static RECENT: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Starts a case, which gets up to `n` very large inputs.
pub fn start(n: u32) {
    BIG.set(n);
    RECENT.with_borrow_mut(Vec::clear);
}

fn remember(s: &str) {
    if s.len() <= 400 {
        RECENT.with_borrow_mut(|v| {
            if v.len() >= 12 {
                v.remove(0);
            }
            v.push(s.to_owned());
        });
    }
}

/// A text that the case has had already, or one like it.
fn again(r: &mut Rng) -> Option<String> {
    let s = RECENT.with_borrow(|v| if v.is_empty() { None } else { Some(v[r.below(v.len())].clone()) })?;
    Some(match r.below(8) {
        0..=4 => s,
        5 => {
            let mut s = s;
            s.pop();
            s
        }
        6 => s.clone() + &s,
        _ => {
            let mut s = s;
            s.push(any_char(r));
            s
        }
    })
}

fn take_big(r: &mut Rng) -> bool {
    let n = BIG.get();
    if n == 0 || !r.chance(1, 9) {
        return false;
    }
    BIG.set(n - 1);
    true
}

/// The length of text up to which it may be written character by character.
const MANY_PIECES: usize = 4200;

/// Kilobytes of text: long runs, and things that happen to lie across a power of two.
fn big_text(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => r.range(5_000, 70_000),
        1 => r.range(256, 10_000),
        _ => *r.pick(&[256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536]) + r.below(5) - 2,
    };
    let mut s = String::with_capacity(n + 40);
    // Comparing displayed values takes time quadratic in the number of pieces they are written in.
    let n_mixed = if n > MANY_PIECES { r.range(256, MANY_PIECES) } else { n };
    match r.below(4) {
        // one long run
        0 | 1 => {
            let c = if r.chance(2, 3) { UNRES[r.below(UNRES.len())] as char } else { any_char(r) };
            let n = if enc(&c.to_string()).len() == 1 { n } else { n_mixed };
            while s.len() < n {
                s.push(c);
            }
        }
        // unreserved text with a few other characters
        2 => {
            while s.len() < n {
                s.push(if r.chance(1, 1000) { any_char(r) } else { UNRES[r.below(UNRES.len())] as char });
            }
        }
        _ => {
            while s.len() < n_mixed {
                s.push(any_char(r));
            }
        }
    }
    if r.chance(1, 2) {
        s.push_str(*r.pick(NASTY));
        for _ in 0..r.below(20) {
            s.push(any_char(r));
        }
    }
    s
}

/// Arbitrary text.
pub fn text(r: &mut Rng) -> String {
    if take_big(r) {
        return big_text(r);
    }
    if r.chance(1, 14) {
        if let Some(s) = again(r) {
            return s;
        }
    }
    let s = fresh_text(r);
    remember(&s);
    s
}

fn fresh_text(r: &mut Rng) -> String {
    match r.below(13) {
        0 => String::new(),
        12 => (*r.pick(WORDS)).to_owned(),
        1 | 2 => (*r.pick(NASTY)).to_owned(),
        3 => {
            let n = r.range(2, 5);
            (0..n).map(|_| *r.pick(NASTY)).collect()
        }
        4 | 5 => {
            let n = length(r);
            (0..n).map(|_| UNRES[r.below(UNRES.len())] as char).collect()
        }
        6 => {
            let n = length(r);
            (0..n).map(|_| (0x20 + r.below(0x5f) as u8) as char).collect()
        }
        7 => {
            // Runs of one class, to cross the "write as much as possible" paths.
            let mut s = String::new();
            for _ in 0..r.range(1, 6) {
                let c = any_char(r);
                for _ in 0..r.range(1, 9) {
                    s.push(c);
                }
            }
            s
        }
        8 => enc(&fresh_text(r)),
        _ => {
            let n = length(r);
            (0..n).map(|_| any_char(r)).collect()
        }
    }
}

/// A secret: like `text`, with encoded lengths around the SHA-1 block size overrepresented.
pub fn secret(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        let want = r.range(24, 70);
        let mut s = String::new();
        loop {
            let c = if r.chance(1, 4) { any_char(r) } else { UNRES[r.below(UNRES.len())] as char };
            let l = enc(&s).len() + enc(&c.to_string()).len();
            if l > want {
                break;
            }
            s.push(c);
            if l == want {
                break;
            }
        }
        remember(&s);
        s
    } else {
        text(r)
    }
}

const EDGE_KEYS: &[&str] = &[
    "oauth", "oauth_", "oauth-", "oauth.", "oauth~", "oauthz", "oauth0", "Oauth_token", "OAUTH_TOKEN", "oautg", "oauth_a", "oauth_b", "oauth_c", "oauth_callbac",
    "oauth_callbacj", "oauth_callback-", "oauth_callback_", "oauth_callback_confirmed", "oauth_callback0", "oauth_callbacl", "oauth_callbackz", "oauth_consumer_ke",
    "oauth_consumer_key0", "oauth_consumer_key_", "oauth_consumer_kez", "oauth_consumer_secret", "oauth_d", "oauth_m", "oauth_n", "oauth_nonc", "oauth_nonce_",
    "oauth_nonce0", "oauth_noncf", "oauth_o", "oauth_prefix", "oauth_s", "oauth_session_handle", "oauth_signature_", "oauth_signature_metho", "oauth_signature_method_",
    "oauth_signature_method0", "oauth_signatur", "oauth_signaturf", "oauth_t", "oauth_timestam", "oauth_timestamp_", "oauth_timestamp0", "oauth_timestamq", "oauth_toke",
    "oauth_token_", "oauth_token_secret", "oauth_token0", "oauth_tokem", "oauth_tokeo", "oauth_u", "oauth_v", "oauth_verifie", "oauth_verifier_", "oauth_verifier0", "oauth_verifies",
    "oauth_versio", "oauth_version_", "oauth_version0", "oauth_versioo", "oauth_versiom", "oauth_verz", "oauth_w", "oauth_z", "oauth_~", "oauth_0", "oauth_A", "realm", "a", "A", "z", "Z", "0", "~", "-",
    ".", "_", "file", "size", "status", "include_entities", "b", "aa", "ab", "a-", "a.", "a_", "a~", "a0", "foo", "bar", "q", "p", "n", "o", "oa", "oz",
];

/// A URI-safe, non-protocol parameter key.
pub fn key(r: &mut Rng) -> String {
    if r.chance(1, 25) {
        if let Some(k) = again(r) {
            if !is_proto(&k) && k.bytes().all(|b| UNRES.contains(&b)) {
                return k;
            }
        }
    }
    let k = match r.below(8) {
        _ if take_big(r) => {
            let n = r.range(250, 10_000);
            (0..n).map(|_| UNRES[r.below(UNRES.len())] as char).collect()
        }
        0..=2 => (*r.pick(EDGE_KEYS)).to_owned(),
        3 => {
            // mutate a protocol name
            let mut b = r.pick(&SIGNED_PROTO).as_bytes().to_vec();
            match r.below(4) {
                0 => {
                    let n = r.range(1, b.len());
                    b.truncate(n)
                }
                1 => b.push(UNRES[r.below(UNRES.len())]),
                2 => {
                    let i = r.below(b.len());
                    b[i] = UNRES[r.below(UNRES.len())];
                }
                _ => {
                    let i = r.below(b.len());
                    b.insert(i, UNRES[r.below(UNRES.len())]);
                }
            }
            String::from_utf8(b).unwrap()
        }
        4 | 5 => {
            let n = r.range(1, 3);
            (0..n).map(|_| UNRES[r.below(UNRES.len())] as char).collect()
        }
        6 => {
            if r.chance(1, 6) {
                let w = *r.pick(WORDS);
                if !w.is_empty() && !is_proto(w) && w != "oauth_signature" && w.bytes().all(|b| UNRES.contains(&b)) {
                    return w.to_owned();
                }
            }
            let digits = r.chance(1, 12);
            let n = r.range(1, 30);
            (0..n).map(|_| UNRES[if digits { 52 + r.below(10) } else { r.below(UNRES.len()) }] as char).collect::<String>()
        }
        _ => {
            if r.chance(1, 12) {
                String::new()
            } else {
                let n = length(r).max(1);
                (0..n).map(|_| UNRES[r.below(UNRES.len())] as char).collect()
            }
        }
    };
    let k = if is_proto(&k) { format!("{k}_x") } else { k };
    remember(&k);
    k
}

/// Base string URIs, all without a query part.
pub fn uri(r: &mut Rng) -> String {
    const URIS: &[&str] = &[
        "http://example.com/", "https://example.com/request", "http://example.com/r%20v/X", "https://www.example.net:8080/", "https://api.twitter.com/1.1/statuses/update.json",
        "http://EXAMPLE.com/path;a=b", "https://例え.jp/道", "http://[::1]:8080/x", "https://example.com/~u/a.b-c_d", "http://127.0.0.1:8080/echo", "https://u@h/%E3%81%82",
        "https://example.com/a+b", "https://example.com/a&b=c", "https://example.com/%2F", "", "x",
    ];
    match r.below(6) {
        0..=3 => (*r.pick(URIS)).to_owned(),
        4 => format!("https://example.com/{}", text(r).replace('?', "")),
        _ => text(r).replace('?', ""),
    }
}

pub fn method(r: &mut Rng) -> String {
    const M: &[&str] = &["GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "CONNECT", "PATCH", "TRACE", "PROPFIND", "M-SEARCH", "get", "Patch", "X!#$%&'*+-.^_`|~9", "", "é\u{1F600}x\u{FFFD}"];
    match r.below(13) {
        0..=8 => (*r.pick(&M[..9])).to_owned(),
        9 => (*r.pick(M)).to_owned(),
        // The builders take any text.
        10 => text(r),
        _ => {
            const TCHAR: &[u8] = b"!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
            let most = *r.pick(&[6, 12, 24, 70, 150]);
            (0..r.range(1, most)).map(|_| TCHAR[r.below(TCHAR.len())] as char).collect()
        }
    }
}

/// How a value writes its text.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum How {
    Whole,
    Chars,
    /// Pieces derived from the given seed, written by a mixture of `write_str`, `write_char`,
    /// `write_fmt` and `pad`, with empty writes in between.
    Pieces(u64),
    /// Prints something else if any formatter flag is set.
    Flags,
}

/// A displayable value with a known text.
#[derive(Clone, Debug)]
pub enum Val {
    Text(String, How),
    I64(i64),
    U64(u64),
    U128(u128),
    F64(f64),
    Bool(bool),
    Char(char),
}

pub fn pieces(s: &str, seed: u64) -> Vec<&str> {
    let mut r = Rng::new(seed);
    let mut out = Vec::new();
    let mut rest = s;
    let avg = *r.pick(&[1usize, 2, 3, 8, 40]) * if s.len() > MANY_PIECES { 100 } else { 1 };
    while !rest.is_empty() {
        if r.chance(1, 6) {
            out.push("");
        }
        let n = r.range(1, avg * 2);
        let at = rest.char_indices().nth(n).map_or(rest.len(), |(i, _)| i);
        let (a, b) = rest.split_at(at);
        out.push(a);
        rest = b;
    }
    out
}

/// Run now and then while a value is being written, to see whether the one being signed and others
/// signed meanwhile in the same thread affect each other.
pub static MEANWHILE: OnceLock<fn(u64)> = OnceLock::new();

thread_local! {
    static BUSY: Cell<bool> = Cell::new(false);
}

fn meanwhile(seed: u64) {
    if let Some(f) = MEANWHILE.get() {
        if !BUSY.with(|b| b.replace(true)) {
            f(seed);
            BUSY.with(|b| b.set(false));
        }
    }
}

impl Display for Val {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self {
            Val::Text(s, How::Whole) => f.write_str(s),
            Val::Text(s, How::Chars) if s.len() > MANY_PIECES => pieces(s, 1).into_iter().try_for_each(|p| f.write_str(p)),
            Val::Text(s, How::Chars) => s.chars().try_for_each(|c| f.write_char(c)),
            Val::Text(s, How::Flags) => {
                if f.width().is_some() || f.precision().is_some() || f.alternate() || f.sign_plus() || f.sign_minus() || f.sign_aware_zero_pad() || f.align().is_some() || f.fill() != ' ' {
                    return f.write_str("formatted with non-default flags");
                }
                f.pad(s)
            }
            Val::Text(s, How::Pieces(seed)) => {
                let at = if seed >> 8 & 31 == 0 { (seed >> 16) as usize % 4 } else { usize::MAX };
                for (i, p) in pieces(s, *seed).into_iter().enumerate() {
                    if i == at {
                        meanwhile(*seed);
                    }
                    match (i as u64).wrapping_add(*seed) % 4 {
                        0 => f.write_str(p)?,
                        1 => write!(f, "{p}")?,
                        2 => f.pad(p)?,
                        _ if p.len() > 200 => f.write_str(p)?,
                        _ => p.chars().try_for_each(|c| f.write_char(c))?,
                    }
                }
                Ok(())
            }
            Val::I64(x) => Display::fmt(x, f),
            Val::U64(x) => Display::fmt(x, f),
            Val::U128(x) => Display::fmt(x, f),
            Val::F64(x) => Display::fmt(x, f),
            Val::Bool(x) => Display::fmt(x, f),
            Val::Char(x) => Display::fmt(x, f),
        }
    }
}

impl Val {
    pub fn text(&self) -> String {
        match self {
            Val::Text(s, _) => s.clone(),
            Val::I64(x) => x.to_string(),
            Val::U64(x) => x.to_string(),
            Val::U128(x) => x.to_string(),
            Val::F64(x) => x.to_string(),
            Val::Bool(x) => x.to_string(),
            Val::Char(x) => x.to_string(),
        }
    }
}

pub fn how(r: &mut Rng) -> How {
    match r.below(6) {
        0 => How::Whole,
        1 => How::Chars,
        2 => How::Flags,
        _ => How::Pieces(r.u64()),
    }
}

pub fn val(r: &mut Rng) -> Val {
    match r.below(12) {
        0 => Val::I64(*r.pick(&[0, -1, 1, i64::MIN, i64::MAX, 42, -1000000])),
        1 => Val::U64(r.u64() >> r.below(64)),
        2 => Val::F64(*r.pick(&[0.0, -0.0, 1.5, 1e300, -1e-7, f64::NAN, f64::INFINITY, f64::NEG_INFINITY])),
        3 => Val::Bool(r.chance(1, 2)),
        4 => Val::Char(any_char(r)),
        5 => Val::U128((r.u64() as u128) << 64 | r.u64() as u128),
        _ => {
            let s = text(r);
            Val::Text(s, how(r))
        }
    }
}

/// One request parameter. If `encoded`, the value's text is canonical percent-encoded text of
/// `plain`; otherwise the value's text is `plain`.
#[derive(Clone, Debug)]
pub struct Param {
    pub key: String,
    pub val: Val,
    pub encoded: bool,
    pub plain: String,
}

impl Param {
    pub fn raw(key: String, val: Val) -> Self {
        let plain = val.text();
        Param { key, val, encoded: false, plain }
    }

    pub fn random(r: &mut Rng, allow_encoded: bool) -> Self {
        let k = key(r);
        if allow_encoded && r.chance(1, 4) {
            let plain = text(r);
            let h = how(r);
            Param { key: k, val: Val::Text(enc(&plain), h), encoded: true, plain }
        } else {
            Param::raw(k, val(r))
        }
    }

    /// Sort order of RFC 5849 section 3.4.1.3.2.
    pub fn order(&self) -> (String, String) {
        (enc(&self.key), enc(&self.plain))
    }
}

pub fn params(r: &mut Rng, allow_encoded: bool) -> Vec<Param> {
    let many = take_big(r);
    let n = match r.below(20) {
        0..=2 => 0,
        3..=6 => 1,
        7..=15 => r.range(2, 6),
        16..=18 => r.range(7, 25),
        _ => r.range(26, 80),
    };
    let n = if many { *r.pick(&[81, 100, 128, 200, 255, 256, 257, 300, 511, 512, 513, 600]) } else { n };
    let mut v: Vec<Param> = (0..n).map(|_| Param::random(r, allow_encoded)).collect();
    if n >= 2 && r.chance(1, 2) {
        // duplicate keys, whose values need sorting in encoded form
        const VALS: &[&str] = &["", "0", "9", ":", "~", "é", "a", "a b", "a%20b", "A", "-", "/", "z", "aa", "a0", "a:", "a~", "a\u{e9}", "10", "2", "%", "{"];
        for _ in 0..r.range(1, 5) {
            let i = r.below(v.len());
            let k = v[i].key.clone();
            let t = if r.chance(1, 3) { v[r.below(v.len())].plain.clone() } else { (*r.pick(VALS)).to_owned() };
            let h = how(r);
            v.push(Param::raw(k, Val::Text(t, h)));
        }
    }
    if n >= 2 && r.chance(1, 5) {
        // keys which only differ at the end
        for _ in 0..r.range(1, 4) {
            let (i, j) = (r.below(v.len()), r.below(v.len()));
            let mut k = v[j].key.clone();
            if r.chance(1, 3) {
                k.pop();
            }
            if r.chance(2, 3) {
                k.push(UNRES[r.below(UNRES.len())] as char);
            }
            if !is_proto(&k) {
                v[i].key = k;
            }
        }
    }
    if many && r.chance(1, 3) {
        // few keys
        let ks: Vec<String> = (0..r.range(1, 4)).map(|_| key(r)).collect();
        for p in &mut v {
            p.key = ks[r.below(ks.len())].clone();
        }
    }
    r.shuffle(&mut v);
    v
}
