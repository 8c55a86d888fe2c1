//! C09 (percent-encoding), C10 (parameter lists), C24 (unsigned forms and queries), C25 (faults).

use std::borrow::Cow;
use std::cell::Cell;
use std::fmt::{self, Display, Formatter, Write};
use std::rc::Rc;
use std::sync::Arc;

use drive::codec::{self, enc};
use drive::gen::{self, How, Param, Val};
use drive::mon::{catch, fam, Prop};
use drive::monitors::*;
use drive::requests::*;
use drive::rfc;
use drive::spec::*;
use drive::{clip, ensure, ensure_eq, Mon, Res, Rng};
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::recorder::Recorder;
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::{Plaintext, Sign, SignatureMethod};
use oauth::{Credentials, ParameterList, Request, HMAC_SHA1, PLAINTEXT};

// --------------------------------------------------------------------------------------------- C09

/// The text fed to a signer, and the text transmitted, for one value.
struct Observed {
    base: String,
    form: String,
}

fn observe<V: Display>(values: &[V]) -> Result<Vec<Observed>, String> {
    let cfg = RecConfig { name: "X", use_nonce: true, use_timestamp: true, signature: String::new() };
    let sm = RecMin::new(cfg);
    let o = Options::new();
    let mut a = Authorizer::form_with_buf(String::new(), "GET", "", Credentials::new("", ""), None, &o, sm.clone());
    for v in values {
        a.serialize_parameter("k", v);
    }
    let form = a.end();
    let mut ev = sm.take().into_iter().filter_map(|e| if let Ev::Param(_, v) = e { Some(v) } else { None });
    let mut parts = form.split('&');
    let mut out = Vec::new();
    for _ in values {
        let (Some(base), Some(part)) = (ev.next(), parts.next()) else { return Err("parameters are missing".into()) };
        let Some(v) = part.strip_prefix("k=") else { return Err(format!("unexpected {part:?} in the form")) };
        out.push(Observed { base, form: v.to_owned() });
    }
    Ok(out)
}

fn check_encoding<V: Display>(m: &mut Mon, values: &[V], texts: &[String], what: &str) -> Res {
    for (o, t) in observe(values)?.into_iter().zip(texts) {
        let once = enc(t);
        ensure_eq!(o.form, once, "{what} {:?} as transmitted", clip(t));
        ensure_eq!(o.base, enc(&once), "{what} {:?} in the base string", clip(t));
    }
    m.count("values encoded once and twice", values.len() as u64);
    Ok(())
}

/// Every Unicode scalar value.
fn c09_scalars(_: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let lo = i as u32 * 1024;
    let cs: Vec<char> = (lo..lo + 1024).filter_map(char::from_u32).collect();
    if cs.is_empty() {
        return Ok(());
    }
    let texts: Vec<String> = cs.iter().map(|c| c.to_string()).collect();
    check_encoding(m, &cs, &texts, "char")?;
    check_encoding(m, &texts, &texts, "text")?;
    m.count("Unicode scalar values", cs.len() as u64);
    // as credentials, options, URI and secrets
    for chunk in cs.chunks(128) {
        let s: String = chunk.iter().collect();
        let mut spec = Spec { client: (s.clone(), s.clone()), token: Some((s.clone(), s.clone())), ..blank() };
        spec.callback = Some(s.clone());
        spec.verifier = Some(s.clone());
        spec.nonce = Some(s.clone());
        spec.uri = s.replace('?', "");
        let e = enc(&s);
        let cfg = RecConfig { name: "X", use_nonce: true, use_timestamp: true, signature: String::new() };
        let sm = RecFull::new(cfg);
        for t in TRANSPORTS {
            let (msg, _, _) = send(t, &spec, &(), sm.clone());
            let ev = sm.take();
            let uri = ev.iter().find_map(|e| if let Ev::Uri(u) = e { Some(u.clone()) } else { None });
            ensure_eq!(uri, Some(enc(&spec.uri)), "URI in the base string");
            for k in ["oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_token", "oauth_verifier"] {
                let v = ev.iter().find_map(|e| if let Ev::Proto(n, v) = e { Some(v.clone()).filter(|_| *n == k) } else { None });
                ensure_eq!(v, Some(enc(&e)), "{k} in the base string");
                let raw = if t == Transport::Header { format!("{k}=\"{e}\"") } else { format!("{k}={e}") };
                ensure!(msg.contains(&raw), "{k} is not percent-encoded exactly once in {:?}", clip(&msg));
            }
        }
        let sig = PLAINTEXT.sign_with(&s, Some(&s)).end();
        ensure_eq!(sig, format!("{}%26{}", enc(&e), enc(&e)), "PLAINTEXT signature of secrets {:?}", clip(&s));
    }
    m.seen(&lo.to_le_bytes());
    Ok(())
}

fn blank() -> Spec {
    Spec {
        method: "GET".into(),
        uri: "http://h/".into(),
        client: Default::default(),
        token: None,
        callback: None,
        verifier: None,
        nonce: Some("n".into()),
        timestamp: Some(1),
        version: false,
        params: Vec::new(),
    }
}

struct Split<'a>(&'a [&'a str], u8);

impl Display for Split<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        for s in self.0 {
            match self.1 {
                0 => f.write_str(s)?,
                1 => write!(f, "{s}")?,
                2 => f.pad(s)?,
                3 => write!(f, "{}{s}{}", "", "")?,
                _ => s.chars().try_for_each(|c| f.write_char(c))?,
            }
        }
        Ok(())
    }
}

/// All pairs of ASCII characters, with every split, alone and between others.
fn c09_pairs(_: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let a = char::from(i as u8);
    for b in 0..128u8 {
        let b = char::from(b);
        for (l, r) in [("", ""), ("z", ""), ("", "~"), ("é", "-"), ("ab", "é")] {
            let t = format!("{l}{a}{b}{r}");
            let cuts: Vec<usize> = t.char_indices().map(|(i, _)| i).chain([t.len()]).collect();
            let splits: Vec<Vec<&str>> = cuts.iter().map(|&c| vec![&t[..c], &t[c..]]).chain([vec![&*t], cuts.windows(2).map(|w| &t[w[0]..w[1]]).collect()]).collect();
            let vals: Vec<Split> = splits.iter().enumerate().map(|(n, s)| Split(s, (n as u8).wrapping_add(b as u8) % 5)).collect();
            check_encoding(m, &vals, &vec![t.clone(); vals.len()], "split")?;
        }
    }
    m.seen(&i.to_le_bytes());
    Ok(())
}

fn c09_how(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let t = gen::text(r);
    m.note(|| format!("{t:?}"));
    let mut vals: Vec<Val> = [How::Whole, How::Chars, How::Flags].into_iter().map(|h| Val::Text(t.clone(), h)).collect();
    for _ in 0..6 {
        vals.push(Val::Text(t.clone(), How::Pieces(r.u64())));
    }
    check_encoding(m, &vals, &vec![t.clone(); vals.len()], "text written in pieces")?;
    // all the string types
    let p = std::path::PathBuf::from(&t);
    let t1 = &t;
    let t2 = &t1;
    let d: Vec<Box<dyn Display + '_>> = vec![
        Box::new(t.clone()),
        Box::new(&*t),
        Box::new(&t2),
        Box::new(Box::<str>::from(&*t)),
        Box::new(Rc::<str>::from(&*t)),
        Box::new(Arc::<str>::from(&*t)),
        Box::new(Cow::Borrowed(&*t)),
        Box::new(Cow::<str>::Owned(t.clone())),
        Box::new(p.display()),
        Box::new(Sink::with(&t)),
        Box::new(Rc::new(Val::Text(t.clone(), How::Chars))),
    ];
    check_encoding(m, &d, &vec![t.clone(); d.len()], "string type")?;
    check_encoding(m, &[format_args!("{}", t)], &[t.clone()], "format_args")?;
    check_encoding(m, &[format_args!("{}{}{}", &t, t, 'é')], &[format!("{t}{t}é")], "format_args")?;
    check_encoding(m, &[format_args!("{t:?}")], &[format!("{t:?}")], "format_args")?;
    m.seen(t.as_bytes());
    m.sample(|| format!("{t:?} => {}", enc(&t)));
    Ok(())
}

fn c09_types(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let x = (r.u64() >> r.below(64)) as u128 | ((r.u64() as u128) << 64 >> r.below(64));
    macro_rules! chk {
        ($($e:expr),* $(,)?) => {$({
            let v = $e;
            let t = v.to_string();
            check_encoding(m, &[v], &[t], stringify!($e))?;
        })*}
    }
    let f = f64::from_bits(r.u64());
    chk!(
        x as u8, x as u16, x as u32, x as u64, x as usize, x, x as i8, x as i16, x as i32, x as i64, x as isize, x as i128, f, f as f32, -f, 1.0f64, 0.1f32, f64::MIN_POSITIVE,
        f64::NAN, f64::NEG_INFINITY, r.chance(1, 2), gen::any_char(r), i128::MIN, u128::MAX,
        std::net::Ipv4Addr::from(x as u32), std::net::Ipv6Addr::from(x), std::net::SocketAddr::from((std::net::Ipv6Addr::from(x), x as u16)),
        std::num::NonZeroU64::new(x as u64 | 1).unwrap(), std::num::Wrapping(x as i16), format!("{:e}", f), gen::val(r),
        std::str::from_utf8(&[0xff]).unwrap_err(), "x".parse::<i32>().unwrap_err(), (x as u8).escape_ascii(),
    );
    m.seen(&x.to_le_bytes());
    Ok(())
}

/// Pre-encoded values go through unchanged, and are encoded once in the base string.
fn c09_encoded(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let n = r.range(1, 4);
    let texts: Vec<String> = (0..n).map(|_| if r.chance(1, 2) { enc(&gen::text(r)) } else { gen::text(r).replace('&', "%26") }).collect();
    let hows: Vec<How> = (0..n).map(|_| gen::how(r)).collect();
    m.note(|| format!("{texts:?} {hows:?}"));
    let cfg = RecConfig { name: "X", use_nonce: true, use_timestamp: true, signature: String::new() };
    let sm = RecMin::new(cfg);
    let o = Options::new();
    let mut form = Authorizer::form("GET", "", Credentials::new("", ""), None, &o, sm.clone());
    let mut query = Authorizer::query("GET", String::new(), Credentials::new("", ""), None, &o, sm.clone());
    let mut header = Authorizer::authorization("GET", "", Credentials::new("", ""), None, &o, sm.clone());
    let mut plain = Urlencoder::form();
    for (t, h) in texts.iter().zip(&hows) {
        let v = Val::Text(t.clone(), h.clone());
        form.serialize_parameter_encoded("k", &v);
        query.serialize_parameter_encoded("k", &v);
        header.serialize_parameter_encoded("k", &v);
        plain.serialize_parameter_encoded("k", &v);
    }
    let want = texts.iter().map(|t| format!("k={t}")).collect::<Vec<_>>().join("&");
    ensure_eq!(plain.end(), want, "pre-encoded values in an unsigned form");
    ensure!(form.end().starts_with(&want), "pre-encoded values in a signed form");
    ensure!(query.end().starts_with(&format!("?{want}")), "pre-encoded values in a signed query");
    header.end();
    let ev: Vec<String> = sm.take().into_iter().filter_map(|e| if let Ev::Param(_, v) = e { Some(v) } else { None }).collect();
    let want: Vec<String> = texts.iter().flat_map(|t| [enc(t), enc(t), enc(t)]).collect();
    ensure_eq!(ev, want, "pre-encoded values in the base string");
    m.count("pre-encoded values", n as u64);
    m.seen(format!("{texts:?}").as_bytes());
    Ok(())
}

// --------------------------------------------------------------------------------------------- C10

#[derive(Clone, Debug)]
struct IdVal {
    val: Val,
    id: u32,
}

impl Display for IdVal {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.val.fmt(f)
    }
}

type IdPair = (String, IdVal);

fn order(p: &IdPair) -> (String, String) {
    (p.0.clone(), enc(&p.1.val.text()))
}

fn sorted(ps: &[&IdPair]) -> bool {
    ps.windows(2).all(|w| order(w[0]) <= order(w[1]))
}

/// All views of the list show the same, sorted sequence of exactly the model's pairs.
fn check_list<A, P>(m: &mut Mon, l: &ParameterList<String, IdVal, A, P>, model: &[IdPair]) -> Result<Vec<u32>, String>
where
    A: AsRef<[P]>,
    P: std::borrow::Borrow<IdPair>,
{
    let seq: Vec<&IdPair> = l.iter().collect();
    let ids: Vec<u32> = seq.iter().map(|p| p.1.id).collect();
    let slice: Vec<u32> = l.as_ref().iter().map(|p| p.borrow().1.id).collect();
    ensure_eq!(ids, slice, "iteration and slice view differ");
    if let Some(w) = seq.windows(2).find(|w| order(w[0]) > order(w[1])) {
        return Err(format!("not sorted: {:?} before {:?}", order(w[0]), order(w[1])));
    }
    let mut a = ids.clone();
    a.sort();
    let mut b: Vec<u32> = model.iter().map(|p| p.1.id).collect();
    b.sort();
    ensure_eq!(a, b, "the list does not hold exactly the given pairs");
    for p in &seq {
        let q = model.iter().find(|q| q.1.id == p.1.id).unwrap();
        ensure!(q.0 == p.0 && q.1.val.text() == p.1.val.text(), "pair {:?} became {:?}", q, p);
    }
    let calls: Vec<(String, String)> = l.serialize(RecSer::new(0)).calls.into_iter().filter_map(|c| if let Call::Raw(k, v) = c { Some((k, v)) } else { None }).collect();
    let want: Vec<(String, String)> = seq.iter().map(|p| (p.0.clone(), p.1.val.text())).collect();
    ensure_eq!(calls, want, "serialization and iteration differ");
    m.count("list states checked", 1);
    m.max("list length", ids.len() as u64);
    Ok(ids)
}

fn pairs(r: &mut Rng, n: usize, next: &mut u32) -> Vec<IdPair> {
    const V: &[&str] = &["", "0", "9", ":", "~", "é", "a", "a b", "a%20b", "A", "-", "/", "z", "aa", "a0", "a:", "a~", "aé", "10", "2", "%", "{", "语", "🦀", "\0"];
    let few = r.chance(1, 2);
    let keys: Vec<String> = (0..r.range(1, 4)).map(|_| gen::key(r)).collect();
    (0..n)
        .map(|_| {
            let k = if few { r.pick(&keys).clone() } else { gen::key(r) };
            let val = match r.below(3) {
                0 => gen::val(r),
                1 => Val::Text((*r.pick(V)).to_owned(), gen::how(r)),
                _ => Val::Text((0..r.below(4)).map(|_| *r.pick(V)).collect(), gen::how(r)),
            };
            *next += 1;
            (k, IdVal { val, id: *next })
        })
        .collect()
}

/// An iterator with a useless size hint.
struct Lying<I>(I);
impl<I: Iterator> Iterator for Lying<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

#[derive(Default, Clone, Debug)]
struct Rev {
    label: u32,
    list: Vec<IdPair>,
}
impl AsRef<[IdPair]> for Rev {
    fn as_ref(&self) -> &[IdPair] {
        &self.list
    }
}
impl AsMut<[IdPair]> for Rev {
    fn as_mut(&mut self) -> &mut [IdPair] {
        &mut self.list
    }
}
/// Puts new elements in front.
impl Extend<IdPair> for Rev {
    fn extend<I: IntoIterator<Item = IdPair>>(&mut self, it: I) {
        for p in it {
            self.list.insert(0, p);
        }
    }
}
impl FromIterator<IdPair> for Rev {
    fn from_iter<I: IntoIterator<Item = IdPair>>(it: I) -> Self {
        let mut r = Rev { label: 5, list: Vec::new() };
        r.extend(it);
        r
    }
}

fn some_len(r: &mut Rng) -> usize {
    match r.below(60) {
        0 => r.range(60, 300),
        1..=3 => r.below(70),
        _ => r.below(12),
    }
}

fn c10_history(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut next = 0;
    let n = some_len(r);
    let mut model = pairs(r, n, &mut next);
    let custom = r.chance(1, 3);
    let how = r.below(5);
    m.note(|| format!("start {how} {model:?}"));
    macro_rules! go {
        ($A:ty, $mk:expr, $inner:expr) => {{
            let mut l: ParameterList<String, IdVal, $A> = match how {
                0 => ParameterList::new($mk(model.clone())),
                1 => ParameterList::from($mk(model.clone())),
                2 => model.clone().into_iter().collect(),
                3 => Lying(model.clone().into_iter()).collect(),
                _ => {
                    let mut l = ParameterList::default();
                    l.extend(model.clone());
                    l
                }
            };
            check_list(m, &l, &model)?;
            for _ in 0..r.below(6) {
                match r.below(4) {
                    0 | 1 => {
                        let n = if m.thorough { r.below(40) } else { some_len(r) };
                        let add = pairs(r, n, &mut next);
                        m.note(|| format!("extend {add:?}"));
                        model.extend(add.iter().cloned());
                        if r.chance(1, 2) {
                            l.extend(add);
                        } else {
                            l.extend(Lying(add.into_iter()));
                        }
                    }
                    2 => l.extend(std::iter::empty()),
                    _ => {
                        // rebuild from its own container: nothing may change
                        let ids = check_list(m, &l, &model)?;
                        let a = l.into_inner();
                        ensure_eq!($inner(&a).iter().map(|p| p.1.id).collect::<Vec<_>>(), ids, "the recovered container differs");
                        match ParameterList::from_sorted(a) {
                            Some(x) => l = x,
                            None => return Err("a list's own sequence is not accepted as sorted".into()),
                        }
                        ensure_eq!(check_list(m, &l, &model)?, ids, "construction from a sorted list changed it");
                    }
                }
                check_list(m, &l, &model)?;
            }
            let ids = check_list(m, &l, &model)?;
            let form = oauth::to_form(&l);
            let parsed = rfc::parse_form(&form)?;
            let want: Vec<(String, String)> = l.iter().map(|p| (p.0.clone(), p.1.val.text())).collect();
            ensure_eq!(parsed, want, "the form differs from the list");
            let a = l.into_inner();
            ensure_eq!($inner(&a).iter().map(|p| p.1.id).collect::<Vec<_>>(), ids, "the recovered container differs");
            m.seen(form.as_bytes());
            m.sample(|| form);
        }};
    }
    if custom {
        go!(Rev, |list| Rev { label: 5, list }, |a: &Rev| a.list.clone());
    } else {
        go!(Vec<IdPair>, |v| v, |a: &Vec<IdPair>| a.clone());
    }
    Ok(())
}

fn c10_containers(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let mut next = 0;
    let model = pairs(r, 5, &mut next);
    m.note(|| format!("{} {model:?}", i % 9));
    match i % 9 {
        0 => {
            let a: [IdPair; 5] = model.clone().try_into().ok().unwrap();
            check_list(m, &ParameterList::new(a), &model)?;
        }
        1 => {
            check_list(m, &ParameterList::new(model.clone().into_boxed_slice()), &model)?;
        }
        2 => {
            let mut v = model.clone();
            let l = ParameterList::new(&mut v[..]);
            let ids = check_list(m, &l, &model)?;
            let s = l.into_inner();
            ensure_eq!(s.iter().map(|p| p.1.id).collect::<Vec<_>>(), ids, "the recovered container differs");
            ensure_eq!(v.iter().map(|p| p.1.id).collect::<Vec<_>>(), ids, "the borrowed slice differs");
        }
        3 => {
            let mut v = model.clone();
            check_list(m, &ParameterList::from(&mut v), &model)?;
        }
        4 => {
            let l: ParameterList<String, IdVal, Vec<Box<IdPair>>, Box<IdPair>> = model.iter().cloned().map(Box::new).collect();
            check_list(m, &l, &model)?;
        }
        5 => {
            let l: ParameterList<String, IdVal, Vec<&IdPair>, &IdPair> = model.iter().collect();
            check_list(m, &l, &model)?;
        }
        6 => {
            let mut l: ParameterList<String, IdVal, Vec<Arc<IdPair>>, Arc<IdPair>> = ParameterList::default();
            for p in &model {
                l.extend([Arc::new(p.clone())]);
            }
            check_list(m, &l, &model)?;
        }
        7 => {
            let l: ParameterList<String, IdVal, Box<[IdPair]>> = model.iter().cloned().collect();
            check_list(m, &l, &model)?;
        }
        _ => {
            let l = ParameterList::new(Rev { label: 9, list: model.clone() });
            check_list(m, &l, &model)?;
            ensure_eq!(l.into_inner().label, 9, "the container was replaced");
        }
    }
    m.count(&format!("container {}", i % 9), 1);
    m.seen(format!("{model:?}").as_bytes());
    Ok(())
}

fn c10_from_sorted(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut next = 0;
    let n = r.below(8);
    let mut ps = pairs(r, n, &mut next);
    match r.below(4) {
        0 => {}
        1 => ps.sort_by_cached_key(order),
        2 => {
            ps.sort_by_cached_key(order);
            if n >= 2 {
                let i = r.below(n - 1);
                ps.swap(i, i + 1);
            }
        }
        // sorted by raw value, which is not the right order
        _ => ps.sort_by_cached_key(|p| (p.0.clone(), p.1.val.text())),
    }
    m.note(|| format!("{ps:?}"));
    let want = sorted(&ps.iter().collect::<Vec<_>>());
    let ids: Vec<u32> = ps.iter().map(|p| p.1.id).collect();
    match ParameterList::from_sorted(&ps[..]) {
        Some(l) => {
            ensure!(want, "an unsorted list was accepted: {:?}", ps.iter().map(order).collect::<Vec<_>>());
            ensure_eq!(check_list(m, &l, &ps)?, ids, "construction changed the order");
            ensure_eq!(l.into_inner().iter().map(|p| p.1.id).collect::<Vec<_>>(), ids, "construction changed the order");
        }
        None => ensure!(!want, "a sorted list was rejected: {:?}", ps.iter().map(order).collect::<Vec<_>>()),
    }
    let v: Option<ParameterList<String, IdVal>> = ParameterList::from_sorted(ps.clone());
    ensure_eq!(v.is_some(), want, "from_sorted depends on the container");
    if let Some(v) = v {
        ensure_eq!(v.into_inner().iter().map(|p| p.1.id).collect::<Vec<_>>(), ids, "construction changed the order");
    }
    m.count(if want { "sorted lists accepted" } else { "unsorted lists rejected" }, 1);
    m.seen(format!("{:?}", ps.iter().map(order).collect::<Vec<_>>()).as_bytes());
    Ok(())
}

fn c10_big(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let mut next = 0;
    let n = if r.chance(1, 2) { r.range(2000, 6000) } else { r.range(200, 2000) };
    let model: Vec<IdPair> = (0..n)
        .map(|_| {
            next += 1;
            let k = if i % 2 == 0 { "k".into() } else { gen::key(r) };
            (k, IdVal { val: Val::Text(enc(&(r.below(500) * 7).to_string()) + ["", "é", "~"][r.below(3)], gen::how(r)), id: next })
        })
        .collect();
    let mut l: ParameterList<String, IdVal> = ParameterList::default();
    for c in model.chunks(r.range(100, 3000)) {
        l.extend(c.iter().cloned());
    }
    let seq: Vec<&IdPair> = l.iter().collect();
    ensure!(sorted(&seq), "a long list is not sorted");
    let mut ids: Vec<u32> = seq.iter().map(|p| p.1.id).collect();
    ids.sort();
    ensure!(ids == (1..=n as u32).collect::<Vec<_>>(), "a long list lost or repeated pairs");
    let parsed = rfc::parse_form(&oauth::to_form(&l))?;
    ensure!(parsed.len() == n, "the form of a list of {n} has {} parameters", parsed.len());
    ensure!(parsed.iter().zip(&seq).all(|(a, b)| *a.0 == *b.0 && a.1 == b.1.val.text()), "the form of a long list differs from it");
    m.max("list length", n as u64);
    m.seen(&next.to_le_bytes());
    Ok(())
}

// --------------------------------------------------------------------------------------------- C24

fn c24_unsigned(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = Spec::random(r, true);
    let (req, kind) = AnyReq::random(r, &spec.params);
    let pre = gen::text(r);
    m.note(|| format!("kind {kind} prior {pre:?} {}", spec.describe()));
    m.count(&format!("request kind {kind}"), 1);
    let want = spec.plain_params();
    let tail = |what: &str, full: &str, pre: &str, query: bool| -> Res {
        let Some(rest) = full.strip_prefix(pre) else { return Err(format!("{what}: existing text altered: {:?}", clip(full))) };
        let body = if !query {
            rest
        } else if want.is_empty() {
            ensure_eq!(rest, "", "{what}: text appended although there is no parameter");
            ""
        } else {
            let Some(b) = rest.strip_prefix('?') else { return Err(format!("{what}: not introduced by `?`: {:?}", clip(rest))) };
            b
        };
        if let Some(c) = body.chars().find(|c| !(c.is_ascii_alphanumeric() || "-._~%&=".contains(*c))) {
            return Err(format!("{what}: character {c:?} in {:?}", clip(body)));
        }
        ensure_eq!(rfc::parse_form(body)?, want, "{what}: parameters of {:?}", clip(full));
        Ok(())
    };
    tail("to_form", &oauth::to_form(&req), "", false)?;
    tail("to_query", &oauth::to_query(pre.clone(), &req), &pre, true)?;
    tail("Urlencoder::form", &req.serialize(Urlencoder::form()), "", false)?;
    tail("Urlencoder::form_with_buf(String)", &req.serialize(Urlencoder::form_with_buf(pre.clone())), &pre, false)?;
    tail("Urlencoder::form_with_buf(Sink)", &req.serialize(Urlencoder::form_with_buf(Sink::with(&pre))).text, &pre, false)?;
    tail("Urlencoder::query(Sink)", &req.serialize(Urlencoder::query(Sink::with(&pre))).text, &pre, true)?;
    let mut s = pre.clone();
    req.serialize(Urlencoder::query(&mut s));
    tail("Urlencoder::query(&mut String)", &s, &pre, true)?;
    let mut s = pre.clone();
    req.serialize(Urlencoder::form_with_buf(&mut s as &mut dyn Write));
    tail("Urlencoder::form_with_buf(&mut dyn Write)", &s, &pre, false)?;
    let seg = req.serialize(Urlencoder::query(SegBuf::default())).to_string();
    tail("Urlencoder::query(custom buffer)", &seg, "", true)?;
    // the header's signature covers the same
    let (msg, body, at) = send(Transport::Header, &spec, &req, HMAC_SHA1);
    let p = check_params(&spec, "HMAC-SHA1", USES_BOTH, Transport::Header, &msg, at)?;
    check_signature(&spec, &rfc::Check::Hmac, Transport::Header, &p, body.as_deref())?;
    m.count("unsigned serializations parsed back", 10);
    m.seen(format!("{:?}{pre}", want).as_bytes());
    m.sample(|| oauth::to_query(pre.clone(), &req));
    Ok(())
}

/// Driven by hand, with protocol parameters anywhere, and cloned on the way.
fn c24_by_hand(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let pre = gen::text(r);
    let query = r.chance(1, 2);
    let mut u = if query { Urlencoder::query(pre.clone()) } else { Urlencoder::form_with_buf(pre.clone()) };
    let mut want = String::new();
    let text = |w: &str| format!("{pre}{}{w}", if query && !w.is_empty() { "?" } else { "" });
    for _ in 0..r.below(10) {
        match r.below(4) {
            0 => u.serialize_oauth_parameters(),
            1 => proto_call(&mut u, r.below(8)),
            n => {
                let p = Param::random(r, n == 2);
                if !want.is_empty() {
                    want.push('&');
                }
                want.push_str(&format!("{}={}", p.key, enc(&p.plain)));
                if p.encoded {
                    u.serialize_parameter_encoded(&p.key, &p.val);
                } else {
                    u.serialize_parameter(&p.key, &p.val);
                }
            }
        }
        ensure_eq!(u.clone().end(), text(&want), "a clone of the URL encoder");
    }
    ensure_eq!(u.end(), text(&want), "the URL encoder");
    m.count("hand-driven encoders", 1);
    m.seen(text(&want).as_bytes());
    Ok(())
}

// --------------------------------------------------------------------------------------------- C25

thread_local! {
    /// Writes left until the fault, `usize::MAX` when disarmed.
    static LEFT: Cell<usize> = const { Cell::new(usize::MAX) };
    static HIT: Cell<bool> = const { Cell::new(false) };
    static ONCE: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
}

/// One fallible operation.
fn step() -> fmt::Result {
    COUNT.set(COUNT.get() + 1);
    match LEFT.get() {
        usize::MAX => Ok(()),
        0 => {
            HIT.set(true);
            if ONCE.get() {
                LEFT.set(usize::MAX);
            }
            Err(fmt::Error)
        }
        n => {
            LEFT.set(n - 1);
            Ok(())
        }
    }
}

/// A sink which fails at the armed write.
#[derive(Clone, Debug, Default)]
struct Faulty(String);

impl Write for Faulty {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        step()?;
        self.0.push_str(s);
        Ok(())
    }
}

/// Infallible in display.
impl Display for Faulty {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

/// A fixed capacity sink.
#[derive(Clone, Debug, Default)]
struct Small(String, usize);
impl Write for Small {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.0.len() + s.len() > self.1 {
            HIT.set(true);
            return Err(fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

/// A text whose representation fails at the armed piece.
#[derive(Clone, Debug)]
struct FaultyText(String, u64);

impl Display for FaultyText {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        for p in gen::pieces(&self.0, self.1) {
            step()?;
            f.write_str(p)?;
        }
        step()
    }
}

#[derive(Clone, Debug)]
struct FaultyBufUri(String, u64);
impl Write for FaultyBufUri {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}
impl Display for FaultyBufUri {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        FaultyText(self.0.clone(), self.1).fmt(f)
    }
}

/// A buffer for PLAINTEXT which fails when it is displayed.
#[derive(Clone, Debug, Default)]
struct FaultyShow(String);
impl Write for FaultyShow {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}
impl Display for FaultyShow {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        FaultyText(self.0.clone(), 7).fmt(f)
    }
}

/// A signer whose signature fails to be displayed.
#[derive(Clone)]
struct FaultySm(String);
struct FaultySign(String);
impl SignatureMethod for FaultySm {
    type Sign = FaultySign;
    fn sign_with(self, _: &str, _: Option<&str>) -> FaultySign {
        FaultySign(self.0)
    }
}
impl Sign for FaultySign {
    type Signature = FaultyText;
    fn get_signature_method_name(&self) -> &'static str {
        "X"
    }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: Display>(&mut self, _: T) {}
    fn parameter<V: Display>(&mut self, _: &str, _: V) {}
    fn delimiter(&mut self) {}
    fn end(self) -> FaultyText {
        FaultyText(self.0, 3)
    }
}

/// A signer which formats what it is fed into a writer that fails, and minds that.
#[derive(Clone)]
struct WritingSm;
struct WritingSign(Faulty);
impl SignatureMethod for WritingSm {
    type Sign = WritingSign;
    fn sign_with(self, _: &str, _: Option<&str>) -> WritingSign {
        WritingSign(Faulty::default())
    }
}
impl Sign for WritingSign {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str {
        "X"
    }
    fn request_method(&mut self, m: &str) {
        write!(self.0, "{m}").unwrap();
    }
    fn uri<T: Display>(&mut self, u: T) {
        write!(self.0, "&{u}&").unwrap();
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        write!(self.0, "{k}%3D{v}").unwrap();
    }
    fn delimiter(&mut self) {
        self.0.write_str("%26").unwrap();
    }
    fn end(self) -> String {
        self.0 .0
    }
}

struct FaultyReq(Vec<Param>, u64);

impl Request for FaultyReq {
    fn serialize<S: Serializer>(&self, s: S) -> S::Output {
        // through the library's own list request
        let l: Vec<(&str, FaultyText)> = self.0.iter().filter(|p| !p.encoded).map(|p| (&*p.key, FaultyText(p.plain.clone(), self.1))).collect();
        oauth::request::AssertSorted::new(l.iter().map(|(k, v)| (*k, v))).serialize(s)
    }
}

struct FaultyEncReq(Vec<Param>, u64);
impl Request for FaultyEncReq {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        s.serialize_oauth_parameters();
        for p in self.0.iter().filter(|p| *p.key > *"p") {
            s.serialize_parameter_encoded(&p.key, FaultyText(enc(&p.plain), self.1));
        }
        s.end()
    }
}

const SCENARIOS: u64 = 35;

/// Runs one scenario; the result is what was returned.
fn scenario(n: u64, spec: &Spec, seed: u64) -> String {
    let (m, u) = (&*spec.method, &*spec.uri);
    let man = Manual(spec.params.clone());
    let fr = FaultyReq(spec.params.clone(), seed);
    let fe = FaultyEncReq(spec.params.clone(), seed);
    let ft = || FaultyText(u.to_owned(), seed);
    let o = spec.options();
    let (c, t) = (spec.client_ref(), spec.token_ref());
    let b = spec.builder(HMAC_SHA1);
    let bp = spec.builder(PLAINTEXT);
    match n {
        0 => b.authorize_with_buf(Faulty::default(), m, u, &man).0,
        1 => b.to_form_with_buf(Faulty::default(), m, u, &man).0,
        2 => b.to_query(m, Faulty(u.to_owned()), &man).0,
        3 => b.into_authorization_with_buf(Faulty::default(), m, u, &man).0,
        4 => b.into_form_with_buf(Faulty::default(), m, u, &man).0,
        5 => b.into_query(m, Faulty(u.to_owned()), &man).0,
        6 => man.serialize(Urlencoder::form_with_buf(Faulty::default())).0,
        7 => man.serialize(Urlencoder::query(Faulty(u.to_owned()))).0,
        8 => man.serialize(Authorizer::authorization_with_buf(Faulty::default(), m, u, c, t, &o, PLAINTEXT)).0,
        9 => man.serialize(Authorizer::form_with_buf(Faulty::default(), m, u, c, t, &o, PLAINTEXT)).0,
        10 => spec.builder(Plaintext::<Faulty>::with_buf()).authorize(m, u, &man),
        11 => spec.builder(Plaintext::<Faulty>::with_buf()).to_form(m, u, &man),
        12 => spec.builder(Plaintext::<FaultyShow>::with_buf()).authorize(m, u, &man),
        13 => spec.builder(Plaintext::<FaultyShow>::with_buf()).to_form(m, u, &man),
        14 => spec.builder(Plaintext::<FaultyShow>::with_buf()).to_query(m, u.to_owned(), &man),
        15 => spec.builder(FaultySm(enc(u))).authorize(m, u, &man),
        16 => spec.builder(FaultySm(enc(u))).to_form(m, u, &man),
        17 => b.authorize(m, ft(), &man),
        18 => b.to_form(m, ft(), &man),
        19 => b.to_query(m, FaultyBufUri(u.to_owned(), seed), &man).0,
        20 => bp.authorize(m, ft(), &man),
        21 => bp.to_query(m, FaultyBufUri(u.to_owned(), seed), &man).0,
        22 => b.authorize(m, u, &fr),
        23 => b.to_form(m, u, &fr),
        24 => b.to_query(m, u.to_owned(), &fr),
        25 => bp.to_form(m, u, &fr),
        26 => oauth::to_form(&fr),
        27 => oauth::to_query(u.to_owned(), &fe),
        28 => b.authorize(m, u, &fe),
        29 => spec.builder(WritingSm).authorize(m, u, &man),
        30 => spec.builder(WritingSm).to_form(m, u, &man),
        31 => spec.builder(WritingSm).to_query(m, u.to_owned(), &man),
        32 => spec.builder(WritingSm).authorize(m, u, &fr),
        33 => spec.builder(WritingSm).to_form(m, ft(), &fe),
        _ => format!("{:?}", fr.serialize(Recorder::new())),
    }
}

/// The same with infallible parts.
fn reference(n: u64, spec: &Spec) -> Option<String> {
    let (m, u) = (&*spec.method, &*spec.uri);
    let man = Manual(spec.params.clone());
    let b = spec.builder(HMAC_SHA1);
    let bp = spec.builder(PLAINTEXT);
    Some(match n {
        0 | 3 | 17 => b.authorize(m, u, &man),
        1 | 4 | 18 => b.to_form(m, u, &man),
        2 | 5 | 19 => b.to_query(m, u.to_owned(), &man),
        6 => oauth::to_form(&man),
        7 => oauth::to_query(u.to_owned(), &man),
        8 | 10 | 12 | 20 => bp.authorize(m, u, &man),
        9 | 11 | 13 => bp.to_form(m, u, &man),
        14 | 21 => bp.to_query(m, u.to_owned(), &man),
        _ => return None,
    })
}

fn c25_spec(r: &mut Rng) -> Spec {
    let mut spec = Spec::random_without_params(r).fixed(r);
    let n = r.below(4);
    spec.set_params((0..n).map(|_| Param::random(r, false)).collect());
    spec
}

fn c25_every_write(r: &mut Rng, m: &mut Mon, i: u64) -> Res {
    let n = i % SCENARIOS;
    let spec = c25_spec(r);
    let seed = r.u64();
    m.note(|| format!("scenario {n} {}", spec.describe()));
    LEFT.set(usize::MAX);
    COUNT.set(0);
    let good = scenario(n, &spec, seed);
    let total = COUNT.get();
    if let Some(w) = reference(n, &spec) {
        ensure_eq!(good, w, "scenario {n}: message of a buffer which can fail but does not");
        m.count("fault-free runs compared", 1);
    }
    if total == 0 {
        m.count("scenarios without fallible operations", 1);
        return Ok(());
    }
    // Every point, or a sample when there are many.
    let points: Vec<usize> = if total <= 60 { (0..total).collect() } else { (0..60).map(|_| r.below(total)).chain([0, total - 1]).collect() };
    for p in points {
        for once in [false, true] {
            LEFT.set(p);
            HIT.set(false);
            ONCE.set(once);
            let res = catch(|| scenario(n, &spec, seed));
            LEFT.set(usize::MAX);
            let hit = HIT.get();
            ensure!(hit, "scenario {n}: the fault at operation {p} of {total} was not reached on a second run");
            if let Ok(msg) = res {
                return Err(format!("scenario {n}: operation {p} of {total} failed ({}), but the call returned {:?}", if once { "once" } else { "from then on" }, clip(&msg)));
            }
            m.count("faults injected and reported", 1);
        }
    }
    m.seen(format!("{n} {total} {good}").as_bytes());
    m.sample(|| format!("scenario {n}: {total} fallible operations"));
    Ok(())
}

/// A buffer of limited size either takes the whole message or the call fails.
fn c25_capacity(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = c25_spec(r);
    m.note(|| spec.describe());
    let man = Manual(spec.params.clone());
    let b = spec.builder(HMAC_SHA1);
    let (me, u) = (&*spec.method, &*spec.uri);
    let (form, header, plain) = (b.to_form(me, u, &man), b.authorize(me, u, &man), oauth::to_form(&man));
    for k in 0..3 {
        let want = [&form, &header, &plain][k];
        let mut caps: Vec<usize> = (0..20).map(|_| r.below(want.len() + 1)).collect();
        caps.extend([0, want.len().saturating_sub(1), want.len()]);
        for cap in caps {
            HIT.set(false);
            let res = catch(|| {
                let s = Small(String::new(), cap);
                match k {
                    0 => b.to_form_with_buf(s, me, u, &man),
                    1 => b.authorize_with_buf(s, me, u, &man),
                    _ => man.serialize(Urlencoder::form_with_buf(s)),
                }
            });
            match res {
                Ok(s) => {
                    ensure!(!HIT.get(), "the buffer of {cap} bytes reported an error, but the call returned {:?}", clip(&s.0));
                    ensure_eq!(&s.0, want, "message in a buffer of {cap} bytes");
                }
                Err((msg, loc)) => ensure!(HIT.get(), "panicked at {loc} without an error: {msg}"),
            }
            m.count("limited buffers", 1);
        }
    }
    m.seen(form.as_bytes());
    Ok(())
}

static PROPS: &[Prop] = &[
    Prop {
        id: "C09",
        rule: "distinct texts (chunks of 1024 scalar values, ASCII rows, random texts, numbers) whose single and double encoding was compared with the independent encoder",
        families: &[
            fam("scalars", 1088, 1088, c09_scalars),
            fam("pairs", 128, 128, c09_pairs),
            fam("how", 10000, 300000, c09_how),
            fam("types", 5000, 100000, c09_types),
            fam("encoded", 5000, 100000, c09_encoded),
        ],
    },
    Prop {
        id: "C10",
        rule: "distinct final contents of parameter lists whose every state was compared with the multiset model",
        families: &[
            fam("history", 8000, 200000, c10_history),
            fam("containers", 3000, 60000, c10_containers),
            fam("from-sorted", 8000, 200000, c10_from_sorted),
            fam("big", 8, 100, c10_big),
        ],
    },
    Prop { id: "C24", rule: "distinct requests serialized unsigned in ten ways and parsed back", families: &[fam("unsigned", 6000, 150000, c24_unsigned), fam("by-hand", 6000, 100000, c24_by_hand)] },
    Prop { id: "C25", rule: "distinct signing runs in which every fallible operation was made to fail", families: &[fam("every-write", 3000, 60000, c25_every_write), fam("capacity", 500, 10000, c25_capacity)] },
];

#[allow(dead_code)]
fn unused() {
    let _ = codec::enc;
}

fn main() {
    drive::main(PROPS);
}
