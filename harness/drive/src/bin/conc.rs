//! C20: concurrent use is equivalent to sequential use; clones are independent.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::{self, Display, Formatter};
use std::num::NonZeroU64;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Barrier;

use drive::entries;
use drive::gen::{self, Param, Val, SIGNED_PROTO};
use drive::mon::{catch, fam, Prop};
use drive::monitors::{SegBuf, Sink};
use drive::requests::{proto_call, Manual};
use drive::rfc::Check;
use drive::spec::*;
use drive::{clip, ensure, ensure_eq, Mon, Res, Rng};
use either::Either;
use oauth::request::AssertSorted;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::{Recorder, Serializer, Urlencoder};
use oauth::signature_method::{HmacSha1, Plaintext, Sign, SignatureMethod};
use oauth::{Builder, ParameterList, Request, HMAC_SHA1, PLAINTEXT};

// ---- pacing: the displayed values decide where threads are held up, and observe the interleaving.

thread_local! {
    /// State of the pace generator; 0 is off.
    static PACE: Cell<u64> = const { Cell::new(0) };
    static TICKETS: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
    static PANIC_AT: Cell<u32> = const { Cell::new(0) };
}

/// Only ever accessed relaxed, so that it does not order the threads.
static TICKET: AtomicUsize = AtomicUsize::new(0);

fn pace() {
    let p = PANIC_AT.with(|p| {
        let v = p.get();
        p.set(v.saturating_sub(1));
        v
    });
    if p == 1 {
        panic!("the value refuses");
    }
    let x = PACE.with(|p| {
        let mut x = p.get();
        if x != 0 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            p.set(x);
        }
        x
    });
    if x == 0 {
        return;
    }
    TICKETS.with(|t| t.borrow_mut().push(TICKET.fetch_add(1, Ordering::Relaxed)));
    match x >> 32 & 7 {
        0..=2 => std::thread::yield_now(),
        3 => (0..(x >> 40 & if cfg!(miri) { 3 } else { 255 })).for_each(|_| std::hint::spin_loop()),
        4 if x >> 50 & 15 == 0 => std::thread::sleep(std::time::Duration::from_micros(50)),
        _ => {}
    }
}

/// Checks a message; without its signature under Miri, where that is slow (every other run checks it).
fn verify(spec: &Spec, check: &Check, t: Transport, msg: &str, at: (u64, u64)) -> Result<Parsed, String> {
    if cfg!(miri) {
        check_params(spec, check.name(), USES_BOTH, t, msg, at)
    } else {
        check_message(spec, check, t, msg, at)
    }
}

/// A value which holds its thread up while it is written.
#[derive(Clone, Debug)]
struct Slow(Val);

impl Display for Slow {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        pace();
        let t = self.0.text();
        let mut at = 0;
        while at < t.len() {
            let mut end = at + 1 + t.len() / 3;
            while end < t.len() && !t.is_char_boundary(end) {
                end += 1;
            }
            let end = end.min(t.len());
            f.write_str(&t[at..end])?;
            pace();
            at = end;
        }
        Ok(())
    }
}

#[derive(Clone, Debug, oauth::Request)]
struct Derived {
    alpha: Slow,
    #[oauth1(option = true)]
    beta: Option<Slow>,
    #[oauth1(rename = "zeta")]
    z: Slow,
}

struct SlowManual(Vec<Param>);

impl Request for SlowManual {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut next = 0;
        for p in &self.0 {
            while next < 8 && *SIGNED_PROTO[next] < *p.key {
                proto_call(&mut s, next);
                next += 1;
            }
            if p.encoded {
                s.serialize_parameter_encoded(&p.key, Slow(p.val.clone()));
            } else {
                s.serialize_parameter(&p.key, Slow(p.val.clone()));
            }
        }
        while next < 8 {
            proto_call(&mut s, next);
            next += 1;
        }
        s.end()
    }
}

/// A request which may be shared among threads.
enum Req {
    Manual(SlowManual),
    List(ParameterList<String, Slow>),
    Sorted(AssertSorted<std::vec::IntoIter<(String, Slow)>>),
    Map(BTreeMap<String, Slow>),
    Derived(Derived),
}

impl Request for Req {
    fn serialize<S: Serializer>(&self, s: S) -> S::Output {
        match self {
            Req::Manual(r) => r.serialize(s),
            Req::List(r) => r.serialize(s),
            Req::Sorted(r) => r.serialize(s),
            Req::Map(r) => AssertSorted::new(r).serialize(s),
            Req::Derived(r) => r.serialize(s),
        }
    }
}

fn small_val(r: &mut Rng) -> Val {
    if cfg!(miri) {
        Val::Text(gen::text(r).chars().take(4).collect(), gen::How::Whole)
    } else {
        gen::val(r)
    }
}

fn some_params(r: &mut Rng, enc: bool) -> Vec<Param> {
    if !cfg!(miri) {
        let mut v = gen::params(r, enc);
        v.sort_by_cached_key(Param::order);
        return v;
    }
    let mut v: Vec<Param> = (0..r.below(4)).map(|_| Param::raw(gen::key(r).chars().take(8).collect::<String>(), small_val(r))).filter(|p| !gen::is_proto(&p.key)).collect();
    v.sort_by_cached_key(Param::order);
    v
}

fn some_spec(r: &mut Rng) -> Spec {
    let mut s = Spec::random_without_params(r).fixed(r);
    if cfg!(miri) {
        for t in [&mut s.client.0, &mut s.client.1] {
            *t = t.chars().take(9).collect();
        }
        if let Some((a, b)) = &mut s.token {
            *a = a.chars().take(9).collect();
            *b = b.chars().take(9).collect();
        }
        let short = |o: &mut Option<String>| {
            if let Some(t) = o {
                *t = t.chars().take(6).collect();
            }
        };
        short(&mut s.callback);
        short(&mut s.verifier);
        s.nonce = Some("n".into());
        s.uri = "http://a/".into();
    }
    s
}

impl Req {
    fn random(r: &mut Rng) -> (Req, Vec<Param>) {
        match r.below(5) {
            0 => {
                let ps = some_params(r, true);
                (Req::Manual(SlowManual(ps.clone())), ps)
            }
            4 => {
                let d = Derived { alpha: Slow(small_val(r)), beta: if r.chance(1, 2) { Some(Slow(small_val(r))) } else { None }, z: Slow(small_val(r)) };
                let mut ps = vec![Param::raw("alpha".into(), d.alpha.0.clone())];
                ps.extend(d.beta.iter().map(|b| Param::raw("beta".into(), b.0.clone())));
                ps.push(Param::raw("zeta".into(), d.z.0.clone()));
                (Req::Derived(d), ps)
            }
            k => {
                let ps = some_params(r, false);
                let mut v: Vec<(String, Slow)> = ps.iter().map(|p| (p.key.clone(), Slow(p.val.clone()))).collect();
                let req = match k {
                    1 => {
                        r.shuffle(&mut v);
                        Req::List(ParameterList::new(v))
                    }
                    2 => {
                        let m: BTreeMap<_, _> = v.iter().cloned().collect();
                        if m.len() == v.len() {
                            Req::Map(m)
                        } else {
                            Req::Sorted(AssertSorted::new(v))
                        }
                    }
                    _ => Req::Sorted(AssertSorted::new(v)),
                };
                (req, ps)
            }
        }
    }
}

/// Entry points which borrow the builder.
const BY_REF: usize = 12;

fn by_ref<SM: SignatureMethod + Clone>(b: &Builder<'_, SM, &str, &str>, spec: &Spec, e: usize, req: &Req) -> (Transport, String, String) {
    use Transport::*;
    let (m, u) = (&*spec.method, &*spec.uri);
    let mut method = m;
    let (t, msg) = match e {
        0 => (Header, b.authorize(m, u, req)),
        1 => (Form, b.to_form(m, u, req)),
        2 => (Query, b.to_query(m, u.to_owned(), req)),
        3 => (Header, b.authorize_with_buf(String::new(), m, u, req)),
        4 => (Form, b.to_form_with_buf(Sink::default(), m, u, req).text),
        5 => (Query, b.to_query(m, Sink::with(u), req).text),
        6 => (Header, b.clone().into_authorization(m, u, req)),
        7 => (Form, b.clone().into_form(m, u, req)),
        8 => (Query, b.clone().into_query(m, u.to_owned(), req)),
        9 => {
            method = "GET";
            (Header, b.get(u, req))
        }
        10 => {
            method = "PATCH";
            (Form, b.patch_form(u, req))
        }
        _ => {
            method = "HEAD";
            (Query, b.head_query(u.to_owned(), req))
        }
    };
    (t, msg, method.to_owned())
}

/// An XOR-ish signature method of the user's own, with state.
#[derive(Clone, Debug)]
struct Own(u64);

#[derive(Clone, Debug)]
struct OwnSign(u64);

impl SignatureMethod for Own {
    type Sign = OwnSign;
    fn sign_with(self, cs: &str, ts: Option<&str>) -> OwnSign {
        let mut s = OwnSign(self.0);
        s.put(cs);
        s.put(ts.unwrap_or("\0"));
        s
    }
}

impl<'a> SignatureMethod for &'a Own {
    type Sign = OwnSign;
    fn sign_with(self, cs: &str, ts: Option<&str>) -> OwnSign {
        self.clone().sign_with(cs, ts)
    }
}

impl OwnSign {
    fn put(&mut self, s: &str) {
        self.0 = (self.0.rotate_left(9) ^ drive::hash::fnv(s.as_bytes())).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
}

impl Sign for OwnSign {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str {
        "OWN"
    }
    fn request_method(&mut self, m: &str) {
        self.put(m);
    }
    fn uri<T: Display>(&mut self, u: T) {
        self.put(&u.to_string());
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        self.put(k);
        self.put(&v.to_string());
    }
    fn delimiter(&mut self) {
        self.put("&");
    }
    fn end(self) -> String {
        format!("{:016x}", self.0)
    }
}

type Answer = (Transport, String, String);

/// What the threads share: builders with their own credentials and options.
trait Signer: Sync {
    fn sign(&self, e: usize, req: &Req) -> Answer;
    /// Clones the builder, changes the clone and signs with it.
    fn sign_changed(&self, e: usize, req: &Req, nonce: &str) -> Answer;
    fn spec(&self) -> &Spec;
    fn check(&self) -> Option<Check>;
}

struct Shared<'a, SM: SignatureMethod> {
    spec: &'a Spec,
    b: Builder<'a, SM, &'a str, &'a str>,
    check: Option<Check>,
}

impl<'a, SM: SignatureMethod + Clone + Sync> Signer for Shared<'a, SM> {
    fn sign(&self, e: usize, req: &Req) -> Answer {
        by_ref(&self.b, self.spec, e, req)
    }
    fn sign_changed(&self, e: usize, req: &Req, nonce: &str) -> Answer {
        let mut b: Builder<'_, SM, &str, &str> = self.b.clone();
        b.nonce(nonce);
        b.version(!self.spec.version);
        by_ref(&b, self.spec, e, req)
    }
    fn spec(&self) -> &Spec {
        self.spec
    }
    fn check(&self) -> Option<Check> {
        self.check.clone()
    }
}

const METHODS: usize = if cfg!(feature = "rsa") { 9 } else { 6 };

fn signer<'a>(r: &mut Rng, spec: &'a Spec) -> Box<dyn Signer + 'a> {
    macro_rules! s {
        ($sm:expr, $check:expr) => {
            Box::new(Shared { spec, b: spec.builder($sm), check: $check })
        };
    }
    match r.below(METHODS) {
        0 | 1 => s!(HMAC_SHA1, Some(Check::Hmac)),
        2 => s!(PLAINTEXT, Some(Check::Plaintext)),
        3 => s!(Plaintext::<SegBuf>::with_buf(), Some(Check::Plaintext)),
        4 => s!(if r.chance(1, 2) { Either::<HmacSha1, Own>::Left(HMAC_SHA1) } else { Either::Right(Own(r.u64())) }, None),
        5 => s!(Own(r.u64()), None),
        #[cfg(feature = "rsa")]
        k => {
            let ks = drive::keys::all();
            let key = &ks[if r.chance(9, 10) { 0 } else { r.below(3) }];
            match k {
                6 => s!(&key.m06, Some(key.check())),
                7 => s!(AsRef::<oauth::Rsa09Sha1>::as_ref(&key.k09), Some(key.check())),
                _ => s!(key.m09.clone(), Some(key.check())),
            }
        }
        #[cfg(not(feature = "rsa"))]
        _ => unreachable!(),
    }
}

fn seed_pace(r: &mut Rng) -> u64 {
    r.u64() | 1
}

/// Runs `n` threads which start together; returns their results and the observed interleaving.
fn together<T: Send>(r: &mut Rng, n: usize, m: &mut Mon, f: impl Fn(usize, &mut Rng) -> T + Sync) -> Vec<T> {
    let barrier = Barrier::new(n);
    let seeds: Vec<(u64, u64)> = (0..n).map(|_| (r.u64(), seed_pace(r))).collect();
    let res: Vec<(T, Vec<usize>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (barrier, f, seeds) = (&barrier, &f, &seeds);
                s.spawn(move || {
                    let mut r = Rng::new(seeds[i].0);
                    PACE.with(|p| p.set(seeds[i].1));
                    barrier.wait();
                    let out = f(i, &mut r);
                    PACE.with(|p| p.set(0));
                    (out, TICKETS.with(|t| std::mem::take(&mut *t.borrow_mut())))
                })
            })
            .collect();
        hs.into_iter().map(drive::mon::join).collect()
    });
    let mut order: Vec<(usize, u8)> = res.iter().enumerate().flat_map(|(i, (_, t))| t.iter().map(move |t| (*t, i as u8))).collect();
    order.sort_unstable();
    let seq: Vec<u8> = order.iter().map(|x| x.1).collect();
    let switches = seq.windows(2).filter(|w| w[0] != w[1]).count();
    m.count("paced writes observed", seq.len() as u64);
    m.count("switches between threads observed in the middle of messages", switches as u64);
    m.max("switches in one case", switches as u64);
    if switches >= n {
        m.count("cases with threads really interleaved", 1);
        m.seen(&seq);
    }
    res.into_iter().map(|x| x.0).collect()
}

fn threads(r: &mut Rng) -> usize {
    if cfg!(miri) {
        2 + r.below(2)
    } else {
        r.range(2, 8)
    }
}

fn judge(spec: &Spec, check: &Option<Check>, ps: &[Param], a: &Answer) -> Res {
    let Some(check) = check else { return Ok(()) };
    let mut s = spec.clone();
    s.set_params(ps.to_vec());
    s.method = a.2.clone();
    verify(&s, check, a.0, &a.1, (0, u64::MAX - 9))?;
    Ok(())
}

/// Threads share builders and requests; every message equals the one made alone.
fn shared(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let specs: Vec<Spec> = (0..r.range(1, 3)).map(|_| some_spec(r)).collect();
    let signers: Vec<Box<dyn Signer + '_>> = specs.iter().map(|s| signer(r, s)).collect();
    let reqs: Vec<(Req, Vec<Param>)> = (0..r.range(1, 3)).map(|_| Req::random(r)).collect();
    let n = threads(r);
    let per = if cfg!(miri) { 1 } else { r.range(1, 4) };
    let jobs: Vec<Vec<(usize, usize, usize, bool)>> =
        (0..n).map(|_| (0..per).map(|_| (r.below(signers.len()), r.below(reqs.len()), r.below(BY_REF), r.chance(1, 6))).collect()).collect();
    for s in &specs {
        m.note(|| s.describe());
    }
    m.note(|| format!("jobs {jobs:?}"));
    let go = |j: &(usize, usize, usize, bool)| {
        let (s, q) = (&signers[j.0], &reqs[j.1].0);
        if j.3 {
            s.sign_changed(j.2, q, "own nonce")
        } else {
            s.sign(j.2, q)
        }
    };
    let before = r.chance(1, 2);
    let sequential = || -> Vec<Vec<Answer>> { jobs.iter().map(|js| js.iter().map(go).collect()).collect() };
    let first = if before { Some(sequential()) } else { None };
    let got = together(r, n, m, |i, _| jobs[i].iter().map(|j| catch(|| go(j))).collect::<Vec<_>>());
    let after = sequential();
    if let Some(f) = &first {
        ensure_eq!(f, &after, "sequential messages before and after the concurrent ones");
    }
    for (i, (g, e)) in got.iter().zip(&after).enumerate() {
        for (k, (g, e)) in g.iter().zip(e).enumerate() {
            let g = g.as_ref().map_err(|p| format!("thread {i} panicked at {}: {}", p.1, clip(&p.0)))?;
            let j = &jobs[i][k];
            ensure_eq!(g, e, "thread {i}, job {j:?}: concurrent against sequential");
            if !j.3 {
                judge(signers[j.0].spec(), &signers[j.0].check(), &reqs[j.1].1, g)?;
            }
            m.count("messages made concurrently", 1);
        }
    }
    m.sample(|| format!("{n} threads, {} jobs: {}", n * per, got[0][0].as_ref().unwrap().1));
    Ok(())
}

/// Threads using the whole of the API with builders of their own, and the library's nonces.
fn fresh(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let n = threads(r);
    let per = if cfg!(miri) { 1 } else { r.range(1, 6) };
    let shared = {
        let mut s = some_spec(r);
        s.nonce = None;
        s
    };
    let shared_b = shared.builder(HMAC_SHA1);
    let reqs: Vec<(Req, Vec<Param>)> = (0..n).map(|_| Req::random(r)).collect();
    let got = together(r, n, m, |i, r| -> Result<Vec<String>, String> {
        let mut nonces = Vec::new();
        for _ in 0..per {
            let (q, ps) = &reqs[i];
            let at0 = now();
            if r.chance(1, 2) {
                let a = catch(|| by_ref(&shared_b, &shared, r.below(BY_REF), q)).map_err(|p| format!("panicked at {}: {}", p.1, p.0))?;
                let mut s = shared.clone();
                s.set_params(ps.clone());
                s.method = a.2.clone();
                let p = verify(&s, &Check::Hmac, a.0, &a.1, (at0, now()))?;
                nonces.push(p.nonce.unwrap());
            } else {
                let mut s = some_spec(r);
                s.nonce = None;
                if r.chance(1, 2) {
                    s.timestamp = None;
                }
                s.set_params(ps.clone());
                let e = r.below(entries::COUNT);
                let o = catch(|| entries::run(e, &s, q, HMAC_SHA1, "")).map_err(|p| format!("panicked at {}: {}", p.1, p.0))??;
                s.method = o.method;
                let p = verify(&s, &Check::Hmac, o.transport, &o.msg, (at0, now()))?;
                nonces.push(p.nonce.unwrap());
            }
        }
        Ok(nonces)
    });
    let mut all = HashSet::new();
    for (i, g) in got.into_iter().enumerate() {
        for x in g.map_err(|e| format!("thread {i}: {e}"))? {
            m.count("nonces of the library", 1);
            ensure!(all.insert(x.clone()), "nonce {x:?} was used twice");
        }
    }
    Ok(())
}

// ---- clones

#[derive(Clone, Debug)]
enum Op {
    Raw(String, Val),
    Enc(String, Val),
    Proto(usize),
}

fn script(ps: &[Param]) -> Vec<Op> {
    let mut v = Vec::new();
    let mut next = 0;
    for p in ps {
        while next < 8 && *SIGNED_PROTO[next] < *p.key {
            v.push(Op::Proto(next));
            next += 1;
        }
        v.push(if p.encoded { Op::Enc(p.key.clone(), p.val.clone()) } else { Op::Raw(p.key.clone(), p.val.clone()) });
    }
    v.extend((next..8).map(Op::Proto));
    v
}

fn apply<S: Serializer>(s: &mut S, op: &Op) {
    match op {
        Op::Raw(k, v) => s.serialize_parameter(k, Slow(v.clone())),
        Op::Enc(k, v) => s.serialize_parameter_encoded(k, Slow(v.clone())),
        Op::Proto(i) => proto_call(s, *i),
    }
}

/// Something which is fed step by step, can be cloned at any time, and ends.
trait Machine: Clone + Send {
    type Op: Sync;
    fn step(&mut self, op: &Self::Op);
    fn finish(self) -> String;
}

#[derive(Clone)]
struct SerM<S>(S);

impl<S: Serializer + Clone + Send> Machine for SerM<S>
where
    S::Output: fmt::Debug,
{
    type Op = Op;
    fn step(&mut self, op: &Op) {
        apply(&mut self.0, op);
    }
    fn finish(self) -> String {
        format!("{:?}", self.0.end())
    }
}

#[derive(Clone, Debug)]
enum SOp {
    Param(String, String),
    Delim,
    Callback(String),
    ConsumerKey(String),
    Nonce(String),
    Method,
    Time(u64),
    Token(String),
    Verifier(String),
    Version,
    Uri(String),
    Verb(String),
}

#[derive(Clone)]
struct SignM<S>(S);

impl<S: Sign + Clone + Send> Machine for SignM<S> {
    type Op = SOp;
    fn step(&mut self, op: &SOp) {
        let s = &mut self.0;
        let slow = |v: &str| Slow(Val::Text(v.to_owned(), gen::How::Whole));
        match op {
            SOp::Param(k, v) => s.parameter(k, slow(v)),
            SOp::Delim => s.delimiter(),
            SOp::Callback(v) => s.callback(slow(v)),
            SOp::ConsumerKey(v) => s.consumer_key(slow(v)),
            SOp::Nonce(v) => s.nonce(slow(v)),
            SOp::Method => s.signature_method(),
            SOp::Time(v) => s.timestamp(*v),
            SOp::Token(v) => s.token(slow(v)),
            SOp::Verifier(v) => s.verifier(slow(v)),
            SOp::Version => s.version(),
            SOp::Uri(v) => s.uri(slow(v)),
            SOp::Verb(v) => s.request_method(v),
        }
    }
    fn finish(self) -> String {
        let mut n = format!("{} {} {} ", self.0.get_signature_method_name(), self.0.use_nonce(), self.0.use_timestamp());
        let s = self.0.end().to_string();
        n.push_str(&s);
        n
    }
}

/// Clones a machine at several points of its script. The clones go on with the same or another
/// script, one step at a time in any order, in one thread or in several.
fn clone_game<M: Machine>(r: &mut Rng, m: &mut Mon, new: &dyn Fn() -> M, full: &[M::Op], other: &[M::Op], cut: &dyn Fn(usize) -> usize) -> Res {
    let alone = |a: &[M::Op], b: &[M::Op]| {
        let mut x = new();
        a.iter().chain(b).for_each(|o| x.step(o));
        x.finish()
    };
    let k = r.below(full.len() + 1);
    let j = cut(k);
    m.note(|| format!("cloned after {k} of {} calls; the other way goes on at {j} of {}", full.len(), other.len()));
    let expected = alone(full, &[]);
    let expected_other = alone(&full[..k], &other[j..]);
    let mut original = new();
    full[..k].iter().for_each(|o| original.step(o));
    let n = r.range(1, 3);
    // (machine, rest, expected)
    let mut ms: Vec<(M, &[M::Op], &String)> = Vec::new();
    for _ in 0..n {
        let c = original.clone();
        if r.chance(1, 2) {
            ms.push((c, &full[k..], &expected));
        } else {
            ms.push((c, &other[j..], &expected_other));
        }
    }
    if r.chance(1, 4) {
        // A clone which is dropped, and one which is fed and dropped.
        drop(original.clone());
        let mut c = original.clone();
        other[j..].iter().take(2).for_each(|o| c.step(o));
    }
    if r.chance(1, 5) {
        // The original may be gone before the clones go on.
        let c = original.clone();
        drop(original);
        original = c;
    }
    ms.push((original, &full[k..], &expected));
    r.shuffle(&mut ms);
    m.count("clones", n as u64);
    m.count("calls made on clones and originals afterwards", ms.iter().map(|x| x.1.len() as u64).sum());
    if r.chance(1, 2) {
        // Interleaved in this thread.
        let mut live: Vec<(M, &[M::Op], &String)> = ms;
        while !live.is_empty() {
            let i = r.below(live.len());
            if live[i].1.is_empty() {
                let (x, _, e) = live.swap_remove(i);
                let g = x.finish();
                ensure_eq!(&g, e, "a clone or its original, interleaved, against a run of its own");
                m.count("results of clones and originals", 1);
            } else {
                if r.chance(1, 12) && live.len() < 8 {
                    let c = (live[i].0.clone(), live[i].1, live[i].2);
                    live.push(c);
                    m.count("clones of clones", 1);
                }
                let (op, rest) = live[i].1.split_first().unwrap();
                live[i].0.step(op);
                live[i].1 = rest;
            }
        }
    } else {
        let len = ms.len();
        let cells: Vec<std::sync::Mutex<Option<(M, &[M::Op], &String)>>> = ms.into_iter().map(|x| std::sync::Mutex::new(Some(x))).collect();
        let got = together(r, len, m, |i, _| {
            let (mut x, rest, e) = cells[i].lock().unwrap().take().unwrap();
            catch(move || {
                rest.iter().for_each(|o| x.step(o));
                x.finish()
            })
            .map(|g| (g, e.clone()))
        });
        for g in got {
            let (g, e) = g.map_err(|p| format!("panicked at {}: {}", p.1, clip(&p.0)))?;
            ensure_eq!(g, e, "a clone or its original, in another thread, against a run of its own");
            m.count("results of clones and originals", 1);
        }
    }
    m.seen(expected.as_bytes());
    m.sample(|| expected.clone());
    Ok(())
}

/// Two scripts and, for a point in the first, the point from which the second may be continued.
fn two_scripts(r: &mut Rng, enc: bool) -> (Vec<Op>, Vec<Op>) {
    (script(&some_params(r, enc)), script(&some_params(r, enc)))
}

fn op_key(o: &Op) -> (&str, String) {
    match o {
        Op::Raw(k, v) => (k, drive::codec::enc(&v.text())),
        Op::Enc(k, v) => (k, v.text()),
        Op::Proto(i) => (SIGNED_PROTO[*i], String::new()),
    }
}

fn clones_serializer(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = some_spec(r);
    let (full, other) = two_scripts(r, true);
    m.note(|| spec.describe());
    m.note(|| format!("{full:?} / {other:?}"));
    // The continuation must be in order after the call at which the clone was taken, with the
    // protocol parameters exactly once.
    let cut = |k: usize| {
        if k == 0 {
            return 0;
        }
        let last = op_key(&full[k - 1]);
        other.iter().position(|o| op_key(o) > last).unwrap_or(other.len())
    };
    let opts: Options<'_> = spec.options();
    let (me, u) = (&*spec.method, &*spec.uri);
    macro_rules! auth {
        ($sm:expr) => {{
            let sm = $sm;
            match r.below(5) {
                0 => clone_game(r, m, &|| SerM(Authorizer::authorization(me, u, spec.client_ref(), spec.token_ref(), &opts, sm.clone())), &full, &other, &cut),
                1 => clone_game(r, m, &|| SerM(Authorizer::form(me, u, spec.client_ref(), spec.token_ref(), &opts, sm.clone())), &full, &other, &cut),
                2 => clone_game(r, m, &|| SerM(Authorizer::query(me, u.to_owned(), spec.client_ref(), spec.token_ref(), &opts, sm.clone())), &full, &other, &cut),
                3 => clone_game(r, m, &|| SerM(Authorizer::authorization_with_buf(Sink::with("x"), me, u, spec.client_ref(), spec.token_ref(), &opts, sm.clone())), &full, &other, &cut),
                _ => clone_game(r, m, &|| SerM(Authorizer::form_with_buf(Sink::with("x"), me, u, spec.client_ref(), spec.token_ref(), &opts, sm.clone())), &full, &other, &cut),
            }
        }};
    }
    match r.below(if cfg!(feature = "rsa") { 10 } else { 8 }) {
        0 | 1 => auth!(HMAC_SHA1),
        2 => auth!(PLAINTEXT),
        3 => auth!(Own(r.u64())),
        4 => auth!(if r.chance(1, 2) { Either::<HmacSha1, Own>::Left(HMAC_SHA1) } else { Either::Right(Own(5)) }),
        5 => clone_game(r, m, &|| SerM(Urlencoder::form()), &full, &other, &cut),
        6 => clone_game(r, m, &|| SerM(Urlencoder::query(u.to_owned())), &full, &other, &cut),
        7 => clone_game(r, m, &|| SerM(Recorder::new()), &full, &other, &cut),
        #[cfg(feature = "rsa")]
        8 => auth!(&drive::keys::all()[0].m06),
        #[cfg(feature = "rsa")]
        9 => auth!(drive::keys::all()[0].m09.clone()),
        _ => unreachable!(),
    }
}

fn sign_script(r: &mut Rng) -> Vec<SOp> {
    let t = |r: &mut Rng| drive::codec::enc(&drive::codec::enc(&gen::text(r).chars().take(40).collect::<String>()));
    let mut v = vec![SOp::Verb(gen::method(r)), SOp::Uri(drive::codec::enc("http://example.com/"))];
    let mut ps: Vec<SOp> = Vec::new();
    for i in 0..8 {
        if r.chance(2, 3) {
            ps.push(match i {
                0 => SOp::Callback(t(r)),
                1 => SOp::ConsumerKey(t(r)),
                2 => SOp::Nonce(t(r)),
                3 => SOp::Method,
                4 => SOp::Time(timestamp(r)),
                5 => SOp::Token(t(r)),
                6 => SOp::Verifier(t(r)),
                _ => SOp::Version,
            });
        }
    }
    for _ in 0..r.below(4) {
        ps.insert(0, SOp::Param("a".into(), t(r)));
    }
    for _ in 0..r.below(3) {
        ps.push(SOp::Param("z".into(), t(r)));
    }
    for (i, p) in ps.into_iter().enumerate() {
        if i > 0 {
            v.push(SOp::Delim);
        }
        v.push(p);
    }
    v
}

fn clones_sign(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let (full, other) = (sign_script(r), sign_script(r));
    let cs = gen::secret(r);
    let ts = if r.chance(1, 2) { Some(gen::secret(r)) } else { None };
    m.note(|| format!("{cs:?} {ts:?} {full:?} / {other:?}"));
    let cut = |k: usize| k.min(other.len());
    macro_rules! go {
        ($sm:expr) => {{
            let sm = $sm;
            clone_game(r, m, &|| SignM(sm.clone().sign_with(&cs, ts.as_deref())), &full, &other, &cut)
        }};
    }
    match r.below(if cfg!(feature = "rsa") { 11 } else { 7 }) {
        0 | 1 => go!(HMAC_SHA1),
        2 => go!(PLAINTEXT),
        3 => go!(Plaintext::<SegBuf>::with_buf()),
        4 => go!(Either::<HmacSha1, Plaintext>::Left(HMAC_SHA1)),
        5 => go!(Either::<HmacSha1, Plaintext>::Right(PLAINTEXT)),
        6 => go!(Either::<Own, HmacSha1>::Right(HMAC_SHA1)),
        #[cfg(feature = "rsa")]
        7 => go!(&drive::keys::all()[0].m06),
        #[cfg(feature = "rsa")]
        8 => go!(drive::keys::all()[0].m06.clone()),
        #[cfg(feature = "rsa")]
        9 => go!(&drive::keys::all()[0].m09),
        #[cfg(feature = "rsa")]
        10 => go!(Either::<oauth::Rsa09Sha1, HmacSha1>::Left(drive::keys::all()[0].m09.clone())),
        _ => unreachable!(),
    }
}

/// Builders and options are values: changing a clone does not change the original, in any thread.
fn clones_builder(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = some_spec(r);
    let n = threads(r);
    let (req, ps) = Req::random(r);
    let specs: Vec<Spec> = (0..n)
        .map(|_| {
            let mut s = some_spec(r);
            s.client = spec.client.clone();
            s
        })
        .collect();
    m.note(|| spec.describe());
    let b = spec.builder(HMAC_SHA1);
    let got = together(r, n, m, |i, r| -> Result<Vec<(bool, Answer)>, (String, String)> {
        let own = &specs[i];
        let mut c = b.clone();
        let mut out = Vec::new();
        for _ in 0..2 {
            c.token(own.token_ref()).callback(own.callback.as_deref()).verifier(own.verifier.as_deref());
            c.nonce(own.nonce.as_deref()).timestamp(own.timestamp.and_then(NonZeroU64::new)).version(own.version);
            let e = r.below(9);
            out.push((true, catch(|| by_ref(&c, own, e, &req))?));
            out.push((false, catch(|| by_ref(&b, &spec, e, &req))?));
            c = c.clone();
        }
        Ok(out)
    });
    for (i, g) in got.into_iter().enumerate() {
        for (mine, a) in g.map_err(|p| format!("thread {i} panicked at {}: {}", p.1, clip(&p.0)))? {
            judge(if mine { &specs[i] } else { &spec }, &Some(Check::Hmac), &ps, &a).map_err(|e| format!("thread {i}, {}: {e}", if mine { "changed clone" } else { "original" }))?;
            m.count("messages of clones and originals", 1);
        }
    }
    Ok(())
}

// ---- re-entry and panics

/// A value which signs another message while it is written.
struct Nested<'a> {
    run: &'a (dyn Fn() -> Answer + Sync),
    out: RefCell<Vec<Answer>>,
    text: String,
}

impl Display for Nested<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let mid = self.text.char_indices().nth(self.text.chars().count() / 2).map_or(0, |x| x.0);
        f.write_str(&self.text[..mid])?;
        let a = (self.run)();
        self.out.borrow_mut().push(a);
        f.write_str(&self.text[mid..])
    }
}

struct NestedReq<'a, 'b>(Vec<(String, &'b Nested<'a>)>);

impl Request for NestedReq<'_, '_> {
    fn serialize<S: Serializer>(&self, s: S) -> S::Output {
        ParameterList::<String, &Nested<'_>>::new(self.0.clone()).serialize(s)
    }
}

fn nested(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let (outer, inner) = (some_spec(r), some_spec(r));
    let (ireq, ips) = Req::random(r);
    let so = signer(r, &outer);
    let si = signer(r, &inner);
    m.note(|| outer.describe());
    m.note(|| inner.describe());
    let e_in = r.below(BY_REF);
    let reference = si.sign(e_in, &ireq);
    let keys = ["k", "z", "zz"];
    let texts: Vec<String> = (0..r.range(1, 3)).map(|_| gen::text(r).chars().take(30).collect()).collect();
    let ps: Vec<Param> = texts.iter().enumerate().map(|(i, t)| drive::requests::text_param(keys[i], t)).collect();
    let run = || si.sign(e_in, &ireq);
    let values: Vec<Nested<'_>> = texts.iter().map(|t| Nested { run: &run, out: Default::default(), text: t.clone() }).collect();
    let q = NestedReq(values.iter().enumerate().map(|(i, v)| (keys[i].to_owned(), v)).collect());
    // `NestedReq` is not one of `Req`; the builder is made here.
    let spec = &outer;
    let plain = Manual(ps.clone());
    let t = *r.pick(&TRANSPORTS);
    let (got, want) = match r.below(3) {
        0 => (send(t, spec, &q, HMAC_SHA1).0, send(t, spec, &plain, HMAC_SHA1).0),
        1 => (send(t, spec, &q, PLAINTEXT).0, send(t, spec, &plain, PLAINTEXT).0),
        _ => (send(t, spec, &q, Own(3)).0, send(t, spec, &plain, Own(3)).0),
    };
    drop(so);
    ensure_eq!(got, want, "a message whose values sign others, against one whose values do not");
    let mut n = 0;
    for v in &values {
        for a in v.out.borrow().iter() {
            ensure_eq!(a, &reference, "a message signed while another is being written");
            n += 1;
        }
    }
    ensure!(n >= texts.len(), "values were not written");
    judge(&inner, &si.check(), &ips, &reference)?;
    m.count("messages signed while another is being written", n as u64);
    m.seen(got.as_bytes());
    m.sample(|| got.clone());
    Ok(())
}

/// A value panics in some of the threads; the others, and later uses, do not notice.
fn panics(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = some_spec(r);
    let s = signer(r, &spec);
    let (req, ps) = Req::random(r);
    let n = threads(r);
    let e = r.below(BY_REF);
    let bad: Vec<u32> = (0..n).map(|_| if r.chance(1, 2) { 1 + r.below(12) as u32 } else { 0 }).collect();
    m.note(|| format!("{} panics at {bad:?}", spec.describe()));
    let want = s.sign(e, &req);
    let got = together(r, n, m, |i, _| {
        PANIC_AT.with(|p| p.set(bad[i]));
        let a = catch(|| s.sign(e, &req));
        let left = PANIC_AT.with(|p| p.replace(0));
        // The value refused iff its countdown ran out.
        let refused = bad[i] != 0 && left == 0;
        (refused, a, catch(|| s.sign(e, &req)))
    });
    for (i, (refused, a, b)) in got.into_iter().enumerate() {
        if refused {
            let p = a.err().ok_or_else(|| format!("thread {i}: the panic of a value was swallowed"))?;
            ensure_eq!(p.0, "the value refuses", "thread {i}: panic of a value");
            m.count("panics of values", 1);
        } else {
            let a = a.map_err(|p| format!("thread {i} panicked at {}: {}", p.1, clip(&p.0)))?;
            ensure_eq!(a, want, "thread {i}: message made while values panic in other threads");
        }
        let b = b.map_err(|p| format!("thread {i} panicked afterwards at {}: {}", p.1, clip(&p.0)))?;
        ensure_eq!(b, want, "thread {i}: message made afterwards");
        m.count("messages made besides and after panics", 1);
    }
    ensure_eq!(s.sign(e, &req), want, "message made in the end");
    judge(&spec, &s.check(), &ps, &want)
}

// ---- first use in a process

fn first_child(seed: u64) -> ! {
    let mut r = Rng::new(seed);
    let n = 8;
    let specs: Vec<Spec> = (0..n)
        .map(|_| {
            let mut s = Spec::random(&mut r, true);
            s.nonce = None;
            s
        })
        .collect();
    let es: Vec<usize> = (0..n).map(|_| r.below(entries::COUNT)).collect();
    let barrier = Barrier::new(n);
    let out: Vec<Result<String, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (barrier, spec, e) = (&barrier, &specs[i], es[i]);
                s.spawn(move || {
                    let req = Manual(spec.params.clone());
                    let mut spec = spec.clone();
                    barrier.wait();
                    let t0 = now();
                    let o = entries::run(e, &spec, &req, HMAC_SHA1, "")?;
                    let at = (t0, now());
                    spec.method = o.method;
                    Ok(verify(&spec, &Check::Hmac, o.transport, &o.msg, at)?.nonce.unwrap())
                })
            })
            .collect();
        hs.into_iter().map(drive::mon::join).collect()
    });
    let mut nonces = HashSet::new();
    for o in out {
        match o {
            Ok(x) if nonces.insert(x.clone()) => {}
            Ok(x) => {
                println!("nonce {x:?} was used twice");
                std::process::exit(1);
            }
            Err(e) => {
                println!("{e}");
                std::process::exit(1);
            }
        }
    }
    std::process::exit(0);
}

/// New processes in which eight threads sign at once as the first thing they do.
fn first(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let seed = r.u64() >> 1;
    m.note(|| format!("CONC_FIRST={seed}"));
    let o = std::process::Command::new(std::env::current_exe().unwrap()).env("CONC_FIRST", seed.to_string()).output().expect("spawn");
    ensure_eq!(o.status.code(), Some(0), "first use by eight threads: {} {}", String::from_utf8_lossy(&o.stdout), clip(&String::from_utf8_lossy(&o.stderr)));
    m.count("processes in which eight threads signed at once first", 1);
    m.seen(&seed.to_le_bytes());
    Ok(())
}

// ---- stress

/// Many short messages of all kinds at full speed from all processors, verified by the oracle.
fn hammer(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let specs: Vec<Spec> = (0..8).map(|_| Spec::random(r, true).fixed(r)).collect();
    let reqs: Vec<Manual> = specs.iter().map(|s| Manual(s.params.clone())).collect();
    let want: Vec<Vec<String>> = specs.iter().zip(&reqs).map(|(s, q)| (0..entries::COUNT).map(|e| entries::run(e, s, q, HMAC_SHA1, "").map(|o| o.msg)).collect::<Result<_, _>>()).collect::<Result<_, _>>()?;
    for (s, w) in specs.iter().zip(&want) {
        verify(s, &Check::Hmac, Transport::Header, &w[0], (0, u64::MAX - 9))?;
    }
    let total = AtomicU64::new(0);
    let rounds = if cfg!(debug_assertions) { 60 } else { 200 };
    let got = together(r, 8, m, |_, r| -> Res {
        for _ in 0..rounds {
            let i = r.below(8);
            let e = r.below(entries::COUNT);
            let o = catch(|| entries::run(e, &specs[i], &reqs[i], HMAC_SHA1, "")).map_err(|p| format!("panicked at {}: {}", p.1, p.0))??;
            ensure_eq!(o.msg, want[i][e], "{} in the crowd against alone", entries::name(e));
        }
        total.fetch_add(rounds, Ordering::Relaxed);
        Ok(())
    });
    for g in got {
        g?;
    }
    m.count("messages made at full speed by eight threads", total.into_inner());
    m.seen(want[0][0].as_bytes());
    Ok(())
}

/// An `Authorizer` begun in one thread, fed in others and ended in yet another.
fn handed(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = some_spec(r);
    let ps = some_params(r, true);
    let ops = script(&ps);
    let opts = spec.options();
    let mut want = Authorizer::authorization(&spec.method, &*spec.uri, spec.client_ref(), spec.token_ref(), &opts, HMAC_SHA1);
    ops.iter().for_each(|o| apply(&mut want, o));
    let want = want.end();
    let mut a = Authorizer::authorization(&spec.method, &*spec.uri, spec.client_ref(), spec.token_ref(), &opts, HMAC_SHA1);
    let mut at = 0;
    while at < ops.len() {
        let n = 1 + r.below(if cfg!(miri) { 8 } else { 4 }).min(ops.len() - at - 1);
        let part = &ops[at..at + n];
        a = std::thread::scope(|s| {
            s.spawn(move || {
                part.iter().for_each(|o| apply(&mut a, o));
                a
            })
            .join()
            .map_err(|_| "panicked in another thread".to_owned())
        })?;
        at += n;
        m.count("times a serializer was handed to another thread", 1);
    }
    let got = std::thread::scope(|s| s.spawn(move || a.end()).join()).map_err(|_| "panicked in another thread".to_owned())?;
    ensure_eq!(got, want, "fed in several threads, against one");
    let mut s2 = spec.clone();
    s2.set_params(ps.clone());
    verify(&s2, &Check::Hmac, Transport::Header, &got, (0, u64::MAX - 9))?;
    m.seen(got.as_bytes());
    Ok(())
}

fn main() {
    if let Ok(s) = std::env::var("CONC_FIRST") {
        first_child(s.parse().expect("seed"));
    }
    drive::main(PROPS);
}

static PROPS: &[Prop] = &[
    Prop {
        id: "C20",
        rule: "distinct interleavings of threads inside messages, and distinct results of clones",
        families: &[
            fam("shared", 400, 6_000, shared),
            fam("fresh", 150, 2_000, fresh),
            fam("clones-serializer", 1_500, 30_000, clones_serializer),
            fam("clones-sign", 1_000, 20_000, clones_sign),
            fam("clones-builder", 150, 2_500, clones_builder),
            fam("nested", 600, 10_000, nested),
            fam("panics", 200, 4_000, panics),
            fam("handed", 150, 2_000, handed),
            #[cfg(not(miri))]
            fam("first", 30, 600, first),
            #[cfg(not(miri))]
            fam("hammer", 4, 80, hammer),
        ],
    },
];
