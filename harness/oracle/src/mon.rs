//! Run book-keeping: case families, workers, monitors' counters, panics, crashes and hangs.
//!
//! A *case* is identified by (seed, family, index) and is replayable alone.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
#[cfg(not(miri))]
use std::time::Duration;
use std::time::Instant;

use crate::rng::Rng;
use crate::Res;

#[derive(Default)]
pub struct Mon {
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    pub evals: u64,
    /// Fingerprint of the case at hand, if it is non-trivial.
    cur: Option<u64>,
    pub thorough: bool,
    want_samples: usize,
}

impl Mon {
    /// Counts observed events.
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += n;
        } else {
            self.counts.insert(k.to_owned(), n);
        }
    }

    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max:{k}");
        let c = self.counts.entry(k).or_insert(0);
        *c = (*c).max(n);
    }

    /// Marks this case as non-trivial, with a fingerprint of what was observed.
    pub fn seen(&mut self, fp: &[u8]) {
        self.cur = Some(self.cur.unwrap_or(0).rotate_left(7) ^ crate::hash::fnv(fp));
    }

    fn end_case(&mut self) {
        if let Some(f) = self.cur.take() {
            self.distinct.insert(f);
        }
    }

    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < self.want_samples {
            let s = f();
            self.samples.push(crate::clip(&s));
        }
    }

    /// Describes the case at hand; shown when it turns out to be a violation.
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        let s = f();
        self.notes.push(s);
    }

    fn merge(&mut self, o: Mon) {
        for (k, v) in o.counts {
            let c = self.counts.entry(k.clone()).or_insert(0);
            if k.starts_with("max:") {
                *c = (*c).max(v);
            } else {
                *c += v;
            }
        }
        self.distinct.extend(o.distinct);
        self.evals += o.evals;
        self.samples.extend(o.samples);
    }
}

pub type CaseFn = fn(&mut Rng, &mut Mon, u64) -> Res;

pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Run in one thread, on its own.
    pub serial: bool,
    pub run: CaseFn,
}

pub const fn fam(name: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Family {
    Family { name, quick, thorough, serial: false, run }
}

pub const fn serial(name: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Family {
    Family { name, quick, thorough, serial: true, run }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub families: &'static [Family],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// The latest panic of each thread, for whoever joins it.
static THREAD_PANICS: Mutex<BTreeMap<String, (String, String)>> = Mutex::new(BTreeMap::new());

/// Joins a thread; if it has panicked, so does this, as if at the same place.
pub fn join<T>(h: std::thread::ScopedJoinHandle<'_, T>) -> T {
    let id = format!("{:?}", h.thread().id());
    h.join().unwrap_or_else(|e| {
        let at = THREAD_PANICS.lock().unwrap().get(&id).cloned();
        LAST_PANIC.with(|p| *p.borrow_mut() = at);
        panic::resume_unwind(e)
    })
}

/// Runs `f`, turning a panic into `(message, location)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut t) = THREAD_PANICS.lock() {
            t.insert(format!("{:?}", std::thread::current().id()), (msg.clone(), loc.clone()));
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

const MAXT: usize = 64;
static CUR_FAM: [AtomicUsize; MAXT] = [const { AtomicUsize::new(usize::MAX) }; MAXT];
static CUR_IDX: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
static CUR_T0: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];

thread_local! {
    static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

#[cfg(not(miri))]
mod crash {
    use super::*;
    extern "C" {
        fn signal(sig: i32, h: usize) -> usize;
        fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
        fn raise(sig: i32) -> i32;
    }

    fn put_num(buf: &mut [u8; 64], mut at: usize, mut n: u64) -> usize {
        let mut d = [0u8; 20];
        let mut k = 0;
        loop {
            d[k] = b'0' + (n % 10) as u8;
            n /= 10;
            k += 1;
            if n == 0 {
                break;
            }
        }
        while k > 0 {
            k -= 1;
            buf[at] = d[k];
            at += 1;
        }
        at
    }

    extern "C" fn on_crash(sig: i32) {
        unsafe {
            signal(sig, 0);
            let mut buf = [0u8; 64];
            buf[..6].copy_from_slice(b"CRASH ");
            let mut at = put_num(&mut buf, 6, sig as u64);
            let w = WORKER.try_with(|w| w.get()).unwrap_or(usize::MAX);
            if w < MAXT {
                buf[at] = b' ';
                at = put_num(&mut buf, at + 1, CUR_FAM[w].load(Ordering::Relaxed) as u64);
                buf[at] = b' ';
                at = put_num(&mut buf, at + 1, CUR_IDX[w].load(Ordering::Relaxed));
            }
            buf[at] = b'\n';
            write(2, buf.as_ptr().cast(), at + 1);
            raise(sig);
        }
    }

    pub fn install() {
        for s in [4, 6, 7, 8, 11] {
            unsafe {
                signal(s, on_crash as *const () as usize);
            }
        }
    }
}

pub struct Violation {
    pub family: &'static str,
    pub index: u64,
    pub message: String,
    pub notes: Vec<String>,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Args {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub out: Option<String>,
    pub replay: Option<(String, u64)>,
    pub threads: usize,
    pub secs: u64,
    pub scale: f64,
    pub only: Option<String>,
}

pub fn parse_args() -> Args {
    let mut a = Args { prop: String::new(), thorough: false, seed: 1, out: None, replay: None, threads: 4, secs: 40, scale: 1.0, only: None };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("missing value");
        match &*x {
            "--tier" => a.thorough = v() == "thorough",
            "--seed" => a.seed = v().parse().expect("seed"),
            "--out" => a.out = Some(v()),
            "--threads" => a.threads = v().parse().expect("threads"),
            "--secs" => a.secs = v().parse().expect("secs"),
            "--scale" => a.scale = v().parse().expect("scale"),
            "--family" => a.only = Some(v()),
            "--replay" => {
                let s = v();
                let (f, i) = s.rsplit_once(':').expect("family:index");
                a.replay = Some((f.to_owned(), i.parse().expect("index")));
            }
            _ => a.prop = x,
        }
    }
    a
}

/// A panic of the harness whose message starts so tells of a violation.
pub const FOUND: &str = "FOUND: ";

static HARNESS_ERRORS: AtomicUsize = AtomicUsize::new(0);

fn run_case(w: usize, fi: usize, f: &Family, seed: u64, idx: u64, start: Instant, mon: &mut Mon) -> Result<(), String> {
    CUR_T0[w].store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
    CUR_IDX[w].store(idx, Ordering::Relaxed);
    CUR_FAM[w].store(fi, Ordering::Relaxed);
    mon.notes.clear();
    mon.evals += 1;
    let mut rng = Rng::for_case(seed, f.name, idx);
    // Some cases get very large inputs.
    let big = !cfg!(miri) && Rng::new(idx).chance(1, 60);
    crate::gen::start(if big { 3 } else { 0 });
    let r = catch(|| (f.run)(&mut rng, mon, idx));
    CUR_FAM[w].store(usize::MAX, Ordering::Relaxed);
    mon.end_case();
    match r {
        Ok(r) => r,
        Err((msg, loc)) => {
            if let Some(e) = msg.strip_prefix(FOUND) {
                return Err(crate::clip(e));
            }
            if loc.contains("harness/") || loc.contains("/verif/") || loc.starts_with("src/") {
                eprintln!("HARNESS-ERROR {} {}: panic at {loc}: {msg}", f.name, idx);
                eprintln!("{}", mon.notes.join("\n"));
                HARNESS_ERRORS.fetch_add(1, Ordering::Relaxed);
                return Ok(());
            }
            Err(format!("panicked at {loc}: {}", crate::clip(&msg)))
        }
    }
}

/// Runs the families of one property; exits the process with 0 (held), 1 (violated), 3 (harness
/// error) or 4 (a case did not finish).
pub fn main(props: &'static [Prop]) {
    let args = parse_args();
    if args.prop == "none" {
        return;
    }
    let Some(prop) = props.iter().find(|p| p.id == args.prop) else {
        eprintln!("HARNESS-ERROR unknown property {:?}", args.prop);
        std::process::exit(3);
    };
    install_hook();
    #[cfg(not(miri))]
    crash::install();
    let start = Instant::now();
    let mut total = Mon::default();
    let mut violations: Vec<Violation> = Vec::new();
    let mut per_family: Vec<(String, u64)> = Vec::new();

    if let Some((fname, idx)) = &args.replay {
        let Some((fi, f)) = prop.families.iter().enumerate().find(|(_, f)| f.name == *fname) else {
            eprintln!("HARNESS-ERROR unknown family {fname:?}");
            std::process::exit(3);
        };
        WORKER.with(|w| w.set(0));
        let mut mon = Mon { thorough: args.thorough, ..Mon::default() };
        let r = run_case(0, fi, f, args.seed, *idx, start, &mut mon);
        for n in &mon.notes {
            println!("note: {n}");
        }
        match r {
            Ok(()) => println!("case {fname}:{idx} holds"),
            Err(m) => {
                println!("case {fname}:{idx} VIOLATES: {m}");
                std::process::exit(1);
            }
        }
        if HARNESS_ERRORS.load(Ordering::Relaxed) != 0 {
            std::process::exit(3);
        }
        return;
    }

    let done = AtomicBool::new(false);
    std::thread::scope(|_s| {
        // Watchdog for cases that do not finish.
        #[cfg(not(miri))]
        _s.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let now = start.elapsed().as_millis() as u64;
                for w in 0..MAXT {
                    let f = CUR_FAM[w].load(Ordering::Relaxed);
                    let t0 = CUR_T0[w].load(Ordering::Relaxed);
                    if f != usize::MAX && now > t0 + 90_000 && CUR_FAM[w].load(Ordering::Relaxed) == f {
                        eprintln!("HANG {} {}", prop.families[f].name, CUR_IDX[w].load(Ordering::Relaxed));
                        std::process::exit(4);
                    }
                }
            }
        });
        for (fi, f) in prop.families.iter().enumerate() {
            if args.only.as_ref().map_or(false, |o| o != f.name) {
                continue;
            }
            let n = ((if args.thorough { f.thorough } else { f.quick }) as f64 * args.scale).ceil() as u64;
            let threads = if f.serial { 1 } else { args.threads.max(1).min(MAXT) };
            let next = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let merged = Mutex::new((Mon::default(), Vec::<Violation>::new()));
            std::thread::scope(|s2| {
                for w in 0..threads {
                    let (next, stop, merged) = (&next, &stop, &merged);
                    let (seed, secs, thorough) = (args.seed, args.secs, args.thorough);
                    let body = move || {
                        WORKER.with(|c| c.set(w));
                        let mut mon = Mon { want_samples: if w == 0 { 2 } else { 0 }, thorough, ..Mon::default() };
                        let mut viol = Vec::new();
                        loop {
                            let idx = next.fetch_add(1, Ordering::Relaxed);
                            if idx >= n || stop.load(Ordering::Relaxed) || HARNESS_ERRORS.load(Ordering::Relaxed) != 0 || (idx > 0 && start.elapsed().as_secs() >= secs) {
                                break;
                            }
                            if let Err(message) = run_case(w, fi, f, seed, idx, start, &mut mon) {
                                viol.push(Violation { family: f.name, index: idx, message, notes: std::mem::take(&mut mon.notes) });
                                if viol.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        m.0.merge(mon);
                        m.1.extend(viol);
                    };
                    if cfg!(miri) && threads == 1 {
                        body();
                    } else {
                        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s2, body).unwrap();
                    }
                }
            });
            let (m, mut v) = merged.into_inner().unwrap();
            per_family.push((f.name.to_owned(), m.evals));
            total.merge(m);
            v.sort_by_key(|v| v.index);
            violations.extend(v);
            if !violations.is_empty() || HARNESS_ERRORS.load(Ordering::Relaxed) != 0 {
                break;
            }
        }
        done.store(true, Ordering::Relaxed);
    });

    if violations.is_empty() && HARNESS_ERRORS.load(Ordering::Relaxed) != 0 {
        std::process::exit(3);
    }
    for v in violations.iter().take(8) {
        println!("BROKEN {} {}:{} {}", prop.id, v.family, v.index, v.message);
        for n in &v.notes {
            println!("    {}", crate::clip(n));
        }
    }
    let mut j = String::from("{");
    j.push_str(&format!("\"property\":{},\"rule\":{},\"seed\":{},", jstr(prop.id), jstr(prop.rule), args.seed));
    j.push_str(&format!("\"evaluations\":{},\"distinct_nontrivial\":{},", total.evals, total.distinct.len()));
    j.push_str(&format!("\"debug_assertions\":{},\"wall_ms\":{},", cfg!(debug_assertions), start.elapsed().as_millis()));
    let list = |it: Vec<String>| it.join(",");
    j.push_str(&format!("\"families\":{{{}}},", list(per_family.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect())));
    j.push_str(&format!("\"events\":{{{}}},", list(total.counts.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect())));
    j.push_str(&format!("\"samples\":[{}],", list(total.samples.iter().take(8).map(|s| jstr(s)).collect())));
    j.push_str(&format!(
        "\"violations\":[{}]",
        list(
            violations
                .iter()
                .take(8)
                .map(|v| format!(
                    "{{\"family\":{},\"index\":{},\"message\":{},\"notes\":[{}]}}",
                    jstr(v.family),
                    v.index,
                    jstr(&v.message),
                    list(v.notes.iter().map(|n| jstr(&crate::clip(n))).collect())
                ))
                .collect()
        )
    ));
    j.push('}');
    match &args.out {
        Some(p) => std::fs::write(p, j).expect("write out"),
        None => println!("{j}"),
    }
    if cfg!(miri) && violations.is_empty() {
        // Leaks are looked for when `main` returns.
        return;
    }
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}
