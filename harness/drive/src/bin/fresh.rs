//! C11 (nonces), C12 (timestamps). This program stands between the library and the system: it
//! defines `clock_gettime`, `getpid`, `gettid`, `getrandom` and `syscall` itself, so that each thread can be
//! shown a clock of its own and the randomness handed out is known.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write as _};
use std::num::NonZeroU64;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

use drive::entries;
use drive::hash::fnv;
use drive::mon::{catch, fam, serial, Prop};
use drive::monitors::*;
use drive::requests::*;
use drive::rfc::{self, Check};
use drive::spec::*;
use drive::{ensure, ensure_eq, Mon, Res, Rng};
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::Serializer;
use oauth::{Builder, Credentials, Token, HMAC_SHA1, PLAINTEXT};

// ------------------------------------------------------------------------------------ interposition

#[derive(Clone, Copy)]
struct Clock {
    ns: i128,
    step: i128,
    reads: u64,
}

thread_local! {
    static CLOCK: Cell<Option<Clock>> = const { Cell::new(None) };
    /// Position in the scripted randomness, and the flipped bit.
    static SCRIPT: Cell<Option<(usize, usize)>> = const { Cell::new(None) };
    static FAULT: Cell<u8> = const { Cell::new(0) };
    static FAULTS: Cell<u64> = const { Cell::new(0) };
}

static SERVED: AtomicU64 = AtomicU64::new(0);
static SAME_IDS: AtomicBool = AtomicBool::new(false);
static FREEZE_ALL: AtomicBool = AtomicBool::new(false);

const NS: i128 = 1_000_000_000;

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let mut r = n;
    std::arch::asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[no_mangle]
unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if let Ok(Some(mut c)) = CLOCK.try_with(|c| c.get()) {
        (*ts).tv_sec = c.ns.div_euclid(NS) as i64;
        (*ts).tv_nsec = c.ns.rem_euclid(NS) as i64;
        c.ns += c.step;
        c.reads += 1;
        let _ = CLOCK.try_with(|x| x.set(Some(c)));
        return 0;
    }
    if FREEZE_ALL.load(Ordering::Relaxed) {
        (*ts).tv_sec = 1_700_000_000;
        (*ts).tv_nsec = 5;
        return 0;
    }
    raw(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0) as i32
}

#[no_mangle]
unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}

#[no_mangle]
unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _: *mut libc::c_void) -> libc::c_int {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}

#[no_mangle]
unsafe extern "C" fn getpid() -> libc::pid_t {
    if SAME_IDS.load(Ordering::Relaxed) {
        return 4242;
    }
    raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
unsafe extern "C" fn gettid() -> libc::pid_t {
    if SAME_IDS.load(Ordering::Relaxed) {
        return 4242;
    }
    raw(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as i32
}

fn script_byte(i: usize) -> u8 {
    let mut x = (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9abc_def0;
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    ((x >> 32) as u8) | 0x10
}

#[no_mangle]
unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: libc::c_uint) -> isize {
    let fault = FAULT.try_with(|f| f.get()).unwrap_or(0);
    let mut len = len;
    if fault != 0 && len > 0 {
        let n = FAULTS.with(|f| {
            f.set(f.get() + 1);
            f.get()
        });
        match fault {
            1 => len = 1, // short reads
            2 if n % 2 == 1 => {
                *libc::__errno_location() = libc::EINTR;
                return -1;
            }
            3 => {
                *libc::__errno_location() = libc::EIO;
                return -1;
            }
            _ => {}
        }
    }
    if let Ok(Some((mut at, flip))) = SCRIPT.try_with(|s| s.get()) {
        for i in 0..len {
            let mut b = script_byte(at);
            if flip / 8 == at {
                b ^= 1 << (flip % 8);
            }
            *(buf as *mut u8).add(i) = b;
            at += 1;
        }
        let _ = SCRIPT.try_with(|s| s.set(Some((at, flip))));
        return len as isize;
    }
    SERVED.fetch_add(len as u64, Ordering::Relaxed);
    raw(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0) as isize
}

#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    match n {
        libc::SYS_getrandom => getrandom(a as _, b as usize, c as u32) as i64,
        libc::SYS_clock_gettime => clock_gettime(a as i32, b as _) as i64,
        libc::SYS_getpid => getpid() as i64,
        libc::SYS_gettid => gettid() as i64,
        _ => raw(n, a, b, c, d, e, f),
    }
}

/// Shows the current thread a clock of its own while it lives.
struct Shown;

impl Shown {
    fn at(ns: i128, step: i128) -> Shown {
        CLOCK.with(|c| c.set(Some(Clock { ns, step, reads: 0 })));
        Shown
    }
    fn frozen() -> Shown {
        Shown::at(1_700_000_000 * NS + 123, 0)
    }
    fn peek(&self) -> Clock {
        CLOCK.with(|c| c.get()).unwrap()
    }
    fn set(&self, ns: i128) {
        let mut c = self.peek();
        c.ns = ns;
        CLOCK.with(|x| x.set(Some(c)));
    }
}

impl Drop for Shown {
    fn drop(&mut self) {
        CLOCK.with(|c| c.set(None));
    }
}

// --------------------------------------------------------------------------------------------- C11

static SHARDS: [Mutex<Option<HashSet<u128>>>; 64] = [const { Mutex::new(None) }; 64];

fn fp(s: &str) -> u128 {
    if s.len() <= 15 {
        let mut b = [0u8; 16];
        b[..s.len()].copy_from_slice(s.as_bytes());
        b[15] = s.len() as u8;
        return u128::from_le_bytes(b);
    }
    (fnv(s.as_bytes()) as u128) << 64 | fnv(&[s.as_bytes(), b"x"].concat()) as u128
}

/// Registers a nonce with all nonces of this run.
fn fresh_one(m: &mut Mon, nonce: &str, what: &str) -> Res {
    ensure!(!nonce.is_empty(), "{what}: empty nonce");
    ensure!(nonce.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~".contains(&b)), "{what}: nonce {nonce:?} has characters which need escaping");
    let f = fp(nonce);
    let new = SHARDS[(f as u64 ^ (f >> 61) as u64) as usize % 64].lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashSet::new).insert(f);
    ensure!(new, "{what}: nonce {nonce:?} was used before");
    m.count("nonces", 1);
    m.max("nonce length", nonce.len() as u64);
    Ok(())
}

/// Finds the nonce in a message as it stands there.
fn raw_nonce(msg: &str) -> Option<&str> {
    let mut it = msg.match_indices("oauth_nonce=").filter(|(i, _)| *i == 0 || b" ,&?\t".contains(&msg.as_bytes()[i - 1]));
    let (i, pat) = it.next()?;
    if it.next().is_some() {
        return None;
    }
    let rest = &msg[i + pat.len()..];
    Some(match rest.strip_prefix('"') {
        Some(q) => &q[..q.find('"')?],
        None => &rest[..rest.find(['&', '#', ',']).unwrap_or(rest.len())],
    })
}

fn the_spec() -> Spec {
    let mut s = Spec::random_without_params(&mut Rng::new(77));
    s.uri = "https://example.com/a".into();
    s.method = "POST".into();
    s.client = ("client".into(), "client secret".into());
    s.token = Some(("token".into(), "token secret".into()));
    s.callback = None;
    s.verifier = None;
    s.nonce = None;
    s.timestamp = None;
    s
}

/// The same inputs again and again, while the clock stands still.
fn c11_still(r: &mut Rng, m: &mut Mon, idx: u64) -> Res {
    let _c = Shown::frozen();
    let spec = the_spec();
    let b = spec.builder(PLAINTEXT);
    let b2 = b.clone();
    let h = spec.builder(HMAC_SHA1);
    let opts = Options::new();
    let token: Token<&str> = Token::from_parts("client", "client secret", "token", "token secret");
    for i in 0..1000 {
        let msg = match (i + idx) % 8 {
            0 => b.authorize("GET", &*spec.uri, &()),
            1 => b2.to_form("GET", &*spec.uri, &()),
            2 => h.to_query("GET", spec.uri.clone(), &()),
            3 => spec.builder(PLAINTEXT).into_form("GET", &*spec.uri, &()),
            4 => oauth::authorize("GET", &*spec.uri, &(), &token, PLAINTEXT),
            5 => h.clone().into_authorization_with_buf(Sink::default(), "GET", &*spec.uri, &()).text,
            6 => {
                let mut a = Authorizer::form("GET", &*spec.uri, spec.client_ref(), None, &opts, PLAINTEXT);
                a.serialize_oauth_callback();
                let mut c = a.clone();
                a.serialize_oauth_nonce();
                c.serialize_oauth_nonce();
                fresh_one(m, raw_nonce(&c.end()).ok_or("no nonce")?, "clone of a serializer")?;
                a.end()
            }
            _ => b.get(&*spec.uri, &()),
        };
        let n = raw_nonce(&msg).ok_or_else(|| format!("no nonce in {msg:?}"))?;
        fresh_one(m, n, "same inputs")?;
        if i % 50 == 0 && (i + idx) % 8 != 6 {
            // as a receiver sees it
            let t = match (i + idx) % 8 {
                1 | 3 => Transport::Form,
                2 => Transport::Query,
                _ => Transport::Header,
            };
            let all = parse(t, &spec.uri, &msg)?;
            let got: Vec<&str> = all.iter().filter(|(k, _)| k == "oauth_nonce").map(|(_, v)| &**v).collect();
            ensure_eq!(got, [n], "oauth_nonce as received");
        }
        m.seen(n.as_bytes());
    }
    let _ = r;
    Ok(())
}

/// All inputs, all entry points: the nonce is fresh, is used in the signature, and another signing of
/// the same request gets another one.
fn c11_inputs(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let _c = if r.chance(1, 2) { Some(Shown::frozen()) } else { None };
    let mut spec = Spec::random(r, false);
    spec.nonce = None;
    if r.chance(1, 2) {
        spec.timestamp = Some(timestamp(r));
    }
    m.note(|| spec.describe());
    let (req, _) = AnyReq::random(r, &spec.params);
    let e = r.below(entries::COUNT);
    for _ in 0..2 {
        let t0 = now();
        let out = entries::run(e, &spec, &req, HMAC_SHA1, "")?;
        let t1 = now();
        let spec2 = Spec { method: out.method.clone(), ..spec.clone() };
        let p = check_message(&spec2, &Check::Hmac, out.transport, &out.msg, (t0, t1)).map_err(|e2| format!("{}: {e2}", entries::name(e)))?;
        let n = p.nonce.unwrap();
        fresh_one(m, &n, entries::name(e))?;
        m.seen(n.as_bytes());
    }
    Ok(())
}

/// Some nonces from each of several threads which start together.
fn c11_threads(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = the_spec();
    let b = spec.builder(PLAINTEXT);
    let go = std::sync::Barrier::new(16);
    let per = r.range(1, 400);
    let all: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..16)
            .map(|i| {
                let (b, go, spec) = (&b, &go, &spec);
                s.spawn(move || {
                    let _c = Shown::frozen();
                    go.wait();
                    let own = b.clone();
                    (0..per)
                        .map(|k| {
                            let msg = if (k + i) % 2 == 0 { b.authorize("GET", &*spec.uri, &()) } else { own.authorize("GET", &*spec.uri, &()) };
                            raw_nonce(&msg).unwrap_or("").to_owned()
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(drive::mon::join).collect()
    });
    for (i, v) in all.iter().enumerate() {
        for n in v {
            fresh_one(m, n, &format!("thread {i}"))?;
        }
    }
    m.count("threads", 16);
    m.seen(&r.u64().to_le_bytes());
    Ok(())
}

/// Writes `n` nonces to a file descriptor; for use in a child process.
fn write_nonces(fd: i32, n: usize, label: &str) {
    let spec = the_spec();
    let b = spec.builder(PLAINTEXT);
    let mut out = String::new();
    for i in 0..n {
        let msg = if i % 2 == 0 { b.authorize("GET", &*spec.uri, &()) } else { oauth::get(&*spec.uri, &(), &Token::from_parts("client", "s", "token", "t"), HMAC_SHA1) };
        out.push_str(raw_nonce(&msg).unwrap_or("?"));
        out.push(' ');
        out.push_str(label);
        out.push('\n');
    }
    let mut at = 0;
    while at < out.len() {
        let k = unsafe { libc::write(fd, out[at..].as_ptr().cast(), out.len() - at) };
        if k <= 0 {
            break;
        }
        at += k as usize;
    }
}

fn read_all(fd: i32) -> String {
    use std::os::fd::FromRawFd;
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut s = String::new();
    let _ = f.read_to_string(&mut s);
    s
}

/// Children, and children of children, which share everything with their parent up to the fork.
fn c11_fork(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let _c = Shown::frozen();
    let mut fds = [0i32; 2];
    ensure!(unsafe { libc::pipe(fds.as_mut_ptr()) } == 0, "pipe");
    let warm = r.below(40);
    let spec = the_spec();
    let b = spec.builder(PLAINTEXT);
    for _ in 0..warm {
        let msg = b.authorize("GET", &*spec.uri, &());
        fresh_one(m, raw_nonce(&msg).unwrap_or(""), "before the fork")?;
    }
    let children = r.range(2, 6);
    let nested = r.chance(1, 2);
    let same = r.chance(1, 2);
    SAME_IDS.store(same, Ordering::Relaxed);
    let mut pids = Vec::new();
    for c in 0..children {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let ok = std::panic::catch_unwind(|| {
                if nested {
                    write_nonces(fds[1], 2, "child before");
                    let p2 = unsafe { libc::fork() };
                    if p2 == 0 {
                        write_nonces(fds[1], 10, "grandchild");
                        unsafe { libc::_exit(0) };
                    }
                    write_nonces(fds[1], 10, "child after");
                    let mut st = 0;
                    unsafe { libc::waitpid(p2, &mut st, 0) };
                } else {
                    write_nonces(fds[1], 20, if c == 0 { "first child" } else { "child" });
                }
            });
            unsafe { libc::_exit(if ok.is_ok() { 0 } else { 101 }) };
        }
        pids.push(pid);
        if r.chance(1, 2) {
            let msg = b.authorize("GET", &*spec.uri, &());
            fresh_one(m, raw_nonce(&msg).unwrap_or(""), "parent between forks")?;
        }
    }
    unsafe { libc::close(fds[1]) };
    let text = read_all(fds[0]);
    let mut bad = 0;
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        if st != 0 {
            bad += 1;
        }
    }
    SAME_IDS.store(false, Ordering::Relaxed);
    ensure!(bad == 0, "{bad} children failed to sign");
    for _ in 0..20 {
        let msg = b.authorize("GET", &*spec.uri, &());
        fresh_one(m, raw_nonce(&msg).unwrap_or(""), "parent after the forks")?;
    }
    for l in text.lines() {
        let (n, what) = l.split_once(' ').ok_or("line")?;
        fresh_one(m, n, what)?;
        m.count("nonces of children", 1);
    }
    m.count("forks", children as u64 * if nested { 2 } else { 1 });
    m.seen(text.as_bytes());
    Ok(())
}

/// The same program started again in the same circumstances: clock, ids, addresses and environment.
fn c11_restart(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let n = 6;
    let mut kids = Vec::new();
    for _ in 0..n {
        let mut c = Command::new(&me);
        c.arg("--nonces").arg("50").env_clear().stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                libc::personality(0x0040000);
                Ok(())
            });
        }
        kids.push(c.spawn().map_err(|e| e.to_string())?);
    }
    for k in kids {
        let out = k.wait_with_output().map_err(|e| e.to_string())?;
        ensure!(out.status.success(), "process started again failed: {:?}", out.status);
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        ensure_eq!(text.lines().count(), 100, "nonces of a process started again");
        for l in text.lines() {
            fresh_one(m, l.split(' ').next().unwrap(), "process started again")?;
        }
        m.seen(text.as_bytes());
    }
    m.count("processes", n);
    let _ = r;
    Ok(())
}

fn one_nonce() -> String {
    let spec = the_spec();
    raw_nonce(&spec.builder(PLAINTEXT).authorize("GET", &*spec.uri, &())).unwrap_or("").to_owned()
}

/// How many bits of the system's randomness a nonce depends on.
fn c11_entropy(_: &mut Rng, m: &mut Mon, _: u64) -> Res {
    // A new thread each time, in case the state is kept per thread.
    let run = |flip: usize| -> Result<(String, usize), String> {
        std::thread::spawn(move || {
            let _c = Shown::frozen();
            SCRIPT.with(|s| s.set(Some((0, flip))));
            let n = catch(one_nonce).map_err(|(e, _)| e)?;
            let used = SCRIPT.with(|s| s.take()).unwrap().0;
            Ok((n, used))
        })
        .join()
        .unwrap()
    };
    let (base, used) = run(usize::MAX)?;
    let (again, _) = run(usize::MAX)?;
    m.max("random bytes asked for by one nonce", used as u64);
    if used == 0 || base != again {
        // Randomness comes from elsewhere; the other families judge it.
        m.count("randomness not from getrandom", 1);
        return Ok(());
    }
    let mut seen = HashSet::new();
    let mut bits = 0;
    for flip in 0..(used.min(64) * 8) {
        let (n, _) = run(flip)?;
        if n != base {
            bits += 1;
            seen.insert(n);
        }
    }
    m.max("bits of randomness a nonce depends on", bits);
    m.note(|| format!("{used} bytes asked for, {bits} bits matter, {} distinct nonces", seen.len()));
    ensure!(bits >= 64 && seen.len() >= 64, "a nonce depends on {bits} bits of the randomness only ({} distinct nonces)", seen.len());
    m.seen(base.as_bytes());
    m.sample(|| format!("nonce {base}: {used} random bytes, {bits} bits matter"));
    Ok(())
}

/// Entropy by observation: collision entropy of each position, given the best single earlier position
/// of the same nonce and the same position of the nonce before.
fn c11_statistics(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let _c = Shown::frozen();
    let n = if m.thorough { 400_000 } else { 60_000 };
    let spec = the_spec();
    let b = spec.builder(PLAINTEXT);
    let mut by_len: BTreeMap<usize, Vec<Vec<u8>>> = BTreeMap::new();
    for _ in 0..n {
        let msg = b.authorize("GET", &*spec.uri, &());
        let x = raw_nonce(&msg).unwrap_or("").to_owned();
        fresh_one(m, &x, "statistics")?;
        by_len.entry(x.len()).or_default().push(x.into_bytes());
    }
    let (len, v) = by_len.iter().max_by_key(|(_, v)| v.len()).unwrap();
    let n = v.len() as f64;
    m.note(|| format!("lengths {:?}", by_len.iter().map(|(k, v)| (*k, v.len())).collect::<Vec<_>>()));
    // Collision entropy in bits.
    let h2 = |f: &dyn Fn(usize) -> u16, count: usize| -> f64 {
        let mut c = vec![0u32; 65536];
        for k in 0..count {
            c[f(k) as usize] += 1;
        }
        let s: f64 = c.iter().map(|&c| c as f64 * (c as f64 - 1.0)).sum();
        -((s + 1.0) / (n * (n - 1.0))).log2()
    };
    let mut total = 0.0;
    let mut per = Vec::new();
    for i in 0..*len {
        let own = h2(&|k| v[k][i] as u16, v.len());
        let mut best = own;
        for j in 0..i {
            let joint = h2(&|k| (v[k][i] as u16) << 8 | v[k][j] as u16, v.len());
            let cond = joint - h2(&|k| v[k][j] as u16, v.len());
            best = best.min(cond);
        }
        let joint = h2(&|k| if k == 0 { 0 } else { (v[k][i] as u16) << 8 | v[k - 1][i] as u16 }, v.len());
        best = best.min(joint - own);
        // The difference to the one before, which shows counters.
        let diff = h2(&|k| if k == 0 { 0 } else { v[k][i].wrapping_sub(v[k - 1][i]) as u16 }, v.len());
        best = best.min(diff);
        per.push((own * 100.0).round() / 100.0);
        total += best.max(0.0);
    }
    m.max("observed entropy of a nonce in bits", total as u64);
    m.note(|| format!("entropy per position {per:?}, total {total}"));
    m.sample(|| format!("{} nonces of length {len}: collision entropy per position {per:?}, conditional total {total:.1} bits", v.len()));
    // A margin for estimation; 64 characters make 6 bits each.
    ensure!(total >= 63.0, "nonces have only {total:.1} bits of entropy (per position {per:?})");
    m.seen(&r.u64().to_le_bytes());
    Ok(())
}

/// Short reads, interrupted and failing calls of the randomness source.
fn c11_faults(_: &mut Rng, m: &mut Mon, idx: u64) -> Res {
    for fault in 1..=3u8 {
        let got: Vec<Result<String, (String, String)>> = std::thread::spawn(move || {
            let _c = Shown::frozen();
            FAULT.with(|f| f.set(fault));
            let v = (0..20).map(|_| catch(one_nonce)).collect();
            FAULT.with(|f| f.set(0));
            v
        })
        .join()
        .unwrap();
        for g in got {
            match g {
                Ok(n) => fresh_one(m, &n, "faulty source of randomness")?,
                Err((e, _)) => {
                    ensure!(fault == 3, "short or interrupted reads of randomness: {e}");
                    m.count("no randomness, no message", 1);
                }
            }
        }
    }
    m.seen(&idx.to_le_bytes());
    Ok(())
}

/// A build without `std`.
fn c11_bare(_: &mut Rng, m: &mut Mon, idx: u64) -> Res {
    let Ok(exe) = std::env::var("BARE_NONCE") else { return Ok(()) };
    for _ in 0..3 {
        let out = Command::new(&exe).arg("20000").stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        ensure!(out.status.success(), "no_std build: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr));
        ensure!(text.lines().count() > 20000, "no_std build: {} lines", text.lines().count());
        for l in text.lines() {
            let n = raw_nonce(l).ok_or_else(|| format!("no_std build: no nonce in {l:?}"))?;
            fresh_one(m, n, "no_std build")?;
        }
        m.count("nonces of the no_std build", text.lines().count() as u64);
    }
    m.seen(&idx.to_le_bytes());
    Ok(())
}

// --------------------------------------------------------------------------------------------- C12

fn any_time(r: &mut Rng) -> i128 {
    let ns = *r.pick(&[0, 1, 499_999_999, 500_000_000, 999_999_999, 123_456_789]);
    let s: i128 = match r.below(8) {
        0 => *r.pick(&[
            0, 1, 2, -1, -2, 9, 10, 59, 60, 86_399, 86_400, 999_999_999, 1_000_000_000, i32::MAX as i128, i32::MAX as i128 + 1, i32::MIN as i128, u32::MAX as i128, u32::MAX as i128 + 1,
            1 << 40, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, i64::MAX as i128 / NS, i64::MAX as i128 / NS + 1, u64::MAX as i128 / NS, u64::MAX as i128 / NS + 1, i64::MAX as i128 - 1, i64::MAX as i128 / 1000, i64::MIN as i128 + 1,
        ]),
        1 => (r.u64() >> r.below(64)) as i64 as i128,
        2 => -((r.u64() >> r.range(1, 63)) as i128),
        _ => 1_600_000_000 + r.below(1_000_000_000) as i128,
    };
    s.min(i64::MAX as i128) * NS + ns
}

/// What the clock shows at a time, as a timestamp.
fn shown(ns: i128) -> i128 {
    ns.div_euclid(NS)
}

fn judge_time(ts: &str, lo: i128, hi: i128, what: &str) -> Res {
    ensure!(!ts.is_empty() && ts.bytes().all(|b| b.is_ascii_digit()) && !ts.starts_with('0'), "{what}: oauth_timestamp {ts:?} is not a positive integer in plain digits (clock shows {lo})");
    let n: i128 = ts.parse().map_err(|_| format!("{what}: oauth_timestamp {ts:?}"))?;
    // At or before the epoch, any positive number will do.
    ensure!(if hi > 0 { (lo.max(1)..=hi).contains(&n) || (lo <= 0 && n > 0) } else { n > 0 }, "{what}: oauth_timestamp {n}, but the clock showed {lo}..{hi}");
    Ok(())
}

fn received(all: &[(String, String)], k: &str) -> Result<String, String> {
    let v: Vec<&String> = all.iter().filter(|(k2, _)| k2 == k).map(|(_, v)| v).collect();
    match v[..] {
        [one] => Ok(one.clone()),
        _ => Err(format!("{k} occurs {} times", v.len())),
    }
}

/// Verifies the signature of a message under the received values.
fn verify(spec: &Spec, t: Transport, msg: &str) -> Result<rfc::Pairs, String> {
    let all = parse(t, &spec.uri, msg)?;
    let sig = received(&all, "oauth_signature")?;
    let mut full = all.clone();
    if t == Transport::Header {
        full.extend(spec.plain_params());
    }
    rfc::verify(&Check::Hmac, &spec.method, &spec.uri, &full, &sig, &spec.client.1, spec.token_secret())?;
    Ok(all)
}

/// A clock which stands still, at any reading, through any entry point.
fn c12_reading(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let t = any_time(r);
    let mut spec = Spec::random(r, false);
    spec.timestamp = None;
    let free = r.chance(1, 5);
    if free {
        spec.nonce = None;
        spec.callback = None;
        spec.verifier = None;
        spec.version = false;
        spec.token.get_or_insert_with(|| ("t".into(), "s".into()));
    }
    m.note(|| format!("clock at {t} ns: {}", spec.describe()));
    let req = Manual(spec.params.clone());
    let e = r.below(if free { entries::FREE_COUNT } else { entries::COUNT });
    let (out, reads) = {
        let c = Shown::at(t, 0);
        let out = if free { entries::run_free(e, &spec, &req, HMAC_SHA1) } else { entries::run(e, &spec, &req, HMAC_SHA1, "")? };
        (out, c.peek().reads)
    };
    let spec = Spec { method: out.method.clone(), ..spec };
    let all = verify(&spec, out.transport, &out.msg).map_err(|e| format!("clock at {t} ns: {e}"))?;
    let ts = received(&all, "oauth_timestamp")?;
    judge_time(&ts, shown(t), shown(t), "clock standing still")?;
    m.count("clock readings served", reads);
    m.count(if t < NS { "at or before the epoch" } else { "after the epoch" }, 1);
    m.seen(&t.to_le_bytes());
    m.sample(|| format!("clock at {t} ns => oauth_timestamp {ts}"));
    Ok(())
}

/// A clock which moves at every reading, forwards or backwards, and a builder which lives long.
fn c12_moving(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let mut spec = Spec::random(r, false);
    spec.timestamp = None;
    m.note(|| spec.describe());
    let start = (1_500_000_000 + r.below(1_000_000_000) as i128) * NS + r.below(NS as usize) as i128;
    let step = *r.pick(&[1, 1_000_000, NS / 2, NS, 3 * NS, 1000 * NS, -NS, -5 * NS]);
    let req = Manual(spec.params.clone());
    let c = Shown::at(start, step);
    let b = spec.builder(HMAC_SHA1);
    for i in 0..6 {
        if r.chance(1, 2) {
            c.set(start + (r.below(100_000) as i128 - 50_000) * NS);
        }
        let t = TRANSPORTS[r.below(3)];
        let me = &*spec.method;
        let before = c.peek();
        let b2;
        let b = if i % 2 == 0 {
            &b
        } else {
            b2 = b.clone();
            &b2
        };
        let msg = match t {
            Transport::Header => b.authorize(me, &*spec.uri, &req),
            Transport::Form => b.to_form(me, &*spec.uri, &req),
            Transport::Query => b.to_query(me, spec.uri.clone(), &req),
        };
        let after = c.peek();
        let all = verify(&spec, t, &msg)?;
        let ts = received(&all, "oauth_timestamp")?;
        ensure!(after.reads > before.reads, "signed without looking at the clock (oauth_timestamp {ts})");
        let (a, z) = (before.ns, after.ns - step);
        judge_time(&ts, shown(a.min(z)), shown(a.max(z)), &format!("message {i} of a builder, clock moving by {step} ns"))?;
        m.count("clock readings served", after.reads - before.reads);
    }
    drop(c);
    m.seen(spec.describe().as_bytes());
    Ok(())
}

/// A serializer driven by hand.
fn c12_hand(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = {
        let mut s = Spec::random_without_params(r);
        s.timestamp = None;
        s
    };
    let opts = spec.options();
    let start = (1_500_000_000 + r.below(1_000_000_000) as i128) * NS;
    let c = Shown::at(start, 0);
    let mut a = Authorizer::form(&spec.method, &*spec.uri, spec.client_ref(), spec.token_ref(), &opts, HMAC_SHA1);
    let mut msgs = Vec::new();
    c.set(start + 10 * NS);
    for i in 0..8 {
        if i == 4 {
            // A clone asks the clock for itself.
            let mut d = a.clone();
            c.set(start + 50 * NS);
            for k in 4..8 {
                proto_call(&mut d, k);
            }
            msgs.push((d.end(), 0, 50));
            c.set(start + 20 * NS);
        }
        proto_call(&mut a, i);
    }
    c.set(start + 70 * NS);
    msgs.push((a.end(), 0, 70));
    drop(c);
    for (msg, lo, hi) in &msgs {
        let all = verify(&spec, Transport::Form, msg)?;
        judge_time(&received(&all, "oauth_timestamp")?, shown(start) + lo, shown(start) + hi, "by hand")?;
    }
    m.seen(spec.describe().as_bytes());
    Ok(())
}

/// Exactly the value set is used, whatever the clock shows; unsetting it goes back to the clock.
fn c12_set(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let t = any_time(r);
    let mut spec = Spec::random(r, false);
    spec.timestamp = None;
    m.note(|| format!("clock at {t} ns: {}", spec.describe()));
    let req = Manual(spec.params.clone());
    let c = Shown::at(t, 0);
    let mut b = spec.builder(HMAC_SHA1);
    let mut last: Option<u64> = None;
    for _ in 0..r.range(1, 6) {
        match r.below(5) {
            4 => {}
            0 => {
                b.timestamp(None);
                last = None;
            }
            1 => {
                let v = timestamp(r);
                b.timestamp(NonZeroU64::new(v).unwrap());
                last = Some(v);
            }
            _ => {
                let v = timestamp(r);
                b.timestamp(NonZeroU64::new(v));
                last = Some(v);
            }
        }
        let tr = TRANSPORTS[r.below(3)];
        let msg = match tr {
            Transport::Header => b.authorize(&spec.method, &*spec.uri, &req),
            Transport::Form => b.to_form(&spec.method, &*spec.uri, &req),
            Transport::Query => b.to_query(&spec.method, spec.uri.clone(), &req),
        };
        let all = verify(&spec, tr, &msg)?;
        let ts = received(&all, "oauth_timestamp")?;
        match last {
            Some(v) => {
                ensure_eq!(ts, v.to_string(), "timestamp which was set");
                m.count("timestamps set", 1);
            }
            None => {
                judge_time(&ts, shown(t), shown(t), "no timestamp set")?;
                m.count("timestamps from the clock", 1);
            }
        }
    }
    drop(c);
    m.seen(spec.describe().as_bytes());
    Ok(())
}

/// The clock of the system, unaltered; signature methods which use only one of the two.
fn c12_real(r: &mut Rng, m: &mut Mon, _: u64) -> Res {
    let spec = {
        let mut s = Spec::random(r, false);
        s.timestamp = None;
        s
    };
    let req = Manual(spec.params.clone());
    let t = TRANSPORTS[r.below(3)];
    let (mono0, t0) = (std::time::Instant::now(), now());
    let b = spec.builder(HMAC_SHA1);
    let msg = match t {
        Transport::Header => b.authorize(&spec.method, &*spec.uri, &req),
        Transport::Form => b.to_form(&spec.method, &*spec.uri, &req),
        Transport::Query => b.to_query(&spec.method, spec.uri.clone(), &req),
    };
    let t1 = now();
    let slack = if (t1 as i128 - t0 as i128).unsigned_abs() > mono0.elapsed().as_secs() as u128 + 2 { 1_000_000_000 } else { 0 }; // the clock was set meanwhile
    let all = verify(&spec, t, &msg)?;
    judge_time(&received(&all, "oauth_timestamp")?, t0 as i128 - slack, t1 as i128 + slack, "system clock")?;
    // Only the timestamp is used.
    let sm = RecFull::new(RecConfig { name: "X", use_nonce: r.chance(1, 2), use_timestamp: true, signature: "s".into() });
    let at = any_time(r).max(NS);
    let c = Shown::at(at, 0);
    let mut b2 = Builder::<_, &str, &str>::new(Credentials::new("c", "s"), sm.clone());
    b2.token(None);
    let msg = b2.authorize("GET", "http://a/", &());
    drop(c);
    let all = rfc::parse_header(&msg)?;
    let ts = received(&all, "oauth_timestamp")?;
    judge_time(&ts, shown(at), shown(at), "custom signature method")?;
    let fed: Vec<String> = sm.take().into_iter().filter_map(|e| if let Ev::Proto("oauth_timestamp", v) = e { Some(v) } else { None }).collect();
    ensure_eq!(fed, [ts], "timestamp fed to the signature method");
    m.seen(msg.as_bytes());
    Ok(())
}

static PROPS: &[Prop] = &[
    Prop {
        id: "C11",
        rule: "Counted by distinct sets of nonces: a case observes 1 to 60,000 nonces, registered with all others of the run.",
        families: &[
            serial("fork", 60, 3000, c11_fork),
            serial("restart", 4, 200, c11_restart),
            serial("entropy", 2, 20, c11_entropy),
            serial("faults", 5, 200, c11_faults),
            fam("statistics", 2, 24, c11_statistics),
            fam("bare", 1, 8, c11_bare),
            fam("threads", 40, 1500, c11_threads),
            fam("inputs", 3000, 100_000, c11_inputs),
            fam("still", 400, 30_000, c11_still),
        ],
    },
    Prop {
        id: "C12",
        rule: "A case counts by its clock reading or signed input.",
        families: &[fam("reading", 12000, 1_500_000, c12_reading), fam("moving", 4000, 300_000, c12_moving), fam("hand", 3000, 200_000, c12_hand), fam("set", 4000, 400_000, c12_set), fam("real", 3000, 300_000, c12_real)],
    },
];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| &**s) == Some("--nonces") {
        SAME_IDS.store(true, Ordering::Relaxed);
        FREEZE_ALL.store(true, Ordering::Relaxed);
        let n: usize = a[2].parse().unwrap();
        write_nonces(1, n, "main");
        let h = std::thread::spawn(move || write_nonces(1, n, "thread"));
        h.join().unwrap();
        std::io::stdout().flush().unwrap();
        return;
    }
    drive::mon::main(PROPS);
}
