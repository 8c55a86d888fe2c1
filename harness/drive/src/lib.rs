//! Shared parts of the drivers: input specifications, requests, sinks, signing entry points and the
//! message checks.

pub mod derived;
pub mod entries;
#[cfg(feature = "rsa")]
pub mod keys;
pub mod monitors;
pub mod requests;
pub mod spec;

pub use oracle::{clip, codec, gen, hash, mon, rfc, rsa, Mon, Res, Rng};
pub use oracle::{ensure, ensure_eq};

/// Runs the command line's property, with values which sign other messages while they are written.
pub fn main(props: &'static [mon::Prop]) {
    gen::MEANWHILE.set(meanwhile).ok();
    mon::main(props)
}

fn meanwhile(seed: u64) {
    let pick = |i: u32, of: &[&str]| of[(seed >> (24 + 8 * i)) as usize % of.len()].to_owned();
    let params = (0..seed >> 20 & 3).map(|i| requests::text_param(&format!("k{i}"), &pick(i as u32, &["", "a b", "\u{e9}%", "plain"]))).collect();
    let spec = spec::Spec {
        method: pick(0, &["GET", "POST"]),
        uri: "http://meanwhile.example/r%20s".to_owned(),
        client: ("ck".to_owned(), pick(1, &["cs", "&", ""])),
        token: (seed >> 18 & 1 == 1).then(|| ("tk".to_owned(), "t+s".to_owned())),
        callback: (seed >> 19 & 1 == 1).then(|| "oob".to_owned()),
        verifier: None,
        nonce: Some("n".to_owned()),
        timestamp: Some(1 + (seed >> 40)),
        version: seed >> 23 & 1 == 1,
        params,
    };
    let t = spec::TRANSPORTS[(seed >> 50) as usize % 3];
    let sign = || {
        let req = requests::Manual(spec.params.clone());
        if seed >> 60 & 1 == 0 {
            spec::send(t, &spec, &req, oauth::HMAC_SHA1)
        } else {
            spec::send(t, &spec, &req, oauth::PLAINTEXT)
        }
    };
    let here = sign();
    // A thread of its own is not in the middle of anything.
    let there = std::thread::scope(|s| mon::join(s.spawn(sign)));
    if (&here.0, &here.1) != (&there.0, &there.1) {
        panic!("{}a message signed while a value of another is being written is {here:?}, but otherwise {there:?}", mon::FOUND);
    }
}
