//! RSA test keys.

use std::sync::OnceLock;

use oauth::signature_method::{rsa_sha1_06, rsa_sha1_09};
use oracle::rfc::Check;
use rsa_sha1_06::DecodePrivateKey as _;
use rsa_sha1_09::DecodePrivateKey as _;

pub struct Key {
    pub bits: u32,
    pub n: Vec<u8>,
    pub e: u64,
    pub k06: rsa_sha1_06::RsaPrivateKey,
    pub k09: rsa_sha1_09::RsaPrivateKey,
    pub m06: oauth::RsaSha1,
    pub m09: oauth::Rsa09Sha1,
    /// Private numbers in hexadecimal: d, primes.
    pub parts: Vec<String>,
}

impl Key {
    pub fn check(&self) -> Check {
        Check::Rsa(self.n.clone(), self.e)
    }
}

fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim();
    let s = if s.len() % 2 == 1 { format!("0{s}") } else { s.to_owned() };
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

macro_rules! load {
    ($($bits:literal),*) => {
        vec![$({
            let der: &[u8] = include_bytes!(concat!("../../keys/rsa", $bits, ".der"));
            let n = unhex(include_str!(concat!("../../keys/rsa", $bits, ".n")));
            let e = include_str!(concat!("../../keys/rsa", $bits, ".e")).trim().parse().unwrap();
            let parts = include_str!(concat!("../../keys/rsa", $bits, ".parts")).lines().filter_map(|l| l.split_whitespace().nth(1)).map(str::to_owned).collect();
            let k06 = rsa_sha1_06::RsaPrivateKey::from_pkcs8_der(der).unwrap();
            let k09 = rsa_sha1_09::RsaPrivateKey::from_pkcs8_der(der).unwrap();
            Key { bits: $bits, n, e, m06: oauth::RsaSha1::new(k06.clone()), m09: oauth::Rsa09Sha1::new(k09.clone()), k06, k09, parts }
        }),*]
    };
}

pub fn all() -> &'static [Key] {
    static KEYS: OnceLock<Vec<Key>> = OnceLock::new();
    KEYS.get_or_init(|| load!(512, 768, 1024, 1031, 1536, 2048))
}
