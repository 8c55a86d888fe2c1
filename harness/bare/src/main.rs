//! Prints messages signed by a build of the library without `std` and `alloc`: `bare N`.

use std::fmt;
use std::io::Write;
use std::num::NonZeroU64;

use oauth::signature_method::HmacSha1;
use oauth::{Builder, Credentials};

struct Buf {
    b: [u8; 512],
    n: usize,
}

impl fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let end = self.n + s.len();
        self.b.get_mut(self.n..end).ok_or(fmt::Error)?.copy_from_slice(s.as_bytes());
        self.n = end;
        Ok(())
    }
}

fn one(b: &Builder<'_, HmacSha1, &str, &str>) -> String {
    let m = b.authorize_with_buf(Buf { b: [0; 512], n: 0 }, "GET", "http://example.com/", &());
    String::from_utf8(m.b[..m.n].to_vec()).unwrap()
}

fn main() {
    let n: usize = std::env::args().nth(1).and_then(|n| n.parse().ok()).unwrap_or(1);
    let mut b = Builder::new(Credentials::new("client", "secret"), oauth::HMAC_SHA1);
    b.token(Credentials::new("token", "secret")).timestamp(NonZeroU64::new(1_700_000_000));
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for _ in 0..n {
        writeln!(out, "{}", one(&b)).unwrap();
    }
    let v: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4).map(|_| s.spawn(|| (0..200).map(|_| one(&b)).collect())).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for m in v.iter().flatten() {
        writeln!(out, "{m}").unwrap();
    }
}
