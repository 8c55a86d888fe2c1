//! Independent reference model of OAuth 1.0 (RFC 5849), random input generators and the run
//! book-keeping shared by all harnesses.  Deliberately depends on nothing: in particular it shares
//! no code (percent encoding, SHA-1, HMAC, base64, bignum) with the library under test.

pub mod codec;
pub mod gen;
pub mod hash;
pub mod mon;
pub mod rfc;
pub mod rng;
pub mod rsa;

pub use mon::Mon;
pub use rng::Rng;

/// Result of one monitored case: `Err` is a violation.
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)+) => {
        if !$c {
            return Err(format!($($fmt)+));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}\n   left: {}\n  right: {}", format_args!($($fmt)+),
                $crate::clip(&format!("{:?}", a)), $crate::clip(&format!("{:?}", b))));
        }
    }};
}

/// Shortens a text for reports.
pub fn clip(s: &str) -> String {
    if s.chars().count() <= 1500 {
        s.to_owned()
    } else {
        let head: String = s.chars().take(900).collect();
        let tail: Vec<char> = s.chars().rev().take(400).collect();
        format!("{head}…({} chars)…{}", s.chars().count(), tail.into_iter().rev().collect::<String>())
    }
}
