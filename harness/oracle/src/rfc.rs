//! The receiving side of OAuth 1.0: parsers of the three transports and the signature base string,
//! all written from RFC 5849, RFC 7235 and the URL-encoded form format.

use crate::codec::{b64, dec_canonical, enc, unb64};
use crate::hash::hmac_sha1;

pub type Pairs = Vec<(String, String)>;

/// Parses an `Authorization` header value into decoded parameters.
pub fn parse_header(h: &str) -> Result<Pairs, String> {
    let bad = |why: String| format!("malformed Authorization header: {why}: {:?}", crate::clip(h));
    if let Some(c) = h.chars().find(|c| !(' '..='~').contains(c)) {
        return Err(bad(format!("character {c:?}")));
    }
    let Some(scheme) = h.get(..6) else { return Err(bad("too short".into())) };
    if !scheme.eq_ignore_ascii_case("OAuth ") {
        return Err(bad("scheme".into()));
    }
    let mut rest = h[6..].trim_start_matches(' ');
    let mut out = Vec::new();
    loop {
        let Some(eq) = rest.find('=') else { return Err(bad("no `=`".into())) };
        let (k, r) = rest.split_at(eq);
        let k = k.trim_end_matches(' ');
        let r = r[1..].trim_start_matches(' ');
        let Some(r) = r.strip_prefix('"') else { return Err(bad("value is not quoted".into())) };
        let Some(q) = r.find('"') else { return Err(bad("unterminated value".into())) };
        let v = &r[..q];
        if v.contains('\\') {
            return Err(bad("quoted-pair in value".into()));
        }
        if k.is_empty() {
            return Err(bad("empty name".into()));
        }
        out.push((dec_canonical(k).map_err(bad)?, dec_canonical(v).map_err(bad)?));
        rest = r[q + 1..].trim_start_matches([' ', '\t']);
        if rest.is_empty() {
            return Ok(out);
        }
        let Some(r) = rest.strip_prefix(',') else { return Err(bad("junk after value".into())) };
        rest = r.trim_start_matches([' ', '\t']);
    }
}

/// Parses a form body (or query component) into decoded parameters.
pub fn parse_form(s: &str) -> Result<Pairs, String> {
    if s.is_empty() {
        return Ok(Vec::new());
    }
    let mut out = Vec::new();
    for part in s.split('&') {
        let Some((k, v)) = part.split_once('=') else {
            return Err(format!("form component without `=`: {:?} in {:?}", crate::clip(part), crate::clip(s)));
        };
        out.push((dec_canonical(k)?, dec_canonical(v)?));
    }
    Ok(out)
}

/// Splits a query off a URI built from the query-less `uri`.
pub fn parse_query(s: &str, uri: &str) -> Result<Pairs, String> {
    let Some(rest) = s.strip_prefix(uri) else {
        return Err(format!("URI text altered: {:?} does not start with {:?}", crate::clip(s), crate::clip(uri)));
    };
    if rest.is_empty() {
        return Ok(Vec::new());
    }
    let Some(q) = rest.strip_prefix('?') else {
        return Err(format!("query is not introduced by `?`: {:?}", crate::clip(rest)));
    };
    if q.is_empty() {
        return Err("empty query part".into());
    }
    parse_form(q)
}

/// Section 3.4.1.
pub fn base_string(method: &str, uri: &str, params: &[(String, String)]) -> String {
    let mut p: Vec<(String, String)> = params.iter().filter(|(k, _)| k != "oauth_signature").map(|(k, v)| (enc(k), enc(v))).collect();
    p.sort();
    let norm = p.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join("&");
    format!("{}&{}&{}", enc(&method.to_ascii_uppercase()), enc(uri), enc(&norm))
}

pub fn signing_key(cs: &str, ts: Option<&str>) -> String {
    format!("{}&{}", enc(cs), enc(ts.unwrap_or("")))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Check {
    Hmac,
    Plaintext,
    /// modulus (big endian) and public exponent
    Rsa(Vec<u8>, u64),
}

impl Check {
    pub fn name(&self) -> &'static str {
        match self {
            Check::Hmac => "HMAC-SHA1",
            Check::Plaintext => "PLAINTEXT",
            Check::Rsa(..) => "RSA-SHA1",
        }
    }
}

/// Verifies decoded `oauth_signature` over all decoded parameters.
pub fn verify(check: &Check, method: &str, uri: &str, all: &[(String, String)], sig: &str, cs: &str, ts: Option<&str>) -> Result<(), String> {
    match check {
        Check::Hmac => {
            let base = base_string(method, uri, all);
            let key = signing_key(cs, ts);
            let want = b64(&hmac_sha1(key.as_bytes(), base.as_bytes()));
            if want != sig {
                return Err(format!(
                    "HMAC-SHA1 signature mismatch: got {:?}, a server computes {:?}\n  base string {:?}\n  key {:?} ({} bytes)",
                    sig,
                    want,
                    crate::clip(&base),
                    crate::clip(&key),
                    key.len()
                ));
            }
        }
        Check::Plaintext => {
            let want = signing_key(cs, ts);
            if want != sig {
                return Err(format!("PLAINTEXT signature mismatch: got {:?}, want {:?}", crate::clip(sig), crate::clip(&want)));
            }
        }
        Check::Rsa(n, e) => {
            let base = base_string(method, uri, all);
            let raw = unb64(sig)?;
            crate::rsa::verify_sha1(n, *e, base.as_bytes(), &raw).map_err(|m| format!("{m}\n  base string {:?}", crate::clip(&base)))?;
        }
    }
    Ok(())
}

#[test]
fn rfc_examples() {
    // RFC 5849 section 3.4.1.1 (parameters as decoded)
    let p: Vec<(String, String)> = [
        ("b5", "=%3D"), ("a3", "a"), ("c@", ""), ("a2", "r b"), ("oauth_consumer_key", "9djdj82h48djs9d2"), ("oauth_token", "kkk9d7dh3k39sjv7"),
        ("oauth_signature_method", "HMAC-SHA1"), ("oauth_timestamp", "137131201"), ("oauth_nonce", "7d8f3e4a"), ("c2", ""), ("a3", "2 q"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect();
    assert_eq!(
        base_string("post", "http://example.com/request", &p),
        "POST&http%3A%2F%2Fexample.com%2Frequest&a2%3Dr%2520b%26a3%3D2%2520q%26a3%3Da%26b5%3D%253D%25253D%26c%2540%3D%26c2%3D%26oauth_consumer_key%3D9djdj82h48djs9d2%26oauth_nonce%3D7d8f3e4a%26oauth_signature_method%3DHMAC-SHA1%26oauth_timestamp%3D137131201%26oauth_token%3Dkkk9d7dh3k39sjv7"
    );
    // OAuth Core 1.0 appendix A.5
    let h = "OAuth oauth_consumer_key=\"dpf43f3p2l4k3l03\",oauth_token=\"nnch734d00sl2jdk\", oauth_signature_method=\"HMAC-SHA1\",oauth_signature=\"tR3%2BTy81lMeYAr%2FFid0kMTYa%2FWM%3D\",oauth_timestamp=\"1191242096\",oauth_nonce=\"kllo9940pd9333jh\",oauth_version=\"1.0\"";
    let mut all = parse_header(h).unwrap();
    let sig = all.iter().find(|p| p.0 == "oauth_signature").unwrap().1.clone();
    all.extend(parse_query("http://photos.example.net/photos?file=vacation.jpg&size=original", "http://photos.example.net/photos").unwrap());
    verify(&Check::Hmac, "GET", "http://photos.example.net/photos", &all, &sig, "kd94hf93k423kf44", Some("pfkkdhi9sl3r4s00")).unwrap();
    all[0].1.push('x');
    assert!(verify(&Check::Hmac, "GET", "http://photos.example.net/photos", &all, &sig, "kd94hf93k423kf44", Some("pfkkdhi9sl3r4s00")).is_err());
}
