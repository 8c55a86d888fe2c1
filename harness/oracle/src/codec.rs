//! Percent-encoding and base64.

/// RFC 3986 unreserved characters, RFC 5849 section 3.6.
pub fn unreserved(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'-' || b == b'.' || b == b'_' || b == b'~'
}

pub fn enc(s: &str) -> String {
    enc_bytes(s.as_bytes())
}

pub fn enc_bytes(s: &[u8]) -> String {
    const HEX: &[u8; 16] = b"0123456789ABCDEF";
    let mut out = String::with_capacity(s.len() * 2);
    for &b in s {
        if unreserved(b) {
            out.push(b as char);
        } else {
            out.push('%');
            out.push(HEX[(b >> 4) as usize] as char);
            out.push(HEX[(b & 15) as usize] as char);
        }
    }
    out
}

fn hexval(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}

/// Strict decoder: every `%` must begin a triplet and the result must be UTF-8.
pub fn dec(s: &str) -> Result<String, String> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            if i + 2 >= b.len() {
                return Err(format!("truncated escape in {:?}", crate::clip(s)));
            }
            match (hexval(b[i + 1]), hexval(b[i + 2])) {
                (Some(h), Some(l)) => out.push(h << 4 | l),
                _ => return Err(format!("bad escape at {i} in {:?}", crate::clip(s))),
            }
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).map_err(|_| format!("escapes of {:?} are not UTF-8", crate::clip(s)))
}

/// Decodes text which must be canonically percent-encoded.
pub fn dec_canonical(s: &str) -> Result<String, String> {
    let d = dec(s)?;
    let e = enc(&d);
    if e != s {
        return Err(format!("not percent-encoded per RFC 5849 3.6: {:?} (expected {:?})", crate::clip(s), crate::clip(&e)));
    }
    Ok(d)
}

pub fn b64(bytes: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in bytes.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                out.push(A[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

/// Strict decoder for padded standard base64.
pub fn unb64(s: &str) -> Result<Vec<u8>, String> {
    let bad = || format!("not standard base64: {:?}", crate::clip(s));
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return Err(bad());
    }
    let mut out = Vec::new();
    for c in b.chunks(4) {
        let pad = c.iter().rev().take_while(|&&x| x == b'=').count();
        if pad > 2 {
            return Err(bad());
        }
        let mut n = 0u32;
        for (i, &x) in c.iter().enumerate() {
            let v = match x {
                b'A'..=b'Z' => x - b'A',
                b'a'..=b'z' => x - b'a' + 26,
                b'0'..=b'9' => x - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                b'=' if i >= 4 - pad => 0,
                _ => return Err(bad()),
            };
            n = n << 6 | v as u32;
        }
        out.extend_from_slice(&n.to_be_bytes()[1..4 - pad]);
    }
    if b64(&out) != s {
        return Err(bad());
    }
    Ok(out)
}
