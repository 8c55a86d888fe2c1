//! RSASSA-PKCS1-v1_5 verification on schoolbook bignums (little-endian u32 limbs).

fn from_be(b: &[u8]) -> Vec<u32> {
    let mut v = Vec::new();
    for c in b.rchunks(4) {
        v.push(c.iter().fold(0u32, |a, &x| a << 8 | x as u32));
    }
    v
}

fn to_be(v: &[u32], len: usize) -> Vec<u8> {
    let mut out: Vec<u8> = v.iter().rev().flat_map(|x| x.to_be_bytes()).collect();
    while out.len() > len {
        assert_eq!(out.remove(0), 0);
    }
    while out.len() < len {
        out.insert(0, 0);
    }
    out
}

fn geq(a: &[u32], b: &[u32]) -> bool {
    for i in (0..a.len().max(b.len())).rev() {
        let (x, y) = (a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0));
        if x != y {
            return x > y;
        }
    }
    true
}

fn sub(a: &mut [u32], b: &[u32]) {
    let mut borrow = 0i64;
    for i in 0..a.len() {
        let d = a[i] as i64 - b.get(i).copied().unwrap_or(0) as i64 - borrow;
        borrow = (d < 0) as i64;
        a[i] = d as u32;
    }
}

/// Montgomery arithmetic modulo an odd `n`.
struct Mont {
    n: Vec<u32>,
    inv: u32,
    r2: Vec<u32>,
}

impl Mont {
    fn new(n: &[u32]) -> Self {
        let mut inv = 1u32;
        for _ in 0..5 {
            inv = inv.wrapping_mul(2u32.wrapping_sub(n[0].wrapping_mul(inv)));
        }
        let k = n.len();
        // 2^(64k) mod n by doubling.
        let mut r = vec![0u32; k + 1];
        r[0] = 1;
        for _ in 0..64 * k {
            let mut carry = 0;
            for x in r.iter_mut() {
                let c = *x >> 31;
                *x = *x << 1 | carry;
                carry = c;
            }
            if geq(&r, n) {
                sub(&mut r, n);
            }
        }
        r.truncate(k);
        Mont { n: n.to_vec(), inv: inv.wrapping_neg(), r2: r }
    }

    fn mul(&self, a: &[u32], b: &[u32]) -> Vec<u32> {
        let k = self.n.len();
        let mut t = vec![0u32; k + 2];
        for i in 0..k {
            let mut c = 0u64;
            for j in 0..k {
                let s = t[j] as u64 + a[i] as u64 * b[j] as u64 + c;
                t[j] = s as u32;
                c = s >> 32;
            }
            let s = t[k] as u64 + c;
            t[k] = s as u32;
            t[k + 1] = (s >> 32) as u32;
            let m = t[0].wrapping_mul(self.inv);
            let mut c = (t[0] as u64 + m as u64 * self.n[0] as u64) >> 32;
            for j in 1..k {
                let s = t[j] as u64 + m as u64 * self.n[j] as u64 + c;
                t[j - 1] = s as u32;
                c = s >> 32;
            }
            let s = t[k] as u64 + c;
            t[k - 1] = s as u32;
            t[k] = t[k + 1].wrapping_add((s >> 32) as u32);
        }
        t.truncate(k + 1);
        if geq(&t, &self.n) {
            sub(&mut t, &self.n);
        }
        t.truncate(k);
        t
    }
}

pub fn modpow(base: &[u8], exp: u64, modulus: &[u8]) -> Vec<u8> {
    let mut n = from_be(modulus);
    while n.last() == Some(&0) {
        n.pop();
    }
    let mut b = from_be(base);
    b.resize(n.len().max(b.len()), 0);
    assert!(b.len() == n.len() && !geq(&b, &n), "base out of range");
    let m = Mont::new(&n);
    let x = m.mul(&b, &m.r2);
    let mut one = vec![0; n.len()];
    one[0] = 1;
    let mut acc = m.mul(&one, &m.r2);
    for i in (0..64 - exp.leading_zeros()).rev() {
        acc = m.mul(&acc, &acc);
        if exp >> i & 1 == 1 {
            acc = m.mul(&acc, &x);
        }
    }
    to_be(&m.mul(&acc, &one), modulus.len())
}

/// RFC 8017 section 8.2.2 with SHA-1.
pub fn verify_sha1(n: &[u8], e: u64, msg: &[u8], sig: &[u8]) -> Result<(), String> {
    let n: Vec<u8> = n.iter().copied().skip_while(|&b| b == 0).collect();
    if sig.len() != n.len() {
        return Err(format!("RSA signature is {} bytes, modulus is {}", sig.len(), n.len()));
    }
    if sig >= &n[..] {
        return Err("RSA signature representative out of range".into());
    }
    let em = modpow(sig, e, &n);
    const INFO: [u8; 15] = [0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14];
    let mut want = vec![0, 1];
    want.resize(n.len() - 36, 0xff);
    want.push(0);
    want.extend_from_slice(&INFO);
    want.extend_from_slice(&crate::hash::sha1(msg));
    if em != want {
        return Err("RSA signature does not verify over the base string".into());
    }
    Ok(())
}

#[test]
fn small() {
    // 3^17 mod 1000003 and a 64-bit modulus
    assert_eq!(modpow(&[0, 0, 3], 17, &[0x0f, 0x42, 0x43]), ((129140163u64 % 1000003) as u32).to_be_bytes()[1..].to_vec());
    let n = 0xFFFF_FFFF_FFFF_FFC5u64;
    let mut acc = 1u128;
    for _ in 0..65537 {
        acc = acc * 0x1234_5678_9ABC_DEF1u128 % n as u128;
    }
    assert_eq!(modpow(&0x1234_5678_9ABC_DEF1u64.to_be_bytes(), 65537, &n.to_be_bytes()), (acc as u64).to_be_bytes().to_vec());
}
