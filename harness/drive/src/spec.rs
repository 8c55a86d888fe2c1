//! What is to be signed, and what the receiver must get.

use std::num::NonZeroU64;
use std::time::{SystemTime, UNIX_EPOCH};

use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials};
use oracle::gen::{self, Param};
use oracle::rfc::{self, Check, Pairs};
use oracle::{clip, Res, Rng};

#[derive(Clone, Debug)]
pub struct Spec {
    pub method: String,
    pub uri: String,
    pub client: (String, String),
    pub token: Option<(String, String)>,
    pub callback: Option<String>,
    pub verifier: Option<String>,
    pub nonce: Option<String>,
    pub timestamp: Option<u64>,
    pub version: bool,
    /// In the order of RFC 5849 section 3.4.1.3.2.
    pub params: Vec<Param>,
}

fn opt(r: &mut Rng, num: usize, f: impl FnOnce(&mut Rng) -> String) -> Option<String> {
    if r.chance(num, 10) {
        Some(f(r))
    } else {
        None
    }
}

pub fn timestamp(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => *r.pick(&[1, 9, 10, 99, 1_234_567_890, 4_294_967_295, 4_294_967_296, i64::MAX as u64, u64::MAX, u64::MAX - 1]),
        1 => (r.u64() >> r.below(63)).max(1),
        _ => 1_700_000_000 + r.below(100_000_000) as u64,
    }
}

impl Spec {
    pub fn random(r: &mut Rng, allow_encoded: bool) -> Spec {
        let mut s = Spec::random_without_params(r);
        s.set_params(gen::params(r, allow_encoded));
        s
    }

    pub fn random_without_params(r: &mut Rng) -> Spec {
        Spec {
            method: gen::method(r),
            uri: gen::uri(r),
            client: (gen::text(r), gen::secret(r)),
            token: if r.chance(6, 10) { Some((gen::text(r), gen::secret(r))) } else { None },
            callback: opt(r, 3, gen::text),
            verifier: opt(r, 3, gen::text),
            nonce: opt(r, 7, gen::text),
            timestamp: if r.chance(7, 10) { Some(timestamp(r)) } else { None },
            version: r.chance(4, 10),
            params: Vec::new(),
        }
    }

    /// A spec whose messages are a function of it.
    pub fn fixed(mut self, r: &mut Rng) -> Spec {
        if self.nonce.is_none() {
            self.nonce = Some(gen::text(r));
        }
        if self.timestamp.is_none() {
            self.timestamp = Some(timestamp(r));
        }
        self
    }

    pub fn set_params(&mut self, mut p: Vec<Param>) {
        p.sort_by_cached_key(Param::order);
        self.params = p;
    }

    pub fn plain_params(&self) -> Pairs {
        self.params.iter().map(|p| (p.key.clone(), p.plain.clone())).collect()
    }

    pub fn client_ref(&self) -> Credentials<&str> {
        Credentials::new(&*self.client.0, &*self.client.1)
    }

    pub fn token_ref(&self) -> Option<Credentials<&str>> {
        self.token.as_ref().map(|t| Credentials::new(&*t.0, &*t.1))
    }

    pub fn token_secret(&self) -> Option<&str> {
        self.token.as_ref().map(|t| &*t.1)
    }

    pub fn builder<SM: SignatureMethod>(&self, sm: SM) -> Builder<'_, SM, &str, &str> {
        let mut b = Builder::new(self.client_ref(), sm);
        b.token(self.token_ref())
            .callback(self.callback.as_deref())
            .verifier(self.verifier.as_deref())
            .nonce(self.nonce.as_deref())
            .timestamp(self.timestamp.and_then(NonZeroU64::new))
            .version(self.version);
        b
    }

    pub fn options(&self) -> oauth::serializer::auth::Options<'_> {
        let mut o = oauth::serializer::auth::Options::new();
        o.callback(self.callback.as_deref())
            .verifier(self.verifier.as_deref())
            .nonce(self.nonce.as_deref())
            .timestamp(self.timestamp.and_then(NonZeroU64::new))
            .version(self.version);
        o
    }

    pub fn describe(&self) -> String {
        format!(
            "method {:?} uri {:?} client {:?} token {:?} callback {:?} verifier {:?} nonce {:?} timestamp {:?} version {} params {:?}",
            self.method,
            self.uri,
            self.client,
            self.token,
            self.callback,
            self.verifier,
            self.nonce,
            self.timestamp,
            self.version,
            self.params.iter().map(|p| (&p.key, &p.val, p.encoded)).collect::<Vec<_>>()
        )
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Transport {
    Header,
    Form,
    Query,
}

pub const TRANSPORTS: [Transport; 3] = [Transport::Header, Transport::Form, Transport::Query];

pub fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).map_or(0, |d| d.as_secs())
}

/// What the receiver made of a message.
#[derive(Debug)]
pub struct Parsed {
    pub all: Pairs,
    pub signature: String,
    pub nonce: Option<String>,
    pub timestamp: Option<u64>,
}

impl Parsed {
    pub fn request(&self) -> Pairs {
        self.all.iter().filter(|(k, _)| !gen::is_proto(k)).cloned().collect()
    }
}

pub fn parse(t: Transport, uri: &str, msg: &str) -> Result<Pairs, String> {
    match t {
        Transport::Header => rfc::parse_header(msg),
        Transport::Form => rfc::parse_form(msg),
        Transport::Query => rfc::parse_query(msg, uri),
    }
}

/// Which of the fresh parameters the signature method uses.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Uses {
    pub nonce: bool,
    pub timestamp: bool,
}

pub const USES_BOTH: Uses = Uses { nonce: true, timestamp: true };

/// Parses `msg` and checks that it carries exactly the intended parameters. `at` is the range of
/// clock readings within which an unset timestamp must lie.
pub fn check_params(spec: &Spec, name: &str, uses: Uses, t: Transport, msg: &str, at: (u64, u64)) -> Result<Parsed, String> {
    let all = parse(t, &spec.uri, msg)?;
    let mut left = all.clone();
    let mut take = |k: &str| -> Result<Option<String>, String> {
        let mut found: Option<String> = None;
        let mut n = 0;
        left.retain(|(k2, v)| {
            if k2 == k {
                n += 1;
                found = Some(v.clone());
                false
            } else {
                true
            }
        });
        if n > 1 {
            return Err(format!("{k} occurs {n} times in {:?}", clip(msg)));
        }
        Ok(found)
    };
    let mut want = |k: &str, v: Option<&str>| -> Res {
        let got = take(k)?;
        if got.as_deref() != v {
            return Err(format!("{k}: expected {v:?}, got {got:?} in {:?}", clip(msg)));
        }
        Ok(())
    };
    want("oauth_consumer_key", Some(&spec.client.0))?;
    want("oauth_signature_method", Some(name))?;
    want("oauth_token", spec.token.as_ref().map(|t| &*t.0))?;
    want("oauth_callback", spec.callback.as_deref())?;
    want("oauth_verifier", spec.verifier.as_deref())?;
    want("oauth_version", if spec.version { Some("1.0") } else { None })?;
    let nonce;
    let timestamp;
    if !uses.nonce {
        want("oauth_nonce", None)?;
        nonce = None;
    } else if let Some(n) = &spec.nonce {
        want("oauth_nonce", Some(n))?;
        nonce = Some(n.clone());
    } else {
        let n = take("oauth_nonce")?.ok_or_else(|| format!("oauth_nonce is missing in {:?}", clip(msg)))?;
        if n.is_empty() {
            return Err(format!("oauth_nonce is empty in {:?}", clip(msg)));
        }
        nonce = Some(n);
    }
    let mut want = |k: &str, v: Option<&str>| -> Res {
        let got = take(k)?;
        if got.as_deref() != v {
            return Err(format!("{k}: expected {v:?}, got {got:?} in {:?}", clip(msg)));
        }
        Ok(())
    };
    if !uses.timestamp {
        want("oauth_timestamp", None)?;
        timestamp = None;
    } else if let Some(ts) = spec.timestamp {
        want("oauth_timestamp", Some(&ts.to_string()))?;
        timestamp = Some(ts);
    } else {
        let ts = take("oauth_timestamp")?.ok_or_else(|| format!("oauth_timestamp is missing in {:?}", clip(msg)))?;
        let n: u64 = ts.parse().map_err(|_| format!("oauth_timestamp {ts:?} is not a number"))?;
        if n.to_string() != ts || n == 0 {
            return Err(format!("oauth_timestamp {ts:?} is not a positive integer in plain digits"));
        }
        // The clock may be stepped while this runs, so a margin is left; C12 is exact.
        if n + 5 < at.0 || n > at.1 + 5 {
            return Err(format!("oauth_timestamp {n} is not current (clock read {at:?})"));
        }
        timestamp = Some(n);
    }
    let signature = take("oauth_signature")?.ok_or_else(|| format!("oauth_signature is missing in {:?}", clip(msg)))?;
    if let Some((k, _)) = left.iter().find(|(k, _)| gen::is_proto(k)) {
        return Err(format!("unexpected {k} in {:?}", clip(msg)));
    }
    let mut expected = if t == Transport::Header { Vec::new() } else { spec.plain_params() };
    let mut got = left;
    expected.sort();
    got.sort();
    if expected != got {
        return Err(format!(
            "request parameters of the {t:?}: expected {}, got {}",
            clip(&format!("{expected:?}")),
            clip(&format!("{got:?}"))
        ));
    }
    Ok(Parsed { all, signature, nonce, timestamp })
}

/// Verifies the signature of a message as the server would: from the received message, `body` being
/// the form or query which accompanies an `Authorization` header.
pub fn check_signature(spec: &Spec, check: &Check, t: Transport, parsed: &Parsed, body: Option<&str>) -> Res {
    let mut all = parsed.all.clone();
    if t == Transport::Header {
        match body {
            Some(b) => all.extend(rfc::parse_form(b)?),
            None => all.extend(spec.plain_params()),
        }
    }
    rfc::verify(check, &spec.method, &spec.uri, &all, &parsed.signature, &spec.client.1, spec.token_secret())
}

pub fn check_message(spec: &Spec, check: &Check, t: Transport, msg: &str, at: (u64, u64)) -> Result<Parsed, String> {
    let p = check_params(spec, check.name(), USES_BOTH, t, msg, at)?;
    check_signature(spec, check, t, &p, None)?;
    Ok(p)
}

/// Signs in the given transport, and for a header makes the accompanying body as well.
pub fn send<SM, R>(t: Transport, spec: &Spec, req: &R, sm: SM) -> (String, Option<String>, (u64, u64))
where
    SM: SignatureMethod + Clone,
    R: oauth::Request + ?Sized,
{
    let b = spec.builder(sm);
    let t0 = now();
    let msg = match t {
        Transport::Header => b.authorize(&spec.method, &spec.uri, req),
        Transport::Form => b.to_form(&spec.method, &spec.uri, req),
        Transport::Query => b.to_query(&spec.method, spec.uri.clone(), req),
    };
    let t1 = now();
    let body = if t == Transport::Header { Some(oauth::to_form(req)) } else { None };
    (msg, body, (t0, t1))
}
