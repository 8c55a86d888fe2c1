//! Every way to sign a request.

use std::fmt::Write;

use oauth::serializer::auth::Authorizer;
use oauth::signature_method::SignatureMethod;
use oauth::{Request, Token};

use crate::monitors::Sink;
use crate::spec::{Spec, Transport};

pub struct Out {
    pub transport: Transport,
    pub method: String,
    /// Without the prior content of the buffer.
    pub msg: String,
}

const NAMES: &[&str] = &[
    "authorize", "to_form", "to_query", "authorize_with_buf", "to_form_with_buf", "into_authorization", "into_form", "into_query",
    "into_authorization_with_buf", "into_form_with_buf", "to_query(Sink)", "authorize_with_buf(&mut String)", "to_form_with_buf(Sink)", "into_query(Sink)",
    "get", "put", "post", "delete", "options", "head", "connect", "patch", "trace",
    "put_form", "post_form", "options_form", "patch_form",
    "get_query", "put_query", "post_query", "delete_query", "options_query", "head_query", "connect_query", "patch_query", "trace_query",
    "Authorizer::authorization", "Authorizer::form", "Authorizer::query", "Authorizer::authorization_with_buf", "Authorizer::form_with_buf",
];

const FREE: &[&str] = &["oauth::authorize", "oauth::get", "oauth::put", "oauth::post", "oauth::delete", "oauth::options", "oauth::head", "oauth::connect", "oauth::patch", "oauth::trace"];

pub const COUNT: usize = 41;
pub const FREE_COUNT: usize = 10;

pub fn name(e: usize) -> &'static str {
    NAMES[e]
}

pub fn free_name(e: usize) -> &'static str {
    FREE[e]
}

fn strip(prefix: &str, full: String) -> Result<String, String> {
    match full.strip_prefix(prefix) {
        Some(s) => Ok(s.to_owned()),
        None => Err(format!("prior content {:?} of the buffer was not kept: {:?}", prefix, crate::clip(&full))),
    }
}

/// Signs through entry point `e`, with `prefix` as the prior content of a caller-supplied buffer.
pub fn run<SM: SignatureMethod + Clone, R: Request + ?Sized>(e: usize, spec: &Spec, req: &R, sm: SM, prefix: &str) -> Result<Out, String> {
    use Transport::*;
    let b = spec.builder(sm.clone());
    let (m, u) = (&*spec.method, &*spec.uri);
    let opts = spec.options();
    let mut method = m;
    macro_rules! short {
        ($m:literal, $e:expr) => {{
            method = $m;
            $e
        }};
    }
    let q = || u.to_owned();
    let s = || {
        let mut s = String::with_capacity(prefix.len());
        s.push_str(prefix);
        s
    };
    let (transport, msg) = match e {
        0 => (Header, b.authorize(m, u, req)),
        1 => (Form, b.to_form(m, u, req)),
        2 => (Query, b.to_query(m, q(), req)),
        3 => (Header, strip(prefix, b.authorize_with_buf(s(), m, u, req))?),
        4 => (Form, strip(prefix, b.to_form_with_buf(s(), m, u, req))?),
        5 => (Header, b.into_authorization(m, u, req)),
        6 => (Form, b.into_form(m, u, req)),
        7 => (Query, b.into_query(m, q(), req)),
        8 => (Header, strip(prefix, b.into_authorization_with_buf(s(), m, u, req))?),
        9 => (Form, strip(prefix, b.into_form_with_buf(s(), m, u, req))?),
        10 => (Query, b.to_query(m, Sink::with(u), req).text),
        11 => {
            let mut buf = s();
            b.authorize_with_buf(&mut buf, m, u.to_owned(), req).write_str("").unwrap();
            (Header, strip(prefix, buf)?)
        }
        12 => (Form, strip(prefix, b.to_form_with_buf(Sink::with(prefix), m, Box::<str>::from(u), req).text)?),
        13 => (Query, b.into_query(m, Sink::with(u), req).text),
        14 => short!("GET", (Header, b.get(u, req))),
        15 => short!("PUT", (Header, b.put(u, req))),
        16 => short!("POST", (Header, b.post(u, req))),
        17 => short!("DELETE", (Header, b.delete(u, req))),
        18 => short!("OPTIONS", (Header, b.options(u, req))),
        19 => short!("HEAD", (Header, b.head(u, req))),
        20 => short!("CONNECT", (Header, b.connect(u, req))),
        21 => short!("PATCH", (Header, b.patch(u, req))),
        22 => short!("TRACE", (Header, b.trace(u, req))),
        23 => short!("PUT", (Form, b.put_form(u, req))),
        24 => short!("POST", (Form, b.post_form(u, req))),
        25 => short!("OPTIONS", (Form, b.options_form(u, req))),
        26 => short!("PATCH", (Form, b.patch_form(u, req))),
        27 => short!("GET", (Query, b.get_query(q(), req))),
        28 => short!("PUT", (Query, b.put_query(q(), req))),
        29 => short!("POST", (Query, b.post_query(q(), req))),
        30 => short!("DELETE", (Query, b.delete_query(q(), req))),
        31 => short!("OPTIONS", (Query, b.options_query(q(), req))),
        32 => short!("HEAD", (Query, b.head_query(q(), req))),
        33 => short!("CONNECT", (Query, b.connect_query(q(), req))),
        34 => short!("PATCH", (Query, b.patch_query(q(), req))),
        35 => short!("TRACE", (Query, b.trace_query(q(), req))),
        36 => (Header, req.serialize(Authorizer::authorization(m, u, spec.client_ref(), spec.token_ref(), &opts, sm))),
        37 => (Form, req.serialize(Authorizer::form(m, u, spec.client_ref(), spec.token_ref(), &opts, sm))),
        38 => (Query, req.serialize(Authorizer::query(m, q(), spec.client_ref(), spec.token_ref(), &opts, sm))),
        39 => (Header, strip(prefix, req.serialize(Authorizer::authorization_with_buf(s(), m, u, spec.client_ref(), spec.token_ref(), &opts, sm)))?),
        40 => (Form, strip(prefix, req.serialize(Authorizer::form_with_buf(s(), m, u, spec.client_ref(), spec.token_ref(), &opts, sm)))?),
        _ => unreachable!(),
    };
    Ok(Out { transport, method: method.to_owned(), msg })
}

/// Signs through free function `e`; `spec` must have token credentials and no options set.
pub fn run_free<SM: SignatureMethod, R: Request + ?Sized>(e: usize, spec: &Spec, req: &R, sm: SM) -> Out {
    let u = &*spec.uri;
    let (ti, ts) = spec.token.as_ref().unwrap();
    let token = Token::from_parts(&*spec.client.0, &*spec.client.1, ti.clone(), ts.clone());
    let token = Token::new(token.client.map(str::to_owned), token.token);
    let t = &token;
    let (method, msg) = match e {
        0 => (&*spec.method, oauth::authorize(&spec.method, u, req, t, sm)),
        1 => ("GET", oauth::get(u, req, t, sm)),
        2 => ("PUT", oauth::put(u, req, t, sm)),
        3 => ("POST", oauth::post(u, req, t, sm)),
        4 => ("DELETE", oauth::delete(u, req, t, sm)),
        5 => ("OPTIONS", oauth::options(u, req, t, sm)),
        6 => ("HEAD", oauth::head(u, req, t, sm)),
        7 => ("CONNECT", oauth::connect(u, req, t, sm)),
        8 => ("PATCH", oauth::patch(u, req, t, sm)),
        9 => ("TRACE", oauth::trace(u, req, t, sm)),
        _ => unreachable!(),
    };
    Out { transport: Transport::Header, method: method.to_owned(), msg }
}
