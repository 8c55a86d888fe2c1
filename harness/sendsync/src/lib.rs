//! Compiles iff the types of the library may be moved to and shared among threads.

use std::collections::BTreeMap;

use either::Either;
use oauth::request::AssertSorted;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::recorder::{Record, Recorder};
use oauth::serializer::Urlencoder;
use oauth::signature_method::{HmacSha1, Plaintext, SignatureMethod};
use oauth::{Builder, Credentials, ParameterList, RsaSha1, Rsa09Sha1, Token};

fn both<T: Send + Sync>() {}

struct NotSend(#[allow(dead_code)] std::rc::Rc<std::cell::Cell<u8>>);

type Signer<SM> = <SM as SignatureMethod>::Sign;
type Signature<SM> = <Signer<SM> as oauth::signature_method::Sign>::Signature;

fn method<SM: SignatureMethod + Send + Sync>()
where
    Signer<SM>: Send + Sync,
    Signature<SM>: Send + Sync,
{
    both::<SM>();
    both::<Builder<'static, SM, String, String>>();
    both::<Builder<'static, SM, &'static str, Box<str>>>();
    both::<Authorizer<'static, SM, String>>();
    both::<Authorizer<'static, SM, Vec<char>>>();
}

pub fn all() {
    method::<HmacSha1>();
    method::<Plaintext>();
    method::<RsaSha1>();
    method::<&'static RsaSha1>();
    method::<Rsa09Sha1>();
    method::<&'static Rsa09Sha1>();
    method::<Either<HmacSha1, Plaintext>>();
    // The method itself does not own a buffer.
    both::<Plaintext<NotSend>>();
    both::<Options<'static>>();
    both::<Credentials<String>>();
    both::<Credentials<&'static str>>();
    both::<Token<String, String>>();
    both::<Token<&'static str, Box<str>>>();
    both::<ParameterList<String, u64>>();
    both::<ParameterList<&'static str, String, Box<[(&'static str, String)]>>>();
    both::<AssertSorted<std::vec::IntoIter<(String, String)>>>();
    both::<AssertSorted<&'static BTreeMap<String, String>>>();
    both::<Urlencoder<String>>();
    both::<Recorder>();
    both::<Record>();
}
