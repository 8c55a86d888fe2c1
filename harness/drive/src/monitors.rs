//! Observers: sinks, serializers and signature methods which record what the library does to them.

use std::cell::RefCell;
use std::fmt::{self, Display, Formatter, Write};
use std::rc::Rc;

use oauth::serializer::Serializer;
use oauth::signature_method::{Sign, SignatureMethod};

/// A growing sink which counts its writes.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Sink {
    pub text: String,
    pub writes: usize,
}

impl Sink {
    pub fn with(s: &str) -> Sink {
        Sink { text: s.to_owned(), writes: 0 }
    }
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.writes += 1;
        self.text.push_str(s);
        Ok(())
    }
}

impl Display for Sink {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text)
    }
}

/// A call made to a `Sign`.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    SignWith(String, Option<String>),
    Method(String),
    Uri(String),
    /// A parameter fed through `Sign::parameter`.
    Param(String, String),
    /// A protocol parameter fed through its own callback, by its full name.
    Proto(&'static str, String),
    SignatureMethod,
    Version,
    Delim,
    End,
}

#[derive(Clone, Debug)]
pub struct RecConfig {
    pub name: &'static str,
    pub use_nonce: bool,
    pub use_timestamp: bool,
    pub signature: String,
}

pub type Log = Rc<RefCell<Vec<Ev>>>;

/// A signature method overriding every callback.
#[derive(Clone, Debug)]
pub struct RecFull {
    pub cfg: RecConfig,
    pub log: Log,
}

#[derive(Clone)]
pub struct RecFullSign {
    cfg: RecConfig,
    pub log: Log,
}

impl RecFull {
    pub fn new(cfg: RecConfig) -> Self {
        RecFull { cfg, log: Default::default() }
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut self.log.borrow_mut())
    }
}

impl SignatureMethod for RecFull {
    type Sign = RecFullSign;
    fn sign_with(self, cs: &str, ts: Option<&str>) -> RecFullSign {
        self.log.borrow_mut().push(Ev::SignWith(cs.to_owned(), ts.map(str::to_owned)));
        RecFullSign { cfg: self.cfg, log: self.log }
    }
}

impl RecFullSign {
    fn put(&self, e: Ev) {
        self.log.borrow_mut().push(e);
    }
}

impl Sign for RecFullSign {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str {
        self.cfg.name
    }
    fn request_method(&mut self, method: &str) {
        self.put(Ev::Method(method.to_owned()));
    }
    fn uri<T: Display>(&mut self, uri: T) {
        self.put(Ev::Uri(uri.to_string()));
    }
    fn parameter<V: Display>(&mut self, key: &str, value: V) {
        self.put(Ev::Param(key.to_owned(), value.to_string()));
    }
    fn delimiter(&mut self) {
        self.put(Ev::Delim);
    }
    fn end(self) -> String {
        self.put(Ev::End);
        self.cfg.signature
    }
    fn callback<V: Display>(&mut self, value: V) {
        self.put(Ev::Proto("oauth_callback", value.to_string()));
    }
    fn consumer_key<V: Display>(&mut self, value: V) {
        self.put(Ev::Proto("oauth_consumer_key", value.to_string()));
    }
    fn nonce<V: Display>(&mut self, value: V) {
        self.put(Ev::Proto("oauth_nonce", value.to_string()));
    }
    fn use_nonce(&self) -> bool {
        self.cfg.use_nonce
    }
    fn signature_method(&mut self) {
        self.put(Ev::SignatureMethod);
    }
    fn timestamp(&mut self, value: u64) {
        self.put(Ev::Proto("oauth_timestamp", value.to_string()));
    }
    fn use_timestamp(&self) -> bool {
        self.cfg.use_timestamp
    }
    fn token<V: Display>(&mut self, value: V) {
        self.put(Ev::Proto("oauth_token", value.to_string()));
    }
    fn verifier<V: Display>(&mut self, value: V) {
        self.put(Ev::Proto("oauth_verifier", value.to_string()));
    }
    fn version(&mut self) {
        self.put(Ev::Version);
    }
}

/// A signature method which leaves every optional callback to its default.
#[derive(Clone, Debug)]
pub struct RecMin {
    pub cfg: RecConfig,
    pub log: Log,
}

#[derive(Clone)]
pub struct RecMinSign {
    cfg: RecConfig,
    log: Log,
}

impl RecMin {
    pub fn new(mut cfg: RecConfig) -> Self {
        cfg.use_nonce = true;
        cfg.use_timestamp = true;
        RecMin { cfg, log: Default::default() }
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut self.log.borrow_mut())
    }
}

impl SignatureMethod for RecMin {
    type Sign = RecMinSign;
    fn sign_with(self, cs: &str, ts: Option<&str>) -> RecMinSign {
        self.log.borrow_mut().push(Ev::SignWith(cs.to_owned(), ts.map(str::to_owned)));
        RecMinSign { cfg: self.cfg, log: self.log }
    }
}

impl Sign for RecMinSign {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str {
        self.cfg.name
    }
    fn request_method(&mut self, method: &str) {
        self.log.borrow_mut().push(Ev::Method(method.to_owned()));
    }
    fn uri<T: Display>(&mut self, uri: T) {
        self.log.borrow_mut().push(Ev::Uri(uri.to_string()));
    }
    fn parameter<V: Display>(&mut self, key: &str, value: V) {
        self.log.borrow_mut().push(Ev::Param(key.to_owned(), value.to_string()));
    }
    fn delimiter(&mut self) {
        self.log.borrow_mut().push(Ev::Delim);
    }
    fn end(self) -> String {
        self.log.borrow_mut().push(Ev::End);
        self.cfg.signature
    }
}

/// A call made to a `Serializer`.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call {
    Raw(String, String),
    Encoded(String, String),
    /// Index into `SIGNED_PROTO`.
    Proto(usize),
    End,
}

/// A recording serializer whose output is unforgeable.
pub struct RecSer {
    pub calls: Vec<Call>,
    pub id: u64,
}

#[derive(Debug, PartialEq, Eq)]
pub struct RecOut {
    pub calls: Vec<Call>,
    pub id: u64,
}

impl RecSer {
    pub fn new(id: u64) -> Self {
        RecSer { calls: Vec::new(), id }
    }
}

impl Serializer for RecSer {
    type Output = RecOut;
    fn serialize_parameter<V: Display>(&mut self, key: &str, value: V) {
        self.calls.push(Call::Raw(key.to_owned(), value.to_string()));
    }
    fn serialize_parameter_encoded<V: Display>(&mut self, key: &str, value: V) {
        self.calls.push(Call::Encoded(key.to_owned(), value.to_string()));
    }
    fn serialize_oauth_callback(&mut self) {
        self.calls.push(Call::Proto(0));
    }
    fn serialize_oauth_consumer_key(&mut self) {
        self.calls.push(Call::Proto(1));
    }
    fn serialize_oauth_nonce(&mut self) {
        self.calls.push(Call::Proto(2));
    }
    fn serialize_oauth_signature_method(&mut self) {
        self.calls.push(Call::Proto(3));
    }
    fn serialize_oauth_timestamp(&mut self) {
        self.calls.push(Call::Proto(4));
    }
    fn serialize_oauth_token(&mut self) {
        self.calls.push(Call::Proto(5));
    }
    fn serialize_oauth_verifier(&mut self) {
        self.calls.push(Call::Proto(6));
    }
    fn serialize_oauth_version(&mut self) {
        self.calls.push(Call::Proto(7));
    }
    fn end(mut self) -> RecOut {
        self.calls.push(Call::End);
        RecOut { calls: self.calls, id: self.id }
    }
}

/// A custom, not-`String` buffer for PLAINTEXT signatures.
#[derive(Clone, Debug, Default)]
pub struct SegBuf(Vec<String>);

impl Write for SegBuf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push(s.to_owned());
        Ok(())
    }
}

impl Display for SegBuf {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.0.iter().try_for_each(|s| f.write_str(s))
    }
}
