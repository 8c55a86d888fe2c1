//! Requests of every kind the library supports, carrying given parameters.

use std::collections::{BTreeMap, VecDeque};
use std::fmt::{self, Display, Formatter};
use std::rc::Rc;
use std::sync::Arc;

use oauth::request::AssertSorted;
use oauth::serializer::{Serializer, SerializerExt};
use oauth::{ParameterList, Request};
use oracle::gen::{How, Param, Val, SIGNED_PROTO};
use oracle::Rng;

/// A hand-written request: raw and pre-encoded parameters, in the documented protocol.
#[derive(Clone, Debug)]
pub struct Manual(pub Vec<Param>);

pub fn proto_call<S: Serializer>(s: &mut S, i: usize) {
    match i {
        0 => s.serialize_oauth_callback(),
        1 => s.serialize_oauth_consumer_key(),
        2 => s.serialize_oauth_nonce(),
        3 => s.serialize_oauth_signature_method(),
        4 => s.serialize_oauth_timestamp(),
        5 => s.serialize_oauth_token(),
        6 => s.serialize_oauth_verifier(),
        _ => s.serialize_oauth_version(),
    }
}

impl Request for Manual {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut next = 0;
        for p in &self.0 {
            if next == 0 && *p.key > *SIGNED_PROTO[7] {
                s.serialize_oauth_parameters();
                next = 8;
            }
            while next < 8 && *SIGNED_PROTO[next] < *p.key {
                proto_call(&mut s, next);
                next += 1;
            }
            if p.encoded {
                s.serialize_parameter_encoded(&p.key, &p.val);
            } else {
                s.serialize_parameter(&p.key, &p.val);
            }
        }
        while next < 8 {
            proto_call(&mut s, next);
            next += 1;
        }
        s.end()
    }
}

/// A key which is not a plain string.
#[derive(Clone, Debug)]
pub struct WrapKey(pub Arc<str>, pub u32);

impl AsRef<str> for WrapKey {
    fn as_ref(&self) -> &str {
        &self.0
    }
}

/// A pair type which only borrows as a pair.
#[derive(Clone, Debug)]
pub struct BorrowPair(pub Box<(String, Val)>);

impl std::borrow::Borrow<(String, Val)> for BorrowPair {
    fn borrow(&self) -> &(String, Val) {
        &self.0
    }
}

/// A container of pairs in which the pairs are only a part.
#[derive(Clone, Debug)]
pub struct Container {
    pub label: String,
    pub list: Vec<(String, Val)>,
}

impl AsRef<[(String, Val)]> for Container {
    fn as_ref(&self) -> &[(String, Val)] {
        &self.list
    }
}

impl AsMut<[(String, Val)]> for Container {
    fn as_mut(&mut self) -> &mut [(String, Val)] {
        &mut self.list
    }
}

pub struct DynVal(pub Rc<dyn Display>);

impl Display for DynVal {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

pub enum AnyReq {
    Unit,
    None,
    Manual(Manual),
    OptManual(Option<Manual>),
    List(ParameterList<String, Val>),
    ListBox(ParameterList<String, Val, Box<[(String, Val)]>>),
    ListBorrow(ParameterList<String, Val, Vec<BorrowPair>, BorrowPair>),
    ListRc(ParameterList<WrapKey, Val, Vec<Rc<(WrapKey, Val)>>, Rc<(WrapKey, Val)>>),
    ListContainer(ParameterList<String, Val, Container>),
    ListDyn(ParameterList<&'static str, DynVal>),
    List3(ParameterList<String, Val, [(String, Val); 3]>),
    SortedVec(AssertSorted<std::vec::IntoIter<(String, Val)>>),
    SortedDeque(AssertSorted<std::collections::vec_deque::IntoIter<(WrapKey, String)>>),
    SortedMap(BTreeMap<String, Val>),
    Nest(Box<AnyReqMut>),
}

/// Serializes through `&mut &Option<&R>`.
pub struct AnyReqMut(pub Option<Manual>);

impl Request for AnyReqMut {
    fn serialize<S: Serializer>(&self, s: S) -> S::Output {
        let o: Option<&Manual> = self.0.as_ref();
        let mut r: &Option<&Manual> = &o;
        let m: &mut &Option<&Manual> = &mut r;
        m.serialize(s)
    }
}

impl Request for AnyReq {
    fn serialize<S: Serializer>(&self, s: S) -> S::Output {
        match self {
            AnyReq::Unit => ().serialize(s),
            AnyReq::None => Option::<()>::None.serialize(s),
            AnyReq::Manual(r) => r.serialize(s),
            AnyReq::OptManual(r) => r.serialize(s),
            AnyReq::List(r) => r.serialize(s),
            AnyReq::ListBox(r) => r.serialize(s),
            AnyReq::ListBorrow(r) => r.serialize(s),
            AnyReq::ListRc(r) => r.serialize(s),
            AnyReq::ListContainer(r) => r.serialize(s),
            AnyReq::ListDyn(r) => r.serialize(s),
            AnyReq::List3(r) => r.serialize(s),
            AnyReq::SortedVec(r) => r.serialize(s),
            AnyReq::SortedDeque(r) => r.serialize(s),
            AnyReq::SortedMap(r) => AssertSorted::new(r).serialize(s),
            AnyReq::Nest(r) => r.serialize(s),
        }
    }
}

pub fn unencoded(ps: &[Param]) -> bool {
    ps.iter().all(|p| !p.encoded)
}

/// Interns a key for the few request kinds which need a `'static` one.
fn leak(s: &str) -> &'static str {
    use std::collections::HashSet;
    use std::sync::Mutex;
    static SET: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut g = SET.lock().unwrap();
    let set = g.get_or_insert_with(HashSet::new);
    if let Some(s) = set.get(s) {
        return s;
    }
    let s: &'static str = Box::leak(s.to_owned().into_boxed_str());
    set.insert(s);
    s
}

impl AnyReq {
    /// A request carrying `ps` (which are sorted), of a random kind. Returns the name of the kind.
    pub fn random(r: &mut Rng, ps: &[Param]) -> (AnyReq, &'static str) {
        if ps.is_empty() && r.chance(3, 4) {
            return match r.below(4) {
                0 => (AnyReq::Unit, "unit"),
                1 => (AnyReq::None, "none"),
                2 => (AnyReq::OptManual(None), "opt-none"),
                _ => (AnyReq::Nest(Box::new(AnyReqMut(None))), "nest-none"),
            };
        }
        if !unencoded(ps) {
            return match r.below(3) {
                0 => (AnyReq::OptManual(Some(Manual(ps.to_vec()))), "opt-manual"),
                1 => (AnyReq::Nest(Box::new(AnyReqMut(Some(Manual(ps.to_vec()))))), "nest"),
                _ => (AnyReq::Manual(Manual(ps.to_vec())), "manual"),
            };
        }
        let sorted: Vec<(String, Val)> = ps.iter().map(|p| (p.key.clone(), p.val.clone())).collect();
        let mut shuffled = sorted.clone();
        r.shuffle(&mut shuffled);
        match r.below(14) {
            0 => (AnyReq::Manual(Manual(ps.to_vec())), "manual"),
            1 | 2 => (AnyReq::List(ParameterList::new(shuffled)), "list"),
            3 => (AnyReq::ListBox(ParameterList::new(shuffled.into_boxed_slice())), "list-box"),
            4 => (AnyReq::ListBorrow(ParameterList::new(shuffled.into_iter().map(|p| BorrowPair(Box::new(p))).collect())), "list-borrow"),
            5 => (
                AnyReq::ListRc(shuffled.into_iter().map(|(k, v)| Rc::new((WrapKey(k.into(), 7), v))).collect()),
                "list-rc",
            ),
            6 => (AnyReq::ListContainer(ParameterList::from(Container { label: "x".into(), list: shuffled })), "list-container"),
            7 => (
                AnyReq::ListDyn(ParameterList::new(shuffled.into_iter().map(|(k, v)| (leak(&k), DynVal(Rc::new(v)))).collect())),
                "list-dyn",
            ),
            8 if ps.len() == 3 => {
                let a: [(String, Val); 3] = shuffled.try_into().ok().unwrap();
                (AnyReq::List3(ParameterList::new(a)), "list-array")
            }
            9 => (AnyReq::SortedVec(AssertSorted::new(sorted)), "sorted-vec"),
            10 => (
                AnyReq::SortedDeque(AssertSorted::new(sorted.into_iter().map(|(k, v)| (WrapKey(k.into(), 1), v.text())).collect::<VecDeque<_>>())),
                "sorted-deque",
            ),
            11 | 12 => {
                let m: BTreeMap<String, Val> = sorted.iter().cloned().collect();
                if m.len() == sorted.len() {
                    (AnyReq::SortedMap(m), "sorted-map")
                } else {
                    (AnyReq::SortedVec(AssertSorted::new(sorted)), "sorted-vec")
                }
            }
            _ => {
                let mut l: ParameterList<String, Val> = ParameterList::default();
                while !shuffled.is_empty() {
                    let n = r.range(1, shuffled.len());
                    l.extend(shuffled.drain(..n));
                }
                (AnyReq::List(l), "list-extended")
            }
        }
    }
}

pub fn text_param(key: &str, v: &str) -> Param {
    Param { key: key.to_owned(), val: Val::Text(v.to_owned(), How::Whole), encoded: false, plain: v.to_owned() }
}
