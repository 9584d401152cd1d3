//! One face for the three kinds of bitfield, so that every workload runs over all of them.
use crate::text::{Record, Text};
use serde::de::DeserializeOwned;
use serde::Serialize;
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
use std::any::Any;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::{Deref, DerefMut};
use typenum::Unsigned;

pub type Bytes = SmallVec<[u8; 128]>;

pub fn sv(b: &[u8]) -> Bytes {
    SmallVec::from_slice(b)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    List,
    Vector,
    Dynamic,
}

/// A bitfield of some type. The workloads are written once over this face; only these small
/// forwarding functions are compiled per type.
pub trait Face: Send {
    fn dup(&self) -> Box<dyn Face>;
    fn dup_onto(&self, dst: &mut dyn Face);
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn same(&self, o: &dyn Face) -> bool;
    fn differs(&self, o: &dyn Face) -> bool;
    fn feed(&self, h: &mut dyn Hasher);
    fn debug(&self) -> String;
    fn as_ssz_bytes(&self) -> Vec<u8>;
    fn ssz_bytes_len(&self) -> usize;
    fn into_byte_api(&self) -> Bytes;
    fn raw(&self) -> Bytes;
    fn view(&self) -> &[u8];
    fn length(&self) -> usize;
    fn empty(&self) -> bool;
    fn put(&mut self, i: usize, v: bool) -> Result<(), String>;
    fn at(&self, i: usize) -> Result<bool, String>;
    fn walk(&self) -> Box<dyn Iterator<Item = bool> + '_>;
    /// The other consumers of an iterator, after `skip` steps: count, last, fold, filtered count.
    fn consume(&self, skip: usize) -> (usize, Option<bool>, Vec<bool>, usize, Option<usize>);
    fn ones(&self) -> usize;
    fn highest(&self) -> Option<usize>;
    fn zero(&self) -> bool;
    fn shift(&mut self, n: usize) -> Result<(), String>;
    fn minus_assign(&mut self, o: &B);
    fn minus(&self, o: &B) -> B;
    fn or(&self, o: &B) -> Result<B, String>;
    fn and(&self, o: &B) -> Result<B, String>;
    fn subset(&self, o: &B) -> Option<bool>;
    fn to_json(&self) -> Result<String, String>;
    fn record(&self, human: bool) -> Result<String, String>;
}

/// An owned bitfield of some type.
pub struct B(pub Box<dyn Face>);
impl Deref for B {
    type Target = dyn Face;
    fn deref(&self) -> &(dyn Face + 'static) {
        &*self.0
    }
}
impl DerefMut for B {
    fn deref_mut(&mut self) -> &mut (dyn Face + 'static) {
        &mut *self.0
    }
}
impl Clone for B {
    fn clone(&self) -> B {
        B(self.0.dup())
    }
    fn clone_from(&mut self, o: &B) {
        o.0.dup_onto(&mut *self.0)
    }
}
impl PartialEq for B {
    fn eq(&self, o: &B) -> bool {
        self.0.same(&*o.0)
    }
    #[allow(clippy::partialeq_ne_impl)]
    fn ne(&self, o: &B) -> bool {
        self.0.differs(&*o.0)
    }
}
impl Hash for B {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.feed(h)
    }
}
impl Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&vcore::run::clip(&self.0.debug(), 400))
    }
}

/// What a type offers without a value, and its reference rules.
#[derive(Clone, Copy)]
pub struct Ty {
    pub kind: Kind,
    /// The bound of the type, if it has one.
    pub bound: Option<usize>,
    /// The constructor; for a vector only its own length can be asked for.
    pub make: fn(usize) -> Result<B, String>,
    pub ssz: fn(&[u8]) -> Result<B, String>,
    pub bytes: fn(Bytes) -> Result<B, String>,
    pub json: fn(&str) -> Result<B, String>,
    pub de: fn(Text<'_>) -> Result<B, String>,
    pub more: Option<More>,
}

/// Further ways through serde_json, compiled for a few types.
#[derive(Clone, Copy)]
pub struct More {
    pub reader: fn(&[u8]) -> Result<B, String>,
    pub value: fn(&str) -> Result<B, String>,
    pub to_value: fn(&B) -> Result<String, String>,
    pub to_vec: fn(&B) -> Result<Vec<u8>, String>,
}

impl Ty {
    pub fn of<F: Field>() -> Ty {
        Ty {
            kind: F::KIND,
            bound: F::bound(),
            make: |n| F::make(n).map(b),
            ssz: |x| s(<F as Decode>::from_ssz_bytes(x)).map(b),
            bytes: |x| F::from_byte_api(x).map(b),
            json: |x| serde_json::from_str::<F>(x).map(b).map_err(|e| e.to_string()),
            de: |x| F::deserialize(x).map(b).map_err(|e| e.0),
            more: None,
        }
    }
    pub fn full<F: Field>() -> Ty {
        Ty {
            more: Some(More {
                reader: |x| serde_json::from_reader::<_, F>(x).map(b).map_err(|e| e.to_string()),
                value: |x| {
                    serde_json::from_value::<F>(serde_json::Value::String(x.into())).map(b).map_err(|e| e.to_string())
                },
                to_value: |x| match serde_json::to_value(own::<F>(&*x.0)) {
                    Ok(serde_json::Value::String(s)) => Ok(s),
                    r => Err(format!("{r:?}")),
                },
                to_vec: |x| serde_json::to_vec(own::<F>(&*x.0)).map_err(|e| e.to_string()),
            }),
            ..Self::of::<F>()
        }
    }
    pub fn from_ssz(&self, x: &[u8]) -> Result<B, String> {
        (self.ssz)(x)
    }
    pub fn from_byte_api(&self, x: &[u8]) -> Result<B, String> {
        (self.bytes)(sv(x))
    }
    pub fn name(&self) -> String {
        match (self.kind, self.bound) {
            (Kind::List, Some(n)) => format!("BitList<{n}>"),
            (Kind::Vector, Some(n)) => format!("BitVector<{n}>"),
            _ => "BitVectorDynamic".into(),
        }
    }
    /// Is a field of this many bits allowed?
    pub fn allowed(&self, len: usize) -> bool {
        match (self.kind, self.bound) {
            (Kind::List, Some(n)) => len <= n,
            (Kind::Vector, Some(n)) => len == n,
            _ => len > 0 && len % 8 == 0,
        }
    }
    /// The reference: which byte strings are encodings, and of what.
    pub fn model_decode(&self, b: &[u8]) -> Option<Vec<bool>> {
        let bit = |i: usize| b[i / 8] >> (i % 8) & 1 == 1;
        match (self.kind, self.bound) {
            (Kind::List, Some(n)) => {
                let last = *b.last()?;
                if last == 0 {
                    return None;
                }
                let top = (b.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
                if top > n {
                    return None;
                }
                Some((0..top).map(bit).collect())
            }
            (Kind::Vector, Some(n)) => {
                let want = if n == 0 { 1 } else { n / 8 + (n % 8 != 0) as usize };
                if b.len() != want || (n..want * 8).any(bit) {
                    return None;
                }
                Some((0..n).map(bit).collect())
            }
            _ => {
                if b.is_empty() {
                    return None;
                }
                Some((0..b.len() * 8).map(bit).collect())
            }
        }
    }
    pub fn model_encode(&self, bits: &[bool]) -> Vec<u8> {
        let mut out = model_view(bits);
        if self.kind == Kind::List {
            let n = bits.len();
            if n / 8 >= out.len() {
                out.push(0);
            }
            out[n / 8] |= 1 << (n % 8);
        }
        out
    }
}

fn b<F: Field>(f: F) -> B {
    B(Box::new(f))
}
fn own<F: Field>(o: &dyn Face) -> &F {
    o.any().downcast_ref().expect("harness: operands of one type")
}

/// The operations that differ between the kinds.
pub trait Field: Face + Clone + Hash + Debug + Encode + Decode + Serialize + DeserializeOwned + Send + 'static {
    const KIND: Kind;
    fn bound() -> Option<usize>;
    fn make(len: usize) -> Result<Self, String>;
    fn from_byte_api(b: Bytes) -> Result<Self, String>;
}

/// The minimal byte view of a sequence of bits: at least one byte.
pub fn model_view(bits: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; if bits.is_empty() { 1 } else { (bits.len() - 1) / 8 + 1 }];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            out[i / 8] += 1 << (i % 8);
        }
    }
    out
}

fn s<T, E: Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}"))
}

macro_rules! face {
    ([$($g:tt)*] $t:ty, |$a:ident, $o:ident| $or:expr, $and:expr, $sub:expr) => {
        impl $($g)* Face for $t {
            fn dup(&self) -> Box<dyn Face> {
                Box::new(self.clone())
            }
            fn dup_onto(&self, dst: &mut dyn Face) {
                dst.any_mut().downcast_mut::<Self>().expect("harness: operands of one type").clone_from(self)
            }
            fn any(&self) -> &dyn Any {
                self
            }
            fn any_mut(&mut self) -> &mut dyn Any {
                self
            }
            fn same(&self, o: &dyn Face) -> bool {
                self == own::<Self>(o)
            }
            fn differs(&self, o: &dyn Face) -> bool {
                self != own::<Self>(o)
            }
            fn feed(&self, mut h: &mut dyn Hasher) {
                self.hash(&mut h)
            }
            fn debug(&self) -> String {
                format!("{self:?}")
            }
            fn as_ssz_bytes(&self) -> Vec<u8> {
                Encode::as_ssz_bytes(self)
            }
            fn ssz_bytes_len(&self) -> usize {
                Encode::ssz_bytes_len(self)
            }
            fn into_byte_api(&self) -> Bytes {
                self.clone().into_bytes()
            }
            fn raw(&self) -> Bytes {
                self.clone().into_raw_bytes()
            }
            fn view(&self) -> &[u8] {
                self.as_slice()
            }
            fn length(&self) -> usize {
                self.len()
            }
            fn empty(&self) -> bool {
                self.is_empty()
            }
            fn put(&mut self, i: usize, v: bool) -> Result<(), String> {
                s(self.set(i, v))
            }
            fn at(&self, i: usize) -> Result<bool, String> {
                s(self.get(i))
            }
            fn walk(&self) -> Box<dyn Iterator<Item = bool> + '_> {
                Box::new(self.iter())
            }
            fn consume(&self, skip: usize) -> (usize, Option<bool>, Vec<bool>, usize, Option<usize>) {
                let it = || {
                    let mut it = self.iter();
                    for _ in 0..skip {
                        it.next();
                    }
                    it
                };
                let mut folded = vec![];
                it().for_each(|b| folded.push(b));
                (it().count(), it().last(), folded, it().filter(|b| *b).count(), it().position(|b| b))
            }
            fn ones(&self) -> usize {
                self.num_set_bits()
            }
            fn highest(&self) -> Option<usize> {
                self.highest_set_bit()
            }
            fn zero(&self) -> bool {
                self.is_zero()
            }
            fn shift(&mut self, n: usize) -> Result<(), String> {
                s(self.shift_up(n))
            }
            fn minus_assign(&mut self, o: &B) {
                self.difference_inplace(own(&*o.0))
            }
            fn minus(&self, o: &B) -> B {
                b(self.difference(own(&*o.0)))
            }
            fn or(&self, o: &B) -> Result<B, String> {
                let ($a, $o) = (self, own::<Self>(&*o.0));
                $or
            }
            fn and(&self, o: &B) -> Result<B, String> {
                let ($a, $o) = (self, own::<Self>(&*o.0));
                $and
            }
            fn subset(&self, o: &B) -> Option<bool> {
                let ($a, $o) = (self, own::<Self>(&*o.0));
                $sub
            }
            fn to_json(&self) -> Result<String, String> {
                serde_json::to_string(self).map_err(|e| e.to_string())
            }
            fn record(&self, human: bool) -> Result<String, String> {
                self.serialize(Record { human }).map_err(|e| e.0)
            }
        }
    };
}
face!([<N: Unsigned + Clone + Debug + Send + 'static>] BitList<N>, |a, o| Ok(b(a.union(o))), Ok(b(a.intersection(o))), Some(a.is_subset(o)));
face!([<N: Unsigned + Clone + Debug + Send + 'static>] BitVector<N>, |a, o| Ok(b(a.union(o))), Ok(b(a.intersection(o))), Some(a.is_subset(o)));
face!([] BitVectorDynamic, |a, o| s(a.union(o)).map(b), s(a.intersection(o)).map(b), {
    let _ = (a, o);
    None
});

impl<N: Unsigned + Clone + Debug + Send + 'static> Field for BitList<N> {
    const KIND: Kind = Kind::List;
    fn bound() -> Option<usize> {
        Some(N::to_usize())
    }
    fn make(len: usize) -> Result<Self, String> {
        s(Self::with_capacity(len))
    }
    fn from_byte_api(b: Bytes) -> Result<Self, String> {
        s(Self::from_bytes(b))
    }
}

impl<N: Unsigned + Clone + Debug + Send + 'static> Field for BitVector<N> {
    const KIND: Kind = Kind::Vector;
    fn bound() -> Option<usize> {
        Some(N::to_usize())
    }
    fn make(len: usize) -> Result<Self, String> {
        if len == N::to_usize() {
            Ok(Self::new())
        } else {
            Err("a vector has one length".into())
        }
    }
    fn from_byte_api(b: Bytes) -> Result<Self, String> {
        s(Self::from_bytes(b))
    }
}

impl Field for BitVectorDynamic {
    const KIND: Kind = Kind::Dynamic;
    fn bound() -> Option<usize> {
        None
    }
    fn make(len: usize) -> Result<Self, String> {
        s(Self::new(len))
    }
    fn from_byte_api(b: Bytes) -> Result<Self, String> {
        let n = b.len() * 8;
        s(Self::from_bytes_with_len(b, n))
    }
}
