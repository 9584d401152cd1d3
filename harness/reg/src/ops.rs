//! Type-erased operations of a type under observation.
use crate::subject::{Heap, Subject};
use ssz::{Decode, DecodeError, Encode, SszDecoder, SszDecoderBuilder, SszEncoder};
use std::any::Any;
use std::sync::Arc;
use vcore::alloc::{measured, Stats};
use vcore::model::{Schema, Value};

pub trait Obj: Any {
    fn as_ssz_bytes(&self) -> Vec<u8>;
    fn ssz_append(&self, buf: &mut Vec<u8>);
    fn ssz_bytes_len(&self) -> usize;
    fn to_value(&self) -> Value;
    fn same(&self, other: &dyn Obj) -> bool;
    fn debug(&self) -> String;
    fn as_any(&self) -> &dyn Any;
    /// Every other way of encoding the value: (name, bytes appended to `prefix`).
    fn entry_points(&self, prefix: &[u8]) -> Vec<(&'static str, Vec<u8>)>;
    /// (name, predicted size) through references and Arc.
    fn len_entry_points(&self) -> Vec<(&'static str, usize)>;
    fn append_to(&self, e: &mut SszEncoder);
    fn append_ref_to(&self, e: &mut SszEncoder);
}

struct Holder<T>(Arc<T>);

impl<T: Subject> Obj for Holder<T> {
    fn as_ssz_bytes(&self) -> Vec<u8> {
        T::as_ssz_bytes(&self.0)
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        T::ssz_append(&self.0, buf)
    }
    fn ssz_bytes_len(&self) -> usize {
        T::ssz_bytes_len(&self.0)
    }
    fn to_value(&self) -> Value {
        T::to_value(&self.0)
    }
    fn same(&self, other: &dyn Obj) -> bool {
        match other.as_any().downcast_ref::<Holder<T>>() {
            Some(o) => *self.0 == *o.0,
            None => panic!("harness: comparing values of two types"),
        }
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn entry_points(&self, prefix: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
        let t: &T = &self.0;
        let arc: &Arc<T> = &self.0;
        let pre = |f: &dyn Fn(&mut Vec<u8>)| {
            let mut b = prefix.to_vec();
            f(&mut b);
            b
        };
        let fresh = |f: Vec<u8>| {
            let mut b = prefix.to_vec();
            b.extend(f);
            b
        };
        vec![
            ("ssz_append", pre(&|b| t.ssz_append(b))),
            ("ssz_append with spare capacity", {
                let mut b = Vec::with_capacity(prefix.len() + 3 * t.ssz_bytes_len() + 100);
                b.extend_from_slice(prefix);
                t.ssz_append(&mut b);
                b
            }),
            ("as_ssz_bytes", fresh(t.as_ssz_bytes())),
            ("ssz_encode", fresh(ssz::ssz_encode(t))),
            ("&T ssz_append", pre(&|b| <&T as Encode>::ssz_append(&t, b))),
            ("&T as_ssz_bytes", fresh(<&T as Encode>::as_ssz_bytes(&t))),
            ("ssz_encode(&&T)", fresh(ssz::ssz_encode(&t))),
            ("&&T ssz_append", pre(&|b| <&&T as Encode>::ssz_append(&&t, b))),
            ("Arc<T> ssz_append", pre(&|b| <Arc<T> as Encode>::ssz_append(arc, b))),
            ("Arc<T> as_ssz_bytes", fresh(<Arc<T> as Encode>::as_ssz_bytes(arc))),
            ("ssz_encode(&Arc<T>)", fresh(ssz::ssz_encode(arc))),
            (
                "&Arc<T> as_ssz_bytes",
                fresh(<&Arc<T> as Encode>::as_ssz_bytes(&arc)),
            ),
        ]
    }
    fn len_entry_points(&self) -> Vec<(&'static str, usize)> {
        let t: &T = &self.0;
        let arc: &Arc<T> = &self.0;
        vec![
            ("&T", <&T as Encode>::ssz_bytes_len(&t)),
            ("&&T", <&&T as Encode>::ssz_bytes_len(&&t)),
            ("Arc<T>", <Arc<T> as Encode>::ssz_bytes_len(arc)),
        ]
    }
    fn append_to(&self, e: &mut SszEncoder) {
        e.append::<T>(&self.0)
    }
    fn append_ref_to(&self, e: &mut SszEncoder) {
        let t: &T = &self.0;
        e.append::<&T>(&t)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Meta {
    pub who: &'static str,
    pub fixed: bool,
    pub fixed_len: usize,
}

fn build<T: Subject>(v: &Value) -> Box<dyn Obj> {
    Box::new(Holder(Arc::new(T::from_value(v))))
}
fn decode<T: Subject>(b: &[u8]) -> Result<Box<dyn Obj>, DecodeError> {
    Ok(Box::new(Holder(Arc::new(T::from_ssz_bytes(b)?))))
}
fn decode_drop<T: Subject>(b: &[u8]) -> bool {
    T::from_ssz_bytes(b).is_ok()
}
fn decode_measured<T: Subject>(b: &[u8]) -> (bool, Stats) {
    let (r, s) = measured(|| T::from_ssz_bytes(b));
    (r.is_ok(), s)
}
fn meta<T: Subject>() -> Vec<Meta> {
    let m = |who, fixed, fixed_len| Meta {
        who,
        fixed,
        fixed_len,
    };
    vec![
        m("Encode", <T as Encode>::is_ssz_fixed_len(), <T as Encode>::ssz_fixed_len()),
        m("Decode", <T as Decode>::is_ssz_fixed_len(), <T as Decode>::ssz_fixed_len()),
        m("Encode for &T", <&T as Encode>::is_ssz_fixed_len(), <&T as Encode>::ssz_fixed_len()),
        m(
            "Encode for Arc<T>",
            <Arc<T> as Encode>::is_ssz_fixed_len(),
            <Arc<T> as Encode>::ssz_fixed_len(),
        ),
        m(
            "Decode for Arc<T>",
            <Arc<T> as Decode>::is_ssz_fixed_len(),
            <Arc<T> as Decode>::ssz_fixed_len(),
        ),
    ]
}
fn register<T: Subject>(b: &mut SszDecoderBuilder) -> Result<(), DecodeError> {
    b.register_type::<T>()
}
fn next<T: Subject>(d: &mut SszDecoder) -> Result<Box<dyn Obj>, DecodeError> {
    Ok(Box::new(Holder(Arc::new(d.decode_next::<T>()?))))
}

#[derive(Clone)]
pub struct TypeOps {
    pub name: String,
    pub schema: Schema,
    pub heap: Heap,
    pub build: fn(&Value) -> Box<dyn Obj>,
    pub decode: fn(&[u8]) -> Result<Box<dyn Obj>, DecodeError>,
    pub decode_drop: fn(&[u8]) -> bool,
    pub decode_measured: fn(&[u8]) -> (bool, Stats),
    pub meta: fn() -> Vec<Meta>,
    pub register: fn(&mut SszDecoderBuilder) -> Result<(), DecodeError>,
    pub next: fn(&mut SszDecoder) -> Result<Box<dyn Obj>, DecodeError>,
    /// More inputs are spent on types with a higher weight.
    pub weight: u32,
    /// Marked by the generator as a derived definition.
    pub derived: bool,
}

pub fn ops<T: Subject>(name: &str) -> TypeOps {
    TypeOps {
        name: name.split_whitespace().collect::<Vec<_>>().join(" "),
        schema: T::schema(),
        heap: T::heap(),
        build: build::<T>,
        decode: decode::<T>,
        decode_drop: decode_drop::<T>,
        decode_measured: decode_measured::<T>,
        meta: meta::<T>,
        register: register::<T>,
        next: next::<T>,
        weight: 1,
        derived: false,
    }
}

#[macro_export]
macro_rules! reg_types {
    ($out:expr; $($t:ty),* $(,)?) => { $( $out.push($crate::ops::ops::<$t>(stringify!($t))); )* };
}
