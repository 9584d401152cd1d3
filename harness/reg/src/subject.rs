//! `Subject`: a Rust type under observation together with its SSZ schema, written from the
//! library's documentation, and conversions to and from model values that use no codec.
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use core::num::NonZeroUsize;
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::sync::Arc;
use typenum::Unsigned;
use vcore::model::{Schema, Value};

/// Heap use of decoding `len` bytes is at most `a * len + b`.
#[derive(Clone, Copy, Debug)]
pub struct Heap {
    pub a: f64,
    pub b: f64,
}
impl Heap {
    pub const NONE: Heap = Heap { a: 0.0, b: 0.0 };
}

pub trait Subject: Encode + Decode + PartialEq + Debug + Sized + 'static {
    fn schema() -> Schema;
    fn to_value(&self) -> Value;
    fn from_value(v: &Value) -> Self;
    fn heap() -> Heap {
        Heap::NONE
    }

    // Lists of bytes are `List[byte]` with a compact value form.
    fn list_schema() -> Schema {
        Schema::List(Box::new(Self::schema()))
    }
    fn list_to_value(items: &[Self]) -> Value {
        Value::Seq(items.iter().map(|i| i.to_value()).collect())
    }
    fn list_from_value(v: &Value) -> Vec<Self> {
        seq(v).iter().map(Self::from_value).collect()
    }
}

pub fn seq(v: &Value) -> &[Value] {
    match v {
        Value::Seq(s) => s,
        _ => panic!("model: expected a sequence, got {v:?}"),
    }
}
pub fn bytes_of(v: &Value) -> &[u8] {
    match v {
        Value::Bytes(s) => s,
        _ => panic!("model: expected bytes, got {v:?}"),
    }
}
pub fn uint_of(v: &Value) -> (u128, u128) {
    match v {
        Value::Uint(h, l) => (*h, *l),
        _ => panic!("model: expected an integer, got {v:?}"),
    }
}
pub fn bits_of(v: &Value) -> &[bool] {
    match v {
        Value::Bits(b) => b,
        _ => panic!("model: expected bits, got {v:?}"),
    }
}

thread_local! {
    static NOISE: Cell<u64> = const { Cell::new(0) };
}
/// While `f` runs, `from_value` fills skipped fields with non-default contents.
pub fn with_noise<R>(seed: u64, f: impl FnOnce() -> R) -> R {
    NOISE.set(seed | 1);
    let r = f();
    NOISE.set(0);
    r
}
pub fn noise_on() -> bool {
    NOISE.get() != 0
}
/// A non-zero number for a skipped field, or `None` when it should have its default.
pub fn noise() -> Option<u64> {
    let n = NOISE.get();
    if n == 0 {
        None
    } else {
        NOISE.set(n.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1);
        Some((n >> 17) | 1)
    }
}

/// Types usable for skipped fields.
pub trait Noise: Default {
    fn noisy(n: u64) -> Self;
    fn get() -> Self {
        noise().map(Self::noisy).unwrap_or_default()
    }
}
impl Noise for u8 {
    fn noisy(n: u64) -> Self {
        (n as u8) | 1
    }
}
impl Noise for u32 {
    fn noisy(n: u64) -> Self {
        (n as u32) | 1
    }
}
impl Noise for u64 {
    fn noisy(n: u64) -> Self {
        n | 1
    }
}
impl Noise for String {
    fn noisy(n: u64) -> Self {
        format!("noise{n}")
    }
}
impl<T: Noise> Noise for Vec<T> {
    fn noisy(n: u64) -> Self {
        (0..1 + n % 3).map(|i| T::noisy(n + i)).collect()
    }
}
impl<T: Noise> Noise for Option<T> {
    fn noisy(n: u64) -> Self {
        Some(T::noisy(n))
    }
}

macro_rules! uint_subject {
    ($($t:ty, $n:expr;)*) => {$(
        impl Subject for $t {
            fn schema() -> Schema { Schema::Uint($n) }
            fn to_value(&self) -> Value { Value::Uint(0, *self as u128) }
            fn from_value(v: &Value) -> Self { uint_of(v).1 as $t }
        }
    )*};
}
uint_subject! { u16, 2; u32, 4; u64, 8; u128, 16; usize, 8; }

impl Subject for u8 {
    fn schema() -> Schema {
        Schema::Uint(1)
    }
    fn to_value(&self) -> Value {
        Value::Uint(0, *self as u128)
    }
    fn from_value(v: &Value) -> Self {
        uint_of(v).1 as u8
    }
    fn list_schema() -> Schema {
        Schema::ByteList
    }
    fn list_to_value(items: &[Self]) -> Value {
        Value::Bytes(items.to_vec())
    }
    fn list_from_value(v: &Value) -> Vec<Self> {
        bytes_of(v).to_vec()
    }
}

impl Subject for bool {
    fn schema() -> Schema {
        Schema::Bool
    }
    fn to_value(&self) -> Value {
        Value::Bool(*self)
    }
    fn from_value(v: &Value) -> Self {
        *v == Value::Bool(true)
    }
    fn heap() -> Heap {
        Heap { a: 0.0, b: 128.0 }
    }
}

impl Subject for NonZeroUsize {
    fn schema() -> Schema {
        Schema::NonZero(8)
    }
    fn to_value(&self) -> Value {
        Value::Uint(0, self.get() as u128)
    }
    fn from_value(v: &Value) -> Self {
        NonZeroUsize::new(uint_of(v).1 as usize).expect("model: zero")
    }
    fn heap() -> Heap {
        Heap { a: 0.0, b: 128.0 }
    }
}

impl Subject for U128 {
    fn schema() -> Schema {
        Schema::Uint(16)
    }
    fn to_value(&self) -> Value {
        let l = self.as_limbs();
        Value::Uint(0, (l[0] as u128) | (l[1] as u128) << 64)
    }
    fn from_value(v: &Value) -> Self {
        let (_, lo) = uint_of(v);
        U128::from_limbs([lo as u64, (lo >> 64) as u64])
    }
}
impl Subject for U256 {
    fn schema() -> Schema {
        Schema::Uint(32)
    }
    fn to_value(&self) -> Value {
        let l = self.as_limbs();
        Value::Uint(
            (l[2] as u128) | (l[3] as u128) << 64,
            (l[0] as u128) | (l[1] as u128) << 64,
        )
    }
    fn from_value(v: &Value) -> Self {
        let (hi, lo) = uint_of(v);
        U256::from_limbs([lo as u64, (lo >> 64) as u64, hi as u64, (hi >> 64) as u64])
    }
}

impl Subject for Address {
    fn schema() -> Schema {
        Schema::ByteVec(20)
    }
    fn to_value(&self) -> Value {
        Value::Bytes((self.0).0.to_vec())
    }
    fn from_value(v: &Value) -> Self {
        let mut a = [0u8; 20];
        a.copy_from_slice(bytes_of(v));
        Address(FixedBytes(a))
    }
}
impl Subject for Bloom {
    fn schema() -> Schema {
        Schema::ByteVec(256)
    }
    fn to_value(&self) -> Value {
        Value::Bytes((self.0).0.to_vec())
    }
    fn from_value(v: &Value) -> Self {
        let mut a = [0u8; 256];
        a.copy_from_slice(bytes_of(v));
        Bloom(FixedBytes(a))
    }
}
impl<const N: usize> Subject for FixedBytes<N> {
    fn schema() -> Schema {
        Schema::ByteVec(N)
    }
    fn to_value(&self) -> Value {
        Value::Bytes(self.0.to_vec())
    }
    fn from_value(v: &Value) -> Self {
        let mut a = [0u8; N];
        a.copy_from_slice(bytes_of(v));
        FixedBytes(a)
    }
}
impl<const N: usize> Subject for [u8; N] {
    fn schema() -> Schema {
        Schema::ByteVec(N)
    }
    fn to_value(&self) -> Value {
        Value::Bytes(self.to_vec())
    }
    fn from_value(v: &Value) -> Self {
        let mut a = [0u8; N];
        a.copy_from_slice(bytes_of(v));
        a
    }
}
impl Subject for Bytes {
    fn schema() -> Schema {
        Schema::ByteList
    }
    fn to_value(&self) -> Value {
        Value::Bytes(self.0.to_vec())
    }
    fn from_value(v: &Value) -> Self {
        Bytes::from(bytes_of(v).to_vec())
    }
    fn heap() -> Heap {
        Heap { a: 3.0, b: 128.0 }
    }
}

/// Encoded bytes an item of a list needs at least.
fn per_item<T: Subject>() -> f64 {
    T::schema().fixed().unwrap_or(4).max(1) as f64
}
fn list_heap<T: Subject>() -> Heap {
    let (i, s) = (T::heap(), std::mem::size_of::<T>() as f64);
    Heap {
        a: i.a + (4.0 * s + i.b) / per_item::<T>(),
        b: 16.0 * s + i.b + 256.0,
    }
}

impl<T: Subject> Subject for Vec<T> {
    fn schema() -> Schema {
        T::list_schema()
    }
    fn to_value(&self) -> Value {
        T::list_to_value(self)
    }
    fn from_value(v: &Value) -> Self {
        T::list_from_value(v)
    }
    fn heap() -> Heap {
        list_heap::<T>()
    }
}
impl<T: Subject, const N: usize> Subject for SmallVec<[T; N]> {
    fn schema() -> Schema {
        T::list_schema()
    }
    fn to_value(&self) -> Value {
        T::list_to_value(self)
    }
    fn from_value(v: &Value) -> Self {
        T::list_from_value(v).into_iter().collect()
    }
    fn heap() -> Heap {
        let h = list_heap::<T>();
        Heap {
            b: h.b + (N * std::mem::size_of::<T>()) as f64 * 4.0,
            ..h
        }
    }
}
impl<T: Subject> Subject for Option<T> {
    fn schema() -> Schema {
        Schema::Union(vec![None, Some(T::schema())])
    }
    fn to_value(&self) -> Value {
        match self {
            None => Value::Union(0, None),
            Some(x) => Value::Union(1, Some(Box::new(x.to_value()))),
        }
    }
    fn from_value(v: &Value) -> Self {
        match v {
            Value::Union(0, None) => None,
            Value::Union(1, Some(x)) => Some(T::from_value(x)),
            _ => panic!("model: not an option: {v:?}"),
        }
    }
    fn heap() -> Heap {
        T::heap()
    }
}
impl<T: Subject> Subject for Arc<T> {
    fn schema() -> Schema {
        T::schema()
    }
    fn to_value(&self) -> Value {
        (**self).to_value()
    }
    fn from_value(v: &Value) -> Self {
        Arc::new(T::from_value(v))
    }
    fn heap() -> Heap {
        let h = T::heap();
        Heap {
            a: h.a,
            b: h.b + std::mem::size_of::<T>() as f64 + 32.0,
        }
    }
}

fn entry_heap(k: Heap, v: Heap, s: f64, per: f64) -> Heap {
    Heap {
        a: k.a.max(v.a) + (16.0 * s + 64.0 + k.b + v.b) / per,
        b: 64.0 * s + 1024.0 + k.b + v.b,
    }
}
impl<K: Subject + Ord, V: Subject> Subject for BTreeMap<K, V> {
    fn schema() -> Schema {
        Schema::Map(Box::new(K::schema()), Box::new(V::schema()))
    }
    fn to_value(&self) -> Value {
        Value::Seq(
            self.iter()
                .map(|(k, v)| Value::Seq(vec![k.to_value(), v.to_value()]))
                .collect(),
        )
    }
    fn from_value(v: &Value) -> Self {
        let mut m = BTreeMap::new();
        for e in seq(v) {
            let e = seq(e);
            m.insert(K::from_value(&e[0]), V::from_value(&e[1]));
        }
        m
    }
    fn heap() -> Heap {
        let per = Schema::Container(vec![K::schema(), V::schema()])
            .fixed()
            .unwrap_or(4)
            .max(1);
        entry_heap(K::heap(), V::heap(), std::mem::size_of::<(K, V)>() as f64, per as f64)
    }
}
impl<K: Subject + Ord> Subject for BTreeSet<K> {
    fn schema() -> Schema {
        Schema::Set(Box::new(K::schema()))
    }
    fn to_value(&self) -> Value {
        Value::Seq(self.iter().map(|k| k.to_value()).collect())
    }
    fn from_value(v: &Value) -> Self {
        let mut m = BTreeSet::new();
        for e in seq(v) {
            m.insert(K::from_value(e));
        }
        m
    }
    fn heap() -> Heap {
        entry_heap(
            K::heap(),
            Heap::NONE,
            std::mem::size_of::<K>() as f64,
            per_item::<K>(),
        )
    }
}

/// The heap bound of a container of the given fields.
pub fn container_heap(fields: &[Heap]) -> Heap {
    Heap {
        a: fields.iter().fold(0.0, |m, f| f64::max(m, f.a)),
        b: fields.iter().map(|f| f.b).sum::<f64>() + 128.0 * (fields.len() + 8) as f64,
    }
}

macro_rules! tuple_subject {
    ($($T:ident $i:tt),+) => {
        impl<$($T: Subject),+> Subject for ($($T,)+) {
            fn schema() -> Schema { Schema::Container(vec![$($T::schema()),+]) }
            fn to_value(&self) -> Value { Value::Seq(vec![$(self.$i.to_value()),+]) }
            fn from_value(v: &Value) -> Self { let s = seq(v); ($($T::from_value(&s[$i]),)+) }
            fn heap() -> Heap { container_heap(&[$($T::heap()),+]) }
        }
    };
}
tuple_subject!(A 0, B 1);
tuple_subject!(A 0, B 1, C 2);
tuple_subject!(A 0, B 1, C 2, D 3);
tuple_subject!(A 0, B 1, C 2, D 3, E 4);
tuple_subject!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple_subject!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple_subject!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple_subject!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple_subject!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuple_subject!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tuple_subject!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

const BITS_HEAP: Heap = Heap { a: 6.0, b: 1024.0 };

impl<N: Unsigned + Clone + Debug + 'static> Subject for BitList<N> {
    fn schema() -> Schema {
        Schema::BitList(N::to_usize())
    }
    fn to_value(&self) -> Value {
        Value::Bits((0..self.len()).map(|i| self.get(i).expect("bit in range")).collect())
    }
    fn from_value(v: &Value) -> Self {
        let bits = bits_of(v);
        let mut b = Self::with_capacity(bits.len()).expect("capacity allowed");
        for (i, x) in bits.iter().enumerate() {
            if *x {
                b.set(i, true).expect("bit in range");
            }
        }
        b
    }
    fn heap() -> Heap {
        BITS_HEAP
    }
}
impl<N: Unsigned + Clone + Debug + 'static> Subject for BitVector<N> {
    fn schema() -> Schema {
        Schema::BitVector(N::to_usize())
    }
    fn to_value(&self) -> Value {
        Value::Bits((0..self.len()).map(|i| self.get(i).expect("bit in range")).collect())
    }
    fn from_value(v: &Value) -> Self {
        let mut b = Self::new();
        for (i, x) in bits_of(v).iter().enumerate() {
            if *x {
                b.set(i, true).expect("bit in range");
            }
        }
        b
    }
    fn heap() -> Heap {
        BITS_HEAP
    }
}
impl Subject for BitVectorDynamic {
    fn schema() -> Schema {
        Schema::BitDyn
    }
    fn to_value(&self) -> Value {
        Value::Bits((0..self.len()).map(|i| self.get(i).expect("bit in range")).collect())
    }
    fn from_value(v: &Value) -> Self {
        let bits = bits_of(v);
        let mut b = Self::new(bits.len()).expect("length allowed");
        for (i, x) in bits.iter().enumerate() {
            if *x {
                b.set(i, true).expect("bit in range");
            }
        }
        b
    }
    fn heap() -> Heap {
        BITS_HEAP
    }
}

// ------------------------------------------------------------------------------------------
// Derived definitions

/// How a field of a derived struct maps to the model: its own codec or a `with` module.
pub trait Adapt<T> {
    fn schema() -> Schema;
    fn to(t: &T) -> Value;
    fn from(v: &Value) -> T;
    fn heap() -> Heap;
}
pub struct Plain;
impl<T: Subject> Adapt<T> for Plain {
    fn schema() -> Schema {
        T::schema()
    }
    fn to(t: &T) -> Value {
        t.to_value()
    }
    fn from(v: &Value) -> T {
        T::from_value(v)
    }
    fn heap() -> Heap {
        T::heap()
    }
}
/// A field with a codec module made by `four_byte_option_impl!`.
pub struct LegacyOpt;
impl<T: Subject> Adapt<Option<T>> for LegacyOpt {
    fn schema() -> Schema {
        Schema::Legacy(Box::new(T::schema()))
    }
    fn to(t: &Option<T>) -> Value {
        t.to_value()
    }
    fn from(v: &Value) -> Option<T> {
        Option::<T>::from_value(v)
    }
    fn heap() -> Heap {
        Heap {
            b: T::heap().b + 256.0,
            ..T::heap()
        }
    }
}

/// A 24-bit number: no codec of its own; fixed-size codec of 3 bytes.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Opaque24(pub u32);
pub mod codec_u24 {
    use super::Opaque24;
    pub mod encode {
        use super::*;
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            3
        }
        pub fn ssz_bytes_len(_: &Opaque24) -> usize {
            3
        }
        pub fn ssz_append(x: &Opaque24, buf: &mut Vec<u8>) {
            buf.extend_from_slice(&x.0.to_le_bytes()[..3]);
        }
    }
    pub mod decode {
        use super::*;
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            3
        }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Opaque24, ssz::DecodeError> {
            if b.len() != 3 {
                return Err(ssz::DecodeError::BytesInvalid("u24".into()));
            }
            Ok(Opaque24(b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16))
        }
    }
}
pub struct Codec24;
impl Adapt<Opaque24> for Codec24 {
    fn schema() -> Schema {
        Schema::Uint(3)
    }
    fn to(t: &Opaque24) -> Value {
        Value::u(t.0 as u64)
    }
    fn from(v: &Value) -> Opaque24 {
        Opaque24(uint_of(v).1 as u32)
    }
    fn heap() -> Heap {
        Heap { a: 0.0, b: 64.0 }
    }
}

/// Bytes without a codec of their own; variable-size codec.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Blob(pub Vec<u8>);
pub mod codec_blob {
    use super::Blob;
    pub mod encode {
        use super::*;
        pub fn is_ssz_fixed_len() -> bool {
            false
        }
        pub fn ssz_fixed_len() -> usize {
            4
        }
        pub fn ssz_bytes_len(x: &Blob) -> usize {
            x.0.len()
        }
        pub fn ssz_append(x: &Blob, buf: &mut Vec<u8>) {
            buf.extend_from_slice(&x.0);
        }
    }
    pub mod decode {
        use super::*;
        pub fn is_ssz_fixed_len() -> bool {
            false
        }
        pub fn ssz_fixed_len() -> usize {
            4
        }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Blob, ssz::DecodeError> {
            Ok(Blob(b.to_vec()))
        }
    }
}
pub struct BlobCodec;
impl Adapt<Blob> for BlobCodec {
    fn schema() -> Schema {
        Schema::ByteList
    }
    fn to(t: &Blob) -> Value {
        Value::Bytes(t.0.clone())
    }
    fn from(v: &Value) -> Blob {
        Blob(bytes_of(v).to_vec())
    }
    fn heap() -> Heap {
        Heap { a: 2.0, b: 64.0 }
    }
}

/// A variable-size type given a fixed-size codec: a byte list of exactly four bytes.
pub mod codec_fix4 {
    pub mod encode {
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            4
        }
        pub fn ssz_bytes_len(_: &Vec<u8>) -> usize {
            4
        }
        pub fn ssz_append(x: &Vec<u8>, buf: &mut Vec<u8>) {
            assert_eq!(x.len(), 4, "harness: fix4");
            buf.extend_from_slice(x);
        }
    }
    pub mod decode {
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            4
        }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Vec<u8>, ssz::DecodeError> {
            if b.len() != 4 {
                return Err(ssz::DecodeError::BytesInvalid("fix4".into()));
            }
            Ok(b.to_vec())
        }
    }
}
pub struct Fix4;
impl Adapt<Vec<u8>> for Fix4 {
    fn schema() -> Schema {
        Schema::ByteVec(4)
    }
    fn to(t: &Vec<u8>) -> Value {
        Value::Bytes(t.clone())
    }
    fn from(v: &Value) -> Vec<u8> {
        bytes_of(v).to_vec()
    }
    fn heap() -> Heap {
        Heap { a: 2.0, b: 64.0 }
    }
}

/// A fixed-size type given a variable-size codec: a bool as Union[None, None].
pub mod codec_boolu {
    pub mod encode {
        pub fn is_ssz_fixed_len() -> bool {
            false
        }
        pub fn ssz_fixed_len() -> usize {
            4
        }
        pub fn ssz_bytes_len(_: &bool) -> usize {
            1
        }
        pub fn ssz_append(x: &bool, buf: &mut Vec<u8>) {
            buf.push(*x as u8);
        }
    }
    pub mod decode {
        pub fn is_ssz_fixed_len() -> bool {
            false
        }
        pub fn ssz_fixed_len() -> usize {
            4
        }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<bool, ssz::DecodeError> {
            match b {
                [0] => Ok(false),
                [1] => Ok(true),
                _ => Err(ssz::DecodeError::BytesInvalid("boolu".into())),
            }
        }
    }
}
pub struct BoolU;
impl Adapt<bool> for BoolU {
    fn schema() -> Schema {
        Schema::Union(vec![None, None])
    }
    fn to(t: &bool) -> Value {
        Value::Union(*t as usize, None)
    }
    fn from(v: &Value) -> bool {
        matches!(v, Value::Union(1, None))
    }
    fn heap() -> Heap {
        Heap { a: 0.0, b: 64.0 }
    }
}

/// Container with named fields: `name: Adaptor` for live ones, `name: skip` for skipped ones.
#[macro_export]
macro_rules! subject_container {
    ([$($g:tt)*] $name:ty { $($f:ident : $t:ty => $how:tt),* $(,)? }) => {
        impl $($g)* $crate::subject::Subject for $name {
            fn schema() -> $crate::Schema {
                #[allow(unused_mut)]
                let mut v = vec![];
                $( $crate::subject_container!(@schema v, $t, $how); )*
                $crate::Schema::Container(v)
            }
            fn to_value(&self) -> $crate::Value {
                #[allow(unused_mut)]
                let mut v = vec![];
                $( $crate::subject_container!(@to v, self.$f, $t, $how); )*
                $crate::Value::Seq(v)
            }
            fn from_value(v: &$crate::Value) -> Self {
                #[allow(unused_mut, unused_variables)]
                let mut it = $crate::subject::seq(v).iter();
                Self { $( $f: $crate::subject_container!(@from it, $t, $how) ),* }
            }
            fn heap() -> $crate::subject::Heap {
                #[allow(unused_mut)]
                let mut v = vec![];
                $( $crate::subject_container!(@heap v, $t, $how); )*
                $crate::subject::container_heap(&v)
            }
        }
    };
    (@schema $v:ident, $t:ty, skip) => {};
    (@schema $v:ident, $t:ty, $a:tt) => { $v.push(<$crate::subject::$a as $crate::subject::Adapt<$t>>::schema()); };
    (@heap $v:ident, $t:ty, skip) => {};
    (@heap $v:ident, $t:ty, $a:tt) => { $v.push(<$crate::subject::$a as $crate::subject::Adapt<$t>>::heap()); };
    (@to $v:ident, $e:expr, $t:ty, skip) => {};
    (@to $v:ident, $e:expr, $t:ty, $a:tt) => { $v.push(<$crate::subject::$a as $crate::subject::Adapt<$t>>::to(&$e)); };
    (@from $it:ident, $t:ty, skip) => { <$t as $crate::subject::Noise>::get() };
    (@from $it:ident, $t:ty, $a:tt) => {
        <$crate::subject::$a as $crate::subject::Adapt<$t>>::from($it.next().expect("model: missing field"))
    };
}

/// Transparent struct: the same field list, exactly one of them live.
#[macro_export]
macro_rules! subject_transparent {
    ([$($g:tt)*] $name:ty { $($f:tt : $t:ty => $how:tt),* $(,)? }) => {
        impl $($g)* $crate::subject::Subject for $name {
            fn schema() -> $crate::Schema {
                let mut v = vec![];
                $( $crate::subject_container!(@schema v, $t, $how); )*
                assert_eq!(v.len(), 1, "model: transparent");
                v.pop().unwrap()
            }
            fn to_value(&self) -> $crate::Value {
                let mut v = vec![];
                $( $crate::subject_container!(@to v, self.$f, $t, $how); )*
                v.pop().unwrap()
            }
            fn from_value(v: &$crate::Value) -> Self {
                let v = [v.clone()];
                #[allow(unused_mut, unused_variables)]
                let mut it = v.iter();
                Self { $( $f: $crate::subject_container!(@from it, $t, $how) ),* }
            }
            fn heap() -> $crate::subject::Heap {
                let mut v = vec![];
                $( $crate::subject_container!(@heap v, $t, $how); )*
                v.pop().unwrap()
            }
        }
    };
}

/// Enum whose variants have one unnamed field each; `$kind` is Union or TransEnum.
#[macro_export]
macro_rules! subject_enum {
    ($kind:ident [$($g:tt)*] $name:ty { $($i:literal $var:ident : $t:ty),* $(,)? }) => {
        impl $($g)* $crate::subject::Subject for $name {
            fn schema() -> $crate::Schema {
                $crate::subject_enum!(@mk $kind vec![$(<$t as $crate::subject::Subject>::schema()),*])
            }
            fn to_value(&self) -> $crate::Value {
                match self {
                    $( Self::$var(x) => $crate::Value::Union($i, Some(Box::new(
                        <$t as $crate::subject::Subject>::to_value(x)))), )*
                }
            }
            fn from_value(v: &$crate::Value) -> Self {
                match v {
                    $( $crate::Value::Union($i, Some(x)) =>
                        Self::$var(<$t as $crate::subject::Subject>::from_value(x)), )*
                    _ => panic!("model: not a value of this enum: {v:?}"),
                }
            }
            fn heap() -> $crate::subject::Heap {
                $crate::subject::container_heap(&[$(<$t as $crate::subject::Subject>::heap()),*])
            }
        }
    };
    (@mk Union $v:expr) => { $crate::Schema::Union($v.into_iter().map(Some).collect()) };
    (@mk TransEnum $v:expr) => { $crate::Schema::TransEnum($v) };
}

#[macro_export]
macro_rules! subject_tag {
    ($name:ty { $($i:literal $var:ident),* $(,)? }) => {
        impl $crate::subject::Subject for $name {
            fn schema() -> $crate::Schema { $crate::Schema::Tag([$($i),*].len()) }
            fn to_value(&self) -> $crate::Value {
                match self { $( Self::$var => $crate::Value::Tag($i), )* }
            }
            fn from_value(v: &$crate::Value) -> Self {
                match v {
                    $( $crate::Value::Tag($i) => Self::$var, )*
                    _ => panic!("model: not a tag: {v:?}"),
                }
            }
        }
    };
}
