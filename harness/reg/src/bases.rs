//! A few derived types used everywhere, kept apart from the generated ones.
use crate::*;
use ssz_derive::{Decode, Encode};

#[derive(Encode, Decode, PartialEq, Eq, PartialOrd, Ord, Debug, Clone, Default)]
pub struct FixPair {
    pub a: u16,
    pub b: u32,
}
subject_container!([] FixPair { a: u16 => Plain, b: u32 => Plain });

#[derive(Encode, Decode, PartialEq, Eq, PartialOrd, Ord, Debug, Clone, Default)]
pub struct VarPair {
    pub a: Vec<u8>,
    pub b: u8,
    pub c: Vec<u16>,
}
subject_container!([] VarPair { a: Vec<u8> => Plain, b: u8 => Plain, c: Vec<u16> => Plain });

#[derive(Encode, Decode, PartialEq, Debug, Clone)]
#[ssz(enum_behaviour = "union")]
pub enum MixUnion {
    A(u8),
    B(Vec<u16>),
    C(VarPair),
}
subject_enum!(Union [] MixUnion { 0usize A: u8, 1usize B: Vec<u16>, 2usize C: VarPair });

#[derive(Encode, Decode, PartialEq, Eq, PartialOrd, Ord, Debug, Clone, Copy)]
#[ssz(enum_behaviour = "tag")]
pub enum ThreeTag {
    X,
    Y,
    Z,
}
subject_tag!(ThreeTag { 0usize X, 1usize Y, 2usize Z });

#[derive(Encode, Decode, PartialEq, Eq, PartialOrd, Ord, Debug, Clone, Default)]
pub struct Unit0 {}
subject_container!([] Unit0 {});

#[derive(Encode, Decode, PartialEq, Eq, PartialOrd, Ord, Debug, Clone)]
#[ssz(struct_behaviour = "transparent")]
pub struct WrapVec(pub Vec<u16>);
subject_transparent!([] WrapVec { 0: Vec<u16> => Plain });

#[derive(Encode, Decode, PartialEq, Eq, PartialOrd, Ord, Debug, Clone)]
#[ssz(struct_behaviour = "transparent")]
pub struct WrapU32 {
    pub inner: u32,
}
subject_transparent!([] WrapU32 { inner: u32 => Plain });
