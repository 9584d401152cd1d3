//! `four_byte_option_impl!` codec modules used by derived fields and by C17.
use crate::bases::*;
use crate::subject::Subject;
use alloy_primitives::U256;
use ssz::{BitList, DecodeError};
use std::collections::BTreeMap;
use std::sync::Arc;
use vcore::model::{Schema, Value};

mod types {
    pub use crate::bases::*;
    pub use alloy_primitives::U256;
    pub use ssz::BitList;
    pub use std::collections::BTreeMap;
    pub use std::sync::Arc;
}

/// The functions of one codec module, over model values.
#[derive(Clone)]
pub struct LegacyOps {
    pub name: &'static str,
    pub inner: Schema,
    pub enc: fn(&Value) -> Vec<u8>,
    pub append: fn(&Value, &mut Vec<u8>),
    pub len: fn(&Value) -> usize,
    pub dec: fn(&[u8]) -> Result<Value, DecodeError>,
    pub round: fn(&Value) -> bool,
    pub meta: fn() -> [(bool, usize); 2],
}

macro_rules! legacy_mods {
    ($($m:ident, $i:ident : $t:ty;)*) => {
        /// Each codec is defined in a module of its own because the macro makes private modules.
        $(pub mod $i {
            #[allow(unused_imports)]
            use super::types::*;
            type Inner = $t;
            ssz::four_byte_option_impl!($m, Inner);
            pub use $m::*;
        })*
        $(pub mod $m {
            pub use super::$i::{encode, decode};
        })*
        pub fn all() -> Vec<LegacyOps> {
            vec![$(LegacyOps {
                name: stringify!($t),
                inner: <$t as Subject>::schema(),
                enc: |v| $i::encode::as_ssz_bytes(&Option::<$t>::from_value(v)),
                append: |v, b| $i::encode::ssz_append(&Option::<$t>::from_value(v), b),
                len: |v| $i::encode::ssz_bytes_len(&Option::<$t>::from_value(v)),
                dec: |b| $i::decode::from_ssz_bytes(b).map(|x: Option<$t>| x.to_value()),
                round: |v| {
                    let x = Option::<$t>::from_value(v);
                    $i::decode::from_ssz_bytes(&$i::encode::as_ssz_bytes(&x)) == Ok(x)
                },
                meta: || [
                    ($i::encode::is_ssz_fixed_len(), $i::encode::ssz_fixed_len()),
                    ($i::decode::is_ssz_fixed_len(), $i::decode::ssz_fixed_len()),
                ],
            }),*]
        }
    };
}

legacy_mods! {
    leg_u8, i_u8: u8;
    leg_u16, i_u16: u16;
    leg_u64, i_u64: u64;
    leg_bool, i_bool: bool;
    leg_u256, i_u256: U256;
    leg_b32, i_b32: [u8; 32];
    leg_b0, i_b0: [u8; 0];
    leg_bytes, i_bytes: Vec<u8>;
    leg_vu16, i_vu16: Vec<u16>;
    leg_vvu8, i_vvu8: Vec<Vec<u8>>;
    leg_opt8, i_opt8: Option<u8>;
    leg_optv, i_optv: Option<Vec<u16>>;
    leg_tup, i_tup: (u8, Vec<u8>);
    leg_tupf, i_tupf: (u8, u32);
    leg_bl, i_bl: BitList<typenum::U12>;
    leg_map, i_map: BTreeMap<u8, u16>;
    leg_arc, i_arc: Arc<Vec<u8>>;
    leg_fix, i_fix: FixPair;
    leg_var, i_var: VarPair;
    leg_uni, i_uni: MixUnion;
    leg_tag, i_tag: ThreeTag;
}
