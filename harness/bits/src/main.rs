//! Bitfield monitors.
mod c05;
mod c11;
mod c12;
mod c13;
mod c14;
mod c18;
mod field;
mod observe;
mod text;

use field::Ty;
use ssz::{BitList, BitVector, BitVectorDynamic};
use typenum::*;
use vcore::run::{main_with, Cfg, Unit};

macro_rules! each {
    ($how:ident: $($n:ty),* $(,)?) => { vec![$( Ty::$how::<BitList<$n>>(), Ty::$how::<BitVector<$n>>() ),*] };
}

fn types() -> Vec<Ty> {
    let mut v = each!(of:
        U0, U2, U3, U4, U5, U6, U7, U10, U11, U12, U13, U14, U15, U16, U18, U19, U20,
        U21, U22, U23, U24, U25, U26, U27, U28, U29, U30, U31, U32, U33, U39, U40, U41, U63, U64, U65,
        U127, U128, U129, U255, U256, U257, U511, U512, U513, U1023, U1024, Sum<U1024, U1>,
        Sum<U1024, U7>, Sum<U1024, U8>, Diff<U2048, U1>, U2048, Sum<U2048, U1>, U4096, U8192);
    v.extend(each!(full: U1, U8, U9, U17));
    v.push(Ty::of::<BitList<U1099511627776>>());
    v.push(Ty::of::<BitList<U9223372036854775808>>());
    v.push(Ty::full::<BitVectorDynamic>());
    v.sort_by_key(|t| (t.bound, t.kind as u8));
    v
}

/// Fields of more bits than sixteen-bit counters hold; a few cases each.
fn tall_types() -> Vec<Ty> {
    let mut v = each!(of: U65536, Sum<U65536, U1>, U131072);
    v.push(Ty::of::<BitList<U1099511627776>>());
    v.push(Ty::of::<BitVectorDynamic>());
    v
}

fn units(cfg: &Cfg) -> Vec<Unit> {
    let mut out = Vec::new();
    let per_type = match cfg.prop.as_str() {
        "C05" => c05::units,
        "C11" => c11::units,
        "C12" => c12::units,
        "C13" => c13::units,
        "C14" => c14::units,
        "C18" => c18::units,
        p => panic!("harness: this binary does not decide {p}"),
    };
    for t in types() {
        per_type(t, cfg, &mut out);
    }
    let tall = match cfg.prop.as_str() {
        "C05" => c05::tall,
        "C11" => c11::tall,
        "C12" => c12::tall,
        "C13" => c13::tall,
        "C14" => c14::tall,
        _ => c18::tall,
    };
    for t in tall_types() {
        tall(t, cfg, &mut out);
    }
    if cfg.prop == "C13" {
        c13::dynamic(cfg, &mut out);
        c13::resizes(cfg, &mut out);
    }
    out
}

fn main() {
    main_with(units)
}
