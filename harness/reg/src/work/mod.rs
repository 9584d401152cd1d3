//! The monitors, one function per property, each giving the units of its workload.
pub mod c08;
pub mod c10;
pub mod c15;
pub mod c17;
pub mod c19;
pub mod codec;

use crate::inputs::{each_input, Kind, Src};
use crate::ops::TypeOps;
use std::sync::Arc;
use vcore::gen::{gen_value, style_for};
use vcore::model::Value;
use vcore::rng::hash_bytes;
use vcore::run::{Cfg, Obs, Unit};

pub fn name_hash(s: &str) -> u64 {
    hash_bytes(s.as_bytes(), 77)
}

/// Units that offer byte strings to the decoder of each type.
pub fn input_units(
    cfg: &Cfg,
    types: &[TypeOps],
    kinds: &[(Kind, u64)],
    thorough: u64,
    oracle: impl Fn(&TypeOps, &[u8], Src, &mut Obs) + Sync + Send + Clone + 'static,
) -> Vec<Unit> {
    let mut out = vec![];
    for t in types {
        let t = Arc::new(t.clone());
        for (kind, quick) in kinds {
            let kind = *kind;
            let cases = if kind == Kind::Exhaustive2 {
                crate::inputs::exhaustive2_cases(&t.schema)
            } else {
                cfg.cases(quick * t.weight as u64, thorough)
            };
            let (t, oracle) = (t.clone(), oracle.clone());
            out.push(Unit::new(
                format!("{}|{}", t.name, kind.name()),
                cases,
                move |case, rng, obs| {
                    let mut f = |b: &[u8], s: Src| {
                        obs.count(s.label());
                        obs.max("input_bytes", b.len() as u64);
                        oracle(&t, b, s, obs)
                    };
                    each_input(&t, kind, case, rng, &mut f);
                },
            ));
        }
    }
    out
}

/// Units that generate values of each type.
pub fn value_units(
    cfg: &Cfg,
    types: &[TypeOps],
    quick: u64,
    thorough: u64,
    oracle: impl Fn(&TypeOps, &Value, u64, &mut Obs) + Sync + Send + Clone + 'static,
) -> Vec<Unit> {
    let mut out = vec![];
    for t in types {
        let t = Arc::new(t.clone());
        let cases = cfg.cases(quick * t.weight as u64, thorough);
        let oracle = oracle.clone();
        out.push(Unit::new(
            format!("{}|values", t.name),
            cases,
            move |case, rng, obs| {
                let style = style_for(case);
                let v = gen_value(&t.schema, rng, style);
                obs.tag("types", &t.name);
                oracle(&t, &v, case, obs)
            },
        ));
    }
    out
}

/// Every value of the small fixed-size types.
pub fn exhaustive_values(t: &TypeOps) -> Option<Vec<Value>> {
    use vcore::model::Schema;
    match &t.schema {
        Schema::Uint(1) => Some((0..256).map(Value::u).collect()),
        Schema::Uint(2) => Some((0..65536).map(Value::u).collect()),
        Schema::Bool => Some(vec![Value::Bool(false), Value::Bool(true)]),
        Schema::Tag(n) => Some((0..*n).map(Value::Tag).collect()),
        Schema::BitVector(n) if *n <= 12 => Some(
            (0..1u64 << n)
                .map(|x| Value::Bits((0..*n).map(|i| (x >> i) & 1 == 1).collect()))
                .collect(),
        ),
        Schema::BitList(n) if *n <= 12 => {
            let mut out = vec![];
            for len in 0..=*n {
                for x in 0..1u64 << len {
                    out.push(Value::Bits((0..len).map(|i| (x >> i) & 1 == 1).collect()));
                }
            }
            Some(out)
        }
        _ => None,
    }
}
