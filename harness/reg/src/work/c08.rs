//! C08: derived codecs against the schema the generator wrote down from the definition.
use super::codec::{c01_value, c02_input, c03_value, c07_value, dbg};
use super::*;
use crate::inputs::{each_input_of, Kind};
use crate::subject::{with_noise, Subject};
use ssz::{Decode, DecodeError, Encode};
use vcore::model::{de, ser, Reject, Schema};
use vcore::run::{catch, clip, hex, panic_signature};

/// Exactly the reference codec, in both directions, maps included as C04 does.
fn input(t: &TypeOps, b: &[u8], s: Src, obs: &mut Obs) {
    super::codec::c04_input(t, b, s, obs);
    if !t.schema.has_map() && !t.schema.has_trans_enum() {
        c02_input(t, b, s, obs);
    }
    // Skipped fields are defaulted on decode.
    if let Ok(Ok(d)) = catch(|| (t.decode)(b)) {
        let want = (t.build)(&d.to_value());
        obs.eval();
        if !d.same(&*want) {
            obs.fail(
                format!("{}|skipped field not default", t.name),
                format!("{}: {} decodes to {}", t.name, hex(b), clip(&d.debug(), 600)),
            );
        }
    }
}

fn values(t: &TypeOps, v: &Value, case: u64, obs: &mut Obs) {
    c03_value(t, v, obs);
    c07_value(t, v, 0, obs);
    if t.schema.has_trans_enum() {
        trans(t, v, obs);
    } else {
        c01_value(t, v, obs);
    }
    // With non-default skipped fields: same bytes, and decoding gives the defaults back.
    let r = catch(|| {
        let noisy = with_noise(case * 13 + 5, || (t.build)(v));
        let b = noisy.as_ssz_bytes();
        (b, noisy.ssz_bytes_len())
    });
    obs.eval();
    let want = ser(&t.schema, v);
    match r {
        Err(p) => obs.fail(
            format!("{}|panic {}", t.name, panic_signature(&p)),
            format!("{}: encoding {} with non-default skipped fields panicked: {p}", t.name, dbg(v)),
        ),
        Ok((b, n)) => {
            if b != want || n != want.len() {
                obs.fail(
                    format!("{}|skipped field encoded", t.name),
                    format!("{}: {} with non-default skipped fields encodes to {} (predicted {n}) instead of {}", t.name, dbg(v), hex(&b), hex(&want)),
                );
            }
        }
    }
}

/// A transparent enum decodes to the first variant that accepts the bytes.
fn trans(t: &TypeOps, v: &Value, obs: &mut Obs) {
    let b = ser(&t.schema, v);
    let want = de(&t.schema, &b);
    obs.eval();
    obs.count("transparent_enum_values");
    match (catch(|| (t.decode)(&b)), want) {
        (Ok(Ok(d)), Ok(w)) if d.to_value() == w => (),
        (got, w) => obs.fail(
            format!("{}|transparent decode", t.name),
            format!("{}: {} decodes to {:?}, specification {w:?}", t.name, hex(&b), got.map(|r| r.map(|d| d.debug()))),
        ),
    }
}

/// Metadata must be that of the schema, not only consistent.
fn meta(t: &TypeOps, obs: &mut Obs) {
    let want = (t.schema.fixed().is_some(), t.schema.fixed_part_len());
    for m in (t.meta)() {
        obs.eval();
        if (m.fixed, m.fixed_len) != want {
            obs.fail(
                format!("{}|metadata", t.name),
                format!("{} as {}: {m:?}, schema says fixed={} len={}", t.name, t.schema.describe(), want.0, want.1),
            );
        }
    }
}

// ------------------------------------------------------------------------------------------
// Structs whose encoded and decoded field lists differ, or which derive only one side.

#[derive(Clone)]
pub struct AsymField {
    pub schema: Schema,
    pub skip_ser: bool,
    pub skip_de: bool,
    pub default: Value,
}

#[derive(Clone)]
pub struct AsymOps {
    pub name: String,
    pub transparent: bool,
    pub fields: Vec<AsymField>,
    /// as_ssz_bytes, ssz_bytes_len, (fixed, fixed_len) of a value of all fields
    pub enc: Option<fn(&[Value]) -> (Vec<u8>, usize, (bool, usize))>,
    /// all fields after decoding
    pub dec: Option<fn(&[u8]) -> Result<Vec<Value>, DecodeError>>,
    pub dec_meta: Option<fn() -> (bool, usize)>,
}

pub fn asym_field<T: Subject + Default>(skip_ser: bool, skip_de: bool) -> AsymField {
    AsymField {
        schema: T::schema(),
        skip_ser,
        skip_de,
        default: T::default().to_value(),
    }
}
pub fn asym_enc<T: Encode>(x: T) -> (Vec<u8>, usize, (bool, usize)) {
    (x.as_ssz_bytes(), x.ssz_bytes_len(), (T::is_ssz_fixed_len(), T::ssz_fixed_len()))
}
pub fn asym_meta<T: Decode>() -> (bool, usize) {
    (T::is_ssz_fixed_len(), T::ssz_fixed_len())
}

/// `$f` is a name or an index; sides is `both`, `enc` or `dec`.
#[macro_export]
macro_rules! asym_ops {
    ($out:expr; $name:ident, $transparent:literal, $sides:ident { $($f:tt : $t:ty, $ss:literal, $sd:literal);* $(;)? }) => {
        $out.push($crate::work::c08::AsymOps {
            name: concat!(module_path!(), "::", stringify!($name)).trim_start_matches("reg_run::generated::").to_string(),
            transparent: $transparent,
            fields: vec![$($crate::work::c08::asym_field::<$t>($ss, $sd)),*],
            enc: $crate::asym_ops!(@enc $sides $name { $($f : $t;)* }),
            dec: $crate::asym_ops!(@dec $sides $name { $($f : $t;)* }),
            dec_meta: $crate::asym_ops!(@meta $sides $name),
        });
    };
    (@enc dec $name:ident { $($f:tt : $t:ty;)* }) => { None };
    // every field is a reference
    (@enc ref $name:ident { $($f:tt : $t:ty;)* }) => {
        Some(|v: &[$crate::Value]| {
            #[allow(unused_mut, unused_variables)]
            let mut it = v.iter();
            $( let $f = <$t as $crate::Subject>::from_value(it.next().unwrap()); )*
            $crate::work::c08::asym_enc::<$name>($name { $($f: &$f),* })
        })
    };
    (@dec ref $name:ident { $($f:tt : $t:ty;)* }) => { None };
    (@meta ref $name:ident) => { None };
    (@enc $s:ident $name:ident { $($f:tt : $t:ty;)* }) => {
        Some(|v: &[$crate::Value]| {
            #[allow(unused_mut, unused_variables)]
            let mut it = v.iter();
            $crate::work::c08::asym_enc::<$name>($name { $($f: <$t as $crate::Subject>::from_value(it.next().unwrap())),* })
        })
    };
    (@dec enc $name:ident { $($f:tt : $t:ty;)* }) => { None };
    (@dec $s:ident $name:ident { $($f:tt : $t:ty;)* }) => {
        Some(|b: &[u8]| <$name as ssz::Decode>::from_ssz_bytes(b).map(|x| vec![$(<$t as $crate::Subject>::to_value(&x.$f)),*]))
    };
    (@meta enc $name:ident) => { None };
    (@meta $s:ident $name:ident) => { Some($crate::work::c08::asym_meta::<$name>) };
}

impl AsymOps {
    fn side(&self, ser: bool) -> Schema {
        let mut v: Vec<Schema> = self
            .fields
            .iter()
            .filter(|f| !(if ser { f.skip_ser } else { f.skip_de }))
            .map(|f| f.schema.clone())
            .collect();
        if self.transparent {
            assert_eq!(v.len(), 1, "harness: transparent");
            v.pop().unwrap()
        } else {
            Schema::Container(v)
        }
    }
    fn model_de(&self, b: &[u8]) -> Result<Vec<Value>, Reject> {
        let v = de(&self.side(false), b)?;
        let live = if self.transparent {
            vec![v]
        } else {
            match v {
                Value::Seq(s) => s,
                _ => unreachable!(),
            }
        };
        let mut it = live.into_iter();
        Ok(self
            .fields
            .iter()
            .map(|f| if f.skip_de { f.default.clone() } else { it.next().unwrap() })
            .collect())
    }
}

fn asym_value(a: &AsymOps, case: u64, rng: &mut vcore::rng::Rng, obs: &mut Obs) {
    let vals: Vec<Value> = a
        .fields
        .iter()
        .map(|f| gen_value(&f.schema, rng, style_for(case)))
        .collect();
    let enc = match a.enc {
        Some(e) => e,
        None => return,
    };
    let live: Vec<Value> = a
        .fields
        .iter()
        .zip(&vals)
        .filter(|(f, _)| !f.skip_ser)
        .map(|(_, v)| v.clone())
        .collect();
    let s = a.side(true);
    let v = if a.transparent { live[0].clone() } else { Value::Seq(live) };
    let want = ser(&s, &v);
    obs.eval();
    obs.count("asymmetric_values");
    obs.distinct(hash_bytes(&want, name_hash(&a.name)));
    match catch(|| enc(&vals)) {
        Err(p) => obs.fail(
            format!("{}|panic {}", a.name, panic_signature(&p)),
            format!("{}: encoding {vals:?} panicked: {p}", a.name),
        ),
        Ok((b, n, m)) => {
            obs.sample(|| format!("{} (encoder as {}): {vals:?} -> {}", a.name, s.describe(), hex(&b)));
            if b != want || n != want.len() {
                obs.fail(
                    format!("{}|encoding", a.name),
                    format!("{} as {}: {vals:?} encodes to {} (predicted {n}) instead of {}", a.name, s.describe(), hex(&b), hex(&want)),
                );
            }
            if m != (s.fixed().is_some(), s.fixed_part_len()) {
                obs.fail(
                    format!("{}|metadata", a.name),
                    format!("{} as {}: encoder metadata {m:?}", a.name, s.describe()),
                );
            }
        }
    }
}

fn asym_input(a: &AsymOps, b: &[u8], obs: &mut Obs) {
    let dec = match a.dec {
        Some(d) => d,
        None => return,
    };
    obs.eval();
    obs.count("asymmetric_inputs");
    match (catch(|| dec(b)), a.model_de(b)) {
        (Ok(Ok(v)), Ok(w)) if v == w => {
            obs.count("asymmetric_accepted");
            obs.distinct(hash_bytes(b, name_hash(&a.name)));
        }
        (Ok(Err(_)), Err(_)) => (),
        (got, want) => obs.fail(
            format!("{}|decoding", a.name),
            format!("{} as {}: {} decodes to {got:?}, specification {want:?}", a.name, a.side(false).describe(), hex(b)),
        ),
    }
}

pub fn c08(cfg: &Cfg, types: &[TypeOps], asym: &[AsymOps]) -> Vec<Unit> {
    let types: Vec<TypeOps> = types.iter().filter(|t| t.derived).cloned().collect();
    let mut out = value_units(cfg, &types, 500, 12, |t, v, case, obs| {
        obs.tag("definitions", &t.name);
        values(t, v, case, obs)
    });
    out.extend(input_units(
        cfg,
        &types,
        &[
            (Kind::Exhaustive2, 0),
            (Kind::Near, 350),
            (Kind::Soup, 350),
            (Kind::Lens, 10),
        ],
        12,
        input,
    ));
    out.extend(super::codec::tall_units(cfg, &types, |t, v, case, obs| {
        values(t, v, case, obs);
        super::codec::tall_inputs(t, v, case, obs, input);
    }));
    for t in &types {
        let t2 = t.clone();
        out.push(Unit::new(format!("{}|metadata", t.name), 1, move |_, _, obs| meta(&t2, obs)));
    }
    for a in asym {
        let a2 = a.clone();
        out.push(Unit::new(format!("{}|asym values", a.name), cfg.cases(400, 12), move |case, rng, obs| {
            obs.tag("definitions", &a2.name);
            asym_value(&a2, case, rng, obs)
        }));
        let a2 = a.clone();
        out.push(Unit::new(format!("{}|asym meta", a.name), 1, move |_, _, obs| {
            obs.eval();
            if let Some(m) = a2.dec_meta {
                let s = a2.side(false);
                if m() != (s.fixed().is_some(), s.fixed_part_len()) {
                    obs.fail(format!("{}|metadata", a2.name), format!("{}: decoder metadata {:?}", a2.name, m()));
                }
            }
        }));
        if a.dec.is_none() {
            continue;
        }
        for (kind, n) in [(Kind::Exhaustive2, 0), (Kind::Near, 300), (Kind::Soup, 200), (Kind::Lens, 10)] {
            let a2 = a.clone();
            let s = a.side(false);
            let cases = if kind == Kind::Exhaustive2 { crate::inputs::exhaustive2_cases(&s) } else { cfg.cases(n, 12) };
            out.push(Unit::new(format!("{}|asym {}", a.name, kind.name()), cases, move |case, rng, obs| {
                each_input_of(&s, kind, case, rng, &mut |b, _| asym_input(&a2, b, obs));
            }));
        }
    }
    out
}
