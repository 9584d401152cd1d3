//! C01, C02, C03, C04, C05 (type part), C06, C07.
use super::*;
use crate::inputs::Kind;
use crate::subject::with_noise;
use std::cell::RefCell;
use vcore::guard::Guarded;
use vcore::model::{de, ser, Schema};
use vcore::run::{catch, clip, hex, panic_signature};

pub fn dbg(v: &Value) -> String {
    clip(&format!("{v:?}"), 900)
}

// ------------------------------------------------------------------------------------------
// C01

pub fn c01_value(t: &TypeOps, v: &Value, obs: &mut Obs) {
    let sig = |k: &str| format!("{}|{k}", t.name);
    let r = catch(|| {
        let o = (t.build)(v);
        let b = o.as_ssz_bytes();
        let d = (t.decode)(&b);
        (o, b, d)
    });
    obs.eval();
    match r {
        Err(p) => obs.fail(
            sig(&format!("panic {}", panic_signature(&p))),
            format!("{}: round trip of {} panicked: {p}", t.name, dbg(v)),
        ),
        Ok((_, b, Err(e))) => obs.fail(
            sig("own encoding rejected"),
            format!("{}: value {} encodes to {} which decodes to Err({e:?})", t.name, dbg(v), hex(&b)),
        ),
        Ok((o, b, Ok(d))) => {
            if !b.is_empty() {
                obs.distinct(hash_bytes(&b, name_hash(&t.name)));
            }
            obs.max("encoded_bytes", b.len() as u64);
            obs.sample(|| format!("{}: {} -> {} -> equal", t.name, dbg(v), hex(&b)));
            if !(o.same(&*d) && d.same(&*o)) {
                obs.fail(
                    sig("decoded value differs"),
                    format!("{}: value {} encodes to {} which decodes to {}", t.name, dbg(v), hex(&b), clip(&d.debug(), 900)),
                );
            } else if d.to_value() != *v {
                obs.fail(
                    sig("decoded contents differ"),
                    format!("{}: value {} encodes to {} which decodes to contents {}", t.name, dbg(v), hex(&b), dbg(&d.to_value())),
                );
            }
        }
    }
}

pub fn c01(cfg: &Cfg, types: &[TypeOps]) -> Vec<Unit> {
    let types: Vec<TypeOps> =
        types.iter().filter(|t| !t.schema.has_trans_enum()).cloned().collect();
    let mut u = value_units(cfg, &types, 1500, 15, |t, v, _, obs| c01_value(t, v, obs));
    u.extend(exhaustive_units(&types, c01_value));
    u.extend(huge_units(cfg, &types, c01_value));
    u.extend(tall_units(cfg, &types, |t, v, _, obs| c01_value(t, v, obs)));
    u
}

fn exhaustive_units(
    types: &[TypeOps],
    f: impl Fn(&TypeOps, &Value, &mut Obs) + Sync + Send + Clone + 'static,
) -> Vec<Unit> {
    let mut out = vec![];
    for t in types {
        if let Some(vals) = exhaustive_values(t) {
            let (t, f) = (t.clone(), f.clone());
            let n = vals.len() as u64;
            out.push(Unit::new(
                format!("{}|every value", t.name),
                (n + 255) / 256,
                move |case, _, obs| {
                    for v in vals.iter().skip(case as usize * 256).take(256) {
                        obs.count("exhaustive_values");
                        f(&t, v, obs);
                    }
                },
            ));
        }
    }
    out
}

/// A few values whose encodings exceed 2^16 and 2^24 bytes, with long early variable parts so
/// that later offsets need their third and fourth byte.
fn huge_value(s: &Schema, len: usize, flip: bool) -> Option<Value> {
    fn small(s: &Schema) -> Value {
        let mut r = vcore::rng::Rng::new(5);
        gen_value(s, &mut r, vcore::gen::Style::One)
    }
    match s {
        Schema::ByteList => Some(Value::Bytes(vec![0xa5; len])),
        Schema::List(i) if i.fixed().is_none() => {
            let h = huge_value(i, len, flip)?;
            let mut items = vec![small(i), h, small(i), small(i)];
            if flip {
                items.swap(0, 1);
            }
            Some(Value::Seq(items))
        }
        Schema::Container(fs) => {
            let mut out: Vec<Value> = fs.iter().map(small).collect();
            let mut vars: Vec<usize> = (0..fs.len()).filter(|i| fs[*i].fixed().is_none()).collect();
            if flip {
                vars.reverse();
            }
            let (at, h) = vars
                .into_iter()
                .find_map(|i| Some((i, huge_value(&fs[i], len, flip)?)))?;
            out[at] = h;
            Some(Value::Seq(out))
        }
        Schema::Union(v) => {
            let (i, s, h) = v
                .iter()
                .enumerate()
                .find_map(|(i, s)| Some((i, s.as_ref()?, huge_value(s.as_ref()?, len, flip)?)))?;
            let _ = s;
            Some(Value::Union(i, Some(Box::new(h))))
        }
        Schema::Legacy(s) => Some(Value::Union(1, Some(Box::new(huge_value(s, len, flip)?)))),
        Schema::Map(k, v) => {
            let h = huge_value(v, len, flip)?;
            let mut keys = vec![small(k)];
            let mut r = vcore::rng::Rng::new(9);
            for _ in 0..2 {
                keys.push(gen_value(k, &mut r, vcore::gen::Style::Small));
            }
            keys.sort();
            keys.dedup();
            let mut out: Vec<Value> = keys
                .into_iter()
                .map(|k| Value::Seq(vec![k, small(v)]))
                .collect();
            if let Value::Seq(e) = &mut out[0] {
                e[1] = h;
            }
            Some(Value::Seq(out))
        }
        Schema::Set(k) => {
            let h = huge_value(k, len, flip)?;
            let mut v = vec![small(k), h];
            v.sort();
            v.dedup();
            Some(Value::Seq(v))
        }
        _ => None,
    }
}

/// A value whose first list has exactly `n` items (as many as `max_bytes` allows), most of them as
/// small as can be, so that offset tables and item counts pass 2^14, 2^16, ... .
pub fn tall_value(s: &Schema, n: usize, max_bytes: usize, rng: &mut vcore::rng::Rng) -> Option<Value> {
    use vcore::gen::Style;
    let tiny = |s: &Schema, rng: &mut vcore::rng::Rng| gen_value(s, rng, Style::Empty);
    let fit = |cost: usize| n.min(max_bytes / cost.max(1));
    match s {
        Schema::List(i) if i.fixed() != Some(0) => {
            let n = match i.fixed() {
                Some(c) => fit(c),
                None => fit(4 + gen_size(i)),
            };
            // a few bodies, repeated: the ends get ones of their own
            let pool: Vec<Value> = (0..5).map(|_| tiny(i, rng)).collect();
            let mut items: Vec<Value> = (0..n).map(|k| pool[k % 5].clone()).collect();
            if n > 4 {
                for at in [0, 1, n / 2, n - 2, n - 1] {
                    if rng.chance(2, 3) {
                        items[at] = gen_value(i, rng, Style::One);
                    }
                }
            }
            Some(Value::Seq(items))
        }
        Schema::Set(i) => {
            let mut items = ascending(i, fit(i.fixed().unwrap_or(12)))?;
            items.sort();
            items.dedup();
            Some(Value::Seq(items))
        }
        Schema::Map(k, v) => {
            let n = fit(k.fixed().unwrap_or(12) + v.fixed().unwrap_or(8) + 4);
            let mut keys = ascending(k, n)?;
            keys.sort();
            keys.dedup();
            let pool: Vec<Value> = (0..5).map(|_| gen_value(v, rng, Style::Empty)).collect();
            Some(Value::Seq(
                keys.into_iter().enumerate().map(|(i, k)| Value::Seq(vec![k, pool[i % 5].clone()])).collect(),
            ))
        }
        Schema::Container(fs) => {
            let mut out: Vec<Value> = fs.iter().map(|f| gen_value(f, rng, Style::One)).collect();
            let (at, v) = fs.iter().enumerate().find_map(|(i, f)| Some((i, tall_value(f, n, max_bytes, rng)?)))?;
            out[at] = v;
            Some(Value::Seq(out))
        }
        Schema::Union(vs) => vs.iter().enumerate().find_map(|(i, s)| {
            Some(Value::Union(i, Some(Box::new(tall_value(s.as_ref()?, n, max_bytes, rng)?))))
        }),
        Schema::Legacy(s) => Some(Value::Union(1, Some(Box::new(tall_value(s, n, max_bytes, rng)?)))),
        _ => None,
    }
}

/// Rough encoded size of the smallest value.
fn gen_size(s: &Schema) -> usize {
    let mut r = vcore::rng::Rng::new(3);
    ser(s, &gen_value(s, &mut r, vcore::gen::Style::Empty)).len()
}

/// Up to `n` different values of a key schema.
fn ascending(s: &Schema, n: usize) -> Option<Vec<Value>> {
    let le = |k: usize, w: usize| -> Vec<u8> { (0..w).map(|i| if i < 8 { (k >> (8 * i)) as u8 } else { 0 }).collect() };
    Some(match s {
        Schema::Uint(w) | Schema::NonZero(w) => {
            let max = if *w >= 4 { usize::MAX } else { (1 << (8 * w)) - 1 };
            (1..=n.min(max)).map(|k| Value::u(k as u64)).collect()
        }
        Schema::ByteVec(w) if *w > 0 => {
            let max = if *w >= 4 { usize::MAX } else { 1 << (8 * w) };
            (0..n.min(max)).map(|k| Value::Bytes(le(k, *w))).collect()
        }
        Schema::ByteList => (0..n).map(|k| Value::Bytes(le(k, 1 + (k > 255) as usize + (k > 65535) as usize))).collect(),
        Schema::Container(fs) => {
            let at = fs.iter().position(|f| matches!(f, Schema::Uint(w) if *w >= 2) || matches!(f, Schema::ByteList))?;
            let mut r = vcore::rng::Rng::new(4);
            let rest: Vec<Value> = fs.iter().map(|f| gen_value(f, &mut r, vcore::gen::Style::Empty)).collect();
            ascending(&fs[at], n)?
                .into_iter()
                .map(|x| {
                    let mut v = rest.clone();
                    v[at] = x;
                    Value::Seq(v)
                })
                .collect()
        }
        Schema::List(i) => ascending(i, n)?.into_iter().map(|x| Value::Seq(vec![x])).collect(),
        _ => return None,
    })
}

/// Item counts of the tall values: around the powers of two at which a count, or the size of an
/// offset table, needs another byte.
const TALL: [usize; 9] = [16384, 255, 65536, 256, 16383, 257, 65537, 1024, 16385];

/// Values with many items, each type with a few of the counts (all of them when thorough).
pub fn tall_units(
    cfg: &Cfg,
    types: &[TypeOps],
    f: impl Fn(&TypeOps, &Value, u64, &mut Obs) + Sync + Send + Clone + 'static,
) -> Vec<Unit> {
    let mut out = vec![];
    let mut k = 0;
    for t in types {
        let mut r = vcore::rng::Rng::new(1);
        if tall_value(&t.schema, 10, 1 << 20, &mut r).is_none() {
            continue;
        }
        let (t, f) = (t.clone(), f.clone());
        let runs: Vec<usize> = if cfg.thorough() {
            TALL.to_vec()
        } else {
            // counts past 2^16 for a third of the types: they cost the most
            let mut v = vec![TALL[[0, 4, 8][k % 3]], TALL[[1, 3, 5, 7][k % 4]]];
            if k % 3 == 0 {
                v.push(TALL[[2, 6][k / 3 % 2]]);
            }
            v
        };
        k += 1;
        out.push(Unit::new(format!("{}|tall", t.name), runs.len() as u64, move |case, rng, obs| {
            let n = runs[case as usize];
            if let Some(v) = tall_value(&t.schema, n, 3 << 20, rng) {
                obs.count("tall_values");
                obs.max("items", n as u64);
                f(&t, &v, case, obs);
            }
        }));
    }
    out
}

/// The encoding of a tall value, and inputs that differ from it at the ends of its tables.
pub fn tall_inputs(t: &TypeOps, v: &Value, case: u64, obs: &mut Obs, f: impl Fn(&TypeOps, &[u8], Src, &mut Obs)) {
    let (b, marks) = vcore::model::ser_marks(&t.schema, v);
    f(t, &b, Src::Valid, obs);
    if b.is_empty() {
        return;
    }
    let mut c = b.clone();
    c.push(0);
    f(t, &c, Src::Resized, obs);
    f(t, &b[..b.len() - 1], Src::Resized, obs);
    let offs: Vec<usize> = marks
        .iter()
        .filter(|m| m.kind == vcore::model::MarkKind::Offset)
        .map(|m| m.pos)
        .collect();
    let mut rng = vcore::rng::Rng::new(case + b.len() as u64);
    if !offs.is_empty() {
        for at in [0, 1, offs.len() / 2, offs.len() - 2.min(offs.len()), offs.len() - 1, rng.below(offs.len())] {
            if at >= offs.len() {
                continue;
            }
            let mut c = b.clone();
            let p = offs[at];
            let word = u32::from_le_bytes([c[p], c[p + 1], c[p + 2], c[p + 3]]);
            let d = *rng.pick(&[1i64, -1, 4, -4, 65536, -65536]);
            let w = (word as i64 + d) as u32;
            c[p..p + 4].copy_from_slice(&w.to_le_bytes());
            f(t, &c, Src::Mutated(0), obs);
        }
    }
    // a byte of the item area
    let mut c = b.clone();
    let i = c.len() - 1 - rng.below(c.len().min(64));
    c[i] ^= 1 << rng.below(8);
    f(t, &c, Src::Mutated(14), obs);
}

fn huge_units(
    cfg: &Cfg,
    types: &[TypeOps],
    f: impl Fn(&TypeOps, &Value, &mut Obs) + Sync + Send + Clone + 'static,
) -> Vec<Unit> {
    let mut out = vec![];
    let mut n24 = 0;
    for t in types {
        if !t.schema.has_offsets() || huge_value(&t.schema, 1, false).is_none() {
            continue;
        }
        let (t, f) = (t.clone(), f.clone());
        // every such type just above 2^16, a few above 2^24
        let mut runs = vec![(70_000usize, n24 % 2 == 0)];
        if cfg.thorough() {
            runs.extend([(70_000, n24 % 2 == 1), (65_530, true), (65_530, false)]);
        }
        if n24 % 97 == 0 || cfg.thorough() {
            runs.push(((1 << 24) + 5, n24 % 2 == 1));
        }
        n24 += 1;
        out.push(Unit::new(
            format!("{}|huge", t.name),
            runs.len() as u64,
            move |case, _, obs| {
                let (len, flip) = runs[case as usize];
                let v = huge_value(&t.schema, len, flip).expect("harness: huge");
                obs.count(if len >= 1 << 24 { "above_2^24" } else { "above_2^16" });
                f(&t, &v, obs);
            },
        ));
    }
    out
}

// ------------------------------------------------------------------------------------------
// C02

pub fn c02_input(t: &TypeOps, b: &[u8], s: Src, obs: &mut Obs) {
    let r = catch(|| (t.decode)(b).ok().map(|d| (d.as_ssz_bytes(), d)));
    obs.eval();
    match r {
        // A panic is not an accepted input: C05 judges it.
        Err(_) => obs.count("panicked"),
        Ok(None) => {
            obs.count("rejected");
            if matches!(s, Src::Mutated(_)) {
                obs.distinct(hash_bytes(b, name_hash(&t.name)));
            }
        }
        Ok(Some((e, d))) => {
            obs.count("accepted");
            obs.tag("types_accepted", &t.name);
            if !b.is_empty() {
                obs.distinct(hash_bytes(b, name_hash(&t.name)));
            }
            obs.sample(|| format!("{}: accepted {} and re-encoded it identically", t.name, hex(b)));
            if e != b {
                obs.fail(
                    format!("{}|not canonical", t.name),
                    format!("{}: accepts {} as {}, which re-encodes to {}", t.name, hex(b), clip(&d.debug(), 600), hex(&e)),
                );
            }
        }
    }
}

pub const INPUTS: [(Kind, u64); 4] = [
    (Kind::Exhaustive2, 0),
    (Kind::Near, 900),
    (Kind::Soup, 800),
    (Kind::Lens, 24),
];

pub fn c02(cfg: &Cfg, types: &[TypeOps]) -> Vec<Unit> {
    let types: Vec<TypeOps> = types
        .iter()
        .filter(|t| !t.schema.has_trans_enum() && !t.schema.has_map())
        .cloned()
        .collect();
    let mut u = input_units(cfg, &types, &INPUTS, 12, c02_input);
    u.extend(tall_units(cfg, &types, |t, v, case, obs| tall_inputs(t, v, case, obs, c02_input)));
    u
}

// ------------------------------------------------------------------------------------------
// C03

pub fn c03_value(t: &TypeOps, v: &Value, obs: &mut Obs) {
    c03_value_noise(t, v, 0, obs)
}

fn c03_value_noise(t: &TypeOps, v: &Value, noise: u64, obs: &mut Obs) {
    let want = ser(&t.schema, v);
    let r = catch(|| {
        let o = if noise != 0 {
            with_noise(noise, || (t.build)(v))
        } else {
            (t.build)(v)
        };
        o.as_ssz_bytes()
    });
    obs.eval();
    if !want.is_empty() {
        obs.distinct(hash_bytes(&want, name_hash(&t.name)));
    }
    obs.max("encoded_bytes", want.len() as u64);
    match r {
        Err(p) => obs.fail(
            format!("{}|panic {}", t.name, panic_signature(&p)),
            format!("{}: encoding {} panicked: {p}", t.name, dbg(v)),
        ),
        Ok(b) => {
            obs.sample(|| format!("{}: {} -> {} as specified", t.name, dbg(v), hex(&b)));
            if b != want {
                obs.fail(
                    format!("{}|wrong bytes", t.name),
                    format!(
                        "{} as {}: value {} encodes to {} but the specification says {}",
                        t.name, t.schema.describe(), dbg(v), hex(&b), hex(&want)
                    ),
                );
            }
        }
    }
}

pub fn c03(cfg: &Cfg, types: &[TypeOps]) -> Vec<Unit> {
    let mut u = value_units(cfg, types, 1800, 15, |t, v, case, obs| {
        // skipped fields hold something else than their default every other time
        c03_value_noise(t, v, if case % 2 == 1 { case * 7919 } else { 0 }, obs)
    });
    u.extend(exhaustive_units(types, c03_value));
    u.extend(huge_units(cfg, types, c03_value));
    u.extend(tall_units(cfg, types, |t, v, _, obs| c03_value(t, v, obs)));
    u
}

// ------------------------------------------------------------------------------------------
// C04

/// Types without maps: accepted exactly when the model accepts. With maps: only forward.
pub fn c04_input(t: &TypeOps, b: &[u8], s: Src, obs: &mut Obs) {
    let want = de(&t.schema, b);
    let r = catch(|| (t.decode)(b));
    obs.eval();
    if want.is_ok() || matches!(s, Src::Mutated(_)) {
        obs.distinct(hash_bytes(b, name_hash(&t.name)));
    }
    let one_way = t.schema.has_map();
    match (r, want) {
        (Err(p), w) => obs.fail(
            format!("{}|panic {}", t.name, panic_signature(&p)),
            format!("{}: decoding {} panicked: {p} (specification: {})", t.name, hex(b),
                w.map(|v| dbg(&v)).unwrap_or_else(|e| e.0.into())),
        ),
        (Ok(Ok(d)), Ok(v)) => {
            obs.count("accepted");
            obs.tag("types_accepted", &t.name);
            obs.sample(|| format!("{}: accepted {} as {}", t.name, hex(b), dbg(&v)));
            let got = d.to_value();
            if got != v {
                obs.fail(
                    format!("{}|wrong value", t.name),
                    format!("{} as {}: {} decodes to {} but the specification says {}", t.name, t.schema.describe(), hex(b), dbg(&got), dbg(&v)),
                );
            } else if !d.same(&*(t.build)(&v)) {
                obs.fail(
                    format!("{}|wrong value", t.name),
                    format!("{}: {} decodes to {} which is not equal to the specified value {}", t.name, hex(b), clip(&d.debug(), 600), dbg(&v)),
                );
            }
        }
        (Ok(Ok(d)), Err(why)) => obs.fail(
            format!("{}|invalid accepted: {}", t.name, why.0),
            format!("{} as {}: invalid encoding {} ({}) decodes to {}", t.name, t.schema.describe(), hex(b), why.0, clip(&d.debug(), 600)),
        ),
        (Ok(Err(e)), Ok(v)) => {
            if one_way {
                obs.count("rejected_unclaimed");
            } else {
                obs.fail(
                    format!("{}|valid rejected", t.name),
                    format!("{} as {}: valid encoding {} of {} gives Err({e:?})", t.name, t.schema.describe(), hex(b), dbg(&v)),
                );
            }
        }
        (Ok(Err(_)), Err(_)) => obs.count("rejected"),
    }
}

pub fn c04(cfg: &Cfg, types: &[TypeOps]) -> Vec<Unit> {
    let types: Vec<TypeOps> =
        types.iter().filter(|t| !t.schema.has_trans_enum()).cloned().collect();
    let mut u = input_units(cfg, &types, &INPUTS, 12, c04_input);
    u.extend(huge_units(cfg, &types, |t, v, obs| {
        let b = ser(&t.schema, v);
        c04_input(t, &b, Src::Valid, obs);
        // the same with a byte too many, and with the last byte missing
        let mut c = b.clone();
        c.push(0);
        c04_input(t, &c, Src::Resized, obs);
        c04_input(t, &b[..b.len() - 1], Src::Resized, obs);
    }));
    u.extend(tall_units(cfg, &types, |t, v, case, obs| tall_inputs(t, v, case, obs, c04_input)));
    u
}

// ------------------------------------------------------------------------------------------
// C05, type part

thread_local! {
    static GUARD: RefCell<Option<Guarded>> = const { RefCell::new(None) };
}

pub fn guarded<R>(b: &[u8], at_end: bool, f: impl FnOnce(&[u8]) -> R) -> R {
    GUARD.with(|g| {
        let mut g = g.borrow_mut();
        if g.as_ref().map_or(0, |g| g.capacity()) < b.len() || g.is_none() {
            *g = Some(Guarded::new(b.len().max(1 << 16)));
        }
        f(g.as_mut().unwrap().place(b, at_end))
    })
}

pub fn c05_input(t: &TypeOps, b: &[u8], s: Src, obs: &mut Obs) {
    let at_end = obs.evals % 4 != 0;
    let r = guarded(b, at_end, |b| catch(|| (t.decode_drop)(b)));
    obs.eval();
    if !b.is_empty() && s != Src::Short {
        obs.distinct(hash_bytes(b, name_hash(&t.name)));
    }
    match r {
        Err(p) => obs.fail(
            format!("{}|panic {}", t.name, panic_signature(&p)),
            format!("{}: decoding {} panicked: {p}", t.name, hex(b)),
        ),
        Ok(ok) => {
            obs.count(if ok { "accepted" } else { "rejected" });
            obs.tag("types", &t.name);
            obs.sample(|| {
                format!("{}: {} -> {}", t.name, hex(b), if ok { "a value" } else { "an error" })
            });
            // An outright list of zero-length items: an error is the documented outcome.
            let zero_list = match &t.schema {
                Schema::List(i) | Schema::Set(i) => i.fixed() == Some(0),
                Schema::Map(k, v) => k.fixed() == Some(0) && v.fixed() == Some(0),
                _ => false,
            };
            if zero_list && !b.is_empty() {
                obs.count("zero_length_items");
                if ok {
                    obs.fail(
                        format!("{}|zero-length items accepted", t.name),
                        format!("{}: {} decodes although its items have zero length", t.name, hex(b)),
                    );
                }
            }
        }
    }
}

pub fn c05(cfg: &Cfg, types: &[TypeOps]) -> Vec<Unit> {
    let mut u = input_units(
        cfg,
        types,
        &[
            (Kind::Exhaustive2, 0),
            (Kind::Near, 1200),
            (Kind::Soup, 1500),
            (Kind::Lens, 30),
        ],
        15,
        c05_input,
    );
    u.extend(huge_units(cfg, types, |t, v, obs| {
        let b = ser(&t.schema, v);
        c05_input(t, &b, Src::Valid, obs);
        let mut c = b.clone();
        c[0] ^= 1;
        c05_input(t, &c, Src::Mutated(21), obs);
    }));
    u.extend(tall_units(cfg, types, |t, v, case, obs| tall_inputs(t, v, case, obs, c05_input)));
    u
}

// ------------------------------------------------------------------------------------------
// C06

/// The constant of a type: generous over what any sensible decoder of the type needs, and
/// independent of the input.
pub fn heap_bound(t: &TypeOps, len: usize) -> f64 {
    8.0 * (t.heap.a + 64.0) * len as f64 + 8.0 * t.heap.b + 65536.0
}

pub fn c06_input(t: &TypeOps, b: &[u8], s: Src, obs: &mut Obs) {
    let r = catch(|| (t.decode_measured)(b));
    obs.eval();
    match r {
        Err(p) => {
            // `capacity overflow` is a request too large to be made at all.
            if p.starts_with("capacity overflow") {
                obs.fail(
                    format!("{}|capacity overflow", t.name),
                    format!("{}: decoding {} ({} bytes): {p}", t.name, hex(b), b.len()),
                );
            } else {
                obs.count("panicked");
            }
        }
        Ok((ok, st)) => {
            obs.count(if ok { "accepted" } else { "rejected" });
            obs.tag("types", &t.name);
            obs.max("peak_bytes", st.peak as u64);
            obs.max("largest_request", st.largest as u64);
            obs.max("input_bytes", b.len() as u64);
            if st.count > 0 {
                obs.count("decodes_that_allocated");
                obs.distinct(hash_bytes(b, name_hash(&t.name)));
                if b.len() >= 64 {
                    obs.max("peak_per_input_byte_x100", (st.peak * 100 / b.len()) as u64);
                }
            }
            let _ = s;
            obs.sample(|| {
                format!("{}: {} input bytes, ok={ok}, peak {} bytes, largest request {}", t.name, b.len(), st.peak, st.largest)
            });
            let bound = heap_bound(t, b.len());
            if st.peak as f64 > bound || st.largest as f64 > bound {
                obs.fail(
                    format!("{}|heap", t.name),
                    format!(
                        "{}: decoding {} ({} bytes, ok={ok}) had a peak of {} live heap bytes (largest request {}), above the type's linear bound {:.0}",
                        t.name, hex(b), b.len(), st.peak, st.largest, bound
                    ),
                );
            }
        }
    }
}

/// Inputs announcing as much as they can: enormous counts, offsets and lengths over few bytes,
/// and well-formed tables of many tiny items.
fn bomb(s: &Schema, len: usize, rng: &mut vcore::rng::Rng) -> Vec<u8> {
    let word = |x: u64| (x as u32).to_le_bytes();
    let mut out = vec![];
    match s {
        Schema::List(i) | Schema::Set(i) if i.fixed().is_none() => match rng.below(5) {
            // all items empty: offsets all equal to the length
            0 => {
                let n = (len / 4).max(1);
                for _ in 0..n {
                    out.extend(word(4 * n as u64));
                }
            }
            // items share what is left evenly, recursively
            1 | 2 => {
                let k = rng.range(1, 8);
                let n = (len / (4 + 4 * k)).max(1);
                let mut cur = 4 * n as u64;
                let mut bodies = vec![];
                for _ in 0..n {
                    let b = bomb(i, 4 * k, rng);
                    out.extend(word(cur));
                    cur += b.len() as u64;
                    bodies.extend(b);
                }
                out.extend(bodies);
            }
            3 => {
                // one item that is itself a bomb
                out.extend(word(4));
                out.extend(bomb(i, len.saturating_sub(4), rng));
            }
            _ => {
                // a count far above what follows
                let first = *rng.pick(&[
                    0xffff_fffcu64, 0x8000_0000, 0x7fff_fffc, 1 << 24, 1 << 20,
                    (len as u64 / 4 * 4) + 4, len as u64 / 4 * 4, 1 << 16,
                ]);
                out.extend(word(first));
                while out.len() < len {
                    out.extend(word(first));
                }
                out.truncate(len);
            }
        },
        Schema::Map(k, v) => {
            let e = Schema::Container(vec![(**k).clone(), (**v).clone()]);
            return bomb(&Schema::List(Box::new(e)), len, rng);
        }
        Schema::Container(fs) => {
            let fixed: usize = fs.iter().map(|f| f.fixed_part_len()).sum();
            let vars = fs.iter().filter(|f| f.fixed().is_none()).count();
            if vars == 0 {
                return rng.bytes(fixed);
            }
            let share = len.saturating_sub(fixed) / vars;
            let mut cur = fixed as u64;
            let mut bodies = vec![];
            let lie = rng.chance(1, 4);
            for f in fs {
                match f.fixed() {
                    Some(n) => out.extend((0..n).map(|_| rng.u8() & 1)),
                    None => {
                        let b = bomb(f, share, rng);
                        out.extend(word(if lie && rng.chance(1, 2) { 0xffff_fff0 } else { cur }));
                        cur += b.len() as u64;
                        bodies.extend(b);
                    }
                }
            }
            out.extend(bodies);
        }
        Schema::Union(v) => {
            let i = rng.below(v.len());
            out.push(i as u8);
            if let Some(s) = &v[i] {
                out.extend(bomb(s, len.saturating_sub(1), rng));
            }
        }
        Schema::Legacy(s) => {
            out.extend(word(1));
            out.extend(bomb(s, len.saturating_sub(4), rng));
        }
        Schema::TransEnum(v) => return bomb(rng.pick(v), len, rng),
        Schema::List(i) => {
            let n = i.fixed().unwrap().max(1);
            out.extend((0..len / n * n).map(|_| 1u8));
        }
        _ => out = vec![1u8; len],
    }
    out
}

pub fn c06(cfg: &Cfg, types: &[TypeOps]) -> Vec<Unit> {
    let mut u = input_units(
        cfg,
        types,
        &[
            (Kind::Exhaustive2, 0),
            (Kind::Near, 500),
            (Kind::Soup, 400),
            (Kind::Lens, 8),
        ],
        12,
        c06_input,
    );
    for t in types {
        if t.schema.fixed().is_some() {
            continue;
        }
        let t = t.clone();
        u.push(Unit::new(
            format!("{}|bombs", t.name),
            cfg.cases(150, 8),
            move |case, rng, obs| {
                let len = match case % 10 {
                    0 => rng.range(60_000, 300_000),
                    1 | 2 => rng.range(2_000, 20_000),
                    3..=5 => rng.range(200, 2_000),
                    _ => rng.range(1, 200),
                };
                let mut b = bomb(&t.schema, len, rng);
                c06_input(&t, &b, Src::Valid, obs);
                // and spoiled near the end, so that the work done so far is thrown away
                if !b.is_empty() {
                    let i = b.len() - 1 - rng.below(b.len().min(8));
                    b[i] ^= 0xff;
                    c06_input(&t, &b, Src::Mutated(21), obs);
                    b.truncate(i);
                    c06_input(&t, &b, Src::Resized, obs);
                }
            },
        ));
    }
    u
}

// ------------------------------------------------------------------------------------------
// C07

pub fn c07_value(t: &TypeOps, v: &Value, noise: u64, obs: &mut Obs) {
    let r = catch(|| {
        let o = if noise != 0 {
            with_noise(noise, || (t.build)(v))
        } else {
            (t.build)(v)
        };
        let b = o.as_ssz_bytes();
        (o.ssz_bytes_len(), o.len_entry_points(), b.len(), hash_bytes(&b, name_hash(&t.name)))
    });
    obs.eval();
    match r {
        Err(p) => obs.fail(
            format!("{}|panic {}", t.name, panic_signature(&p)),
            format!("{}: sizing {} panicked: {p}", t.name, dbg(v)),
        ),
        Ok((n, others, real, hash)) => {
            if real > 0 {
                obs.distinct(hash);
            }
            obs.max("encoded_bytes", real as u64);
            obs.sample(|| format!("{}: {} predicted {n}, encoded {real}", t.name, dbg(v)));
            if n != real {
                obs.fail(
                    format!("{}|predicted size", t.name),
                    format!("{}: ssz_bytes_len of {} is {n} but it encodes to {real} bytes", t.name, dbg(v)),
                );
            }
            for (who, n) in others {
                if n != real {
                    obs.fail(
                        format!("{}|predicted size via {who}", t.name),
                        format!("{}: ssz_bytes_len through {who} of {} is {n} but it encodes to {real} bytes", t.name, dbg(v)),
                    );
                }
            }
            let m = (t.meta)()[0];
            if m.fixed && real != m.fixed_len {
                obs.fail(
                    format!("{}|fixed size", t.name),
                    format!("{}: advertised as {} bytes, {} encodes to {real} bytes", t.name, m.fixed_len, dbg(v)),
                );
            }
        }
    }
}

pub fn c07_meta(t: &TypeOps, obs: &mut Obs) {
    let m = (t.meta)();
    obs.eval();
    obs.count("metadata_compared");
    obs.sample(|| format!("{}: {m:?}", t.name));
    for x in &m {
        if (x.fixed, x.fixed_len) != (m[0].fixed, m[0].fixed_len) {
            obs.fail(
                format!("{}|metadata of {}", t.name, x.who),
                format!("{}: {m:?} disagree", t.name),
            );
        }
        if !x.fixed && x.fixed_len != 4 {
            obs.fail(
                format!("{}|variable-size part of {}", t.name, x.who),
                format!("{}: variable-size with a fixed-part length of {}", t.name, x.fixed_len),
            );
        }
    }
}

pub fn c07_lengths(t: &TypeOps, case: u64, rng: &mut vcore::rng::Rng, obs: &mut Obs) {
    let m = (t.meta)()[1];
    if !m.fixed {
        return;
    }
    let n = m.fixed_len;
    let v = gen_value(&t.schema, rng, style_for(case));
    let good = catch(|| (t.build)(&v).as_ssz_bytes()).unwrap_or_default();
    let max = (2 * n + 16).min(n + 700);
    // lengths near the advertised one, all short ones, and ones that agree in their low bits
    let mut lens: Vec<usize> = (0..=max.min(1500)).chain(n.saturating_sub(40)..=n + 40).collect();
    for bits in [5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17] {
        lens.extend([n + (1 << bits), n.wrapping_sub(1 << bits), 1 << bits]);
    }
    lens.retain(|l| *l <= 2 * n + 140_000);
    lens.sort();
    lens.dedup();
    if n > 1500 {
        lens.retain(|l| l % 8 == case as usize % 8 || l.abs_diff(n) < 3);
    }
    for len in lens {
        let b: Vec<u8> = match case % 4 {
            0 => vec![0; len],
            1 => vec![1; len],
            2 => good.iter().copied().chain(std::iter::repeat(0)).take(len).collect(),
            _ => good.iter().copied().cycle().take(if good.is_empty() { 0 } else { len }).collect(),
        };
        if b.len() != len {
            continue;
        }
        let r = catch(|| (t.decode_drop)(&b));
        obs.eval();
        match r {
            Ok(true) if len != n => obs.fail(
                format!("{}|wrong length accepted", t.name),
                format!("{}: {n} bytes advertised but {} ({len} bytes) is accepted", t.name, hex(&b)),
            ),
            Ok(true) => {
                obs.count("right_length_accepted");
                obs.distinct(hash_bytes(&b, name_hash(&t.name)));
            }
            Ok(false) => {
                obs.count("length_rejected");
                if len != n {
                    obs.distinct(hash_bytes(&b, name_hash(&t.name)));
                }
            }
            Err(_) => obs.count("panicked"),
        }
    }
}

/// An input that has the advertised length but for its 33rd bit.
fn c07_gigabytes(t: &TypeOps, obs: &mut Obs) {
    fn copies(s: &Schema) -> bool {
        // a bitvector's decoder copies its input before looking at it
        matches!(s, Schema::BitVector(_))
    }
    let m = (t.meta)()[1];
    if !m.fixed || copies(&t.schema) {
        return;
    }
    // one at a time: a decoder that copies its input first would need as much memory
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    for len in [m.fixed_len + (1 << 32), 1 << 32] {
        let Some(mut huge) = vcore::guard::Huge::new(len) else { return };
        if m.fixed_len > 0 {
            huge.bytes()[0] = 1;
        }
        let b: &[u8] = huge.bytes();
        obs.eval();
        obs.count("lengths_past_2^32");
        if let Ok(true) = catch(|| (t.decode_drop)(b)) {
            obs.fail(
                format!("{}|wrong length accepted", t.name),
                format!("{}: {} bytes advertised but {len} bytes are accepted", t.name, m.fixed_len),
            );
        }
    }
}

pub fn c07(cfg: &Cfg, types: &[TypeOps]) -> Vec<Unit> {
    let mut u = value_units(cfg, types, 1200, 15, |t, v, case, obs| {
        c07_value(t, v, if case % 2 == 1 { case * 31 } else { 0 }, obs)
    });
    u.extend(exhaustive_units(types, |t, v, obs| c07_value(t, v, 0, obs)));
    u.extend(huge_units(cfg, types, |t, v, obs| c07_value(t, v, 0, obs)));
    u.extend(tall_units(cfg, types, |t, v, _, obs| c07_value(t, v, 0, obs)));
    for t in types {
        let t2 = t.clone();
        u.push(Unit::new(format!("{}|metadata", t.name), 1, move |_, _, obs| {
            c07_meta(&t2, obs);
            c07_gigabytes(&t2, obs)
        }));
        let t2 = t.clone();
        u.push(Unit::new(
            format!("{}|lengths", t.name),
            cfg.cases(24, 10),
            move |case, rng, obs| c07_lengths(&t2, case, rng, obs),
        ));
    }
    u
}
