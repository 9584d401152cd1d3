//! C19: ordered maps and sets.
use super::codec::dbg;
use super::*;
use vcore::model::{de, ser, Schema};
use vcore::mutate::mutate;
use vcore::rng::Rng;
use vcore::run::{catch, clip, hex, panic_signature};

fn is_collection(s: &Schema) -> bool {
    matches!(s, Schema::Map(..) | Schema::Set(_))
}

/// The schema of the entry list.
fn entries_schema(s: &Schema) -> Schema {
    match s {
        Schema::Map(k, v) => Schema::List(Box::new(Schema::Container(vec![
            (**k).clone(),
            (**v).clone(),
        ]))),
        Schema::Set(k) => Schema::List(k.clone()),
        _ => unreachable!(),
    }
}

fn encode_side(t: &TypeOps, v: &Value, obs: &mut Obs) {
    let want = ser(&entries_schema(&t.schema), v);
    let r = catch(|| {
        let o = (t.build)(v);
        let b = o.as_ssz_bytes();
        let d = (t.decode)(&b);
        (o, b, d)
    });
    obs.eval();
    obs.distinct(hash_bytes(&want, name_hash(&t.name)));
    match r {
        Err(p) => obs.fail(
            format!("{}|panic {}", t.name, panic_signature(&p)),
            format!("{}: {} panicked: {p}", t.name, dbg(v)),
        ),
        Ok((o, b, d)) => {
            obs.sample(|| format!("{}: {} -> {}", t.name, dbg(v), hex(&b)));
            if b != want {
                obs.fail(
                    format!("{}|encoding", t.name),
                    format!("{}: {} encodes to {} instead of the sorted entry list {}", t.name, dbg(v), hex(&b), hex(&want)),
                );
            }
            match d {
                Err(e) => obs.fail(
                    format!("{}|own encoding rejected", t.name),
                    format!("{}: {} encodes to {} which gives Err({e:?})", t.name, dbg(v), hex(&b)),
                ),
                Ok(d) => {
                    if !o.same(&*d) || d.to_value() != *v {
                        obs.fail(
                            format!("{}|round trip", t.name),
                            format!("{}: {} comes back as {}", t.name, dbg(v), clip(&d.debug(), 600)),
                        );
                    }
                }
            }
        }
    }
}

fn decode_side(t: &TypeOps, b: &[u8], obs: &mut Obs) {
    let want = de(&t.schema, b);
    let r = catch(|| {
        (t.decode)(b).map(|d| {
            let e = d.as_ssz_bytes();
            let again = (t.decode)(&e).map(|d2| (d2.same(&*d), d2.as_ssz_bytes()));
            (d, e, again)
        })
    });
    obs.eval();
    match (r, want) {
        (Err(p), _) => obs.fail(
            format!("{}|panic {}", t.name, panic_signature(&p)),
            format!("{}: decoding {} panicked: {p}", t.name, hex(b)),
        ),
        (Ok(Err(_)), Err(_)) => {
            obs.count("malformed_rejected");
            obs.distinct(hash_bytes(b, name_hash(&t.name)));
        }
        (Ok(Err(e)), Ok(v)) => obs.fail(
            format!("{}|well-formed rejected", t.name),
            format!("{}: the entry list {} of {} gives Err({e:?})", t.name, hex(b), dbg(&v)),
        ),
        (Ok(Ok((d, _, _))), Err(why)) => obs.fail(
            format!("{}|malformed accepted: {}", t.name, why.0),
            format!("{}: {} ({}) decodes to {}", t.name, hex(b), why.0, clip(&d.debug(), 600)),
        ),
        (Ok(Ok((d, e, again))), Ok(v)) => {
            obs.count("well_formed_accepted");
            obs.distinct(hash_bytes(b, name_hash(&t.name)));
            obs.sample(|| format!("{}: entry list {} -> {}", t.name, hex(b), dbg(&v)));
            if e != b {
                obs.count("reordered_or_deduplicated");
            }
            if d.to_value() != v || !d.same(&*(t.build)(&v)) {
                obs.fail(
                    format!("{}|collection", t.name),
                    format!("{}: {} decodes to {} instead of {}", t.name, hex(b), clip(&d.debug(), 600), dbg(&v)),
                );
            }
            match again {
                Err(err) => obs.fail(
                    format!("{}|fixed point", t.name),
                    format!("{}: {} re-encodes to {} which gives Err({err:?})", t.name, hex(b), hex(&e)),
                ),
                Ok((same, e2)) => {
                    if !same || e2 != e {
                        obs.fail(
                            format!("{}|fixed point", t.name),
                            format!("{}: {} re-encodes to {} then to {}", t.name, hex(b), hex(&e), hex(&e2)),
                        );
                    }
                }
            }
        }
    }
}

/// Entry lists that are unsorted and have duplicate keys.
fn messy(t: &TypeOps, case: u64, rng: &mut Rng) -> (Value, Schema) {
    let ls = entries_schema(&t.schema);
    let item = match &ls {
        Schema::List(i) => (**i).clone(),
        _ => unreachable!(),
    };
    let mut items = match gen_value(&ls, rng, style_for(case)) {
        Value::Seq(s) => s,
        // lists of bytes have a compact value form only through ByteList
        _ => unreachable!(),
    };
    // duplicate some keys, with other values
    for _ in 0..rng.below(4) {
        if items.is_empty() {
            break;
        }
        let src = items[rng.below(items.len())].clone();
        let e = match (&item, src) {
            (Schema::Container(kv), Value::Seq(s)) if matches!(t.schema, Schema::Map(..)) => {
                let nv = gen_value(&kv[1], rng, vcore::gen::Style::One);
                Value::Seq(vec![s[0].clone(), nv])
            }
            (_, s) => s,
        };
        let at = rng.below(items.len() + 1);
        items.insert(at, e);
    }
    match rng.below(4) {
        0 => items.sort(),
        1 => {
            items.sort();
            items.reverse()
        }
        2 => {
            for i in (1..items.len()).rev() {
                items.swap(i, rng.below(i + 1));
            }
        }
        _ => (),
    }
    (Value::Seq(items), ls)
}

pub fn c19(cfg: &Cfg, types: &[TypeOps]) -> Vec<Unit> {
    let types: Vec<TypeOps> =
        types.iter().filter(|t| is_collection(&t.schema)).cloned().collect();
    let mut out = vec![];
    for t in &types {
        let t2 = t.clone();
        let zero = t.schema.has_zero_list();
        out.push(Unit::new(format!("{}|encode", t.name), cfg.cases(4000, 12), move |case, rng, obs| {
            let v = gen_value(&t2.schema, rng, style_for(case));
            let v = if zero { Value::Seq(vec![]) } else { v };
            obs.tag("types", &t2.name);
            encode_side(&t2, &v, obs)
        }));
        let t2 = t.clone();
        if zero {
            continue;
        }
        out.push(Unit::new(format!("{}|entry lists", t.name), cfg.cases(5000, 12), move |case, rng, obs| {
            let (v, ls) = messy(&t2, case, rng);
            let (b, marks) = vcore::model::ser_marks(&ls, &v);
            decode_side(&t2, &b, obs);
            if b.len() < 20_000 {
                for _ in 0..3 {
                    let mut m = b.clone();
                    mutate(&mut m, &marks, rng);
                    decode_side(&t2, &m, obs);
                }
            }
        }));
    }
    out.extend(super::codec::tall_units(cfg, &types, |t, v, case, obs| {
        encode_side(t, v, obs);
        super::codec::tall_inputs(t, v, case, obs, |t, b, _, obs| decode_side(t, b, obs));
        // the same entries in descending order, the first of them twice
        let items = match v {
            Value::Seq(s) if !s.is_empty() => s,
            _ => return,
        };
        let mut items: Vec<Value> = items.iter().rev().cloned().collect();
        items.push(items[0].clone());
        decode_side(t, &ser(&entries_schema(&t.schema), &Value::Seq(items)), obs);
    }));
    out.extend(input_units(
        cfg,
        &types,
        &[
            (crate::inputs::Kind::Exhaustive2, 0),
            (crate::inputs::Kind::Soup, 3000),
            (crate::inputs::Kind::Lens, 40),
        ],
        12,
        |t, b, _, obs| decode_side(t, b, obs),
    ));
    out
}
