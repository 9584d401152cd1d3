//! C15: union selectors.
use super::codec::dbg;
use super::*;
use ssz::{split_union_bytes, UnionSelector};
use vcore::model::{de, ser, Schema};
use vcore::run::{catch, clip, hex, panic_signature};

/// Expected: the declaration index, then the variant's encoding.
fn encode(t: &TypeOps, sel: usize, v: &Value, obs: &mut Obs) {
    let body_schema = match &t.schema {
        Schema::Union(vs) => vs[sel].as_ref(),
        _ => unreachable!(),
    };
    let body = match v {
        Value::Union(_, Some(b)) => ser(body_schema.unwrap(), b),
        _ => vec![],
    };
    let mut want = vec![sel as u8];
    want.extend(body);
    let r = catch(|| {
        let o = (t.build)(v);
        (o.as_ssz_bytes(), o.ssz_bytes_len())
    });
    obs.eval();
    obs.count("variants_encoded");
    obs.distinct(hash_bytes(&want, name_hash(&t.name)));
    match r {
        Err(p) => obs.fail(
            format!("{}|panic {}", t.name, panic_signature(&p)),
            format!("{}: encoding {} panicked: {p}", t.name, dbg(v)),
        ),
        Ok((b, _)) => {
            obs.sample(|| format!("{} variant {sel}: {}", t.name, hex(&b)));
            if b != want {
                obs.fail(
                    format!("{}|encoding", t.name),
                    format!("{}: variant {sel} {} encodes to {} instead of {}", t.name, dbg(v), hex(&b), hex(&want)),
                );
            }
        }
    }
}

fn decode(t: &TypeOps, b: &[u8], obs: &mut Obs) {
    let want = de(&t.schema, b);
    let r = catch(|| (t.decode)(b));
    obs.eval();
    match (r, want) {
        (Err(p), _) => obs.fail(
            format!("{}|panic {}", t.name, panic_signature(&p)),
            format!("{}: decoding {} panicked: {p}", t.name, hex(b)),
        ),
        (Ok(Err(_)), Err(_)) => {
            obs.count("rejected");
            obs.distinct(hash_bytes(b, name_hash(&t.name)));
        }
        (Ok(Ok(d)), Err(why)) => obs.fail(
            format!("{}|accepted: {}", t.name, why.0),
            format!("{}: {} ({}) decodes to {}", t.name, hex(b), why.0, clip(&d.debug(), 400)),
        ),
        (Ok(Err(e)), Ok(v)) => obs.fail(
            format!("{}|valid rejected", t.name),
            format!("{}: {} of {} gives Err({e:?})", t.name, hex(b), dbg(&v)),
        ),
        (Ok(Ok(d)), Ok(v)) => {
            obs.count("accepted");
            obs.distinct(hash_bytes(b, name_hash(&t.name)));
            if d.to_value() != v {
                obs.fail(
                    format!("{}|wrong variant", t.name),
                    format!("{}: {} decodes to {} instead of {}", t.name, hex(b), clip(&d.debug(), 400), dbg(&v)),
                );
            }
        }
    }
}

pub fn c15(cfg: &Cfg, types: &[TypeOps]) -> Vec<Unit> {
    let mut out = vec![];
    for t in types {
        let n = match &t.schema {
            Schema::Union(v) => v.len(),
            _ => continue,
        };
        if t.schema.has_map() || t.schema.has_trans_enum() {
            continue;
        }
        let t2 = t.clone();
        // every variant
        out.push(Unit::new(
            format!("{}|variants", t.name),
            cfg.cases(60, 20),
            move |case, rng, obs| {
                obs.tag("unions", &t2.name);
                obs.max("variants", n as u64);
                if case == 0 {
                    obs.count("union_definitions");
                }
                let vs = match &t2.schema {
                    Schema::Union(v) => v.clone(),
                    _ => unreachable!(),
                };
                for (sel, s) in vs.iter().enumerate() {
                    let v = Value::Union(
                        sel,
                        s.as_ref().map(|s| Box::new(gen_value(s, rng, style_for(case)))),
                    );
                    encode(&t2, sel, &v, obs);
                }
            },
        ));
        // every selector byte, with bodies that are valid for some variant, empty, or neither
        let t2 = t.clone();
        out.push(Unit::new(
            format!("{}|selectors", t.name),
            cfg.cases(100, 20),
            move |case, rng, obs| {
                let vs: Vec<Schema> = match &t2.schema {
                    Schema::Union(v) => v.iter().flatten().cloned().collect(),
                    _ => unreachable!(),
                };
                decode(&t2, &[], obs);
                for sel in 0..=255u8 {
                    obs.count("selector_bytes");
                    let mut bodies: Vec<Vec<u8>> = vec![vec![]];
                    if !vs.is_empty() {
                        let s = rng.pick(&vs);
                        let v = gen_value(s, rng, style_for(case + 1));
                        bodies.push(ser(s, &v));
                    }
                    // the body the selector asks for
                    if let Schema::Union(v) = &t2.schema {
                        if let Some(Some(s)) = v.get(sel as usize) {
                            let x = gen_value(s, rng, style_for(case));
                            let b = ser(s, &x);
                            let mut longer = b.clone();
                            longer.push(0);
                            bodies.push(b);
                            bodies.push(longer);
                        }
                        // and, for a selector outside, the body its low bits would ask for
                        if let Some(Some(s)) = v.get((sel & 127) as usize) {
                            let x = gen_value(s, rng, style_for(case));
                            bodies.push(ser(s, &x));
                        }
                    }
                    let k = rng.below(6);
                    bodies.push(rng.bytes(k));
                    for body in bodies {
                        let mut b = vec![sel];
                        b.extend(body);
                        decode(&t2, &b, obs);
                    }
                }
            },
        ));
    }
    out.push(Unit::new("split_union_bytes", 256, |case, rng, obs| {
        let sel = case as u8;
        for n in [0usize, 1, 2, 3, 4, 7, 31, 100, 1000] {
            let body = rng.bytes(n);
            let mut b = vec![sel];
            b.extend_from_slice(&body);
            obs.eval();
            obs.count("split_calls");
            obs.distinct(hash_bytes(&b, 5));
            let ok = match catch(|| split_union_bytes(&b).map(|(s, r)| (u8::from(s), r.to_vec()))) {
                Err(_) => false,
                Ok(Ok((s, rest))) => {
                    s == sel && sel <= 127 && rest == body
                }
                Ok(Err(_)) => sel > 127,
            };
            if !ok {
                obs.fail("split_union_bytes", format!("split_union_bytes({}) is wrong", hex(&b)));
            }
        }
        obs.eval();
        let ok = match catch(|| UnionSelector::new(sel).map(|s| (u8::from(s), s == sel, s == sel.wrapping_add(1)))) {
            Ok(Ok((s, same, other))) => sel <= 127 && s == sel && same && !other,
            Ok(Err(_)) => sel > 127,
            Err(_) => false,
        };
        if !ok {
            obs.fail("UnionSelector::new", format!("UnionSelector::new({sel}) is wrong"));
        }
        obs.eval();
        if !matches!(catch(|| split_union_bytes(&[]).is_err()), Ok(true)) {
            obs.fail("split_union_bytes", "split_union_bytes of the empty string");
        }
    }));
    out
}
