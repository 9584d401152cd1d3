//! C17: the legacy four-byte option codec.
use super::codec::{c01_value, c02_input, c03_value, c04_input, c07_meta, c07_value, dbg};
use super::*;
use crate::inputs::{each_input_of, Kind};
use crate::legacy::{all, LegacyOps};
use vcore::model::{de, ser, Schema};
use vcore::run::{catch, hex, panic_signature};

fn value(l: &LegacyOps, v: &Value, pre: &[u8], obs: &mut Obs) {
    let s = Schema::Legacy(Box::new(l.inner.clone()));
    // The selector and the standalone encoding of the payload.
    let want = ser(&s, v);
    let r = catch(|| {
        let mut b = pre.to_vec();
        (l.append)(v, &mut b);
        ((l.enc)(v), b, (l.len)(v), (l.round)(v))
    });
    obs.eval();
    obs.distinct(hash_bytes(&want, name_hash(l.name)));
    let sig = |k: &str| format!("legacy {}|{k}", l.name);
    match r {
        Err(p) => obs.fail(
            sig(&format!("panic {}", panic_signature(&p))),
            format!("legacy Option<{}>: {} panicked: {p}", l.name, dbg(v)),
        ),
        Ok((e, a, n, round)) => {
            obs.sample(|| format!("legacy Option<{}>: {} -> {} (predicted {n})", l.name, dbg(v), hex(&e)));
            if e != want {
                obs.fail(sig("encoding"), format!("legacy Option<{}>: {} encodes to {} instead of {}", l.name, dbg(v), hex(&e), hex(&want)));
            }
            if n != e.len() {
                obs.fail(sig("size"), format!("legacy Option<{}>: {} has predicted size {n}, real size {}", l.name, dbg(v), e.len()));
            }
            if a[..pre.len().min(a.len())] != *pre || a[pre.len().min(a.len())..] != e[..] {
                obs.fail(sig("append"), format!("legacy Option<{}>: appending {} to {} gives {}", l.name, dbg(v), hex(pre), hex(&a)));
            }
            if !round {
                obs.fail(sig("round trip"), format!("legacy Option<{}>: {} does not round-trip", l.name, dbg(v)));
            }
        }
    }
}

fn input(l: &LegacyOps, b: &[u8], obs: &mut Obs) {
    let s = Schema::Legacy(Box::new(l.inner.clone()));
    let want = de(&s, b);
    let r = catch(|| (l.dec)(b).map(|v| ((l.enc)(&v), v)));
    obs.eval();
    let sig = |k: &str| format!("legacy {}|{k}", l.name);
    match (r, want) {
        (Err(p), _) => obs.fail(
            sig(&format!("panic {}", panic_signature(&p))),
            format!("legacy Option<{}>: decoding {} panicked: {p}", l.name, hex(b)),
        ),
        (Ok(Err(_)), Err(_)) => obs.count("rejected"),
        (Ok(Ok((e, v))), w) => {
            obs.count("accepted");
            obs.distinct(hash_bytes(b, name_hash(l.name)));
            obs.sample(|| format!("legacy Option<{}>: {} -> {}", l.name, hex(b), dbg(&v)));
            // maps inside are lenient about order: only the model's value is compared
            if !l.inner.has_map() && e != b {
                obs.fail(sig("accepts another string"), format!("legacy Option<{}>: accepts {} as {} whose encoding is {}", l.name, hex(b), dbg(&v), hex(&e)));
            } else if w.as_ref() != Ok(&v) {
                obs.fail(sig("accepts invalid"), format!("legacy Option<{}>: {} decodes to {}, specification {w:?}", l.name, hex(b), dbg(&v)));
            }
        }
        (Ok(Err(e)), Ok(v)) => obs.fail(
            sig("rejects valid"),
            format!("legacy Option<{}>: {} of {} gives Err({e:?})", l.name, hex(b), dbg(&v)),
        ),
    }
}

fn has_legacy(s: &Schema) -> bool {
    match s {
        Schema::Legacy(_) => true,
        Schema::List(i) | Schema::Set(i) => has_legacy(i),
        Schema::Map(k, v) => has_legacy(k) || has_legacy(v),
        Schema::Container(f) | Schema::TransEnum(f) => f.iter().any(has_legacy),
        Schema::Union(v) => v.iter().flatten().any(has_legacy),
        _ => false,
    }
}

pub fn c17(cfg: &Cfg, types: &[TypeOps]) -> Vec<Unit> {
    let mut out = vec![];
    let mods = all();
    for l in &mods {
        let s = Schema::Legacy(Box::new(l.inner.clone()));
        let (l2, s2) = (l.clone(), s.clone());
        out.push(Unit::new(format!("legacy {}|values", l.name), cfg.cases(6000, 15), move |case, rng, obs| {
            let v = gen_value(&s2, rng, style_for(case));
            let n = rng.below(9);
            let pre = rng.bytes(n);
            obs.tag("payload_types", l2.name);
            value(&l2, &v, &pre, obs)
        }));
        for (kind, n) in [(Kind::Exhaustive2, 0), (Kind::Near, 5000), (Kind::Soup, 3000), (Kind::Lens, 100)] {
            let (l2, s2) = (l.clone(), s.clone());
            let cases = if kind == Kind::Exhaustive2 { crate::inputs::exhaustive2_cases(&s) } else { cfg.cases(n, 15) };
            out.push(Unit::new(format!("legacy {}|{}", l.name, kind.name()), cases, move |case, rng, obs| {
                each_input_of(&s2, kind, case, rng, &mut |b, src| {
                    obs.count(src.label());
                    input(&l2, b, obs)
                });
            }));
        }
        // every selector of which at most two bytes are non-zero, with and without a payload
        let l2 = l.clone();
        let payload = {
            let mut r = vcore::rng::Rng::new(3);
            ser(&l.inner, &gen_value(&l.inner, &mut r, vcore::gen::Style::One))
        };
        out.push(Unit::new(format!("legacy {}|selectors", l.name), 6 * 256, move |case, _, obs| {
            const PAIRS: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
            let (i, j) = PAIRS[case as usize / 256];
            let x = (case % 256) as u8;
            for y in 0..=255u8 {
                let mut b = vec![0u8; 4];
                b[i] = x;
                b[j] = y;
                obs.count("selectors");
                input(&l2, &b, obs);
                b.extend_from_slice(&payload);
                input(&l2, &b, obs);
                b.push(0);
                input(&l2, &b, obs);
            }
        }));
        let l2 = l.clone();
        out.push(Unit::new(format!("legacy {}|metadata", l.name), 1, move |_, _, obs| {
            obs.eval();
            for (fixed, len) in (l2.meta)() {
                if fixed || len != 4 {
                    obs.fail(
                        format!("legacy {}|metadata", l2.name),
                        format!("legacy Option<{}>: reports fixed={fixed}, fixed part {len}", l2.name),
                    );
                }
            }
        }));
    }
    if cfg.thorough() {
        // every 32-bit selector
        let l = mods.iter().find(|l| l.name == "u8").unwrap().clone();
        out.push(Unit::new("legacy u8|every selector", 1 << 16, move |case, _, obs| {
            for lo in 0..=0xffffu32 {
                let sel = (case as u32) << 16 | lo;
                let mut b = sel.to_le_bytes().to_vec();
                b.push(7);
                let r = catch(|| (l.dec)(&b).is_ok());
                if r != Ok(sel == 1) {
                    obs.fail("legacy u8|selector", format!("selector {sel}: {r:?}"));
                }
            }
            obs.eval();
            obs.add("selectors", 65536);
        }));
    }
    // as a field codec inside derived containers
    let types: Vec<TypeOps> = types
        .iter()
        .filter(|t| has_legacy(&t.schema) && !t.schema.has_trans_enum())
        .cloned()
        .collect();
    out.extend(value_units(cfg, &types, 2500, 12, |t, v, _, obs| {
        obs.count("derived_container_values");
        obs.tag("derived_types", &t.name);
        c01_value(t, v, obs);
        c03_value(t, v, obs);
        c07_value(t, v, 0, obs);
    }));
    for t in &types {
        let t2 = t.clone();
        out.push(Unit::new(format!("{}|metadata", t.name), 1, move |_, _, obs| c07_meta(&t2, obs)));
    }
    out.extend(input_units(
        cfg,
        &types,
        &[(Kind::Exhaustive2, 0), (Kind::Near, 2500), (Kind::Soup, 1500), (Kind::Lens, 60)],
        12,
        |t, b, s, obs| {
            obs.count("derived_container_inputs");
            c04_input(t, b, s, obs);
            if !t.schema.has_map() {
                c02_input(t, b, s, obs);
            }
        },
    ));
    out
}
