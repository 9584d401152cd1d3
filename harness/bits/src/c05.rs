//! The byte constructors and decoders of bitfields never panic.
use crate::field::*;
use crate::observe::*;
use ssz::BitVectorDynamic;
use vcore::guard::Guarded;
use vcore::rng::hash_bytes;
use vcore::run::{catch, hex, panic_signature, Cfg, Obs, Unit};

fn offer(t: Ty, b: &[u8], o: &mut Obs) {
    for (how, r) in [
        ("from_bytes", catch(|| t.from_byte_api(b).is_ok())),
        ("from_ssz_bytes", catch(|| t.from_ssz(b).is_ok())),
    ] {
        o.eval();
        match r {
            Ok(true) => o.count("accepted"),
            Ok(false) => o.count("rejected"),
            Err(p) => o.fail(format!("{}|{how} panics: {}", t.name(), panic_signature(&p)), format!("{}: {p}", hex(b))),
        }
    }
}

pub fn tall(t: Ty, cfg: &Cfg, out: &mut Vec<Unit>) {
    out.push(Unit::new(format!("{}/tall", t.name()), cfg.cases(40, 20), move |c, rng, o| {
        let mut b = t.model_encode(&some_bits(tall_len(t, rng), rng));
        match c % 6 {
            0 => {}
            1 => b.push(rng.u8()),
            2 => {
                b.pop();
            }
            3 => *b.last_mut().unwrap() = 0,
            4 => *b.last_mut().unwrap() = rng.u8(),
            _ => {
                let n = rng.below(b.len());
                b[n..].fill(0);
            }
        }
        o.count("tall_strings");
        let mut g = Guarded::new(b.len());
        offer(t, g.place(&b, true), o);
        o.distinct(hash_bytes(&b, hash_bits(t, &[])));
    }));
}

pub fn units(t: Ty, cfg: &Cfg, out: &mut Vec<Unit>) {
    let name = t.name();
    out.push(Unit::new(format!("{name}/short strings"), 257, move |c, _, o| {
        if c == 0 {
            offer(t, &[], o);
            (0..=255u8).for_each(|x| offer(t, &[x], o));
            return;
        }
        for x in 0..=255u8 {
            offer(t, &[x, (c - 1) as u8], o);
        }
        o.distinct(hash_bytes(&[c as u8], hash_bits(t, &[])));
    }));
    out.push(Unit::new(format!("{name}/any strings"), cfg.cases(1_500, 20), move |c, rng, o| {
        let top = t.bound.unwrap_or(200).min(9000) / 8 + 4;
        let len = if c % 2 == 0 { rng.below(top.max(12)) } else { (top + rng.below(4)).saturating_sub(3) };
        let mut b = match rng.below(4) {
            0 => vec![0; len],
            1 => vec![0xff; len],
            _ => rng.bytes(len),
        };
        if let Some(l) = b.last_mut() {
            match rng.below(4) {
                0 => *l = 0,
                1 => *l = 1 << rng.below(8),
                2 => *l = 0xff >> rng.below(8),
                _ => {}
            }
        }
        let mut g = Guarded::new(b.len());
        offer(t, g.place(&b, true), o);
        o.distinct(hash_bytes(&b, hash_bits(t, &[])));
        o.sample(|| format!("{}: {}", t.name(), hex(&b)));
        if t.kind == Kind::Dynamic {
            for n in [0, 1, 8 * len, (8 * len).wrapping_sub(1), 8 * len + 1, 8 * len + 8, usize::MAX, usize::MAX - rng.below(9), 1 << 63, rng.u64() as usize] {
                o.eval();
                if let Err(p) = catch(|| BitVectorDynamic::from_bytes_with_len(sv(&b), n).is_ok()) {
                    o.fail(format!("BitVectorDynamic|from_bytes_with_len panics: {}", panic_signature(&p)), format!("{} as {n} bits: {p}", hex(&b)));
                }
            }
        }
    }));
}
