//! The byte-level functions against the codec and against the validity rules.
use crate::field::*;
use crate::observe::*;
use vcore::rng::hash_bytes;
use vcore::run::{catch, hex, panic_signature, Cfg, Obs, Unit};

/// One byte string through both ways in and back out.
fn string(t: Ty, b: &[u8], o: &mut Obs) {
    o.eval();
    let r = catch(|| {
        let want = t.model_decode(b);
        let api = t.from_byte_api(b);
        let codec = t.from_ssz(b);
        let name = t.name();
        let d = |x: &str| format!("{}: {x}", hex(b));
        for (how, ok) in [("byte API", api.is_ok()), ("codec", codec.is_ok())] {
            if ok != want.is_some() {
                return Some((
                    format!("{name}|{how} {}", if ok { "accepts an invalid string" } else { "rejects a valid string" }),
                    d(&format!("byte API {api:?}, codec {codec:?}")),
                ));
            }
        }
        let (Some(m), Ok(x), Ok(y)) = (want, api, codec) else { return None };
        if x != y || x.view() != y.view() || x.length() != y.length() {
            return Some((format!("{name}|byte API and codec give different values"), d(&format!("{x:?} {y:?}"))));
        }
        if x.length() != m.len() || x.view() != &model_view(&m)[..] {
            return Some((format!("{name}|decoded value"), d(&format!("{x:?}, expected {}", show(&m)))));
        }
        let enc = x.as_ssz_bytes();
        let by = x.clone().into_byte_api();
        if by[..] != enc[..] {
            return Some((format!("{name}|into_bytes is not the encoding"), d(&format!("{} and {}", hex(&by), hex(&enc)))));
        }
        if enc != b {
            return Some((format!("{name}|the encoding is not the accepted string"), d(&hex(&enc))));
        }
        Some(("".into(), "".into()))
    });
    match r {
        Ok(None) => o.count("rejected"),
        Ok(Some((s, _))) if s.is_empty() => o.count("accepted"),
        Ok(Some((s, d))) => o.fail(s, d),
        Err(p) => o.fail(format!("{}|panics: {}", t.name(), panic_signature(&p)), format!("{}: {p}", hex(b))),
    }
}

/// One value out both ways and back in.
fn value(t: Ty, m: &[bool], o: &mut Obs) {
    let Ok(Ok(f)) = catch(|| build(t, m, 0)) else {
        o.count("values_unavailable");
        return;
    };
    o.eval();
    let want = t.model_encode(m);
    let r = catch(|| {
        let enc = f.as_ssz_bytes();
        let by = f.clone().into_byte_api();
        if enc != want || by[..] != want[..] {
            return Some(("encoding of a value", format!("codec {}, byte API {}, expected {}", hex(&enc), hex(&by), hex(&want))));
        }
        if f.clone().raw()[..] != model_view(m)[..] {
            return Some(("raw bytes of a value", hex(&f.clone().raw())));
        }
        if f.ssz_bytes_len() != want.len() {
            return Some(("encoded length of a value", format!("{} for {}", f.ssz_bytes_len(), want.len())));
        }
        match (t.from_byte_api(&by), t.from_ssz(&enc)) {
            (Ok(x), Ok(y)) if x == f && y == f => None,
            r => Some(("value does not come back", format!("{r:?}"))),
        }
    });
    match r {
        Ok(None) => {}
        Ok(Some((s, d))) => o.fail(format!("{}|{s}", t.name()), format!("{}: {d}", show(m))),
        Err(p) => o.fail(format!("{}|panics on a value: {}", t.name(), panic_signature(&p)), format!("{}: {p}", show(m))),
    }
    o.count("values");
    o.distinct(hash_bits(t, m));
}

pub fn tall(t: Ty, cfg: &Cfg, out: &mut Vec<Unit>) {
    out.push(Unit::new(format!("{}/tall", t.name()), cfg.cases(40, 10), move |c, rng, o| {
        let m = some_bits(tall_len(t, rng), rng);
        value(t, &m, o);
        let mut b = t.model_encode(&m);
        string(t, &b, o);
        let last = b.len() - 1;
        match c % 5 {
            0 => b.push(0),
            1 => b[last] = 0,
            2 => b[last] = rng.u8(),
            3 => b.push(1 << rng.below(8)),
            _ => {
                b.pop();
            }
        }
        string(t, &b, o);
        o.count("tall_fields");
    }));
}

pub fn units(t: Ty, cfg: &Cfg, out: &mut Vec<Unit>) {
    let name = t.name();
    let small = t.bound.is_none_or(|n| n <= 40);
    let n = t.bound;
    // All strings of up to two bytes; rows of 256.
    out.push(Unit::new(format!("{name}/short strings"), 258, move |c, _, o| match c {
        0 => string(t, &[], o),
        1 => (0..=255u8).for_each(|x| string(t, &[x], o)),
        c => {
            // a codec of long strings rejects all of these alike
            let step = if small || n.is_some_and(|n| n > 1 << 20) { 1 } else { 5 };
            for x in (0..=255u8).step_by(step) {
                string(t, &[x, (c - 2) as u8], o);
                o.distinct(hash_bytes(&[x, (c - 2) as u8], hash_bits(t, &[])));
            }
        }
    }));
    // Three bytes: around the capacity classes that they can hold.
    if n.is_none_or(|n| (14..=26).contains(&n) || n == 33) {
        let full = cfg.thorough();
        out.push(Unit::new(format!("{name}/three bytes"), if full { 65536 } else { 2048 }, move |c, rng, o| {
            if full {
                for x in 0..=255u8 {
                    string(t, &[x, c as u8, (c >> 8) as u8], o);
                }
            } else {
                for hi in 0..=255u8 {
                    string(t, &[rng.u8(), *rng.pick(&[0, 1, 0x80, 0xff, c as u8]), hi], o);
                }
            }
        }));
    }
    // Valid encodings, and strings one change away from valid.
    let k = cfg.cases(if small { 3000 } else { 1200 }, 12);
    out.push(Unit::new(format!("{name}/near valid"), k, move |c, rng, o| {
        let cap = if c % 40 == 0 { 10_000 } else { 300 };
        let len = match t.kind {
            // also encodings of more bits than allowed
            Kind::List => {
                let n = n.unwrap();
                if rng.chance(1, 2) && n < 20_000 { n - rng.below(n.min(9) + 1) + rng.below(18) } else { some_len(t, rng, cap) }
            }
            _ => some_len(t, rng, cap),
        };
        let m = some_bits(len, rng);
        if t.allowed(len) {
            value(t, &m, o);
        }
        let b = t.model_encode(&m);
        string(t, &b, o);
        o.sample(|| format!("{}: {}", t.name(), hex(&b)));
        let last = b.len() - 1;
        for _ in 0..6 {
            let mut x = b.clone();
            match rng.below(9) {
                0 => x.push(0),
                1 => x.push(1 << rng.below(8)),
                2 => {
                    x.pop();
                }
                3 => x[last] = 0,
                4 => x[last] = rng.u8(),
                5 => x[last] ^= 1 << rng.below(8),
                6 => {
                    let i = rng.below(x.len());
                    x[i] ^= 1 << rng.below(8);
                }
                7 => {
                    x.insert(0, rng.u8());
                }
                _ => {
                    x.extend([0; 2]);
                    x[last + rng.below(3)] |= 1 << rng.below(8);
                }
            }
            string(t, &x, o);
            o.count("mutants");
            o.distinct(hash_bytes(&x, hash_bits(t, &[])));
        }
    }));
    // Every padding and delimiter bit on its own.
    if let Some(n) = n.filter(|n| *n <= 10_000) {
        let bytes = model_view(&vec![false; n]).len() + 2;
        out.push(Unit::new(format!("{name}/single bits"), bytes as u64, move |c, _, o| {
            for len in 1..=bytes {
                if len < bytes.saturating_sub(4) && len != c as usize + 1 {
                    continue;
                }
                for bit in 0..8 {
                    for fill in [0u8, 0xff] {
                        let mut b = vec![fill; len];
                        if let Some(x) = b.get_mut(c as usize) {
                            *x ^= 1 << bit;
                            string(t, &b, o);
                        }
                    }
                }
            }
        }));
    }
}
