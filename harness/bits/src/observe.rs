//! Every public observation of a bitfield against a sequence of booleans.
use crate::field::*;
use std::hash::{Hash, Hasher};
use vcore::rng::Rng;
use vcore::run::{catch, clip, hex, panic_signature, Obs};

/// Records what a value feeds to a hasher; equal values must feed the same, whatever the hasher.
#[derive(Default)]
struct Fed(Vec<u8>);
impl Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(0xA5);
    }
}

pub fn fed<B: Hash>(f: &B) -> Vec<u8> {
    let mut h = Fed::default();
    f.hash(&mut h);
    h.0
}

pub fn show(bits: &[bool]) -> String {
    let t: String = bits.iter().take(160).map(|b| if *b { '1' } else { '0' }).collect();
    format!("{} bits {}{}", bits.len(), t, if bits.len() > 160 { ".." } else { "" })
}

/// `sig` of a failed observation, or None.
pub fn mismatch(t: Ty, f: &B, m: &[bool]) -> Option<(&'static str, String)> {
    let n = m.len();
    if f.length() != n {
        return Some(("len", format!("len() = {}, expected {n}", f.length())));
    }
    if f.empty() != (n == 0) {
        return Some(("is_empty", format!("is_empty() = {} for {n} bits", f.empty())));
    }
    for (i, b) in m.iter().enumerate() {
        match f.at(i) {
            Ok(x) if x == *b => {}
            r => return Some(("get", format!("get({i}) = {r:?}, expected {b}"))),
        }
    }
    for i in [n, n + 1, n + 7, n + 8, n / 8 * 8 + 8, n + 64, usize::MAX / 8, usize::MAX - 7, usize::MAX] {
        if let Ok(x) = f.at(i) {
            return Some(("get out of range", format!("get({i}) = Ok({x}) with {n} bits")));
        }
    }
    let mut it = f.walk();
    let mut k = 0;
    for b in it.by_ref() {
        if k >= n || b != m[k] {
            return Some(("iter", format!("iter() yields {b} at {k}")));
        }
        k += 1;
    }
    if k != n {
        return Some(("iter", format!("iter() yields {k} of {n} bits")));
    }
    // the other ways to move an iterator
    for i in [0, 7, 8, n / 2, n.wrapping_sub(1), n, usize::MAX] {
        if (n > 40 || m.first() == Some(&true)) && i != 8 {
            continue;
        }
        let mut it = f.walk();
        let (lo, hi) = it.size_hint();
        if lo > n || hi.is_some_and(|h| h < n) {
            return Some(("iter size", format!("iter().size_hint() = {:?} for {n} bits", (lo, hi))));
        }
        let got = it.nth(i);
        if got != m.get(i).copied() {
            return Some(("iter nth", format!("iter().nth({i}) = {got:?} of {n} bits")));
        }
        if i < n && it.next() != m.get(i + 1).copied() {
            return Some(("iter nth", format!("iter() after nth({i}) of {n} bits")));
        }
        let (lo, hi) = it.size_hint();
        let left = n.saturating_sub(i.saturating_add(2));
        if lo > left || hi.is_some_and(|h| h < left) {
            return Some(("iter size", format!("size_hint() = {:?} with {left} bits left", (lo, hi))));
        }
    }
    for skip in [0, n / 3, n] {
        if skip > 0 && (n > 200 || n % 2 == 0) {
            continue;
        }
        let rest = &m[skip..];
        let want = (
            rest.len(),
            rest.last().copied(),
            rest.to_vec(),
            rest.iter().filter(|b| **b).count(),
            rest.iter().position(|b| *b),
        );
        let got = f.consume(skip);
        if got != want {
            return Some(("iter consumers", format!("count, last, for_each, filter, position after {skip} steps = {got:?}, expected {want:?}")));
        }
    }
    let ones = m.iter().filter(|b| **b).count();
    if f.ones() != ones {
        return Some(("num_set_bits", format!("num_set_bits() = {}, expected {ones}", f.ones())));
    }
    let top = m.iter().rposition(|b| *b);
    if f.highest() != top {
        return Some(("highest_set_bit", format!("highest_set_bit() = {:?}, expected {top:?}", f.highest())));
    }
    if f.zero() != (ones == 0) {
        return Some(("is_zero", format!("is_zero() = {} with {ones} bits set", f.zero())));
    }
    let view = model_view(m);
    if f.view() != &view[..] {
        return Some(("as_slice", format!("as_slice() = {}, expected {}", hex(f.view()), hex(&view))));
    }
    if f.clone().raw()[..] != view[..] {
        return Some(("into_raw_bytes", format!("into_raw_bytes() = {}, expected {}", hex(&f.clone().raw()), hex(&view))));
    }
    let enc = t.model_encode(m);
    let got = f.as_ssz_bytes();
    if got != enc {
        return Some(("encoding", format!("as_ssz_bytes() = {}, expected {}", hex(&got), hex(&enc))));
    }
    None
}

/// Observe `f`; equality and hash against a twin built along another route.
pub fn observe(t: Ty, f: &B, m: &[bool], twin: Option<&B>, o: &mut Obs, what: &str) -> bool {
    o.eval();
    let r = catch(|| {
        if let Some(x) = mismatch(t, f, m) {
            return Some(x);
        }
        if let Some(t) = twin {
            if !(f == t && t == f) || f != t {
                return Some(("equality", "differs from an equal sequence built another way".into()));
            }
            if fed(f) != fed(t) {
                return Some(("hash", "hashes differently from an equal sequence".into()));
            }
        }
        None
    });
    match r {
        Ok(None) => true,
        Ok(Some((k, d))) => {
            o.fail(
                format!("{}|{k}", t.name()),
                format!("after {}: {d}; the sequence is {}", clip(what, 700), show(m)),
            );
            false
        }
        Err(p) => {
            o.fail(
                format!("{}|observation panics: {}", t.name(), panic_signature(&p)),
                format!("after {}: {p}; the sequence is {}", clip(what, 700), show(m)),
            );
            false
        }
    }
}

/// Build a value from a sequence of bits. Routes: 0 constructor and set, 1 SSZ, 2 byte API, 3 serde.
pub fn build(t: Ty, m: &[bool], route: u64) -> Result<B, String> {
    match route % 4 {
        0 => {
            let mut f = (t.make)(m.len())?;
            for (i, b) in m.iter().enumerate() {
                if *b {
                    f.put(i, true)?;
                }
            }
            Ok(f)
        }
        1 => t.from_ssz(&t.model_encode(m)).map_err(|e| format!("{e:?}")),
        2 => t.from_byte_api(&t.model_encode(m)),
        _ => (t.json)(&json(&t.model_encode(m))),
    }
}

pub fn json(b: &[u8]) -> String {
    let mut s = String::from("\"0x");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s.push('"');
    s
}

pub const ROUTES: [&str; 4] = ["constructor and set", "from_ssz_bytes", "byte API", "serde"];

/// Build along a route, or report that it is impossible.
pub fn built(t: Ty, m: &[bool], route: u64, o: &mut Obs) -> Option<B> {
    match catch(|| build(t, m, route)) {
        Ok(Ok(f)) => Some(f),
        Ok(Err(e)) => {
            o.fail(
                format!("{}|cannot be built by {}", t.name(), ROUTES[(route % 4) as usize]),
                format!("{}: {e}", show(m)),
            );
            None
        }
        Err(p) => {
            o.fail(
                format!("{}|building panics: {}", t.name(), panic_signature(&p)),
                format!("{} by {}: {p}", show(m), ROUTES[(route % 4) as usize]),
            );
            None
        }
    }
}

/// A length the type allows, near boundaries, at most `cap` bits where there is a choice.
pub fn some_len(t: Ty, rng: &mut Rng, cap: usize) -> usize {
    const EDGES: [usize; 26] = [
        0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1015, 1023,
        1024, 1025, 2048,
    ];
    match t.bound {
        Some(n) if t.kind == Kind::Vector => n,
        Some(n) => {
            let top = n.min(cap);
            match rng.below(4) {
                0 => top - rng.below(top.min(9) + 1),
                1 => (*rng.pick(&EDGES)).min(top),
                2 => rng.below(top.min(40) + 1),
                _ => rng.below(top + 1),
            }
        }
        None => 8 * match rng.below(3) {
            0 => rng.range(1, 4),
            1 => *rng.pick(&[1usize, 2, 15, 16, 17, 127, 128, 129, 130]),
            _ => rng.range(1, cap / 8),
        },
    }
}

/// A length beyond the reach of sixteen-bit counters, as far as the type allows.
pub fn tall_len(t: Ty, rng: &mut Rng) -> usize {
    const AT: [usize; 12] =
        [65536, 65535, 65537, 65544, 65528, 65543, 65600, 70000, 98304, 131071, 131072, 131080];
    match t.bound {
        Some(n) if t.kind == Kind::Vector => n,
        Some(n) => match rng.below(4) {
            0 => n.min(131_100) - rng.below(10),
            _ => (*rng.pick(&AT)).min(n),
        },
        None => *rng.pick(&AT) / 8 * 8,
    }
}

pub fn some_bits(n: usize, rng: &mut Rng) -> Vec<bool> {
    let style = rng.below(9);
    let mut v: Vec<bool> = match style {
        0 => vec![false; n],
        1 => vec![true; n],
        2 | 3 => (0..n).map(|_| rng.chance(1, 2)).collect(),
        4 => (0..n).map(|_| rng.chance(1, 12)).collect(),
        5 => (0..n).map(|_| rng.chance(11, 12)).collect(),
        6 => (0..n).map(|i| i % 2 == 0).collect(),
        _ => vec![false; n],
    };
    if n > 0 {
        match style {
            7 => v[rng.below(n)] = true,
            8 => {
                v[n - 1] = true;
                if rng.chance(1, 2) {
                    v[0] = true;
                }
            }
            _ => {}
        }
    }
    v
}

pub fn hash_bits(t: Ty, m: &[bool]) -> u64 {
    vcore::rng::hash_bytes(&t.model_encode(m), vcore::rng::fnv(t.name().as_bytes(), vcore::rng::FNV0))
}
