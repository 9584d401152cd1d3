//! The `Arbitrary` generators of the bitfields.
use arbitrary::{Arbitrary, Unstructured};
use ssz::{BitList, BitVector, Decode, Encode};
use std::collections::BTreeSet;
use std::fmt::Debug;
use typenum::*;
use vcore::alloc::{measured, Counting};
use vcore::rng::{fnv, hash_bytes, Rng, FNV0};
use vcore::run::{catch, hex, main_with, panic_signature, Cfg, Obs, Unit};

#[global_allocator]
static A: Counting = Counting;

/// What a generated value turned out to be.
struct Made {
    len: usize,
    bytes: Vec<u8>,
    /// reason it is not a valid bitfield
    bad: Option<String>,
    consumed: usize,
}

#[derive(Clone, Copy)]
struct Ty {
    list: bool,
    n: usize,
    /// generate from bytes; the flag asks for `arbitrary_take_rest`
    make: fn(&[u8], bool) -> Result<Made, String>,
    hint: fn() -> (usize, Option<usize>),
}

fn judge<T: Encode + Decode + PartialEq + Debug>(x: &T, len: usize, view: &[u8], bits: Vec<bool>, ok_len: bool) -> (Vec<u8>, Option<String>) {
    let e = x.as_ssz_bytes();
    let bad = if !ok_len {
        Some(format!("length {len}"))
    } else if view.len() != if len == 0 { 1 } else { (len - 1) / 8 + 1 } {
        Some(format!("{} bytes for {len} bits", view.len()))
    } else if view.len() * 8 > len && (len..view.len() * 8).any(|i| view[i / 8] >> (i % 8) & 1 == 1) {
        Some(format!("bits at or above its length {len}: {}", hex(view)))
    } else if bits.len() != len || (0..len).any(|i| bits[i] != (view[i / 8] >> (i % 8) & 1 == 1)) {
        Some(format!("iteration disagrees with the bytes: {}", hex(view)))
    } else {
        match T::from_ssz_bytes(&e) {
            Ok(y) if y == *x => None,
            r => Some(format!("no SSZ round trip: {} gives {r:?}", hex(&e))),
        }
    };
    (e, bad)
}

macro_rules! ty {
    ($list:expr, $t:ident, $n:ty) => {
        Ty {
            list: $list,
            n: <$n>::to_usize(),
            make: |b, rest| {
                let mut u = Unstructured::new(b);
                let (r, consumed) = if rest {
                    (<$t<$n>>::arbitrary_take_rest(u), b.len())
                } else {
                    let r = <$t<$n>>::arbitrary(&mut u);
                    (r, b.len() - u.len())
                };
                let x = r.map_err(|e| format!("{e:?}"))?;
                let ok = if $list { x.len() <= <$n>::to_usize() } else { x.len() == <$n>::to_usize() };
                let (bytes, bad) = judge(&x, x.len(), x.as_slice(), x.iter().collect(), ok);
                Ok(Made { len: x.len(), bytes, bad, consumed })
            },
            hint: || <$t<$n>>::size_hint(0),
        }
    };
}
macro_rules! both {
    ($($n:ty),* $(,)?) => { vec![$( ty!(true, BitList, $n), ty!(false, BitVector, $n) ),*] };
}

fn types() -> Vec<Ty> {
    let mut v = both!(
        U1, U2, U3, U4, U5, U6, U7, U8, U9, U10, U11, U12, U13, U14, U15, U16, U17, U18, U19, U20, U21, U22,
        U23, U24, U25, U26, U27, U28, U29, U30, U31, U32, U33, U34, U35, U36, U37, U38, U39, U40, U41, U47,
        U48, U49, U55, U56, U57, U63, U64, U65, U66, U71, U72, U73, U79, U80, U81, U95, U96, U97, U100, U127,
        U128, U129, U191, U192, U193, U200, U255, U256, U257, U384, U511, U512, U513, U768, U1000, U1023,
        U1024, Sum<U1024, U1>, Sum<U1024, U7>, Sum<U1024, U8>, Diff<U2048, U1>, U2048, Sum<U2048, U1>,
        U4096, U8192, U16384, U131072
    );
    v.push(ty!(true, BitList, U1048576));
    v.push(ty!(true, BitList, U16777216));
    v.push(ty!(true, BitList, U1099511627776));
    v.push(ty!(true, BitList, U9223372036854775808));
    v.push(ty!(false, BitVector, U1048576));
    v
}

impl Ty {
    fn name(&self) -> String {
        format!("{}<{}>", if self.list { "BitList" } else { "BitVector" }, self.n)
    }
    fn bytes(&self) -> usize {
        (self.n - 1) / 8 + 1
    }
}

/// One generation; the length of the value if there was one.
fn once(t: Ty, b: &[u8], rest: bool, o: &mut Obs) -> Option<usize> {
    o.eval();
    // An allocation request above 2 GiB is refused, which ends the process.
    match catch(|| measured(|| (t.make)(b, rest)).0) {
        Err(p) => {
            o.fail(format!("{}|panics: {}", t.name(), panic_signature(&p)), format!("{}: {p}", hex(b)));
            None
        }
        Ok(Err(_)) => {
            o.count("refused");
            None
        }
        Ok(Ok(m)) => {
            o.count("generated");
            o.max("largest_length", m.len as u64);
            if let Some(w) = m.bad {
                let k: String = w.chars().take_while(|c| !c.is_ascii_digit()).collect();
                o.fail(format!("{}|invalid value: {}", t.name(), k.trim()), format!("{}: {w}", hex(b)));
            }
            o.distinct(hash_bytes(&m.bytes, fnv(t.name().as_bytes(), FNV0)));
            o.max("most_input_consumed", m.consumed as u64);
            Some(m.len)
        }
    }
}

/// Unstructured data of many shapes, some of it shaped like (size word, bytes).
fn data(t: Ty, rng: &mut Rng) -> Vec<u8> {
    let cap = if t.list { if rng.chance(1, 25) { 20_000 } else { 2_000 } } else { 140_000 };
    let need = t.bytes().min(cap);
    let len = match rng.below(6) {
        0 => rng.below(20),
        1 => need + rng.below(24),
        2 => need.saturating_sub(rng.below(4)),
        3 => rng.below(need + 24),
        4 => 8 + need,
        _ => rng.below(2 * need + 40),
    };
    let mut b = match rng.below(6) {
        0 => vec![0; len],
        1 => vec![0xff; len],
        2 => vec![1; len],
        _ => rng.bytes(len),
    };
    if len >= 8 && rng.chance(2, 3) {
        let size = match rng.below(7) {
            0 => len - 8,
            1 => rng.below(t.n.min(1 << 20) + 2),
            2 => t.n,
            3 => usize::MAX - rng.below(9),
            4 => rng.below(len),
            5 => 1usize << rng.below(64),
            _ => t.bytes(),
        };
        let at = if rng.chance(5, 6) { 0 } else { len - 8 };
        b[at..at + 8].copy_from_slice(&size.to_le_bytes());
    }
    if len > 0 && rng.chance(1, 2) {
        let k = len - 1 - rng.below(len.min(9));
        b[k] = 1 << rng.below(8);
    }
    b
}

fn units(cfg: &Cfg) -> Vec<Unit> {
    assert_eq!(cfg.prop, "C20", "harness: this binary does not decide {}", cfg.prop);
    let mut out = Vec::new();
    for t in types() {
        let k = cfg.cases(4000, 20) / (1 + t.bytes().min(if t.list { 2_000 } else { 140_000 }) as u64 / 64);
        out.push(Unit::new(format!("{}/random", t.name()), k.max(12), move |_, rng, o| {
            let b = data(t, rng);
            let l = once(t, &b, rng.chance(1, 4), o);
            o.sample(|| format!("{} from {}: {l:?}", t.name(), hex(&b)));
        }));
        let big = !t.list && t.n > 600;
        out.push(Unit::new(format!("{}/short", t.name()), if big { 2 } else { 257 }, move |c, rng, o| {
            if c == 0 {
                once(t, &[], false, o);
                once(t, &[], true, o);
                for x in 0..=255u8 {
                    once(t, &[x], false, o);
                }
                let h = catch(t.hint);
                match h {
                    Ok((lo, hi)) if hi.is_none_or(|h| h >= lo) => {}
                    r => o.fail(format!("{}|size_hint", t.name()), format!("{r:?}")),
                }
            } else {
                for x in (0..=255u8).step_by(if big { 250 } else if t.n <= 16 { 1 } else { 17 }) {
                    once(t, &[x, (c - 1) as u8], rng.chance(1, 2), o);
                }
            }
        }));
        // Reachability: search until a value appears.
        out.push(Unit::new(format!("{}/reachable", t.name()), 1, move |_, rng, o| {
            let mut found = BTreeSet::new();
            let mut tried = 0u64;
            let need = t.bytes().min(if t.list { 20_000 } else { 140_000 });
            for fill in [0u8, 1, 0xff, 0x80] {
                for len in (0..need.min(64) + 24).chain([need, need + 1, need + 8, need + 16, 2 * need + 8]) {
                    tried += 1;
                    found.extend(once(t, &vec![fill; len], tried % 2 == 0, o));
                }
            }
            for _ in 0..3000 {
                if !found.is_empty() && (t.n > 4096 || tried > 500) {
                    break;
                }
                tried += 1;
                let b = data(t, rng);
                found.extend(once(t, &b, false, o));
            }
            o.max("lengths_reached", found.len() as u64);
            if found.is_empty() {
                o.fail(format!("{}|no input generates a value", t.name()), format!("none of {tried} inputs"));
            } else {
                o.count("types_reached");
            }
        }));
    }
    out
}

fn main() {
    main_with(units)
}
