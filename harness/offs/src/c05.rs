//! The byte-parsing helpers and the builder never panic, whatever they are given.
use crate::probe::*;
use smallvec::SmallVec;
use ssz::{
    decode_list_of_variable_length_items, read_offset, split_union_bytes, BitList,
    DecodeError, SszDecoderBuilder, TryFromIter, UnionSelector,
};
use std::collections::{BTreeMap, BTreeSet};
use typenum::U9;
use vcore::guard::{Guarded, Huge};
use vcore::mutate::offset_soup;
use vcore::rng::{fnv, hash_bytes, Rng};
use vcore::run::{catch, clip, hex, panic_signature, Cfg, Obs, Unit};

fn quiet<R>(what: &str, ctx: &dyn Fn() -> String, f: impl FnOnce() -> R, o: &mut Obs) -> Option<R> {
    o.eval();
    match catch(f) {
        Ok(r) => Some(r),
        Err(p) => {
            o.fail(format!("{what}|panic|{}", panic_signature(&p)), format!("{}: {p}", ctx()));
            None
        }
    }
}

struct Refuses;
impl<T> TryFromIter<T> for Refuses {
    type Error = ();
    fn try_from_iter<I: IntoIterator<Item = T>>(_: I) -> Result<Self, ()> {
        Err(())
    }
}
struct TakesTwo;
impl<T> TryFromIter<T> for TakesTwo {
    type Error = String;
    fn try_from_iter<I: IntoIterator<Item = T>>(it: I) -> Result<Self, String> {
        match it.into_iter().nth(2) {
            Some(_) => Err("full".into()),
            None => Ok(TakesTwo),
        }
    }
}

fn lists(b: &[u8], max: Option<usize>, o: &mut Obs) {
    let ctx = || format!("{} limit {max:?}", clip(&hex(b), 400));
    macro_rules! go {
        ($($t:ty => $c:ty),* $(,)?) => { $({
            let r = quiet(
                concat!("decode_list_of_variable_length_items::<", stringify!($t), ", ", stringify!($c), ">"),
                &ctx, || decode_list_of_variable_length_items::<$t, $c>(b, max).is_ok(), o);
            o.count(if r == Some(true) { "lists_accepted" } else { "lists_refused" });
        })* };
    }
    go!(
        Vec<u8> => Vec<Vec<u8>>,
        Grab => SmallVec<[Grab; 2]>,
        Vec<u16> => BTreeSet<Vec<u16>>,
        (Vec<u8>, u8) => BTreeMap<Vec<u8>, u8>,
        (u8, Vec<u16>) => BTreeMap<u8, Vec<u16>>,
        u64 => Vec<u64>,
        bool => TakesTwo,
        Fix<0> => Vec<Fix<0>>,
        Vec<Fix<0>> => Vec<Vec<Fix<0>>>,
        Vec<Vec<u8>> => SmallVec<[Vec<Vec<u8>>; 1]>,
        Option<u8> => Vec<Option<u8>>,
        BitList<U9> => Vec<BitList<U9>>,
        Grab => Refuses,
        Vec<u8> => TakesTwo,
    );
}

const FAR: [usize; 14] = [
    usize::MAX, usize::MAX - 1, usize::MAX - 3, usize::MAX - 4, usize::MAX - 7, usize::MAX / 2, usize::MAX / 2 + 1,
    1 << 63, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, 1 << 31, isize::MAX as usize - 3, 1 << 62,
];

#[derive(Clone, Copy, Debug)]
enum Reg {
    Anonymous,
    Typed(usize),
    Param(bool, usize),
}

fn builder(b: &[u8], regs: &[Reg], what: &str, o: &mut Obs) {
    let ctx = || format!("{regs:?} on {}", clip(&hex(b), 400));
    let r = quiet(what, &ctx, || -> Result<usize, DecodeError> {
        let mut x = SszDecoderBuilder::new(b);
        for r in regs {
            match *r {
                Reg::Anonymous => x.register_anonymous_variable_length_item()?,
                Reg::Param(fixed, n) => x.register_type_parameterized(fixed, n)?,
                Reg::Typed(k) => match k % 12 {
                    0 => x.register_type::<u8>()?,
                    1 => x.register_type::<u64>()?,
                    2 => x.register_type::<Vec<u8>>()?,
                    3 => x.register_type::<Vec<Vec<u8>>>()?,
                    4 => x.register_type::<Fix<0>>()?,
                    5 => x.register_type::<(u8, u16)>()?,
                    6 => x.register_type::<(u8, Vec<u8>)>()?,
                    7 => x.register_type::<Option<u8>>()?,
                    8 => x.register_type::<Fix<{ usize::MAX }>>()?,
                    9 => x.register_type::<bool>()?,
                    10 => x.register_type::<BTreeMap<u8, u8>>()?,
                    _ => x.register_type::<[u8; 32]>()?,
                },
            }
        }
        let mut d = x.build()?;
        let mut total = 0;
        for (i, r) in regs.iter().enumerate() {
            total += match (i + regs.len()) % 3 {
                0 => d.decode_next_with(|s| Ok(s.len()))?,
                1 => d.decode_next::<Grab>()?.1,
                _ => match r {
                    Reg::Typed(1) => d.decode_next::<u64>()? as usize & 1,
                    Reg::Typed(3) => d.decode_next::<Vec<Vec<u8>>>()?.len(),
                    _ => d.decode_next::<Vec<u8>>()?.len(),
                },
            };
        }
        Ok(total)
    }, o);
    match r {
        Some(Ok(_)) => o.count("built"),
        Some(Err(_)) => o.count("not_built"),
        None => {}
    }
}

fn regs(rng: &mut Rng, len: usize) -> Vec<Reg> {
    let n = match rng.below(6) {
        0 => rng.range(7, 30),
        _ => rng.below(7),
    };
    (0..n)
        .map(|_| match rng.below(9) {
            0 | 1 => Reg::Anonymous,
            2 | 3 => Reg::Typed(rng.below(12)),
            4 => Reg::Param(true, *rng.pick(&FAR)),
            5 => Reg::Param(true, FAR[0] - rng.below(len + 3)),
            6 => Reg::Param(false, *rng.pick(&FAR)),
            7 => Reg::Param(rng.chance(1, 2), rng.below(len + 2)),
            _ => Reg::Param(true, rng.below(6)),
        })
        .collect()
}

fn helpers(b: &[u8], o: &mut Obs) {
    let ctx = || hex(b);
    quiet("read_offset", &ctx, || read_offset(b), o);
    if let Some(Ok((s, body))) = quiet("split_union_bytes", &ctx, || split_union_bytes(b).map(|(s, x)| (u8::from(s), x.len())), o) {
        o.count("unions_split");
        if (s, body) != (b[0], b.len() - 1) {
            o.count("odd_splits");
        }
    }
}

pub fn units(cfg: &Cfg, out: &mut Vec<Unit>) {
    out.push(Unit::new("helpers/short inputs", 257 + 1, |c, rng, o| {
        // The empty input, one byte, and every second byte after each first byte.
        if c == 0 {
            helpers(&[], o);
            for s in 0..=255u8 {
                quiet("UnionSelector::new", &|| s.to_string(), || UnionSelector::new(s).map(u8::from), o);
            }
            return;
        }
        if c == 257 {
            for n in 0..200 {
                helpers(&rng.bytes(n), o);
            }
            return;
        }
        let a = (c - 1) as u8;
        helpers(&[a], o);
        for x in 0..=255u8 {
            helpers(&[a, x], o);
            for y in [0u8, 1, 4, 127, 128, 255] {
                helpers(&[a, x, y], o);
                helpers(&[x, y, a, 0], o);
                helpers(&[y, y, x, a, 9], o);
            }
        }
        o.distinct(fnv(&[a], 0x70));
    }));
    out.push(Unit::new("list function/limits", cfg.cases(30_000, 20), |_, rng, o| {
        let b = if rng.chance(1, 6) { let n = rng.below(12); rng.bytes(n) } else { offset_soup(rng, 72) };
        // Placed against an inaccessible page, so that a stray read is a fault.
        let mut g = Guarded::new(72);
        let s = g.place(&b, rng.chance(3, 4));
        let n = if b.len() >= 4 { u32::from_le_bytes(b[..4].try_into().unwrap()) as usize / 4 } else { 2 };
        for max in [None, Some(0), Some(n), Some(n.saturating_sub(1)), Some(n + 1), Some(*rng.pick(&FAR)), Some(rng.below(9))] {
            lists(s, max, o);
        }
        o.distinct(hash_bytes(&b, 0x71));
        o.sample(|| format!("lists over {}", hex(&b)));
    }));
    out.push(Unit::new("list function/short", 65 * 20, |c, _, o| {
        // Every first word of at most 64 over every length of at most 19, zeros behind.
        let (w, len) = (c as u32 / 20, c as usize % 20);
        let mut b = w.to_le_bytes().to_vec();
        b.resize(len, 0);
        b.truncate(len);
        for max in [None, Some(0), Some(1), Some(w as usize / 4), Some(usize::MAX)] {
            lists(&b, max, o);
        }
        for fill in [w as u8, len as u8, 255] {
            if len >= 4 {
                b[4..].fill(fill);
                lists(&b, None, o);
                // words equal to the length, and one more
                for word in [len as u32, len as u32 + 1, w, w + 1] {
                    for p in (4..len.saturating_sub(3)).step_by(4) {
                        b[p..p + 4].copy_from_slice(&word.to_le_bytes());
                    }
                    lists(&b, None, o);
                }
            }
        }
        o.distinct(c);
    }));
    out.push(Unit::new("builder/any parameters", cfg.cases(150_000, 20), |_, rng, o| {
        let b = match rng.below(4) {
            0 => { let n = rng.below(40); rng.bytes(n) },
            1 => vec![0; rng.below(40)],
            _ => offset_soup(rng, 60),
        };
        let r = regs(rng, b.len());
        let mut g = Guarded::new(72);
        let s = g.place(&b, rng.chance(3, 4));
        builder(s, &r, "SszDecoderBuilder", o);
        o.distinct(hash_bytes(&b, fnv(format!("{r:?}").as_bytes(), 0x72)));
        o.sample(|| format!("{r:?} on {}", hex(&b)));
    }));
    // Every pair and triple of extreme fixed lengths.
    out.push(Unit::new("builder/extreme lengths", (FAR.len() * FAR.len()) as u64, |c, _, o| {
        let (x, y) = (FAR[c as usize / FAR.len()], FAR[c as usize % FAR.len()]);
        for b in [&[][..], &[0u8], &[4, 0, 0, 0], &[8, 0, 0, 0, 8, 0, 0, 0], &[5, 0, 0, 0, 1, 2, 3, 4, 5, 6]] {
            for z in [Reg::Anonymous, Reg::Param(true, 0), Reg::Param(true, 1), Reg::Param(true, y), Reg::Typed(8)] {
                for seq in [
                    vec![Reg::Param(true, x)],
                    vec![Reg::Param(true, x), Reg::Param(true, y), z],
                    vec![z, Reg::Param(true, x)],
                    vec![z, Reg::Param(true, x), Reg::Param(true, y)],
                    vec![Reg::Param(true, 0), z, Reg::Param(true, x)],
                    vec![Reg::Param(true, 1), Reg::Param(true, x), z],
                    vec![Reg::Param(false, x), z],
                ] {
                    builder(b, &seq, "SszDecoderBuilder", o);
                }
            }
        }
        o.distinct(fnv(&[c as u8], 0x73));
    }));
    // Every registration sequence of at most four steps over every short input of small words.
    out.push(Unit::new("builder/short sequences", 7 * 7 * 7 * 7, |c, _, o| {
        let all = [
            Reg::Anonymous, Reg::Param(true, 0), Reg::Param(true, 1), Reg::Param(true, 4), Reg::Param(true, usize::MAX),
            Reg::Typed(2), Reg::Param(false, 0),
        ];
        let mut k = c as usize;
        let mut r = vec![];
        for _ in 0..4 {
            r.push(all[k % 7]);
            k /= 7;
        }
        for n in 0..=4 {
            for len in 0..=18usize {
                for first in [0u32, 1, 4, 5, 8, 9, 12, 13, 16, 17, len as u32, len as u32 + 1, u32::MAX] {
                    let mut b = vec![];
                    while b.len() < len {
                        b.extend_from_slice(&first.to_le_bytes());
                    }
                    b.truncate(len);
                    builder(&b, &r[..n], "SszDecoderBuilder", o);
                }
            }
        }
        o.distinct(c ^ 0x7400_0000);
    }));
    out.push(Unit::new("huge inputs", 12, |c, rng, o| {
        let Some(mut h) = Huge::new((1 << 32) + 64) else {
            o.count("huge_unavailable");
            return;
        };
        let b = h.bytes();
        let words: [u32; 4] = match c % 4 {
            0 => [u32::MAX, u32::MAX, 0, 0],
            1 => [16, u32::MAX, u32::MAX, u32::MAX - 1],
            2 => [16, 1 << 31, u32::MAX, u32::MAX],
            _ => [8, 1 << 31, 0, 0],
        };
        for (i, w) in words.iter().enumerate() {
            b[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes());
        }
        let len = [1usize << 32, (1 << 32) + 64, (1 << 32) - 1, (1 << 31) + 9][rng.below(4)];
        let b = &h.bytes()[..len];
        for r in [
            vec![Reg::Anonymous; 4], vec![Reg::Anonymous; 2],
            vec![Reg::Anonymous, Reg::Param(true, len - 4)], vec![Reg::Param(true, len), Reg::Anonymous],
            vec![Reg::Param(true, len - 4), Reg::Anonymous], vec![Reg::Param(true, len + 1)],
        ] {
            let ctx = || format!("{r:?} on {len} bytes starting {words:?}");
            quiet("SszDecoderBuilder", &ctx, || drive(b, &r.iter().map(|x| match x {
                Reg::Param(_, n) => Op::Fixed(*n),
                _ => Op::Var,
            }).collect::<Vec<_>>(), c).is_ok(), o);
        }
        quiet("read_offset", &|| "huge".into(), || read_offset(b), o);
        quiet("split_union_bytes", &|| "huge".into(), || split_union_bytes(b).is_ok(), o);
        quiet("decode_list_of_variable_length_items", &|| "huge".into(), || {
            decode_list_of_variable_length_items::<Grab, TakesTwo>(b, Some(4)).is_ok()
        }, o);
        o.count("huge_inputs");
        o.distinct(fnv(&[c as u8], 0x75));
    }));
}
