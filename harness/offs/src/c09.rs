//! Offset tables partition the input exactly; offset words are a bijection.
use crate::probe::*;
use smallvec::SmallVec;
use ssz::{decode_list_of_variable_length_items, encode_length, read_offset, Decode, DecodeError};
use std::collections::{BTreeMap, BTreeSet};
use vcore::guard::Huge;
use vcore::model::{partition, partition_list};
use vcore::mutate::offset_soup;
use vcore::rng::{fnv, hash_bytes, Rng};
use vcore::run::{catch, clip, hex, panic_signature, Cfg, Obs, Unit};

fn show(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Fixed(n) => format!("F{n}"),
            Op::Var => "V".into(),
        })
        .collect::<Vec<_>>()
        .join(",")
}

fn show_bytes(b: &[u8]) -> String {
    if b.len() > 4096 {
        format!("{}... ({} bytes)", hex(&b[..64]), b.len())
    } else {
        hex(b)
    }
}

/// One observation: did the real code split `b` exactly as the specification does?
fn compare(
    class: &str,
    what: &dyn Fn() -> String,
    b: &[u8],
    want: &Result<Vec<(usize, usize)>, vcore::model::Reject>,
    got: Result<Result<Vec<Grab>, DecodeError>, String>,
    o: &mut Obs,
) {
    o.eval();
    match (got, want) {
        (Err(p), _) => o.fail(
            format!("{class}|panic|{}", panic_signature(&p)),
            format!("{} on {}: {p}", what(), show_bytes(b)),
        ),
        (Ok(Err(_)), Err(_)) => o.count("rejected"),
        (Ok(Ok(_)), Err(r)) => o.fail(
            format!("{class}|accepted: {}", r.0),
            format!("{} on {}", what(), show_bytes(b)),
        ),
        (Ok(Err(e)), Ok(_)) => o.fail(
            format!("{class}|rejected an exact partition"),
            format!("{} on {}: {e:?}", what(), show_bytes(b)),
        ),
        (Ok(Ok(items)), Ok(parts)) => {
            o.count("accepted");
            let got: Vec<_> = items.iter().map(|g| g.within(b)).collect();
            let want: Vec<_> = parts.iter().map(|p| norm(*p)).collect();
            if got != want {
                o.fail(
                    format!("{class}|wrong item bytes"),
                    format!("{} on {}: items {} want {}", what(), show_bytes(b),
                        clip(&format!("{got:?}"), 800), clip(&format!("{want:?}"), 800)),
                );
            }
        }
    }
}

fn check_builder(b: &[u8], ops: &[Op], how: u64, o: &mut Obs) -> bool {
    let want = partition(&lens(ops), b);
    let ok = want.is_ok();
    compare("builder", &|| format!("[{}] (how {how})", show(ops)), b, &want, drive(b, ops, how), o);
    ok
}

/// The registration order can be replayed by hand from the steps a user takes one at a time: a
/// builder that errors on registration must do so only for inputs without a partition, which
/// `check_builder` covers; here only the final outcome counts.
fn check_list(b: &[u8], o: &mut Obs) -> bool {
    let want = partition_list(b);
    let ok = want.is_ok();
    let list = |x: Result<Vec<Grab>, DecodeError>| x;
    compare("list function", &|| "list".into(), b, &want,
        catch(|| list(decode_list_of_variable_length_items(b, None))), o);
    compare("Vec", &|| "Vec".into(), b, &want, catch(|| Vec::<Grab>::from_ssz_bytes(b)), o);
    compare("SmallVec", &|| "SmallVec<[_; 3]>".into(), b, &want,
        catch(|| SmallVec::<[Grab; 3]>::from_ssz_bytes(b).map(|v| v.to_vec())), o);
    ok
}

/// Sets sort and merge their items, so compare them as sets.
fn check_set(b: &[u8], o: &mut Obs) {
    o.eval();
    let want = partition_list(b).map(|ps| {
        ps.iter().map(|p| Grab(b.as_ptr() as usize + p.0, p.1 - p.0)).collect::<BTreeSet<_>>()
    });
    let got = catch(|| BTreeSet::<Grab>::from_ssz_bytes(b));
    let strip = |s: &BTreeSet<Grab>| s.iter().map(|g| g.within(b)).collect::<BTreeSet<_>>();
    let ok = match (&got, &want) {
        (Ok(Ok(g)), Ok(w)) => strip(g) == strip(w),
        (Ok(Err(_)), Err(_)) => true,
        _ => false,
    };
    if !ok {
        o.fail("BTreeSet|partition", format!("{}: {got:?} want {want:?}", show_bytes(b)));
    }
    // A map's entries are containers of two items.
    o.eval();
    let want = partition_list(b).ok().and_then(|ps| {
        ps.iter()
            .map(|p| {
                let e = &b[p.0..p.1];
                let q = partition(&[None, None], e).ok()?;
                let at = |r: (usize, usize)| norm((p.0 + r.0, p.0 + r.1));
                Some((q[0].0 + p.0, at(q[0]), at(q[1])))
            })
            .collect::<Option<Vec<_>>>()
    });
    let got = catch(|| BTreeMap::<Grab, Grab>::from_ssz_bytes(b));
    let ok = match (&got, &want) {
        (Ok(Ok(g)), Some(w)) => {
            let g: BTreeSet<_> = g.iter().map(|(k, v)| (k.within(b), v.within(b))).collect();
            // Entries of equal key (the same empty slice) cannot arise twice: distinct entries
            // of a list start at distinct positions, as each holds two offset words.
            let w: BTreeSet<_> = w.iter().map(|(_, k, v)| (*k, *v)).collect();
            g == w
        }
        (Ok(Err(_)), None) => true,
        _ => false,
    };
    if !ok {
        o.fail("BTreeMap|partition", format!("{}: {got:?} want {want:?}", show_bytes(b)));
    }
}

/// All values of `k` offset words out of `choices`, written at `at`.
fn each_assignment(choices: &[u32], at: &[usize], b: &mut [u8], f: &mut dyn FnMut(&[u8])) {
    let mut idx = vec![0usize; at.len()];
    loop {
        for (p, i) in at.iter().zip(&idx) {
            b[*p..*p + 4].copy_from_slice(&choices[*i].to_le_bytes());
        }
        f(b);
        let mut k = 0;
        loop {
            if k == idx.len() {
                return;
            }
            idx[k] += 1;
            if idx[k] < choices.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
    }
}

fn shapes(max_items: usize, sizes: &[usize]) -> Vec<Vec<Op>> {
    let mut out: Vec<Vec<Op>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max_items {
        let mut next = vec![];
        for s in &last {
            for op in sizes.iter().map(|n| Op::Fixed(*n)).chain([Op::Var]) {
                let mut t = s.clone();
                t.push(op);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn fixed_part(ops: &[Op]) -> (usize, Vec<usize>) {
    let mut cur = 0;
    let mut at = vec![];
    for op in ops {
        match op {
            Op::Fixed(n) => cur += n,
            Op::Var => {
                at.push(cur);
                cur += 4;
            }
        }
    }
    (cur, at)
}

const BIG: [u32; 9] = [256, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 31) + 4, u32::MAX - 3, u32::MAX - 1, u32::MAX];

fn exhaustive(ops: &[Op], deep: bool, rng: &mut Rng, o: &mut Obs) {
    let (fixed, at) = fixed_part(ops);
    let k = at.len();
    for len in 0..=fixed + 3 {
        let mut b: Vec<u8> = (0..len).map(|i| 0xA0 ^ (i as u8).wrapping_mul(29)).collect();
        if len < fixed {
            // No partition whatever the words say, but some words are readable.
            let readable: Vec<usize> = at.iter().copied().filter(|p| p + 4 <= len).collect();
            let mut choices: Vec<u32> = vec![0, len as u32, fixed as u32, u32::MAX];
            choices.dedup();
            if readable.len() <= 3 {
                each_assignment(&choices, &readable, &mut b, &mut |b| {
                    check_builder(b, ops, rng.u64(), o);
                });
            }
            continue;
        }
        let lo = match k {
            0..=2 => 0,
            3 if deep => 0,
            _ => fixed.saturating_sub(2),
        };
        let mut choices: Vec<u32> = (lo as u32..=len as u32 + 2).collect();
        match k {
            0..=2 => choices.extend(BIG.into_iter().chain([len as u32 + 256, fixed as u32 + 65536, fixed as u32 | 1 << 31])),
            3 => choices.extend([u32::MAX, fixed as u32 + 256]),
            _ => {}
        }
        choices.sort();
        choices.dedup();
        let tag = fnv(show(ops).as_bytes(), 0x50);
        let mut n = 0u64;
        each_assignment(&choices, &at, &mut b, &mut |b| {
            n += 1;
            let ok = check_builder(b, ops, rng.u64(), o);
            if ok || n % 16 == 0 {
                o.distinct(hash_bytes(b, tag));
            }
        });
        o.add("exhaustive_layouts", n);
    }
    o.count("exhaustive_shapes");
    o.sample(|| format!("[{}]: every word value over lengths 0..={}", show(ops), fixed + 3));
}

fn random_shape(rng: &mut Rng, max: usize) -> Vec<Op> {
    let n = match rng.below(4) {
        0 => rng.range(7, 10),
        1 => rng.range(0, max),
        _ => rng.range(0, 12.min(max)),
    };
    let style = rng.below(5);
    (0..n)
        .map(|i| match style {
            0 if i > 0 || rng.chance(1, 2) => Op::Var,
            1 if !rng.chance(1, 8) => Op::Fixed(rng.range(1, 40)),
            _ if rng.chance(1, 2) => Op::Var,
            _ => Op::Fixed(match rng.below(8) {
                0 => *rng.pick(&[255usize, 256, 257, 1000, 4096]),
                1 => 4,
                _ => rng.range(1, 33),
            }),
        })
        .collect()
}

/// A valid layout of `ops`, as the words and bytes an encoder would produce.
fn layout(ops: &[Op], rng: &mut Rng) -> (Vec<u8>, Vec<usize>) {
    let (fixed, at) = fixed_part(ops);
    let mut b = rng.bytes(fixed);
    for p in &at {
        let w = (b.len() as u32).to_le_bytes();
        b[*p..*p + 4].copy_from_slice(&w);
        let n = match rng.below(6) {
            0 | 1 => 0,
            2 => 1,
            3 => rng.below(300),
            _ => rng.below(20),
        };
        b.extend(rng.bytes(n));
    }
    (b, at)
}

fn disturb(b: &mut Vec<u8>, at: &[usize], rng: &mut Rng) {
    match rng.below(10) {
        0 if !b.is_empty() => {
            let n = rng.below(b.len());
            b.truncate(n)
        }
        1 => {
            let n = rng.range(1, 5);
            b.extend(rng.bytes(n))
        }
        2 if !b.is_empty() => {
            let i = rng.below(b.len());
            b[i] ^= 1 << rng.below(8);
        }
        3 if !b.is_empty() => {
            let i = rng.below(b.len());
            b.remove(i);
        }
        4 if at.len() > 1 => {
            // neighbours swapped or made equal
            let i = rng.below(at.len() - 1);
            let (p, q) = (at[i], at[i + 1]);
            if q + 4 <= b.len() {
                for k in 0..4 {
                    if rng.chance(1, 3) {
                        b[p + k] = b[q + k];
                    } else {
                        b.swap(p + k, q + k);
                    }
                }
            }
        }
        _ if !at.is_empty() => {
            let p = *rng.pick(at);
            if p + 4 <= b.len() {
                let old = u32::from_le_bytes(b[p..p + 4].try_into().unwrap());
                let len = b.len() as u32;
                let new = match rng.below(9) {
                    0 => old.wrapping_add(1),
                    1 => old.wrapping_sub(1),
                    2 => old.wrapping_add(4),
                    3 => len,
                    4 => len + 1,
                    5 => 0,
                    6 => old | 1 << rng.range(8, 31),
                    7 => rng.below(b.len() + 3) as u32,
                    _ => *rng.pick(&BIG),
                };
                b[p..p + 4].copy_from_slice(&new.to_le_bytes());
            }
        }
        _ => b.push(rng.u8()),
    }
}

fn word_range(lo: u64, hi: u64, o: &mut Obs) {
    for n in lo..hi {
        let w = encode_length(n as usize);
        let want = [n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8];
        if w != want {
            return o.fail("encode_length|bytes", format!("{n}: {w:?} want {want:?}"));
        }
        match read_offset(&want) {
            Ok(x) if x == n as usize => {}
            r => return o.fail("read_offset|value", format!("{want:?}: {r:?} want {n}")),
        }
    }
    o.evals += 2 * (hi - lo);
    o.add("offset_words", hi - lo);
}

pub fn units(cfg: &Cfg, out: &mut Vec<Unit>) {
    // Every registration sequence of at most four items, every small value of every word.
    for ops in shapes(4, &[1, 2, 3]) {
        let deep = cfg.thorough();
        out.push(Unit::new(format!("builder/every word/[{}]", show(&ops)), 1, move |_, rng, o| {
            exhaustive(&ops, deep, rng, o);
        }));
    }
    if cfg.thorough() {
        for ops in shapes(5, &[1, 4]).into_iter().filter(|s| s.len() == 5) {
            out.push(Unit::new(format!("builder/every word/[{}]", show(&ops)), 1, move |_, rng, o| {
                exhaustive(&ops, false, rng, o);
            }));
        }
    }
    // Longer sequences: valid layouts, and neighbours of them.
    out.push(Unit::new("builder/random sequences", cfg.cases(60_000, 20), |_, rng, o| {
        let ops = random_shape(rng, 60);
        let (b, at) = layout(&ops, rng);
        let tag = fnv(show(&ops).as_bytes(), 0x51);
        o.max("longest_sequence", ops.len() as u64);
        o.max("variable_items", at.len() as u64);
        let how = rng.u64();
        if !check_builder(&b, &ops, how, o) {
            o.harness_error(format!("a generated layout is not a partition: [{}] {}", show(&ops), hex(&b)));
        }
        o.distinct(hash_bytes(&b, tag));
        for _ in 0..6 {
            let mut m = b.clone();
            disturb(&mut m, &at, rng);
            if rng.chance(1, 5) {
                disturb(&mut m, &at, rng);
            }
            check_builder(&m, &ops, rng.u64(), o);
            o.distinct(hash_bytes(&m, tag));
        }
        // The same bytes under another sequence.
        let mut other = ops.clone();
        if !other.is_empty() {
            let i = rng.below(other.len());
            match (rng.below(4), other[i]) {
                (0, _) => {
                    other.remove(i);
                }
                (1, Op::Fixed(n)) if n > 1 => {
                    other[i] = Op::Fixed(n - 1);
                    other.insert(i, Op::Fixed(1));
                }
                (2, Op::Fixed(n)) => other[i] = Op::Fixed(n + 1),
                (_, Op::Fixed(_)) => other[i] = Op::Var,
                (_, Op::Var) => other[i] = Op::Fixed(4),
            }
            check_builder(&b, &other, rng.u64(), o);
        }
        o.sample(|| format!("[{}] over {}", show(&ops), clip(&hex(&b), 300)));
    }));
    // All truncations and every value near the right one of each word.
    out.push(Unit::new("builder/truncations and near words", cfg.cases(1_500, 20), |_, rng, o| {
        let ops = random_shape(rng, 16);
        let (b, at) = layout(&ops, rng);
        for n in 0..b.len().min(700) {
            check_builder(&b[..n], &ops, rng.u64(), o);
        }
        for p in &at {
            let old = u32::from_le_bytes(b[*p..*p + 4].try_into().unwrap());
            for d in -6i64..=6 {
                let mut m = b.clone();
                m[*p..*p + 4].copy_from_slice(&((old as i64 + d) as u32).to_le_bytes());
                check_builder(&m, &ops, rng.u64(), o);
            }
            for bit in 0..32 {
                let mut m = b.clone();
                m[*p..*p + 4].copy_from_slice(&(old ^ 1 << bit).to_le_bytes());
                check_builder(&m, &ops, rng.u64(), o);
            }
        }
        o.distinct(hash_bytes(&b, fnv(show(&ops).as_bytes(), 0x52)));
        o.count("layouts_swept");
    }));
    out.push(Unit::new("builder/soup", cfg.cases(60_000, 20), |_, rng, o| {
        let ops = random_shape(rng, 9);
        let b = offset_soup(rng, 60);
        check_builder(&b, &ops, rng.u64(), o);
        o.distinct(hash_bytes(&b, fnv(show(&ops).as_bytes(), 0x53)));
    }));
    // Lists.
    for len in 0..=19usize {
        out.push(Unit::new(format!("list/every word/{len} bytes"), 1, move |_, _, o| {
            let at: Vec<usize> = (0..len / 4).map(|i| 4 * i).collect();
            let hi = len as u32 + 2;
            let mut choices: Vec<u32> = if at.len() >= 4 {
                (0..=hi).filter(|x| x % 4 == 0 || *x + 4 > len as u32 || *x > 12).collect()
            } else {
                (0..=hi).chain([256, len as u32 + 256, 1 << 16, 1 << 31, (1 << 30) * 3, u32::MAX, u32::MAX - 3, 4 | 1 << 24]).collect()
            };
            choices.sort();
            choices.dedup();
            let mut b: Vec<u8> = (0..len).map(|i| 0xA0 ^ (i as u8).wrapping_mul(29)).collect();
            let mut n = 0u64;
            each_assignment(&choices, &at, &mut b, &mut |b| {
                n += 1;
                let ok = check_list(b, o);
                check_set(b, o);
                if ok || n % 16 == 0 {
                    o.distinct(hash_bytes(b, 0x54));
                }
            });
            o.add("exhaustive_lists", n);
            o.sample(|| format!("lists of {len} bytes: all assignments of {} words", at.len()));
        }));
    }
    out.push(Unit::new("list/random", cfg.cases(60_000, 20), |c, rng, o| {
        let n = match rng.below(8) {
            0 => rng.range(60, 300),
            _ => rng.range(0, 12),
        };
        let ops = vec![Op::Var; n];
        let (b, at) = layout(&ops, rng);
        if !check_list(&b, o) {
            o.harness_error(format!("a generated list is not a partition: {}", hex(&b)));
        }
        check_set(&b, o);
        o.distinct(hash_bytes(&b, 0x55));
        for _ in 0..5 {
            let mut m = b.clone();
            disturb(&mut m, &at, rng);
            check_list(&m, o);
            if c % 4 == 0 {
                check_set(&m, o);
            }
            o.distinct(hash_bytes(&m, 0x55));
        }
        o.max("longest_list", n as u64);
        o.sample(|| format!("list of {n}: {}", clip(&hex(&b), 300)));
    }));
    out.push(Unit::new("list/soup", cfg.cases(60_000, 20), |_, rng, o| {
        let b = offset_soup(rng, 80);
        check_list(&b, o);
        check_set(&b, o);
        o.distinct(hash_bytes(&b, 0x56));
    }));
    // Many items.
    out.push(Unit::new("builder and list/many items", cfg.cases(6, 4), |_, rng, o| {
        let n = rng.range(300, 3000);
        let ops: Vec<Op> = (0..n).map(|_| if rng.chance(1, 2) { Op::Var } else { Op::Fixed(rng.range(1, 9)) }).collect();
        let (b, at) = layout(&ops, rng);
        check_builder(&b, &ops, rng.u64(), o);
        let mut m = b.clone();
        disturb(&mut m, &at, rng);
        check_builder(&m, &ops, rng.u64(), o);
        let n = rng.range(60_000, 90_000);
        let mut l = vec![0u8; 4 * n];
        for i in 0..n {
            let w = (l.len() as u32).to_le_bytes();
            l[4 * i..4 * i + 4].copy_from_slice(&w);
            if rng.chance(1, 3) {
                l.push(i as u8);
            }
        }
        check_list(&l, o);
        o.max("longest_list", n as u64);
        o.distinct(hash_bytes(&l, 0x57));
    }));
    // Gigabytes of (lazily mapped) input, so that large words can be right.
    let bigs = 24u64;
    out.push(Unit::new("huge inputs", bigs, |c, rng, o| {
        let len = (1usize << 32) + 4096;
        let Some(mut h) = Huge::new(len) else {
            o.count("huge_unavailable");
            return;
        };
        let total = match c % 6 {
            0 => (1usize << 31) - 1,
            1 => (1 << 31) + 5,
            2 => u32::MAX as usize,
            3 => 1 << 32,
            4 => (1 << 32) + 77,
            _ => (3 << 30) + rng.below(1000),
        };
        let top = total.min(u32::MAX as usize);
        // [Fixed(big), Var, Var]: the fixed part ends at `first`.
        let first = match c % 4 {
            0 => top - rng.below(3),
            1 => (1 << 31) - 8 + rng.below(16),
            2 => (1 << 16) + rng.below(16),
            _ => top / 2,
        }
        .min(top);
        let ops = [Op::Fixed(first - 8), Op::Var, Op::Var];
        let second = rng.range(first, top);
        let b = h.bytes();
        b[first - 8..first - 4].copy_from_slice(&(first as u32).to_le_bytes());
        b[first - 4..first].copy_from_slice(&(second as u32).to_le_bytes());
        let b = &h.bytes()[..total];
        if !check_builder(b, &ops, rng.u64(), o) {
            o.harness_error("a huge layout is not a partition");
        }
        for ops in [
            [Op::Fixed(first - 9), Op::Var, Op::Var],
            [Op::Fixed(first - 7), Op::Var, Op::Var],
            [Op::Fixed(first - 8), Op::Var, Op::Fixed(4)],
            [Op::Fixed(first - 8), Op::Fixed(8), Op::Fixed(total - first)],
            [Op::Fixed(first - 8), Op::Fixed(8), Op::Fixed(total - first + 1)],
        ] {
            check_builder(b, &ops, rng.u64(), o);
        }
        drop(h);
        // A list of three items far apart.
        let mut h = Huge::new(len).expect("harness: map again");
        let b = h.bytes();
        let (x, y) = (rng.range(12, top), rng.range(12, top));
        for (i, w) in [12, x.min(y), x.max(y)].into_iter().enumerate() {
            b[4 * i..4 * i + 4].copy_from_slice(&(w as u32).to_le_bytes());
        }
        check_list(&b[..total], o);
        b[..4].copy_from_slice(&(12u32 | 1 << 31).to_le_bytes());
        // 2^29 announced items, the second of which is out of order.
        check_rejected(&b[..total], total, o);
        o.count("huge_layouts");
        o.distinct(fnv(&[c as u8], 0x58));
        o.sample(|| format!("{total} bytes: fixed part of {first}, second offset {second}"));
    }));
    // Offset words.
    let parts = 4096u64;
    out.push(Unit::new("offset words/all values", parts, move |c, _, o| {
        let step = (1u64 << 32) / parts;
        word_range(c * step, (c + 1) * step, o);
    }));
    out.push(Unit::new("offset words/any slice", cfg.cases(20_000, 10), |c, rng, o| {
        let n = (c % 40) as usize;
        let b = rng.bytes(n);
        o.eval();
        let want = (n >= 4).then(|| (0..4).map(|i| (b[i] as usize) << (8 * i)).sum::<usize>());
        let got = catch(|| read_offset(&b));
        if got.clone().map(|r| r.ok()) != Ok(want) {
            o.fail("read_offset|slice", format!("{}: {got:?} want {want:?}", hex(&b)));
        }
    }));
}

/// Only small prefixes of the announced table are consistent: must be refused (cheaply).
fn check_rejected(b: &[u8], total: usize, o: &mut Obs) {
    o.eval();
    if partition_prefix_ok(b) {
        return;
    }
    struct Nothing;
    impl ssz::TryFromIter<Grab> for Nothing {
        type Error = ();
        fn try_from_iter<I: IntoIterator<Item = Grab>>(it: I) -> Result<Self, ()> {
            it.into_iter().for_each(drop);
            Ok(Nothing)
        }
    }
    let r = catch(|| decode_list_of_variable_length_items::<Grab, Nothing>(b, None).is_ok());
    if r != Ok(false) {
        o.fail("list function|huge table accepted", format!("{total} bytes, {}: {r:?}", hex(&b[..32])));
    }
}

fn partition_prefix_ok(b: &[u8]) -> bool {
    let w = |i: usize| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()) as usize;
    w(0) % 4 == 0 && w(0) <= b.len() && w(1) >= w(0)
}
