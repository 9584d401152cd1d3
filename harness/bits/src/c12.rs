//! Set operations on all pairs of small operands and on length pairs around boundaries.
use crate::field::*;
use crate::observe::*;
use vcore::rng::Rng;
use vcore::run::{catch, hex, panic_signature, Cfg, Obs, Unit};

fn at(m: &[bool], i: usize) -> bool {
    m.get(i).copied().unwrap_or(false)
}

/// An operand that is what was asked for; how values are built is not decided here.
fn operand(t: Ty, m: &[bool], route: u64, o: &mut Obs) -> Option<B> {
    match catch(|| build(t, m, route)) {
        Ok(Ok(f)) if f.length() == m.len() && f.view() == &model_view(m)[..] => Some(f),
        _ => {
            o.count("operands_unavailable");
            None
        }
    }
}

/// The expected result of one operation.
fn expect(t: Ty, op: usize, a: &[bool], b: &[bool]) -> Vec<bool> {
    let (la, lb) = (a.len(), b.len());
    let n = match (t.kind, op) {
        (Kind::Vector, _) => la,
        (_, 0) => la.max(lb),
        (Kind::List, 1) => la.min(lb),
        (_, 1) => la.max(lb),
        (_, _) => la,
    };
    (0..n)
        .map(|i| match op {
            0 => at(a, i) || at(b, i),
            1 => at(a, i) && at(b, i),
            _ => at(a, i) && !at(b, i),
        })
        .collect()
}

const OPS: [&str; 4] = ["union", "intersection", "difference", "difference_inplace"];

fn pair(t: Ty, a: &[bool], b: &[bool], fa: &B, fb: &B, o: &mut Obs) {
    o.eval();
    let ctx = || format!("{}: {} with {}", t.name(), show(a), show(b));
    for (op, opname) in OPS.iter().enumerate() {
        let r = catch(|| match op {
            0 => fa.or(fb),
            1 => fa.and(fb),
            2 => Ok(fa.minus(fb)),
            _ => {
                let mut x = fa.clone();
                x.minus_assign(fb);
                Ok(x)
            }
        });
        let want = expect(t, op, a, b);
        match r {
            Ok(Ok(f)) => {
                if f.length() != want.len() {
                    return o.fail(
                        format!("{}|{opname}: length", t.name()),
                        format!("{}: length {}, expected {}", ctx(), f.length(), want.len()),
                    );
                }
                let got: Vec<bool> = (0..want.len()).map(|i| f.at(i).unwrap_or_else(|_| !want[i])).collect();
                if got != want {
                    return o.fail(
                        format!("{}|{opname}: bits", t.name()),
                        format!("{}: {}, expected {}", ctx(), show(&got), show(&want)),
                    );
                }
                // The result is itself a valid bitfield of the type.
                if f.view() != &model_view(&want)[..] {
                    return o.fail(
                        format!("{}|{opname}: byte view of the result", t.name()),
                        format!("{}: {}, expected {}", ctx(), hex(f.view()), hex(&model_view(&want))),
                    );
                }
                let back = catch(|| t.from_ssz(&f.as_ssz_bytes()));
                if !matches!(&back, Ok(Ok(x)) if *x == f) {
                    return o.fail(
                        format!("{}|{opname}: result does not round trip", t.name()),
                        format!("{}: {back:?}", ctx()),
                    );
                }
                // Equal to the same sequence built from scratch.
                if op != 3 || a.len() < 20 {
                    match build(t, &want, 0) {
                        Ok(t) if t == f && fed(&t) == fed(&f) => {}
                        r => {
                            return o.fail(
                                format!("{}|{opname}: differs from the same bits built from scratch", t.name()),
                                format!("{}: {f:?} {r:?}", ctx()),
                            )
                        }
                    }
                }
                o.count("results");
            }
            Ok(Err(e)) => {
                return o.fail(format!("{}|{opname} fails", t.name()), format!("{}: {e}", ctx()));
            }
            Err(p) => {
                return o.fail(
                    format!("{}|{opname} panics: {}", t.name(), panic_signature(&p)),
                    format!("{}: {p}", ctx()),
                );
            }
        }
    }
    let want = (0..a.len()).all(|i| !a[i] || at(b, i));
    match catch(|| fa.subset(fb)) {
        Ok(None) => {}
        Ok(Some(x)) => {
            o.count(if x { "subsets" } else { "not_subsets" });
            if x != want {
                o.fail(format!("{}|is_subset", t.name()), format!("{}: {x}, expected {want}", ctx()));
            }
        }
        Err(p) => o.fail(format!("{}|is_subset panics", t.name()), format!("{}: {p}", ctx())),
    }
    // Operands are not changed.
    for (f, m) in [(fa, a), (fb, b)] {
        if f.length() != m.len() || f.view() != &model_view(m)[..] {
            o.fail(format!("{}|operand changed", t.name()), ctx());
        }
    }
}

fn all_of(t: Ty, top: usize) -> Vec<Vec<bool>> {
    (0..=top)
        .filter(|l| t.allowed(*l))
        .flat_map(|l| (0..1u64 << l).map(move |p| (0..l).map(|i| p >> i & 1 == 1).collect()))
        .collect()
}

/// A second operand related to the first one.
fn related(a: &[bool], n: usize, rng: &mut Rng) -> Vec<bool> {
    match rng.below(5) {
        0 => some_bits(n, rng),
        1 => (0..n).map(|i| at(a, i)).collect(),
        2 => (0..n).map(|i| at(a, i) || rng.chance(1, 4)).collect(),
        3 => (0..n).map(|i| at(a, i) && rng.chance(3, 4)).collect(),
        _ => {
            let mut v: Vec<bool> = (0..n).map(|i| at(a, i)).collect();
            if n > 0 {
                let k = rng.below(n);
                v[k] = !v[k];
            }
            v
        }
    }
}

pub fn tall(t: Ty, cfg: &Cfg, out: &mut Vec<Unit>) {
    out.push(Unit::new(format!("{}/tall pairs", t.name()), cfg.cases(12, 10), move |c, rng, o| {
        let len = |rng: &mut Rng, c: u64| if c % 3 == 0 { some_len(t, rng, 70_000) } else { tall_len(t, rng) };
        let (la, lb) = (len(rng, c), len(rng, c / 3));
        let a = some_bits(la, rng);
        let b = related(&a, lb, rng);
        let (Some(fa), Some(fb)) = (operand(t, &a, rng.below(4) as u64, o), operand(t, &b, rng.below(4) as u64, o)) else {
            return;
        };
        pair(t, &a, &b, &fa, &fb, o);
        o.count("tall_pairs");
        o.distinct(hash_bits(t, &a) ^ hash_bits(t, &b).rotate_left(17));
    }));
}

pub fn units(t: Ty, cfg: &Cfg, out: &mut Vec<Unit>) {
    let name = t.name();
    // All pairs.
    let big = t.bound.is_some_and(|n| n > 12);
    let top = match (t.kind, cfg.thorough()) {
        (Kind::List, false) if big => 4,
        (Kind::List, false) => 5,
        (Kind::List, true) if big => 5,
        (Kind::List, true) => 7,
        (_, false) => 8,
        (_, true) => 9,
    };
    let vals = all_of(t, top);
    if !vals.is_empty() {
        // A vector of 8 bits and a dynamic of 8 have 65536 pairs; rows are cases.
        let stride = if vals.len() > 200 && !cfg.thorough() && t.kind == Kind::Vector && t.bound != Some(8) { 3 } else { 1 };
        out.push(Unit::new(format!("{name}/all pairs"), (vals.len() as u64).div_ceil(stride), move |c, _, o| {
            let a = &vals[(c * stride) as usize];
            let Some(fa) = operand(t, a, c, o) else { return };
            for (k, b) in vals.iter().enumerate() {
                let Some(fb) = operand(t, b, k as u64 % 3, o) else { return };
                pair(t, a, b, &fa, &fb, o);
            }
            o.add("exhaustive_pairs", vals.len() as u64);
            o.distinct(hash_bits(t, a));
        }));
    }
    // Length pairs around byte boundaries and beyond the inline storage.
    let edges: Vec<usize> = (0..=26)
        .chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1016, 1023, 1024, 1025, 1032, 2040, 2048, 2049, 4096])
        .chain(t.bound.into_iter().flat_map(|n| n.saturating_sub(9)..=n))
        .filter(|l| t.allowed(*l) && *l <= 8192)
        .collect();
    let mut edges = edges;
    edges.sort();
    edges.dedup();
    let reps = cfg.cases(if big { 2 } else { 6 }, 10);
    let k = edges.len() as u64;
    out.push(Unit::new(format!("{name}/length pairs"), k * k * reps, move |c, rng, o| {
        let (la, lb) = (edges[(c % k) as usize], edges[(c / k % k) as usize]);
        let a = some_bits(la, rng);
        let b = related(&a, lb, rng);
        let (Some(fa), Some(fb)) = (operand(t, &a, rng.below(4) as u64, o), operand(t, &b, rng.below(4) as u64, o)) else {
            return;
        };
        pair(t, &a, &b, &fa, &fb, o);
        o.count("length_pairs");
        o.distinct(hash_bits(t, &a) ^ hash_bits(t, &b).rotate_left(17));
        o.sample(|| format!("{}: {} with {}", t.name(), show(&a), show(&b)));
    }));
    let n = cfg.cases(if big { 150 } else { 600 }, 15);
    out.push(Unit::new(format!("{name}/random pairs"), n, move |_, rng, o| {
        let cap = if rng.chance(1, 10) { 5000 } else { 90 };
        let a = some_bits(some_len(t, rng, cap), rng);
        let n = some_len(t, rng, cap);
        let b = related(&a, n, rng);
        let (Some(fa), Some(fb)) = (operand(t, &a, rng.below(4) as u64, o), operand(t, &b, rng.below(4) as u64, o)) else {
            return;
        };
        pair(t, &a, &b, &fa, &fb, o);
        o.distinct(hash_bits(t, &a) ^ hash_bits(t, &b).rotate_left(17));
    }));
}
