//! Histories of operations against sequences of booleans.
use crate::field::*;
use crate::observe::*;
use vcore::rng::{hash_bytes, Rng};
use vcore::run::{catch, hex, panic_signature, Cfg, Obs, Unit};

struct Reg<B> {
    f: B,
    m: Vec<bool>,
}

fn index(n: usize, rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => n,
        1 => n + rng.below(10),
        2 => *rng.pick(&[usize::MAX, usize::MAX - 7, usize::MAX / 8, n + 64, n + 1024]),
        3 => n.saturating_sub(1),
        _ => rng.below(n.max(1)),
    }
}

fn amount(n: usize, rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => n,
        1 => n + 1 + rng.below(9),
        2 => *rng.pick(&[usize::MAX, usize::MAX - 7, n + 64, 0]),
        3 => n.saturating_sub(1),
        4 => 8.min(n),
        _ => rng.below(n.min(20) + 1),
    }
}

fn fail(t: Ty, o: &mut Obs, what: &str, detail: String) {
    o.fail(format!("{}|{what}", t.name()), detail);
}

/// One mutation of register `a`; returns its description, or None when the history must end.
fn step(t: Ty, regs: &mut [Reg<B>], a: usize, cap: usize, rng: &mut Rng, o: &mut Obs) -> Option<String> {
    let n = regs[a].m.len();
    let op = rng.below(20);
    match op {
        0..=5 => {
            let (i, v) = (index(n, rng), rng.chance(2, 3));
            let r = regs[a].f.put(i, v);
            if r.is_ok() != (i < n) {
                fail(t, o, "set result", format!("set({i}, {v}) on {n} bits returned {r:?}"));
                return None;
            }
            if i < n {
                regs[a].m[i] = v;
                o.count("sets");
            } else {
                o.count("failed_sets");
            }
            Some(format!("set({i}, {v})"))
        }
        6..=9 => {
            let k = amount(n, rng);
            let r = regs[a].f.shift(k);
            if r.is_ok() != (k <= n) {
                fail(t, o, "shift_up result", format!("shift_up({k}) on {n} bits returned {r:?}"));
                return None;
            }
            if k <= n {
                let m = &mut regs[a].m;
                m.truncate(n - k);
                let mut w = vec![false; k];
                w.append(m);
                *m = w;
                o.count("shifts");
            } else {
                o.count("failed_shifts");
            }
            Some(format!("shift_up({k})"))
        }
        10..=12 => {
            let b = rng.below(regs.len());
            let (of, om) = (regs[b].f.clone(), regs[b].m.clone());
            regs[a].f.minus_assign(&of);
            for (i, x) in regs[a].m.iter_mut().enumerate() {
                if om.get(i).copied().unwrap_or(false) {
                    *x = false;
                }
            }
            o.count("differences");
            Some(format!("difference_inplace({})", show(&om)))
        }
        13 => {
            let b = rng.below(regs.len());
            let (f, m) = (regs[b].f.clone(), regs[b].m.clone());
            if rng.chance(1, 2) {
                regs[a].f = f;
            } else {
                regs[a].f.clone_from(&f);
            }
            regs[a].m = m;
            o.count("clones");
            Some("clone".into())
        }
        14 | 15 => {
            let m = some_bits(some_len(t, rng, cap), rng);
            let route = rng.below(4) as u64;
            let f = built(t, &m, route, o)?;
            regs[a] = Reg { f, m };
            o.count("constructions");
            Some(format!("a new value by {}", ROUTES[route as usize]))
        }
        16 | 17 => {
            // Decode possibly malformed bytes: either rejected, or a new value.
            let mut b = t.model_encode(&some_bits(some_len(t, rng, cap), rng));
            match rng.below(5) {
                0 => b.push(0),
                1 => {
                    b.pop();
                }
                2 => {
                    let k = rng.below(b.len().max(1));
                    if let Some(x) = b.get_mut(k) {
                        *x ^= 1 << rng.below(8);
                    }
                }
                3 => {
                    if let Some(x) = b.last_mut() {
                        *x = rng.u8();
                    }
                }
                _ => {}
            }
            let r = if rng.chance(1, 2) {
                t.from_ssz(&b).map_err(|e| format!("{e:?}"))
            } else {
                t.from_byte_api(&b)
            };
            // Whether the bytes are valid is C14's business; here the value must be a sequence.
            if let Ok(f) = r {
                let m: Vec<bool> = f.walk().collect();
                regs[a] = Reg { f, m };
                o.count("decodes");
            } else {
                o.count("refused_decodes");
            }
            Some(format!("decoding {}", hex(&b)))
        }
        18 => {
            let b = rng.below(regs.len());
            let r = match rng.below(3) {
                0 => regs[a].f.or(&regs[b].f),
                1 => regs[a].f.and(&regs[b].f),
                _ => Ok(regs[a].f.minus(&regs[b].f)),
            };
            // The bits are C12's business; the result must be a sequence whatever they are.
            if let Ok(f) = r {
                let m: Vec<bool> = f.walk().collect();
                regs[a] = Reg { f, m };
                o.count("set_operations");
            }
            Some("a set operation".into())
        }
        _ => {
            // Through the bytes and back.
            let b = regs[a].f.clone().into_byte_api();
            match t.from_byte_api(&b) {
                Ok(f) => regs[a].f = f,
                Err(e) => {
                    fail(t, o, "byte form refused", format!("{} gave {}: {e}", show(&regs[a].m), hex(&b)));
                    return None;
                }
            }
            Some("into_bytes and from_bytes".into())
        }
    }
}

fn history(t: Ty, cap: usize, steps: usize, rng: &mut Rng, o: &mut Obs) {
    history_of(t, cap, steps, some_len, rng, o)
}

fn history_of(t: Ty, cap: usize, steps: usize, len: fn(Ty, &mut Rng, usize) -> usize, rng: &mut Rng, o: &mut Obs) {
    let mut regs: Vec<Reg<B>> = Vec::new();
    for k in 0..3 {
        let n = if k > 0 && rng.chance(1, 2) { regs[0].m.len() } else { len(t, rng, cap) };
        let m = some_bits(n, rng);
        let Some(f) = built(t, &m, rng.below(4) as u64, o) else { return };
        regs.push(Reg { f, m });
    }
    let mut log: Vec<String> = vec![format!("start from {}", show(&regs[0].m))];
    for _ in 0..steps {
        let a = rng.below(3);
        let r = catch(|| step(t, &mut regs, a, cap, rng, o));
        match r {
            Ok(Some(s)) => {
                log.push(format!("r{a}: {s}"));
                if log.len() > 9 {
                    log.remove(0);
                }
            }
            Ok(None) => return,
            Err(p) => {
                return fail(t, o, &format!("operation panics: {}", panic_signature(&p)),
                    format!("{p} after {}", log.join("; ")));
            }
        }
        let twin = if rng.chance(1, 3) {
            match built(t, &regs[a].m, rng.below(4) as u64, o) {
                Some(t) => Some(t),
                None => return,
            }
        } else {
            None
        };
        if !observe(t, &regs[a].f, &regs[a].m, twin.as_ref(), o, &log.join("; ")) {
            return;
        }
        o.distinct(hash_bits(t, &regs[a].m));
        // Equality between registers is equality of the sequences.
        for b in 0..3 {
            let want = regs[a].m == regs[b].m;
            if (regs[a].f == regs[b].f) != want || (regs[b].f != regs[a].f) == want {
                return fail(t, o, "equality", format!("{} == {} is not {want} after {}",
                    show(&regs[a].m), show(&regs[b].m), log.join("; ")));
            }
            if want && fed(&regs[a].f) != fed(&regs[b].f) {
                return fail(t, o, "hash", format!("equal values hash differently: {} after {}",
                    show(&regs[a].m), log.join("; ")));
            }
        }
    }
    // The registers that were not touched last must not have changed either.
    for r in &regs {
        if !observe(t, &r.f, &r.m, None, o, "the whole history") {
            return;
        }
    }
    o.sample(|| format!("{}: {} -> {}", t.name(), log.join("; "), show(&regs[0].m)));
}

/// All single operations on one state.
fn neighbours(t: Ty, m: &[bool], route: u64, with_diffs: bool, o: &mut Obs) {
    let n = m.len();
    let Some(f) = built(t, m, route, o) else { return };
    if !observe(t, &f, m, None, o, ROUTES[(route % 4) as usize]) {
        return;
    }
    o.distinct(hash_bits(t, m));
    let far = [n + 64, usize::MAX, usize::MAX - 7];
    for i in (0..=n + 9).chain(far) {
        for v in [true, false] {
            let mut g = f.clone();
            let mut w = m.to_vec();
            let r = catch(|| g.put(i, v));
            if i < n {
                w[i] = v;
            }
            match r {
                Ok(r) if r.is_ok() == (i < n) => {}
                r => return fail(t, o, "set result", format!("set({i}, {v}) on {} returned {r:?}", show(m))),
            }
            if !observe(t, &g, &w, None, o, &format!("set({i}, {v}) on {}", show(m))) {
                return;
            }
        }
    }
    for k in (0..=n + 9).chain(far) {
        let mut g = f.clone();
        let r = catch(|| g.shift(k));
        let w: Vec<bool> = if k <= n {
            (0..n).map(|i| i >= k && m[i - k]).collect()
        } else {
            m.to_vec()
        };
        match r {
            Ok(r) if r.is_ok() == (k <= n) => {}
            r => return fail(t, o, "shift_up result", format!("shift_up({k}) on {} returned {r:?}", show(m))),
        }
        if !observe(t, &g, &w, None, o, &format!("shift_up({k}) on {}", show(m))) {
            return;
        }
    }
    if with_diffs {
        for l in 0..=n.min(6) + 2 {
            if !t.allowed(l) {
                continue;
            }
            for p in 0..1u64 << l {
                let other: Vec<bool> = (0..l).map(|i| p >> i & 1 == 1).collect();
                let Some(of) = built(t, &other, 0, o) else { return };
                let mut g = f.clone();
                if let Err(e) = catch(|| g.minus_assign(&of)) {
                    return fail(t, o, "difference_inplace panics", format!("{} minus {}: {e}", show(m), show(&other)));
                }
                let w: Vec<bool> = (0..n).map(|i| m[i] && !other.get(i).copied().unwrap_or(false)).collect();
                if !observe(t, &g, &w, None, o, &format!("difference_inplace of {} on {}", show(&other), show(m))) {
                    return;
                }
            }
        }
    }
}

pub fn tall(t: Ty, cfg: &Cfg, out: &mut Vec<Unit>) {
    out.push(Unit::new(format!("{}/tall histories", t.name()), cfg.cases(8, 10), move |_, rng, o| {
        o.count("tall_histories");
        // registers of small and of large lengths, so that both come up as operands
        history_of(t, 140_000, 8, |t, rng, cap| if rng.chance(1, 5) { some_len(t, rng, cap) } else { tall_len(t, rng) }, rng, o)
    }));
    // Every kind of shift and some far bits of one long field.
    out.push(Unit::new(format!("{}/tall steps", t.name()), cfg.cases(6, 10), move |c, rng, o| {
        let n = tall_len(t, rng);
        let m = match c % 3 {
            0 => vec![true; n],
            1 => (0..n).map(|i| i == n - 1 || i == 65535 || i == 0).collect(),
            _ => some_bits(n, rng),
        };
        let Some(f) = built(t, &m, c, o) else { return };
        if !observe(t, &f, &m, None, o, ROUTES[(c % 4) as usize]) {
            return;
        }
        for i in [n - 1, n, 65535, 65536, 65537, rng.below(n), n + 65536] {
            let (mut g, mut w, v) = (f.clone(), m.clone(), rng.chance(1, 2));
            let r = catch(|| g.put(i, v));
            if i < n {
                w[i] = v;
            }
            if !matches!(r, Ok(ref r) if r.is_ok() == (i < n)) {
                return fail(t, o, "set result", format!("set({i}, {v}) on {n} bits returned {r:?}"));
            }
            if !observe(t, &g, &w, None, o, &format!("set({i}, {v})")) {
                return;
            }
        }
        for k in [n, n - 1, 8, 65535, 65536, 65537, rng.below(n), n + 1, n + 65536] {
            let mut g = f.clone();
            let r = catch(|| g.shift(k));
            if !matches!(r, Ok(ref r) if r.is_ok() == (k <= n)) {
                return fail(t, o, "shift_up result", format!("shift_up({k}) on {n} bits returned {r:?}"));
            }
            let w = if k <= n { (0..n).map(|i| i >= k && m[i - k]).collect() } else { m.clone() };
            if !observe(t, &g, &w, None, o, &format!("shift_up({k})")) {
                return;
            }
        }
        o.count("tall_fields");
        o.max("bits", n as u64);
        o.distinct(hash_bits(t, &m));
    }));
}

pub fn units(t: Ty, cfg: &Cfg, out: &mut Vec<Unit>) {
    let cap = 3000;
    let name = t.name();
    let small = t.bound.is_some_and(|n| n <= 300) || t.kind == Kind::Dynamic;
    let n = cfg.cases(if small { 500 } else { 60 }, 10);
    out.push(Unit::new(format!("{name}/histories"), n, move |_, rng, o| {
        let steps = rng.range(5, if small { 60 } else { 25 });
        let cap = if small && rng.chance(3, 4) { 80 } else { cap };
        history(t, cap, steps, rng, o)
    }));
    // Every state of up to 8 bits (10 thorough) x every operation.
    let top = if cfg.thorough() { 10 } else { 8 };
    let states: Vec<(usize, u64)> = (0..=top)
        .filter(|l| t.allowed(*l))
        .flat_map(|l| (0..1u64 << l).map(move |p| (l, p)))
        .collect();
    // Lists with a large bound differ from each other only in the bound.
    let lots = t.bound.is_none_or(|n| n <= 12) || t.bound == Some(256) || cfg.thorough();
    if !states.is_empty() && lots {
        out.push(Unit::new(format!("{name}/states"), states.len() as u64, move |c, _, o| {
            let (l, p) = states[c as usize];
            let m: Vec<bool> = (0..l).map(|i| p >> i & 1 == 1).collect();
            o.count("exhaustive_states");
            neighbours(t, &m, c, l <= 6 || t.kind != Kind::List, o)
        }));
    }
    // Larger lengths: structured states x every operation.
    let lens: Vec<usize> = (9..=34).chain([39, 40, 41, 63, 64, 65, 71, 72, 73, 127, 128, 129, 135, 136, 137])
        .filter(|l| t.allowed(*l))
        .collect();
    if !lens.is_empty() && (lots || t.kind == Kind::Vector) {
        out.push(Unit::new(format!("{name}/larger"), lens.len() as u64 * 5, move |c, rng, o| {
            let l = lens[c as usize / 5];
            let m: Vec<bool> = match c % 5 {
                0 => vec![true; l],
                1 => (0..l).map(|i| i == l - 1).collect(),
                2 => (0..l).map(|i| i % 2 == 0).collect(),
                3 => (0..l).map(|_| rng.chance(1, 2)).collect(),
                _ => (0..l).map(|i| i % 8 == 7 || i + 1 == l).collect(),
            };
            neighbours(t, &m, c, false, o)
        }));
    }
    let _ = hash_bytes;
}
