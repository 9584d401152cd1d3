//! Length bounds on every way to obtain a bitfield.
use crate::field::*;
use crate::observe::*;
use vcore::run::{catch, hex, panic_signature, Cfg, Obs, Unit};

/// A request for `asked` bits (None: whatever the bytes say) had this outcome.
fn judge(t: Ty, how: &str, asked: Option<usize>, r: Result<Result<B, String>, String>, ctx: &str, o: &mut Obs) {
    o.eval();
    match r {
        Err(p) => o.fail(
            format!("{}|{how} panics: {}", t.name(), panic_signature(&p)),
            format!("{ctx}: {p}"),
        ),
        Ok(Err(e)) => {
            o.count("refused");
            if asked.is_some_and(|n| t.allowed(n)) {
                o.fail(format!("{}|{how} refuses an allowed length", t.name()), format!("{ctx}: {e}"));
            }
        }
        Ok(Ok(f)) => {
            o.count("obtained");
            let n = f.length();
            if !t.allowed(n) {
                return o.fail(format!("{}|{how}: length out of bounds", t.name()), format!("{ctx}: {n} bits"));
            }
            if let Some(a) = asked {
                if n != a {
                    let w = if t.allowed(a) { "another length" } else { "a truncated or grown field" };
                    return o.fail(format!("{}|{how} gives {w}", t.name()), format!("{ctx}: {n} bits for {a}"));
                }
            }
            // The bits are there, and no more of them.
            let count = catch(|| f.walk().take(n + 9).count());
            if count != Ok(n) || f.at(n).is_ok() || (n > 0 && f.at(n - 1).is_err()) {
                return o.fail(format!("{}|{how}: accessible bits", t.name()), format!("{ctx}: len {n}, iter yields {count:?}"));
            }
            if f.view().len() != model_view(&vec![false; n]).len() {
                o.fail(format!("{}|{how}: bytes held", t.name()), format!("{ctx}: {} bytes for {n} bits", f.view().len()));
            }
            let mut g = f;
            if g.put(n, true).is_ok() || g.put(n + 8, true).is_ok() || g.length() != n {
                o.fail(format!("{}|{how}: grows by set", t.name()), ctx.to_string());
            }
        }
    }
}

/// Offer a byte string to every decoder; `asked` bits were announced by it.
fn offer(t: Ty, b: &[u8], asked: Option<usize>, o: &mut Obs) {
    let ctx = hex(b);
    judge(t, "from_bytes", asked, catch(|| t.from_byte_api(b)), &ctx, o);
    judge(t, "from_ssz_bytes", asked, catch(|| t.from_ssz(b).map_err(|e| format!("{e:?}"))), &ctx, o);
    judge(t, "serde", asked, catch(|| (t.json)(&json(b))), &ctx, o);
    o.distinct(vcore::rng::hash_bytes(b, vcore::rng::fnv(t.name().as_bytes(), 3)));
}

pub fn tall(t: Ty, cfg: &Cfg, out: &mut Vec<Unit>) {
    out.push(Unit::new(format!("{}/tall", t.name()), cfg.cases(30, 10), move |c, rng, o| {
        let n = tall_len(t, rng);
        // requests within the bound and just beyond it
        let ask = match c % 3 {
            0 => n,
            1 => n + 1 + rng.below(9),
            _ => n + *rng.pick(&[64, 65536, 131072]),
        };
        if t.kind != Kind::Vector || ask == n {
            judge(t, "constructor", Some(ask), catch(|| (t.make)(ask)), &format!("{ask} bits"), o);
        }
        let m = some_bits(n, rng);
        let mut b = t.model_encode(&m);
        offer(t, &b, Some(n), o);
        let over = Ty::of::<ssz::BitList<typenum::U9223372036854775808>>().model_encode(&some_bits(ask, rng));
        if t.kind == Kind::List {
            offer(t, &over, Some(ask), o);
        }
        b.resize(b.len() + 1 + rng.below(3), 0);
        offer(t, &b, if t.kind == Kind::Dynamic { Some(8 * b.len()) } else { None }, o);
        let mb = some_bits(tall_len(t, rng), rng);
        if let (Ok(Ok(fa)), Ok(Ok(fb))) = (catch(|| build(t, &m, c)), catch(|| build(t, &mb, c / 4))) {
            let ctx = format!("{} with {}", show(&m), show(&mb));
            judge(t, "union", None, catch(|| fa.or(&fb)), &ctx, o);
            judge(t, "intersection", None, catch(|| fa.and(&fb)), &ctx, o);
            judge(t, "difference", None, catch(|| Ok(fa.minus(&fb))), &ctx, o);
        }
        o.count("tall_fields");
    }));
}

const FAR: [usize; 12] = [
    usize::MAX, usize::MAX - 1, usize::MAX - 6, usize::MAX - 7, usize::MAX - 8, 1 << 63, (1 << 63) + 1,
    (1 << 63) - 1, 1 << 32, (1 << 32) + 1, u32::MAX as usize, 1 << 40,
];

pub fn units(t: Ty, cfg: &Cfg, out: &mut Vec<Unit>) {
    let name = t.name();
    let n = t.bound;
    // Constructors.
    let lens: Vec<usize> = match t.kind {
        Kind::Vector => vec![n.unwrap()],
        Kind::List => {
            let n = n.unwrap();
            let mut v: Vec<usize> = (0..=n.min(700))
                .chain(n.saturating_sub(20)..=n.saturating_add(40))
                .filter(|l| *l <= 1 << 16 || *l > n)
                .chain(FAR.into_iter().filter(|l| *l > n))
                .chain((1..64).map(|k| n.saturating_mul(k + 1)).filter(|l| *l > n))
                .collect();
            v.sort();
            v.dedup();
            v
        }
        Kind::Dynamic => (0..=4200)
            .chain([8191, 8192, 8193, 65535, 65536, 65537])
            .chain(FAR.into_iter().filter(|l| l % 8 != 0))
            .collect(),
    };
    out.push(Unit::new(format!("{name}/constructor"), lens.len() as u64, move |c, _, o| {
        let l = lens[c as usize];
        if t.allowed(l) && l > 1 << 20 {
            return;
        }
        judge(t, "constructor", Some(l), catch(|| (t.make)(l)), &format!("{l} bits"), o);
    }));
    // Byte strings that announce a length.
    match t.kind {
        Kind::List => {
            let n = n.unwrap();
            let tops: Vec<usize> = (0..=n.min(90))
                .chain(n.saturating_sub(20)..=n.saturating_add(40))
                .chain([n.saturating_mul(2), n.saturating_add(1024), n / 8 * 8 + 7, n / 8 * 8 + 8, n / 8 * 8 + 15])
                .filter(|l| *l <= 1 << 16)
                .collect();
            let reps = cfg.cases(4, 10);
            out.push(Unit::new(format!("{name}/delimiter"), tops.len() as u64 * reps, move |c, rng, o| {
                let top = tops[c as usize % tops.len()];
                let bits = some_bits(top, rng);
                let b = t.model_encode(&bits);
                offer(t, &b, Some(top), o);
                // more bytes than the length needs
                let mut b2 = b.clone();
                b2.resize(b.len() + 1 + rng.below(3), 0);
                offer(t, &b2, None, o);
                // no delimiter at all
                let last = b2.len() - 1;
                b2.truncate(last);
                *b2.last_mut().unwrap() = 0;
                offer(t, &b2, None, o);
                o.sample(|| format!("{}: delimiter at {top}: {}", t.name(), hex(&b)));
            }));
        }
        Kind::Vector => {
            let n = n.unwrap();
            let bytes = model_view(&vec![false; n]).len();
            let reps = cfg.cases(10, 10);
            out.push(Unit::new(format!("{name}/bytes"), 12 * reps, move |c, rng, o| {
                let want = match c % 12 {
                    0 => bytes,
                    1 => bytes + 1,
                    2 => bytes - 1,
                    3 => 0,
                    4 => bytes * 2,
                    5 => bytes + 8,
                    6 => n,
                    7 => bytes / 2,
                    _ => bytes,
                };
                let mut b = model_view(&some_bits(n, rng));
                b.resize(want, (c % 2) as u8);
                if c % 12 >= 8 && n < bytes * 8 {
                    // a bit at or above N
                    let k = rng.range(n, bytes * 8 - 1);
                    b[k / 8] |= 1 << (k % 8);
                    o.count("excess_bits_offered");
                    let over = b.clone();
                    offer(t, &over, Some(k + 1), o);
                } else {
                    offer(t, &b, if want == bytes { Some(n) } else { None }, o);
                    if want != bytes {
                        // A vector of N bits from another number of bytes is truncated or grown.
                        for (how, ok) in [
                            ("from_bytes", catch(|| t.from_byte_api(&b).is_ok())),
                            ("from_ssz_bytes", catch(|| t.from_ssz(&b).is_ok())),
                        ] {
                            if ok != Ok(false) {
                                o.fail(format!("{}|{how} accepts another byte count", t.name()), hex(&b));
                            }
                        }
                    }
                }
                o.sample(|| format!("{}: {}", t.name(), hex(&b)));
            }));
        }
        Kind::Dynamic => {
            let reps = cfg.cases(6, 10);
            out.push(Unit::new(format!("{name}/bytes"), 140 * reps, move |c, rng, o| {
                let k = (c % 140) as usize;
                let b = rng.bytes(k);
                offer(t, &b, Some(8 * k), o);
                o.sample(|| format!("{} bytes", k));
            }));
        }
    }
    // Any bytes, and results of operations.
    let reps = cfg.cases(if n.is_some_and(|n| n > 1100) { 60 } else { 250 }, 20);
    out.push(Unit::new(format!("{name}/operations"), reps, move |_, rng, o| {
        let a = rng.below(8);
        let junk = rng.bytes(a);
        offer(t, &junk, None, o);
        let (a, b) = (some_len(t, rng, 2100), some_len(t, rng, 2100));
        let (ma, mb) = (some_bits(a, rng), some_bits(b, rng));
        let (Ok(Ok(fa)), Ok(Ok(fb))) = (
            catch(|| build(t, &ma, rng.below(4) as u64)),
            catch(|| build(t, &mb, rng.below(4) as u64)),
        ) else {
            o.count("operands_unavailable");
            return;
        };
        let ctx = format!("{} with {}", show(&ma), show(&mb));
        judge(t, "union", None, catch(|| fa.or(&fb)), &ctx, o);
        judge(t, "intersection", None, catch(|| fa.and(&fb)), &ctx, o);
        judge(t, "difference", None, catch(|| Ok(fa.minus(&fb))), &ctx, o);
        judge(t, "difference_inplace", Some(a), catch(|| {
            let mut x = fa.clone();
            x.minus_assign(&fb);
            Ok(x)
        }), &ctx, o);
        let k = rng.below(a + 2);
        judge(t, "shift_up", Some(a), catch(|| {
            let mut x = fa.clone();
            let _ = x.shift(k);
            Ok(x)
        }), &format!("{} by {k}", show(&ma)), o);
        judge(t, "clone", Some(a), catch(|| Ok(fa.clone())), &ctx, o);
        o.count("operand_pairs");
    }));
}

use ssz::{Decode, BitList, BitVectorDynamic};
use std::fmt::Debug;
use typenum::Unsigned;

/// Declared against actual number of bits of the dynamic byte constructor, including every other
/// request near it.
pub fn dynamic(cfg: &Cfg, out: &mut Vec<Unit>) {
    let reps = cfg.cases(2, 5);
    out.push(Unit::new("BitVectorDynamic/declared length", 40 * reps, move |c, rng, o| {
        let k = (c % 40) as usize;
        let b = rng.bytes(k);
        for len in (0..=8 * k + 24).chain([usize::MAX, usize::MAX - 7, 1 << 63, (1 << 61) * 7]) {
            let r = catch(|| BitVectorDynamic::from_bytes_with_len(sv(&b), len).map_err(|e| format!("{e:?}")).map(|f| B(Box::new(f))));
            let ctx = format!("{} as {len} bits", hex(&b));
            let honest = len == 8 * k && k > 0;
            if let (Ok(Ok(f)), false) = (&r, honest) {
                o.fail(
                    "BitVectorDynamic|from_bytes_with_len accepts another length",
                    format!("{ctx}: {} bits", f.length()),
                );
            }
            judge(Ty::of::<BitVectorDynamic>(), "from_bytes_with_len", honest.then_some(len), r, &ctx, o);
        }
    }));
}

fn resized<N: Unsigned + Clone + Debug + Send + 'static, M: Unsigned + Clone + Debug + Send + 'static>(cfg: &Cfg, out: &mut Vec<Unit>) {
    let (n, m) = (N::to_usize(), M::to_usize());
    let t = Ty::of::<BitList<N>>();
    let tall = n > 65000 && m > 65000;
    let reps = if tall { cfg.cases(1, 5) } else { cfg.cases(6, 20) };
    out.push(Unit::new(format!("BitList<{n}>/resize to {m}"), reps + 2, move |c, rng, o| {
        let top = if tall { 140_000 } else { 4000 };
        let len = match c {
            0 => n.min(top),
            1 => 0,
            _ if tall => tall_len(t, rng),
            _ => some_len(t, rng, top),
        };
        let bits = if c == 0 { vec![true; len] } else { some_bits(len, rng) };
        let Ok(Ok(f)) = catch(|| BitList::<N>::from_ssz_bytes(&t.model_encode(&bits))) else {
            o.count("operands_unavailable");
            return;
        };
        let r = catch(|| f.resize::<M>().map_err(|e| format!("{e:?}")));
        let ctx = format!("{} of capacity {n} to {m}", show(&bits));
        o.count(if m >= n { "resizes_up" } else { "resizes_down" });
        match (&r, m >= n) {
            (Ok(Ok(g)), true) => {
                let got: Vec<usize> = (0..g.len()).filter(|i| g.get(*i) == Ok(true)).collect();
                let want: Vec<usize> = (0..len).filter(|i| bits[*i]).collect();
                if got != want || g.len() > m {
                    o.fail(format!("BitList<{n}>|resize to {m}: set bits"), format!("{ctx}: bits {got:?} of {}", g.len()));
                }
                if g.num_set_bits() != want.len() {
                    o.fail(format!("BitList<{n}>|resize to {m}: number of set bits"), ctx.clone());
                }
            }
            (Ok(Err(e)), true) => o.fail(format!("BitList<{n}>|resize to {m} refused"), format!("{ctx}: {e}")),
            (Ok(Ok(_)), false) => o.fail(format!("BitList<{n}>|resize to {m} accepted"), ctx.clone()),
            _ => {}
        }
        judge(Ty::of::<BitList<M>>(), "resize", None, r.map(|r| r.map(|f| B(Box::new(f)))), &ctx, o);
        if f.len() != len || f.as_slice() != &model_view(&bits)[..] {
            o.fail(format!("BitList<{n}>|resize changes its operand"), ctx.clone());
        }
        o.distinct(hash_bits(t, &bits) ^ m as u64);
    }));
}

macro_rules! matrix {
    ($cfg:expr, $out:expr, [$($n:ty),*], $ms:tt) => { $( matrix!(@row $cfg, $out, $n, $ms); )* };
    (@row $cfg:expr, $out:expr, $n:ty, [$($m:ty),*]) => { $( resized::<$n, $m>($cfg, $out); )* };
}

pub fn resizes(cfg: &Cfg, out: &mut Vec<Unit>) {
    use typenum::*;
    matrix!(cfg, out,
        [U0, U1, U2, U7, U8, U9, U15, U16, U17, U31, U32, U33, U63, U64, U65, U127, U128, U129, U1023, U1024, Sum<U1024, U1>, U2048, U4096, U1099511627776],
        [U0, U1, U2, U7, U8, U9, U15, U16, U17, U31, U32, U33, U63, U64, U65, U127, U128, U129, U1023, U1024, Sum<U1024, U1>, U2048, U4096]);
    matrix!(cfg, out, [U8, U65536, Sum<U65536, U1>, U131072], [U65536, Sum<U65536, U1>, U131072]);
}
