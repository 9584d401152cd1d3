//! List limits and collections that refuse.
use crate::probe::*;
use smallvec::SmallVec;
use ssz::{decode_list_of_variable_length_items, Decode, DecodeError, TryFromIter};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Debug;
use vcore::alloc::{measured, Stats};
use vcore::guard::Huge;
use vcore::model::{partition, partition_list};
use vcore::mutate::offset_soup;
use vcore::rng::{hash_bytes, Rng};
use vcore::run::{catch, clip, hex, panic_signature, Cfg, Obs, Unit};

/// Holds at most `N` items and refuses more, like the bounded lists of dependent crates.
#[derive(Clone, PartialEq, Debug)]
struct Bounded<T, const N: usize>(Vec<T>);
#[derive(Debug)]
#[allow(dead_code)]
struct Full(usize);
impl<T, const N: usize> TryFromIter<T> for Bounded<T, N> {
    type Error = Full;
    fn try_from_iter<I: IntoIterator<Item = T>>(it: I) -> Result<Self, Full> {
        let mut v = vec![];
        for x in it {
            if v.len() == N {
                return Err(Full(N));
            }
            v.push(x);
        }
        Ok(Bounded(v))
    }
}

/// Takes everything, then refuses if there are more than `N`.
#[derive(Clone, PartialEq, Debug)]
struct BoundedLate<T, const N: usize>(VecDeque<T>);
impl<T, const N: usize> TryFromIter<T> for BoundedLate<T, N> {
    type Error = String;
    fn try_from_iter<I: IntoIterator<Item = T>>(it: I) -> Result<Self, String> {
        let v: VecDeque<T> = it.into_iter().collect();
        if v.len() > N {
            Err("too many".into())
        } else {
            Ok(BoundedLate(v))
        }
    }
}

/// Refuses without looking.
#[derive(Clone, PartialEq, Debug)]
struct Never;
impl<T> TryFromIter<T> for Never {
    type Error = ();
    fn try_from_iter<I: IntoIterator<Item = T>>(_: I) -> Result<Self, ()> {
        Err(())
    }
}

/// Takes everything, then refuses.
#[derive(Clone, PartialEq, Debug)]
struct NeverLate;
impl<T> TryFromIter<T> for NeverLate {
    type Error = DecodeError;
    fn try_from_iter<I: IntoIterator<Item = T>>(it: I) -> Result<Self, DecodeError> {
        it.into_iter().for_each(drop);
        Err(DecodeError::ZeroLengthItem)
    }
}

/// Must hold something.
#[derive(Clone, PartialEq, Debug)]
struct NonEmpty<T>(T, Vec<T>);
impl<T> TryFromIter<T> for NonEmpty<T> {
    type Error = &'static str;
    fn try_from_iter<I: IntoIterator<Item = T>>(it: I) -> Result<Self, &'static str> {
        let mut it = it.into_iter();
        let first = it.next().ok_or("empty")?;
        Ok(NonEmpty(first, it.collect()))
    }
}

/// Wants its items in increasing order.
#[derive(Clone, PartialEq, Debug)]
struct Sorted<T>(Vec<T>);
impl<T: PartialOrd> TryFromIter<T> for Sorted<T> {
    type Error = (u8, u8);
    fn try_from_iter<I: IntoIterator<Item = T>>(it: I) -> Result<Self, (u8, u8)> {
        let mut v: Vec<T> = vec![];
        for x in it {
            if v.last().is_some_and(|l| *l > x) {
                return Err((1, 2));
            }
            v.push(x);
        }
        Ok(Sorted(v))
    }
}

/// What a collection does with a list of good items.
trait Target<T>: TryFromIter<T> + PartialEq + Debug {
    fn name() -> &'static str;
    fn model(items: Vec<T>) -> Option<Self>;
}
impl<T: PartialEq + Debug> Target<T> for Vec<T> {
    fn name() -> &'static str {
        "Vec"
    }
    fn model(items: Vec<T>) -> Option<Self> {
        Some(items)
    }
}
impl<T: PartialEq + Debug, const N: usize> Target<T> for SmallVec<[T; N]> {
    fn name() -> &'static str {
        "SmallVec"
    }
    fn model(items: Vec<T>) -> Option<Self> {
        let mut s = SmallVec::new();
        for i in items {
            s.push(i);
        }
        Some(s)
    }
}
impl<T: Ord + Debug> Target<T> for BTreeSet<T> {
    fn name() -> &'static str {
        "BTreeSet"
    }
    fn model(items: Vec<T>) -> Option<Self> {
        let mut s = BTreeSet::new();
        for i in items {
            s.insert(i);
        }
        Some(s)
    }
}
impl<K: Ord + Debug, V: PartialEq + Debug> Target<(K, V)> for BTreeMap<K, V> {
    fn name() -> &'static str {
        "BTreeMap"
    }
    fn model(items: Vec<(K, V)>) -> Option<Self> {
        let mut s = BTreeMap::new();
        for (k, v) in items {
            s.insert(k, v);
        }
        Some(s)
    }
}
impl<T: PartialEq + Debug, const N: usize> Target<T> for Bounded<T, N> {
    fn name() -> &'static str {
        "bounded collection"
    }
    fn model(items: Vec<T>) -> Option<Self> {
        (items.len() <= N).then_some(Bounded(items))
    }
}
impl<T: PartialEq + Debug, const N: usize> Target<T> for BoundedLate<T, N> {
    fn name() -> &'static str {
        "bounded collection that refuses at the end"
    }
    fn model(items: Vec<T>) -> Option<Self> {
        (items.len() <= N).then_some(BoundedLate(items.into()))
    }
}
impl<T> Target<T> for Never {
    fn name() -> &'static str {
        "refusing collection"
    }
    fn model(_: Vec<T>) -> Option<Self> {
        None
    }
}
impl<T> Target<T> for NeverLate {
    fn name() -> &'static str {
        "collection that refuses at the end"
    }
    fn model(_: Vec<T>) -> Option<Self> {
        None
    }
}
impl<T: PartialEq + Debug> Target<T> for NonEmpty<T> {
    fn name() -> &'static str {
        "non-empty collection"
    }
    fn model(mut items: Vec<T>) -> Option<Self> {
        if items.is_empty() {
            return None;
        }
        Some(NonEmpty(items.remove(0), items))
    }
}
impl<T: PartialOrd + Debug> Target<T> for Sorted<T> {
    fn name() -> &'static str {
        "sorted collection"
    }
    fn model(items: Vec<T>) -> Option<Self> {
        items.windows(2).all(|w| w[0] <= w[1]).then_some(Sorted(items))
    }
}

/// The item count a list announces, if it announces one.
fn announced(b: &[u8]) -> Option<usize> {
    if b.is_empty() {
        return Some(0);
    }
    let w = u32::from_le_bytes(b.get(..4)?.try_into().unwrap()) as usize;
    (w % 4 == 0).then_some(w / 4)
}

/// Allocation allowed to a refused call: room for an error message.
const REFUSED_BYTES: usize = 4096;

struct Seen<C> {
    result: Result<Result<C, DecodeError>, String>,
    calls: u64,
    alloc: Stats,
}

fn call<T: Decode, C: TryFromIter<T>>(b: &[u8], max: Option<usize>) -> Seen<C> {
    reset_calls();
    let (result, alloc) = measured(|| catch(|| decode_list_of_variable_length_items::<T, C>(b, max)));
    Seen { result, calls: calls(), alloc }
}

fn limits(count: usize, rng: &mut Rng, all: bool) -> Vec<usize> {
    let mut v: Vec<usize> = if all {
        (0..=count.min(40) + 1).collect()
    } else {
        vec![rng.below(count + 2)]
    };
    v.extend([0, count.saturating_sub(1), count, count + 1, count / 2, count * 4, count.saturating_mul(4) + 4]);
    v.extend([usize::MAX, usize::MAX / 4, usize::MAX / 4 + 1, (usize::MAX / 4 + 1).wrapping_add(count), u32::MAX as usize, (1 << 32) + count, (1usize << 62) + count, count | 1 << 63]);
    v.sort();
    v.dedup();
    v
}

/// One input against one collection under all interesting limits. `items` is what the bytes hold:
/// `None` if they are not a list, or some item is refused by its decoder.
fn check<T: Decode, C: Target<T>>(b: &[u8], items: &dyn Fn() -> Option<Vec<T>>, all: bool, rng: &mut Rng, o: &mut Obs) {
    let ctx = |max: Option<usize>| format!("{} limit {max:?} on {}", C::name(), clip(&hex(b), 600));
    let free = call::<T, C>(b, None);
    o.eval();
    let want = items().and_then(C::model);
    match (&free.result, &want) {
        (Err(p), _) => o.fail(
            format!("{}|panic|{}", C::name(), panic_signature(p)),
            format!("{}: {p}", ctx(None)),
        ),
        (Ok(Ok(got)), Some(w)) if got == w => o.count("accepted"),
        (Ok(Err(_)), None) => o.count("refused"),
        (Ok(r), None) => o.fail(
            format!("{}|accepted what it refuses", C::name()),
            format!("{}: {}", ctx(None), clip(&format!("{r:?}"), 600)),
        ),
        (Ok(r), Some(w)) => {
            let what = if b.is_empty() { "empty input is not the empty collection" } else { "not the items" };
            o.fail(
                format!("{}|{what}", C::name()),
                format!("{}: {} want {}", ctx(None), clip(&format!("{r:?}"), 600), clip(&format!("{w:?}"), 600)),
            )
        }
    }
    let count = announced(b);
    for max in limits(count.unwrap_or(3).min(1 << 31), rng, all) {
        o.eval();
        let got = call::<T, C>(b, Some(max));
        match (&got.result, count) {
            (Err(p), _) => o.fail(
                format!("{}|panic|{}", C::name(), panic_signature(p)),
                format!("{}: {p}", ctx(Some(max))),
            ),
            (Ok(r), Some(n)) if n > max => {
                o.count("over_the_limit");
                if r.is_ok() {
                    o.fail(format!("{}|limit not enforced", C::name()), format!("{}: {n} items", ctx(Some(max))));
                }
                if got.calls > 0 {
                    o.fail(
                        format!("{}|items decoded before the limit is enforced", C::name()),
                        format!("{}: {} of {n} items decoded", ctx(Some(max)), got.calls),
                    );
                }
                o.max("bytes_allocated_when_over", got.alloc.peak as u64);
                if got.alloc.peak > REFUSED_BYTES || got.alloc.largest > REFUSED_BYTES {
                    o.fail(
                        format!("{}|space allocated before the limit is enforced", C::name()),
                        format!("{}: {} bytes for {n} items", ctx(Some(max)), got.alloc.peak),
                    );
                }
            }
            (Ok(r), _) => {
                o.count("within_the_limit");
                if free.result.as_ref() != Ok(r) {
                    o.fail(
                        format!("{}|limit changes the result", C::name()),
                        format!("{}: {} without it {}", ctx(Some(max)), clip(&format!("{r:?}"), 600), clip(&format!("{:?}", free.result), 600)),
                    );
                }
            }
        }
    }
}

fn probes(b: &[u8]) -> Option<Vec<Probe>> {
    partition_list(b).ok()?.into_iter().map(|(s, e)| Probe::model(&b[s..e])).collect()
}
fn entries(b: &[u8]) -> Option<Vec<(Probe, Probe)>> {
    partition_list(b)
        .ok()?
        .into_iter()
        .map(|(s, e)| {
            let x = &b[s..e];
            let q = partition(&[None, None], x).ok()?;
            Some((Probe::model(&x[q[0].0..q[0].1])?, Probe::model(&x[q[1].0..q[1].1])?))
        })
        .collect()
}
/// Lists of lists of bytes: a real variable-size item of the library.
fn blobs(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    Some(partition_list(b).ok()?.into_iter().map(|(s, e)| b[s..e].to_vec()).collect())
}
type Checker = fn(&[u8], bool, &mut Rng, &mut Obs);

fn collections() -> Vec<(&'static str, Checker)> {
    macro_rules! c {
        ($($name:literal $item:ty, $c:ty, $items:ident;)*) => {
            vec![$( ($name, |b: &[u8], all: bool, rng: &mut Rng, o: &mut Obs| {
                check::<$item, $c>(b, &|| $items(b), all, rng, o)
            }) ),*]
        };
    }
    c! {
        "Vec" Probe, Vec<Probe>, probes;
        "SmallVec1" Probe, SmallVec<[Probe; 1]>, probes;
        "SmallVec8" Probe, SmallVec<[Probe; 8]>, probes;
        "BTreeSet" Probe, BTreeSet<Probe>, probes;
        "BTreeMap" (Probe, Probe), BTreeMap<Probe, Probe>, entries;
        "Bounded0" Probe, Bounded<Probe, 0>, probes;
        "Bounded1" Probe, Bounded<Probe, 1>, probes;
        "Bounded2" Probe, Bounded<Probe, 2>, probes;
        "Bounded5" Probe, Bounded<Probe, 5>, probes;
        "Bounded9" Probe, Bounded<Probe, 9>, probes;
        "BoundedLate0" Probe, BoundedLate<Probe, 0>, probes;
        "BoundedLate3" Probe, BoundedLate<Probe, 3>, probes;
        "BoundedLate8" Probe, BoundedLate<Probe, 8>, probes;
        "Never" Probe, Never, probes;
        "NeverLate" Probe, NeverLate, probes;
        "NonEmpty" Probe, NonEmpty<Probe>, probes;
        "Sorted" Probe, Sorted<Probe>, probes;
        "Vec of lists" Vec<u8>, Vec<Vec<u8>>, blobs;
        "Bounded4 of lists" Vec<u8>, Bounded<Vec<u8>, 4>, blobs;
        "Sorted entries" (Probe, Probe), Sorted<(Probe, Probe)>, entries;
    }
}

fn encode(items: &[Vec<u8>]) -> Vec<u8> {
    let mut b = vec![0; 4 * items.len()];
    for (i, x) in items.iter().enumerate() {
        let w = (b.len() as u32).to_le_bytes();
        b[4 * i..4 * i + 4].copy_from_slice(&w);
        b.extend_from_slice(x);
    }
    b
}

fn item(pairs: bool, rng: &mut Rng) -> Vec<u8> {
    let len = rng.below(5);
    let mut a = rng.bytes(len);
    if rng.chance(1, 2) {
        a = vec![rng.below(4) as u8; rng.below(3)];
    }
    if rng.chance(1, 25) {
        a.insert(0, 0xEE);
    } else if a.first() == Some(&0xEE) {
        a[0] = 0;
    }
    if !pairs {
        return a;
    }
    let k = item(false, rng);
    encode(&[k, a])
}

pub fn units(cfg: &Cfg, out: &mut Vec<Unit>) {
    for (name, f) in collections() {
        let pairs = name == "BTreeMap" || name == "Sorted entries";
        out.push(Unit::new(format!("{name}/lists"), cfg.cases(5_000, 20), move |c, rng, o| {
            let n = match rng.below(10) {
                0 => rng.range(10, 70),
                1 => 0,
                _ => rng.range(0, 11),
            };
            let mut items: Vec<Vec<u8>> = (0..n).map(|_| item(pairs, rng)).collect();
            if rng.chance(1, 3) {
                items.sort();
            }
            let mut b = encode(&items);
            if rng.chance(1, 3) && !b.is_empty() {
                // one step away
                let i = match rng.below(3) {
                    0 => rng.below(4),
                    1 => 4 * rng.below(n) + rng.below(4),
                    _ => rng.below(b.len()),
                };
                match rng.below(5) {
                    0 => b[i] = b[i].wrapping_add(1),
                    1 => b[i] = b[i].wrapping_sub(4),
                    2 => b[i] ^= 1 << rng.below(8),
                    3 => b.truncate(i),
                    _ => b.push(rng.u8()),
                }
                o.count("spoiled_lists");
            }
            f(&b, c % 4 == 0, rng, o);
            o.max("longest_list", n as u64);
            o.distinct(hash_bytes(&b, vcore::rng::fnv(name.as_bytes(), 0x60)));
            o.sample(|| format!("{name}: {} items, {}", n, clip(&hex(&b), 200)));
        }));
        out.push(Unit::new(format!("{name}/soup"), cfg.cases(3_000, 20), move |_, rng, o| {
            let b = offset_soup(rng, 60);
            f(&b, false, rng, o);
            o.distinct(hash_bytes(&b, vcore::rng::fnv(name.as_bytes(), 0x61)));
        }));
        out.push(Unit::new(format!("{name}/short"), 600, move |c, rng, o| {
            // Every input of at most one byte, then short ones around a first word.
            let b = match c {
                0 => vec![],
                1..=256 => vec![(c - 1) as u8],
                _ => {
                    let mut b = ((c as u32 - 257) / 8).to_le_bytes().to_vec();
                    b.resize((c as usize) % 8 * 4 + rng.below(2), 0);
                    b
                }
            };
            f(&b, true, rng, o);
            o.distinct(hash_bytes(&b, vcore::rng::fnv(name.as_bytes(), 0x62)));
        }));
        out.push(Unit::new(format!("{name}/long"), cfg.cases(3, 5), move |_, rng, o| {
            let n = rng.range(1000, 20_000);
            let items: Vec<Vec<u8>> = (0..n)
                .map(|i| {
                    let x = (i as u16).to_be_bytes().to_vec();
                    if pairs { encode(&[x, vec![1]]) } else { x }
                })
                .collect();
            let b = encode(&items);
            f(&b, false, rng, o);
            o.max("longest_list", n as u64);
            o.distinct(hash_bytes(&b, vcore::rng::fnv(name.as_bytes(), 0x63)));
        }));
    }
    // Gigabytes of announced items.
    out.push(Unit::new("huge announcements", 40, move |c, rng, o| {
        let Some(mut h) = Huge::new(1 << 32) else {
            o.count("huge_unavailable");
            return;
        };
        let words = [(1u32 << 31), u32::MAX - 3, 1 << 28, 1 << 20, 4 << 16];
        let w = words[c as usize % words.len()];
        h.bytes()[..4].copy_from_slice(&w.to_le_bytes());
        // Enough bytes for the table, or not.
        let len = match c / 5 % 4 {
            0 => w as usize,
            1 => 1 << 32,
            2 => w as usize / 2,
            _ => 64,
        };
        let b = &h.bytes()[..len];
        let n = w as usize / 4;
        for max in [0, 1, 1 << 10, n / 4, n / 2, n - 1, rng.below(n)] {
            huge_one::<Probe, Vec<Probe>>(b, n, max, o);
            huge_one::<Probe, SmallVec<[Probe; 8]>>(b, n, max, o);
            huge_one::<Probe, BTreeSet<Probe>>(b, n, max, o);
            huge_one::<(Probe, Probe), BTreeMap<Probe, Probe>>(b, n, max, o);
            huge_one::<Probe, Bounded<Probe, 5>>(b, n, max, o);
            huge_one::<Vec<u8>, Vec<Vec<u8>>>(b, n, max, o);
            huge_one::<Probe, Never>(b, n, max, o);
        }
        o.distinct(c);
        o.sample(|| format!("{n} items announced over {len} bytes"));
    }));
    // The public list types are the unlimited function.
    out.push(Unit::new("list types", cfg.cases(20_000, 20), |_, rng, o| {
        let b = if rng.chance(1, 3) {
            offset_soup(rng, 60)
        } else {
            let n = rng.below(12);
            let items: Vec<Vec<u8>> = (0..n).map(|_| item(false, rng)).collect();
            encode(&items)
        };
        let want = probes(&b);
        let mut one = |name: &str, got: Result<Option<Vec<Probe>>, String>, want: &Option<Vec<Probe>>| {
            o.eval();
            if got.as_ref() != Ok(want) {
                o.fail(format!("{name}::from_ssz_bytes|items"), format!("{}: {got:?} want {want:?}", hex(&b)));
            }
        };
        one("Vec", catch(|| Vec::<Probe>::from_ssz_bytes(&b).ok()), &want);
        one("SmallVec", catch(|| SmallVec::<[Probe; 4]>::from_ssz_bytes(&b).ok().map(|v| v.to_vec())), &want);
        let sorted = want.clone().map(|v| v.into_iter().collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>());
        one("BTreeSet", catch(|| BTreeSet::<Probe>::from_ssz_bytes(&b).ok().map(|v| v.into_iter().collect())), &sorted);
        o.distinct(hash_bytes(&b, 0x64));
    }));
}

fn huge_one<T: Decode, C: Target<T>>(b: &[u8], n: usize, max: usize, o: &mut Obs) {
    o.eval();
    o.count("huge_over_the_limit");
    let got = call::<T, C>(b, Some(max));
    let ctx = format!("{}: {n} items announced over {} bytes, limit {max}", C::name(), b.len());
    match &got.result {
        Err(p) => o.fail(format!("{}|panic|{}", C::name(), panic_signature(p)), format!("{ctx}: {p}")),
        Ok(Ok(_)) => o.fail(format!("{}|limit not enforced", C::name()), ctx.clone()),
        Ok(Err(_)) => {}
    }
    if got.calls > 0 {
        o.fail(format!("{}|items decoded before the limit is enforced", C::name()), format!("{ctx}: {} calls", got.calls));
    }
    if got.alloc.peak > REFUSED_BYTES || got.alloc.largest > REFUSED_BYTES {
        o.fail(format!("{}|space allocated before the limit is enforced", C::name()), format!("{ctx}: {} bytes", got.alloc.largest));
    }
}
