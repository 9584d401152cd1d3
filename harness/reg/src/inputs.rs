//! Byte strings offered to the decoders.
use crate::ops::TypeOps;
use vcore::gen::{gen_value, style_for, Style};
use vcore::model::{ser_marks, Schema, Value};
use vcore::mutate::{mutate, offset_soup, KINDS};
use vcore::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// every byte string of at most two bytes; the case number is the first byte (256: shorter)
    Exhaustive2,
    /// a valid encoding and mutations of it
    Near,
    /// random offset-table-like strings, and strings over a small alphabet
    Soup,
    /// every truncation, and extensions, of a valid encoding
    Lens,
}

pub const KINDS_ALL: [Kind; 4] = [Kind::Exhaustive2, Kind::Near, Kind::Soup, Kind::Lens];

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Exhaustive2 => "exh2",
            Kind::Near => "near",
            Kind::Soup => "soup",
            Kind::Lens => "lens",
        }
    }
}

/// Where an input came from, for the counters.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Src {
    Short,
    Valid,
    Mutated(usize),
    Soup,
    Resized,
}
impl Src {
    pub fn label(self) -> &'static str {
        match self {
            Src::Short => "in_short",
            Src::Valid => "in_valid",
            Src::Mutated(k) => KINDS[k],
            Src::Soup => "in_soup",
            Src::Resized => "in_resized",
        }
    }
}

/// Largest fixed size occurring in a schema, to choose sensible soup lengths.
fn soup_len(s: &Schema) -> usize {
    match s.fixed() {
        Some(n) => n + 4,
        None => match s {
            Schema::Container(f) => f.iter().map(|f| f.fixed_part_len()).sum::<usize>() + 24,
            Schema::List(i) | Schema::Set(i) => 3 * i.fixed_part_len() + 24,
            Schema::Map(k, v) => 3 * (k.fixed_part_len() + v.fixed_part_len()) + 24,
            _ => 40,
        },
    }
}

/// Whether some valid encoding has one or two bytes, so that enumerating such strings tells much.
fn short_encodings(s: &Schema) -> bool {
    fn min_len(s: &Schema) -> usize {
        match s.fixed() {
            Some(n) => n,
            None => match s {
                Schema::Container(f) => f.iter().map(|f| f.fixed_part_len() + if f.fixed().is_some() { 0 } else { min_len(f) }).sum(),
                Schema::Union(v) => 1 + v.iter().map(|s| s.as_ref().map_or(0, min_len)).min().unwrap_or(0),
                Schema::BitList(_) | Schema::BitDyn => 1,
                Schema::Legacy(_) => 4,
                Schema::TransEnum(v) => v.iter().map(min_len).min().unwrap_or(0),
                _ => 0,
            },
        }
    }
    match s {
        Schema::List(i) | Schema::Set(i) => i.fixed().is_some_and(|n| n <= 2),
        Schema::Map(k, v) => matches!((k.fixed(), v.fixed()), (Some(a), Some(b)) if a + b <= 2),
        _ => min_len(s) <= 2,
    }
}

/// Number of cases of the `Exhaustive2` kind: all strings of at most two bytes where such strings
/// can be valid, all of at most one byte and a sixteenth of the others elsewhere.
pub fn exhaustive2_cases(s: &Schema) -> u64 {
    if short_encodings(s) {
        257
    } else {
        17
    }
}

/// Strings over an alphabet of small offsets and markers.
fn alphabet(rng: &mut Rng, max: usize) -> Vec<u8> {
    const A: [u8; 10] = [0, 0, 0, 1, 1, 2, 4, 5, 8, 255];
    let n = rng.range(0, max);
    (0..n).map(|_| *rng.pick(&A)).collect()
}

/// A valid-shaped offset table for the schema at the top level, with random offsets.
fn top_table(s: &Schema, rng: &mut Rng) -> Vec<u8> {
    let parts: Vec<Option<usize>> = match s {
        Schema::Container(f) => f.iter().map(|f| f.fixed()).collect(),
        Schema::List(i) | Schema::Set(i) if i.fixed().is_none() => vec![None; rng.range(1, 5)],
        Schema::Union(v) => {
            let sel = rng.below(v.len() + 1);
            let mut b = vec![sel as u8];
            if let Some(Some(s)) = v.get(sel) {
                b.extend(top_table(s, rng));
            }
            return b;
        }
        _ => return offset_soup(rng, soup_len(s)),
    };
    let fixed: usize = parts.iter().map(|p| p.unwrap_or(4)).sum();
    let tail = rng.below(20);
    let mut out = vec![];
    let mut cur = fixed;
    let mut first = true;
    for p in parts {
        match p {
            Some(n) => out.extend((0..n).map(|_| *rng.pick(&[0u8, 1, 1, 2, 255]))),
            None => {
                if !first {
                    match rng.below(8) {
                        0 => cur = rng.below(fixed + tail + 2),
                        1 => (),
                        _ => cur += rng.below(1 + tail / 2),
                    }
                } else if rng.chance(1, 8) {
                    cur = (cur + rng.below(5)).saturating_sub(2);
                }
                first = false;
                out.extend_from_slice(&(cur as u32).to_le_bytes());
            }
        }
    }
    for _ in 0..tail {
        out.push(*rng.pick(&[0u8, 1, 1, 2, 4, 8, 0x80, 255]));
    }
    out
}

pub fn each_input(
    t: &TypeOps,
    kind: Kind,
    case: u64,
    rng: &mut Rng,
    f: &mut dyn FnMut(&[u8], Src),
) {
    each_input_of(&t.schema, kind, case, rng, f)
}

pub fn each_input_of(
    s: &Schema,
    kind: Kind,
    case: u64,
    rng: &mut Rng,
    f: &mut dyn FnMut(&[u8], Src),
) {
    match kind {
        Kind::Exhaustive2 => {
            let n = exhaustive2_cases(s);
            if case == n - 1 {
                f(&[], Src::Short);
                for x in 0..=255u8 {
                    f(&[x], Src::Short);
                }
            } else {
                let x = if n == 257 { case } else { case * case } as u8;
                for y in 0..=255u8 {
                    f(&[x, y], Src::Short);
                }
            }
        }
        Kind::Near => {
            let style = style_for(case);
            let v = gen_value(s, rng, style);
            let (bytes, marks) = ser_marks(s, &v);
            f(&bytes, Src::Valid);
            let n = match bytes.len() {
                0..=300 => 10,
                301..=5000 => 5,
                _ => 3,
            };
            for _ in 0..n {
                let mut b = bytes.clone();
                let k = mutate(&mut b, &marks, rng);
                f(&b, Src::Mutated(k));
            }
        }
        Kind::Soup => {
            let m = soup_len(s);
            for _ in 0..6 {
                let b = match rng.below(4) {
                    0 => alphabet(rng, m.min(40)),
                    1 => offset_soup(rng, m),
                    _ => top_table(s, rng),
                };
                f(&b, Src::Soup);
            }
        }
        Kind::Lens => {
            let style = if case % 4 == 0 { Style::One } else { Style::Small };
            let v: Value = gen_value(s, rng, style);
            let (bytes, _) = ser_marks(s, &v);
            f(&bytes, Src::Valid);
            let cut = bytes.len().min(600);
            for n in 0..cut {
                f(&bytes[..n], Src::Resized);
            }
            let mut b = bytes.clone();
            for i in 0..12u64 {
                b.push(match case % 3 {
                    0 => 0,
                    1 => rng.u8(),
                    _ => (i + 1) as u8,
                });
                f(&b, Src::Resized);
            }
            // twice the encoding, as a lenient fixed-size decoder might accept
            let mut b = bytes.clone();
            b.extend_from_slice(&bytes);
            f(&b, Src::Resized);
            // extensions that a length kept in fewer bits would not notice
            for (k, n) in [16usize, 32, 64, 128, 256, 512, 1024, 4096, 65536].into_iter().enumerate() {
                if n > 4096 && case % 8 != 1 || n > 64 && case % 2 == 0 {
                    continue;
                }
                let mut b = bytes.clone();
                let fill = if (case as usize + k) % 2 == 0 { 0 } else { 1 };
                b.resize(bytes.len() + n, fill);
                f(&b, Src::Resized);
            }
        }
    }
}
