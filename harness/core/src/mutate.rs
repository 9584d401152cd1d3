//! Near-valid byte strings: structure-aware mutations of valid encodings and raw enumerations.
use crate::model::{Mark, MarkKind, OFFSET};
use crate::rng::Rng;

fn get_off(b: &[u8], pos: usize) -> u64 {
    let mut x = 0u64;
    for i in 0..OFFSET {
        x |= (b[pos + i] as u64) << (8 * i);
    }
    x
}
fn put_off(b: &mut [u8], pos: usize, v: u64) {
    for i in 0..OFFSET {
        b[pos + i] = (v >> (8 * i)) as u8;
    }
}

/// A name for what was done, for the evidence counters.
pub const KINDS: [&str; 22] = [
    "offset_perturbed",
    "offset_boundary",
    "offsets_swapped",
    "offset_high_byte",
    "gap_shifted",
    "gap_unshifted",
    "part_byte_removed",
    "trailing_byte",
    "truncated",
    "selector_replaced",
    "bool_replaced",
    "tag_replaced",
    "bit_tail",
    "legacy_selector",
    "byte_flip",
    "byte_set",
    "byte_inserted",
    "byte_deleted",
    "slice_copied",
    "random_bytes",
    "offset_equal_neighbour",
    "multi",
];

/// One mutation; returns the index into KINDS.
pub fn mutate_once(b: &mut Vec<u8>, marks: &[Mark], rng: &mut Rng) -> usize {
    let offs: Vec<&Mark> = marks
        .iter()
        .filter(|m| m.kind == MarkKind::Offset && m.pos + OFFSET <= b.len())
        .collect();
    for _ in 0..8 {
        let k = rng.below(21);
        match k {
            0 if !offs.is_empty() => {
                let m = **rng.pick(&offs);
                let d = *rng.pick(&[1i64, -1, 2, -2, 3, -3, 4, -4, 8, -8]);
                let v = get_off(b, m.pos) as i64 + d;
                put_off(b, m.pos, v as u64);
                return k;
            }
            1 if !offs.is_empty() => {
                let m = **rng.pick(&offs);
                let len = (m.end - m.base) as u64;
                let v = *rng.pick(&[
                    0,
                    1,
                    3,
                    4,
                    len.wrapping_sub(1),
                    len,
                    len + 1,
                    len + 4,
                    u32::MAX as u64,
                    1 << 31,
                    (1 << 31) - 1,
                    (m.pos - m.base) as u64,
                    (m.pos - m.base) as u64 + 4,
                    b.len() as u64,
                ]);
                put_off(b, m.pos, v);
                return k;
            }
            2 if offs.len() >= 2 => {
                let i = rng.below(offs.len() - 1);
                let (p, q) = (offs[i].pos, offs[i + 1].pos);
                let (x, y) = (get_off(b, p), get_off(b, q));
                put_off(b, p, y);
                put_off(b, q, x);
                if x == y {
                    put_off(b, q, x.wrapping_sub(1));
                }
                return k;
            }
            3 if !offs.is_empty() => {
                let m = **rng.pick(&offs);
                let i = rng.range(1, 3);
                b[m.pos + i] = b[m.pos + i].wrapping_add(*rng.pick(&[1u8, 0x80, 0xff]));
                return k;
            }
            4 | 5 if !offs.is_empty() => {
                // Insert bytes between the fixed and the variable part of one container; with
                // k == 4 every offset of that container is shifted accordingly.
                let m = **rng.pick(&offs);
                let first = offs
                    .iter()
                    .filter(|o| o.base == m.base)
                    .map(|o| get_off(b, o.pos))
                    .min()
                    .unwrap();
                let at = m.base + first as usize;
                if at > b.len() {
                    continue;
                }
                let n = *rng.pick(&[1usize, 1, 4, 4, 8, 3]);
                if k == 4 {
                    let same: Vec<usize> = offs
                        .iter()
                        .filter(|o| o.base == m.base)
                        .map(|o| o.pos)
                        .collect();
                    for p in same {
                        let v = get_off(b, p) + n as u64;
                        put_off(b, p, v);
                    }
                }
                let fill = rng.u8();
                for _ in 0..n {
                    b.insert(at, fill);
                }
                return k;
            }
            6 => {
                let parts: Vec<&Mark> = marks
                    .iter()
                    .filter(|m| m.kind == MarkKind::PartStart && m.pos < b.len())
                    .collect();
                if parts.is_empty() {
                    continue;
                }
                let p = rng.pick(&parts).pos;
                b.remove(p);
                return k;
            }
            7 => {
                let n = *rng.pick(&[1usize, 1, 1, 2, 3, 4, 8]);
                let v = *rng.pick(&[0u8, 0, 1, 0xff, 0x80]);
                for _ in 0..n {
                    b.push(v);
                }
                return k;
            }
            8 if !b.is_empty() => {
                let n = match rng.below(3) {
                    0 => b.len() - 1,
                    1 => b.len().saturating_sub(4),
                    _ => rng.below(b.len()),
                };
                b.truncate(n);
                return k;
            }
            9..=11 | 13 => {
                let want = match k {
                    9 => MarkKind::Selector,
                    10 => MarkKind::Bool,
                    11 => MarkKind::Tag,
                    _ => MarkKind::LegacySelector,
                };
                let c: Vec<&Mark> = marks
                    .iter()
                    .filter(|m| m.kind == want && m.pos < b.len())
                    .collect();
                if c.is_empty() {
                    continue;
                }
                let p = rng.pick(&c).pos;
                match k {
                    13 => {
                        let i = p + rng.below(4);
                        if i < b.len() {
                            b[i] = *rng.pick(&[0u8, 1, 2, 0xff, 0x80]);
                        }
                    }
                    _ => {
                        let cur = b[p];
                        b[p] = match rng.below(4) {
                            0 => cur.wrapping_add(1),
                            1 => cur ^ 0x80,
                            2 => *rng.pick(&[0u8, 1, 2, 3, 127, 128, 129, 254, 255]),
                            _ => rng.u8(),
                        };
                    }
                }
                return k;
            }
            12 => {
                let c: Vec<&Mark> = marks
                    .iter()
                    .filter(|m| m.kind == MarkKind::BitTail && m.pos < b.len())
                    .collect();
                if c.is_empty() {
                    continue;
                }
                let p = rng.pick(&c).pos;
                match rng.below(4) {
                    0 => b[p] ^= 1 << rng.below(8),
                    1 => b[p] = 0,
                    2 => b[p] |= 0x80,
                    _ => b[p] = rng.u8(),
                }
                return k;
            }
            14 if !b.is_empty() => {
                let i = rng.below(b.len());
                b[i] ^= 1 << rng.below(8);
                return k;
            }
            15 if !b.is_empty() => {
                let i = rng.below(b.len());
                b[i] = *rng.pick(&[0u8, 1, 2, 4, 8, 0x7f, 0x80, 0xff]);
                return k;
            }
            16 => {
                let i = rng.below(b.len() + 1);
                let v = *rng.pick(&[0u8, 1, 4, 0xff]);
                b.insert(i, v);
                return k;
            }
            17 if !b.is_empty() => {
                let i = rng.below(b.len());
                b.remove(i);
                return k;
            }
            18 if b.len() >= 2 => {
                let i = rng.below(b.len());
                let j = rng.below(b.len());
                let n = rng.range(1, 8).min(b.len() - i).min(b.len() - j);
                let s = b[i..i + n].to_vec();
                b[j..j + n].copy_from_slice(&s);
                return k;
            }
            19 => {
                if rng.chance(1, 6) {
                    let n = rng.below(40);
                    *b = rng.bytes(n);
                    return k;
                }
            }
            20 if offs.len() >= 2 => {
                let i = rng.below(offs.len() - 1);
                let (p, q) = if rng.chance(1, 2) {
                    (offs[i].pos, offs[i + 1].pos)
                } else {
                    (offs[i + 1].pos, offs[i].pos)
                };
                let y = get_off(b, q);
                put_off(b, p, y);
                return k;
            }
            _ => (),
        }
    }
    b.push(0);
    7
}

/// One to three mutations.
pub fn mutate(b: &mut Vec<u8>, marks: &[Mark], rng: &mut Rng) -> usize {
    let k = mutate_once(b, marks, rng);
    if rng.chance(1, 4) {
        mutate_once(b, marks, rng);
        if rng.chance(1, 3) {
            mutate_once(b, marks, rng);
        }
        21
    } else {
        k
    }
}

/// Random offset-table-like input: small little-endian words followed by small bytes.
pub fn offset_soup(rng: &mut Rng, max_len: usize) -> Vec<u8> {
    let len = rng.range(0, max_len);
    let mut b = vec![];
    let words = rng.below(len / 4 + 1);
    let base = 4 * rng.below(6) + rng.below(3) * rng.below(5);
    let mut cur = base as u32;
    for _ in 0..words {
        b.extend_from_slice(&cur.to_le_bytes());
        match rng.below(5) {
            0 => (),
            1 => cur = rng.below(len + 2) as u32,
            2 => cur = cur.wrapping_add(4),
            _ => cur = cur.wrapping_add(rng.below(4) as u32),
        }
    }
    while b.len() < len {
        b.push(*rng.pick(&[0u8, 0, 1, 1, 2, 4, 8, 12, 255, 7]));
    }
    b.truncate(len);
    b
}
