//! Value generation for a schema, biased towards the boundaries where codecs go wrong.
use crate::model::{Schema, Value};
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    /// every variable part as empty as it can be
    Empty,
    /// at most one item per list
    One,
    /// short lists, arbitrary mix
    Small,
    /// lists around the inline-capacity and power-of-two boundaries
    Medium,
    /// encodings above 64 KiB where the schema allows
    Large,
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub style: Style,
    /// Approximate number of bytes that may still be spent.
    pub budget: isize,
}

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, style: Style) -> Self {
        let budget = match style {
            Style::Empty => 0,
            Style::One => 256,
            Style::Small => 400,
            Style::Medium => 4000,
            Style::Large => 150_000,
        };
        Gen { rng, style, budget }
    }

    pub fn uint(&mut self, bytes: usize) -> Value {
        let bits = bytes * 8;
        let mask = |hi: u128, lo: u128| -> (u128, u128) {
            if bits >= 256 {
                (hi, lo)
            } else if bits > 128 {
                (hi & ((1u128 << (bits - 128)) - 1), lo)
            } else if bits == 128 {
                (0, lo)
            } else {
                (0, lo & ((1u128 << bits) - 1))
            }
        };
        let (hi, lo) = match self.rng.below(8) {
            0 => (0, 0),
            1 => (u128::MAX, u128::MAX),
            2 => (0, self.rng.below(300) as u128),
            3 => {
                // one set bit
                let b = self.rng.below(bits);
                if b < 128 {
                    (0, 1u128 << b)
                } else {
                    (1u128 << (b - 128), 0)
                }
            }
            4 => {
                // 2^k - 1
                let b = self.rng.below(bits.min(128));
                (0, (1u128 << b) - 1)
            }
            _ => {
                let r = |g: &mut Rng| ((g.u64() as u128) << 64) | g.u64() as u128;
                (r(self.rng), r(self.rng))
            }
        };
        let (hi, lo) = mask(hi, lo);
        Value::Uint(hi, lo)
    }

    /// Bytes with a pattern: runs of one byte with another one at an end or inside, few different
    /// bytes, short periods, things that look like selectors, offsets or encodings of their own.
    pub fn patterned(&mut self, n: usize) -> Vec<u8> {
        const B: [u8; 10] = [0, 1, 0, 1, 2, 4, 0x7f, 0x80, 0xfe, 0xff];
        let a = *self.rng.pick(&B);
        let b = *self.rng.pick(&B);
        let mut v = vec![a; n];
        if n == 0 {
            return v;
        }
        match self.rng.below(8) {
            0 => v[n - 1] = b,
            1 => v[0] = b,
            2 => {
                let i = self.rng.below(n);
                v[i] = b
            }
            3 => {
                let i = self.rng.below(n + 1);
                v[i..].fill(b)
            }
            4 => v.iter_mut().for_each(|x| *x = if self.rng.chance(1, 2) { a } else { b }),
            5 => {
                let p = self.rng.range(1, 9);
                let of = self.rng.bytes(p);
                v.iter_mut().enumerate().for_each(|(i, x)| *x = of[i % p])
            }
            6 => {
                // words: a count of bytes, an offset, a small number
                for (i, c) in v.chunks_mut(4).enumerate() {
                    let w = match self.rng.below(4) {
                        0 => n as u32,
                        1 => 4,
                        2 => 4 * (n as u32 / 4),
                        _ => i as u32,
                    };
                    let k = c.len();
                    c.copy_from_slice(&w.to_le_bytes()[..k]);
                }
            }
            _ => {
                let up = self.rng.chance(1, 2);
                v.iter_mut().enumerate().for_each(|(i, x)| *x = if up { i as u8 } else { (n - 1 - i) as u8 })
            }
        }
        v
    }

    /// How many items a list should get when an item costs about `cost` bytes.
    fn list_len(&mut self, cost: usize) -> usize {
        let cost = cost.max(1);
        let cap = (self.budget.max(0) as usize) / cost;
        let n = match self.style {
            Style::Empty => 0,
            Style::One => self.rng.below(2),
            Style::Small => self.rng.below(6),
            Style::Medium => {
                const B: [usize; 18] = [
                    0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 130,
                ];
                *self.rng.pick(&B)
            }
            Style::Large => match self.rng.below(4) {
                0 => self.rng.below(4),
                1 => self.rng.range(250, 300),
                2 => self.rng.below(40),
                _ => 1 + cap / 2,
            },
        };
        n.min(cap.max(matches!(self.style, Style::One | Style::Small) as usize))
    }

    pub fn bits(&mut self, n: usize) -> Vec<bool> {
        let mut v = vec![false; n];
        match self.rng.below(6) {
            0 => (),
            1 => v.iter_mut().for_each(|b| *b = true),
            2 => {
                if n > 0 {
                    let i = self.rng.below(n);
                    v[i] = true
                }
            }
            3 => {
                if n > 0 {
                    v[n - 1] = true
                }
            }
            _ => {
                let r = self.rng.bytes(n / 8 + 1);
                for (i, b) in v.iter_mut().enumerate() {
                    *b = (r[i / 8] >> (i % 8)) & 1 == 1;
                }
            }
        }
        v
    }

    fn bit_len(&mut self, max: usize) -> usize {
        let max = max.min(70_000);
        match self.style {
            Style::Empty => 0,
            _ => match self.rng.below(6) {
                0 => max,
                1 => 0,
                2 => {
                    let n = 8 * self.rng.range(0, max / 8);
                    match self.rng.below(3) {
                        0 => n.min(max),
                        1 => (n + 1).min(max),
                        _ => n.saturating_sub(1),
                    }
                }
                _ => self.rng.range(0, max.min(if self.style == Style::Large { max } else { 2100 })),
            },
        }
    }

    pub fn value(&mut self, s: &Schema) -> Value {
        match s {
            Schema::Uint(n) => {
                self.budget -= *n as isize;
                self.uint(*n)
            }
            Schema::NonZero(n) => {
                self.budget -= *n as isize;
                match self.uint(*n) {
                    Value::Uint(0, 0) => Value::u(1),
                    v => v,
                }
            }
            Schema::Bool => Value::Bool(self.rng.chance(1, 2)),
            Schema::ByteVec(n) => {
                self.budget -= *n as isize;
                let b = match self.rng.below(6) {
                    0 => vec![0u8; *n],
                    1 => vec![0xff; *n],
                    2 | 3 => self.patterned(*n),
                    _ => self.rng.bytes(*n),
                };
                Value::Bytes(b)
            }
            Schema::ByteList => {
                let n = self.list_len(1);
                self.budget -= n as isize;
                Value::Bytes(if self.rng.chance(1, 2) { self.patterned(n) } else { self.rng.bytes(n) })
            }
            Schema::List(i) => {
                if i.fixed() == Some(0) {
                    return Value::Seq(vec![]);
                }
                let n = self.list_len(min_cost(i));
                Value::Seq(self.items(i, n))
            }
            Schema::Set(i) if i.fixed() == Some(0) => Value::Seq(vec![]),
            Schema::Map(k, v) if k.fixed() == Some(0) && v.fixed() == Some(0) => Value::Seq(vec![]),
            Schema::Set(i) => {
                let n = self.list_len(min_cost(i));
                let mut items = self.items(i, n);
                items.sort();
                items.dedup();
                Value::Seq(items)
            }
            Schema::Map(k, v) => {
                let n = self.list_len(min_cost(k) + min_cost(v));
                let mut keys = self.items(k, n);
                keys.sort();
                keys.dedup();
                let out = keys
                    .into_iter()
                    .map(|k| Value::Seq(vec![k, self.value(v)]))
                    .collect();
                Value::Seq(out)
            }
            Schema::Container(fs) => {
                // Vary which of the variable fields are empty: save and restore the style.
                let style = self.style;
                let mut out = Vec::with_capacity(fs.len());
                for f in fs {
                    if f.fixed().is_none() && style != Style::Empty {
                        if self.rng.chance(1, 3) {
                            self.style = Style::Empty;
                        }
                    }
                    out.push(self.value(f));
                    self.style = style;
                }
                Value::Seq(out)
            }
            Schema::Union(vs) => {
                self.budget -= 1;
                let sel = match self.rng.below(4) {
                    0 => 0,
                    1 => vs.len() - 1,
                    _ => self.rng.below(vs.len()),
                };
                Value::Union(sel, vs[sel].as_ref().map(|s| Box::new(self.value(s))))
            }
            Schema::Tag(n) => Value::Tag(match self.rng.below(4) {
                0 => n - 1,
                _ => self.rng.below(*n),
            }),
            Schema::BitVector(n) => {
                self.budget -= (*n / 8 + 1) as isize;
                Value::Bits(self.bits(*n))
            }
            Schema::BitList(n) => {
                let l = self.bit_len(*n);
                self.budget -= (l / 8 + 1) as isize;
                Value::Bits(self.bits(l))
            }
            Schema::BitDyn => {
                let l = match self.style {
                    Style::Empty => 1,
                    Style::Large => self.rng.range(1, 4000),
                    _ => *self.rng.pick(&[1usize, 2, 3, 8, 127, 128, 129, 140]),
                };
                self.budget -= l as isize;
                Value::Bits(self.bits(8 * l))
            }
            Schema::Legacy(i) => {
                self.budget -= 4;
                if self.style == Style::Empty || self.rng.chance(1, 3) {
                    Value::Union(0, None)
                } else {
                    Value::Union(1, Some(Box::new(self.value(i))))
                }
            }
            Schema::TransEnum(vs) => {
                let sel = self.rng.below(vs.len());
                Value::Union(sel, Some(Box::new(self.value(&vs[sel]))))
            }
        }
    }

    fn items(&mut self, s: &Schema, n: usize) -> Vec<Value> {
        let total = self.budget;
        let share = if n == 0 { 0 } else { total / n as isize };
        let style = self.style;
        let mut out = Vec::with_capacity(n);
        let mut left = total;
        let mut first = 0;
        for k in 0..n {
            // Let one item have most of the budget now and then, so that sizes are uneven.
            let b = if self.rng.chance(1, 8) { left / 2 } else { share };
            if style == Style::Large && n > 20 {
                self.style = Style::Medium;
            }
            if s.fixed().is_none() && self.rng.chance(1, 5) {
                self.style = Style::Empty;
            }
            self.budget = b;
            out.push(self.value(s));
            let spent = (b - self.budget).max(1);
            if k == 0 {
                first = spent;
            }
            left -= spent;
            self.style = style;
        }
        self.budget = left;
        // Now and then the same item again and again, with or without one of its own.
        if n > 1 && first.saturating_mul(n as isize) <= total && self.rng.chance(1, 8) {
            let a = out[0].clone();
            let at = match self.rng.below(4) {
                0 => n,
                1 => 0,
                2 => n - 1,
                _ => self.rng.below(n),
            };
            for (i, x) in out.iter_mut().enumerate() {
                if i != at || at == 0 {
                    *x = a.clone();
                }
            }
            if at == 0 {
                self.budget = first;
                out[0] = self.value(s);
            }
            self.budget = total - first * n as isize;
        }
        out
    }
}

fn min_cost(s: &Schema) -> usize {
    s.fixed().unwrap_or(5).max(1)
}

/// The style of the k-th value of a unit: deterministic cycle with rare large ones.
pub fn style_for(case: u64) -> Style {
    match case % 64 {
        0 => Style::Empty,
        63 => Style::Large,
        k if k % 8 == 1 => Style::One,
        k if k % 4 == 2 => Style::Medium,
        _ => Style::Small,
    }
}

pub fn gen_value(s: &Schema, rng: &mut Rng, style: Style) -> Value {
    Gen::new(rng, style).value(s)
}
