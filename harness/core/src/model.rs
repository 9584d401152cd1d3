//! The reference SSZ codec: an interpreter of `Schema` written from the SSZ specification
//! (consensus-specs/ssz/simple-serialize.md). It is the oracle for C01..C04, C07, C08, C10,
//! C15, C17 and C19.

/// An SSZ schema. Library-specific types are mapped as their documentation says.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Schema {
    /// uintN, by number of bytes (1, 2, 4, 8, 16, 32).
    Uint(usize),
    /// uintN which may not be zero.
    NonZero(usize),
    Bool,
    /// Vector[byte, N]
    ByteVec(usize),
    /// List[byte]
    ByteList,
    List(Box<Schema>),
    Container(Vec<Schema>),
    /// Union; `None` is the null variant.
    Union(Vec<Option<Schema>>),
    /// uint8 restricted to 0..n
    Tag(usize),
    BitVector(usize),
    BitList(usize),
    /// Bitvector whose length is the input length (positive multiple of 8).
    BitDyn,
    /// List of (key, value) containers, ascending.
    Map(Box<Schema>, Box<Schema>),
    /// List of keys, ascending.
    Set(Box<Schema>),
    /// Four-byte selector option.
    Legacy(Box<Schema>),
    /// "transparent" enum: encodes as the inner value, decodes to the first that accepts.
    TransEnum(Vec<Schema>),
}

/// A value of some schema. The derived order is the order of the Rust key types.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Value {
    /// (high 128 bits, low 128 bits)
    Uint(u128, u128),
    Bool(bool),
    /// Vector[byte, N] and List[byte]
    Bytes(Vec<u8>),
    /// lists, containers, sets; maps are sequences of two-element sequences
    Seq(Vec<Value>),
    /// unions, options, legacy options, transparent enums: selector and body
    Union(usize, Option<Box<Value>>),
    Tag(usize),
    Bits(Vec<bool>),
}

pub const OFFSET: usize = 4;

/// Why the reference decoder rejects. Only used in reports, never compared with the library.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Reject(pub &'static str);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MarkKind {
    /// A 4-byte offset word; `base` is where its container starts, `end` where it ends.
    Offset,
    Selector,
    Bool,
    Tag,
    /// The last byte of a bitfield.
    BitTail,
    LegacySelector,
    /// Start of a variable part.
    PartStart,
}

#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub pos: usize,
    pub base: usize,
    pub end: usize,
    pub kind: MarkKind,
}

impl Schema {
    /// Size of the fixed-size encoding, `None` when variable-size.
    pub fn fixed(&self) -> Option<usize> {
        match self {
            Schema::Uint(n) | Schema::NonZero(n) | Schema::ByteVec(n) => Some(*n),
            Schema::Bool | Schema::Tag(_) => Some(1),
            Schema::BitVector(n) => Some(core::cmp::max(1, (*n + 7) / 8)),
            Schema::Container(fields) => {
                let mut sum = 0;
                for f in fields {
                    sum += f.fixed()?;
                }
                Some(sum)
            }
            Schema::ByteList
            | Schema::List(_)
            | Schema::Union(_)
            | Schema::BitList(_)
            | Schema::BitDyn
            | Schema::Map(..)
            | Schema::Set(_)
            | Schema::Legacy(_)
            | Schema::TransEnum(_) => None,
        }
    }

    pub fn fixed_part_len(&self) -> usize {
        self.fixed().unwrap_or(OFFSET)
    }

    fn any(&self, p: &dyn Fn(&Schema) -> bool) -> bool {
        p(self)
            || match self {
                Schema::List(s) | Schema::Set(s) | Schema::Legacy(s) => s.any(p),
                Schema::Map(k, v) => k.any(p) || v.any(p),
                Schema::Container(fs) | Schema::TransEnum(fs) => fs.iter().any(|f| f.any(p)),
                Schema::Union(vs) => vs.iter().any(|v| v.as_ref().is_some_and(|v| v.any(p))),
                _ => false,
            }
    }
    pub fn has_map(&self) -> bool {
        self.any(&|s| matches!(s, Schema::Map(..) | Schema::Set(_)))
    }
    pub fn has_trans_enum(&self) -> bool {
        self.any(&|s| matches!(s, Schema::TransEnum(_)))
    }
    /// Contains a list whose items have zero encoded length (illegal in SSZ).
    pub fn has_zero_list(&self) -> bool {
        self.any(&|s| match s {
            Schema::List(i) | Schema::Set(i) => i.fixed() == Some(0),
            Schema::Map(k, v) => k.fixed() == Some(0) && v.fixed() == Some(0),
            _ => false,
        })
    }
    pub fn has_offsets(&self) -> bool {
        self.any(&|s| match s {
            Schema::List(i) | Schema::Set(i) => i.fixed().is_none(),
            Schema::Container(f) => f.iter().any(|f| f.fixed().is_none()),
            Schema::Map(k, v) => k.fixed().is_none() || v.fixed().is_none(),
            _ => false,
        })
    }

    pub fn describe(&self) -> String {
        match self {
            Schema::Uint(n) => format!("uint{}", n * 8),
            Schema::NonZero(n) => format!("nonzero-uint{}", n * 8),
            Schema::Bool => "bool".into(),
            Schema::ByteVec(n) => format!("Vector[byte,{n}]"),
            Schema::ByteList => "List[byte]".into(),
            Schema::List(s) => format!("List[{}]", s.describe()),
            Schema::Container(f) => format!(
                "Container[{}]",
                f.iter().map(|s| s.describe()).collect::<Vec<_>>().join(",")
            ),
            Schema::Union(v) => format!(
                "Union[{}]",
                v.iter()
                    .map(|s| s.as_ref().map_or("None".into(), |s| s.describe()))
                    .collect::<Vec<_>>()
                    .join(",")
            ),
            Schema::Tag(n) => format!("tag{n}"),
            Schema::BitVector(n) => format!("Bitvector[{n}]"),
            Schema::BitList(n) => format!("Bitlist[{n}]"),
            Schema::BitDyn => "BitvectorDyn".into(),
            Schema::Map(k, v) => format!("Map[{},{}]", k.describe(), v.describe()),
            Schema::Set(s) => format!("Set[{}]", s.describe()),
            Schema::Legacy(s) => format!("LegacyOption[{}]", s.describe()),
            Schema::TransEnum(v) => format!(
                "TransEnum[{}]",
                v.iter().map(|s| s.describe()).collect::<Vec<_>>().join(",")
            ),
        }
    }
}

impl Value {
    pub fn u(x: u64) -> Value {
        Value::Uint(0, x as u128)
    }
}

// ------------------------------------------------------------------------------------------
// serialize

pub fn ser(s: &Schema, v: &Value) -> Vec<u8> {
    let mut out = vec![];
    ser_into(s, v, &mut out, &mut None);
    out
}

pub fn ser_marks(s: &Schema, v: &Value) -> (Vec<u8>, Vec<Mark>) {
    let mut out = vec![];
    let mut marks = Some(vec![]);
    ser_into(s, v, &mut out, &mut marks);
    (out, marks.unwrap())
}

fn le_uint(n: usize, hi: u128, lo: u128, out: &mut Vec<u8>) {
    for i in 0..n {
        let b = if i < 16 {
            (lo >> (8 * i)) & 0xff
        } else {
            (hi >> (8 * (i - 16))) & 0xff
        };
        out.push(b as u8);
    }
}

pub fn pack_bits(bits: &[bool], delimiter: bool) -> Vec<u8> {
    let n = bits.len() + delimiter as usize;
    let mut out = vec![0u8; core::cmp::max(1, (n + 7) / 8)];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            out[i / 8] |= 1 << (i % 8);
        }
    }
    if delimiter {
        out[bits.len() / 8] |= 1 << (bits.len() % 8);
    }
    out
}

/// Fixed parts / offsets first, then the variable parts; offsets relative to `out.len()` on entry.
fn ser_parts<'a>(
    items: impl Iterator<Item = (&'a Schema, &'a Value)> + Clone,
    out: &mut Vec<u8>,
    marks: &mut Option<Vec<Mark>>,
) {
    let base = out.len();
    let mut pending: Vec<(usize, &Schema, &Value)> = vec![];
    for (s, v) in items {
        if s.fixed().is_some() {
            ser_into(s, v, out, marks);
        } else {
            pending.push((out.len(), s, v));
            out.extend_from_slice(&[0; OFFSET]);
        }
    }
    let first_mark = marks.as_ref().map_or(0, |m| m.len());
    for (pos, s, v) in &pending {
        let off = (out.len() - base) as u64;
        assert!(off < 1 << 32, "model: encoding too long");
        for i in 0..OFFSET {
            out[pos + i] = (off >> (8 * i)) as u8;
        }
        if let Some(m) = marks {
            m.push(Mark {
                pos: *pos,
                base,
                end: 0,
                kind: MarkKind::Offset,
            });
            m.push(Mark {
                pos: out.len(),
                base,
                end: 0,
                kind: MarkKind::PartStart,
            });
        }
        ser_into(s, v, out, marks);
    }
    let end = out.len();
    if let Some(m) = marks {
        for k in &mut m[first_mark..] {
            if k.base == base && k.end == 0 {
                k.end = end;
            }
        }
    }
}

fn mark(marks: &mut Option<Vec<Mark>>, pos: usize, kind: MarkKind) {
    if let Some(m) = marks {
        m.push(Mark {
            pos,
            base: pos,
            end: pos + 1,
            kind,
        });
    }
}

fn bad(s: &Schema, v: &Value) -> ! {
    panic!("model: value {v:?} does not fit schema {}", s.describe())
}

fn ser_into(s: &Schema, v: &Value, out: &mut Vec<u8>, marks: &mut Option<Vec<Mark>>) {
    match (s, v) {
        (Schema::Uint(n) | Schema::NonZero(n), Value::Uint(hi, lo)) => le_uint(*n, *hi, *lo, out),
        (Schema::Bool, Value::Bool(b)) => {
            mark(marks, out.len(), MarkKind::Bool);
            out.push(if *b { 1 } else { 0 });
        }
        (Schema::ByteVec(n), Value::Bytes(b)) if b.len() == *n => out.extend_from_slice(b),
        (Schema::ByteList, Value::Bytes(b)) => out.extend_from_slice(b),
        (Schema::List(i) | Schema::Set(i), Value::Seq(items)) => {
            ser_parts(items.iter().map(|v| (&**i, v)), out, marks)
        }
        (Schema::Map(k, val), Value::Seq(items)) => {
            let entry = Schema::Container(vec![(**k).clone(), (**val).clone()]);
            ser_parts(items.iter().map(|v| (&entry, v)), out, marks)
        }
        (Schema::Container(fs), Value::Seq(vs)) if fs.len() == vs.len() => {
            ser_parts(fs.iter().zip(vs.iter()), out, marks)
        }
        (Schema::Union(vs), Value::Union(sel, body)) if *sel < vs.len() => {
            mark(marks, out.len(), MarkKind::Selector);
            out.push(*sel as u8);
            match (&vs[*sel], body) {
                (None, None) => (),
                (Some(s), Some(v)) => ser_into(s, v, out, marks),
                _ => bad(s, v),
            }
        }
        (Schema::Tag(n), Value::Tag(t)) if t < n => {
            mark(marks, out.len(), MarkKind::Tag);
            out.push(*t as u8)
        }
        (Schema::BitVector(n), Value::Bits(b)) if b.len() == *n => {
            out.extend(pack_bits(b, false));
            mark(marks, out.len() - 1, MarkKind::BitTail);
        }
        (Schema::BitList(n), Value::Bits(b)) if b.len() <= *n => {
            out.extend(pack_bits(b, true));
            mark(marks, out.len() - 1, MarkKind::BitTail);
        }
        (Schema::BitDyn, Value::Bits(b)) if !b.is_empty() && b.len() % 8 == 0 => {
            out.extend(pack_bits(b, false));
            mark(marks, out.len() - 1, MarkKind::BitTail);
        }
        (Schema::Legacy(i), Value::Union(sel, body)) => {
            mark(marks, out.len(), MarkKind::LegacySelector);
            out.extend_from_slice(&[*sel as u8, 0, 0, 0]);
            match (sel, body) {
                (0, None) => (),
                (1, Some(v)) => ser_into(i, v, out, marks),
                _ => bad(s, v),
            }
        }
        (Schema::TransEnum(vs), Value::Union(sel, Some(v))) => ser_into(&vs[*sel], v, out, marks),
        _ => bad(s, v),
    }
}

// ------------------------------------------------------------------------------------------
// deserialize (strict)

pub fn de(s: &Schema, b: &[u8]) -> Result<Value, Reject> {
    if let Some(n) = s.fixed() {
        if b.len() != n {
            return Err(Reject("wrong length for a fixed-size type"));
        }
    }
    match s {
        Schema::Uint(n) => Ok(de_uint(*n, b)),
        Schema::NonZero(n) => match de_uint(*n, b) {
            Value::Uint(0, 0) => Err(Reject("zero")),
            v => Ok(v),
        },
        Schema::Bool => match b[0] {
            0 => Ok(Value::Bool(false)),
            1 => Ok(Value::Bool(true)),
            _ => Err(Reject("bool not 0 or 1")),
        },
        Schema::ByteVec(_) | Schema::ByteList => Ok(Value::Bytes(b.to_vec())),
        Schema::List(i) => de_list(i, b).map(Value::Seq),
        Schema::Set(i) => {
            let mut items = de_list(i, b)?;
            // collection of the listed entries: ascending, unique
            items.sort();
            items.dedup();
            Ok(Value::Seq(items))
        }
        Schema::Map(k, v) => {
            let entry = Schema::Container(vec![(**k).clone(), (**v).clone()]);
            let mut map = std::collections::BTreeMap::new();
            for e in de_list(&entry, b)? {
                match e {
                    Value::Seq(mut kv) => {
                        let v = kv.pop().unwrap();
                        let k = kv.pop().unwrap();
                        map.insert(k, v); // a later duplicate replaces an earlier one
                    }
                    _ => unreachable!(),
                }
            }
            Ok(Value::Seq(
                map.into_iter().map(|(k, v)| Value::Seq(vec![k, v])).collect(),
            ))
        }
        Schema::Container(fs) => {
            let lens: Vec<Option<usize>> = fs.iter().map(|f| f.fixed()).collect();
            let parts = partition(&lens, b)?;
            let mut out = Vec::with_capacity(fs.len());
            for (f, r) in fs.iter().zip(parts) {
                out.push(de(f, &b[r.0..r.1])?);
            }
            Ok(Value::Seq(out))
        }
        Schema::Union(vs) => {
            let sel = *b.first().ok_or(Reject("empty union"))? as usize;
            if sel > 127 || sel >= vs.len() {
                return Err(Reject("selector names no variant"));
            }
            match &vs[sel] {
                None if b.len() == 1 => Ok(Value::Union(sel, None)),
                None => Err(Reject("body after the null variant")),
                Some(s) => Ok(Value::Union(sel, Some(Box::new(de(s, &b[1..])?)))),
            }
        }
        Schema::Tag(n) => {
            if (b[0] as usize) < *n {
                Ok(Value::Tag(b[0] as usize))
            } else {
                Err(Reject("tag names no variant"))
            }
        }
        Schema::BitVector(n) => de_bits(b, *n).map(Value::Bits),
        Schema::BitList(n) => {
            let last = *b.last().ok_or(Reject("empty bitlist"))?;
            if last == 0 {
                return Err(Reject("bitlist without delimiter in its last byte"));
            }
            let len = (b.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
            if len > *n {
                return Err(Reject("bitlist longer than its capacity"));
            }
            let all = unpack(b);
            Ok(Value::Bits(all[..len].to_vec()))
        }
        Schema::BitDyn => {
            if b.is_empty() {
                Err(Reject("empty dynamic bitvector"))
            } else {
                Ok(Value::Bits(unpack(b)))
            }
        }
        Schema::Legacy(i) => {
            if b.len() < 4 {
                return Err(Reject("legacy option shorter than its selector"));
            }
            match (&b[..4], b.len()) {
                ([0, 0, 0, 0], 4) => Ok(Value::Union(0, None)),
                ([0, 0, 0, 0], _) => Err(Reject("body after legacy None")),
                ([1, 0, 0, 0], _) => Ok(Value::Union(1, Some(Box::new(de(i, &b[4..])?)))),
                _ => Err(Reject("legacy selector not 0 or 1")),
            }
        }
        Schema::TransEnum(vs) => {
            for (i, s) in vs.iter().enumerate() {
                if let Ok(v) = de(s, b) {
                    return Ok(Value::Union(i, Some(Box::new(v))));
                }
            }
            Err(Reject("no variant accepts"))
        }
    }
}

fn de_uint(n: usize, b: &[u8]) -> Value {
    let (mut hi, mut lo) = (0u128, 0u128);
    for i in 0..n {
        if i < 16 {
            lo |= (b[i] as u128) << (8 * i);
        } else {
            hi |= (b[i] as u128) << (8 * (i - 16));
        }
    }
    Value::Uint(hi, lo)
}

pub fn unpack(b: &[u8]) -> Vec<bool> {
    (0..b.len() * 8).map(|i| (b[i / 8] >> (i % 8)) & 1 == 1).collect()
}

/// A bitvector of n bits: the minimal number of bytes (at least one), nothing set at or above n.
pub fn de_bits(b: &[u8], n: usize) -> Result<Vec<bool>, Reject> {
    if b.len() != core::cmp::max(1, (n + 7) / 8) {
        return Err(Reject("bitvector byte count"));
    }
    let all = unpack(b);
    if all[n..].iter().any(|x| *x) {
        return Err(Reject("bitvector padding bit set"));
    }
    Ok(all[..n].to_vec())
}

fn offset_at(b: &[u8], pos: usize) -> Result<usize, Reject> {
    if pos + OFFSET > b.len() {
        return Err(Reject("offset word past the end"));
    }
    let mut x = 0usize;
    for i in 0..OFFSET {
        x |= (b[pos + i] as usize) << (8 * i);
    }
    Ok(x)
}

/// The unique partition of `b` into the given parts, or a reason why there is none.
pub fn partition(lens: &[Option<usize>], b: &[u8]) -> Result<Vec<(usize, usize)>, Reject> {
    let mut parts = vec![(0usize, 0usize); lens.len()];
    let mut cur = 0usize;
    let mut offs: Vec<(usize, usize)> = vec![];
    for (i, l) in lens.iter().enumerate() {
        match l {
            Some(n) => {
                if *n > b.len() - cur {
                    return Err(Reject("fixed part past the end"));
                }
                parts[i] = (cur, cur + n);
                cur += n;
            }
            None => {
                offs.push((i, offset_at(b, cur)?));
                cur += OFFSET;
            }
        }
    }
    if offs.is_empty() {
        return if cur == b.len() {
            Ok(parts)
        } else {
            Err(Reject("excess bytes in a fixed-size container"))
        };
    }
    if offs[0].1 != cur {
        return Err(Reject("first offset is not the end of the fixed part"));
    }
    for k in 0..offs.len() {
        let start = offs[k].1;
        let end = if k + 1 < offs.len() { offs[k + 1].1 } else { b.len() };
        if start > end || end > b.len() {
            return Err(Reject("offsets decreasing or out of bounds"));
        }
        parts[offs[k].0] = (start, end);
    }
    Ok(parts)
}

/// The unique partition of a list of variable-size items.
pub fn partition_list(b: &[u8]) -> Result<Vec<(usize, usize)>, Reject> {
    if b.is_empty() {
        return Ok(vec![]);
    }
    let first = offset_at(b, 0)?;
    if first == 0 || first % OFFSET != 0 || first > b.len() {
        return Err(Reject("first list offset"));
    }
    let n = first / OFFSET;
    let mut parts = Vec::with_capacity(n);
    let mut start = first;
    for k in 0..n {
        let end = if k + 1 < n { offset_at(b, (k + 1) * OFFSET)? } else { b.len() };
        if start > end || end > b.len() {
            return Err(Reject("offsets decreasing or out of bounds"));
        }
        parts.push((start, end));
        start = end;
    }
    Ok(parts)
}

fn de_list(i: &Schema, b: &[u8]) -> Result<Vec<Value>, Reject> {
    if b.is_empty() {
        return Ok(vec![]);
    }
    match i.fixed() {
        Some(0) => Err(Reject("list of zero-length items")),
        Some(n) => {
            if b.len() % n != 0 {
                return Err(Reject("list length not a multiple of the item length"));
            }
            b.chunks(n).map(|c| de(i, c)).collect()
        }
        None => partition_list(b)?
            .into_iter()
            .map(|(s, e)| de(i, &b[s..e]))
            .collect(),
    }
}
