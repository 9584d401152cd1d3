//! Item types that report what they are handed.
use ssz::{Decode, DecodeError, SszDecoderBuilder};
use std::cell::{Cell, RefCell};
use vcore::run::catch;

/// Where an item's bytes lie: address and length.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Grab(pub usize, pub usize);

impl Grab {
    pub fn of(b: &[u8]) -> Self {
        Grab(b.as_ptr() as usize, b.len())
    }
    /// As a range of `b`; an empty item lies anywhere.
    pub fn within(self, b: &[u8]) -> (usize, usize) {
        if self.1 == 0 {
            (0, 0)
        } else {
            let s = self.0.wrapping_sub(b.as_ptr() as usize);
            (s, s.wrapping_add(self.1))
        }
    }
}

pub fn norm(p: (usize, usize)) -> (usize, usize) {
    if p.0 == p.1 {
        (0, 0)
    } else {
        p
    }
}

/// A variable-size item.
impl Decode for Grab {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        Ok(Grab::of(b))
    }
}

/// A fixed-size item of any size.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Fix<const N: usize>(pub Grab);

impl<const N: usize> Decode for Fix<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        Ok(Fix(Grab::of(b)))
    }
}

macro_rules! fix_table {
    ($($n:literal),*) => {
        /// Register a fixed-size item by its type, if there is a type for that size.
        pub fn register_fix(b: &mut SszDecoderBuilder, n: usize) -> Option<Result<(), DecodeError>> {
            match n {
                $( $n => Some(b.register_type::<Fix<$n>>()), )*
                _ => None,
            }
        }
    };
}
fix_table!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 32, 33, 48, 96, 100, 255, 256, 257, 1000);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Fixed(usize),
    Var,
}

pub fn lens(ops: &[Op]) -> Vec<Option<usize>> {
    ops.iter()
        .map(|o| match o {
            Op::Fixed(n) => Some(*n),
            Op::Var => None,
        })
        .collect()
}

/// Drive the builder as documented: stop at the first error, decode exactly what was registered.
/// `how` selects among the equivalent ways to register and to decode each item.
pub fn drive(b: &[u8], ops: &[Op], mut how: u64) -> Result<Result<Vec<Grab>, DecodeError>, String> {
    let mut next = move |n: u64| {
        let r = how % n;
        how = how / n ^ how.rotate_right(7);
        r
    };
    catch(|| {
        let mut builder = SszDecoderBuilder::new(b);
        for op in ops {
            match op {
                Op::Fixed(n) => {
                    let r = if next(2) == 0 { register_fix(&mut builder, *n) } else { None };
                    r.unwrap_or_else(|| builder.register_type_parameterized(true, *n))?
                }
                Op::Var => match next(4) {
                    0 => builder.register_type::<Grab>()?,
                    1 => builder.register_anonymous_variable_length_item()?,
                    2 => builder.register_type_parameterized(false, ssz::BYTES_PER_LENGTH_OFFSET)?,
                    _ => builder.register_type::<Vec<u64>>()?,
                },
            }
        }
        let mut dec = builder.build()?;
        ops.iter()
            .map(|op| match (next(2), op) {
                (0, Op::Fixed(3)) => dec.decode_next::<Fix<3>>().map(|f| f.0),
                (0, _) => dec.decode_next::<Grab>(),
                _ => dec.decode_next_with(|s| Ok(Grab::of(s))),
            })
            .collect()
    })
}

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static SEEN: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

pub fn reset_calls() {
    CALLS.set(0);
}
pub fn calls() -> u64 {
    CALLS.get()
}

/// A variable-size item that counts how often it is decoded, and refuses bodies starting with 0xEE.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Probe(pub Vec<u8>, [u64; 8]);

impl Probe {
    pub fn model(b: &[u8]) -> Option<Self> {
        (b.first() != Some(&0xEE)).then(|| Probe(b.to_vec(), [b.len() as u64; 8]))
    }
}

impl Decode for Probe {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        CALLS.set(CALLS.get() + 1);
        Probe::model(b).ok_or(DecodeError::BytesInvalid("probe refuses".into()))
    }
}
