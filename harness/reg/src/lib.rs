//! Type registry and codec monitors.
pub mod bases;
pub mod inputs;
pub mod legacy;
pub mod ops;
pub mod subject;
pub mod work;

pub use subject::{Heap, Subject};
pub use vcore::model::{Schema, Value};

#[global_allocator]
static ALLOC: vcore::alloc::Counting = vcore::alloc::Counting;
