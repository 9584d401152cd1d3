//! Monitors of the decoder builder, the list decoder and the offset words.
mod c05;
mod c09;
mod c16;
mod probe;

use vcore::run::{main_with, Cfg, Unit};

#[global_allocator]
static ALLOC: vcore::alloc::Counting = vcore::alloc::Counting;

fn units(cfg: &Cfg) -> Vec<Unit> {
    let mut out = vec![];
    match cfg.prop.as_str() {
        "C05" => c05::units(cfg, &mut out),
        "C09" => c09::units(cfg, &mut out),
        "C16" => c16::units(cfg, &mut out),
        p => panic!("harness: this binary does not decide {p}"),
    }
    out
}

fn main() {
    main_with(units)
}
