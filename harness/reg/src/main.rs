//! Runs one property over the generated registry.
use reg::work;
use vcore::run::{main_with, Cfg, Unit};

mod generated {
    include!(env!("VERIF_GEN"));
}

fn units(cfg: &Cfg) -> Vec<Unit> {
    let types = generated::registry();
    match cfg.prop.as_str() {
        "C01" => work::codec::c01(cfg, &types),
        "C02" => work::codec::c02(cfg, &types),
        "C03" => work::codec::c03(cfg, &types),
        "C04" => work::codec::c04(cfg, &types),
        "C05" => work::codec::c05(cfg, &types),
        "C06" => work::codec::c06(cfg, &types),
        "C07" => work::codec::c07(cfg, &types),
        "C08" => work::c08::c08(cfg, &types, &generated::asym()),
        "C10" => work::c10::c10(cfg, &types),
        "C15" => work::c15::c15(cfg, &types),
        "C17" => work::c17::c17(cfg, &types),
        "C19" => work::c19::c19(cfg, &types),
        p => panic!("harness: this binary does not decide {p}"),
    }
}

fn main() {
    main_with(units)
}
