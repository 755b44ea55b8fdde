extern crate rgbcore as rgb;
#[macro_use]
extern crate amplify;
pub mod alter;
pub mod boxes;
pub mod build;
pub mod env;
pub mod flows;
pub mod extras;
pub mod frame;
pub mod gen;
pub mod ids;
pub mod ifaces;
pub mod index;
pub mod mem;
pub mod merge;
pub mod specs;
pub mod store;
pub mod text;
pub mod trans;
pub mod views;
pub mod world;

use frame::Ctx;

#[global_allocator]
static ALLOC: mem::Lazy = mem::Lazy;

/// Runs one property; returns the evidence level and the assumptions.
pub fn run(id: &str, ctx: &Ctx) -> Option<(&'static str, &'static [&'static str])> {
    match id {
        "C01" => text::c01(ctx),
        "C02" => text::c02(ctx),
        "C03" => text::c03(ctx),
        "C04" => specs::c04(ctx),
        "C05" => boxes::c05(ctx),
        "C06" => boxes::c06(ctx),
        "C07" => ids::c07(ctx),
        "C08" => merge::c08(ctx),
        "C09" => build::c09(ctx),
        "C10" => build::c10(ctx),
        "C11" => flows::c11(ctx),
        "C12" => flows::c12(ctx),
        "C13" => flows::c13(ctx),
        "C14" => flows::c14(ctx),
        "C15" => flows::c15(ctx),
        "C16" => flows::c16(ctx),
        "C17" => store::c17(ctx),
        "C18" => alter::c18(ctx),
        "C19" => store::c19(ctx),
        "C20" => store::c20(ctx),
        "C21" => views::c21(ctx),
        "C22" => views::c22(ctx),
        "C23" => ifaces::c23(ctx),
        "C24" => ifaces::c24(ctx),
        "C25" => extras::c25(ctx),
        "C26" => extras::c26(ctx),
        "C27" => extras::c27(ctx),
        "C28" => trans::c28(ctx),
        _ => return None,
    }
    Some(("exploration", &[]))
}
