use crate::explore::Driver;
use crate::Tier;

mod address;
mod image;
mod interleave;
mod memory;
mod mutate;
mod parse;
mod pieces;
mod render;
mod storage;
mod work;

pub const IDS: [&str; 32] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32",
];

pub const ASSUMPTIONS: &[&str] = &[
    "the reference model (mc/src/ref*.rs, enc.rs) states the Aseprite format and blend functions correctly",
    "flate2 decodes zlib streams correctly",
    "behaviour outside the stated alphabets and bounds is not covered",
];

pub fn drivers(id: &str, t: Tier) -> Vec<Driver> {
    match id {
        "C01" => mutate::c01(t),
        "C02" => mutate::c02(t),
        "C03" => parse::c03(t),
        "C04" => parse::c04(t),
        "C05" => parse::c05(t),
        "C06" => mutate::c06(t),
        "C07" => parse::c07(t),
        "C08" => parse::c08(t),
        "C09" => parse::c09(t),
        "C10" => image::c10(t),
        "C11" => image::c11(t),
        "C12" => image::c12(t),
        "C13" => render::c13(t),
        "C14" => render::c14(t),
        "C15" => render::c15(t),
        "C16" => render::c16(t),
        "C17" => render::c17(t),
        "C18" => render::c18(t),
        "C19" => image::c19(t),
        "C20" => image::c20(t),
        "C21" => image::c21(t),
        "C22" => parse::c22(t),
        "C23" => mutate::c23(t),
        "C24" => parse::c24(t),
        "C25" => image::c25(t),
        "C26" => image::c26(t),
        "C27" => image::c27(t),
        "C28" => pieces::c28(t),
        "C29" => storage::c29(t),
        "C30" => memory::c30(t),
        "C31" => address::c31(t),
        "C32" => work::c32(t),
        _ => vec![],
    }
}
pub fn tier<T>(t: Tier, quick: T, thorough: T) -> T {
    if t == Tier::Quick {
        quick
    } else {
        thorough
    }
}
