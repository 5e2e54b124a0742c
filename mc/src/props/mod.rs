use crate::core::*;
pub mod quant;
pub mod curves;
pub mod tables;
pub mod spaces;
pub mod matrix;
pub mod batch;
pub mod coords;
pub mod spectra;
pub mod fixed;
pub mod arith;
pub mod purity;
pub mod misc;

pub fn dispatch(p: &str, c: &Ctx) -> bool {
    match p {
        "C01" => quant::c01(c),
        "C02" => quant::c02(c),
        "C03" => curves::c03(c),
        "C04" => spaces::c04(c),
        "C05" => spaces::c05(c),
        "C06" => spaces::c06(c),
        "C07" => matrix::c07(c),
        "C08" => spaces::c08(c),
        "C09" => batch::c09(c),
        "C10" => coords::c10(c),
        "C11" => coords::c11(c),
        "C12" => coords::c12(c),
        "C13" => spectra::c13(c),
        "C14" => spectra::c14(c),
        "C15" => spectra::c15(c),
        "C16" => spectra::c16(c),
        "C17" => spectra::c17(c),
        "C18" => fixed::c18(c),
        "C19" => fixed::c19(c),
        "C20" => fixed::c20(c),
        "C21" => arith::c21(c),
        "C22" => purity::c22(c),
        "C23" => spectra::c23(c),
        "C24" => tables::c24(c),
        "C25" => misc::c25(c),
        "C26" => misc::c26(c),
        "C27" => misc::c27(c),
        _ => return false,
    }
    true
}
