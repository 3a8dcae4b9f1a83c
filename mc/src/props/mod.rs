use crate::util::Ctx;
mod compound;
mod edit;
mod life;
mod route;
mod signal;
mod syntax;
mod time;

pub fn run(c: &'static Ctx) -> Option<i32> {
    Some(match c.id.as_str() {
        "C01" => edit::c01(c),
        "C02" => edit::c02(c),
        "C03" => edit::c03(c),
        "C04" => route::c04(c),
        "C05" => route::c05(c),
        "C11" => route::c11(c),
        "C12" => route::c12(c),
        "C32" => route::c32(c),
        "C06" => time::c06(c),
        "C13" => time::c13(c),
        "C14" => time::c14(c),
        "C23" => time::c23(c),
        "C24" => time::c24(c),
        "C15" => signal::c15(c),
        "C16" => signal::c16(c),
        "C17" => signal::c17(c),
        "C18" => signal::c18(c),
        "C19" => signal::c19(c),
        "C20" => signal::c20(c),
        "C21" => signal::c21(c),
        "C22" => signal::c22(c),
        "C25" => compound::c25(c),
        "C26" => compound::c26(c),
        "C27" => compound::c27(c),
        "C28" => compound::c28(c),
        "C07" => syntax::c07(c),
        "C08" => syntax::c08(c),
        "C09" => syntax::c09(c),
        "C10" => syntax::c10(c),
        "C29" => life::c29(c),
        "C30" => life::c30(c),
        "C31" => life::c31(c),
        "C44" => life::c44(c),
        "C35" => syntax::c35(c),
        _ => return None,
    })
}
