use crate::engine::Check;
pub mod c01;
pub mod c02;
pub mod c06;
pub mod c10;
pub mod c12;
pub mod c21;
pub mod c23;
pub mod faults;
pub mod hand;
#[cfg(feature = "cxx")]
pub mod cxx;
pub mod wf;
pub mod c16;
pub mod pl;
pub mod tapes;

pub fn get(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "C01" => c01::check(thorough),
        "C02" => c02::check(thorough),
        "C06" => c06::check(thorough),
        "C07" => pl::c07(thorough),
        "C08" => pl::c08(thorough),
        "C09" => pl::c09(thorough),
        "C11" => pl::c11(thorough),
        "C16" => c16::check(thorough),
        "C22" => wf::c22(thorough),
        "C23" => c23::check(thorough),
        "C24" => hand::check(thorough),
        "C25" => faults::check(thorough),
        "C21" => c21::check(thorough),
        "C10" => c10::check(thorough),
        "C12" => c12::c12(thorough),
        "C13" => c12::c13(thorough),
        "C03" => tapes::c03(thorough),
        "C04" => tapes::c04(thorough),
        "C05" => tapes::c05(thorough),
        #[cfg(feature = "cxx")]
        "C18" => cxx::c18(thorough),
        #[cfg(feature = "cxx")]
        "C19" => cxx::c19(thorough),
        _ => return None,
    })
}
