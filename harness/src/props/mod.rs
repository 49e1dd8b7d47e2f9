use crate::run::Case;

mod custom;
mod files;
mod imports;
pub mod quotes;
mod tokens;
mod values;

/// The case, and how many of them the quick and thorough tiers run.
pub fn lookup(id: &str) -> Option<(Case, u64, u64)> {
    Some(match id {
        "C01" => (tokens::c01, 800_000, 6_000_000),
        "C02" => (tokens::c02, 2_000_000, 10_000_000),
        "C04" => (tokens::c04, 1_000_000, 4_000_000),
        "C06" => (imports::c06, 2_000_000, 10_000_000),
        "C07" => (imports::c07, 2_000_000, 10_000_000),
        "C08" => (imports::c08, 2_000_000, 10_000_000),
        "C09" => (imports::c09, 2_000_000, 10_000_000),
        "C10" => (imports::c10, 2_000_000, 10_000_000),
        "C11" => (imports::c11, 2_000_000, 10_000_000),
        "C12" => (imports::c12, 2_000_000, 10_000_000),
        "C13" => (imports::c13, 1_500_000, 10_000_000),
        "C03" => (files::c03, 150_000, 1_000_000),
        "C05" => (files::c05, 400_000, 2_000_000),
        "C22" => (files::c22, 1_000_000, 2_000_000),
        "C14" => (quotes::c14, 1_500_000, 10_000_000),
        "C15" => (quotes::c15, 2_000_000, 8_000_000),
        "C16" => (quotes::c16, 3_000_000, 16_000_000),
        "C26" => (custom::c26, 2_000_000, 16_000_000),
        "C21" => (values::c21, 2_000_000, 16_000_000),
        "C23" => (values::c23, 2_000_000, 16_000_000),
        "C24" => (values::c24, 400_000, 1_000_000),
        _ => return None,
    })
}
