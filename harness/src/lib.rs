#![allow(incomplete_features)]
#![allow(clippy::all)]
#![allow(dead_code)]
#![feature(generic_const_exprs)]

pub mod core;
pub mod dd;
pub mod model;
pub mod shapes;
pub mod template;
#[cfg(not(target_arch = "wasm32"))]
pub mod driver;
#[cfg(any(feature = "c18", feature = "c19", feature = "c20", feature = "c26", feature = "c27", feature = "c28", feature = "c29"))]
pub mod ops;
#[cfg(any(feature = "c18", feature = "c19", feature = "c20", feature = "c27", feature = "c28", feature = "c29"))]
pub mod special;
#[cfg(any(feature = "c10", feature = "c11", feature = "c12", feature = "c13", feature = "c14", feature = "c15", feature = "c22", feature = "c23", feature = "c25", feature = "c21"))]
pub mod bsp;
#[cfg(any(feature = "c01", feature = "c21"))]
pub mod c01;
#[cfg(any(feature = "c02", feature = "c21"))]
pub mod c02;
#[cfg(any(feature = "c03", feature = "c21"))]
pub mod c03;
#[cfg(any(feature = "c04", feature = "c21"))]
pub mod c04;
#[cfg(any(feature = "c05", feature = "c21"))]
pub mod c05;
#[cfg(any(feature = "c06", feature = "c21"))]
pub mod c06;
#[cfg(any(feature = "c07", feature = "c21"))]
pub mod c07;
#[cfg(any(feature = "c08", feature = "c09", feature = "c21"))]
pub mod c08;
#[cfg(any(feature = "c09", feature = "c21"))]
pub mod c09;
#[cfg(any(feature = "c10", feature = "c21"))]
pub mod c10;
#[cfg(any(feature = "c11", feature = "c21"))]
pub mod c11;
#[cfg(any(feature = "c12", feature = "c21"))]
pub mod c12;
#[cfg(any(feature = "c13", feature = "c21"))]
pub mod c13;
#[cfg(any(feature = "c14", feature = "c21"))]
pub mod c14;
#[cfg(any(feature = "c15", feature = "c21"))]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(any(feature = "c18", feature = "c27", feature = "c28", feature = "c29"))]
pub mod c18;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c21")]
pub mod c21;
#[cfg(all(feature = "c21", target_arch = "wasm32"))]
pub mod wasm;
#[cfg(feature = "c22")]
pub mod c22;
#[cfg(feature = "c23")]
pub mod c23;
#[cfg(feature = "c24")]
pub mod c24;
#[cfg(feature = "c25")]
pub mod c25;
#[cfg(feature = "c26")]
pub mod c26;
#[cfg(feature = "c27")]
pub mod c27;
#[cfg(any(feature = "c28", feature = "c29"))]
pub mod c28;
#[cfg(feature = "c29")]
pub mod c29;

use crate::core::{Suite, Tier};

/// The suites of one property.
pub fn suites(id: &str, tier: Tier) -> Option<Vec<Suite>> {
    let _ = tier;
    Some(match id {
        #[cfg(any(feature = "c01", feature = "c21"))]
        "C01" => c01::suites(tier),
        #[cfg(any(feature = "c02", feature = "c21"))]
        "C02" => c02::suites(tier),
        #[cfg(any(feature = "c03", feature = "c21"))]
        "C03" => c03::suites(tier),
        #[cfg(any(feature = "c04", feature = "c21"))]
        "C04" => c04::suites(tier),
        #[cfg(any(feature = "c05", feature = "c21"))]
        "C05" => c05::suites(tier),
        #[cfg(any(feature = "c06", feature = "c21"))]
        "C06" => c06::suites(tier),
        #[cfg(any(feature = "c07", feature = "c21"))]
        "C07" => c07::suites(tier),
        #[cfg(any(feature = "c08", feature = "c21"))]
        "C08" => c08::suites(tier),
        #[cfg(any(feature = "c09", feature = "c21"))]
        "C09" => c09::suites(tier),
        #[cfg(any(feature = "c10", feature = "c21"))]
        "C10" => c10::suites(tier),
        #[cfg(any(feature = "c11", feature = "c21"))]
        "C11" => c11::suites(tier),
        #[cfg(any(feature = "c12", feature = "c21"))]
        "C12" => c12::suites(tier),
        #[cfg(any(feature = "c13", feature = "c21"))]
        "C13" => c13::suites(tier),
        #[cfg(any(feature = "c14", feature = "c21"))]
        "C14" => c14::suites(tier),
        #[cfg(any(feature = "c15", feature = "c21"))]
        "C15" => c15::suites(tier),
        #[cfg(feature = "c16")]
        "C16" => c16::suites(tier),
        #[cfg(feature = "c17")]
        "C17" => c17::suites(tier),
        #[cfg(feature = "c18")]
        "C18" => c18::suites(tier),
        #[cfg(feature = "c19")]
        "C19" => c19::suites(tier),
        #[cfg(feature = "c20")]
        "C20" => c20::suites(tier),
        #[cfg(feature = "c21")]
        "C21" => c21::suites(tier),
        #[cfg(feature = "c22")]
        "C22" => c22::suites(tier),
        #[cfg(feature = "c23")]
        "C23" => c23::suites(tier),
        #[cfg(feature = "c24")]
        "C24" => c24::suites(tier),
        #[cfg(feature = "c25")]
        "C25" => c25::suites(tier),
        #[cfg(feature = "c26")]
        "C26" => c26::suites(tier),
        #[cfg(feature = "c27")]
        "C27" => c27::suites(tier),
        #[cfg(feature = "c28")]
        "C28" => c28::suites(tier),
        #[cfg(feature = "c29")]
        "C29" => c29::suites(tier),
        _ => return None,
    })
}
