//! One scenario per property.
use crate::ctx::{Ctx, Res};

pub struct Scenario {
    pub id: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub quick_seconds: f64,
    pub run: fn(&mut Ctx) -> Res,
}

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
pub mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
pub mod c17;
pub mod ops;
pub mod util;

pub static ALL: &[&Scenario] = &[&c01::S, &c02::S, &c03::S, &c04::S, &c05::S, &c06::S, &c07::S, &c08::S, &c09::S, &c10::S, &c11::S, &c12::S, &c13::S, &c14::S, &c15::S, &c16::S, &c17::S];

pub fn find(id: &str) -> &'static Scenario {
    match ALL.iter().find(|s| s.id == id) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}
