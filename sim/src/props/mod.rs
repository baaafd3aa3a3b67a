use crate::case::Case;
use simcore::rng::Rng;

pub struct Prop { pub gen: fn(&mut Rng, &mut Case, bool, u64), pub run: fn(&Case) }

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod csv;
pub mod sweep;
pub const ALL: &[(&str, Prop)] = &[
    ("C01", Prop { gen: c01::gen, run: c01::run }),
    ("C02", Prop { gen: c02::gen, run: c02::run }),
    ("C03", Prop { gen: c03::gen, run: c03::run }),
    ("C04", Prop { gen: c04::gen, run: c04::run }),
    ("C05", Prop { gen: c05::gen, run: c05::run }),
    ("C06", Prop { gen: c06::gen, run: c06::run }),
    ("C07", Prop { gen: c07::gen, run: c07::run }),
    ("C08", Prop { gen: c08::gen, run: c08::run }),
    ("C09", Prop { gen: c09::gen, run: c09::run }),
    ("C10", Prop { gen: csv::gen10, run: csv::run10 }),
    ("C11", Prop { gen: csv::gen11, run: csv::run11 }),
    ("C12", Prop { gen: c12::gen, run: c12::run }),
    ("C13", Prop { gen: c13::gen, run: c13::run }),
    ("C14", Prop { gen: c14::gen, run: c14::run }),
    ("C15", Prop { gen: c15::gen, run: c15::run }),
    ("C16", Prop { gen: c16::gen, run: c16::run }),
    ("C17", Prop { gen: c17::gen, run: c17::run }),
];

pub fn find(id: &str) -> &'static Prop {
    match ALL.iter().find(|p| p.0 == id) { Some(p) => &p.1, None => { eprintln!("no such property {}", id); std::process::exit(2) } }
}
