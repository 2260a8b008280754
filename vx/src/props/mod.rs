use vx::Check;
mod c03;
mod c04;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
pub mod common;
mod textdiff;

pub fn all() -> Vec<Check> {
    vec![c03::CHECK, c04::CHECK, c08::CHECK, c09::CHECK, c10::CHECK, c11::CHECK, c12::CHECK, c13::CHECK, c16::CHECK, c17::CHECK, c18::CHECK, c19::CHECK, c20::CHECK, c21::CHECK, c23::CHECK, c24::CHECK, c25::CHECK, c26::CHECK, c27::CHECK, textdiff::C14, textdiff::C15]
}
