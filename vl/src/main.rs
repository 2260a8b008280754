//! Explorers that drive the library through its public interface.
mod c01;
mod c02;
mod c05;
mod c06;
mod c07;
mod c22;
mod inputs;

fn main() {
    vx::main_with(&[c01::CHECK, c02::CHECK, c05::CHECK, c06::CHECK, c07::CHECK, c22::CHECK]);
}
