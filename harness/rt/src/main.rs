#![allow(unused_mut)]
mod checks;
mod cmp;
mod diff;
mod prog;
mod sut;

fn main() {
    checks::main();
}
