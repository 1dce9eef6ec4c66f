// Compiled by C16 against every build of the crate.
#[path = "src/data.rs"]
mod data;
#[path = "src/probe.rs"]
mod probe;

fn main() {
    print!("{}", probe::report());
}
