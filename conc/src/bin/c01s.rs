//! C01 under a scheduler that decides before each atomic access who goes on.
fn main() {
    conc::main("C01", conc::Judge::Regions)
}
