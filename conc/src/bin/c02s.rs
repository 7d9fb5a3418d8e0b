//! C02 under a scheduler that decides before each atomic access who goes on.
fn main() {
    conc::main("C02", conc::Judge::History)
}
