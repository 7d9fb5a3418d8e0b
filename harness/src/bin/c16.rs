//! C16: FixedVec destroys every element exactly once, also under panics.
use harness::fv::{many, run, Mode};
use harness::*;

fn main() {
    let mut m = Mon::start("C16");
    m.family("history", 60_000, 240, |c| {
        let i = c.rng.below(harness::types::TYPES);
        with_tv!(i, T => run::<T>(c, Mode::Drops))
    });
    if m.variant != "miri" {
        m.family("many", 1_500, 0, |c| {
            let i = 2 + c.rng.below(harness::types::TYPES - 2);
            with_tv!(i, T => many::<T>(c, Mode::Drops))
        });
    }
    m.finish();
}
