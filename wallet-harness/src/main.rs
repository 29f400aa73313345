//! Model checker for the wallet: enumerates ledgers and the runs that see them.
#[path = "../../harness/src/cli.rs"]
mod cli;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/report.rs"]
mod report;
#[allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;
mod wallet;

pub use cli::{Check, Tier};

fn check(id: &str, tier: Tier) -> Option<Check> {
    (id == "W01").then(|| wallet::check(tier))
}

fn main() {
    cli::main(check)
}
