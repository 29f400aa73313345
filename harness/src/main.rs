mod blocks;
mod chain;
mod cli;
mod crash;
mod disk;
mod engine;
mod filters;
mod handle;
mod journal;
mod kernel;
mod misc;
mod net;
mod peers;
mod reactor;
mod report;
mod rescan;
mod serve;
mod sim;
mod store;
mod sync;
mod util;
mod whole;

pub use cli::{Check, Tier};

fn check(id: &str, tier: Tier) -> Option<Check> {
    Some(match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => chain::check(id, tier),
        "F02" | "T01" | "T02" | "E01" => misc::check(id, tier),
        "S01" | "F01" => store::check(id, tier),
        "N01" => net::check(tier),
        "N02" => reactor::check(tier),
        "P05" => sync::check(tier),
        "P06" => serve::check(tier),
        "P07" => filters::check(id, tier),
        "P08" => rescan::check(id, tier),
        "P09" | "P10" => blocks::check(id, tier),
        "P11" => crash::check(tier),
        "S02" => disk::check_s02(tier),
        "S03" => disk::check_s03(tier),
        "E03" => whole::check(tier),
        "E02" => handle::check(tier),
        "P01" | "P02" | "P03" | "P04" => peers::check(id, tier),
        _ => return None,
    })
}

fn main() {
    cli::main(check)
}
