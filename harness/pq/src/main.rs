//! Checks of the Parquet crate (P01 to P07, P12).
mod defs;
mod encset;
mod files;
#[path = "../../kit.rs"]
mod kit;
mod meta;
#[path = "../../subject.rs"]
mod subject;
mod whole;

#[global_allocator]
static ALLOC: mc::alloc::Tracking = mc::alloc::Tracking;

fn main() {
    mc::cli::main(
        |p, th| {
            Some(match p {
                "P01" => meta::p01(th),
                "P02" => meta::p02(th),
                "P03" => encset::p03(th),
                "P04" => files::p04(th),
                "P05" => files::p05(th),
                "P06" => files::p06(th),
                "P07" => meta::p07(th),
                "P12" => whole::p12(th),
                _ => return None,
            })
        },
        |what| {
            if what != "corpus" {
                return 2;
            }
            kit::corpus("PARQUET", meta::all());
            0
        },
    )
}
