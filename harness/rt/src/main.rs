mod checks;
mod defs;
mod env;
mod memory;
mod numbers;
mod ordinary;
mod shared;
mod sizes;
#[path = "../../kit.rs"]
mod kit;
#[path = "../../subject.rs"]
mod subject;

#[global_allocator]
static ALLOC: mc::alloc::Tracking = mc::alloc::Tracking;

fn main() {
    mc::cli::main(
        |p, th| {
            Some(match p {
                "R01" => checks::r01(th),
                "R02" => checks::r02(th),
                "R03" => checks::r03(th),
                "R04" => checks::r04(th),
                "R05" => checks::r05(th),
                "R06" => checks::r06(th),
                "R07" => checks::r07(th),
                "R08" => checks::r08(th),
                "R09" => checks::r09(th),
                "R10" => checks::r10(th),
                "R11" => checks::r11(th),
                "R12" => checks::r12(th),
                "R13" => checks::r13(th),
                "R14" => checks::r14(th),
                "R15" => checks::r15(th),
                "R16" => checks::r16(th),
                "R17" => numbers::r17(th),
                "R18" => numbers::r18(th),
                "R19" => checks::r19(th),
                "R20" => checks::r20(th),
                "R25" => memory::r25(th),
                "R28" => ordinary::r28(th),
                "R29" => ordinary::r29(th),
                _ => return None,
            })
        },
        checks::probe,
    )
}
