//! Command line of the check binaries: `run <property> <tier>` prints one REPORT line of JSON, `replay <property>
//! <tier> <job> <choices>` re-executes one recorded execution.
use crate::explore::{self, Job, Report};

pub struct Plan<'j> {
    pub jobs: Vec<Job<'j>>,
    /// what was enumerated, for the evidence file
    pub bounds: Vec<String>,
    /// longest time one execution may take
    pub hang_ms: u64,
}
impl<'j> Plan<'j> {
    pub fn new(jobs: Vec<Job<'j>>, bounds: &[&str]) -> Self {
        Plan { jobs, bounds: bounds.iter().map(|s| s.to_string()).collect(), hang_ms: 60_000 }
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.collect::<Vec<_>>().join(","))
}

fn emit(r: &Report, bounds: &[String]) {
    let viol = arr(r.violations.iter().map(|v| {
        format!(
            "{{\"job\":{},\"choices\":{},\"detail\":{}}}",
            quote(&v.job),
            arr(v.choices.iter().map(|c| c.to_string())),
            quote(&v.detail)
        )
    }));
    let find = r.findings.iter().map(|(k, v)| format!("{}:{}", quote(k), quote(v))).collect::<Vec<_>>().join(",");
    let out = r.outcomes.iter().map(|(k, v)| format!("{}:{v}", quote(k))).collect::<Vec<_>>().join(",");
    println!(
        "REPORT {{\"executions\":{},\"transitions\":{},\"states\":{},\"traces\":{},\"jobs\":{},\"wall\":{:.2},\"outcomes\":{{{out}}},\"samples\":{},\"bounds\":{},\"violations\":{viol},\"findings\":{{{find}}},\"engine_error\":{}}}",
        r.execs,
        r.transitions,
        r.states,
        r.traces,
        r.jobs,
        r.wall,
        arr(r.samples.iter().map(|s| quote(s))),
        arr(bounds.iter().map(|s| quote(s))),
        r.engine_error.as_ref().map_or("null".into(), |e| quote(e)),
    );
}

pub fn main<'j>(plan: impl Fn(&str, bool) -> Option<Plan<'j>>, probe: impl Fn(&str) -> i32) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(String::as_str) {
        Some("run") => {
            let thorough = a[3] == "thorough";
            let Some(p) = plan(&a[2], thorough) else {
                eprintln!("unknown property {}", a[2]);
                std::process::exit(2)
            };
            explore::set_hang_limit(p.hang_ms);
            let only = std::env::var("MC_JOB").ok();
            let jobs = p.jobs.into_iter().filter(|j| only.as_ref().map_or(true, |o| j.name.contains(o.as_str()))).collect();
            let r = explore::run(jobs);
            emit(&r, &p.bounds);
            0
        }
        Some("replay") => {
            let p = plan(&a[2], a[3] == "thorough").expect("property");
            let choices: Vec<u32> = a[5].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let limit = p.hang_ms;
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_millis(limit));
                println!("HANG");
                std::process::exit(97);
            });
            match explore::replay(p.jobs, &a[4], &choices) {
                Ok(Some(d)) => {
                    println!("REPRODUCED {d}");
                    1
                }
                Ok(None) => {
                    println!("NOT-REPRODUCED");
                    0
                }
                Err(e) => {
                    println!("ENGINE {e}");
                    2
                }
            }
        }
        Some("probe") => probe(&a[2]),
        _ => 2,
    };
    std::process::exit(code)
}
