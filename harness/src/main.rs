#[cfg(not(any(vp_sanitized, miri)))]
mod dirty;
mod gen;
mod model;
mod p_mem;
mod p_rand;
mod p_ring;
mod p_scheme;
mod p_sys;
mod run;

use run::{Opts, Prop, Tier};
use std::time::Duration;

fn props() -> Vec<Prop> {
    vec![
        p_scheme::c01(),
        p_scheme::c02(),
        p_scheme::c03(),
        p_scheme::c04(),
        p_scheme::c05(),
        p_scheme::c06(),
        p_scheme::c07(),
        p_scheme::c08(),
        p_scheme::c09(),
        p_ring::c10(),
        p_ring::c11(),
        p_ring::c12(),
        p_ring::c13(),
        p_ring::c14(),
        p_ring::c15(),
        p_ring::c16(),
        p_rand::c17(),
        p_rand::c18(),
        p_rand::c19(),
        p_ring::c20(),
        p_mem::c21(),
        p_sys::c22(),
        p_sys::c23(),
        p_ring::c24(),
        p_scheme::c25(),
        p_scheme::c26(),
    ]
}

fn usage() -> ! {
    eprintln!("usage: vp run ID [--tier quick|thorough|tiny] [--seed S] [--first C] [--cases N] [--kind K] [--jobs J] [--time-limit S] [--case-limit S] [--report F] [--keys F] [--verbose]");
    eprintln!("       vp list");
    std::process::exit(2)
}

#[cfg(not(any(vp_sanitized, miri)))]
#[global_allocator]
static ALLOCATOR: dirty::Dirty = dirty::Dirty;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props() {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
        }
        Some("alone") => {
            run::install_hook();
            std::process::exit(p_sys::alone_main(&a[2..]));
        }
        Some("run") => {
            let id = a.get(2).cloned().unwrap_or_else(|| usage());
            let mut p = props().into_iter().find(|p| p.id == id).unwrap_or_else(|| usage());
            let mut o = Opts {
                seed: 1,
                tier: Tier::Quick,
                first: 0,
                cases: 0,
                jobs: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
                time_limit: Duration::from_secs(600),
                case_limit: Duration::from_secs(300),
                report: String::new(),
                keys: String::new(),
                verbose: false,
            };
            let mut i = 3;
            while i < a.len() {
                if a[i] == "--verbose" {
                    o.verbose = true;
                    i += 1;
                    continue;
                }
                let v = a.get(i + 1).cloned().unwrap_or_else(|| usage());
                let n = || v.parse::<u64>().unwrap_or_else(|_| usage());
                match a[i].as_str() {
                    "--tier" => {
                        o.tier = match v.as_str() {
                            "quick" => Tier::Quick,
                            "thorough" => Tier::Thorough,
                            "tiny" => Tier::Tiny,
                            _ => usage(),
                        }
                    }
                    "--seed" => o.seed = n(),
                    "--first" => o.first = n(),
                    "--cases" => o.cases = n(),
                    "--jobs" => o.jobs = n() as usize,
                    "--time-limit" => o.time_limit = Duration::from_secs(n()),
                    "--case-limit" => o.case_limit = Duration::from_secs(n()),
                    "--kind" => p.kinds.retain(|k| k.name == v),
                    "--report" => o.report = v,
                    "--keys" => o.keys = v,
                    _ => usage(),
                }
                i += 2;
            }
            if p.kinds.is_empty() {
                usage()
            }
            if o.cases == 0 {
                o.cases = if o.tier == Tier::Thorough { p.thorough } else { p.quick };
            }
            std::process::exit(run::run(&p, &o));
        }
        _ => usage(),
    }
}
