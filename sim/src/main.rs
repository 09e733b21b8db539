#![cfg_attr(not(feature = "host"), no_std)]
#![cfg_attr(not(feature = "host"), no_main)]
#![allow(static_mut_refs, clippy::too_many_arguments, clippy::missing_safety_doc)]

extern crate alloc;

include!("../../abi/abi.rs");

mod ctx;
mod engine;
mod exec;
mod hooks;
mod model;
mod modes;
mod net;
#[cfg(not(feature = "host"))]
#[path = "bare.rs"]
mod platform;
#[cfg(feature = "host")]
#[path = "host.rs"]
mod platform;
mod prng;
mod race;
mod run;
mod scen;
mod shadow;
mod shared;
mod sys;

/// run PROP SEED START COUNT STRIDE TIER OUTDIR TAG MAXVIOL WALLMS [warm] [dict=FILE]  |  replay FILE
fn command(args: &[&str], nodes: &'static [engine::NodeRt]) -> i32 {
    if !run::selftest() {
        platform::print("HARNESS model self-test failed\n");
        return 2;
    }
    let n = |i: usize| args.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    match args.first().copied() {
        Some("run") if args.len() >= 10 => {
            let Some(prop) = scen::PROPS.iter().position(|p| *p == args[1]) else { return 2 };
            let job = run::Job {
                prop: prop as u32,
                seed: n(2),
                start: n(3),
                count: n(4),
                stride: n(5).max(1),
                thorough: args[6] == "thorough",
                outdir: args[7],
                tag: args[8],
                max_viol: n(9) as u32,
            };
            let wall = n(10);
            if let Some(t) = args.iter().find_map(|a| a.strip_prefix("dict=")) {
                let Some(t) = platform::read_file(t) else { return 2 };
                scen::set_dict(&t);
            }
            if args.get(11).copied() == Some("warm") {
                run::warm(job.prop, job.seed, nodes);
            }
            if job.prop == 17 {
                run::learn(nodes);
            }
            let t0 = platform::now_ms();
            let r = run::batch(&job, nodes, &|f| {
                wall != 0 && (platform::now_ms() - t0) as f64 > wall as f64 * f
            });
            if r < 0 {
                2
            } else {
                i32::from(r > 0)
            }
        }
        Some("replay") if args.len() >= 2 => match platform::read_file(args[1]) {
            Some(t) => run::replay(&t, nodes),
            None => 2,
        },
        _ => 2,
    }
}

#[cfg(feature = "host")]
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (opts, rest): (Vec<&String>, Vec<&String>) = a.iter().partition(|x| x.starts_with("--node="));
    let specs: Vec<(&str, &str)> = opts
        .iter()
        .filter_map(|o| o.strip_prefix("--node=").and_then(|s| s.split_once(':')))
        .collect();
    let rest: Vec<&str> = rest.iter().map(|s| s.as_str()).collect();
    let code = match platform::load_all(&specs) {
        Ok(nodes) => command(&rest, nodes),
        Err(e) => {
            platform::print(&alloc::format!("HARNESS {e}\n"));
            2
        }
    };
    std::process::exit(code);
}
