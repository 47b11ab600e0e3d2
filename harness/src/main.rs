//! Records executions of the tedium library for validation against spec/TediumTrace.tla.
//!
//!   tedium-conformance record PROFILE SEED FIRST COUNT OUT SCRATCH
//!   tedium-conformance replay SCRIPT OUT SCRATCH
//!   tedium-conformance script PROFILE SEED FIRST COUNT
mod enc;
mod fuzz;
mod gen_;
mod json;
mod profiles;
mod rng;
mod session;
mod stream;
mod trace;
mod types;

use json::J;
use trace::Tracer;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let work = move || {
        match a[1].as_str() {
            "record" => {
                let (profile, seed) = (&a[2], a[3].parse::<u64>().expect("seed"));
                let (first, count): (usize, usize) = (a[4].parse().expect("first"), a[5].parse().expect("count"));
                let mut tr = Tracer::to_file(&a[6]);
                for k in first..first + count {
                    let ops = profiles::script(profile, k, seed);
                    session::run_script(&ops, &mut tr, &a[7], k);
                }
                tr.flush();
                println!("cases {} events {}", tr.cases, tr.events);
            }
            "replay" => {
                let text = std::fs::read_to_string(&a[2]).expect("script");
                let ops: Vec<J> = text.lines().filter(|l| !l.is_empty()).map(J::parse).collect();
                let mut tr = Tracer::to_file(&a[3]);
                session::run_script(&ops, &mut tr, &a[4], 0);
                tr.flush();
                println!("cases {} events {}", tr.cases, tr.events);
            }
            "script" => {
                let seed = a[3].parse::<u64>().expect("seed");
                let (first, count): (usize, usize) = (a[4].parse().expect("first"), a[5].parse().expect("count"));
                for k in first..first + count {
                    for op in profiles::script(&a[2], k, seed) {
                        println!("{}", op.text());
                    }
                }
            }
            "profiles" => println!("{}", profiles::PROFILES.join(" ")),
            x => panic!("unknown command {x}"),
        }
    };
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(work)
        .expect("thread")
        .join()
        .unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            eprintln!("harness error: {}", m.unwrap_or_default());
            std::process::exit(2);
        });
}
