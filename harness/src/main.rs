mod alloc;
mod codec;
mod conc;
mod docs;
mod families;
mod gen;
mod giant;
mod lives;
mod macrogen;
mod mutable;
mod scopes;
mod serdes;
mod skeys;
mod tree;
mod twice;
mod util;

use codec::Sink;
use util::Rng;

fn main() {
    alloc::init();
    util::install_panic_hook();
    util::open_journal();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        // fv rec <families,> <seed> <scale> <out>
        Some("rec") => {
            let seed: u64 = args[3].parse().unwrap();
            let scale: usize = args[4].parse().unwrap();
            let mut out = Sink::new();
            let foreign = std::env::var("FV_FOREIGN").map(|p| docs::load(&p)).unwrap_or_default();
            for (i, f) in args[2].split(',').enumerate() {
                let mut r = Rng::new(seed, 100 + i as u64);
                match f {
                    "scalar" => families::scalar(&mut r, scale, &mut out),
                    "nested" => families::nested(&mut r, scale, &mut out),
                    "layout" => families::layout(&mut r, scale, &mut out),
                    "again" => twice::encoders(&mut r, scale, &mut out),
                    "agains" => twice::values(&mut r, scale, &mut out),
                    "giant" => giant::giants(&mut r, scale, &mut out),
                    "ramp" => giant::ramps(&mut r, scale, &mut out),
                    "big" => families::big(&mut r, scale, &mut out),
                    "dict" => families::dict(&mut r, scale, &mut out),
                    "arr" => families::arr(&mut r, scale, &mut out),
                    "proto" => families::proto(&mut r, scale, &mut out),
                    "ereplay" | "oreplay" => families::replay(&calls(), &mut r, &mut out),
                    "shared" => families::shared(&mut r, scale, &mut out),
                    "reencode" => families::reencode(&mut r, scale, &mut out, &foreign),
                    "skeys" => skeys::shared_keys(&mut r, scale, &mut out),
                    "skstate" => skeys::states(&mut r, scale, &mut out),
                    "skreplay" => skeys::replay(&calls(), &mut r, &mut out),
                    "scopes" => scopes::random(&mut r, scale, &mut out),
                    "sreplay" => scopes::replay(&calls(), &mut r, &mut out),
                    "lives" => lives::random(&mut r, scale, &mut out),
                    "lreplay" => lives::replay(&calls(), &mut r, &mut out),
                    "mutable" => mutable::random(&mut r, scale, &mut out, &foreign),
                    "mreplay" => mutable::replay(&calls(), &mut r, &mut out),
                    "serde" => serdes::values(&mut r, scale, &mut out),
                    "refused" => serdes::refused(&mut r, scale, &mut out),
                    "sdreplay" | "tdreplay" => serdes::replay(&calls(), &mut r, &mut out),
                    "mismatch" => serdes::mismatched(&mut r, scale, &mut out, &foreign),
                    "broken" => serdes::broken(&mut r, scale, &mut out, &foreign),
                    "conc" => conc::concurrent(&mut r, scale, &mut out),
                    "foreign" => docs::foreign(&mut r, scale, &mut out, &foreign),
                    "convert" => docs::convert(&mut r, scale, &mut out),
                    "fuzz" => docs::fuzz(&mut r, scale, &mut out, &foreign),
                    other => panic!("no family {other}"),
                }
            }
            util::journal_end();
            out.save(&args[5]);
            let counts: String = out.counts.iter().map(|(k, n)| format!(",\"{k}\":{n}")).collect();
            println!("{{\"traces\":{},\"events\":{}{counts}}}", out.lines.len(), out.events);
        }
        // fv known <finding>: is the finding still there?
        Some("known") => {
            let there = match args[2].as_str() {
                "dangling-key" => lives::dangling_key(),
                // in a process of their own
                "deep" | "chain" => docs::demo_fails(&args[2], 60) == docs::Demo::Crashed,
                "dag" => docs::demo_fails("dag", 3) == docs::Demo::Hangs,
                other => panic!("no finding {other}"),
            };
            println!("{}", if there { "THERE" } else { "GONE" });
        }
        // fv macros <shapes> <seed> <scale> <out>: the source of programs for fvm
        Some("macros") => {
            let shapes: Vec<String> = std::fs::read_to_string(&args[2]).unwrap().lines().map(str::to_owned).collect();
            let mut r = Rng::new(args[3].parse().unwrap(), 100);
            std::fs::write(&args[5], macrogen::generate(&shapes, args[4].parse().unwrap(), &mut r)).unwrap();
        }
        Some("demo") => docs::demo(&args[2]),
        _ => {
            eprintln!("usage: fv rec <families> <seed> <scale> <out>");
            std::process::exit(3);
        }
    }
}

/// Sequences of calls printed by TLC.
fn calls() -> Vec<String> {
    let path = std::env::var("FV_CALLS").expect("FV_CALLS");
    std::fs::read_to_string(path).unwrap().lines().map(str::to_owned).collect()
}
