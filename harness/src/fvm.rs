//! Runs the programs which `fv macros` has written (see macrogen.rs).
#![allow(dead_code)]

mod codec;
mod gen;
mod tree;
mod util;

use codec::Sink;
use tree::{walk, By, T};
use util::{guarded, journal, journal_end};

/// What a literal gives
trait Literal {
    fn read(&self, by: By) -> T;
}
impl Literal for fleece::Dict {
    fn read(&self, by: By) -> T {
        T::Dict(
            self.iter()
                .map(|(k, x)| {
                    (k.as_bytes().to_vec(), match by {
                        By::Iter => walk(x, by),
                        By::Get => self.get(k).map_or(T::Bad("missing key"), |x| walk(x, by)),
                    })
                })
                .collect(),
        )
    }
}
impl Literal for fleece::Array {
    fn read(&self, by: By) -> T {
        T::Arr(match by {
            By::Iter => self.iter().map(|x| walk(x, by)).collect(),
            By::Get => (0..self.len())
                .map(|i| self.get(i).map_or(T::Bad("missing element"), |x| walk(x, by)))
                .collect(),
        })
    }
}

/// Is there a dict with two entries of one key, of which a lookup can find only one?
fn twice(t: &T) -> bool {
    match t {
        T::Arr(v) => v.iter().any(twice),
        T::Dict(v) => {
            let mut k: Vec<_> = v.iter().map(|(k, _)| k).collect();
            k.sort();
            k.windows(2).any(|w| w[0] == w[1]) || v.iter().any(|(_, x)| twice(x))
        }
        _ => false,
    }
}

fn literal<L: Literal + ?Sized>(l: &L) -> T {
    let t = l.read(By::Iter);
    if twice(&t) || l.read(By::Get) == t {
        t
    } else {
        T::Bad("iteration and lookup differ")
    }
}

mod programs {
    use super::{literal, T};
    include!(env!("FV_MACROS"));
}

fn main() {
    util::install_panic_hook();
    util::open_journal();
    let args: Vec<String> = std::env::args().collect();
    let mut out = Sink::new();
    for (i, (tokens, p)) in programs::PROGRAMS.iter().enumerate() {
        journal(&format!("{{\"literal\":{tokens}}}"));
        let t = guarded(p).map_or_else(|m| format!("[\"panic\",{m:?}]"), |t| t.json());
        let ev = ["[\"new\",[]]".to_string(), format!("[\"mac\",{tokens}]"), format!("[\"finv\",{t}]")];
        out.add(&format!("macro/{i}"), &ev);
    }
    journal_end();
    out.save(&args[5]);
    println!("{{\"traces\":{},\"events\":{}}}", out.lines.len(), out.events);
}
