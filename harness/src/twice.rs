//! The same is written again and again: the document depends only on what is written.

use crate::alloc::set_poison;
use crate::codec::{calls_of, exec, make_sk, sk_json, sk_list, Op, Sink, S};
use crate::gen::*;
use crate::serdes::{self, Typed};
use crate::tree::{abbreviated, bj, T};
use crate::util::{guarded, journal, Rng};
use fleece::Encoder;

/// What may vary between two ways of writing the same
#[derive(Clone, Default)]
struct How {
    pre: Vec<u8>,
    scoped: bool,
    poison: Option<u8>,
    /// threads which do it at the same time
    threads: usize,
    /// other encoders get every call, too: one of the same kind, and one which is never finished
    others: usize,
}

/// The same value, otherwise wrapped
fn wrapped(s: &S, r: &mut Rng) -> S {
    let inner = match s {
        S::Some(x) | S::Ref(x) => (**x).clone(),
        S::Null | S::Undef | S::None => return s.clone(),
        x => x.clone(),
    };
    match r.below(3) {
        0 => S::Some(Box::new(inner)),
        1 => S::Ref(Box::new(inner)),
        _ => inner,
    }
}

fn varied(ops: &[Op], r: &mut Rng) -> Vec<Op> {
    ops.iter()
        .map(|o| match o {
            Op::Ba(_) => Op::Ba(any_capacity(r)),
            Op::Wv(s) => Op::Wv(wrapped(s, r)),
            Op::Wvs(v) => Op::Wvs(v.iter().map(|s| wrapped(s, r)).collect()),
            o => o.clone(),
        })
        .collect()
}

struct One {
    e: Encoder,
    ev: Vec<String>,
    res: Vec<String>,
    dead: bool,
}

impl One {
    fn new(sk: Option<&[String]>, how: &How) -> One {
        let begin = abbreviated(|| format!("[\"enc\",{},{}]", bj(&how.pre), sk.map_or("[]".into(), |k| format!("[{}]", sk_json(k)))));
        let mut e = if how.pre.is_empty() { Encoder::new() } else { Encoder::new_to_vec(how.pre.clone()) };
        if let Some(sk) = sk {
            e.set_shared_keys(make_sk(sk));
        }
        One { e, ev: vec![begin], res: vec![], dead: false }
    }

    fn exec(&mut self, op: &Op) {
        if self.dead {
            return;
        }
        let r = exec(&mut self.e, op, None);
        self.ev.push(abbreviated(|| op.json(&r)));
        self.dead = r.starts_with("[\"panic");
        self.res.push(r);
    }

    fn end(self, scoped: bool) -> (Vec<String>, Vec<String>) {
        let One { e, mut ev, res, dead } = self;
        if dead {
            std::mem::forget(e);
            return (ev, res);
        }
        let end = if scoped {
            guarded(|| {
                let s = e.finish_scoped();
                let d = s.data().map(|d| d.to_vec()).unwrap_or_default();
                let k = s.shared_keys().map(|k| sk_list(k));
                (d, k)
            })
        } else {
            guarded(|| (e.finish(), None))
        };
        ev.push(match end {
            Ok((d, k)) => abbreviated(|| format!("[\"end\",{},{}]", bj(&d), k.as_ref().map_or("[]".into(), |k| format!("[{}]", sk_json(k))))),
            Err(_) => "[\"panic\"]".into(),
        });
        (ev, res)
    }
}

/// Writes once; the events and the results of the calls.
fn once(ops: &[Op], sk: Option<&[String]>, how: &How) -> (Vec<String>, Vec<String>) {
    let mut all: Vec<One> = (0..1 + how.others).map(|_| One::new(sk, how)).collect();
    for (i, op) in ops.iter().enumerate() {
        for (k, o) in all.iter_mut().enumerate() {
            // The last one of several stops in the middle, and is then dropped
            if k == 0 || k < how.others || i < ops.len() / 2 {
                o.exec(op);
            }
        }
        if how.others > 0 && i == ops.len() * 3 / 4 {
            all.pop().filter(|o| o.dead).map(std::mem::forget);
        }
    }
    let mut out = (vec![], vec![]);
    for (k, o) in all.into_iter().enumerate() {
        if k > 0 && k == how.others {
            continue; // nothing was written at all
        }
        let (ev, res) = o.end(how.scoped);
        out.0.extend(ev);
        out.1 = res;
    }
    out
}

fn run(ops: &[Op], sk: Option<&[String]>, how: &How) -> (Vec<String>, Vec<String>) {
    set_poison(how.poison);
    let out = if how.threads > 1 {
        let all: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..how.threads).map(|_| s.spawn(|| once(ops, sk, how))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let res = all[0].1.clone();
        (all.into_iter().flat_map(|(ev, _)| ev).collect(), res)
    } else {
        once(ops, sk, how)
    };
    set_poison(None);
    out
}

pub fn encoders(r: &mut Rng, scale: usize, out: &mut Sink) {
    for i in 0..60 * scale {
        journal(&format!("{{\"case\":\"twice/{i}\"}}"));
        let style = r.below(8);
        let ops = match i % 4 {
            0 => {
                let n = r.range(1, 40);
                gen_calls(r, n, 12, style)
            }
            1 => {
                let n = r.range(1, 30);
                gen_calls(r, n, 16, style)
            }
            k => {
                let (depth, mut budget) = (r.range(1, 5), 40);
                let mut t = gen_coll(r, depth, &mut budget);
                if i % 8 == 2 {
                    let (style, n) = (r.below(8), r.range(10, 70));
                    let keys = gen_keys(r, n, style);
                    t = T::Dict(keys.into_iter().map(|k| (k.into_bytes(), if r.chance(1, 3) { gen_scalar(r) } else { T::str("") })).collect());
                }
                if i % 8 == 7 {
                    t = T::Arr(vec![T::str("before"), T::Data(vec![r.next() as u8; 0x3ff0 + r.below(40)]), t]);
                }
                let mut ops = vec![];
                if k == 2 {
                    calls_of(&t, r, &mut ops);
                } else {
                    ops.push(Op::Bld(t, r.next()));
                }
                ops
            }
        };
        let sk = (i % 3 == 1).then(|| {
            let n = r.below(8);
            gen_keys(r, n, style)
        });
        let sk = sk.as_deref();
        let base = How { scoped: sk.is_some(), ..How::default() };
        let (mut ev, res) = run(&ops, sk, &base);
        // Without the calls which were refused
        let ops: Vec<Op> = ops.into_iter().zip(&res).filter(|(_, r)| *r == "[\"ok\"]").map(|(o, _)| o).collect();
        let n = match r.below(8) {
            0 => r.range(0x3fc0, 0x4010),
            1 => r.range(0x7f80, 0x8010),
            2 => r.range(0xff80, 0x10010),
            3 => r.range(0x10000, 0x12000),
            _ => r.below(12),
        };
        let pre = vec![r.next() as u8; n];
        for how in [
            How { poison: Some(0xA5), ..base.clone() },
            How { poison: Some(0), scoped: !base.scoped, ..base.clone() },
            How { poison: Some(0xFF), pre: pre.clone(), ..base.clone() },
            How { others: 2, ..base.clone() },
            base.clone(),
            How { threads: 3, others: 1, ..base.clone() },
        ] {
            let ops = varied(&ops, r);
            ev.extend(run(&ops, sk, &how).0);
        }
        out.add(&format!("twice/{i}"), &ev);
    }
}

/// Serialization of the same value
pub fn values(r: &mut Rng, scale: usize, out: &mut Sink) {
    for i in 0..100 * scale {
        let mut ev = vec![];
        for _ in 0..6 {
            let depth = r.range(1, 4);
            let ty = serdes::gen_ty(r, depth);
            let mut budget = 20;
            let v = serdes::gen_val(r, &ty, &mut budget);
            journal(&format!("{{\"serialize twice\":{},\"value\":{}}}", ty.json(), v.json()));
            for poison in [None, Some(0xA5), Some(0xFF)] {
                set_poison(poison);
                let plain = guarded(|| fleece::to_bytes(Typed(&ty, &v)));
                let shared = guarded(|| fleece::to_bytes_with_shared_keys(Typed(&ty, &v)));
                set_poison(None);
                let res = |d: Option<(Vec<u8>, Vec<String>)>| d.map_or("[]".into(), |(d, k)| format!("[[{},{}]]", bj(&d), sk_json(&k)));
                let plain = res(plain.ok().and_then(Result::ok).map(|d| (d, vec![])));
                let shared = res(shared.ok().and_then(Result::ok).map(|s| {
                    let d = s.data().map(|d| d.to_vec()).unwrap_or_default();
                    (d, s.shared_keys().map(|k| sk_list(k)).unwrap_or_default())
                }));
                ev.push(format!("[\"val\",{},{},0,{plain}]", ty.json(), v.json()));
                ev.push(format!("[\"val\",{},{},1,{shared}]", ty.json(), v.json()));
            }
        }
        out.add(&format!("twice/value{i}"), &ev);
    }
}
