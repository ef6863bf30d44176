//! Concurrent use of the registry of scopes. Every operation is recorded with the times of its call and
//! its return; the specification finds an order which explains the results, if there is one.

use crate::alloc;
use crate::codec::Sink;
use crate::scopes::Boom;
use crate::util::{guarded, journal, Rng};
use fleece::{Scope, SharedKeys};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

static CLOCK: AtomicU64 = AtomicU64::new(1);
static NEXT: AtomicU64 = AtomicU64::new(1);

fn now() -> u64 {
    CLOCK.fetch_add(1, SeqCst)
}

struct Op {
    what: String,
    call: u64,
    ret: u64,
}

/// Data of `len` bytes which names the scope and ends with a small integer or is invalid
fn data(id: u64, len: usize, good: bool) -> Vec<u8> {
    let mut v = crate::scopes::bytes(len, good, 3);
    v[..4].copy_from_slice(&(id as u32).to_le_bytes());
    v
}

fn name_of(s: &Scope) -> i64 {
    s.data().map_or(-1, |d| {
        if d.len() < 8 {
            return -1;
        }
        i64::from(u32::from_le_bytes([d[0], d[1], d[2], d[3]]))
    })
}

struct Thread {
    ops: Vec<Op>,
    handles: Vec<(i64, Arc<Scope>)>,
    cells: Vec<usize>,
    all: Vec<usize>,
    sharing: bool,
}

const LEN: usize = alloc::CELL * 2 - 16;

impl Thread {
    fn go<R>(&mut self, f: impl FnOnce() -> R) -> (Result<R, String>, u64, u64) {
        let call = now();
        let r = guarded(f);
        let ret = now();
        (r, call, ret)
    }

    fn log(&mut self, what: String, call: u64, ret: u64) {
        self.ops.push(Op { what, call, ret });
    }

    fn step(&mut self, r: &mut Rng) {
        match r.below(20) {
            0..=5 => {
                // Its own cells, or (sometimes) anybody's
                let from = if self.sharing { &self.all } else { &self.cells };
                let n = from.len();
                let first = r.below(n);
                let Some(at) = (0..n).map(|k| from[(first + k) % n]).find(|c| alloc::claim(*c)) else {
                    return;
                };
                let id = NEXT.fetch_add(1, SeqCst);
                let len = LEN - [0, 0, 1, 64][r.below(4)];
                let v = data(id, len, r.chance(1, 2));
                let sk = r.chance(1, 2).then(|| {
                    let mut sk = SharedKeys::new();
                    sk.encode_and_insert(&format!("{id}"));
                    Arc::new(sk)
                });
                let has = sk.is_some();
                let arc: Arc<[u8]> = alloc::place(at, len, || Arc::from(v));
                let lo = arc.as_ptr() as usize - alloc::base();
                let (s, call, ret) = self.go(|| Scope::new(arc, sk));
                match s {
                    Ok(s) => {
                        self.log(format!("\"new\",{id},{lo},{},{has}", lo + len), call, ret);
                        self.handles.push((id as i64, s));
                    }
                    Err(_) => self.log("\"bad\",0".into(), call, ret),
                }
            }
            6..=10 => {
                let a = *r.pick(&self.all) + [16, 17, 64, 16 + LEN - 65, 16 + LEN - 1][r.below(5)];
                let (s, call, ret) = self.go(|| Scope::containing(a as *const u8));
                let a = a - alloc::base();
                match s {
                    Ok(Some(s)) => {
                        let id = name_of(&s);
                        self.log(format!("\"find\",{a},{id}"), call, ret);
                        self.handles.push((id, s));
                    }
                    Ok(None) => self.log(format!("\"find\",{a},0"), call, ret),
                    Err(_) => self.log("\"bad\",0".into(), call, ret),
                }
            }
            11 => {
                let a = *r.pick(&self.all) + [16, 64, 16 + LEN - 65][r.below(3)];
                let (s, call, ret) = self.go(|| Scope::find_shared_keys(a as *const u8));
                let a = a - alloc::base();
                match s {
                    Ok(s) => {
                        let id: i64 = s.map_or(0, |k| k.decode(0).and_then(|s| s.parse().ok()).unwrap_or(-1));
                        self.log(format!("\"fsk\",{a},{id}"), call, ret);
                    }
                    Err(_) => self.log("\"bad\",0".into(), call, ret),
                }
            }
            12 | 13 if !self.handles.is_empty() => {
                let (id, s) = self.handles[r.below(self.handles.len())].clone();
                let (x, call, ret) = self.go(|| s.remove());
                let what = if x.is_ok() { format!("\"rm\",{id}") } else { "\"bad\",0".into() };
                drop(s);
                self.log(what, call, ret);
            }
            14..=17 if !self.handles.is_empty() => {
                let i = r.below(self.handles.len());
                let (id, s) = self.handles.swap_remove(i);
                let (x, call, ret) = self.go(|| drop(s));
                let what = if x.is_ok() { format!("\"drop\",{id}") } else { "\"bad\",0".into() };
                self.log(what, call, ret);
            }
            18 => {
                // The data cannot be had
                let (x, call, ret) = self.go(|| Scope::new(Boom, None));
                let what = if x.is_err() { "\"fail\",0" } else { "\"bad\",0" };
                self.log(what.into(), call, ret);
            }
            19 => {
                // Bad data: empty, odd, invalid
                let v = vec![0xBFu8; r.below(4)];
                let (x, call, ret) = self.go(|| drop(Scope::new(v, None)));
                let what = if x.is_ok() { "\"fail\",0" } else { "\"bad\",0" };
                self.log(what.into(), call, ret);
            }
            _ => {}
        }
    }
}

pub fn concurrent(r: &mut Rng, scale: usize, out: &mut Sink) {
    let mut overlaps = 0;
    for n in 0..250 * scale {
        journal(&format!("{{\"case\":\"conc/{n}\"}}"));
        let threads = r.range(2, 4);
        let per = r.range(1, 3);
        let ops = if threads == 4 { 8 } else { 12 };
        let base = alloc::base() + (1 << 20);
        // the cells of different threads alternate in memory
        let cell = |t: usize, c: usize| base + (c * threads + t) * alloc::CELL * 2;
        let all: Vec<usize> = (0..threads).flat_map(|t| (0..per).map(move |c| cell(t, c))).collect();
        NEXT.store(1, SeqCst);
        for c in &all {
            alloc::offer(*c);
        }
        let sharing = n % 2 == 1;
        let gate = Barrier::new(threads);
        let noisy = r.below(4);
        let logs: Vec<(Vec<Op>, Vec<(i64, Arc<Scope>)>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let mut rr = Rng::new(r.next(), t as u64);
                    let all = all.clone();
                    let gate = &gate;
                    s.spawn(move || {
                        let mut th = Thread {
                            ops: vec![],
                            handles: vec![],
                            cells: (0..per).map(|c| cell(t, c)).collect(),
                            all,
                            sharing,
                        };
                        gate.wait();
                        alloc::set_noise(if noisy > 0 { rr.next() | 1 } else { 0 });
                        while th.ops.len() < ops {
                            if noisy > 1 {
                                alloc::noise();
                            }
                            th.step(&mut rr);
                        }
                        alloc::set_noise(0);
                        (th.ops, th.handles)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut ths = vec![];
        for (ops, handles) in logs {
            drop(handles);
            ths.push(ops);
        }
        let max = NEXT.load(SeqCst) - 1;
        // times and addresses by rank
        let mut times: Vec<u64> = ths.iter().flatten().flat_map(|o| [o.call, o.ret]).collect();
        times.sort_unstable();
        let rank = |t: u64| times.binary_search(&t).unwrap() + 1;
        for (i, a) in ths.iter().enumerate() {
            for b in &ths[i + 1..] {
                for x in a {
                    overlaps += b.iter().filter(|y| x.call < y.ret && y.call < x.ret).count();
                }
            }
        }
        let ev: Vec<String> = ths
            .iter()
            .map(|ops| {
                let l: Vec<String> =
                    ops.iter().map(|o| format!("[{},{},{}]", o.what, rank(o.call), rank(o.ret))).collect();
                format!("[{}]", l.join(","))
            })
            .collect();
        out.events += ths.iter().map(Vec::len).sum::<usize>();
        out.lines.push(format!("{{\"n\":\"conc/{n}\",\"max\":{max},\"ev\":[{}]}}", ev.join(",")));
        // The registry must still serve others
        let probe = Scope::new(vec![0u8, 1], None);
        drop(probe);
    }
    out.count("overlapping_pairs_of_operations", overlaps);
}
