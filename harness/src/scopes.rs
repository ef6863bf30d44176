//! Histories of the registry of scopes.

use crate::alloc;
use crate::codec::Sink;
use crate::util::{guarded, journal, Rng};
use fleece::{Encoder, Scope, SharedKeys};
use std::sync::{Arc, Weak};

pub fn bytes(len: usize, good: bool, tag: u8) -> Vec<u8> {
    if len < 2 {
        return vec![7; len];
    }
    // at the end the root: a pointer to a small integer, or to somewhere outside
    let mut v = vec![tag; len];
    let n = v.len();
    if good && n == 2 {
        v[0] = 0;
    } else if good && n % 2 == 0 {
        v[n - 4] = 0;
        v[n - 2] = 0x80;
        v[n - 1] = 1;
    } else {
        v[n - 2] = 0xBF;
        v[n - 1] = 0xFF;
    }
    v
}

pub struct Boom;
impl From<Boom> for Arc<[u8]> {
    fn from(_: Boom) -> Self {
        panic!("this data cannot be had")
    }
}

struct One {
    handles: Vec<Arc<Scope>>,
    weak: Option<Weak<Scope>>,
    /// Handles to the data: by itself, or by the root
    data: Vec<Held>,
    sk: Option<Arc<SharedKeys>>,
    lo: usize,
    hi: usize,
    good: bool,
}

#[allow(dead_code)]
enum Held {
    Data(Arc<[u8]>),
    Root(fleece::alloced::AllocedValue, Arc<[u8]>),
}

pub struct World {
    all: Vec<One>,
    ev: Vec<Ev>,
}

/// An event; addresses are replaced by their ranks in the end.
enum Ev {
    New(usize, usize, bool, bool),
    NewPanic(String),
    Plain(&'static str, usize),
    Finds(&'static str, Vec<(usize, i64)>),
    Obs(usize, usize, usize, bool, bool),
    Eq(usize, usize, bool),
    Bad(String),
}

impl World {
    pub fn new() -> Self {
        World { all: vec![], ev: vec![] }
    }

    /// Which of the living scopes is it?
    fn which(&self, s: &Arc<Scope>) -> i64 {
        for (i, o) in self.all.iter().enumerate() {
            if let Some(w) = &o.weak {
                if std::ptr::eq(w.as_ptr(), Arc::as_ptr(s)) && !o.handles.is_empty() {
                    return i as i64 + 1;
                }
            }
        }
        -1
    }

    fn add(&mut self, s: Result<Arc<Scope>, String>, sk: Option<Arc<SharedKeys>>, lo: usize, hi: usize, good: bool) {
        match s {
            Ok(s) => {
                self.ev.push(Ev::New(lo, hi, sk.is_some(), good));
                self.all.push(One {
                    weak: Some(Arc::downgrade(&s)),
                    handles: vec![s],
                    data: vec![],
                    sk,
                    lo,
                    hi,
                    good,
                });
            }
            Err(m) => self.ev.push(Ev::Bad(m)),
        }
    }

    /// `at`: where its data is to be allocated, if that matters
    pub fn create(&mut self, at: Option<usize>, len: usize, good: bool, sk: bool) {
        let sk = sk.then(|| Arc::new(SharedKeys::new()));
        let v = bytes(len, good, self.all.len() as u8 % 100);
        let good = good && len >= 2 && len % 2 == 0;
        let data: Arc<[u8]> = match at {
            Some(at) => alloc::place(at, len, || Arc::from(v)),
            None => Arc::from(v),
        };
        let lo = data.as_ptr() as usize;
        let s = guarded(|| Scope::new(data, sk.clone()));
        self.add(s, sk, lo, lo + len, good);
    }

    /// By a conversion inside of the library
    pub fn create_vec(&mut self, len: usize, good: bool) {
        let v = bytes(len, good, self.all.len() as u8 % 100);
        let good = good && len >= 2 && len % 2 == 0;
        let s = guarded(|| Scope::new(v, None));
        let lo = match &s {
            Ok(s) => s.data().map_or(0, |d| d.as_ptr() as usize),
            Err(_) => 0,
        };
        self.add(s, None, lo, lo + len, good);
    }

    /// By an encoder
    pub fn encode(&mut self, n: usize, with_sk: bool, r: &mut Rng) {
        let mut e = Encoder::new();
        if with_sk {
            let mut sk = SharedKeys::new();
            sk.encode_and_insert("some");
            e.set_shared_keys(sk);
        }
        if n > 0 {
            e.begin_array(n).unwrap();
            for _ in 1..n {
                e.write_value(r.next() >> (r.next() % 64)).unwrap();
            }
            e.end_array().unwrap();
        }
        let s = guarded(|| e.finish_scoped());
        let (mut lo, mut hi, mut sk) = (0, 0, None);
        if let Ok(s) = &s {
            if let Some(d) = s.data() {
                lo = d.as_ptr() as usize;
                hi = lo + d.len();
            }
            sk = s.shared_keys().cloned();
        }
        if with_sk != sk.is_some() {
            self.ev.push(Ev::Bad("the shared keys of the encoder".into()));
        }
        self.add(s, sk, lo, hi, n > 0);
    }

    pub fn panicking(&mut self) {
        let r = guarded(|| Scope::new(Boom, None));
        self.ev.push(match r {
            Ok(_) => Ev::Bad("a scope of nothing".into()),
            Err(m) => Ev::NewPanic(m),
        });
    }

    pub fn again(&mut self, i: usize) {
        let data = match &self.all[i].data[0] {
            Held::Data(d) | Held::Root(_, d) => d.clone(),
        };
        let sk = self.all[i].sk.clone();
        let (lo, hi, good) = (self.all[i].lo, self.all[i].hi, self.all[i].good);
        let s = guarded(|| Scope::new(data, sk.clone()));
        // the shared keys now belong to the new scope
        self.all[i].sk = None;
        self.add(s, sk, lo, hi, good);
    }

    pub fn clone(&mut self, i: usize) {
        let c = self.all[i].handles[0].clone();
        self.all[i].handles.push(c);
        self.ev.push(Ev::Plain("clone", i + 1));
    }

    /// A further handle by looking up an address
    pub fn find_handle(&mut self, a: usize) {
        match guarded(|| Scope::containing(a as *const u8)) {
            Ok(Some(s)) => {
                let w = self.which(&s);
                self.ev.push(Ev::Finds("get", vec![(a, w)]));
                if w > 0 {
                    self.all[w as usize - 1].handles.push(s);
                }
            }
            Ok(None) => self.ev.push(Ev::Finds("get", vec![(a, 0)])),
            Err(m) => self.ev.push(Ev::Bad(m)),
        }
    }

    pub fn drop(&mut self, i: usize) {
        let s = self.all[i].handles.pop();
        match guarded(|| drop(s)) {
            Ok(()) => self.ev.push(Ev::Plain("drop", i + 1)),
            Err(m) => self.ev.push(Ev::Bad(m)),
        }
    }

    pub fn remove(&mut self, i: usize) {
        let s = self.all[i].handles[0].clone();
        let r = guarded(|| s.remove());
        drop(s);
        match r {
            Ok(()) => self.ev.push(Ev::Plain("rm", i + 1)),
            Err(m) => self.ev.push(Ev::Bad(m)),
        }
    }

    pub fn hold(&mut self, i: usize, root: bool) {
        let s = &self.all[i].handles[0];
        let h = match (s.data(), if root { s.root() } else { None }) {
            (Some(d), Some(r)) => Held::Root(r, d),
            (Some(d), None) => Held::Data(d),
            (None, _) => {
                self.ev.push(Ev::Bad("a living scope has no data".into()));
                return;
            }
        };
        self.all[i].data.push(h);
        self.ev.push(Ev::Plain("hold", i + 1));
    }

    pub fn release(&mut self, i: usize) {
        self.all[i].data.pop();
        self.ev.push(Ev::Plain("rel", i + 1));
    }

    pub fn observe(&mut self, i: usize) {
        let s = &self.all[i].handles[0];
        let r = guarded(|| (s.range(), s.data().is_some(), s.root().is_some()));
        match r {
            Ok((Some(r), d, root)) => self.ev.push(Ev::Obs(i + 1, r.start, r.end, d, root)),
            Ok((None, ..)) => self.ev.push(Ev::Bad("a living scope has no range".into())),
            Err(m) => self.ev.push(Ev::Bad(m)),
        }
    }

    pub fn compare(&mut self, i: usize, j: usize) {
        let r = guarded(|| self.all[i].handles[0] == self.all[j].handles[0]);
        match r {
            Ok(b) => self.ev.push(Ev::Eq(i + 1, j + 1, b)),
            Err(m) => self.ev.push(Ev::Bad(m)),
        }
    }

    pub fn find(&mut self, addrs: &[usize]) {
        let mut out = vec![];
        for &a in addrs {
            let r = match guarded(|| Scope::containing(a as *const u8)) {
                Ok(Some(s)) => self.which(&s),
                Ok(None) => 0,
                Err(_) => -2,
            };
            out.push((a, r));
        }
        self.ev.push(Ev::Finds("find", out));
    }

    pub fn find_sk(&mut self, addrs: &[usize]) {
        let mut out = vec![];
        for &a in addrs {
            let r = match guarded(|| Scope::find_shared_keys(a as *const u8)) {
                Ok(Some(sk)) => self
                    .all
                    .iter()
                    .position(|o| o.sk.as_ref().is_some_and(|k| Arc::ptr_eq(k, &sk)))
                    .map_or(-1, |i| i as i64 + 1),
                Ok(None) => 0,
                Err(_) => -2,
            };
            out.push((a, r));
        }
        self.ev.push(Ev::Finds("fsk", out));
    }

    pub fn boundaries(&self) -> Vec<usize> {
        let mut v = vec![];
        for o in &self.all {
            if o.lo > 16 {
                v.extend([o.lo - 1, o.lo, (o.lo + o.hi) / 2, o.hi.max(1) - 1, o.hi, o.hi + 1]);
            }
        }
        v.sort_unstable();
        v.dedup();
        v
    }

    pub fn finish(mut self, name: &str, out: &mut Sink) {
        let mut addrs = vec![];
        for e in &self.ev {
            match e {
                Ev::New(a, b, ..) | Ev::Obs(_, a, b, ..) => addrs.extend([*a, *b]),
                Ev::Finds(_, v) => addrs.extend(v.iter().map(|x| x.0)),
                _ => {}
            }
        }
        addrs.sort_unstable();
        addrs.dedup();
        let rank = |a: &usize| addrs.binary_search(a).unwrap() + 1;
        let ev: Vec<String> = self
            .ev
            .iter()
            .map(|e| match e {
                Ev::New(a, b, sk, good) => format!("[\"new\",{},{},{sk},{good}]", rank(a), rank(b)),
                Ev::NewPanic(_) => "[\"newpanic\"]".into(),
                Ev::Plain(k, i) => format!("[\"{k}\",{i}]"),
                Ev::Finds(k, v) => {
                    let l: Vec<String> = v.iter().map(|(a, r)| format!("[{},{r}]", rank(a))).collect();
                    format!("[\"{k}\",[{}]]", l.join(","))
                }
                Ev::Obs(i, a, b, d, root) => format!("[\"obs\",{i},{},{},{d},{root}]", rank(a), rank(b)),
                Ev::Eq(i, j, b) => format!("[\"eq\",{i},{j},{b}]"),
                Ev::Bad(m) => format!("[\"bad\",{}]", crate::tree::str_json(m)),
            })
            .collect();
        self.all.clear();
        out.add(name, &ev);
    }

    fn look(&mut self, r: &mut Rng, all: bool) {
        let mut b = self.boundaries();
        if !all {
            while b.len() > 24 {
                let i = r.below(b.len());
                b.swap_remove(i);
            }
        }
        self.find(&b);
        if self.all.iter().any(|o| o.sk.is_some()) {
            self.find_sk(&b);
        }
    }
}

/// Cells of the arena, for the histories which the specification generates
fn cell(base: usize, c: usize) -> usize {
    base + c * alloc::CELL
}

/// Replay sequences of calls printed by TLC (ScopesMC).
pub fn replay(lines: &[String], r: &mut Rng, out: &mut Sink) {
    let base = alloc::base() + 1024;
    for (n, line) in lines.iter().enumerate() {
        journal(line);
        let j: serde_json::Value = serde_json::from_str(line).unwrap();
        let mut w = World::new();
        for c in j.as_array().unwrap() {
            let num = |i: usize| c[i].as_u64().unwrap() as usize;
            match c[0].as_str().unwrap() {
                "new" => {
                    let (lo, hi) = (num(1), num(2));
                    let sk = c[3].as_bool().unwrap();
                    if lo == hi {
                        w.create(None, 0, true, sk);
                    } else {
                        let len = (hi - lo) * alloc::CELL - 16;
                        let good = r.chance(3, 4);
                        // not always all of the last cell
                        let len = len - [0, 0, 2, 7, 40][r.below(5)];
                        w.create(Some(cell(base, lo)), len, good, sk);
                    }
                }
                "again" => w.again(num(1) - 1),
                "clone" => {
                    let i = num(1) - 1;
                    if r.chance(1, 2) {
                        w.clone(i);
                    } else {
                        let (lo, hi) = (w.all[i].lo, w.all[i].hi);
                        w.find_handle(lo + r.below((hi - lo).max(1)));
                        if w.all[i].handles.len() < 2 {
                            w.clone(i);
                        }
                    }
                }
                "drop" => w.drop(num(1) - 1),
                "rm" => w.remove(num(1) - 1),
                "hold" => w.hold(num(1) - 1, r.chance(1, 2)),
                "rel" => w.release(num(1) - 1),
                other => panic!("{other}"),
            }
            if r.chance(1, 20) {
                w.panicking();
            }
            w.look(r, true);
        }
        w.finish(&format!("sreplay/{n}"), out);
    }
}

/// Random histories, longer than those and with more scopes.
pub fn random(r: &mut Rng, scale: usize, out: &mut Sink) {
    for n in 0..60 * scale {
        journal(&format!("{{\"case\":\"scopes/{n}\"}}"));
        let base = alloc::base() + 1024;
        let cells = 12;
        let mut w = World::new();
        for _ in 0..r.range(8, 60) {
            let live: Vec<usize> = (0..w.all.len()).filter(|&i| !w.all[i].handles.is_empty()).collect();
            let held: Vec<usize> = (0..w.all.len()).filter(|&i| !w.all[i].data.is_empty()).collect();
            let good = r.chance(3, 4);
            match r.below(16) {
                0..=2 => {
                    // somewhere in the arena where there is room
                    let lo = r.range(1, cells);
                    let hi = lo + r.range(1, 4);
                    let (a, b) = (cell(base, lo), cell(base, hi));
                    let free = w.all.iter().all(|o| {
                        (o.handles.is_empty() && o.data.is_empty()) || o.hi <= a || o.lo.wrapping_sub(16) >= b
                    });
                    if free {
                        let len = b - a - 16 - [0, 0, 2, 7, 40][r.below(5)];
                        w.create(Some(a), len, good, r.chance(1, 2));
                    }
                }
                3 => {
                    let len = r.below(100);
                    w.create(None, len, good, r.chance(1, 2));
                }
                4 => {
                    let len = r.below(100);
                    w.create_vec(len, good);
                }
                5 => {
                    let n = r.below(8);
                    w.encode(n, r.chance(1, 2), r);
                }
                6 if !live.is_empty() => w.clone(*r.pick(&live)),
                7 => {
                    let b = w.boundaries();
                    if !b.is_empty() {
                        w.find_handle(*r.pick(&b));
                    }
                }
                8 | 9 | 10 if !live.is_empty() => w.drop(*r.pick(&live)),
                11 if !live.is_empty() => w.remove(*r.pick(&live)),
                12 if !live.is_empty() => w.hold(*r.pick(&live), r.chance(1, 2)),
                13 if !held.is_empty() => {
                    let i = *r.pick(&held);
                    let taken = live.iter().any(|&j| w.all[j].lo < w.all[i].hi && w.all[i].lo < w.all[j].hi);
                    if r.chance(1, 2) {
                        w.release(i);
                    } else if w.all[i].handles.is_empty() && !taken && w.all[i].hi > w.all[i].lo {
                        w.again(i);
                    }
                }
                14 if !live.is_empty() => w.compare(*r.pick(&live), *r.pick(&live)),
                15 if !live.is_empty() => {
                    w.observe(*r.pick(&live));
                    if r.chance(1, 3) {
                        w.panicking();
                    }
                }
                _ => continue,
            }
            w.look(r, false);
        }
        w.finish(&format!("scopes/{n}"), out);
    }
}
