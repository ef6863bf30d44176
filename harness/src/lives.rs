//! Histories of handles: how long the memory behind them lives, and what is read through them.

use crate::alloc;
use crate::codec::*;
use crate::gen::*;
use crate::tree::{bj, walk, By, T};
use crate::util::{guarded, journal, Rng};
use fleece::alloced::{Alloced, AllocedArray, AllocedDict, AllocedValue};
use fleece::{Array, Dict, Encoder, Scope, SharedKeys, Value};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

enum H {
    S(Arc<Scope>),
    V(AllocedValue),
    A(AllocedArray),
    D(AllocedDict),
    B(Arc<[u8]>),
}

struct Doc {
    d: Vec<u8>,
    sk: Option<Arc<SharedKeys>>,
    t: Option<T>,
}

struct World {
    hs: Vec<Option<H>>,
    doc_of: Vec<usize>,
    docs: Vec<Doc>,
    blocks: Vec<u32>,
    ev: Vec<String>,
    frees: u64,
    /// handles are compared
    compare: bool,
    far: u64,
}

fn addr_of(v: &Value) -> usize {
    std::ptr::from_ref(v).cast::<u8>() as usize
}

fn walk_array(a: &Array) -> T {
    T::Arr(a.iter().map(|x| walk(x, By::Iter)).collect())
}

fn walk_dict(d: &Dict) -> T {
    T::Dict(d.iter().map(|(k, x)| (k.as_bytes().to_vec(), walk(x, By::Iter))).collect())
}

impl H {
    /// Any address of its data
    fn addr(&self) -> usize {
        match self {
            H::S(s) => s.data().map_or(0, |d| d.as_ptr() as usize),
            H::V(v) => addr_of(v),
            H::A(a) => std::ptr::from_ref::<Array>(a).cast::<u8>() as usize,
            H::D(a) => std::ptr::from_ref::<Dict>(a).cast::<u8>() as usize,
            H::B(b) => b.as_ptr() as usize,
        }
    }

    fn dup(&self) -> H {
        match self {
            H::S(s) => H::S(s.clone()),
            H::V(v) => H::V(v.clone()),
            H::A(v) => H::A(v.clone()),
            H::D(v) => H::D(v.clone()),
            H::B(v) => H::B(v.clone()),
        }
    }

    fn tree(&self, by: By) -> Option<T> {
        Some(match self {
            H::S(s) => walk(s.root()?.value(), by),
            H::V(v) => walk(v, by),
            H::A(a) => match by {
                By::Iter => T::Arr(a.iter().map(|x| walk(x, by)).collect()),
                By::Get => T::Arr((0..a.len()).map(|i| a.get(i).map_or(T::Bad("missing"), |x| walk(x, by))).collect()),
            },
            H::D(d) => walk_dict(d),
            H::B(b) => walk(Value::from_bytes(b).ok()?, by),
        })
    }

    fn raw(&self) -> Option<Vec<u8>> {
        match self {
            H::S(s) => s.data().map(|d| d.to_vec()),
            H::B(b) => Some(b.to_vec()),
            _ => None,
        }
    }
}

/// The outcomes of comparing each with each, the number of different ones in a set, and whether each is found by
/// the pointer to what it refers to, through whatever trait
fn compared<T: ?Sized>(l: &[Alloced<T>]) -> String
where
    *const T: Ord,
{
    let ord = |o: Ordering| o as i8;
    let eq: Vec<Vec<u8>> = l.iter().map(|a| l.iter().map(|b| u8::from(a == b && !(a != b))).collect()).collect();
    let cmp: Vec<Vec<i8>> = l
        .iter()
        .map(|a| {
            l.iter()
                .map(|b| {
                    let c = a.cmp(b);
                    let same = a.partial_cmp(b) == Some(c)
                        && (a < b) == c.is_lt()
                        && (a <= b) == c.is_le()
                        && (a > b) == c.is_gt()
                        && (a >= b) == c.is_ge();
                    if same { ord(c) } else { 9 }
                })
                .collect()
        })
        .collect();
    let set: BTreeSet<&Alloced<T>> = l.iter().collect();
    let found = l.iter().all(|a| {
        let p: *const T = a.value();
        let q: &*const T = a.borrow();
        let r: &T = a.borrow();
        let owned: BTreeSet<Alloced<T>> = l.iter().cloned().collect();
        std::ptr::eq(p, *q)
            && std::ptr::eq(p, r)
            && std::ptr::eq(p, AsRef::<T>::as_ref(a))
            && std::ptr::eq(p, std::ops::Deref::deref(a))
            && set.contains(a)
            && owned.get(&p).is_some_and(|x| x == a && std::ptr::eq(x.value(), p))
    });
    let mut sorted: Vec<&Alloced<T>> = l.iter().collect();
    sorted.sort();
    sorted.dedup();
    format!("{eq:?},{cmp:?},[{},{}],{found}", set.len(), sorted.len())
}

fn encode(t: &T, sk: Option<&SharedKeys>, r: &mut Rng) -> (Vec<u8>, Vec<String>) {
    let mut e = Encoder::new();
    if let Some(sk) = sk {
        e.set_shared_keys(sk.clone());
    }
    assert_eq!(exec(&mut e, &Op::Bld(t.clone(), r.next()), None), "[\"ok\"]");
    let s = e.finish_scoped();
    (s.data().unwrap().to_vec(), s.shared_keys().map(|k| sk_list(k)).unwrap_or_default())
}

impl World {
    fn new() -> Self {
        World { hs: vec![], doc_of: vec![], docs: vec![], blocks: vec![], ev: vec![], frees: alloc::BAD_FREES.load(SeqCst), compare: std::env::var("FV_COMPARE").is_ok(), far: 1 }
    }

    fn doc(&mut self, t: &T, shared: bool, r: &mut Rng) {
        let empty = SharedKeys::new();
        let (d, sk) = encode(t, shared.then_some(&empty), r);
        self.ev.push(format!("[\"doc\",{},{}]", bj(&d), sk_json(&sk)));
        let sk = (!sk.is_empty()).then(|| Arc::new(make_sk(&sk)));
        self.docs.push(Doc { d, sk, t: Some(t.clone()) });
    }

    fn invalid(&mut self, d: &[u8]) {
        self.ev.push(format!("[\"doc\",{},[]]", bj(d)));
        self.docs.push(Doc { d: d.to_vec(), sk: None, t: None });
    }

    fn blk(&mut self, h: &H) -> i64 {
        let b = alloc::block_of(h.addr());
        if let Some(b) = b {
            if !self.blocks.contains(&b) {
                self.blocks.push(b);
            }
        }
        b.map_or(0, |b| self.blocks.iter().position(|x| *x == b).unwrap() as i64 + 1)
    }

    /// Record the outcome of something which gives a handle
    fn got(&mut self, event: &str, doc: usize, f: impl FnOnce() -> Option<H>) {
        if self.compare {
            self.far = self.far.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
            alloc::set_far(self.far >> 33);
        }
        let r = guarded(|| alloc::capture(f));
        let blk = match r {
            Ok(Some(h)) => {
                let b = self.blk(&h);
                self.hs.push(Some(h));
                self.doc_of.push(doc);
                b
            }
            Ok(None) => -1,
            Err(_) => -2,
        };
        self.ev.push(format!("[{event},{blk}]"));
    }

    fn make(&mut self, kind: &str, doc: usize, r: &mut Rng) {
        let d = self.docs[doc].d.clone();
        let sk = self.docs[doc].sk.clone();
        let t = self.docs[doc].t.clone();
        let how = r.below(4);
        let unchecked = t.is_some() && r.chance(1, 3);
        let ev = format!("\"mk\",\"{kind}\",{}", doc + 1);
        let seed = r.next();
        match kind {
            "S" => self.got(&ev, doc, move || {
                Some(H::S(match how {
                    0 => Scope::new(d.clone(), sk),
                    1 => Scope::new(d.clone().into_boxed_slice(), sk),
                    2 => Scope::new(Arc::<[u8]>::from(&d[..]), sk),
                    _ => Scope::new(Arc::<[u8]>::from(d.clone()), sk),
                }))
            }),
            "V" if how == 0 && t.as_ref().is_some_and(T::is_coll) && sk.is_none() => self.got(&ev, doc, move || {
                let mut e = Encoder::new();
                exec(&mut e, &Op::Bld(t.unwrap(), seed), None);
                Some(H::V(e.finish_value()))
            }),
            "V" => self.got(&ev, doc, move || {
                if unchecked {
                    Some(H::V(unsafe { Value::clone_from_bytes_unchecked(&d) }))
                } else {
                    Value::clone_from_bytes(&d).ok().map(H::V)
                }
            }),
            "A" => self.got(&ev, doc, move || Array::clone_from_bytes(&d).ok().map(H::A)),
            _ => self.got(&ev, doc, move || Dict::clone_from_bytes(&d).ok().map(H::D)),
        }
    }

    fn h(&self, h: usize) -> &H {
        self.hs[h].as_ref().unwrap()
    }

    fn clone(&mut self, h: usize) {
        let c = guarded(|| alloc::capture(|| self.h(h).dup()));
        let doc = self.doc_of[h];
        self.got(&format!("\"clone\",{}", h + 1), doc, move || c.ok());
    }

    fn root(&mut self, h: usize) {
        let H::S(s) = self.h(h) else { return };
        let s = s.clone();
        self.got(&format!("\"root\",{}", h + 1), self.doc_of[h], move || s.root().map(H::V));
    }

    fn data(&mut self, h: usize) {
        let H::S(s) = self.h(h) else { return };
        let s = s.clone();
        self.got(&format!("\"data\",{}", h + 1), self.doc_of[h], move || s.data().map(H::B));
    }

    fn to(&mut self, h: usize, kind: &str) {
        let Some(H::V(_)) = &self.hs[h] else { return };
        let Some(H::V(v)) = self.hs[h].take() else { return };
        let ev = format!("\"to\",{},\"{kind}\"", h + 1);
        let doc = self.doc_of[h];
        if kind == "A" {
            self.got(&ev, doc, move || v.to_array().map(H::A));
        } else {
            self.got(&ev, doc, move || v.to_dict().map(H::D));
        }
    }

    fn find(&mut self, h: usize, r: &mut Rng) {
        let a = match self.h(h) {
            H::S(s) => {
                let d = s.data().unwrap();
                d.as_ptr() as usize + r.below(d.len())
            }
            H::B(d) => d.as_ptr() as usize + r.below(d.len()),
            x => x.addr(),
        };
        self.got(&format!("\"find\",{}", h + 1), self.doc_of[h], move || Scope::containing(a as *const u8).map(H::S));
    }

    fn again(&mut self, h: usize) {
        let H::B(b) = self.h(h) else { return };
        let b = b.clone();
        let sk = self.docs[self.doc_of[h]].sk.clone();
        self.got(&format!("\"again\",{}", h + 1), self.doc_of[h], move || Some(H::S(Scope::new(b, sk))));
    }

    fn has_scope(&self, h: usize) -> bool {
        let a = alloc::block_of(self.h(h).addr());
        self.hs.iter().flatten().any(|x| matches!(x, H::S(_)) && alloc::block_of(x.addr()) == a)
    }

    fn rm(&mut self, h: usize) {
        let H::S(s) = self.h(h) else { return };
        let s = s.clone();
        self.ev.push(match guarded(|| s.remove()) {
            Ok(()) => format!("[\"rm\",{}]", h + 1),
            Err(_) => "[\"bad\",\"remove\"]".into(),
        });
    }

    /// All these at the same time
    fn drop(&mut self, hs: &[usize]) {
        let taken: Vec<H> = hs.iter().map(|&h| self.hs[h].take().unwrap()).collect();
        let n = taken.len();
        if n == 1 {
            drop(taken);
        } else {
            let gate = std::sync::Barrier::new(n);
            std::thread::scope(|s| {
                for x in taken {
                    let gate = &gate;
                    s.spawn(move || {
                        gate.wait();
                        drop(x);
                    });
                }
            });
        }
        let l: Vec<usize> = hs.iter().map(|h| h + 1).collect();
        self.ev.push(format!("[\"drop\",{l:?}]"));
    }

    fn walk(&mut self, h: usize, by: By) {
        let t = guarded(|| self.h(h).tree(by)).unwrap_or(Some(T::Bad("panic")));
        if let Some(t) = t {
            self.ev.push(format!("[\"walk\",{},{}]", h + 1, t.json()));
        } else if self.docs[self.doc_of[h]].t.is_some() {
            self.ev.push("[\"bad\",\"nothing to read\"]".into());
        }
        if let Some(b) = self.h(h).raw() {
            self.ev.push(format!("[\"bytes\",{},{}]", h + 1, b == self.docs[self.doc_of[h]].d));
        }
    }

    /// To another thread, read there, and brought back
    fn send(&mut self, h: usize) {
        let x = self.hs[h].take().unwrap();
        let (x, t) = std::thread::spawn(move || {
            let t = guarded(|| x.tree(By::Iter)).unwrap_or(Some(T::Bad("panic")));
            let c = x.dup();
            drop(x);
            (c, t)
        })
        .join()
        .unwrap();
        self.hs[h] = Some(x);
        if let Some(t) = t {
            self.ev.push(format!("[\"walk\",{},{}]", h + 1, t.json()));
        }
    }

    fn live(&mut self) {
        let l: Vec<String> =
            self.blocks.iter().enumerate().map(|(i, b)| format!("[{},{}]", i + 1, alloc::allocated(*b))).collect();
        if !l.is_empty() {
            self.ev.push(format!("[\"live\",[{}]]", l.join(",")));
        }
        let n = alloc::BAD_FREES.load(SeqCst) - self.frees;
        if n > 0 {
            self.ev.push(format!("[\"frees\",{n}]"));
        }
    }

    fn living(&self) -> Vec<usize> {
        (0..self.hs.len()).filter(|&h| self.hs[h].is_some()).collect()
    }

    /// Compares all handles of a kind
    fn cmp(&mut self) {
        if !self.compare {
            return;
        }
        let l = self.living();
        for kind in ["S", "V", "A", "D"] {
            let mut which = vec![];
            let (mut ss, mut vs, mut aa, mut ds) = (vec![], vec![], vec![], vec![]);
            for &h in &l {
                match (self.h(h), kind) {
                    (H::S(x), "S") => ss.push(x.clone()),
                    (H::V(x), "V") => vs.push(x.clone()),
                    (H::A(x), "A") => aa.push(x.clone()),
                    (H::D(x), "D") => ds.push(x.clone()),
                    _ => continue,
                }
                which.push(h + 1);
            }
            if which.is_empty() {
                continue;
            }
            let r = guarded(|| match kind {
                "S" => {
                    let eq: Vec<Vec<u8>> = ss.iter().map(|a| ss.iter().map(|b| u8::from(**a == **b)).collect()).collect();
                    format!("{eq:?},[],[],true")
                }
                "V" => compared(&vs),
                "A" => compared(&aa),
                _ => compared(&ds),
            });
            self.ev.push(match r {
                Ok(r) => format!("[\"cmp\",\"{kind}\",{which:?},{r}]"),
                Err(_) => "[\"bad\",\"comparison panicked\"]".into(),
            });
        }
    }

    /// The constants
    fn empties(&mut self) {
        if !self.compare {
            return;
        }
        let r = guarded(|| {
            let (a, b, d, e) = (AllocedArray::empty(), AllocedArray::empty(), AllocedDict::empty(), AllocedDict::empty());
            let t = [walk_array(&a), walk_array(&b.clone()), walk_dict(&d), walk_dict(&e.clone())];
            let t: Vec<String> = t.iter().map(T::json).collect();
            format!("[\"empties\",[{}],{}]", t.join(","), a == b && d == e && a.is_empty() && d.is_empty())
        });
        self.ev.push(r.unwrap_or("[\"bad\",\"empty\"]".into()));
    }

    /// Everything which is still there is read, then dropped in some order
    fn end(mut self, name: &str, r: &mut Rng, out: &mut Sink) {
        loop {
            let l = self.living();
            for &h in &l {
                self.walk(h, if r.chance(1, 2) { By::Iter } else { By::Get });
            }
            if l.is_empty() {
                break;
            }
            let h = *r.pick(&l);
            self.drop(&[h]);
            self.live();
        }
        out.add(name, &self.ev);
    }
}

pub fn random(r: &mut Rng, scale: usize, out: &mut Sink) {
    for n in 0..80 * scale {
        journal(&format!("{{\"case\":\"lives/{n}\"}}"));
        let mut w = World::new();
        for _ in 0..r.range(1, 3) {
            let mut budget = 20;
            let depth = r.range(1, 4);
            let mut t = gen_coll(r, depth, &mut budget);
            if r.chance(1, 50) {
                t = T::Arr(vec![t, T::Data(vec![9; 40_000])]);
            }
            let shared = r.chance(1, 3);
            w.doc(&t, shared, r);
        }
        if r.chance(1, 3) {
            let k = r.range(1, 20);
            let d: Vec<u8> = (0..k).map(|i| if i + 2 < k { 0 } else { 0xBF }).collect();
            w.invalid(&d);
        }
        for _ in 0..r.range(6, 40) {
            let l = w.living();
            if l.is_empty() || (l.len() < 8 && r.chance(1, 5)) {
                let doc = r.below(w.docs.len());
                let kind = *r.pick(&["S", "S", "V", "A", "D"]);
                w.make(kind, doc, r);
            } else {
                let h = *r.pick(&l);
                match r.below(16) {
                    0 | 1 if l.len() < 10 => w.clone(h),
                    2 => w.drop(&[h]),
                    3 => {
                        let mut some = l.clone();
                        while some.len() > r.range(1, 5) {
                            let i = r.below(some.len());
                            some.swap_remove(i);
                        }
                        w.drop(&some);
                    }
                    4 | 5 => w.root(h),
                    6 => w.data(h),
                    7 => w.to(h, "A"),
                    8 => w.to(h, "D"),
                    9 => w.find(h, r),
                    10 if r.chance(1, 2) => w.rm(h),
                    11 if matches!(w.h(h), H::B(_)) && !w.has_scope(h) => w.again(h),
                    12 => w.walk(h, By::Get),
                    13 => w.send(h),
                    14 => w.cmp(),
                    15 => w.empties(),
                    _ => continue,
                }
            }
            w.live();
        }
        w.end(&format!("lives/{n}"), r, out);
    }
}

/// Replay sequences printed by TLC (LifetimesMC).
pub fn replay(lines: &[String], r: &mut Rng, out: &mut Sink) {
    for (n, line) in lines.iter().enumerate() {
        journal(line);
        let mut w = World::new();
        w.doc(&T::Arr(vec![T::str("elem"), T::Int(n as i128), T::Arr(vec![T::Int(70_000)])]), false, r);
        w.doc(&T::Dict(vec![(b"key with space".to_vec(), T::str("value")), (b"k".to_vec(), T::Null)]), false, r);
        w.invalid(&[1, 2, 3, 4, 0xBF, 0xFF]);
        w.doc(&T::Dict(vec![(b"one".to_vec(), T::Int(1)), (b"two".to_vec(), T::str("abc"))]), true, r);
        let j: serde_json::Value = serde_json::from_str(line).unwrap();
        for c in j.as_array().unwrap() {
            let h = c[1].as_u64().unwrap_or(1) as usize - 1;
            match c[0].as_str().unwrap() {
                "mk" => w.make(c[1].as_str().unwrap(), c[2].as_u64().unwrap() as usize - 1, r),
                // what was returned is not what the specification expects: the trace shows it already
                _ if h >= w.hs.len() || w.hs[h].is_none() => break,
                "clone" => w.clone(h),
                "drop" => w.drop(&[h]),
                "root" => w.root(h),
                "data" => w.data(h),
                "to" => w.to(h, c[2].as_str().unwrap()),
                "find" => w.find(h, r),
                "rm" => w.rm(h),
                "again" => w.again(h),
                "send" => w.send(h),
                other => panic!("{other}"),
            }
            w.live();
        }
        w.cmp();
        w.end(&format!("lreplay/{n}"), r, out);
    }
}

/// Known finding: the keys which the iterator over a dict gives borrow from the dict, but shared keys are
/// stored elsewhere, and released with the scope.
pub fn dangling_key() -> bool {
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    e.begin_dict().unwrap();
    e.write_key("sharedkey").unwrap();
    e.write_value(1).unwrap();
    e.end_dict().unwrap();
    let s = e.finish_scoped();
    let data = s.data().unwrap().to_vec();
    drop(s);
    let sk = alloc::capture(|| Arc::new(make_sk(&["sharedkey".to_string()])));
    let scope = alloc::capture(|| Scope::new(data, Some(sk)));
    let root = scope.root().unwrap().to_dict().unwrap();
    let (key, _) = root.iter().next().unwrap();
    let before = key.as_bytes().to_vec();
    drop(scope);
    // `root` is still alive, and so, as far as its type says, is `key`
    let after: Vec<u8> = (0..before.len()).map(|i| unsafe { key.as_ptr().add(i).read_volatile() }).collect();
    before == b"sharedkey" && after != before
}
