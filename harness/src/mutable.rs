//! Histories of mutable collections and of the documents they are copied from.

use crate::alloc;
use crate::codec::*;
use crate::gen::*;
use crate::tree::{bj, scalar_of, steady, walk, By, T};
use crate::util::{guarded, journal, Rng};
use fleece::alloced::{AllocedArray, AllocedDict};
use fleece::encoder::{Encodable, NullValue, UndefinedValue};
use fleece::{Array, Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value};
use std::fmt::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

pub enum M {
    A(MutableArray),
    D(MutableDict),
}

/// Call `v.go` with the scalar as the Rust type it stands for.
trait Visit: Sized {
    fn go<E: Encodable>(self, v: E);
}

fn visit<V: Visit>(s: &S, v: V) {
    match s {
        S::I8(x) => v.go(*x),
        S::I16(x) => v.go(*x),
        S::I32(x) => v.go(*x),
        S::I64(x) => v.go(*x),
        S::Isize(x) => v.go(*x),
        S::U8(x) => v.go(*x),
        S::U16(x) => v.go(*x),
        S::U32(x) => v.go(*x),
        S::U64(x) => v.go(*x),
        S::Usize(x) => v.go(*x),
        S::F32(x) => v.go(*x),
        S::F64(x) => v.go(*x),
        S::Bool(x) => v.go(*x),
        S::Null => v.go(NullValue),
        S::Undef => v.go(UndefinedValue),
        S::Str(x) => v.go(x.as_str()),
        S::Data(x) => v.go(x.as_slice()),
        S::None => v.go(Option::<u32>::None),
        S::Some(x) => match &**x {
            S::I8(x) => v.go(Some(*x)),
            S::I16(x) => v.go(Some(*x)),
            S::I32(x) => v.go(Some(*x)),
            S::I64(x) => v.go(Some(*x)),
            S::Isize(x) => v.go(Some(*x)),
            S::U8(x) => v.go(Some(*x)),
            S::U16(x) => v.go(Some(*x)),
            S::U32(x) => v.go(Some(*x)),
            S::U64(x) => v.go(Some(*x)),
            S::Usize(x) => v.go(Some(*x)),
            S::F32(x) => v.go(Some(*x)),
            S::F64(x) => v.go(Some(*x)),
            S::Bool(x) => v.go(Some(*x)),
            S::Str(x) => v.go(Some(x.as_str())),
            S::Data(x) => v.go(Some(x.as_slice())),
            other => visit(other, v),
        },
        S::Ref(x) => match &**x {
            S::I64(x) => v.go(&x),
            S::U64(x) => v.go(x),
            S::F64(x) => v.go(x),
            S::Str(x) => v.go(&x.as_str()),
            S::Data(x) => v.go(&x.as_slice()),
            other => visit(other, v),
        },
    }
}

struct Push<'a>(&'a mut MutableArray);
impl Visit for Push<'_> {
    fn go<E: Encodable>(self, v: E) {
        self.0.push(&v);
    }
}
struct Set<'a>(&'a mut MutableArray, usize);
impl Visit for Set<'_> {
    fn go<E: Encodable>(self, v: E) {
        self.0.set(self.1, v);
    }
}
struct Ins<'a>(&'a mut MutableDict, &'a str);
impl Visit for Ins<'_> {
    fn go<E: Encodable>(self, v: E) {
        self.0.insert(self.1, v);
    }
}

fn push(a: &mut MutableArray, s: &S) {
    match s {
        // not sized
        S::Str(x) => a.push::<str>(x),
        S::Data(x) => a.push::<[u8]>(x),
        s => visit(s, Push(a)),
    }
}

#[derive(Clone, Debug)]
pub enum Step {
    I(usize, bool),
    K(String, bool),
}

/// What a collection to be inserted comes from
#[derive(Clone, Debug)]
pub enum Src {
    /// A handle, which is moved
    H(usize),
    /// A new empty collection, by way of the constant empty ones
    Empty,
    /// A collection of a document
    Doc(usize, Vec<usize>),
}

#[derive(Clone, Debug)]
pub enum Edit {
    Push(S),
    PushF(usize, Vec<usize>),
    Set(usize, S),
    SetF(usize, usize, Vec<usize>),
    SetColl(usize, bool, Src),
    Rm(usize),
    Ins(String, S),
    InsColl(String, bool, Src),
    RmK(String),
}

fn pos_json(p: &[usize]) -> String {
    format!("[{}]", p.iter().map(ToString::to_string).collect::<Vec<_>>().join(","))
}

fn kind(dict: bool) -> &'static str {
    if dict {
        "d"
    } else {
        "a"
    }
}

impl Step {
    fn json(&self) -> String {
        match self {
            Step::I(i, d) => format!("[\"i\",{i},\"{}\"]", kind(*d)),
            Step::K(k, d) => format!("[\"k\",{},\"{}\"]", bj(k.as_bytes()), kind(*d)),
        }
    }
}

fn path_json(p: &[Step]) -> String {
    format!("[{}]", p.iter().map(Step::json).collect::<Vec<_>>().join(","))
}

impl Src {
    fn json(&self) -> String {
        match self {
            Src::H(h) => format!("[\"h\",{}]", h + 1),
            Src::Empty => "[\"e\"]".into(),
            Src::Doc(d, p) => format!("[\"doc\",{},{}]", d + 1, pos_json(p)),
        }
    }
}

impl Edit {
    fn json(&self) -> String {
        let k = |k: &String| bj(k.as_bytes());
        match self {
            Edit::Push(s) => format!("[\"push\",{}]", s.tree().json()),
            Edit::PushF(d, p) => format!("[\"pushf\",{},{}]", d + 1, pos_json(p)),
            Edit::Set(i, s) => format!("[\"set\",{i},{}]", s.tree().json()),
            Edit::SetF(i, d, p) => format!("[\"setf\",{i},{},{}]", d + 1, pos_json(p)),
            Edit::SetColl(i, d, s) => format!("[\"setc\",{i},\"{}\",{}]", kind(*d), s.json()),
            Edit::Rm(i) => format!("[\"rm\",{i}]"),
            Edit::Ins(key, s) => format!("[\"ins\",{},{}]", k(key), s.tree().json()),
            Edit::InsColl(key, d, s) => format!("[\"insc\",{},\"{}\",{}]", k(key), kind(*d), s.json()),
            Edit::RmK(key) => format!("[\"rmk\",{}]", k(key)),
        }
    }
    fn of_dict(&self) -> bool {
        matches!(self, Edit::Ins(..) | Edit::InsColl(..) | Edit::RmK(..))
    }
}

pub enum MutRef<'a> {
    A(&'a mut MutableArray),
    D(&'a mut MutableDict),
}

fn reach<'a>(m: &'a mut M, path: &[Step]) -> Option<MutRef<'a>> {
    let mut at = match m {
        M::A(a) => MutRef::A(a),
        M::D(d) => MutRef::D(d),
    };
    for s in path {
        at = match (at, s) {
            (MutRef::A(a), Step::I(i, false)) => MutRef::A(a.get_array_mut(*i)?),
            (MutRef::A(a), Step::I(i, true)) => MutRef::D(a.get_dict_mut(*i)?),
            (MutRef::D(a), Step::K(k, false)) => MutRef::A(a.get_array_mut(k)?),
            (MutRef::D(a), Step::K(k, true)) => MutRef::D(a.get_dict_mut(k)?),
            _ => return None,
        };
    }
    Some(at)
}

struct Doc {
    scope: Option<Arc<Scope>>,
    /// For documents without a scope
    bytes: Option<Vec<u8>>,
    t: T,
}

impl Doc {
    fn root(&self) -> Option<fleece::alloced::AllocedValue> {
        match (&self.scope, &self.bytes) {
            (Some(s), _) => s.root(),
            (None, Some(b)) => Value::clone_from_bytes(b).ok(),
            _ => None,
        }
    }
    fn alive(&self) -> bool {
        self.scope.is_some() || self.bytes.is_some()
    }
}

pub struct World {
    hs: Vec<Option<M>>,
    docs: Vec<Doc>,
    pub ev: Vec<String>,
    keys: Vec<String>,
    frees: u64,
}

const ABSENT: &[&str] = &["", "zz", "absent key", "k"];

impl World {
    pub fn new() -> Self {
        World { hs: vec![], docs: vec![], ev: vec![], keys: vec![], frees: alloc::BAD_FREES.load(SeqCst) }
    }

    fn note_keys(&mut self, t: &T) {
        match t {
            T::Arr(v) => v.iter().for_each(|x| self.note_keys(x)),
            T::Dict(v) => {
                for (k, x) in v {
                    let k = String::from_utf8(k.clone()).unwrap();
                    if !self.keys.contains(&k) {
                        self.keys.push(k);
                    }
                    self.note_keys(x);
                }
            }
            _ => {}
        }
    }

    /// A document; with shared keys, filled beforehand with `sk`
    pub fn doc(&mut self, t: &T, sk: Option<&[String]>, scoped: bool, r: &mut Rng) {
        let mut e = Encoder::new();
        if let Some(sk) = sk {
            e.set_shared_keys(make_sk(sk));
        }
        assert_eq!(exec(&mut e, &Op::Bld(t.clone(), r.next()), None), "[\"ok\"]");
        let s = e.finish_scoped();
        let (d, keys) = (s.data().unwrap().to_vec(), s.shared_keys().map(|k| sk_list(k)).unwrap_or_default());
        drop(s);
        self.raw(d, keys, t.clone(), sk.is_some(), scoped);
    }

    pub fn raw(&mut self, d: Vec<u8>, keys: Vec<String>, t: T, shared: bool, scoped: bool) {
        self.note_keys(&t);
        self.ev.push(format!("[\"doc\",{},{}]", bj(&d), sk_json(&keys)));
        let (scope, bytes) = if scoped || !keys.is_empty() {
            let sk = (shared || !keys.is_empty()).then(|| Arc::new(make_sk(&keys)));
            (Some(alloc::capture(|| Scope::new(d, sk))), None)
        } else {
            (None, Some(alloc::capture(|| d.clone())))
        };
        self.docs.push(Doc { scope, bytes, t });
    }

    fn bad(&mut self, m: &str) {
        let m: String = m.chars().filter(|c| c.is_ascii_graphic() && *c != '"' && *c != '\\' || *c == ' ').take(120).collect();
        self.ev.push(format!("[\"bad\",\"{m}\"]"));
    }

    fn add(&mut self, event: String, m: Result<Option<M>, String>) {
        match m {
            Ok(m) => {
                self.ev.push(event.replace("GOT", if m.is_some() { "true" } else { "false" }));
                if let Some(m) = m {
                    self.hs.push(Some(m));
                }
            }
            Err(e) => self.bad(&format!("{event}: {e}")),
        }
    }

    pub fn create(&mut self, dict: bool, how: usize) {
        // not captured: the hash map in there is released with another size than it was allocated with
        let mut sk = SharedKeys::new();
        for k in self.keys.iter().step_by(2) {
            sk.encode_and_insert(k);
        }
        let sk = Arc::new(sk);
        let m = guarded(|| {
            alloc::capture(|| match (dict, how % 3) {
                (false, 0) => M::A(MutableArray::new()),
                (false, 1) => M::A(MutableArray::default()),
                (false, _) => M::A(AllocedArray::empty().into()),
                (true, 0) => M::D(MutableDict::new()),
                (true, 1) => M::D(MutableDict::new_with_shared_keys(sk.clone())),
                (true, _) => M::D(AllocedDict::empty().into()),
            })
        });
        self.add(format!("[\"new\",\"{}\"]", kind(dict)), m.map(Some));
    }

    /// A copy of the collection of a document at a position
    pub fn copy(&mut self, d: usize, p: &[usize], dict: bool, how: usize) {
        let Some(root) = self.docs[d].root() else { return };
        let scope = self.docs[d].scope.clone();
        let m = guarded(|| {
            alloc::capture(|| {
                if p.is_empty() && how % 6 >= 3 {
                    return match (&scope, how % 6, dict) {
                        (Some(s), 3, false) => MutableArray::from_scope(s).map(M::A),
                        (Some(s), 3, true) => MutableDict::from_scope(s).map(M::D),
                        (Some(s), 4, false) => MutableArray::try_from(&**s).ok().map(M::A),
                        (Some(s), 4, true) => MutableDict::try_from(&**s).ok().map(M::D),
                        (_, _, false) => root.to_array().map(|a| M::A(a.into())),
                        (_, _, true) => root.to_dict().map(|a| M::D(a.into())),
                    };
                }
                let v: &Value = at(&root, p)?;
                if dict {
                    v.as_dict().map(|x| M::D(if how % 2 == 0 { MutableDict::clone_from(x) } else { x.to_mutable() }))
                } else {
                    v.as_array().map(|x| {
                        M::A(match how % 3 {
                            0 => MutableArray::clone_from(x),
                            1 => x.to_mutable(),
                            _ => x.into(),
                        })
                    })
                }
            })
        });
        self.add(format!("[\"copy\",\"{}\",{},{},GOT]", kind(dict), d + 1, pos_json(p)), m);
    }

    pub fn clone(&mut self, h: usize, path: &[Step]) {
        let Some(m) = self.hs[h].as_mut() else { return };
        let c = guarded(|| {
            alloc::capture(|| {
                reach(m, path).map(|m| match m {
                    MutRef::A(a) => M::A(a.clone()),
                    MutRef::D(d) => M::D(d.clone()),
                })
            })
        });
        self.add(format!("[\"clone\",{},{},GOT]", h + 1, path_json(path)), c);
    }

    pub fn drop(&mut self, h: usize) {
        let m = self.hs[h].take();
        match guarded(|| drop(m)) {
            Ok(()) => self.ev.push(format!("[\"drop\",{}]", h + 1)),
            Err(e) => self.bad(&e),
        }
    }

    /// The document and its scope go; the copies stay.
    pub fn drop_doc(&mut self, d: usize) {
        let s = self.docs[d].scope.take();
        let mut b = self.docs[d].bytes.take();
        if let Some(b) = &mut b {
            b.fill(0xDD);
        }
        drop((s, b));
    }

    pub fn walk_doc(&mut self, d: usize) {
        if let Some(root) = self.docs[d].root() {
            match guarded(|| walk(&root, By::Iter)) {
                Ok(t) => self.ev.push(format!("[\"walk\",{},{}]", d + 1, t.json())),
                Err(e) => self.bad(&e),
            }
        }
    }

    pub fn edit(&mut self, h: usize, path: &[Step], e: &Edit) {
        // a handle which is inserted is moved
        let src = match e {
            Edit::SetColl(_, _, s) | Edit::InsColl(_, _, s) => Some(s.clone()),
            _ => None,
        };
        let mut moved = None;
        if let Some(Src::H(j)) = src {
            if j == h || self.hs.get(j).map_or(true, Option::is_none) {
                return;
            }
        }
        let Some(m) = self.hs[h].as_mut() else { return };
        let reached = match guarded(|| reach(m, path).map(|m| matches!(m, MutRef::D(_)))) {
            Ok(x) => x,
            Err(e) => return self.bad(&e),
        };
        if reached.is_some_and(|dict| dict != e.of_dict()) {
            return;
        }
        let root = match (e, &src) {
            (Edit::PushF(d, _) | Edit::SetF(_, d, _), _) | (_, Some(Src::Doc(d, _))) => match self.docs[*d].root() {
                Some(r) => Some(r),
                None => return,
            },
            _ => None,
        };
        let event = |res: &str| format!("[\"op\",{},{},{},\"{res}\"]", h + 1, path_json(path), e.json());
        if reached.is_none() {
            self.ev.push(event("none"));
            return;
        }
        if let Some(Src::H(j)) = src {
            match (&self.hs[j], e) {
                (Some(M::A(_)), Edit::SetColl(_, false, _) | Edit::InsColl(_, false, _)) => {}
                (Some(M::D(_)), Edit::SetColl(_, true, _) | Edit::InsColl(_, true, _)) => {}
                _ => return,
            }
            moved = self.hs[j].take();
        }
        let m = self.hs[h].as_mut().unwrap();
        let res = guarded(|| {
            alloc::capture(|| match (reach(m, path).unwrap(), e) {
                (MutRef::A(a), Edit::Push(s)) => push(a, s),
                (MutRef::A(a), Edit::PushF(_, p)) => a.push_fleece(at(root.as_ref().unwrap(), p).unwrap()),
                (MutRef::A(a), Edit::Set(i, s)) => visit(s, Set(a, *i)),
                (MutRef::A(a), Edit::SetF(i, _, p)) => a.set_fleece(*i, at(root.as_ref().unwrap(), p).unwrap()),
                (MutRef::A(a), Edit::SetColl(i, false, s)) => match s {
                    Src::H(_) => match moved.take() {
                        Some(M::A(x)) => a.set_array(*i, x),
                        _ => unreachable!(),
                    },
                    Src::Empty => a.set_array(*i, AllocedArray::empty()),
                    Src::Doc(_, p) => {
                        let x: &Array = at(root.as_ref().unwrap(), p).unwrap().as_array().unwrap();
                        a.set_array(*i, x);
                    }
                },
                (MutRef::A(a), Edit::SetColl(i, true, s)) => match s {
                    Src::H(_) => match moved.take() {
                        Some(M::D(x)) => a.set_dict(*i, x),
                        _ => unreachable!(),
                    },
                    Src::Empty => a.set_dict(*i, AllocedDict::empty()),
                    Src::Doc(_, p) if p.is_empty() => a.set_dict(*i, root.clone().unwrap().to_dict().unwrap()),
                    Src::Doc(_, p) => a.set_dict(*i, at(root.as_ref().unwrap(), p).unwrap().as_dict().unwrap().to_mutable()),
                },
                (MutRef::A(a), Edit::Rm(i)) => a.remove(*i),
                (MutRef::D(d), Edit::Ins(k, s)) => visit(s, Ins(d, k)),
                (MutRef::D(d), Edit::InsColl(k, false, s)) => match s {
                    Src::H(_) => match moved.take() {
                        Some(M::A(x)) => d.insert_array(k, x),
                        _ => unreachable!(),
                    },
                    Src::Empty => d.insert_array(k, MutableArray::new()),
                    Src::Doc(_, p) => d.insert_array(k, at(root.as_ref().unwrap(), p).unwrap().as_array().unwrap()),
                },
                (MutRef::D(d), Edit::InsColl(k, true, s)) => match s {
                    Src::H(_) => match moved.take() {
                        Some(M::D(x)) => d.insert_dict(k, x),
                        _ => unreachable!(),
                    },
                    Src::Empty => d.insert_dict(k, MutableDict::new()),
                    Src::Doc(_, p) if p.is_empty() => d.insert_dict(k, root.clone().unwrap().to_dict().unwrap()),
                    Src::Doc(_, p) => d.insert_dict(k, at(root.as_ref().unwrap(), p).unwrap().as_dict().unwrap().to_mutable()),
                },
                (MutRef::D(d), Edit::RmK(k)) => d.remove(k),
                _ => unreachable!(),
            })
        });
        self.ev.push(event(if res.is_ok() { "ok" } else { "panic" }));
    }

    pub fn dump(&mut self, h: usize, r: &mut Rng) {
        let Some(m) = &self.hs[h] else { return };
        let keys = &self.keys;
        let d = guarded(|| match m {
            M::A(a) => dump_array(a, keys, r),
            M::D(d) => dump_dict(d, keys, r),
        });
        match d {
            Ok(d) => self.ev.push(format!("[\"dump\",{},{d}]", h + 1)),
            Err(e) => self.bad(&format!("dump: {e}")),
        }
    }

    pub fn dump_all(&mut self, r: &mut Rng) {
        for h in 0..self.hs.len() {
            self.dump(h, r);
        }
    }

    pub fn end(mut self, name: &str, r: &mut Rng, out: &mut Sink) {
        self.dump_all(r);
        for d in 0..self.docs.len() {
            if self.docs[d].alive() {
                self.walk_doc(d);
            }
        }
        for d in 0..self.docs.len() {
            self.drop_doc(d);
        }
        self.dump_all(r);
        for h in 0..self.hs.len() {
            let m = self.hs[h].take();
            if let Err(e) = guarded(|| drop(m)) {
                self.bad(&e);
            }
        }
        let wrong = alloc::BAD_FREES.load(SeqCst) - self.frees;
        if wrong > 0 {
            self.bad(&format!("{wrong} wrong releases of memory"));
        }
        out.add(name, &self.ev);
    }

    fn living(&self) -> Vec<usize> {
        (0..self.hs.len()).filter(|h| self.hs[*h].is_some()).collect()
    }
}

fn ptr<X: ?Sized>(x: &X) -> usize {
    std::ptr::from_ref(x).cast::<u8>() as usize
}

/// What iteration gives, and where it lies
struct Item {
    json: String,
    at: usize,
}

fn flag(b: bool) -> i32 {
    i32::from(b)
}

fn item(
    (v, a, d): (bool, bool, bool),
    (value, array, dict): (Option<&Value>, Option<&MutableArray>, Option<&MutableDict>),
    keys: &[String],
    r: &mut Rng,
) -> Item {
    let consistent = v == value.is_some() && a == array.is_some() && d == dict.is_some();
    let (at, sub) = match (value, array, dict) {
        (Some(v), None, None) => (ptr(v), scalar_of(v).unwrap_or(T::Bad("collection")).json()),
        (None, Some(a), None) => (ptr(a), dump_array(a, keys, r)),
        (None, None, Some(d)) => (ptr(d), dump_dict(d, keys, r)),
        _ => (0, "[\"bad\",\"kinds\"]".to_string()),
    };
    Item { json: format!("{},{},{},{sub}", if consistent { flag(v) } else { -1 }, flag(a), flag(d)), at }
}

/// What a reference refers to
macro_rules! of_ref {
    ($x:expr) => {
        $x.value().map(ptr).or($x.array().map(ptr)).or($x.dict().map(ptr)).unwrap_or(0)
    };
}

fn hints<I: Iterator>(mut it: I, n: usize, steady: bool) -> String {
    let mut s = String::from(if steady { "[" } else { "[[-9,-9]," });
    // twice beyond the end
    for i in 0..n + 3 {
        let (lo, hi) = it.size_hint();
        let _ = write!(s, "{}[{lo},{}]", if i > 0 { "," } else { "" }, hi.map_or(-1, |x| x as i64));
        if it.next().is_some() != (i < n) {
            s.push_str(",[-9,-9]");
        }
    }
    s.push(']');
    s
}

fn same<X: ?Sized>(x: Option<&X>, at: usize) -> i32 {
    x.map_or(0, |x| if ptr(x) == at { 1 } else { -1 })
}

fn dump_array(a: &MutableArray, keys: &[String], r: &mut Rng) -> String {
    let items: Vec<Item> = if r.chance(1, 2) {
        a.iter().map(|x| item((x.is_value(), x.is_array(), x.is_dict()), (x.value(), x.array(), x.dict()), keys, r)).collect()
    } else {
        let mut v = vec![];
        for x in a {
            v.push(item((x.is_value(), x.is_array(), x.is_dict()), (x.value(), x.array(), x.dict()), keys, r));
        }
        v
    };
    let mut g = String::from("[");
    for i in 0..items.len().max(a.len()) + 2 {
        let at = items.get(i).map_or(usize::MAX, |x| x.at);
        let idx = guarded(|| same(Some(&a[i]), at)).unwrap_or(0);
        let _ = write!(
            g,
            "{}[{},{},{},{idx}]",
            if i > 0 { "," } else { "" },
            same(a.get(i), at),
            same(a.get_array(i), at),
            same(a.get_dict(i), at),
        );
    }
    g.push(']');
    let far = a.get(usize::MAX).is_none() && a.get_array(usize::MAX / 2).is_none() && a.get_dict(1 << 40).is_none();
    format!(
        "[\"ma\",{},{},[{}],{},{g}]",
        if far { a.len() as i64 } else { -1 },
        a.is_empty(),
        items.iter().map(|x| format!("[{}]", x.json)).collect::<Vec<_>>().join(","),
        hints(a.iter(), items.len(), steady(|| a.iter(), |x| (of_ref!(x), 0), a.len()) && steady(|| a.into_iter(), |x| (of_ref!(x), 0), a.len())),
    )
}

fn dump_dict(d: &MutableDict, keys: &[String], r: &mut Rng) -> String {
    let mut items: Vec<(String, Item)> = vec![];
    for (k, x) in d {
        items.push((k.to_string(), item((x.is_value(), x.is_array(), x.is_dict()), (x.value(), x.array(), x.dict()), keys, r)));
    }
    let pos = |p: Option<usize>| match p {
        None => 0,
        Some(p) => items.iter().position(|(_, x)| x.at == p).map_or(-1, |i| i as i64 + 1),
    };
    let mut ask: Vec<&str> = items.iter().map(|(k, _)| k.as_str()).collect();
    for _ in 0..3 {
        if !keys.is_empty() {
            ask.push(r.pick(keys).as_str());
        }
    }
    ask.push(*r.pick(ABSENT));
    let mut q = String::from("[");
    for (i, k) in ask.iter().enumerate() {
        let idx = guarded(|| pos(Some(ptr(&d[*k])))).unwrap_or(0);
        let _ = write!(
            q,
            "{}[{},{},{},{},{},{idx}]",
            if i > 0 { "," } else { "" },
            bj(k.as_bytes()),
            pos(d.get(k).map(ptr)),
            pos(d.get_array(k).map(ptr)),
            pos(d.get_dict(k).map(ptr)),
            flag(d.contains_key(k)),
        );
    }
    q.push(']');
    format!(
        "[\"md\",{},{},[{}],{},{q}]",
        d.len(),
        d.is_empty(),
        items.iter().map(|(k, x)| format!("[{},{}]", bj(k.as_bytes()), x.json)).collect::<Vec<_>>().join(","),
        hints(
            d.iter(),
            items.len(),
            steady(|| d.iter(), |(k, x)| (k.as_ptr() as usize, of_ref!(x)), d.len())
                && steady(|| d.into_iter(), |(k, x)| (k.as_ptr() as usize, of_ref!(x)), d.len()),
        ),
    )
}

/// Some path into a collection: usually one which exists
fn gen_path(m: &M, keys: &[String], r: &mut Rng) -> (Vec<Step>, bool) {
    enum R<'a> {
        A(&'a MutableArray),
        D(&'a MutableDict),
    }
    let mut path = vec![];
    let mut m = match m {
        M::A(a) => R::A(a),
        M::D(d) => R::D(d),
    };
    loop {
        let subs: Vec<Step> = match m {
            R::A(a) => a
                .iter()
                .enumerate()
                .filter(|(_, x)| !x.is_value())
                .map(|(i, x)| Step::I(i, x.is_dict()))
                .collect(),
            R::D(d) => d.iter().filter(|(_, x)| !x.is_value()).map(|(k, x)| Step::K(k.to_string(), x.is_dict())).collect(),
        };
        if r.chance(1, 30) {
            // probably nothing there
            let want = r.chance(1, 2);
            path.push(match m {
                R::A(a) => Step::I(r.below(a.len() + 2), want),
                R::D(_) => Step::K(if keys.is_empty() { "no".into() } else { r.pick(keys).clone() }, want),
            });
            return (path, want);
        }
        if subs.is_empty() || r.chance(2, 5) {
            return (path, matches!(m, R::D(_)));
        }
        let s = r.pick(&subs).clone();
        m = match (m, &s) {
            (R::A(a), Step::I(i, false)) => R::A(a.get_array(*i).unwrap()),
            (R::A(a), Step::I(i, true)) => R::D(a.get_dict(*i).unwrap()),
            (R::D(a), Step::K(k, false)) => match a.get_array(k) {
                Some(x) => R::A(x),
                None => return (path, true),
            },
            (R::D(a), Step::K(k, true)) => match a.get_dict(k) {
                Some(x) => R::D(x),
                None => return (path, true),
            },
            _ => unreachable!(),
        };
        path.push(s);
    }
}

fn positions(t: &T, p: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, u8)>) {
    out.push((p.clone(), match t {
        T::Arr(_) => 1,
        T::Dict(_) => 2,
        _ => 0,
    }));
    let subs: Vec<&T> = match t {
        T::Arr(v) => v.iter().collect(),
        // the order of the entries in the document is not known here: only of singletons
        T::Dict(v) if v.len() == 1 => v.iter().map(|x| &x.1).collect(),
        _ => vec![],
    };
    for (i, s) in subs.iter().enumerate() {
        p.push(i + 1);
        positions(s, p, out);
        p.pop();
    }
}

/// A scalar around the sizes at which slots change
fn gen_slot(r: &mut Rng) -> S {
    match r.below(4) {
        0 => {
            let n = r.range(11, 18);
            S::Str(ascii(r, n))
        }
        1 => {
            let n = r.range(11, 18);
            S::Data((0..n).map(|i| i as u8).collect())
        }
        _ => {
            let i = r.below(18);
            gen_typed(r, i)
        }
    }
}

pub fn random(r: &mut Rng, scale: usize, out: &mut Sink, foreign: &[crate::docs::Foreign]) {
    for n in 0..150 * scale {
        journal(&format!("{{\"case\":\"mutable/{n}\"}}"));
        let mut w = World::new();
        for _ in 0..r.below(4) {
            if !foreign.is_empty() && r.chance(1, 4) {
                let (d, sk) = r.pick(foreign).clone();
                if crate::docs::visits(&d) < 300 {
                    let s = Scope::new(d.clone(), Some(Arc::new(make_sk(&sk))));
                    let t = s.root().map(|v| walk(&v, By::Iter));
                    drop(s);
                    if let Some(t) = t {
                        w.raw(d, sk, t, true, true);
                        continue;
                    }
                }
            }
            let mut budget = r.range(3, 25);
            let depth = r.range(1, 4);
            let mut t = gen_coll(r, depth, &mut budget);
            if r.chance(1, 40) {
                // wide
                t = T::Arr(vec![t, T::Data(vec![9; 70_000]), T::str("x")]);
            }
            let style = r.below(8);
            let pre: Vec<String> = (0..r.below(4)).map(|_| gen_key(r, style)).collect();
            let shared = r.chance(1, 2);
            let scoped = r.chance(2, 3);
            w.doc(&t, shared.then_some(&pre[..]), scoped, r);
        }
        let style = r.below(8);
        for _ in 0..r.range(1, 6) {
            let k = gen_key(r, style);
            if !w.keys.contains(&k) {
                w.keys.push(k);
            }
        }
        let keys = w.keys.clone();
        for i in 0..r.range(4, 40) {
            let l = w.living();
            let doc = (!w.docs.is_empty()).then(|| r.below(w.docs.len())).filter(|d| w.docs[*d].alive());
            if l.is_empty() || (l.len() < 5 && r.chance(1, 6)) {
                let (dict, how) = (r.chance(1, 2), r.next() as usize);
                match doc {
                    Some(d) if r.chance(2, 3) => {
                        let mut v = vec![];
                        positions(&w.docs[d].t, &mut vec![], &mut v);
                        let (p, k) = r.pick(&v).clone();
                        let p = if r.chance(1, 2) { vec![] } else { p };
                        let dict = if r.chance(4, 5) && !p.is_empty() { k == 2 } else { dict };
                        w.copy(d, &p, dict, how);
                    }
                    _ => w.create(dict, how),
                }
                continue;
            }
            let h = *r.pick(&l);
            let (path, dict) = gen_path(w.hs[h].as_ref().unwrap(), &keys, r);
            match r.below(40) {
                0 | 1 => w.clone(h, &path),
                2 if l.len() > 1 => w.drop(h),
                3 => {
                    if let Some(d) = doc {
                        w.drop_doc(d);
                    }
                }
                4 => {
                    if let Some(d) = doc {
                        w.walk_doc(d);
                    }
                }
                5 => w.dump_all(r),
                _ => {
                    let len = match reach(w.hs[h].as_mut().unwrap(), &path) {
                        Some(MutRef::A(a)) => a.len(),
                        _ => 2,
                    };
                    let i = if r.chance(1, 25) { len + r.below(3) } else { r.below(len + 1).min(len.saturating_sub(1)) };
                    let k = r.pick(&keys).clone();
                    let sub = r.chance(1, 2);
                    let src = match r.below(4) {
                        0 => Src::Empty,
                        1 if doc.is_some() => {
                            let d = doc.unwrap();
                            let mut v = vec![];
                            positions(&w.docs[d].t, &mut vec![], &mut v);
                            v.retain(|x| x.1 == if sub { 2 } else { 1 });
                            match v.is_empty() {
                                true => Src::Empty,
                                false => Src::Doc(d, r.pick(&v).0.clone()),
                            }
                        }
                        _ => Src::H(*r.pick(&l)),
                    };
                    let fleece = doc.map(|d| {
                        let mut v = vec![];
                        positions(&w.docs[d].t, &mut vec![], &mut v);
                        (d, r.pick(&v).0.clone())
                    });
                    let e = if dict {
                        match r.below(6) {
                            0..=2 => Edit::Ins(k, gen_slot(r)),
                            3 | 4 => Edit::InsColl(k, sub, src),
                            _ => Edit::RmK(k),
                        }
                    } else {
                        match (r.below(10), fleece) {
                            (0..=2, _) => Edit::Push(gen_slot(r)),
                            (3, Some((d, p))) => Edit::PushF(d, p),
                            (4, Some((d, p))) => Edit::SetF(i, d, p),
                            (5 | 6, _) => Edit::SetColl(i, sub, src),
                            (7, _) => Edit::Rm(if r.chance(1, 10) { usize::MAX >> 40 } else { i }),
                            _ => Edit::Set(i, gen_slot(r)),
                        }
                    };
                    w.edit(h, &path, &e);
                }
            }
            if i % 2 == 0 {
                w.dump(h, r);
            }
        }
        w.end(&format!("mutable/{n}"), r, out);
    }
}

/// Replay sequences printed by TLC (MutableMC).
pub fn replay(lines: &[String], r: &mut Rng, out: &mut Sink) {
    let long = |c: u8| String::from_utf8(vec![c; 20]).unwrap();
    for (n, line) in lines.iter().enumerate() {
        journal(line);
        let mut w = World::new();
        let inner = T::Dict(vec![(b"aa".to_vec(), T::Int(3))]);
        w.doc(&T::Arr(vec![T::str(&long(b'd')), inner.clone(), T::Arr(vec![T::Int(70_000)])]), None, true, r);
        w.doc(&T::Dict(vec![(b"aa".to_vec(), T::Arr(vec![inner])), (b"b b".to_vec(), T::Null)]), Some(&["x".into()]), true, r);
        w.keys = vec!["aa".into(), "b b".into(), "c".into()];
        let j: serde_json::Value = serde_json::from_str(line).unwrap();
        let num = |j: &serde_json::Value| j.as_u64().unwrap() as usize;
        let key = |j: &serde_json::Value| ["aa", "b b"][num(j) - 1].to_string();
        for (m, c) in j.as_array().unwrap().iter().enumerate() {
            // ["new",dict] ["copy",dict,doc] ["clone",h,path] ["drop",h] ["dropdoc",d] ["op",h,path,[...]]
            let steps = |j: &serde_json::Value| -> Vec<Step> {
                j.as_array()
                    .unwrap()
                    .iter()
                    .map(|s| match s[0].as_str().unwrap() {
                        "i" => Step::I(num(&s[1]), s[2] == "d"),
                        _ => Step::K(key(&s[1]), s[2] == "d"),
                    })
                    .collect()
            };
            let scalar = |j: &serde_json::Value| match num(j) {
                1 => S::I64(n as i64 % 5000),
                _ => S::Str(long(b'a' + m as u8)),
            };
            let src = |j: &serde_json::Value| match j[0].as_str().unwrap() {
                "h" => Src::H(num(&j[1]) - 1),
                "e" => Src::Empty,
                _ => Src::Doc(num(&j[1]) - 1, vec![]),
            };
            let h = c[1].as_u64().unwrap_or(1) as usize - 1;
            if matches!(c[0].as_str(), Some("clone" | "drop" | "op")) && w.hs.get(h).map_or(true, Option::is_none) {
                break;
            }
            match c[0].as_str().unwrap() {
                "new" => w.create(c[1] == "d", n),
                "copy" => w.copy(num(&c[2]) - 1, &[], c[1] == "d", n + m),
                "clone" => w.clone(h, &steps(&c[2])),
                "drop" => w.drop(h),
                "dropdoc" => w.drop_doc(h),
                "op" => {
                    let o = &c[3];
                    let e = match o[0].as_str().unwrap() {
                        "push" => Edit::Push(scalar(&o[1])),
                        "pushf" => Edit::PushF(num(&o[1]) - 1, vec![]),
                        "set" => Edit::Set(num(&o[1]), scalar(&o[2])),
                        "setf" => Edit::SetF(num(&o[1]), num(&o[2]) - 1, vec![]),
                        "setc" => Edit::SetColl(num(&o[1]), o[2] == "d", src(&o[3])),
                        "rm" => Edit::Rm(num(&o[1])),
                        "ins" => Edit::Ins(key(&o[1]), scalar(&o[2])),
                        "insc" => Edit::InsColl(key(&o[1]), o[2] == "d", src(&o[3])),
                        "rmk" => Edit::RmK(key(&o[1])),
                        other => panic!("{other}"),
                    };
                    w.edit(h, &steps(&c[2]), &e);
                    w.dump(h, r);
                }
                other => panic!("{other}"),
            }
        }
        w.end(&format!("mreplay/{n}"), r, out);
    }
}
