//! Executes encoder calls and reads, and records them as traces.

use crate::tree::{abbreviated, bj, bytes_json, steps, walk, By, T};
use crate::util::{guarded, journal, res_json, Rng};
use fleece::encoder::{NullValue, UndefinedValue};
use fleece::{Encoder, Scope, SharedKeys, Value};
use std::fmt::Write;
use std::sync::Arc;

/// A scalar together with the Rust type it is written as.
#[derive(Clone, Debug)]
pub enum S {
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Isize(isize),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Usize(usize),
    F32(f32),
    F64(f64),
    Bool(bool),
    Null,
    Undef,
    Str(String),
    Data(Vec<u8>),
    None,
    Some(Box<S>),
    /// By reference
    Ref(Box<S>),
}

impl S {
    pub fn tree(&self) -> T {
        match self {
            S::I8(v) => T::Int(*v as i128),
            S::I16(v) => T::Int(*v as i128),
            S::I32(v) => T::Int(*v as i128),
            S::I64(v) => T::Int(*v as i128),
            S::Isize(v) => T::Int(*v as i128),
            S::U8(v) => T::Int(*v as i128),
            S::U16(v) => T::Int(*v as i128),
            S::U32(v) => T::Int(*v as i128),
            S::U64(v) => T::Int(*v as i128),
            S::Usize(v) => T::Int(*v as i128),
            S::F32(v) => T::f32(*v),
            S::F64(v) => T::f64(*v),
            S::Bool(b) => T::Bool(*b),
            S::Null | S::None => T::Null,
            S::Undef => T::Undef,
            S::Str(s) => T::str(s),
            S::Data(d) => T::Data(d.clone()),
            S::Some(s) | S::Ref(s) => s.tree(),
        }
    }

    pub fn write(&self, e: &mut Encoder) -> Result<(), fleece::encoder::EncodeError> {
        match self {
            S::I8(v) => e.write_value(*v),
            S::I16(v) => e.write_value(*v),
            S::I32(v) => e.write_value(*v),
            S::I64(v) => e.write_value(*v),
            S::Isize(v) => e.write_value(*v),
            S::U8(v) => e.write_value(*v),
            S::U16(v) => e.write_value(*v),
            S::U32(v) => e.write_value(*v),
            S::U64(v) => e.write_value(*v),
            S::Usize(v) => e.write_value(*v),
            S::F32(v) => e.write_value(*v),
            S::F64(v) => e.write_value(*v),
            S::Bool(v) => e.write_value(*v),
            S::Null => e.write_value(NullValue),
            S::Undef => e.write_value(UndefinedValue),
            S::Str(s) => e.write_value(s.as_str()),
            S::Data(d) => e.write_value(d.as_slice()),
            S::None => e.write_value(Option::<i64>::None),
            S::Some(s) => match &**s {
                S::I8(v) => e.write_value(Some(*v)),
                S::I16(v) => e.write_value(Some(*v)),
                S::I32(v) => e.write_value(Some(*v)),
                S::I64(v) => e.write_value(Some(*v)),
                S::U16(v) => e.write_value(Some(*v)),
                S::U32(v) => e.write_value(Some(*v)),
                S::U64(v) => e.write_value(Some(*v)),
                S::F32(v) => e.write_value(Some(*v)),
                S::F64(v) => e.write_value(Some(*v)),
                S::Bool(v) => e.write_value(Some(*v)),
                S::Str(s) => e.write_value(Some(s.as_str())),
                S::Data(d) => e.write_value(Some(d.as_slice())),
                other => other.write(e),
            },
            S::Ref(s) => match &**s {
                S::I8(v) => e.write_value(v),
                S::I16(v) => e.write_value(v),
                S::I32(v) => e.write_value(v),
                S::I64(v) => e.write_value(&v),
                S::U16(v) => e.write_value(v),
                S::U32(v) => e.write_value(v),
                S::U64(v) => e.write_value(v),
                S::F32(v) => e.write_value(v),
                S::F64(v) => e.write_value(&v),
                S::Bool(v) => e.write_value(v),
                S::Str(s) => e.write_value(&s.as_str()),
                S::Data(d) => e.write_value(&d.as_slice()),
                other => other.write(e),
            },
        }
    }

    /// Some way of writing the scalar tree `t`.
    pub fn of_tree(t: &T, r: &mut Rng) -> S {
        let s = match t {
            T::Null => {
                if r.chance(1, 4) {
                    return S::None;
                }
                return S::Null;
            }
            T::Undef => return S::Undef,
            T::Bool(b) => S::Bool(*b),
            T::Int(i) => {
                let i = *i;
                let mut c: Vec<S> = vec![];
                macro_rules! fit {
                    ($($v:ident $t:ty),*) => { $( if let Ok(x) = <$t>::try_from(i) { c.push(S::$v(x)); } )* };
                }
                fit!(I8 i8, I16 i16, I32 i32, I64 i64, Isize isize, U8 u8, U16 u16, U32 u32, U64 u64, Usize usize);
                r.pick(&c).clone()
            }
            T::Flt(b) => {
                S::F64(f64::from_bits(*b))
            }
            T::Sgl(b) => S::F32(f64::from_bits(*b) as f32),
            T::NaN => {
                if r.chance(1, 2) {
                    S::F32(f32::NAN)
                } else {
                    S::F64(f64::NAN)
                }
            }
            T::Str(b) => S::Str(String::from_utf8(b.clone()).unwrap()),
            T::Data(b) => S::Data(b.clone()),
            other => panic!("not a scalar: {other:?}"),
        };
        match r.below(8) {
            0 => S::Some(Box::new(s)),
            1 => S::Ref(Box::new(s)),
            _ => s,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Wv(S),
    Wvs(Vec<S>),
    Wk(String),
    Ba(usize),
    Bd,
    Ea,
    Ed,
    /// write_fleece of the value at this position (1-based) of the source document
    Wf(Vec<usize>),
    /// The legal calls which write this tree (the seed chooses types)
    Bld(T, u64),
}

/// The result of a call: JSON
type R = String;

fn build(e: &mut Encoder, t: &T, r: &mut Rng) -> Result<(), fleece::encoder::EncodeError> {
    match t {
        T::Arr(v) => {
            let cap = match r.below(3) {
                0 => 0,
                1 => v.len(),
                _ => 10,
            };
            e.begin_array(cap)?;
            for x in v {
                build(e, x, r)?;
            }
            e.end_array()
        }
        T::Dict(v) => {
            e.begin_dict()?;
            for (k, x) in v {
                e.write_key(std::str::from_utf8(k).unwrap())?;
                build(e, x, r)?;
            }
            e.end_dict()
        }
        s => S::of_tree(s, r).write(e),
    }
}

/// Value at a 1-based position, by iteration
pub fn at<'a>(v: &'a Value, p: &[usize]) -> Option<&'a Value> {
    let Some(&i) = p.first() else {
        return Some(v);
    };
    let next = if let Some(a) = v.as_array() {
        a.iter().nth(i - 1)?
    } else {
        v.as_dict()?.iter().nth(i - 1)?.1
    };
    at(next, &p[1..])
}

/// The calls which write a tree
pub fn calls_of(t: &T, r: &mut Rng, ops: &mut Vec<Op>) {
    match t {
        T::Arr(v) => {
            ops.push(Op::Ba(0));
            v.iter().for_each(|x| calls_of(x, r, ops));
            ops.push(Op::Ea);
        }
        T::Dict(v) => {
            ops.push(Op::Bd);
            for (k, x) in v {
                ops.push(Op::Wk(String::from_utf8(k.clone()).unwrap()));
                calls_of(x, r, ops);
            }
            ops.push(Op::Ed);
        }
        s => ops.push(Op::Wv(S::of_tree(s, r))),
    }
}

pub fn exec(e: &mut Encoder, op: &Op, src: Option<&Value>) -> R {
    res_json(&guarded(|| match op {
        Op::Wv(s) => s.write(e),
        Op::Wvs(v) => {
            for s in v {
                s.write(e)?;
            }
            Ok(())
        }
        Op::Wk(k) => e.write_key(k),
        Op::Ba(c) => e.begin_array(*c),
        Op::Bd => e.begin_dict(),
        Op::Ea => e.end_array(),
        Op::Ed => e.end_dict(),
        Op::Wf(p) => {
            let v = at(src.expect("source"), p).expect("position in source");
            e.write_fleece(v)
        }
        Op::Bld(t, seed) => build(e, t, &mut Rng::new(*seed, 7)),
    }))
}

fn path_json(p: &[usize]) -> String {
    let mut s = String::from("[");
    for (i, x) in p.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{x}");
    }
    s.push(']');
    s
}

impl Op {
    pub fn json(&self, res: &str) -> String {
        match self {
            Op::Wv(s) => format!("[\"wv\",{},{res}]", s.tree().json()),
            Op::Wvs(v) => {
                let mut o = String::from("[\"wvs\",[");
                for (i, s) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    s.tree().write_json(&mut o);
                }
                let _ = write!(o, "],{res}]");
                o
            }
            Op::Wk(k) => format!("[\"wk\",{},{res}]", bj(k.as_bytes())),
            Op::Ba(_) => format!("[\"ba\",{res}]"),
            Op::Bd => format!("[\"bd\",{res}]"),
            Op::Ea => format!("[\"ea\",{res}]"),
            Op::Ed => format!("[\"ed\",{res}]"),
            Op::Wf(p) => format!("[\"wf\",{},{res}]", path_json(p)),
            Op::Bld(t, _) => format!("[\"bld\",{},{res}]", t.json()),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Reads

pub const NOTHING: i64 = -1;
pub const PANIC: i64 = -2;
pub const SKIPPED: i64 = -3;
pub const OTHER: i64 = 1_000_000;

#[derive(Clone, Copy)]
pub struct ReadCfg {
    /// at most this many collections are queried
    pub colls: usize,
    /// at most this many keys / indices per collection
    pub probes: usize,
    /// at most this many values are converted
    pub convs: usize,
    pub seed: u64,
}

impl ReadCfg {
    pub fn normal(seed: u64) -> Self {
        Self {
            colls: 12,
            probes: 40,
            convs: 6,
            seed,
        }
    }
    pub fn light(seed: u64) -> Self {
        Self {
            colls: 2,
            probes: 12,
            convs: 2,
            seed,
        }
    }
    pub fn none() -> Self {
        Self {
            colls: 0,
            probes: 0,
            convs: 0,
            seed: 0,
        }
    }
}

#[derive(Default)]
pub struct Reads {
    pub walks: Vec<T>,
    pub dq: Vec<String>,
    pub aq: Vec<String>,
    pub cv: Vec<String>,
}

impl Reads {
    pub fn json(&self) -> String {
        let mut o = String::from("{\"walks\":[");
        for (i, w) in self.walks.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            w.write_json(&mut o);
        }
        let _ = write!(
            o,
            "],\"dq\":[{}],\"aq\":[{}],\"cv\":[{}]}}",
            self.dq.join(","),
            self.aq.join(","),
            self.cv.join(",")
        );
        o
    }

    pub fn walk(&mut self, v: &Value) {
        for by in [By::Iter, By::Get] {
            let t = guarded(|| walk(v, by)).unwrap_or(T::Bad("panic"));
            self.add_walk(t);
        }
        match guarded(|| steps(v, &mut 40)) {
            Ok(true) => {}
            Ok(false) => self.add_walk(T::Bad("steps")),
            Err(_) => self.add_walk(T::Bad("panic in steps")),
        }
        // Formatting reads everything too
        if guarded(|| format!("{v:?}").len()).is_err() {
            self.add_walk(T::Bad("panic in Debug"));
        }
    }

    /// The same bytes, as an array and as a dict: they are what they are, and nothing else.
    fn typed(&mut self, v: &Value, d: &[u8]) {
        fn arr(a: &fleece::Array) -> T {
            T::Arr(a.iter().map(|x| walk(x, By::Iter)).collect())
        }
        fn dict(x: &fleece::Dict) -> T {
            T::Dict(x.iter().map(|(k, v)| (k.as_bytes().to_vec(), walk(v, By::Iter))).collect())
        }
        let got = [
            guarded(|| fleece::Array::from_bytes(d).ok().map(arr)),
            guarded(|| fleece::Array::clone_from_bytes(d).ok().map(|a| arr(&a))),
            guarded(|| fleece::Dict::from_bytes(d).ok().map(dict)),
            guarded(|| fleece::Dict::clone_from_bytes(d).ok().map(|x| dict(&x))),
        ];
        for (i, t) in got.into_iter().enumerate() {
            let is = if i < 2 { v.as_array().is_some() } else { v.as_dict().is_some() };
            match t {
                Err(_) => self.add_walk(T::Bad("panic")),
                Ok(Some(t)) => self.add_walk(t),
                Ok(None) if is => self.add_walk(T::Bad("refused as what it is")),
                Ok(None) => {}
            }
        }
    }

    /// Routes which give the same tree are recorded once.
    pub fn add_walk(&mut self, t: T) {
        if !self.walks.contains(&t) {
            self.walks.push(t);
        }
    }

    pub fn query(&mut self, root: &Value, sk: &SharedKeys, cfg: ReadCfg) {
        let mut colls: Vec<(Vec<usize>, &Value)> = vec![];
        let mut all: Vec<(Vec<usize>, &Value)> = vec![];
        let _ = guarded(|| collect(root, &mut vec![], &mut colls, &mut all));
        let mut r = Rng::new(cfg.seed, 3);
        // The root is always queried
        let mut n = 0;
        while n < cfg.colls && !colls.is_empty() {
            let i = if n == 0 { 0 } else { r.below(colls.len()) };
            let (p, v) = colls.swap_remove(i);
            if let Some(d) = v.as_dict() {
                self.dq.push(dict_query(&p, d, sk, cfg, &mut r));
            } else if let Some(a) = v.as_array() {
                self.aq.push(array_query(&p, a, cfg, &mut r));
            }
            n += 1;
        }
        let mut n = 0;
        while n < cfg.convs && !all.is_empty() {
            let i = r.below(all.len());
            let (p, v) = all.swap_remove(i);
            self.cv.push(conv_query(&p, v));
            n += 1;
        }
    }
}

fn collect<'a>(
    v: &'a Value,
    p: &mut Vec<usize>,
    colls: &mut Vec<(Vec<usize>, &'a Value)>,
    all: &mut Vec<(Vec<usize>, &'a Value)>,
) {
    if all.len() < 3000 {
        all.push((p.clone(), v));
    }
    if let Some(a) = v.as_array() {
        colls.push((p.clone(), v));
        for (i, x) in a.iter().enumerate() {
            p.push(i + 1);
            collect(x, p, colls, all);
            p.pop();
        }
    } else if let Some(d) = v.as_dict() {
        colls.push((p.clone(), v));
        for (i, (_, x)) in d.iter().enumerate() {
            p.push(i + 1);
            collect(x, p, colls, all);
            p.pop();
        }
    }
}

fn addr(v: &Value) -> usize {
    std::ptr::from_ref(v).cast::<u8>() as usize
}

fn hints_json<I: Iterator>(mut it: I) -> String {
    let mut o = String::from("[");
    let mut n = 0;
    loop {
        let (lo, hi) = it.size_hint();
        let cap = |x: usize| x.min(1 << 30);
        if n > 0 {
            o.push(',');
        }
        let _ = write!(o, "[{},{}]", cap(lo), hi.map_or(-1, |h| cap(h) as i64));
        if it.next().is_none() {
            break;
        }
        n += 1;
        if n > 200_000 {
            break;
        }
    }
    o.push(']');
    o
}

fn dict_query(p: &[usize], d: &fleece::Dict, sk: &SharedKeys, cfg: ReadCfg, r: &mut Rng) -> String {
    let entries: Vec<(String, &Value)> =
        guarded(|| d.iter().map(|(k, v)| (k.to_owned(), v)).collect()).unwrap_or_default();
    let which = |k: &str, v: &Value| -> i64 {
        let hit = |(ek, ev): &(String, &Value)| addr(ev) == addr(v) && ek == k;
        if let Some(i) = entries.iter().position(hit) {
            return i as i64;
        }
        entries
            .iter()
            .position(|(_, ev)| addr(ev) == addr(v))
            .map_or(OTHER, |i| i as i64)
    };
    let mut keys: Vec<String> = vec![];
    let n = entries.len();
    for i in 0..n {
        if n <= cfg.probes || i == 0 || i == n - 1 || r.chance(cfg.probes, n) {
            let k = &entries[i].0;
            keys.push(k.clone());
            // Neighbours of present keys
            if r.chance(1, 3) {
                keys.push(format!("{k}a"));
            }
            if r.chance(1, 3) && k.chars().count() > 0 {
                let mut c = k.clone();
                c.pop();
                keys.push(c);
            }
            if r.chance(1, 4) && !k.is_empty() {
                keys.push(format!("{}\u{1}", &k[..k.char_indices().last().unwrap().0]));
            }
        }
    }
    for k in ["", "a", "zz", "\u{e9}", "a_key_of_more_than_sixteen_bytes"] {
        keys.push(k.into());
    }
    for (k, _) in sk.iter().take(3) {
        keys.push(k.to_owned());
    }
    let mut g = String::new();
    let mut absent = 0;
    for (i, k) in keys.iter().enumerate() {
        if i > 0 {
            g.push(',');
        }
        let get = guarded(|| d.get(k.as_str()).map_or(NOTHING, |v| which(k, v))).unwrap_or(PANIC);
        let cont = guarded(|| i64::from(d.contains_key(k.as_str()))).unwrap_or(PANIC);
        let gsk = guarded(|| {
            d.get_with_shared_keys(k.as_str(), sk)
                .map_or(NOTHING, |v| which(k, v))
        })
        .unwrap_or(PANIC);
        let csk = guarded(|| i64::from(d.contains_key_with_shared_keys(k.as_str(), sk)))
            .unwrap_or(PANIC);
        let present = entries.iter().any(|e| e.0 == *k);
        if !present {
            absent += 1;
        }
        let ix = if present || absent < 3 {
            guarded(|| which(k, &d[k.as_str()])).unwrap_or(PANIC)
        } else {
            SKIPPED
        };
        g.push('[');
        bytes_json(&mut g, k.as_bytes());
        let _ = write!(g, ",{get},{cont},{gsk},{csk},{ix}]");
    }
    let first = guarded(|| {
        d.first().map_or(NOTHING, |(_, v)| {
            entries
                .first()
                .map_or(OTHER, |e| if addr(e.1) == addr(v) { 0 } else { OTHER })
        })
    })
    .unwrap_or(PANIC);
    format!(
        "{{\"p\":{},\"len\":{},\"emp\":{},\"first\":{first},\"hints\":{},\"g\":[{g}]}}",
        path_json(p),
        d.len().min(1 << 30),
        d.is_empty(),
        guarded(|| hints_json(d.iter())).unwrap_or("[]".into()),
    )
}

fn array_query(p: &[usize], a: &fleece::Array, cfg: ReadCfg, r: &mut Rng) -> String {
    let elems: Vec<&Value> = guarded(|| a.iter().collect()).unwrap_or_default();
    let n = elems.len();
    let which = |i: usize, v: &Value| -> i64 {
        if elems.get(i).is_some_and(|e| addr(e) == addr(v)) {
            return i as i64;
        }
        elems
            .iter()
            .position(|e| addr(e) == addr(v))
            .map_or(OTHER, |i| i as i64)
    };
    let mut ix: Vec<usize> = vec![];
    for i in 0..n {
        if n <= cfg.probes || i == 0 || i == n - 1 || r.chance(cfg.probes, n) {
            ix.push(i);
        }
    }
    ix.extend([n, n + 1, 2 * n + 1, 1 << 20]);
    let mut g = String::new();
    for (j, i) in ix.iter().enumerate() {
        if j > 0 {
            g.push(',');
        }
        let get = guarded(|| a.get(*i).map_or(NOTHING, |v| which(*i, v))).unwrap_or(PANIC);
        let idx = if *i <= n {
            guarded(|| which(*i, &a[*i])).unwrap_or(PANIC)
        } else {
            SKIPPED
        };
        let _ = write!(g, "[{i},{get},{idx}]");
    }
    for i in [usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 4 + 1] {
        let get = guarded(|| a.get(i).map_or(NOTHING, |_| OTHER)).unwrap_or(PANIC);
        // These do not fit in the specification's integers: any index beyond the length will do
        let _ = write!(g, ",[1073741824,{get},{SKIPPED}]");
    }
    format!(
        "{{\"p\":{},\"len\":{},\"emp\":{},\"ilen\":{},\"hints\":{},\"g\":[{g}]}}",
        path_json(p),
        a.len().min(1 << 30),
        a.is_empty(),
        a.iter().len().min(1 << 30),
        guarded(|| hints_json(a.iter())).unwrap_or("[]".into()),
    )
}

pub fn conv_query(p: &[usize], v: &Value) -> String {
    fn c(r: Result<T, String>) -> String {
        r.unwrap_or(T::Bad("panic")).json()
    }
    let mut o = format!("{{\"p\":{}", path_json(p));
    let b = guarded(|| v.to_bool());
    let _ = write!(
        o,
        ",\"b\":{}",
        b.map_or("\"panic\"".to_string(), |b| b.to_string())
    );
    let _ = write!(o, ",\"i16\":{}", c(guarded(|| T::Int(v.to_short() as i128))));
    let _ = write!(
        o,
        ",\"u16\":{}",
        c(guarded(|| T::Int(v.to_unsigned_short() as i128)))
    );
    let _ = write!(o, ",\"i64\":{}", c(guarded(|| T::Int(v.to_int() as i128))));
    let _ = write!(
        o,
        ",\"u64\":{}",
        c(guarded(|| T::Int(v.to_unsigned_int() as i128)))
    );
    let _ = write!(o, ",\"f64\":{}", c(guarded(|| T::f64(v.to_double()))));
    let _ = write!(o, ",\"f32\":{}", c(guarded(|| T::f64(v.to_float() as f64))));
    let _ = write!(
        o,
        ",\"s\":{}",
        guarded(|| bj(v.to_str().as_bytes())).unwrap_or("[-1]".into())
    );
    let _ = write!(
        o,
        ",\"d\":{}",
        guarded(|| bj(v.to_data())).unwrap_or("[-1]".into())
    );
    let _ = write!(
        o,
        ",\"a\":{},\"o\":{}}}",
        v.as_array().is_some(),
        v.as_dict().is_some()
    );
    o
}

pub fn sk_list(sk: &SharedKeys) -> Vec<String> {
    (0..sk.len())
        .map(|i| sk.decode(i).unwrap_or("?missing").to_owned())
        .collect()
}

pub fn sk_json(list: &[String]) -> String {
    let mut o = String::from("[");
    for (i, s) in list.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        bytes_json(&mut o, s.as_bytes());
    }
    o.push(']');
    o
}

pub fn make_sk(list: &[String]) -> SharedKeys {
    let mut sk = SharedKeys::new();
    for k in list {
        let _ = sk.encode_and_insert(k);
    }
    sk
}

/// All routes by which a document held in a plain buffer can be read.
/// Returns the result of validated reading and the reads.
pub fn read_bytes(d: &[u8], trusted: bool, cfg: ReadCfg, sk: &SharedKeys) -> (String, Reads) {
    let mut reads = Reads::default();
    let res = guarded(|| Value::from_bytes(d));
    let rj = res_json(&res);
    if let Ok(Ok(v)) = res {
        reads.walk(v);
        reads.query(v, sk, cfg);
        match guarded(|| Value::clone_from_bytes(d)) {
            Ok(Ok(a)) => {
                reads.add_walk(guarded(|| walk(&a, By::Iter)).unwrap_or(T::Bad("panic")));
                let c = a.clone();
                drop(a);
                reads.add_walk(guarded(|| walk(c.value(), By::Iter)).unwrap_or(T::Bad("panic")));
            }
            _ => reads.add_walk(T::Bad("clone_from_bytes")),
        }
        reads.typed(v, d);
    }
    if trusted {
        let t = guarded(|| walk(unsafe { Value::from_bytes_unchecked(d) }, By::Iter));
        reads.add_walk(t.unwrap_or(T::Bad("panic")));
        let t = guarded(|| walk(&unsafe { Value::clone_from_bytes_unchecked(d) }, By::Iter));
        reads.add_walk(t.unwrap_or(T::Bad("panic")));
    }
    (rj, reads)
}

/// All routes by which a document can be read through the scope which owns it and its shared keys.
pub fn read_scope(scope: &Arc<Scope>, cfg: ReadCfg) -> (String, Reads, Vec<u8>, Vec<String>) {
    let mut reads = Reads::default();
    let empty = SharedKeys::new();
    let sk: &SharedKeys = scope.shared_keys().map_or(&empty, |s| s);
    let list = sk_list(sk);
    let data = scope.data().map(|d| d.to_vec()).unwrap_or_default();
    let res = guarded(|| scope.root().ok_or("no root"));
    let rj = res_json(&res);
    if let Ok(Ok(a)) = res {
        reads.walk(&a);
        reads.query(&a, sk, cfg);
        // Borrowed from the scope's data directly
        if let Some(d) = scope.data() {
            match guarded(|| Value::from_bytes(&d)) {
                Ok(Ok(v)) => {
                    reads.add_walk(guarded(|| walk(v, By::Get)).unwrap_or(T::Bad("panic")));
                }
                _ => reads.add_walk(T::Bad("from_bytes of scope data")),
            }
        }
    }
    (rj, reads, data, list)
}

// ---------------------------------------------------------------------------------------------
// Traces

pub struct Sink {
    pub lines: Vec<String>,
    pub events: usize,
    pub counts: Vec<(String, usize)>,
}

impl Sink {
    pub fn new() -> Self {
        Sink {
            lines: vec![],
            events: 0,
            counts: vec![],
        }
    }
    pub fn add(&mut self, name: &str, ev: &[String]) {
        self.events += ev.len();
        self.lines
            .push(format!("{{\"n\":\"{name}\",\"ev\":[{}]}}", ev.join(",")));
    }
    pub fn count(&mut self, name: &str, n: usize) {
        self.counts.push((name.into(), n));
    }
    pub fn save(&self, path: &str) {
        let mut s = self.lines.join("\n");
        s.push('\n');
        std::fs::write(path, s).unwrap();
    }
}

#[derive(Clone)]
pub struct Case {
    pub name: String,
    pub pre: Vec<u8>,
    /// Shared keys present before encoding
    pub sk: Option<Vec<String>>,
    /// The number of calls before they are given to the encoder
    pub sk_at: usize,
    pub ops: Vec<Op>,
    pub src: Option<(Vec<u8>, Vec<String>)>,
    pub cfg: ReadCfg,
    /// Also record finish_value
    pub finv: bool,
    /// Finish by finish_scoped even without shared keys
    pub scoped: bool,
}

impl Case {
    pub fn new(name: impl Into<String>, ops: Vec<Op>, cfg: ReadCfg) -> Self {
        Case {
            name: name.into(),
            pre: vec![],
            sk: None,
            sk_at: 0,
            ops,
            src: None,
            cfg,
            finv: false,
            scoped: true,
        }
    }
}

fn run_ops(case: &Case, src: Option<&Value>) -> (Encoder, Vec<String>, bool) {
    let mut e = if case.pre.is_empty() {
        Encoder::new()
    } else {
        Encoder::new_to_vec(case.pre.clone())
    };
    let mut res = vec![];
    for (i, op) in case.ops.iter().enumerate() {
        if i == case.sk_at {
            if let Some(sk) = &case.sk {
                e.set_shared_keys(make_sk(sk));
            }
        }
        let r = exec(&mut e, op, src);
        let panicked = r.starts_with("[\"panic");
        res.push(r);
        if panicked {
            return (e, res, true);
        }
    }
    if case.sk_at >= case.ops.len() {
        if let Some(sk) = &case.sk {
            e.set_shared_keys(make_sk(sk));
        }
    }
    (e, res, false)
}

pub fn fin_json(d: &[u8], sk: &[String], res: &str, reads: &Reads) -> String {
    abbreviated(|| {
        format!(
            "[\"fin\",{{\"d\":{},\"sk\":{},\"res\":{res},\"r\":{}}}]",
            bj(d),
            sk_json(sk),
            reads.json()
        )
    })
}

/// Execute a case by every way of finishing, and record it.
pub fn record(case: &Case, out: &mut Sink) {
    journal(&format!("{{\"case\":\"{}\"}}", case.name));
    let src_scope = case
        .src
        .as_ref()
        .map(|(d, sk)| Scope::new(d.clone(), Some(Arc::new(make_sk(sk)))));
    let src_root = src_scope.as_ref().and_then(|s| s.root());
    let src = src_root.as_ref().map(|r| r.value());

    let mut ev = vec![format!("[\"new\",{}]", bj(&case.pre))];
    if let Some((d, sk)) = &case.src {
        ev.push(format!(
            "[\"src\",{{\"d\":{},\"sk\":{}}}]",
            bj(d),
            sk_json(sk)
        ));
    }
    let head = ev.len();
    let (enc, res, dead) = run_ops(case, src);
    for (op, r) in case.ops.iter().zip(&res) {
        ev.push(abbreviated(|| op.json(r)));
    }
    if dead {
        std::mem::forget(enc);
        out.add(&case.name, &ev);
        return;
    }
    let no_sk = SharedKeys::new();
    if case.sk.is_none() {
        match guarded(|| enc.finish()) {
            Ok(d) => {
                if d.len() == case.pre.len() + case.pre.len() % 2 {
                    // nothing was written
                    ev.push(fin_json(&d, &[], "[\"ok\"]", &Reads::default()));
                } else {
                    // Keys of other documents' shared keys must not matter
                    let some = make_sk(&["a".into(), "bb".into(), "key1".into()]);
                    let tail = &d[case.pre.len() + case.pre.len() % 2..];
                    let sk = if case.cfg.seed % 2 == 0 { &some } else { &no_sk };
                    let (r, reads) = read_bytes(&d, true, case.cfg, sk);
                    ev.push(fin_json(&d, &[], &r, &reads));
                    if !case.pre.is_empty() {
                        // What was appended is a document by itself
                        let (r2, reads2) = read_bytes(tail, true, ReadCfg::none(), sk);
                        if r2 != r || reads2.walks != reads.walks {
                            ev.push("[\"fin\",{\"d\":[],\"sk\":[],\"res\":[\"err\",\"appended part differs\"],\"r\":{}}]".into());
                        }
                    }
                }
            }
            Err(m) => ev.push(fin_json(
                &[],
                &[],
                &res_json::<(), ()>(&Err(m)),
                &Reads::default(),
            )),
        }
    } else {
        // The shared keys are lost by plain finish, but it must work
        if let Err(m) = guarded(|| enc.finish()) {
            ev.push(fin_json(
                &[],
                &[],
                &res_json::<(), ()>(&Err(m)),
                &Reads::default(),
            ));
        }
    }
    if case.scoped || case.sk.is_some() {
        let (enc, res2, _) = run_ops(case, src);
        if res2 != res {
            record_split(case, &ev[..head], &res2, out, "scoped");
        }
        match guarded(|| enc.finish_scoped()) {
            Ok(scope) => {
                if scope.data().is_some_and(|d| d.len() > case.pre.len() + case.pre.len() % 2) {
                    let (r, reads, d, sk) = read_scope(&scope, case.cfg);
                    ev.push(fin_json(&d, &sk, &r, &reads));
                }
            }
            Err(m) => ev.push(fin_json(
                &[],
                &[],
                &res_json::<(), ()>(&Err(m)),
                &Reads::default(),
            )),
        }
    }
    // finish_value does not keep the shared keys, so keys which were shared would not be readable
    if case.finv && case.sk.is_none() {
        let (enc, res2, _) = run_ops(case, src);
        if res2 != res {
            record_split(case, &ev[..head], &res2, out, "value");
        }
        // Precondition: something was written; and keys which were shared need their scope
        let t = match guarded(|| enc.finish_value()) {
            Ok(v) => guarded(|| walk(&v, By::Iter)).unwrap_or(T::Bad("panic")).json(),
            Err(m) => res_json::<(), ()>(&Err(m)),
        };
        ev.push(format!("[\"finv\",{t}]"));
    }
    out.add(&case.name, &ev);
}

fn record_split(case: &Case, head: &[String], res: &[String], out: &mut Sink, how: &str) {
    let mut ev = head.to_vec();
    for (op, r) in case.ops.iter().zip(res) {
        ev.push(abbreviated(|| op.json(r)));
    }
    out.add(&format!("{}/{how}", case.name), &ev);
}
