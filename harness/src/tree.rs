//! Content trees: the abstract meaning of values, as the specification writes them.

use fleece::{Value, ValueType};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Null,
    Undef,
    Bool(bool),
    Int(i128),
    /// Bits of a binary64 which is not NaN
    Flt(u64),
    /// The same of a binary32
    Sgl(u64),
    NaN,
    Str(Vec<u8>),
    Data(Vec<u8>),
    Arr(Vec<T>),
    Dict(Vec<(Vec<u8>, T)>),
    /// Something no document can mean
    Bad(&'static str),
}

thread_local! {
    /// Long runs of the same byte are abbreviated
    static RUNS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static ABBREVIATED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// An event in which long runs of bytes are abbreviated, if there are any: ["z", event].
pub fn abbreviated(f: impl FnOnce() -> String) -> String {
    RUNS.set(true);
    ABBREVIATED.set(false);
    let s = f();
    RUNS.set(false);
    if ABBREVIATED.get() {
        format!("[\"z\",{s}]")
    } else {
        s
    }
}

const RUN: usize = 200;

/// [-1, [n, [bytes which are repeated n times]], ...]
fn runs_json(out: &mut String, b: &[u8]) {
    ABBREVIATED.set(true);
    out.push_str("[-1");
    let mut i = 0;
    let mut lit = 0;
    while i <= b.len() {
        let n = b.get(i).map_or(0, |x| b[i..].iter().take_while(|y| *y == x).count());
        if n >= RUN || i == b.len() {
            if lit < i {
                out.push_str(",[1,");
                plain_json(out, &b[lit..i]);
                out.push(']');
            }
            if n >= RUN {
                let _ = write!(out, ",[{n},[{}]]", b[i]);
            }
            lit = i + n;
        }
        i += n.max(1);
    }
    out.push(']');
}

pub fn bytes_json(out: &mut String, b: &[u8]) {
    if RUNS.get() && b.len() >= 1000 {
        runs_json(out, b);
    } else {
        plain_json(out, b);
    }
}

fn plain_json(out: &mut String, b: &[u8]) {
    out.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        let _ = write!(out, "{x}");
    }
    out.push(']');
}

pub fn bj(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 3 + 2);
    bytes_json(&mut s, b);
    s
}

pub fn str_json(s: &str) -> String {
    // Only plain ASCII, so TLC and Python read the same thing
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => o.push('\''),
            c if c.is_ascii_graphic() || c == ' ' => o.push(c),
            _ => o.push('?'),
        }
    }
    o.push('"');
    o
}

impl T {
    pub fn f64(v: f64) -> T {
        if v.is_nan() {
            T::NaN
        } else {
            T::Flt(v.to_bits())
        }
    }

    pub fn f32(v: f32) -> T {
        if v.is_nan() {
            T::NaN
        } else {
            T::Sgl(f64::from(v).to_bits())
        }
    }

    pub fn str(s: &str) -> T {
        T::Str(s.as_bytes().to_vec())
    }

    pub fn is_coll(&self) -> bool {
        matches!(self, T::Arr(_) | T::Dict(_))
    }

    pub fn write_json(&self, o: &mut String) {
        match self {
            T::Null => o.push_str("[\"null\"]"),
            T::Undef => o.push_str("[\"undef\"]"),
            T::Bool(b) => {
                let _ = write!(o, "[\"bool\",{b}]");
            }
            T::Int(i) => {
                let _ = write!(o, "[\"int\",{},", i32::from(*i < 0));
                let mag = i.unsigned_abs().to_le_bytes();
                let n = 16 - mag.iter().rev().take_while(|b| **b == 0).count();
                bytes_json(o, &mag[..n]);
                o.push(']');
            }
            T::Flt(bits) => {
                o.push_str("[\"flt\",");
                bytes_json(o, &bits.to_le_bytes());
                o.push(']');
            }
            T::Sgl(bits) => {
                o.push_str("[\"sgl\",");
                bytes_json(o, &bits.to_le_bytes());
                o.push(']');
            }
            T::NaN => o.push_str("[\"nan\"]"),
            T::Str(b) => {
                o.push_str("[\"str\",");
                bytes_json(o, b);
                o.push(']');
            }
            T::Data(b) => {
                o.push_str("[\"data\",");
                bytes_json(o, b);
                o.push(']');
            }
            T::Arr(v) => {
                o.push_str("[\"arr\",[");
                for (i, t) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    t.write_json(o);
                }
                o.push_str("]]");
            }
            T::Dict(v) => {
                o.push_str("[\"dict\",[");
                for (i, (k, t)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('[');
                    bytes_json(o, k);
                    o.push(',');
                    t.write_json(o);
                    o.push(']');
                }
                o.push_str("]]");
            }
            T::Bad(why) => {
                let _ = write!(o, "[\"bad\",\"{why}\"]");
            }
        }
    }

    pub fn json(&self) -> String {
        let mut s = String::new();
        self.write_json(&mut s);
        s
    }

    pub fn from_json(j: &serde_json::Value) -> T {
        let bytes = |j: &serde_json::Value| -> Vec<u8> {
            j.as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_u64().unwrap() as u8)
                .collect()
        };
        match j[0].as_str().unwrap() {
            "null" => T::Null,
            "undef" => T::Undef,
            "bool" => T::Bool(j[1].as_bool().unwrap()),
            "int" => {
                let mut b = [0u8; 16];
                for (i, x) in bytes(&j[2]).iter().enumerate() {
                    b[i] = *x;
                }
                let m = i128::from_le_bytes(b);
                T::Int(if j[1].as_i64().unwrap() == 1 { -m } else { m })
            }
            "sgl" => {
                let b = bytes(&j[1]);
                T::Sgl(u64::from_le_bytes(b.try_into().unwrap()))
            }
            "flt" => {
                let b = bytes(&j[1]);
                T::Flt(u64::from_le_bytes(b.try_into().unwrap()))
            }
            "nan" => T::NaN,
            "str" => T::Str(bytes(&j[1])),
            "data" => T::Data(bytes(&j[1])),
            "arr" => T::Arr(j[1].as_array().unwrap().iter().map(T::from_json).collect()),
            "dict" => T::Dict(
                j[1].as_array()
                    .unwrap()
                    .iter()
                    .map(|e| (bytes(&e[0]), T::from_json(&e[1])))
                    .collect(),
            ),
            other => panic!("unknown tree kind {other}"),
        }
    }

    /// Number of nodes
    pub fn size(&self) -> usize {
        match self {
            T::Arr(v) => 1 + v.iter().map(T::size).sum::<usize>(),
            T::Dict(v) => 1 + v.iter().map(|(_, t)| t.size()).sum::<usize>(),
            _ => 1,
        }
    }
}

/// How collections are traversed.
#[derive(Clone, Copy, PartialEq)]
pub enum By {
    Iter,
    Get,
}

pub fn scalar_of(v: &Value) -> Option<T> {
    Some(match v.value_type() {
        ValueType::Null => T::Null,
        ValueType::Undefined => T::Undef,
        ValueType::False | ValueType::True => T::Bool(v.to_bool()),
        ValueType::Short => T::Int(v.to_int() as i128),
        ValueType::Int => T::Int(v.to_int() as i128),
        ValueType::UnsignedInt => T::Int(v.to_unsigned_int() as i128),
        ValueType::Float => T::f32(v.to_float()),
        ValueType::Double32 | ValueType::Double64 => T::f64(v.to_double()),
        ValueType::String => T::Str(v.to_str().as_bytes().to_vec()),
        ValueType::Data => T::Data(v.to_data().to_vec()),
        ValueType::Pointer => T::Bad("pointer"),
        ValueType::Array | ValueType::Dict => return None,
    })
}

/// Whether every way to step through the iterator meets the same items as `next` does. At the end
/// of a collection of `n` items there is nothing more.
pub fn steady<I: Iterator>(make: impl Fn() -> I, id: impl Fn(&I::Item) -> (usize, usize), n: usize) -> bool {
    let mut want: Vec<(usize, usize)> = vec![];
    let mut it = make();
    while let Some(x) = it.next() {
        want.push(id(&x));
    }
    // An iteration which gives up before the end may go on, with what is left only
    let rest: Vec<_> = (0..3).filter_map(|_| it.next().map(|x| id(&x))).collect();
    if want.len() >= n && !rest.is_empty() {
        return false;
    }
    if want.len() < n {
        return rest.len() < n - want.len();
    }
    let n = want.len();
    for skip in [0, 1, n / 2, n.saturating_sub(1), n] {
        let begun = || {
            let mut it = make();
            for _ in 0..skip {
                it.next();
            }
            it
        };
        let left = &want[skip.min(n)..];
        let mut ok = begun().count() == left.len()
            && begun().last().map(|x| id(&x)) == left.last().copied()
            && begun().map(|x| id(&x)).collect::<Vec<_>>() == left
            && begun().fold(0, |i, x| if left.get(i) == Some(&id(&x)) { i + 1 } else { usize::MAX - n - 2 }) == left.len()
            && begun().position(|x| Some(&id(&x)) == left.last()) == left.iter().position(|x| Some(x) == left.last());
        let mut it = begun();
        let mut i = 0;
        it.by_ref().take(left.len() / 2).for_each(|x| {
            ok &= left.get(i) == Some(&id(&x));
            i += 1;
        });
        ok &= it.next().map(|x| id(&x)) == left.get(i).copied();
        for by in [0, 1, 2, 6, n.max(1) - 1, n, usize::MAX] {
            let mut it = begun();
            let mut at = 0;
            loop {
                let (lo, hi) = it.size_hint();
                let there = left.len() - at.min(left.len());
                ok &= lo <= there && hi.is_none_or(|h| h >= there);
                let x = it.nth(by).map(|x| id(&x));
                ok &= x == at.checked_add(by).and_then(|i| left.get(i)).copied();
                if x.is_none() || !ok {
                    break;
                }
                at += by + 1;
                // and one by itself
                let x = it.next().map(|x| id(&x));
                ok &= x == left.get(at).copied();
                at += 1;
            }
            ok &= it.next().is_none();
        }
        if !ok {
            return false;
        }
    }
    true
}

fn of<X: ?Sized>(x: &X) -> usize {
    std::ptr::from_ref(x).cast::<u8>() as usize
}

/// Every collection in the value can be stepped through in any way.
pub fn steps(v: &Value, left: &mut usize) -> bool {
    if *left == 0 {
        return true;
    }
    *left -= 1;
    if let Some(a) = v.as_array() {
        return steady(|| a.iter(), |x| (of(*x), 0), a.len())
            && steady(|| a.into_iter(), |x| (of(*x), 0), a.len())
            && a.iter().all(|x| steps(x, left));
    }
    if let Some(d) = v.as_dict() {
        return steady(|| d.iter(), |(k, x)| (of(*x), of(*k)), d.len())
            && steady(|| d.into_iter(), |(k, x)| (of(*x), of(*k)), d.len())
            && d.iter().all(|(_, x)| steps(x, left));
    }
    true
}

/// Read everything reachable from a value.
pub fn walk(v: &Value, by: By) -> T {
    if let Some(s) = scalar_of(v) {
        return s;
    }
    if let Some(a) = v.as_array() {
        return T::Arr(match by {
            By::Iter => a.iter().map(|x| walk(x, by)).collect(),
            By::Get => (0..a.len())
                .map(|i| a.get(i).map_or(T::Bad("missing element"), |x| walk(x, by)))
                .collect(),
        });
    }
    if let Some(d) = v.as_dict() {
        return T::Dict(match by {
            By::Iter => d
                .iter()
                .map(|(k, x)| (k.as_bytes().to_vec(), walk(x, by)))
                .collect(),
            By::Get => d
                .iter()
                .map(|(k, _)| {
                    (
                        k.as_bytes().to_vec(),
                        d.get(k).map_or(T::Bad("missing key"), |x| walk(x, by)),
                    )
                })
                .collect(),
        });
    }
    T::Bad("kind")
}
