//! Generators of content and of encoder calls.

use crate::codec::{Op, S};
use crate::tree::T;
use crate::util::Rng;

pub fn gen_int(r: &mut Rng) -> i128 {
    let lo = i64::MIN as i128;
    let hi = u64::MAX as i128;
    let v = match r.below(5) {
        // around powers of two
        0 | 1 => {
            let k = r.below(65);
            let d = r.range(0, 4) as i128 - 2;
            let p = (1i128 << k) + d;
            if r.chance(1, 2) {
                -p
            } else {
                p
            }
        }
        2 => r.range(0, 5000) as i128 - 2500,
        // a random number of random bytes
        3 => {
            let n = r.range(1, 8);
            let m = (r.next() >> (64 - 8 * n)) as i128;
            if r.chance(1, 2) {
                -m
            } else {
                m
            }
        }
        _ => r.range(0, 70000) as i128 - 35000,
    };
    v.clamp(lo, hi)
}

pub fn gen_f64(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => *r.pick(&[
            0.0,
            -0.0,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::NAN,
            f64::MIN_POSITIVE,
            f64::MAX,
            f64::MIN,
            5e-324,
            f64::EPSILON,
        ]),
        1 => f32::from_bits(r.next() as u32) as f64,
        2 => *r.pick(&[
            f32::MAX as f64,
            f32::MIN_POSITIVE as f64,
            1.401298464324817e-45,
            f32::MAX as f64 * 2.0,
            f32::MIN_POSITIVE as f64 / 3.0,
            9007199254740993.0,
            9007199254740992.0,
            18446744073709551615.0,
            9223372036854775807.0,
            -9223372036854775808.0,
            4294967296.0,
            0.1,
            1.5,
            -1.5,
            0.5,
            16777217.0,
            2047.0,
            2048.0,
            -2048.5,
            32767.9,
            65535.5,
            -0.9,
        ]),
        3 | 4 => gen_int(r) as f64,
        5 => gen_int(r) as f64 + 0.5,
        6 => (r.range(0, 2000) as f64 - 1000.0) / 8.0,
        _ => f64::from_bits(r.next()),
    }
}

pub fn gen_f32(r: &mut Rng) -> f32 {
    match r.below(5) {
        0 => *r.pick(&[
            0.0,
            -0.0,
            f32::INFINITY,
            f32::NEG_INFINITY,
            f32::NAN,
            f32::MIN_POSITIVE,
            f32::MAX,
            f32::MIN,
            1e-45,
            1.5,
            0.1,
        ]),
        1 => gen_int(r) as f32,
        2 => (r.range(0, 2000) as f32 - 1000.0) / 8.0,
        _ => f32::from_bits(r.next() as u32),
    }
}

pub fn gen_char(r: &mut Rng) -> char {
    match r.below(10) {
        0 => *r.pick(&['\u{e9}', '\u{df}', '\u{3a9}', '\u{44f}', '\u{65e5}']),
        1 => *r.pick(&['\u{2192}', '\u{20ac}', '\u{1f600}', '\u{301}', '\u{7ff}', '\u{ffff}']),
        2 => *r.pick(&[' ', '.', '/', '"', '\\', '\u{1}', '\u{7f}', '~', '\0']),
        3 => *r.pick(&['_', '-']),
        4 | 5 => (b'0' + r.below(10) as u8) as char,
        6 => (b'A' + r.below(26) as u8) as char,
        _ => (b'a' + r.below(26) as u8) as char,
    }
}

/// A string of at least `n` bytes, with few more.
pub fn gen_text(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    while s.len() < n {
        s.push(gen_char(r));
    }
    s
}

/// ASCII of exactly n bytes
pub fn ascii(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}

pub fn gen_len(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => r.range(13, 17),
        4 => r.range(125, 131),
        _ => r.range(0, 24),
    }
}

pub fn gen_str(r: &mut Rng) -> String {
    let n = gen_len(r);
    if r.chance(1, 2) {
        ascii(r, n)
    } else {
        let mut s = gen_text(r, n);
        if n < 2 {
            s.truncate(0);
            if n == 1 {
                s.push((b' ' + r.below(95) as u8) as char);
            }
        }
        s
    }
}

pub fn gen_data(r: &mut Rng) -> Vec<u8> {
    let n = gen_len(r);
    (0..n).map(|_| r.next() as u8).collect()
}

pub fn gen_scalar(r: &mut Rng) -> T {
    match r.below(12) {
        0 => T::Null,
        1 => T::Undef,
        2 => T::Bool(r.chance(1, 2)),
        3..=5 => T::Int(gen_int(r)),
        6 => T::f64(gen_f64(r)),
        7 => T::f32(gen_f32(r)),
        8..=10 => T::str(&gen_str(r)),
        _ => T::Data(gen_data(r)),
    }
}

/// A scalar of each type in turn
pub fn gen_typed(r: &mut Rng, i: usize) -> S {
    let n = gen_int(r);
    let s = match i % 18 {
        0 => S::I8(n as i8),
        1 => S::I16(n as i16),
        2 => S::I32(n as i32),
        3 => S::I64(n as i64),
        4 => S::Isize(n as isize),
        5 => S::U8(n as u8),
        6 => S::U16(n as u16),
        7 => S::U32(n as u32),
        8 => S::U64(n as u64),
        9 => S::Usize(n as usize),
        10 => S::F32(gen_f32(r)),
        11 => S::F64(gen_f64(r)),
        12 => S::Bool(r.chance(1, 2)),
        13 => S::Null,
        14 => S::Undef,
        15 => S::Str(gen_str(r)),
        16 => S::Data(gen_data(r)),
        _ => S::None,
    };
    match r.below(6) {
        0 => S::Some(Box::new(s)),
        1 => S::Ref(Box::new(s)),
        _ => s,
    }
}

/// Capacities are only hints.
pub fn any_capacity(r: &mut Rng) -> usize {
    match r.below(24) {
        0 => usize::MAX,
        1 => 1 << r.range(20, 63),
        n => n / 6,
    }
}

/// A key. `style` varies the population of a dict.
pub fn gen_key(r: &mut Rng, style: usize) -> String {
    match style {
        // sharable
        0 => {
            let n = r.range(2, 16);
            ascii(r, n)
        }
        // few distinct prefixes
        1 => {
            let mut s = String::from(*r.pick(&["k", "key", "key_", "ke"]));
            for _ in 0..r.below(4) {
                s.push(*r.pick(&['a', 'b', '0', '_', '-', 'z']));
            }
            s
        }
        // anything
        2 => gen_str(r),
        // inline
        3 => {
            let n = r.below(2);
            ascii(r, n)
        }
        // numbered
        4 => format!("key{}", r.below(5000)),
        // around the limit of sharable lengths
        5 => {
            let n = r.range(14, 19);
            let mut s = String::from("common_prefix_");
            s.push_str(&ascii(r, n - 14));
            s
        }
        // not sharable
        6 => format!("{} {}", r.below(50), r.below(50)),
        _ => {
            let st = r.below(7);
            gen_key(r, st)
        }
    }
}

pub fn gen_keys(r: &mut Rng, n: usize, style: usize) -> Vec<String> {
    let mut set = std::collections::HashSet::new();
    let mut v = vec![];
    let mut tries = 0;
    while v.len() < n {
        tries += 1;
        let k = if tries > 4 * n + 20 {
            format!("{}{}", gen_key(r, 0), tries)
        } else {
            gen_key(r, style)
        };
        if set.insert(k.clone()) {
            v.push(k);
        }
    }
    v
}

pub fn gen_tree(r: &mut Rng, depth: usize, budget: &mut usize) -> T {
    *budget = budget.saturating_sub(1);
    if depth == 0 || *budget == 0 || r.chance(3, 5) {
        return gen_scalar(r);
    }
    gen_coll(r, depth, budget)
}

pub fn gen_coll(r: &mut Rng, depth: usize, budget: &mut usize) -> T {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => r.range(1, 9),
    }
    .min(*budget + 1);
    if r.chance(1, 2) {
        T::Arr(
            (0..n)
                .map(|_| gen_tree(r, depth.saturating_sub(1), budget))
                .collect(),
        )
    } else {
        let style = r.below(9);
        let keys = gen_keys(r, n, style);
        T::Dict(
            keys.into_iter()
                .map(|k| (k.into_bytes(), gen_tree(r, depth.saturating_sub(1), budget)))
                .collect(),
        )
    }
}

/// Random calls, legal ones with probability legal/16. Keeps the keys of a dict distinct.
pub fn gen_calls(r: &mut Rng, n: usize, legal: usize, style: usize) -> Vec<Op> {
    #[derive(Clone)]
    struct F {
        dict: bool,
        key: bool,
        keys: std::collections::HashSet<String>,
    }
    let mut st: Vec<F> = vec![];
    let mut closed = false;
    let mut ops = vec![];
    for _ in 0..n {
        let mut choice;
        loop {
            choice = r.below(9);
            let top = st.last();
            let acc_v = top.is_some_and(|f| !f.dict || f.key);
            let acc_c = if st.is_empty() { !closed } else { acc_v };
            let ok = match choice {
                0 | 1 => acc_v,
                2 | 3 => top.is_some_and(|f| f.dict && !f.key),
                4 | 5 => acc_c && st.len() < 6,
                6 => top.is_some_and(|f| !f.dict),
                7 => top.is_some_and(|f| f.dict && !f.key),
                _ => false,
            };
            if ok || !r.chance(legal, 16) {
                break;
            }
            // Nothing but illegal calls left
            if closed && st.is_empty() {
                break;
            }
        }
        let top = st.last().cloned();
        let acc_v = top.as_ref().is_some_and(|f| !f.dict || f.key);
        let acc_c = if st.is_empty() { !closed } else { acc_v };
        match choice {
            0 | 1 => {
                let i = r.below(18);
                ops.push(Op::Wv(gen_typed(r, i)));
                if acc_v {
                    st.last_mut().unwrap().key = false;
                }
            }
            2 | 3 => {
                let mut k = gen_key(r, style);
                if let Some(f) = st.last_mut() {
                    if f.dict && !f.key {
                        while f.keys.contains(&k) {
                            k = format!("{k}{}", r.below(100));
                        }
                        f.keys.insert(k.clone());
                        f.key = true;
                    }
                }
                ops.push(Op::Wk(k));
            }
            4 | 5 => {
                let dict = choice == 5;
                ops.push(if dict { Op::Bd } else { Op::Ba(any_capacity(r)) });
                if acc_c {
                    if let Some(f) = st.last_mut() {
                        f.key = false;
                    }
                    st.push(F {
                        dict,
                        key: false,
                        keys: Default::default(),
                    });
                }
            }
            6 => {
                ops.push(Op::Ea);
                if top.is_some_and(|f| !f.dict) {
                    st.pop();
                    closed |= st.is_empty();
                }
            }
            7 => {
                ops.push(Op::Ed);
                if top.is_some_and(|f| f.dict && !f.key) {
                    st.pop();
                    closed |= st.is_empty();
                }
            }
            _ => {}
        }
    }
    ops
}

/// Whether the calls open a collection at all
pub fn opens(ops: &[Op]) -> bool {
    ops.iter().any(|o| {
        matches!(o, Op::Ba(_) | Op::Bd) || matches!(o, Op::Bld(t, _) if t.is_coll()) || matches!(o, Op::Wf(_))
    })
}
