//! Documents which do not come from this library's encoder: foreign, and broken ones.

use crate::codec::*;
use crate::gen::*;
use crate::tree::{bj, walk, By, T};
use crate::util::{guarded, journal, Rng};
use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value};
use std::sync::Arc;

pub type Foreign = (Vec<u8>, Vec<String>);

/// Documents printed by ForeignWriter: one JSON object per line.
pub fn load(path: &str) -> Vec<Foreign> {
    let Ok(s) = std::fs::read_to_string(path) else {
        return vec![];
    };
    s.lines()
        .map(|l| {
            let j: serde_json::Value = serde_json::from_str(l).unwrap();
            let bytes = |j: &serde_json::Value| -> Vec<u8> {
                j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
            };
            let sk = j["sk"]
                .as_array()
                .unwrap()
                .iter()
                .map(|k| String::from_utf8(bytes(k)).unwrap())
                .collect();
            (bytes(&j["d"]), sk)
        })
        .collect()
}

/// How many values a reader visits which follows every reference, at most. Documents in which this explodes
/// (references to collections of references ...) are left to a separate test.
pub fn visits(d: &[u8]) -> u64 {
    fn value(d: &[u8], o: usize, memo: &mut std::collections::HashMap<usize, u64>, depth: usize) -> u64 {
        if o + 2 > d.len() || depth > 300 {
            return 1;
        }
        if let Some(n) = memo.get(&o) {
            return *n;
        }
        let tag = d[o] >> 4;
        if tag != 6 && tag != 7 {
            return 1;
        }
        let w = if d[o] & 8 != 0 { 4 } else { 2 };
        let mut n = (d[o] as usize & 7) << 8 | d[o + 1] as usize;
        let mut first = o + 2;
        if n == 2047 {
            n = 0;
            let mut sh = 0;
            let mut p = first;
            while p < d.len() && sh < 35 {
                n |= (d[p] as usize & 127) << sh;
                sh += 7;
                p += 1;
                if d[p - 1] < 128 {
                    break;
                }
            }
            first = p + (p - o) % 2;
        }
        if tag == 7 {
            n *= 2;
        }
        let mut total = 1u64;
        for i in 0..n.min(d.len()) {
            let p = first + i * w;
            if p + w > d.len() {
                break;
            }
            total = total.saturating_add(slot(d, p, w, memo, depth + 1));
        }
        memo.insert(o, total);
        total
    }
    fn slot(d: &[u8], p: usize, w: usize, memo: &mut std::collections::HashMap<usize, u64>, depth: usize) -> u64 {
        if d[p] < 128 {
            return value(d, p, memo, depth);
        }
        let off = 2 * if w == 2 {
            (d[p] as usize & 63) << 8 | d[p + 1] as usize
        } else {
            (d[p] as usize & 63) << 24 | (d[p + 1] as usize) << 16 | (d[p + 2] as usize) << 8 | d[p + 3] as usize
        };
        if off == 0 || off > p || depth > 300 {
            return 1;
        }
        let t = p - off;
        if d[t] >= 128 {
            if t + 4 > d.len() {
                return 1;
            }
            return slot(d, t, 4, memo, depth + 1);
        }
        value(d, t, memo, depth + 1)
    }
    if d.len() < 2 {
        return 0;
    }
    let mut memo = std::collections::HashMap::new();
    slot(d, d.len() - 2, 2, &mut memo, 0)
}

const VISITS: u64 = 3000;

fn doc_event(d: &[u8], sk: &[String], res: &str, reads: &Reads) -> String {
    format!(
        "[\"doc\",{{\"d\":{},\"sk\":{},\"res\":{res},\"r\":{}}}]",
        bj(d),
        sk_json(sk),
        reads.json()
    )
}

/// A well-formed document: all ways of reading it.
fn doc_events(d: &[u8], sk: &[String], trusted: bool, cfg: ReadCfg, ev: &mut Vec<String>) {
    journal(&format!("{{\"doc\":{},\"sk\":{}}}", bj(d), sk_json(sk)));
    // Without shared keys
    let (res, reads) = read_bytes(d, trusted, cfg, &make_sk(sk));
    ev.push(doc_event(d, &[], &res, &reads));
    if !sk.is_empty() {
        let scope = Scope::new(d.to_vec(), Some(Arc::new(make_sk(sk))));
        let (res, reads, _, _) = read_scope(&scope, cfg);
        ev.push(doc_event(d, sk, &res, &reads));
    }
}

pub fn foreign(r: &mut Rng, scale: usize, out: &mut Sink, docs: &[Foreign]) {
    let mut ev = vec![];
    let mut skipped = 0;
    for (i, (d, sk)) in docs.iter().enumerate() {
        if visits(d) > VISITS {
            skipped += 1;
            continue;
        }
        let cfg = ReadCfg { colls: 5, probes: 12, convs: 5, seed: r.next() };
        doc_events(d, sk, true, cfg, &mut ev);
        if ev.len() >= 8 || i + 1 == docs.len() {
            out.add(&format!("foreign/{i}"), &ev);
            ev.clear();
        }
    }
    if !ev.is_empty() {
        out.add("foreign/last", &ev);
    }
    out.count("foreign_skipped", skipped);
    let _ = scale;
}

/// Every kind of scalar, in every position of an array, and every conversion of it.
pub fn convert(r: &mut Rng, scale: usize, out: &mut Sink) {
    let mut vals: Vec<Vec<u8>> = vec![];
    // All shorts near the limits, and some inside
    for n in [-2048i32, -2047, -1025, -257, -256, -255, -129, -128, -2, -1, 0, 1, 2, 127, 128, 255, 256, 1024, 2046, 2047] {
        let m = n & 0xfff;
        vals.push(vec![(m >> 8) as u8, m as u8]);
    }
    // Integers of every width: around every power of two, with and without sign
    for w in 1..=8usize {
        for u in [0u8, 8] {
            let mut set: Vec<u64> = vec![0, 1, 2];
            for b in 0..8 * w as u32 {
                for x in [(1u64 << b).wrapping_sub(1), 1u64 << b, (1u64 << b) + 1] {
                    set.push(x);
                    set.push(x.wrapping_neg());
                }
            }
            for x in set {
                if w < 4 && scale < 2 && r.chance(1, 2) {
                    continue;
                }
                let mut v = vec![0x10 | u | (w as u8 - 1)];
                v.extend_from_slice(&x.to_le_bytes()[..w]);
                vals.push(v);
            }
        }
    }
    // Floats: around every integer limit and in general
    let mut fs: Vec<f64> = vec![0.0, -0.0, 0.5, -0.5, 0.999, -0.999, 1.5, -1.5, f64::INFINITY, f64::NEG_INFINITY,
        f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON];
    for b in [7, 8, 11, 12, 15, 16, 23, 24, 31, 32, 52, 53, 62, 63] {
        let p = (1u64 << b) as f64;
        for x in [p, p - 1.0, p + 1.0, p - 0.5, p + 0.5, p * (1.0 - f64::EPSILON / 2.0), p * (1.0 + f64::EPSILON)] {
            fs.push(x);
            fs.push(-x);
        }
    }
    fs.push(18_446_744_073_709_551_615.0);
    fs.push(18_446_744_073_709_549_568.0);
    fs.push(1e300);
    for _ in 0..40 * scale {
        fs.push(gen_f64(r));
    }
    for f in fs {
        let mut v = vec![if r.chance(1, 4) { 0x2C } else { 0x28 }, 0];
        v.extend_from_slice(&f.to_le_bytes());
        vals.push(v);
        let g = f as f32;
        for tag in [0x20, 0x24] {
            let mut v = vec![tag, 0];
            v.extend_from_slice(&g.to_le_bytes());
            vals.push(v);
        }
    }
    for v in [[0x30, 0], [0x3c, 0], [0x34, 0], [0x38, 0], [0x40, 0], [0x50, 0], [0x41, b'1'], [0x51, 0], [0x60, 0], [0x70, 0]] {
        vals.push(v.to_vec());
    }
    vals.push(b"\x43yes\x00".to_vec());
    vals.push(b"\x4512.5x".to_vec());
    vals.push(b"\x53abc".to_vec());
    vals.push(vec![0x60, 1, 0, 0]);
    vals.push(vec![0x70, 1, 0x41, b'k', 0, 1]);
    // in wide and narrow arrays
    let mut i = 0;
    let mut ev = vec![];
    while i < vals.len() {
        let n = r.range(1, 24).min(vals.len() - i);
        let wide = r.chance(1, 2);
        let w = if wide { 4 } else { 2 };
        let mut d: Vec<u8> = vec![];
        let mut at = vec![];
        for v in &vals[i..i + n] {
            at.push(d.len());
            d.extend_from_slice(v);
            if d.len() % 2 == 1 {
                d.push(if r.chance(1, 2) { 0 } else { 0xff });
            }
        }
        let start = d.len();
        d.extend_from_slice(&[if wide { 0x68 } else { 0x60 }, n as u8]);
        for (k, v) in vals[i..i + n].iter().enumerate() {
            // directly when it fits
            let mut slot = if v.len() <= w {
                let mut s = v.clone();
                s.resize(w, 0);
                s
            } else {
                let off = (d.len() - at[k]) / 2;
                if wide {
                    vec![0x80, (off >> 16) as u8, (off >> 8) as u8, off as u8]
                } else {
                    vec![0x80 | (off >> 8) as u8, off as u8]
                }
            };
            d.append(&mut slot);
        }
        let off = (d.len() - start) / 2;
        d.extend_from_slice(&[0x80 | (off >> 8) as u8, off as u8]);
        i += n;
        let cfg = ReadCfg { colls: 1, probes: 2, convs: 100, seed: r.next() };
        doc_events(&d, &[], true, cfg, &mut ev);
        if ev.len() >= 4 || i >= vals.len() {
            out.add(&format!("convert/{i}"), &ev);
            ev.clear();
        }
    }
    // What finding no value of a kind gives: all values as scalar roots
    for v in vals.iter().filter(|v| v.len() == 2) {
        doc_events(v, &[], true, ReadCfg { colls: 1, probes: 2, convs: 3, seed: 1 }, &mut ev);
    }
    out.add("convert/roots", &ev);
    // The constants, as if read from a document; they can be written like any other
    ev.clear();
    for (d, v) in [
        ([0x30, 0], Value::null()),
        ([0x3c, 0], Value::undefined()),
        ([0x34, 0], Value::bool(false)),
        ([0x38, 0], Value::bool(true)),
    ] {
        let mut reads = Reads::default();
        reads.walk(v);
        reads.query(v, &make_sk(&[]), ReadCfg { colls: 1, probes: 2, convs: 3, seed: 1 });
        ev.push(doc_event(&d, &[], "[\"ok\"]", &reads));
        let written = guarded(|| {
            let mut e = Encoder::new();
            e.begin_array(1).unwrap();
            e.write_fleece(v).unwrap();
            e.end_array().unwrap();
            e.finish()
        });
        {
            let d = written.unwrap_or_default();
            doc_events(&d, &[], true, ReadCfg { colls: 1, probes: 2, convs: 3, seed: 1 }, &mut ev);
            // of one value, which is this one
            let mut reads = Reads::default();
            reads.add_walk(T::Arr(vec![crate::tree::walk(v, By::Iter)]));
            ev.push(doc_event(&d, &[], "[\"ok\"]", &reads));
        }
    }
    out.add("convert/constants", &ev);
}

// ---------------------------------------------------------------------------------------------
// Untrusted bytes

/// Memory with inaccessible pages on both sides.
pub struct Guarded {
    base: *mut u8,
    len: usize,
}

impl Guarded {
    pub fn new(len: usize) -> Self {
        let page = 4096;
        let len = len.div_ceil(page) * page;
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                len + 2 * page,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert_ne!(p, libc::MAP_FAILED);
            let base = p.cast::<u8>().add(page);
            assert_eq!(libc::mprotect(base.cast(), len, libc::PROT_READ | libc::PROT_WRITE), 0);
            Guarded { base, len }
        }
    }
    /// The bytes, with their end (or their start) at an inaccessible page.
    pub fn put(&mut self, d: &[u8], at_end: bool) -> &[u8] {
        assert!(d.len() <= self.len);
        unsafe {
            let p = if at_end { self.base.add(self.len - d.len()) } else { self.base };
            std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
            std::slice::from_raw_parts(p, d.len())
        }
    }
}

/// Read everything in every way; it does not matter what comes out.
fn touch(d: &[u8], v: &Value, sk: &SharedKeys, budget: &mut i64) {
    *budget -= 1;
    if *budget < 0 {
        return;
    }
    std::hint::black_box((
        v.to_bool(),
        v.to_short(),
        v.to_unsigned_short(),
        v.to_int(),
        v.to_unsigned_int(),
        v.to_float(),
        v.to_double(),
        v.to_str().chars().count(),
        v.to_data().iter().map(|x| u64::from(*x)).sum::<u64>(),
        v.value_type() as u8,
    ));
    if let Some(a) = v.as_array() {
        std::hint::black_box((a.is_empty(), a.is_wide(), a.iter().size_hint()));
        for x in a {
            touch(d, x, sk, budget);
        }
        let n = a.len();
        for i in [0, 1, n.wrapping_sub(1), n, n + 1, usize::MAX] {
            if let Some(x) = a.get(i) {
                std::hint::black_box(x.to_int());
            }
        }
    }
    if let Some(x) = v.as_dict() {
        std::hint::black_box((x.is_empty(), x.len(), x.first().map(|(k, v)| (k.to_int(), v.to_int()))));
        for (k, y) in x {
            std::hint::black_box((x.get(k).is_some(), x.get_with_shared_keys(k, sk).is_some()));
            touch(d, y, sk, budget);
        }
        for k in ["", "a", "key", "zz", "ab", "\u{e9}", "0123456789abcdefg"] {
            std::hint::black_box((
                x.get(k).map(|v| v.to_int()),
                x.contains_key(k),
                x.get_with_shared_keys(k, sk).map(|v| v.to_int()),
            ));
        }
    }
}

fn copies(d: &[u8], v: &Value) {
    if let Some(a) = v.as_array() {
        let m = MutableArray::clone_from(a);
        std::hint::black_box(m.len());
        let mut e = Encoder::new();
        let _ = e.write_fleece(v);
        std::hint::black_box(e.finish());
    }
    if let Some(x) = v.as_dict() {
        let m = MutableDict::clone_from(x);
        std::hint::black_box(m.len());
        let mut e = Encoder::new();
        let _ = e.write_fleece(v);
        std::hint::black_box(e.finish());
    }
    std::hint::black_box(format!("{v:?}"));
    let _ = std::hint::black_box(Array::from_bytes(d).map(|a| a.len()));
    let _ = std::hint::black_box(Dict::from_bytes(d).map(|x| x.len()));
    let _ = std::hint::black_box(fleece::from_bytes::<serde_json::Value>(d).map(|_| ()).map_err(|e| format!("{e}")));
}

/// One document: 0 rejected, 1 accepted, 2 validation panicked, 3 a read panicked, 4 answers differ.
pub fn probe(g: &mut Guarded, d: &[u8], sk: &SharedKeys) -> (i32, Option<T>) {
    let mut first: Option<(bool, Option<T>)> = None;
    for at_end in [true, false] {
        let b: &[u8] = unsafe { std::mem::transmute(g.put(d, at_end)) };
        match guarded(|| Value::from_bytes(b).map_err(|_| ())) {
            Err(_) => return (2, None),
            Ok(Err(())) => {
                if first.as_ref().is_some_and(|f| f.0) {
                    return (4, None);
                }
                first = Some((false, None));
            }
            Ok(Ok(v)) => {
                let t = guarded(|| {
                    let mut budget = 20_000;
                    touch(b, v, sk, &mut budget);
                    copies(b, v);
                    walk(v, By::Iter)
                });
                let Ok(t) = t else { return (3, None) };
                if b != d {
                    return (4, None);
                }
                if guarded(|| Array::from_bytes(b).is_ok()) != Ok(v.as_array().is_some())
                    || guarded(|| Dict::from_bytes(b).is_ok()) != Ok(v.as_dict().is_some())
                {
                    return (4, None);
                }
                if first.as_ref().is_some_and(|f| !f.0 || f.1.as_ref() != Some(&t)) {
                    return (4, None);
                }
                first = Some((true, Some(t)));
            }
        }
    }
    let cl = guarded(|| Value::clone_from_bytes(d).map(|a| walk(&a, By::Iter)).map_err(|_| ()));
    let (ok, t) = first.unwrap();
    match cl {
        Err(_) => (3, None),
        Ok(r) if r.as_ref().ok() != t.as_ref() => (4, None),
        _ => (i32::from(ok), t),
    }
}

pub struct Fuzz {
    g: Guarded,
    ev: Vec<String>,
    sk: SharedKeys,
    n: usize,
    pub accepted: usize,
    pub skipped: usize,
}

impl Fuzz {
    pub fn new() -> Self {
        Fuzz {
            g: Guarded::new(1 << 17),
            ev: vec![],
            sk: make_sk(&["a".into(), "ab".into(), "key".into()]),
            n: 0,
            accepted: 0,
            skipped: 0,
        }
    }
    pub fn go(&mut self, d: &[u8], out: &mut Sink) {
        if visits(d) > VISITS {
            self.skipped += 1;
            return;
        }
        journal(&format!("{{\"bytes\":{}}}", bj(d)));
        let (code, t) = probe(&mut self.g, d, &self.sk);
        self.accepted += usize::from(code == 1);
        let t = t.map_or(String::new(), |t| t.json());
        self.ev.push(format!("[\"fz\",{},{code},[{t}]]", bj(d)));
        self.n += 1;
        if self.ev.len() >= 100 {
            self.flush(out);
        }
    }
    pub fn flush(&mut self, out: &mut Sink) {
        if !self.ev.is_empty() {
            out.add(&format!("fuzz/{}", self.n), &self.ev);
            self.ev.clear();
        }
    }
}

const WORDS: &[[u8; 2]] = &[
    [0x00, 0x00], [0x0f, 0xff], [0x10, 0x05], [0x11, 0x80], [0x13, 0x01], [0x17, 0xff], [0x1f, 0x01], [0x18, 0x00],
    [0x20, 0x00], [0x24, 0x00], [0x28, 0x00], [0x2c, 0x00], [0x30, 0x00], [0x34, 0x00], [0x3c, 0x00], [0x31, 0x00],
    [0x40, 0x00], [0x41, 0x61], [0x41, 0xff], [0x42, 0xc3], [0x43, 0x62], [0x4e, 0x00], [0x4f, 0x01], [0x4f, 0x80],
    [0x4f, 0xff], [0x51, 0x00], [0x55, 0x00], [0x5f, 0x04], [0x5f, 0xff], [0x60, 0x00], [0x60, 0x01], [0x60, 0x02],
    [0x61, 0x00], [0x67, 0xfe], [0x67, 0xff], [0x68, 0x01], [0x68, 0x02], [0x6f, 0xff], [0x70, 0x00], [0x70, 0x01],
    [0x70, 0x02], [0x77, 0xff], [0x78, 0x01], [0x78, 0x00], [0x7f, 0xff], [0x80, 0x00], [0x80, 0x01], [0x80, 0x02],
    [0x80, 0x03], [0x80, 0x04], [0x80, 0x06], [0xc0, 0x01], [0xbf, 0xff], [0xff, 0xff], [0xff, 0x01], [0x7f, 0x00],
    [0x01, 0x00], [0x02, 0x00], [0x03, 0x00], [0xff, 0x7f], [0x80, 0x80],
];

/// Untrusted bytes: everything small, and broken versions of good documents.
pub fn fuzz(r: &mut Rng, scale: usize, out: &mut Sink, docs: &[Foreign]) {
    let mut f = Fuzz::new();
    f.go(&[], out);
    for b in 0..=255u8 {
        f.go(&[b], out);
    }
    // All documents of two bytes
    for w in 0..=0xffffu32 {
        if scale > 3 || w & 0xff < 4 || w & 0xff > 0xfc || r.chance(1, 12) {
            f.go(&[(w >> 8) as u8, w as u8], out);
        }
    }
    // All of three bytes are rejected; of four bytes: all pairs of words, with any root
    for a in WORDS {
        f.go(&[a[0], a[1], a[0]], out);
        for b in WORDS {
            f.go(&[a[0], a[1], b[0], b[1]], out);
            for root in [1u8, 2, 3] {
                f.go(&[a[0], a[1], b[0], b[1], 0x80, root], out);
            }
            f.go(&[a[0], a[1], b[0], b[1], 0xc0, 2], out);
        }
    }
    // Longer sequences of words
    for _ in 0..12_000 * scale {
        let n = r.range(3, 9);
        let mut d = vec![];
        for _ in 0..n {
            let mut w = *r.pick(WORDS);
            if r.chance(1, 12) {
                w[r.below(2)] = r.next() as u8;
            }
            d.extend_from_slice(&w);
        }
        d.extend_from_slice(&[0x80, r.range(1, n + 1) as u8]);
        f.go(&d, out);
    }
    // Mutations of well-formed documents
    let mut base: Vec<Vec<u8>> = docs.iter().filter(|d| d.0.len() < 400).map(|d| d.0.clone()).collect();
    for _ in 0..60 {
        let mut b = 25;
        let t = gen_coll(r, 4, &mut b);
        let mut e = Encoder::new();
        if r.chance(1, 3) {
            e.set_shared_keys(SharedKeys::new());
        }
        exec(&mut e, &Op::Bld(t, r.next()), None);
        let d = e.finish();
        if d.len() < 600 {
            base.push(d);
        }
    }
    for _ in 0..9000 * scale {
        let mut d = r.pick(&base).clone();
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 6]) {
            mutate(r, &mut d);
        }
        if d.len() < 1200 {
            f.go(&d, out);
        }
    }
    // Every truncation, and every single byte replaced
    for _ in 0..4 * scale {
        let d = r.pick(&base).clone();
        if d.len() > 120 {
            continue;
        }
        for n in 0..d.len() {
            f.go(&d[n..], out);
            f.go(&d[..n], out);
            let mut e = d.clone();
            for x in [0, 0x0f, 0x1f, 0x40, 0x4f, 0x60, 0x67, 0x6f, 0x77, 0x7f, 0x80, 0xbf, 0xc0, 0xff, d[n].wrapping_add(1), d[n] ^ 8] {
                e[n] = x;
                f.go(&e, out);
            }
        }
    }
    f.flush(out);
    out.count("fuzz_documents", f.n);
    out.count("fuzz_accepted", f.accepted);
    out.count("fuzz_skipped", f.skipped);
}

pub fn mutate(r: &mut Rng, d: &mut Vec<u8>) {
    let n = d.len();
    if n < 2 {
        return;
    }
    let tail = r.chance(1, 3);
    let i = if tail { n - 1 - r.below(n.min(12)) } else { r.below(n) };
    match r.below(12) {
        0 | 1 => d[i] ^= 1 << r.below(8),
        2 => d[i] = r.next() as u8,
        3 => d[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x67, 0x77, 0x6f, 0x4f, 0x5f, 0xc0]),
        4 => d[i] = d[i].wrapping_add(1),
        5 => d[i] = d[i].wrapping_sub(1),
        6 => {
            let k = 2 * r.below(n / 2 + 1);
            d.truncate(k.max(1));
        }
        7 => {
            let k = 2 * r.below(n / 2);
            d.drain(..k);
        }
        8 => {
            let w = *r.pick(WORDS);
            let k = i & !1;
            d.splice(k..k, w);
        }
        9 => {
            let w = *r.pick(WORDS);
            let k = (i & !1).min(n - 2);
            d[k..k + 2].copy_from_slice(&w);
        }
        10 => {
            let k = i & !1;
            let m = (k + 2 * r.range(1, 6)).min(n);
            let part: Vec<u8> = d[k..m].to_vec();
            let at = 2 * r.below(n / 2 + 1);
            d.splice(at.min(n)..at.min(n), part);
        }
        _ => {
            let k = i & !1;
            let m = (k + 2).min(n);
            d.drain(k..m);
        }
    }
}

/// Documents for the recorded findings: what reading them does.
#[derive(PartialEq, Eq, Debug)]
pub enum Demo {
    Fine,
    Crashed,
    Hangs,
}

pub fn demo_fails(name: &str, seconds: u64) -> Demo {
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["demo", name])
        .env_remove("FV_JOURNAL")
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(seconds);
    loop {
        match child.try_wait().unwrap() {
            Some(s) if s.success() => return Demo::Fine,
            Some(_) => return Demo::Crashed,
            None if std::time::Instant::now() > end => {
                let _ = child.kill();
                let _ = child.wait();
                return Demo::Hangs;
            }
            None => std::thread::sleep(std::time::Duration::from_millis(5)),
        }
    }
}

pub fn demo(name: &str) {
    let mut d = vec![0x60, 0];
    let ptr = |d: &mut Vec<u8>, to: usize| {
        let off = (d.len() - to) / 2;
        d.extend([0x80 | (off >> 8) as u8, off as u8]);
    };
    match name {
        // an array in an array in an array ...
        "deep" => {
            for _ in 0..200_000 {
                let to = d.len() - if d.len() == 2 { 2 } else { 4 };
                d.extend([0x60, 1]);
                ptr(&mut d, to);
            }
            let to = d.len() - 4;
            ptr(&mut d, to);
        }
        // a reference to a reference to a reference ...
        "chain" => {
            for _ in 0..1_000_000 {
                let off = if d.len() == 2 { 1u8 } else { 2 };
                d.extend([0x80, 0, 0, off]);
            }
            let to = d.len() - 4;
            ptr(&mut d, to);
        }
        // arrays which refer twice to the one before
        "dag" => {
            for _ in 0..40 {
                let to = d.len() - if d.len() == 2 { 2 } else { 6 };
                d.extend([0x60, 2]);
                ptr(&mut d, to);
                ptr(&mut d, to);
            }
            let to = d.len() - 6;
            ptr(&mut d, to);
        }
        other => panic!("no demonstration {other}"),
    }
    // with as much stack as a main thread usually has
    let t = std::thread::Builder::new().stack_size(8 << 20);
    let ok = t.spawn(move || Value::from_bytes(&d).is_ok()).unwrap().join().unwrap();
    println!("{ok}");
}
