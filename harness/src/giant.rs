//! Documents of the size which pointers can reach, 1 GiB.

use crate::codec::Sink;
use crate::util::{guarded, journal, res_json, Rng};
use fleece::{Encoder, Scope, Value, ValueType};

/// The most which a pointer is said to reach
const REACH: usize = 0x3fff_ffff;
const LONGEST: usize = (1 << 32) + (1 << 16);

/// Zeros, which take no memory until they are copied
fn zeros() -> &'static [u8] {
    static Z: std::sync::OnceLock<&'static [u8]> = std::sync::OnceLock::new();
    Z.get_or_init(|| unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            LONGEST,
            libc::PROT_READ,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p.cast::<u8>(), LONGEST)
    })
}

/// A large collection to be copied: its bytes, and its tree
fn source(no: usize) -> (Vec<u8>, String, usize) {
    let n = (1 << 29) - 2000;
    let (small, data) = (bytes(30, b's'), &zeros()[..n]);
    let small = std::str::from_utf8(&small).unwrap();
    let mut e = Encoder::new();
    let leaves = (format!("[\"str\",{}]", size_json(30, b's'.into())), format!("[\"data\",{}]", size_json(n, 0)));
    let t = if no % 2 == 0 {
        e.begin_array(3).unwrap();
        e.write_value(small).unwrap();
        e.begin_array(2).unwrap();
        e.write_value(data).unwrap();
        e.write_value(small).unwrap();
        e.end_array().unwrap();
        e.write_value(small).unwrap();
        e.end_array().unwrap();
        format!("[\"arr\",[{},[\"arr\",[{},{}]],{}]]", leaves.0, leaves.1, leaves.0, leaves.0)
    } else {
        e.begin_dict().unwrap();
        e.write_key(small).unwrap();
        e.write_value(small).unwrap();
        e.write_key("xxxx").unwrap();
        e.write_value(data).unwrap();
        e.end_dict().unwrap();
        let k = |n, c: u8| size_json(n, c.into());
        format!("[\"dict\",[[{},{}],[{},{}]]]", k(30, b's'), leaves.0, k(4, b'x'), leaves.1)
    };
    (e.finish(), t, n)
}

/// Bytes which are all the same
fn bytes(n: usize, c: u8) -> Vec<u8> {
    vec![c; n]
}

fn size_json(n: usize, c: i32) -> String {
    format!("[{},{},{c}]", n >> 20, n & 0xf_ffff)
}

fn same_json(b: &[u8]) -> String {
    let c = b.first().copied().unwrap_or(0);
    size_json(b.len(), if b.iter().all(|x| *x == c) { c.into() } else { -1 })
}

fn tree(v: &Value, depth: usize) -> String {
    match v.value_type() {
        ValueType::String => format!("[\"str\",{}]", same_json(v.to_str().as_bytes())),
        ValueType::Data => format!("[\"data\",{}]", same_json(v.to_data())),
        ValueType::Short => format!("[\"int\",{}]", v.to_int()),
        ValueType::Array if depth < 20 => {
            let a = v.as_array().unwrap();
            format!("[\"arr\",[{}]]", a.iter().map(|x| tree(x, depth + 1)).collect::<Vec<_>>().join(","))
        }
        ValueType::Dict if depth < 20 => {
            let d = v.as_dict().unwrap();
            let found = |k: &str, x: &Value| d.get(k).is_some_and(|y| std::ptr::addr_eq(x, y));
            let es: Vec<_> = d
                .iter()
                .map(|(k, x)| format!("[{},{}]", same_json(k.as_bytes()), if found(k, x) { tree(x, depth + 1) } else { "[\"lost\"]".into() }))
                .collect();
            format!("[\"dict\",[{}]]", es.join(","))
        }
        _ => "[\"bad\"]".into(),
    }
}

/// The document which was written: nothing, a tree, or not a document
fn document(d: &[u8]) -> String {
    if d.is_empty() {
        return "[]".into();
    }
    let t = guarded(|| Value::from_bytes(d).map(|v| tree(v, 0)));
    match t {
        Ok(Ok(t)) => format!("[{t}]"),
        Ok(Err(_)) => "[[\"invalid\"]]".into(),
        Err(_) => "[[\"panic\"]]".into(),
    }
}

pub fn giants(r: &mut Rng, scale: usize, out: &mut Sink) {
    for i in 0..scale * 3 {
        journal(&format!("{{\"giant\":{i}}}"));
        let ev = one(r, i);
        out.add(&format!("giant/{i}"), &ev);
    }
}

fn one(r: &mut Rng, no: usize) -> Vec<String> {
    // Some copy a collection, which can be done once only
    let source = (no % 3 == 2).then(|| source(no / 3));
    let mut e = Encoder::new();
    let mut ev = vec!["[\"new\"]".to_string()];
    // open collections: is it a dict, has it a key waiting
    let mut open: Vec<(bool, bool)> = vec![];
    // about what has been written
    let mut size = 0usize;
    let mut giants = 0;
    let mut serial = 0u8;
    let calls = r.range(5, 16);
    for c in 0..calls {
        // The first is a small one often, to be far from the end
        let n = if r.chance(1, 2) || (c == 1 && r.chance(2, 3)) || giants > 2 {
            r.range(1, 40)
        } else {
            giants += 1;
            let left = REACH.saturating_sub(size);
            match (no + giants) % 5 {
                0 => left / 2,
                1 => (left + 8).saturating_sub(r.below(70)),
                2 => left + r.below(1000),
                3 => (left - left / 16).saturating_sub(r.below(1 << 20)),
                _ => (1 << 32) + r.below(1 << 12),
            }
        };
        serial += 1;
        let n = n.max(1);
        let ch = if n > 1000 { 0 } else { 32 + serial };
        let small = bytes(if n > 1000 { 0 } else { n }, ch);
        let b: &[u8] = if n > 1000 { &zeros()[..n] } else { &small };
        let s = std::str::from_utf8(b).unwrap();
        let legal = match open.last() {
            None => 0,
            Some((true, false)) => 1,
            Some(_) => 2,
        };
        let op = if c > 0 && r.chance(1, 15) { r.below(6) } else if legal == 0 { if source.is_some() { 3 } else { 3 + r.below(2) } } else if legal == 1 { if open.len() > 1 && r.chance(1, 8) { 5 } else { 0 } } else {
            *r.pick(if open.len() > 1 { &[1, 1, 1, 1, 2, 3, 4, 1, 1, 5, 6] } else { &[1, 1, 1, 2, 3, 4, 6] })
        };
        let op = if source.is_some() && op > 0 && op != 5 && (legal == 2 && c < 6 || r.chance(1, 3)) { 7 } else { op };
        let (call, res) = match op {
            7 => {
                let (d, t, _) = source.as_ref().unwrap();
                (format!("\"wf\",{t}"), guarded(|| e.write_fleece(Value::from_bytes(d).unwrap())))
            }
            0 => (format!("\"wk\",{}", size_json(n, ch.into())), guarded(|| e.write_key(s))),
            1 => (format!("\"wv\",[\"str\",{}]", size_json(n, ch.into())), guarded(|| e.write_value(s))),
            2 => (format!("\"wv\",[\"data\",{}]", size_json(n, ch.into())), guarded(|| e.write_value(b))),
            3 => ("\"ba\"".into(), guarded(|| e.begin_array(n))),
            4 => ("\"bd\"".into(), guarded(|| e.begin_dict())),
            5 => match open.last() {
                Some((true, _)) => ("\"ed\"".into(), guarded(|| e.end_dict())),
                _ => ("\"ea\"".into(), guarded(|| e.end_array())),
            },
            _ => (format!("\"wv\",[\"int\",{serial}]"), guarded(|| e.write_value(&i16::from(serial)))),
        };
        ev.push(format!("[{call},{}]", res_json(&res)));
        match res {
            Err(_) => return ev,
            Ok(Err(_)) => continue,
            Ok(Ok(())) => {}
        }
        size += 8;
        match op {
            0 => {
                open.last_mut().unwrap().1 = true;
                size += n;
            }
            3 | 4 => open.push((op == 4, false)),
            5 => {
                open.pop();
                if open.is_empty() {
                    break;
                }
            }
            7 => size += source.as_ref().unwrap().2,
            _ => size += n,
        }
        if open.is_empty() {
            break;
        }
        if matches!(op, 1 | 2 | 5 | 6 | 7) {
            if let Some(t) = open.last_mut() {
                t.1 = false;
            }
        }
    }
    let fin = match no % 3 {
        0 => guarded(|| {
            let s: std::sync::Arc<Scope> = e.finish_scoped();
            s.data().map_or("[[\"none\"]]".into(), |d| document(&d))
        }),
        _ => guarded(|| document(&e.finish())),
    };
    ev.push(format!("[\"fin\",{}]", fin.unwrap_or("[[\"panic\"]]".into())));
    ev
}

// ---------------------------------------------------------------------------------------------
// Collections of many elements, which are functions of their index

fn nth_value(i: usize) -> i64 {
    match i % 5 {
        0 => (i % 2048) as i64,
        1 => -((i % 2048) as i64),
        2 => i as i64,
        3 => (i as i64) << 32,
        _ => !(i as i64 * 3),
    }
}

fn nth_key(i: usize) -> String {
    format!("{i:07x}")
}

/// [length, elements iterated in their places, elements found at their places, what else was found, length of the hint]
fn of_array(a: &fleece::Array, n: usize) -> [usize; 5] {
    let it = a.iter();
    let hint = it.size_hint();
    [
        a.len(),
        it.enumerate().take_while(|(i, v)| v.to_int() == nth_value(*i)).count(),
        (0..n).filter(|i| a.get(*i).is_some_and(|v| v.to_int() == nth_value(*i))).count(),
        (n..n + 10).chain((14..40).map(|b| n + (1 << b))).filter(|i| a.get(*i).is_some()).count(),
        if hint.1 == Some(hint.0) { hint.0 } else { 0 },
    ]
}

fn of_dict(d: &fleece::Dict, n: usize, shared: &fleece::SharedKeys) -> [usize; 5] {
    let it = d.iter();
    let hint = it.size_hint();
    let mut seen = vec![false; n];
    for (k, v) in it {
        let i = usize::from_str_radix(k, 16).unwrap_or(n);
        if i < n && nth_key(i) == k && v.to_int() == nth_value(i) && !seen[i] {
            seen[i] = true;
        }
    }
    let ok = |i: usize, v: Option<&Value>| v.is_some_and(|v| v.to_int() == nth_value(i));
    [
        d.len(),
        seen.iter().filter(|x| **x).count(),
        (0..n)
            .filter(|i| {
                let k = nth_key(*i);
                ok(*i, d.get(&k)) && ok(*i, d.get_with_shared_keys(&k, shared)) && d.contains_key(&k)
            })
            .count(),
        (n..n + 50)
            .map(nth_key)
            .chain((0..n).step_by(n / 500 + 1).flat_map(|i| [format!("{}!", nth_key(i)), nth_key(i)[..6].to_string()]))
            .filter(|k| d.get(k).is_some())
            .count(),
        if hint.1 == Some(hint.0) { hint.0 } else { 0 },
    ]
}

pub fn ramps(r: &mut Rng, scale: usize, out: &mut Sink) {
    let mut sizes: Vec<usize> = vec![32_767 + r.below(3), 65_535, 65_536, 65_537];
    for _ in 0..scale {
        sizes.push((1 << r.range(11, 17)) + r.below(70_000));
    }
    for (i, n) in sizes.into_iter().enumerate() {
        journal(&format!("{{\"ramp\":{n}}}"));
        let mut ev = vec!["[\"new\"]".to_string()];
        for kind in ["arr", "dict", "shared"] {
            // elements may have to be wide, or are by chance
            let filler = *r.pick(&[0, 0x3ff0, 0x8000, 0x10_0000]);
            for (route, res) in ramp(kind, n, filler) {
                let res = res.map_or("[\"panic\"]".into(), |x| format!("{x:?}"));
                ev.push(format!("[\"ramp\",{n},\"{kind} {route}\",{res}]"));
            }
        }
        out.add(&format!("ramp/{i}"), &ev);
    }
}

type Ramp = Vec<(&'static str, Result<[usize; 5], String>)>;

fn ramp(kind: &str, n: usize, filler: usize) -> Ramp {
    use fleece::{MutableArray, MutableDict, SharedKeys};
    let written = guarded(|| {
        let mut e = Encoder::new();
        if kind == "shared" {
            e.set_shared_keys(SharedKeys::new());
        }
        e.begin_array(2).unwrap();
        if kind == "arr" {
            e.begin_array(n).unwrap();
            for i in 0..n {
                e.write_value(&nth_value(i)).unwrap();
            }
            e.end_array().unwrap();
        } else {
            e.begin_dict().unwrap();
            // written in another order than they are stored in
            for i in (0..n).step_by(2).chain((1..n).step_by(2)) {
                e.write_key(&nth_key(i)).unwrap();
                e.write_value(&nth_value(i)).unwrap();
            }
            e.end_dict().unwrap();
        }
        e.write_value(&bytes(filler, 0)[..]).unwrap();
        e.end_array().unwrap();
        e.finish_scoped()
    });
    let scope = match written {
        Ok(s) => s,
        Err(m) => return vec![("written", Err(m))],
    };
    let own = scope.shared_keys().cloned();
    let none = SharedKeys::new();
    let keys = own.as_deref().unwrap_or(&none);
    let count = |v: Option<&Value>| {
        let v = v.expect("no value");
        if kind == "arr" {
            of_array(v.as_array().expect("no array"), n)
        } else {
            of_dict(v.as_dict().expect("no dict"), n, keys)
        }
    };
    let inner = |v: &Value| count(v.as_array().and_then(|a| a.get(0)));
    let data = scope.data().unwrap_or_default();
    let mut all: Ramp = vec![("scope", guarded(|| inner(scope.root().expect("no root").value())))];
    if kind != "shared" {
        all.push(("bytes", guarded(|| inner(Value::from_bytes(&data).expect("invalid")))));
        all.push(("unchecked", guarded(|| inner(unsafe { Value::from_bytes_unchecked(&data) }))));
    }
    all.push((
        "mutable",
        guarded(|| {
            let root = scope.root().expect("no root");
            let v = root.value().as_array().and_then(|a| a.get(0)).expect("no value");
            let fin = if kind == "arr" {
                let m = MutableArray::clone_from(v.as_array().unwrap());
                let mut e = Encoder::new();
                e.begin_array(m.len()).unwrap();
                for x in &m {
                    e.write_fleece(x.value().unwrap()).unwrap();
                }
                e.end_array().unwrap();
                e.finish()
            } else {
                let m = MutableDict::clone_from(v.as_dict().unwrap());
                let mut e = Encoder::new();
                e.begin_dict().unwrap();
                for (k, x) in &m {
                    e.write_key(k).unwrap();
                    e.write_fleece(x.value().unwrap()).unwrap();
                }
                e.end_dict().unwrap();
                e.finish()
            };
            count(Some(Value::from_bytes(&fin).expect("invalid")))
        }),
    ));
    all.push((
        "copied",
        guarded(|| {
            let root = scope.root().expect("no root");
            let mut e = Encoder::new();
            e.write_fleece(root.value().as_array().and_then(|a| a.get(0)).expect("no value")).unwrap();
            let d = e.finish();
            count(Some(Value::from_bytes(&d).expect("invalid")))
        }),
    ));
    all
}
