//! Histories of shared-key sets.

use crate::codec::*;
use crate::gen::*;
use crate::tree::{bj, steady, walk, By, T};
use crate::util::{guarded, journal, Rng};
use fleece::{Encoder, Scope, SharedKeys, Value};
use std::sync::Arc;

/// Only characters which the specification knows (SharedKeys!CharKnown).
const OTHER: &[char] = &[
    '\u{e9}', '\u{df}', '\u{3a9}', '\u{44f}', '\u{65e5}', '\u{b2}', '\u{2164}', '\u{bd}', '\u{2192}', '\u{20ac}',
    '\u{1f600}', '\u{301}', '\u{3000}', '\u{b7}',
];

pub fn sk_string(r: &mut Rng) -> String {
    let plain = |r: &mut Rng, n: usize| -> String {
        (0..n).map(|_| *r.pick(b"abcxyzABZ0189_-") as char).collect()
    };
    match r.below(10) {
        // few strings, again and again
        0 | 1 => format!("k{}", r.below(12)),
        2 => {
            let n = r.below(4);
            plain(r, n)
        }
        // equal up to the limit of the length
        3 => {
            let s = "prefix_of_16____prefix_of_32____";
            let mut s = s[..r.range(13, 20)].to_string();
            if r.chance(1, 2) {
                s.pop();
                s.push(*r.pick(&['a', 'b', '0']));
            }
            s
        }
        4 => {
            let n = r.range(14, 18);
            plain(r, n)
        }
        // characters of several bytes, around the limit
        5 => {
            let n = r.range(10, 16);
            let mut s = plain(r, n);
            let at = r.below(s.len() + 1);
            s.insert(at, *r.pick(OTHER));
            s
        }
        6 => {
            let n = r.range(1, 9);
            (0..n).map(|_| *r.pick(&OTHER[..8])).collect()
        }
        7 => {
            let n = r.range(0, 4);
            let mut s = plain(r, n);
            let at = r.below(s.len() + 1);
            s.insert(at, (r.below(128) as u8) as char);
            s
        }
        8 => {
            let n = r.range(0, 5);
            let mut s = plain(r, n);
            s.push(*r.pick(OTHER));
            s
        }
        _ => {
            let n = r.range(1, 16);
            plain(r, n)
        }
    }
}

pub struct World {
    pub sets: Vec<SharedKeys>,
    pub ev: Vec<String>,
}

fn num(r: Result<Option<u16>, String>) -> i64 {
    match r {
        Ok(Some(n)) => i64::from(n),
        Ok(None) => -1,
        Err(_) => -2,
    }
}

impl World {
    pub fn new() -> Self {
        World { sets: vec![SharedKeys::new()], ev: vec!["[\"new\"]".into()] }
    }

    pub fn insert(&mut self, h: usize, s: &str) {
        let r = num(guarded(|| self.sets[h].encode_and_insert(s)));
        self.ev.push(format!("[\"ins\",{},{},{r}]", h + 1, bj(s.as_bytes())));
    }

    pub fn insert_many(&mut self, h: usize, ss: &[String]) {
        let rs: Vec<i64> = ss.iter().map(|s| num(guarded(|| self.sets[h].encode_and_insert(s)))).collect();
        self.ev.push(format!("[\"insm\",{},{},{rs:?}]", h + 1, sk_json(ss)));
    }

    pub fn clone_set(&mut self, h: usize) {
        let c = self.sets[h].clone();
        self.sets.push(c);
        self.ev.push(format!("[\"clone\",{}]", h + 1));
    }

    pub fn save(&mut self, h: usize, how: &str, r: &mut Rng) {
        let sk = &self.sets[h];
        let res = guarded(|| match how {
            "bytes" => SharedKeys::from_state_bytes(&sk.get_state_bytes()),
            _ => {
                // inside a larger document, between other things
                let mut e = Encoder::new();
                let shape = r.below(5);
                let mut pos = vec![];
                match shape {
                    0 => {
                        e.begin_array(0).unwrap();
                        sk.write_state(&mut e)?;
                        pos.push(1);
                    }
                    1 => {
                        e.begin_dict().unwrap();
                        e.write_key("aa").unwrap();
                        e.write_value("x").unwrap();
                        e.write_key("state").unwrap();
                        sk.write_state(&mut e)?;
                        e.write_key("zz").unwrap();
                        e.write_value(77_777).unwrap();
                        pos.push(2);
                    }
                    2 => {
                        e.begin_array(5).unwrap();
                        for i in 0..r.range(1, 6) {
                            e.write_value(i as i64 * 1_000_000).unwrap();
                            pos = vec![i + 2];
                        }
                        sk.write_state(&mut e)?;
                        e.write_value("after").unwrap();
                    }
                    3 => {
                        e.begin_array(5).unwrap();
                        e.write_value(vec![5u8; 20_000].as_slice()).unwrap();
                        sk.write_state(&mut e)?;
                        e.write_value(vec![6u8; 17_000].as_slice()).unwrap();
                        sk.write_state(&mut e)?;
                        pos.push(if r.chance(1, 2) { 2 } else { 4 });
                    }
                    _ => {
                        sk.write_state(&mut e)?;
                    }
                }
                let d = e.finish();
                SharedKeys::from_state_value(at(Value::from_bytes(&d).ok()?, &pos)?)
            }
        });
        let code = match res {
            Ok(Some(s)) => {
                self.sets.push(s);
                0
            }
            Ok(None) => -1,
            Err(_) => -2,
        };
        self.ev.push(format!("[\"save\",{},\"{how}\",{code}]", h + 1));
    }

    pub fn query(&mut self, h: usize, s: &str) {
        let sk = &self.sets[h];
        let e = num(guarded(|| sk.encode(s)));
        self.ev.push(format!("[\"enc\",{},{},{e}]", h + 1, bj(s.as_bytes())));
        let c = guarded(|| sk.can_add(s)).map_or("\"panic\"".to_string(), |b| b.to_string());
        self.ev.push(format!("[\"can\",{},{},{c}]", h + 1, bj(s.as_bytes())));
    }

    pub fn decode(&mut self, h: usize, n: u16) {
        let sk = &self.sets[h];
        let d = guarded(|| sk.decode(n).map(str::to_owned));
        let j = match d {
            Ok(Some(s)) => format!("[{}]", bj(s.as_bytes())),
            Ok(None) => "[]".into(),
            Err(_) => "[\"panic\"]".into(),
        };
        self.ev.push(format!("[\"dec\",{},{n},{j}]", h + 1));
    }

    pub fn look(&mut self, h: usize, full: bool) {
        let sk = &self.sets[h];
        self.ev.push(format!("[\"len\",{},{},{}]", h + 1, sk.len(), sk.is_empty()));
        if full {
            let it = guarded(|| {
                sk.iter()
                    .map(|(s, n)| format!("[{},{n}]", bj(s.as_bytes())))
                    .collect::<Vec<_>>()
                    .join(",")
            })
            .unwrap_or("\"panic\"".into());
            let at = |x: &(&str, u16)| (x.0.as_ptr() as usize, x.1 as usize);
            let it = if guarded(|| steady(|| sk.iter(), at, sk.len() as usize) && steady(|| sk.into_iter(), at, sk.len() as usize)) == Ok(true) { it } else { "\"steps\"".into() };
            self.ev.push(format!("[\"iter\",{},[{it}]]", h + 1));
        }
    }

    /// A document using the keys of set `h`, read with every set of the same content.
    pub fn document(&mut self, h: usize, r: &mut Rng) {
        let list = sk_list(&self.sets[h]);
        if list.is_empty() {
            return;
        }
        let mut dicts = vec![];
        for _ in 0..r.range(1, 3) {
            let mut ks: Vec<String> = vec!["not shared!".into(), "x".into(), "neither shared".into()];
            for _ in 0..r.range(1, 8) {
                let k = match r.below(3) {
                    0 => list[r.below(list.len())].clone(),
                    1 => list[list.len() - 1 - r.below(list.len().min(4))].clone(),
                    _ => list[r.below(list.len().min(4))].clone(),
                };
                if !ks.contains(&k) {
                    ks.push(k);
                }
            }
            dicts.push(T::Dict(ks.into_iter().map(|k| (k.into_bytes(), gen_scalar(r))).collect()));
        }
        let t = if dicts.len() == 1 { dicts.pop().unwrap() } else { T::Arr(dicts) };
        let mut e = Encoder::new();
        e.set_shared_keys(self.sets[h].clone());
        exec(&mut e, &Op::Bld(t, r.next()), None);
        let Ok(d) = guarded(|| e.finish()) else { return };
        let same: Vec<usize> = (0..self.sets.len()).filter(|g| sk_list(&self.sets[*g]) == list).collect();
        for g in same {
            let sk = &self.sets[g];
            let t1 = guarded(|| {
                let scope = Scope::new(d.clone(), Some(Arc::new(sk.clone())));
                let root = scope.root().unwrap();
                walk(&root, By::Iter)
            })
            .unwrap_or(T::Bad("panic"));
            self.ev.push(format!("[\"rd\",{},{},{}]", g + 1, bj(&d), t1.json()));
            // Without a scope, by lookup with the set
            let t2 = guarded(|| by_lookup(Value::from_bytes(&d).unwrap(), &t1, sk)).unwrap_or(T::Bad("panic"));
            if t2 != t1 {
                self.ev.push(format!("[\"rd\",{},{},{}]", g + 1, bj(&d), t2.json()));
            }
        }
    }
}

fn by_lookup(v: &Value, like: &T, sk: &SharedKeys) -> T {
    match like {
        T::Arr(ts) => {
            let a = v.as_array().unwrap();
            T::Arr(ts.iter().enumerate().map(|(i, t)| by_lookup(a.get(i).unwrap(), t, sk)).collect())
        }
        T::Dict(es) => {
            let d = v.as_dict().unwrap();
            T::Dict(
                es.iter()
                    .map(|(k, t)| {
                        let key = std::str::from_utf8(k).unwrap();
                        let x = d.get_with_shared_keys(key, sk);
                        (k.clone(), x.map_or(T::Bad("missing"), |x| by_lookup(x, t, sk)))
                    })
                    .collect(),
            )
        }
        _ => walk(v, By::Get),
    }
}

pub fn shared_keys(r: &mut Rng, scale: usize, out: &mut Sink) {
    for i in 0..60 * scale {
        journal(&format!("{{\"case\":\"skeys/{i}\"}}"));
        let mut w = World::new();
        let full = i % 6 == 0;
        if full {
            let n = *r.pick(&[2048, 2047, 2046, 2040, 2050]);
            let base: Vec<String> = (0..n).map(|j| format!("p{j}")).collect();
            w.insert_many(0, &base);
            if r.chance(1, 2) {
                w.clone_set(0);
            }
        }
        let pool: Vec<String> = (0..r.range(3, 25)).map(|_| sk_string(r)).collect();
        for _ in 0..r.range(5, if full { 20 } else { 60 }) {
            let h = r.below(w.sets.len());
            let s = if r.chance(2, 3) { r.pick(&pool).clone() } else { sk_string(r) };
            match r.below(16) {
                0..=6 => w.insert(h, &s),
                7 | 8 => w.query(h, &s),
                9 | 10 => {
                    let len = w.sets[h].len();
                    let n = match r.below(4) {
                        0 => len.wrapping_sub(1),
                        1 => len,
                        2 => r.below(usize::from(len) + 1) as u16,
                        _ => *r.pick(&[0, 1, len + 1, 2047, 2048, 4095, 4096, 32767, 32768, 65535]),
                    };
                    w.decode(h, n);
                }
                11 => w.look(h, !full || r.chance(1, 3)),
                12 if w.sets.len() < 5 => w.clone_set(h),
                13 if w.sets.len() < 5 => w.save(h, "bytes", r),
                14 if w.sets.len() < 5 => w.save(h, "value", r),
                _ => w.query(h, &s),
            }
        }
        for h in 0..w.sets.len().min(if full { 2 } else { 5 }) {
            w.look(h, true);
        }
        out.add(&format!("skeys/{i}"), &w.ev);
    }
}

/// Saving and restoring sets of every size.
pub fn states(r: &mut Rng, scale: usize, out: &mut Sink) {
    let mut sizes: Vec<usize> = (0..24).collect();
    sizes.extend([126, 127, 128, 129, 700, 2045, 2046, 2047, 2048]);
    if scale > 3 {
        sizes.extend((24..126).step_by(3));
        sizes.extend((130..2045).step_by(111));
    }
    for (i, n) in sizes.into_iter().enumerate() {
        journal(&format!("{{\"case\":\"skstate/{n}\"}}"));
        let mut w = World::new();
        let mut set = std::collections::BTreeSet::new();
        let mut keys = vec![];
        let mut c = 0;
        while keys.len() < n {
            c += 1;
            let s = if n > 200 || r.chance(1, 3) { format!("{}{c}", ["s", "st_", "-", ""][c % 4]) } else { sk_string(r) };
            if set.insert(s.clone()) {
                keys.push(s);
            }
        }
        w.insert_many(0, &keys);
        w.save(0, "bytes", r);
        w.save(0, "value", r);
        if w.sets.len() == 3 && n < 300 {
            w.save(2, "value", r);
            w.save(1, "bytes", r);
        }
        w.document(0, r);
        // The same continuation everywhere
        let more: Vec<String> = (0..r.range(1, 8)).map(|_| sk_string(r)).collect();
        for h in 0..w.sets.len() {
            for s in &more {
                w.insert(h, s);
            }
            w.look(h, n < 300 || h == 1);
            let len = w.sets[h].len();
            for d in [0, len.wrapping_sub(1), len, 65535] {
                w.decode(h, d);
            }
            for _ in 0..6 {
                let s = if keys.is_empty() { sk_string(r) } else { r.pick(&keys).clone() };
                w.query(h, &s);
            }
        }
        w.document(w.sets.len() - 1, r);
        out.add(&format!("skstate/{i}"), &w.ev);
    }
    // What is no state gives no set
    let mut ev = vec!["[\"new\"]".to_string()];
    for d in [&[][..], &[0x70, 0], &[0x30, 0], &[0x41, 0x61], &[0x00, 0x05], &[0x60], &[0x80, 0x01], &[0x60, 0x01, 0x80, 0x02]] {
        let code = match guarded(|| SharedKeys::from_state_bytes(d).is_some()) {
            Ok(true) => 0,
            Ok(false) => -1,
            Err(_) => -2,
        };
        ev.push(format!("[\"rest\",{},[],{code}]", bj(d)));
    }
    out.add("skstate/none", &ev);
}

/// Sequences of calls printed by the specification, on an empty or an almost full set.
pub fn replay(lines: &[String], r: &mut Rng, out: &mut Sink) {
    for (i, l) in lines.iter().enumerate() {
        journal(&format!("{{\"case\":\"skreplay/{i}\",\"calls\":{l}}}"));
        let j: serde_json::Value = serde_json::from_str(l).unwrap();
        let mut w = World::new();
        let have = [0, 2047, 0, 2046, 0, 2048][i % 6];
        if have > 0 {
            let base: Vec<String> = (0..have).map(|j| format!("p{j}")).collect();
            w.insert_many(0, &base);
        }
        for c in j.as_array().unwrap() {
            let h = c[1].as_u64().unwrap() as usize - 1;
            match c[0].as_str().unwrap() {
                "ins" => w.insert(h, c[2].as_str().unwrap()),
                "clone" => w.clone_set(h),
                how => w.save(h, how, r),
            }
            if w.ev.last().is_some_and(|e| e.starts_with("[\"save\"") && !e.ends_with(",0]")) {
                break;
            }
        }
        for h in 0..w.sets.len() {
            w.look(h, have == 0);
            for k in ["n1", "n2", "p7"] {
                w.query(h, k);
            }
            for n in [0, 1, 2046, 2047] {
                w.decode(h, n);
            }
        }
        out.add(&format!("skreplay/{i}"), &w.ev);
    }
}
