//! Families of executions of the codec.

use crate::codec::*;
use crate::gen::*;
use crate::tree::T;
use crate::util::Rng;

fn bld(t: T, r: &mut Rng) -> Vec<Op> {
    vec![Op::Bld(t, r.next())]
}

/// Every scalar type and boundary value, as array elements and dict values, in narrow and wide collections.
pub fn scalar(r: &mut Rng, scale: usize, out: &mut Sink) {
    // Exhaustive small domains
    for k in 0..(if scale > 3 { 256 } else { 48 }) {
        // 256 * 16 values around the limits of inline integers
        let mut v = vec![];
        for j in 0..32i32 {
            let x = if scale > 3 {
                k * 32 + j - 4096
            } else {
                // the boundaries of 12-bit and byte-sized integers
                let c = [-32769, -2049, -129, -128, 127, 255, 2047, 4095, 32767, 65535, -2048, -256];
                c[(k as usize) % 12] + j - 16
            };
            v.push(match r.below(4) {
                0 if i16::try_from(x).is_ok() => S::I16(x as i16),
                1 if u16::try_from(x).is_ok() => S::U16(x as u16),
                2 => S::I64(x as i64),
                _ => S::I32(x),
            });
        }
        let mut c = Case::new(
            format!("scalar/small{k}"),
            vec![Op::Ba(v.len()), Op::Wvs(v), Op::Ea],
            ReadCfg { colls: 1, probes: 4, convs: 6, seed: r.next() },
        );
        c.scoped = false;
        out_case(c, out);
    }
    // Powers of two, exactly and beside, in every type that holds them
    for k in 0..64 {
        let mut v = vec![];
        for d in -1i128..=1 {
            for s in [1i128, -1] {
                let x = s * ((1i128 << k) + d);
                macro_rules! fit {
                    ($($n:ident $t:ty),*) => { $( if let Ok(x) = <$t>::try_from(x) { v.push(S::$n(x)); } )* };
                }
                fit!(I8 i8, I16 i16, I32 i32, I64 i64, Isize isize, U8 u8, U16 u16, U32 u32, U64 u64, Usize usize);
                v.push(S::F64(x as f64));
                v.push(S::F32(x as f32));
            }
        }
        let mut c = Case::new(
            format!("scalar/pow{k}"),
            vec![Op::Ba(0), Op::Wvs(v), Op::Ea],
            ReadCfg { colls: 1, probes: 3, convs: 12, seed: r.next() },
        );
        c.scoped = false;
        out_case(c, out);
    }
    for i in 0..60 * scale {
        let wide = i % 12 == 5;
        let n = r.range(1, 40);
        let off = r.below(18);
        let mut v: Vec<S> = (0..n).map(|j| gen_typed(r, j + off)).collect();
        if wide {
            v.insert(0, S::Data(vec![7; 0x3fff + r.below(40)]));
        }
        let ops = if i % 2 == 0 {
            let mut ops = vec![Op::Ba(v.len())];
            for s in v {
                ops.push(Op::Wv(s));
            }
            ops.push(Op::Ea);
            ops
        } else {
            let style = r.below(8);
            let keys = gen_keys(r, v.len(), style);
            let mut ops = vec![Op::Bd];
            for (s, k) in v.into_iter().zip(keys) {
                ops.push(Op::Wk(k));
                ops.push(Op::Wv(s));
            }
            ops.push(Op::Ed);
            ops
        };
        let mut c = Case::new(
            format!("scalar/{i}"),
            ops,
            ReadCfg { colls: 2, probes: 10, convs: 20, seed: r.next() },
        );
        c.scoped = i % 5 == 0;
        if i % 5 == 1 {
            c.sk = Some(vec![]);
        }
        c.finv = i % 7 == 0;
        out_case(c, out);
    }
}

fn out_case(c: Case, out: &mut Sink) {
    record(&c, out);
}

/// Random nested documents.
pub fn nested(r: &mut Rng, scale: usize, out: &mut Sink) {
    for i in 0..90 * scale {
        let mut budget = 60;
        let depth = r.range(1, 6);
        let t = gen_coll(r, depth, &mut budget);
        let mut c = Case::new(format!("nested/{i}"), bld(t, r), ReadCfg::normal(r.next()));
        c.finv = i % 4 == 0;
        c.scoped = i % 4 == 1;
        if i % 6 == 2 {
            let n = r.below(9);
            c.pre = (0..n).map(|_| r.next() as u8).collect();
        }
        if i % 6 == 3 {
            c.sk = Some(gen_keys(r, i % 5, 1));
        }
        out_case(c, out);
    }
    // Deep nesting
    for depth in [30, 60] {
        let mut t = T::Arr(vec![T::Int(1)]);
        for d in 0..depth {
            t = if d % 2 == 0 {
                T::Dict(vec![(b"kk".to_vec(), t), (b"l".to_vec(), T::Int(d))])
            } else {
                T::Arr(vec![T::Int(d), t, T::str("end")])
            };
        }
        out_case(
            Case::new(format!("nested/deep{depth}"), bld(t, r), ReadCfg::light(r.next())),
            out,
        );
    }
}

/// Distances and counts at the limits of what a narrow collection, an inline count or a root can hold.
pub fn layout(r: &mut Rng, scale: usize, out: &mut Sink) {
    let light = ReadCfg { colls: 2, probes: 6, convs: 3, seed: 5 };
    let mut go = |name: String, t: T, r: &mut Rng, pre: usize, sk: Option<Vec<String>>| {
        let mut c = Case::new(name, vec![Op::Bld(t, r.next())], light);
        c.scoped = false;
        c.pre = vec![0xEE; pre];
        c.sk = sk;
        record(&c, out);
    };
    let lim = 0x3fff;
    // A referenced value followed by filler and n further slots, so that the distance from any of the
    // slots to the value sweeps across the limit.
    let step = if scale > 3 { 1 } else { 3 };
    let mut d = 0;
    while d < 40 {
        let slots = r.range(1, 12);
        // [ "str", filler.., ints ]
        let fill = lim - 30 + d;
        let mut v = vec![T::str("abcd"), T::Data(vec![0; fill])];
        for i in 0..slots {
            v.push(if r.chance(1, 3) { T::Int(100_000 + i as i128) } else { T::Int(i as i128) });
        }
        if r.chance(1, 2) {
            // the referenced value is written first but stored later
            let s = v.remove(0);
            v.insert(0, T::Data(vec![1; 3]));
            v.push(s);
        }
        go(format!("layout/arr{d}"), T::Arr(v), r, r.clone().below(4), None);
        d += step;
    }
    d = 0;
    while d < 40 {
        let n = r.range(1, 6);
        let mut keys = gen_keys(r, n + 1, *r.clone().pick(&[0, 2, 6]));
        if r.chance(1, 2) {
            keys[0] = format!("zzzz{}", keys[0]);
        }
        let fill = lim - 40 + d + r.below(4);
        let mut es = vec![(keys[0].clone().into_bytes(), T::Data(vec![0; fill]))];
        for k in &keys[1..] {
            es.push((k.clone().into_bytes(), if r.chance(1, 2) { T::Int(3) } else { T::str("xyz") }));
        }
        let sk = if r.chance(1, 3) { Some(vec![]) } else { None };
        go(format!("layout/dict{d}"), T::Dict(es), r, 0, sk);
        d += step;
    }
    // A nested collection at the limit
    d = 0;
    while d < 40 {
        let inner = if d % 2 == 0 {
            T::Arr(vec![T::Int(1), T::str("in")])
        } else {
            T::Dict(vec![(b"in".to_vec(), T::Int(7))])
        };
        let v = vec![inner, T::Data(vec![0; lim - 24 + d]), T::Int(1), T::Null];
        go(format!("layout/nest{d}"), T::Arr(v), r, 0, None);
        d += step + 1;
    }
    // The root: the top-level collection itself is long, so its start is far from the end
    let counts: Vec<usize> = if scale > 3 {
        (8160..8220).collect()
    } else {
        vec![8186, 8189, 8190, 8191, 8192, 8193, 8195]
    };
    for n in counts {
        let v = (0..n).map(|i| T::Int((i % 1000) as i128)).collect();
        go(format!("layout/root{n}"), T::Arr(v), r, 0, None);
    }
    // Counts which do not fit in the header
    let counts: &[usize] = if scale > 3 {
        &[2044, 2045, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 16383, 16384]
    } else {
        &[2046, 2047, 2048]
    };
    for &n in counts {
        let v: Vec<T> = (0..n).map(|i| T::Int((i % 4096) as i128 - 2048)).collect();
        go(format!("layout/count{n}"), T::Arr(v.clone()), r, 0, None);
        // nested, so that something refers to it and follows it
        go(
            format!("layout/count{n}n"),
            T::Arr(vec![T::str("before"), T::Arr(v.clone()), T::str("after")]),
            r,
            3,
            None,
        );
        if n <= 4096 {
            let es = (0..n).map(|i| (format!("{i:04x}").into_bytes(), T::Int(i as i128))).collect();
            go(format!("layout/dcount{n}"), T::Dict(es), r, 0, if n % 2 == 0 { Some(vec![]) } else { None });
        }
    }
    // Wide collection with a long count
    let mut v: Vec<T> = (0..2047).map(|i| T::Int(i % 4096)).collect();
    v[5] = T::Data(vec![3; lim + 1]);
    v[6] = T::str("far away");
    go("layout/widecount".into(), T::Arr(v), r, 0, None);
    // Offsets of three bytes
    let big = if scale > 3 { vec![70_000, 140_000, 300_000] } else { vec![70_000] };
    for n in big {
        let es = vec![
            (b"first".to_vec(), T::str("value of the first")),
            (b"f".to_vec(), T::Data(vec![9; n])),
            (b"second".to_vec(), T::Arr(vec![T::Int(1), T::Int(99_999)])),
        ];
        go(format!("layout/big{n}"), T::Dict(es), r, 0, None);
    }
    // Lengths of strings at the limits of their size field
    for n in [13, 14, 15, 16, 126, 127, 128, 129, 16382, 16383, 16384, 16385] {
        go(
            format!("layout/str{n}"),
            T::Arr(vec![T::Str(vec![b'x'; n]), T::Data(vec![0x99; n]), T::Int(5)]),
            r,
            n % 2,
            None,
        );
    }
}

/// Lengths, counts and distances which need three bytes or more, and what can be done to such documents.
pub fn big(r: &mut Rng, scale: usize, out: &mut Sink) {
    let light = ReadCfg { colls: 1, probes: 6, convs: 0, seed: 5 };
    let go = |name: String, ops: Vec<Op>, sk: Option<Vec<String>>, out: &mut Sink| {
        let mut c = Case::new(name, ops, light);
        c.scoped = false;
        c.sk = sk;
        record(&c, out);
    };
    // Strings and data whose length needs three bytes or four
    let mut sizes: Vec<usize> = (15..21).map(|k| (1 << k) + r.below((1 << k) - 1)).collect();
    sizes.extend([0x1FFFFF, 0x200000]);
    if scale > 3 {
        sizes.extend((15..=20).flat_map(|k| [(1 << k) - 1, 1 << k]));
        sizes.extend((0..30).map(|_| (1usize << r.range(14, 20)) + r.below(1 << 14)));
    }
    for (i, &n) in sizes.iter().enumerate() {
        let v = if (i + n) % 2 == 0 { T::Str(vec![b'x'; n]) } else { T::Data(vec![0; n]) };
        go(format!("big/len{n}"), bld(T::Arr(vec![T::Int(1), v, T::str("after")]), r), None, out);
    }
    // Indices of more than 16 bits
    for n in if scale > 3 { vec![65_535, 65_536, 65_537, 100_000 + r.below(40_000)] } else { vec![65_536 + r.below(4) * r.below(2000)] } {
        let mut v: Vec<T> = (0..n).map(|i| T::Bool(i % 7 == 3)).collect();
        v[n / 2] = T::Data(vec![1; 3]);
        v[n - 1] = T::str("last");
        go(format!("big/long{n}"), bld(T::Arr(v), r), None, out);
    }
    // Counts which need three bytes, or do not
    for n in if scale > 3 { vec![16382, 16383, 16384, 16385, 20_001, 40_000] } else { vec![16383, 16384, 16385 + r.below(4000)] } {
        let v: Vec<T> = (0..n).map(|i| T::Int((i % 4096) as i128 - 2048)).collect();
        go(format!("big/count{n}"), bld(T::Arr(v.clone()), r), None, out);
        if n % 3 != 2 || scale > 3 {
            let mut v = v;
            v[n / 2] = T::Data(vec![1; 0x4001]);
            v[n - 1] = T::str("far away");
            go(format!("big/wide{n}"), bld(T::Arr(vec![T::Arr(v), T::str("after")]), r), None, out);
        }
    }
    for n in if scale > 3 { vec![16383, 16384, 17_000, 65_537] } else { vec![16384 + r.below(2)] } {
        let es = (0..n).map(|i| (format!("{i:05x}").into_bytes(), T::Int((i % 1000) as i128))).collect();
        go(format!("big/dict{n}"), bld(T::Dict(es), r), if n % 2 == 0 { None } else { Some(vec![]) }, out);
    }
    // A top-level collection far from the end, and what may not follow it
    for i in 0..4 * scale {
        let n = r.range(8192, 9000);
        let t = if i % 2 == 0 {
            T::Arr((0..n).map(|i| T::Int((i % 7) as i128)).collect())
        } else {
            T::Dict((0..n / 2).map(|i| (format!("{i:03x}").into_bytes(), T::Int(7))).collect())
        };
        let mut ops = bld(t, r);
        for _ in 0..r.range(1, 5) {
            ops.push(match r.below(8) {
                0 => Op::Ba(3),
                1 => Op::Bd,
                2 => Op::Ea,
                3 => Op::Ed,
                4 => Op::Wk("key".into()),
                5 => Op::Wv(S::I32(100_000)),
                6 => Op::Bld(T::Arr(vec![T::Int(1)]), r.next()),
                _ => Op::Bld(T::Dict(vec![(b"other".to_vec(), T::Int(1))]), r.next()),
            });
        }
        go(format!("big/after{i}"), ops, None, out);
    }
}

/// Dicts of every small size, all kinds of keys.
pub fn dict(r: &mut Rng, scale: usize, out: &mut Sink) {
    for i in 0..70 * scale {
        let n = if i < 20 { i } else { r.below(70) };
        let style = i % 8;
        let keys = gen_keys(r, n, style);
        let es = keys
            .into_iter()
            .map(|k| {
                let v = if r.chance(2, 3) { T::Int(r.below(5000) as i128) } else { gen_scalar(r) };
                (k.into_bytes(), v)
            })
            .collect();
        let mut t = T::Dict(es);
        let wide = i % 10 == 7;
        if wide {
            if let T::Dict(es) = &mut t {
                es.insert(0, (b"wide_filler".to_vec(), T::Data(vec![0; 0x3fff])));
            }
        }
        if i % 5 == 4 {
            t = T::Arr(vec![T::Int(1), t, T::Dict(vec![])]);
        }
        let mut c = Case::new(
            format!("dict/{i}"),
            bld(t, r),
            ReadCfg { colls: 4, probes: 80, convs: 2, seed: r.next() },
        );
        c.scoped = i % 3 == 0;
        if i % 2 == 1 {
            // Some of the keys may be shared already
            let n = r.below(12);
            c.sk = Some(gen_keys(r, n, style % 6));
        }
        out_case(c, out);
    }
}

pub fn arr(r: &mut Rng, scale: usize, out: &mut Sink) {
    for i in 0..60 * scale {
        let n = if i < 24 { i } else { r.below(120) };
        let kind = i % 4;
        let mut v: Vec<T> = (0..n)
            .map(|j| match kind {
                0 => T::Int(j as i128),
                1 => T::Int(1_000_000 + j as i128),
                2 => {
                    let mut b = 6;
                    gen_tree(r, 2, &mut b)
                }
                _ => T::str(&format!("s{j}")),
            })
            .collect();
        if i % 6 == 5 {
            v.insert(0, T::Data(vec![0; 0x3fff]));
        }
        let t = T::Arr(v);
        let mut c = Case::new(
            format!("arr/{i}"),
            bld(t, r),
            ReadCfg { colls: 4, probes: 130, convs: 1, seed: r.next() },
        );
        c.scoped = i % 4 == 0;
        out_case(c, out);
    }
}

/// Arbitrary call sequences, stopped anywhere.
pub fn proto(r: &mut Rng, scale: usize, out: &mut Sink) {
    for i in 0..150 * scale {
        let n = r.range(1, 40);
        let legal = *r.pick(&[4, 12, 15, 16]);
        let style = r.below(8);
        let ops = gen_calls(r, n, legal, style);
        let mut c = Case::new(format!("proto/{i}"), ops, ReadCfg::light(r.next()));
        c.finv = opens(&c.ops) && i % 3 == 0;
        c.scoped = true;
        if i % 4 == 3 {
            c.sk = Some(gen_keys(r, 3, 1));
            c.sk_at = if i % 8 == 3 { r.below(c.ops.len() + 1) } else { 0 };
            c.finv = false;
        }
        if i % 5 == 2 {
            let n = r.below(7);
            c.pre = (0..n).map(|_| r.next() as u8).collect();
            c.finv = false;
        }
        out_case(c, out);
    }
}

/// Sequences of calls printed by TLC (EncoderMC), with concrete values and keys.
pub fn replay(lines: &[String], r: &mut Rng, out: &mut Sink) {
    // The document which written values come from
    let scalars = 12;
    let mut v: Vec<T> = (0..scalars).map(|_| gen_scalar(r)).collect();
    v.push(T::Arr(vec![T::Int(1), T::str("element")]));
    v.push(T::Arr(vec![]));
    v.push(T::Dict(vec![(b"k".to_vec(), T::Int(70_000)), (b"nested_key".to_vec(), T::Arr(vec![T::Null]))]));
    let all = v.len();
    let mut e = fleece::Encoder::new();
    exec(&mut e, &Op::Bld(T::Arr(v), 1), None);
    let d = e.finish();
    for (n, line) in lines.iter().enumerate() {
        let calls: Vec<String> = serde_json::from_str(line).unwrap();
        let style = r.below(8);
        let ops = calls
            .iter()
            .enumerate()
            .map(|(i, c)| match c.as_str() {
                "wv" => {
                    let i = r.below(18);
                    Op::Wv(gen_typed(r, i))
                }
                // distinct keys
                "wk" if r.chance(1, 4) => Op::Wk(format!("{}", (b'a' + i as u8) as char)),
                "wk" => Op::Wk(format!("{}{i}", gen_key(r, style))),
                "ba" => Op::Ba(any_capacity(r)),
                "bd" => Op::Bd,
                "ea" => Op::Ea,
                "ed" => Op::Ed,
                "wf" => Op::Wf(vec![1 + r.below(scalars)]),
                "wfc" => Op::Wf(vec![1 + scalars + r.below(all - scalars)]),
                other => panic!("{other}"),
            })
            .collect();
        let mut c = Case::new(format!("ereplay/{n}"), ops, ReadCfg::none());
        c.src = Some((d.clone(), vec![]));
        c.scoped = n % 4 == 0;
        match n % 8 {
            // an owned value needs something to be written
            1 => c.finv = calls.iter().any(|c| matches!(c.as_str(), "ba" | "bd" | "wfc")),
            2 => c.pre = vec![r.next() as u8; r.below(4)],
            3 => c.sk = Some(vec![]),
            4 => c.sk = Some(gen_keys(r, 3, style)),
            _ => {}
        }
        if n % 16 == 4 {
            c.sk_at = r.below(c.ops.len() + 1);
        }
        out_case(c, out);
    }
}

/// Shared keys: fresh, pre-filled and full, in documents of all shapes.
pub fn shared(r: &mut Rng, scale: usize, out: &mut Sink) {
    let full: Vec<String> = (0..2048).map(|i| format!("full{i}")).collect();
    for i in 0..60 * scale {
        let style = *r.pick(&[0, 1, 2, 4, 5, 6, 7]);
        let nk = r.range(1, 12);
        let pool = gen_keys(r, nk, style);
        // dicts which use the same keys again and again
        let mut docs = vec![];
        for _ in 0..r.range(1, 5) {
            let mut ks = pool.clone();
            for _ in 0..r.below(3) {
                let k = gen_key(r, 7);
                if !ks.contains(&k) {
                    ks.push(k);
                }
            }
            let mut es: Vec<(Vec<u8>, T)> = vec![];
            while !ks.is_empty() && es.len() < 9 {
                let j = r.below(ks.len());
                let k = ks.swap_remove(j);
                let mut b = 5;
                es.push((k.into_bytes(), gen_tree(r, 2, &mut b)));
            }
            docs.push(T::Dict(es));
        }
        let t = if docs.len() == 1 { docs.pop().unwrap() } else { T::Arr(docs) };
        let late = i % 5 < 2;
        let mut ops = vec![];
        if late {
            calls_of(&t, r, &mut ops);
        } else {
            ops = bld(t, r);
        }
        let mut c = Case::new(
            format!("shared/{i}"),
            ops,
            ReadCfg { colls: 6, probes: 24, convs: 1, seed: r.next() },
        );
        // Before anything, or somewhere in the middle
        c.sk_at = if late { r.below(c.ops.len() + 1) } else { 0 };
        c.sk = Some(match i % 4 {
            0 => vec![],
            1 => gen_keys(r, 6, style),
            2 => {
                let mut k = pool.clone();
                k.truncate(r.below(k.len() + 1));
                k.retain(|s| !s.is_empty());
                k
            }
            _ => gen_keys(r, 3, 1),
        });
        out_case(c, out);
    }
    // Full, and one below full
    for i in 0..(if scale > 3 { 6 } else { 2 }) {
        let have = if i % 2 == 0 { 2048 } else { 2047 };
        let es = vec![
            (b"full5".to_vec(), T::Int(1)),
            (b"full2046".to_vec(), T::Int(2)),
            (b"full2047".to_vec(), T::Int(3)),
            (b"another".to_vec(), T::Int(4)),
            (b"and_another".to_vec(), T::str("five")),
            (b"x".to_vec(), T::Null),
            (b"full4000".to_vec(), T::Arr(vec![])),
        ];
        let mut c = Case::new(
            format!("shared/full{i}"),
            bld(T::Dict(es), r),
            ReadCfg { colls: 6, probes: 24, convs: 1, seed: r.next() },
        );
        c.sk = Some(full[..have].to_vec());
        out_case(c, out);
    }
    // More distinct keys in one document than can be shared
    let n = 2100;
    let es = (0..n).map(|i| (format!("many{i}").into_bytes(), T::Int(i as i128))).collect();
    let mut c = Case::new(
        "shared/many",
        bld(T::Dict(es), r),
        ReadCfg { colls: 1, probes: 60, convs: 1, seed: r.next() },
    );
    c.sk = Some(vec![]);
    out_case(c, out);
}

/// Values read from documents, written into encoders.
pub fn reencode(r: &mut Rng, scale: usize, out: &mut Sink, foreign: &[(Vec<u8>, Vec<String>)]) {
    for i in 0..120 * scale {
        // A source document: made by this encoder, or by the foreign writer
        let (d, sk) = if i % 2 == 0 || foreign.is_empty() {
            let mut b = 40;
            let t = gen_coll(r, 4, &mut b);
            let c = Case::new("src", bld(t, r), ReadCfg::none());
            let sk = if i % 4 == 0 { None } else { Some(gen_keys(r, 2, 1)) };
            let mut e = fleece::Encoder::new();
            if let Some(k) = &sk {
                e.set_shared_keys(make_sk(k));
            }
            for op in &c.ops {
                exec(&mut e, op, None);
            }
            let s = e.finish_scoped();
            (
                s.data().map(|d| d.to_vec()).unwrap_or_default(),
                s.shared_keys().map(|k| sk_list(k)).unwrap_or_default(),
            )
        } else {
            foreign[r.below(foreign.len())].clone()
        };
        if d.len() < 2 {
            continue;
        }
        // Positions in it
        let scope = fleece::Scope::new(d.clone(), Some(std::sync::Arc::new(make_sk(&sk))));
        let Some(root) = scope.root() else { continue };
        let mut pos = vec![vec![]];
        positions(&root, &mut vec![], &mut pos);
        drop(root);
        drop(scope);
        let coll: Vec<Vec<usize>> = {
            let scope = fleece::Scope::new(d.clone(), Some(std::sync::Arc::new(make_sk(&sk))));
            let root = scope.root().unwrap();
            pos.iter()
                .filter(|p| at(&root, p).is_some_and(|v| v.as_array().is_some() || v.as_dict().is_some()))
                .cloned()
                .collect()
        };
        let mut ops = vec![];
        match i % 5 {
            // as the top-level collection
            0 if !coll.is_empty() => ops.push(Op::Wf(r.pick(&coll).clone())),
            // scalars and collections where they cannot go
            1 => {
                ops.push(Op::Wf(r.pick(&pos).clone()));
                ops.push(Op::Bd);
                ops.push(Op::Wf(r.pick(&pos).clone()));
                ops.push(Op::Wk("k".into()));
                ops.push(Op::Wf(r.pick(&pos).clone()));
                ops.push(Op::Wf(r.pick(&pos).clone()));
                ops.push(Op::Ed);
                ops.push(Op::Wf(r.pick(&pos).clone()));
            }
            2 | 3 => {
                ops.push(Op::Ba(0));
                for _ in 0..r.range(1, 8) {
                    ops.push(Op::Wf(r.pick(&pos).clone()));
                }
                ops.push(Op::Ea);
            }
            _ => {
                ops.push(Op::Bd);
                let n = r.range(1, 6);
                for k in gen_keys(r, n, 7) {
                    ops.push(Op::Wk(k));
                    ops.push(Op::Wf(r.pick(&pos).clone()));
                }
                ops.push(Op::Ed);
            }
        }
        let mut c = Case::new(format!("reencode/{i}"), ops, ReadCfg::light(r.next()));
        c.src = Some((d, sk.clone()));
        c.sk = match i % 3 {
            0 => None,
            1 => Some(gen_keys(r, 3, 1)),
            _ => Some(sk),
        };
        if i % 4 == 1 {
            c.sk_at = r.below(c.ops.len() + 1);
        }
        out_case(c, out);
    }
}

fn positions(v: &fleece::Value, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if out.len() > 200 {
        return;
    }
    if let Some(a) = v.as_array() {
        for (i, x) in a.iter().enumerate() {
            p.push(i + 1);
            out.push(p.clone());
            positions(x, p, out);
            p.pop();
        }
    } else if let Some(d) = v.as_dict() {
        for (i, (_, x)) in d.iter().enumerate() {
            p.push(i + 1);
            out.push(p.clone());
            positions(x, p, out);
            p.pop();
        }
    }
}
