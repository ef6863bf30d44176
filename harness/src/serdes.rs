//! Serialization and deserialization of values of any type of the serde data model.

use crate::codec::{make_sk, sk_json, sk_list, Sink};
use crate::docs::{Foreign, Guarded};
use crate::gen::*;
use crate::tree::{bj, bytes_json, T};
use crate::util::{guarded, journal, Rng};
use fleece::{Encoder, Error, SharedKeys};
use serde::de::{DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    I(usize),
    U(usize),
    F(usize),
    Char,
    Str,
    Bytes,
    Unit,
    UStruct,
    Newtype(Box<Ty>),
    Opt(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TStruct(Vec<Ty>),
    Struct(Vec<(String, Ty)>),
    Map(Box<Ty>, Box<Ty>),
    Enum(Vec<(String, Var)>),
    Any,
    Ignored,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Var {
    Unit,
    Newtype(Box<Ty>),
    Tuple(Vec<Ty>),
    Struct(Vec<(String, Ty)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// Scalars, and everything of type Any
    T(T),
    Unit,
    None,
    Some(Box<V>),
    Arr(Vec<V>),
    Map(Vec<(V, V)>),
    Var(usize, Box<V>),
}

// ------------------------------------------------------------ JSON

fn list<X>(o: &mut String, v: &[X], mut f: impl FnMut(&mut String, &X)) {
    o.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        f(o, x);
    }
    o.push(']');
}

fn fields_json(o: &mut String, fs: &[(String, Ty)]) {
    list(o, fs, |o, (n, t)| {
        o.push('[');
        bytes_json(o, n.as_bytes());
        o.push(',');
        t.write(o);
        o.push(']');
    });
}

impl Ty {
    fn write(&self, o: &mut String) {
        let one = |o: &mut String, n: &str, t: &Ty| {
            o.push_str(&format!("[\"{n}\","));
            t.write(o);
            o.push(']');
        };
        match self {
            Ty::Bool => o.push_str("[\"bool\"]"),
            Ty::I(n) => o.push_str(&format!("[\"i\",{n}]")),
            Ty::U(n) => o.push_str(&format!("[\"u\",{n}]")),
            Ty::F(n) => o.push_str(&format!("[\"f\",{n}]")),
            Ty::Char => o.push_str("[\"char\"]"),
            Ty::Str => o.push_str("[\"string\"]"),
            Ty::Bytes => o.push_str("[\"bytes\"]"),
            Ty::Unit => o.push_str("[\"unit\"]"),
            Ty::UStruct => o.push_str("[\"ustruct\"]"),
            Ty::Any => o.push_str("[\"any\"]"),
            Ty::Ignored => o.push_str("[\"ignored\"]"),
            Ty::Newtype(t) => one(o, "newtype", t),
            Ty::Opt(t) => one(o, "opt", t),
            Ty::Seq(t) => one(o, "seq", t),
            Ty::Tuple(v) | Ty::TStruct(v) => {
                o.push_str(if matches!(self, Ty::Tuple(_)) { "[\"tuple\"," } else { "[\"tstruct\"," });
                list(o, v, |o, t| t.write(o));
                o.push(']');
            }
            Ty::Struct(fs) => {
                o.push_str("[\"struct\",");
                fields_json(o, fs);
                o.push(']');
            }
            Ty::Map(k, t) => {
                o.push_str("[\"map\",");
                k.write(o);
                o.push(',');
                t.write(o);
                o.push(']');
            }
            Ty::Enum(vs) => {
                o.push_str("[\"enum\",");
                list(o, vs, |o, (n, v)| {
                    o.push('[');
                    bytes_json(o, n.as_bytes());
                    match v {
                        Var::Unit => o.push_str(",\"unit\""),
                        Var::Newtype(t) => {
                            o.push_str(",\"newtype\",");
                            t.write(o);
                        }
                        Var::Tuple(ts) => {
                            o.push_str(",\"tuple\",");
                            list(o, ts, |o, t| t.write(o));
                        }
                        Var::Struct(fs) => {
                            o.push_str(",\"struct\",");
                            fields_json(o, fs);
                        }
                    }
                    o.push(']');
                });
                o.push(']');
            }
        }
    }

    pub fn json(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }

    fn from_json(j: &serde_json::Value) -> Ty {
        let name = |j: &serde_json::Value| -> String { String::from_utf8(j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap() };
        let types = |j: &serde_json::Value| -> Vec<Ty> { j.as_array().unwrap().iter().map(Ty::from_json).collect() };
        let fields = |j: &serde_json::Value| -> Vec<(String, Ty)> { j.as_array().unwrap().iter().map(|f| (name(&f[0]), Ty::from_json(&f[1]))).collect() };
        let one = |j: &serde_json::Value| Box::new(Ty::from_json(j));
        let n = |j: &serde_json::Value| j.as_u64().unwrap() as usize;
        match j[0].as_str().unwrap() {
            "bool" => Ty::Bool,
            "i" => Ty::I(n(&j[1])),
            "u" => Ty::U(n(&j[1])),
            "f" => Ty::F(n(&j[1])),
            "char" => Ty::Char,
            "string" => Ty::Str,
            "bytes" => Ty::Bytes,
            "unit" => Ty::Unit,
            "ustruct" => Ty::UStruct,
            "any" => Ty::Any,
            "ignored" => Ty::Ignored,
            "newtype" => Ty::Newtype(one(&j[1])),
            "opt" => Ty::Opt(one(&j[1])),
            "seq" => Ty::Seq(one(&j[1])),
            "tuple" => Ty::Tuple(types(&j[1])),
            "tstruct" => Ty::TStruct(types(&j[1])),
            "struct" => Ty::Struct(fields(&j[1])),
            "map" => Ty::Map(one(&j[1]), one(&j[2])),
            "enum" => Ty::Enum(
                j[1].as_array()
                    .unwrap()
                    .iter()
                    .map(|v| {
                        let var = match v[1].as_str().unwrap() {
                            "unit" => Var::Unit,
                            "newtype" => Var::Newtype(one(&v[2])),
                            "tuple" => Var::Tuple(types(&v[2])),
                            "struct" => Var::Struct(fields(&v[2])),
                            other => panic!("no variant {other}"),
                        };
                        (name(&v[0]), var)
                    })
                    .collect(),
            ),
            other => panic!("no type {other}"),
        }
    }
}

impl V {
    fn write(&self, o: &mut String) {
        match self {
            V::T(t) => t.write_json(o),
            V::Unit => o.push_str("[\"unit\"]"),
            V::None => o.push_str("[\"none\"]"),
            V::Some(v) => {
                o.push_str("[\"some\",");
                v.write(o);
                o.push(']');
            }
            V::Arr(v) => {
                o.push_str("[\"arr\",");
                list(o, v, |o, x| x.write(o));
                o.push(']');
            }
            V::Map(v) => {
                o.push_str("[\"map\",");
                list(o, v, |o, (k, x)| {
                    o.push('[');
                    k.write(o);
                    o.push(',');
                    x.write(o);
                    o.push(']');
                });
                o.push(']');
            }
            V::Var(i, v) => {
                o.push_str(&format!("[\"var\",{},", i + 1));
                v.write(o);
                o.push(']');
            }
        }
    }

    pub fn json(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }

    /// The value of a type, as the specification writes it
    fn from_json(ty: &Ty, j: &serde_json::Value) -> V {
        let each = |ts: &[&Ty]| V::Arr(ts.iter().zip(j[1].as_array().unwrap()).map(|(t, x)| V::from_json(t, x)).collect());
        match ty {
            Ty::Newtype(t) => V::from_json(t, j),
            Ty::Unit | Ty::UStruct | Ty::Ignored => V::Unit,
            Ty::Opt(t) => {
                if j[0] == "none" {
                    V::None
                } else {
                    V::Some(Box::new(V::from_json(t, &j[1])))
                }
            }
            Ty::Seq(t) => V::Arr(j[1].as_array().unwrap().iter().map(|x| V::from_json(t, x)).collect()),
            Ty::Tuple(ts) | Ty::TStruct(ts) => each(&ts.iter().collect::<Vec<_>>()),
            Ty::Struct(fs) => each(&fs.iter().map(|f| &f.1).collect::<Vec<_>>()),
            Ty::Map(k, t) => V::Map(j[1].as_array().unwrap().iter().map(|e| (V::from_json(k, &e[0]), V::from_json(t, &e[1]))).collect()),
            Ty::Enum(vs) => {
                let i = j[1].as_u64().unwrap() as usize - 1;
                let x = &j[2];
                let inner = match &vs[i].1 {
                    Var::Unit => V::Unit,
                    Var::Newtype(t) => V::from_json(t, x),
                    Var::Tuple(ts) => V::from_json(&Ty::Tuple(ts.clone()), x),
                    Var::Struct(fs) => V::from_json(&Ty::Struct(fs.clone()), x),
                };
                V::Var(i, Box::new(inner))
            }
            _ => V::T(T::from_json(j)),
        }
    }
}

// ------------------------------------------------------------ serialization

thread_local! {
    static NAMES: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new());
    static LISTS: RefCell<HashMap<Vec<String>, &'static [&'static str]>> = RefCell::new(HashMap::new());
    static WANTED: RefCell<Option<Ty>> = const { RefCell::new(None) };
}

fn name(s: &str) -> &'static str {
    NAMES.with(|n| *n.borrow_mut().entry(s.to_owned()).or_insert_with(|| Box::leak(s.to_owned().into_boxed_str())))
}

fn names<'a>(v: impl Iterator<Item = &'a String>) -> &'static [&'static str] {
    let v: Vec<String> = v.cloned().collect();
    LISTS.with(|n| {
        *n.borrow_mut()
            .entry(v.clone())
            .or_insert_with(|| Box::leak(v.iter().map(|s| name(s)).collect::<Vec<_>>().into_boxed_slice()))
    })
}

/// A value with its type
pub struct Typed<'a>(pub &'a Ty, pub &'a V);

/// A tree, as whatever it is
struct Dynamic<'a>(&'a T);

/// Bytes, as bytes
struct Raw<'a>(&'a [u8]);

impl Serialize for Raw<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        z.serialize_bytes(self.0)
    }
}

fn utf8(b: &[u8]) -> &str {
    std::str::from_utf8(b).unwrap()
}

impl Serialize for Dynamic<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self.0 {
            T::Null => z.serialize_none(),
            T::Undef => z.serialize_unit(),
            T::Bool(b) => z.serialize_bool(*b),
            T::Int(i) => {
                if let Ok(x) = i64::try_from(*i) {
                    z.serialize_i64(x)
                } else {
                    z.serialize_u64(*i as u64)
                }
            }
            T::Flt(b) => z.serialize_f64(f64::from_bits(*b)),
            T::Sgl(b) => z.serialize_f32(f64::from_bits(*b) as f32),
            T::NaN => z.serialize_f64(f64::NAN),
            T::Str(s) => z.serialize_str(utf8(s)),
            T::Data(d) => z.serialize_bytes(d),
            T::Arr(v) => {
                // a sequence of unknown length
                let mut s = z.serialize_seq(None)?;
                for x in v {
                    s.serialize_element(&Dynamic(x))?;
                }
                s.end()
            }
            T::Dict(v) => {
                let mut m = z.serialize_map(None)?;
                for (k, x) in v {
                    m.serialize_key(utf8(k))?;
                    m.serialize_value(&Dynamic(x))?;
                }
                m.end()
            }
            T::Bad(_) => unreachable!(),
        }
    }
}

impl V {
    fn items(&self) -> &[V] {
        match self {
            V::Arr(v) => v,
            other => panic!("no elements: {other:?}"),
        }
    }
    fn int(&self) -> i128 {
        match self {
            V::T(T::Int(i)) => *i,
            other => panic!("no integer: {other:?}"),
        }
    }
    fn float(&self) -> f64 {
        match self {
            V::T(T::Flt(b)) => f64::from_bits(*b),
            V::T(T::NaN) => f64::NAN,
            other => panic!("no float: {other:?}"),
        }
    }
    fn bytes(&self) -> &[u8] {
        match self {
            V::T(T::Str(b) | T::Data(b)) => b,
            other => panic!("no bytes: {other:?}"),
        }
    }
}

impl Serialize for Typed<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let Typed(ty, v) = *self;
        match ty {
            Ty::Bool => z.serialize_bool(matches!(v, V::T(T::Bool(true)))),
            Ty::I(1) => z.serialize_i8(v.int() as i8),
            Ty::I(2) => z.serialize_i16(v.int() as i16),
            Ty::I(4) => z.serialize_i32(v.int() as i32),
            Ty::I(8) => z.serialize_i64(v.int() as i64),
            Ty::I(_) => z.serialize_i128(v.int()),
            Ty::U(1) => z.serialize_u8(v.int() as u8),
            Ty::U(2) => z.serialize_u16(v.int() as u16),
            Ty::U(4) => z.serialize_u32(v.int() as u32),
            Ty::U(8) => z.serialize_u64(v.int() as u64),
            Ty::U(_) => z.serialize_u128(v.int() as u128),
            Ty::F(4) => z.serialize_f32(v.float() as f32),
            Ty::F(_) => z.serialize_f64(v.float()),
            Ty::Char => z.serialize_char(utf8(v.bytes()).chars().next().unwrap()),
            Ty::Str => z.serialize_str(utf8(v.bytes())),
            Ty::Bytes => z.serialize_bytes(v.bytes()),
            Ty::Unit | Ty::Ignored => z.serialize_unit(),
            Ty::UStruct => z.serialize_unit_struct("Nothing"),
            Ty::Newtype(t) => z.serialize_newtype_struct("Wrapper", &Typed(t, v)),
            Ty::Opt(t) => match v {
                V::Some(x) => z.serialize_some(&Typed(t, x)),
                _ => z.serialize_none(),
            },
            Ty::Seq(t) => {
                let mut s = z.serialize_seq(Some(v.items().len()))?;
                for x in v.items() {
                    s.serialize_element(&Typed(t, x))?;
                }
                s.end()
            }
            Ty::Tuple(ts) => {
                let mut s = z.serialize_tuple(ts.len())?;
                for (t, x) in ts.iter().zip(v.items()) {
                    s.serialize_element(&Typed(t, x))?;
                }
                s.end()
            }
            Ty::TStruct(ts) => {
                let mut s = z.serialize_tuple_struct("TupleStruct", ts.len())?;
                for (t, x) in ts.iter().zip(v.items()) {
                    s.serialize_field(&Typed(t, x))?;
                }
                s.end()
            }
            Ty::Struct(fs) => {
                let mut s = z.serialize_struct("Struct", fs.len())?;
                for ((n, t), x) in fs.iter().zip(v.items()) {
                    s.serialize_field(name(n), &Typed(t, x))?;
                }
                s.end()
            }
            Ty::Map(k, t) => {
                let V::Map(es) = v else { panic!("no map: {v:?}") };
                let mut m = z.serialize_map(if es.len() % 2 == 0 { Some(es.len()) } else { None })?;
                for (i, (a, b)) in es.iter().enumerate() {
                    if i % 2 == 0 {
                        m.serialize_entry(&Typed(k, a), &Typed(t, b))?;
                    } else {
                        m.serialize_key(&Typed(k, a))?;
                        m.serialize_value(&Typed(t, b))?;
                    }
                }
                m.end()
            }
            Ty::Enum(vs) => {
                let V::Var(i, x) = v else { panic!("no variant: {v:?}") };
                let (n, var) = &vs[*i];
                let (i, n) = (*i as u32, name(n));
                match var {
                    Var::Unit => z.serialize_unit_variant("Enum", i, n),
                    Var::Newtype(t) => z.serialize_newtype_variant("Enum", i, n, &Typed(t, x)),
                    Var::Tuple(ts) => {
                        let mut s = z.serialize_tuple_variant("Enum", i, n, ts.len())?;
                        for (t, x) in ts.iter().zip(x.items()) {
                            s.serialize_field(&Typed(t, x))?;
                        }
                        s.end()
                    }
                    Var::Struct(fs) => {
                        let mut s = z.serialize_struct_variant("Enum", i, n, fs.len())?;
                        for ((n, t), x) in fs.iter().zip(x.items()) {
                            s.serialize_field(name(n), &Typed(t, x))?;
                        }
                        s.end()
                    }
                }
            }
            Ty::Any => match v {
                V::T(t) => Dynamic(t).serialize(z),
                other => panic!("no tree: {other:?}"),
            },
        }
    }
}

// ------------------------------------------------------------ deserialization

struct Seed<'a>(&'a Ty);

struct AnyVisitor;

impl<'de> Visitor<'de> for AnyVisitor {
    type Value = T;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<T, E> {
        Ok(T::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<T, E> {
        Ok(T::Int(v as i128))
    }
    fn visit_u64<E>(self, v: u64) -> Result<T, E> {
        Ok(T::Int(v as i128))
    }
    fn visit_f64<E>(self, v: f64) -> Result<T, E> {
        Ok(T::f64(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<T, E> {
        Ok(T::str(v))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<T, E> {
        Ok(T::Data(v.to_vec()))
    }
    fn visit_none<E>(self) -> Result<T, E> {
        Ok(T::Null)
    }
    fn visit_unit<E>(self) -> Result<T, E> {
        Ok(T::Undef)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<T, D::Error> {
        d.deserialize_any(self)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<T, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(AnySeed)? {
            v.push(x);
        }
        Ok(T::Arr(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<T, A::Error> {
        let mut v = vec![];
        while let Some(k) = a.next_key::<String>()? {
            v.push((k.into_bytes(), a.next_value_seed(AnySeed)?));
        }
        Ok(T::Dict(v))
    }
}

struct AnySeed;
impl<'de> DeserializeSeed<'de> for AnySeed {
    type Value = T;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<T, D::Error> {
        d.deserialize_any(AnyVisitor)
    }
}

struct BytesVisitor;
impl<'de> Visitor<'de> for BytesVisitor {
    type Value = Vec<u8>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> {
        Ok(v.to_vec())
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
        Ok(v)
    }
}

/// Visitors for the shape of a type
struct Shape<'a>(&'a Ty);

/// The index of a name
struct Name(&'static [&'static str], bool);
impl<'de> DeserializeSeed<'de> for Name {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Name {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a name")
    }
    fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<Self::Value, E> {
        match self.0.iter().position(|n| *n == v) {
            None if self.1 => Err(E::unknown_variant(v, self.0)),
            i => Ok(i),
        }
    }
    fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<Self::Value, E> {
        match std::str::from_utf8(v) {
            Ok(s) => self.visit_str(s),
            Err(_) => Err(E::custom("no name")),
        }
    }
}

fn seq_elements<'de, A: SeqAccess<'de>>(ts: &[Ty], mut a: A) -> Result<V, A::Error> {
    let mut v = vec![];
    for (i, t) in ts.iter().enumerate() {
        match a.next_element_seed(Seed(t))? {
            Some(x) => v.push(x),
            None => return Err(serde::de::Error::invalid_length(i, &"more elements")),
        }
    }
    Ok(V::Arr(v))
}

fn map_fields<'de, A: MapAccess<'de>>(fs: &[(String, Ty)], mut a: A) -> Result<V, A::Error> {
    let ns = names(fs.iter().map(|f| &f.0));
    let mut v: Vec<Option<V>> = vec![None; fs.len()];
    while let Some(i) = a.next_key_seed(Name(ns, false))? {
        match i {
            Some(i) => {
                if v[i].is_some() {
                    return Err(serde::de::Error::duplicate_field(ns[i]));
                }
                v[i] = Some(a.next_value_seed(Seed(&fs[i].1))?);
            }
            None => {
                a.next_value::<serde::de::IgnoredAny>()?;
            }
        }
    }
    let mut out = vec![];
    for (i, x) in v.into_iter().enumerate() {
        match x {
            Some(x) => out.push(x),
            None if matches!(fs[i].1, Ty::Opt(_)) => out.push(V::None),
            None => return Err(serde::de::Error::missing_field(ns[i])),
        }
    }
    Ok(V::Arr(out))
}

impl<'de> Visitor<'de> for Shape<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_unit<E: serde::de::Error>(self) -> Result<V, E> {
        match self.0 {
            Ty::UStruct => Ok(V::Unit),
            Ty::Opt(_) => Ok(V::None),
            _ => Err(E::custom("unit")),
        }
    }
    fn visit_none<E: serde::de::Error>(self) -> Result<V, E> {
        match self.0 {
            Ty::Opt(_) => Ok(V::None),
            _ => Err(E::custom("none")),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        match self.0 {
            Ty::Opt(t) => Ok(V::Some(Box::new(Seed(t).deserialize(d)?))),
            _ => Err(serde::de::Error::custom("some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        match self.0 {
            Ty::Newtype(t) => Seed(t).deserialize(d),
            _ => Err(serde::de::Error::custom("newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                let mut v = vec![];
                while let Some(x) = a.next_element_seed(Seed(t))? {
                    v.push(x);
                }
                Ok(V::Arr(v))
            }
            Ty::Tuple(ts) | Ty::TStruct(ts) => seq_elements(ts, a),
            // what a derived newtype does
            Ty::Newtype(t) => match a.next_element_seed(Seed(t))? {
                Some(x) => Ok(x),
                None => Err(serde::de::Error::invalid_length(0, &"one element")),
            },
            // and a derived struct
            Ty::Struct(fs) => {
                let ts: Vec<Ty> = fs.iter().map(|f| f.1.clone()).collect();
                seq_elements(&ts, a)
            }
            _ => Err(serde::de::Error::custom("seq")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        match self.0 {
            Ty::Map(k, t) => {
                let mut v = vec![];
                while let Some(key) = a.next_key_seed(Seed(k))? {
                    v.push((key, a.next_value_seed(Seed(t))?));
                }
                Ok(V::Map(v))
            }
            Ty::Struct(fs) => map_fields(fs, a),
            _ => Err(serde::de::Error::custom("map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        let Ty::Enum(vs) = self.0 else { return Err(serde::de::Error::custom("enum")) };
        let (i, var) = a.variant_seed(Name(names(vs.iter().map(|v| &v.0)), true))?;
        let i = i.unwrap();
        let v = match &vs[i].1 {
            Var::Unit => {
                var.unit_variant()?;
                V::Unit
            }
            Var::Newtype(t) => var.newtype_variant_seed(Seed(t))?,
            Var::Tuple(ts) => var.tuple_variant(ts.len(), Shape(&Ty::Tuple(ts.clone())))?,
            Var::Struct(fs) => var.struct_variant(names(fs.iter().map(|f| &f.0)), Shape(&Ty::Struct(fs.clone())))?,
        };
        Ok(V::Var(i, Box::new(v)))
    }
}

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = V;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        let ty = self.0;
        let int = |i: i128| V::T(T::Int(i));
        Ok(match ty {
            Ty::Bool => V::T(T::Bool(bool::deserialize(d)?)),
            Ty::I(1) => int(i8::deserialize(d)? as i128),
            Ty::I(2) => int(i16::deserialize(d)? as i128),
            Ty::I(4) => int(i32::deserialize(d)? as i128),
            Ty::I(8) => int(i64::deserialize(d)? as i128),
            Ty::I(_) => int(i128::deserialize(d)?),
            Ty::U(1) => int(u8::deserialize(d)? as i128),
            Ty::U(2) => int(u16::deserialize(d)? as i128),
            Ty::U(4) => int(u32::deserialize(d)? as i128),
            Ty::U(8) => int(u64::deserialize(d)? as i128),
            Ty::U(_) => int(u128::deserialize(d)? as i128),
            Ty::F(4) => V::T(T::f64(f32::deserialize(d)? as f64)),
            Ty::F(_) => V::T(T::f64(f64::deserialize(d)?)),
            Ty::Char => V::T(T::str(&char::deserialize(d)?.to_string())),
            Ty::Str => V::T(T::Str(String::deserialize(d)?.into_bytes())),
            Ty::Bytes => V::T(T::Data(d.deserialize_byte_buf(BytesVisitor)?)),
            Ty::Unit => {
                <()>::deserialize(d)?;
                V::Unit
            }
            Ty::Ignored => {
                serde::de::IgnoredAny::deserialize(d)?;
                V::Unit
            }
            Ty::UStruct => d.deserialize_unit_struct("Nothing", Shape(ty))?,
            Ty::Newtype(_) => d.deserialize_newtype_struct("Wrapper", Shape(ty))?,
            Ty::Opt(_) => d.deserialize_option(Shape(ty))?,
            Ty::Seq(_) => d.deserialize_seq(Shape(ty))?,
            Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), Shape(ty))?,
            Ty::TStruct(ts) => d.deserialize_tuple_struct("TupleStruct", ts.len(), Shape(ty))?,
            Ty::Struct(fs) => d.deserialize_struct("Struct", names(fs.iter().map(|f| &f.0)), Shape(ty))?,
            Ty::Map(..) => d.deserialize_map(Shape(ty))?,
            Ty::Enum(vs) => d.deserialize_enum("Enum", names(vs.iter().map(|v| &v.0)), Shape(ty))?,
            Ty::Any => V::T(d.deserialize_any(AnyVisitor)?),
        })
    }
}

/// A value of the wanted type
struct Wanted(V);

impl<'de> Deserialize<'de> for Wanted {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let ty = WANTED.with(|w| w.borrow().clone()).unwrap();
        Seed(&ty).deserialize(d).map(Wanted)
    }
}

fn read_as(ty: &Ty, d: &[u8]) -> String {
    WANTED.with(|w| *w.borrow_mut() = Some(ty.clone()));
    match guarded(|| fleece::from_bytes::<Wanted>(d).map_err(|e| format!("{e}"))) {
        Err(_) => "[\"panic\"]".into(),
        Ok(Err(_)) => "[\"err\"]".into(),
        Ok(Ok(v)) => format!("[\"ok\",{}]", v.0.json()),
    }
}

fn error_name(e: &Error) -> String {
    match e {
        Error::Serialize(fleece::error::SerializeError::ValueNotCollection) => "not-collection".into(),
        Error::Serialize(fleece::error::SerializeError::KeyNotString(k)) => format!("key:{k:?}"),
        _ => "other".into(),
    }
}

/// Serialize a value, plainly or with shared keys, and read it back.
pub fn ser_event(ty: &Ty, v: &V, shared: bool, ev: &mut Vec<String>) {
    journal(&format!("{{\"serialize\":{},\"value\":{},\"shared\":{shared}}}", ty.json(), v.json()));
    let (res, d, sk, back) = if shared {
        match guarded(|| fleece::to_bytes_with_shared_keys(Typed(ty, v))) {
            Err(_) => ("panic".into(), vec![], vec![], "[\"none\"]".into()),
            Ok(Err(e)) => (error_name(&e), vec![], vec![], "[\"none\"]".into()),
            Ok(Ok(s)) => {
                let sk = s.shared_keys().map(|k| sk_list(k)).unwrap_or_default();
                let data = s.data();
                let d = data.as_deref().unwrap_or_default();
                ("ok".into(), d.to_vec(), sk, read_as(ty, d))
            }
        }
    } else {
        match guarded(|| fleece::to_bytes(Typed(ty, v))) {
            Err(_) => ("panic".into(), vec![], vec![], "[\"none\"]".into()),
            Ok(Err(e)) => (error_name(&e), vec![], vec![], "[\"none\"]".into()),
            Ok(Ok(d)) => {
                let back = read_as(ty, &d);
                ("ok".into(), d, vec![], back)
            }
        }
    };
    ev.push(format!("[\"ser\",{},{},\"{res}\",{},{},{back}]", ty.json(), v.json(), bj(&d), sk_json(&sk)));
}

/// Read a document as a type.
pub fn de_event(d: &[u8], sk: &[String], ty: &Ty, ev: &mut Vec<String>) {
    journal(&format!("{{\"document\":{},\"as\":{}}}", bj(d), ty.json()));
    let back = if sk.is_empty() {
        read_as(ty, d)
    } else {
        let scope = fleece::Scope::new(d.to_vec(), Some(std::sync::Arc::new(make_sk(sk))));
        let data = scope.data();
        read_as(ty, data.as_deref().unwrap_or_default())
    };
    ev.push(format!("[\"de\",{},{},{},{back}]", bj(d), sk_json(sk), ty.json()));
}

// ------------------------------------------------------------ generators

fn int_in(r: &mut Rng, ty: &Ty) -> i128 {
    let (lo, hi) = match ty {
        Ty::I(16) => (i64::MIN as i128, u64::MAX as i128),
        Ty::U(16) => (0, u64::MAX as i128),
        Ty::I(n) => (-(1i128 << (8 * n - 1)), (1i128 << (8 * n - 1)) - 1),
        Ty::U(n) => (0, (1i128 << (8 * n)) - 1),
        _ => unreachable!(),
    };
    if r.chance(1, 6) {
        return *r.pick(&[lo, hi, 0, hi / 2, hi / 2 + 1]);
    }
    let i = gen_int(r);
    if i < lo || i > hi {
        lo + (i - lo).rem_euclid(hi - lo + 1)
    } else {
        i
    }
}

fn scalar_ty(r: &mut Rng) -> Ty {
    match r.below(18) {
        0 => Ty::Bool,
        1 => Ty::I(1),
        2 => Ty::I(2),
        3 => Ty::I(4),
        4 | 5 => Ty::I(8),
        6 => Ty::U(1),
        7 => Ty::U(2),
        8 => Ty::U(4),
        9 => Ty::U(8),
        10 => Ty::F(4),
        11 => Ty::F(8),
        12 => Ty::Char,
        13 | 14 => Ty::Str,
        15 => Ty::Bytes,
        16 => Ty::Unit,
        _ => Ty::UStruct,
    }
}

fn field_list(r: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> Ty) -> Vec<(String, Ty)> {
    let style = r.below(8);
    gen_keys(r, n, style).into_iter().map(|k| (k, f(r))).collect()
}

pub fn gen_ty(r: &mut Rng, depth: usize) -> Ty {
    if depth == 0 || r.chance(2, 5) {
        return scalar_ty(r);
    }
    gen_coll_ty(r, depth)
}

fn gen_tys(r: &mut Rng, depth: usize) -> Vec<Ty> {
    let n = r.below(5);
    (0..n).map(|_| gen_ty(r, depth)).collect()
}

fn gen_coll_ty(r: &mut Rng, depth: usize) -> Ty {
    let d = depth.saturating_sub(1);
    match r.below(11) {
        0 => Ty::Newtype(Box::new(gen_ty(r, d))),
        1 | 2 => Ty::Opt(Box::new(gen_ty(r, d))),
        3 => Ty::Seq(Box::new(gen_ty(r, d))),
        4 => Ty::Tuple(gen_tys(r, d)),
        5 => Ty::TStruct(gen_tys(r, d)),
        6 | 7 => {
            let n = r.below(6);
            Ty::Struct(field_list(r, n, |r| gen_ty(r, d)))
        }
        8 => {
            let k = match r.below(6) {
                0 => Ty::Char,
                1 => Ty::Newtype(Box::new(Ty::Str)),
                2 => Ty::Opt(Box::new(Ty::Str)),
                _ => Ty::Str,
            };
            Ty::Map(Box::new(k), Box::new(gen_ty(r, d)))
        }
        9 => {
            let n = r.range(1, 4);
            let style = r.below(8);
            let ks = gen_keys(r, n, style);
            Ty::Enum(
                ks.into_iter()
                    .map(|k| {
                        let v = match r.below(4) {
                            0 => Var::Unit,
                            1 => Var::Newtype(Box::new(gen_ty(r, d))),
                            2 => Var::Tuple(gen_tys(r, d)),
                            _ => {
                                let n = r.below(4);
                                Var::Struct(field_list(r, n, |r| gen_ty(r, d)))
                            }
                        };
                        (k, v)
                    })
                    .collect(),
            )
        }
        _ => Ty::Any,
    }
}

fn gen_key_val(r: &mut Rng, ty: &Ty) -> V {
    match ty {
        Ty::Opt(t) if !matches!(**t, Ty::Opt(_)) => V::Some(Box::new(gen_key_val(r, t))),
        other => gen_val(r, other, &mut 10),
    }
}

pub fn gen_val(r: &mut Rng, ty: &Ty, budget: &mut usize) -> V {
    *budget = budget.saturating_sub(1);
    let each = |r: &mut Rng, ts: &[&Ty], budget: &mut usize| V::Arr(ts.iter().map(|t| gen_val(r, t, budget)).collect());
    match ty {
        Ty::Bool => V::T(T::Bool(r.chance(1, 2))),
        Ty::I(_) | Ty::U(_) => V::T(T::Int(int_in(r, ty))),
        Ty::F(4) => V::T(T::f64(gen_f32(r) as f64)),
        Ty::F(_) => V::T(T::f64(gen_f64(r))),
        Ty::Char => V::T(T::str(&gen_char(r).to_string())),
        Ty::Str => V::T(T::str(&gen_str(r))),
        Ty::Bytes => V::T(T::Data(gen_data(r))),
        Ty::Unit | Ty::UStruct | Ty::Ignored => V::Unit,
        Ty::Newtype(t) => gen_val(r, t, budget),
        Ty::Opt(t) => {
            if r.chance(1, 3) {
                V::None
            } else {
                V::Some(Box::new(gen_val(r, t, budget)))
            }
        }
        Ty::Seq(t) => {
            let n = r.below(5).min(*budget + 1);
            V::Arr((0..n).map(|_| gen_val(r, t, budget)).collect())
        }
        Ty::Tuple(ts) | Ty::TStruct(ts) => each(r, &ts.iter().collect::<Vec<_>>(), budget),
        Ty::Struct(fs) => each(r, &fs.iter().map(|f| &f.1).collect::<Vec<_>>(), budget),
        Ty::Map(k, t) => {
            let n = r.below(5).min(*budget + 1);
            let mut es: BTreeMap<String, (V, V)> = BTreeMap::new();
            for _ in 0..n {
                let k = gen_key_val(r, k);
                let x = gen_val(r, t, budget);
                es.insert(k.json(), (k, x));
            }
            let mut es: Vec<_> = es.into_values().collect();
            let at = r.below(es.len() + 1);
            es.rotate_left(at);
            V::Map(es)
        }
        Ty::Enum(vs) => {
            let i = r.below(vs.len());
            let x = match &vs[i].1 {
                Var::Unit => V::Unit,
                Var::Newtype(t) => gen_val(r, t, budget),
                Var::Tuple(ts) => gen_val(r, &Ty::Tuple(ts.clone()), budget),
                Var::Struct(fs) => gen_val(r, &Ty::Struct(fs.clone()), budget),
            };
            V::Var(i, Box::new(x))
        }
        Ty::Any => V::T(gen_tree(r, 2, budget)),
    }
}

/// A type which the tree could have been written as, mostly.
fn ty_of(r: &mut Rng, t: &T, depth: usize) -> Ty {
    if r.chance(1, 25) {
        return gen_ty(r, 2);
    }
    if depth == 0 || r.chance(1, 20) {
        return Ty::Any;
    }
    if r.chance(1, 40) {
        return Ty::Ignored;
    }
    let d = depth - 1;
    let ty = match t {
        T::Null => match r.below(4) {
            0 => Ty::UStruct,
            1 => Ty::Unit,
            _ => Ty::Opt(Box::new(gen_ty(r, 1))),
        },
        T::Undef => Ty::Unit,
        T::Bool(_) => Ty::Bool,
        T::Int(i) => {
            let all = [Ty::I(1), Ty::I(2), Ty::I(4), Ty::I(8), Ty::U(1), Ty::U(2), Ty::U(4), Ty::U(8), Ty::F(4), Ty::F(8), Ty::I(16), Ty::U(16)];
            if r.chance(1, 5) {
                r.pick(&all).clone()
            } else {
                let fit: Vec<Ty> = all
                    .iter()
                    .filter(|t| match t {
                        Ty::I(n) => *n < 16 && *i >= -(1i128 << (8 * n - 1)) && *i < 1i128 << (8 * n - 1),
                        Ty::U(n) => *n < 16 && *i >= 0 && *i < 1i128 << (8 * n),
                        _ => false,
                    })
                    .cloned()
                    .collect();
                r.pick(&fit).clone()
            }
        }
        T::Flt(_) | T::Sgl(_) | T::NaN => match r.below(12) {
            0 => Ty::I(8),
            1..=4 => Ty::F(4),
            _ => Ty::F(8),
        },
        T::Str(s) => {
            if s.len() < 5 && r.chance(1, 3) {
                Ty::Char
            } else if r.chance(1, 12) {
                Ty::Bytes
            } else {
                Ty::Str
            }
        }
        T::Data(_) => {
            if r.chance(1, 8) {
                Ty::Str
            } else {
                Ty::Bytes
            }
        }
        T::Arr(v) => match r.below(5) {
            0 => Ty::Seq(Box::new(Ty::Any)),
            1 => match v.first() {
                Some(x) => Ty::Seq(Box::new(ty_of(r, x, d))),
                None => Ty::Seq(Box::new(gen_ty(r, 1))),
            },
            2 if matches!(v.first(), Some(T::Str(_))) || r.chance(1, 3) => {
                let Some(T::Str(n)) = v.first() else { return enum_of(r, "x", v, d) };
                let n = String::from_utf8(n.clone()).unwrap_or_default();
                enum_of(r, &n, v, d)
            }
            n => {
                let mut ts: Vec<Ty> = v.iter().take(40).map(|x| ty_of(r, x, d)).collect();
                if r.chance(1, 10) {
                    ts.push(gen_ty(r, 1));
                } else if r.chance(1, 10) {
                    ts.pop();
                }
                if n == 3 {
                    Ty::Tuple(ts)
                } else {
                    Ty::TStruct(ts)
                }
            }
        },
        T::Dict(es) => match r.below(4) {
            0 => Ty::Map(Box::new(if r.chance(1, 5) { scalar_ty(r) } else { Ty::Str }), Box::new(Ty::Any)),
            1 => match es.first() {
                Some((_, x)) => Ty::Map(Box::new(Ty::Str), Box::new(ty_of(r, x, d))),
                None => Ty::Map(Box::new(Ty::Str), Box::new(gen_ty(r, 1))),
            },
            _ => Ty::Struct(fields_of(r, es, d)),
        },
        T::Bad(_) => Ty::Any,
    };
    match r.below(14) {
        0 => Ty::Opt(Box::new(ty)),
        1 => Ty::Newtype(Box::new(ty)),
        _ => ty,
    }
}

fn fields_of(r: &mut Rng, es: &[(Vec<u8>, T)], d: usize) -> Vec<(String, Ty)> {
    let mut fs = vec![];
    for (k, x) in es {
        if r.chance(1, 6) || fs.len() > 30 {
            continue;
        }
        let t = ty_of(r, x, d);
        let Ok(k) = String::from_utf8(k.clone()) else { continue };
        if fs.iter().all(|f: &(String, Ty)| f.0 != k) {
            fs.push((k, t));
        }
    }
    if r.chance(1, 8) {
        let t = gen_ty(r, 1);
        if fs.iter().all(|f| f.0 != "absent") {
            fs.push(("absent".into(), if r.chance(1, 2) { Ty::Opt(Box::new(t)) } else { t }));
        }
    }
    let at = r.below(fs.len() + 1);
    fs.rotate_left(at);
    fs
}

/// An enum of which the array could be a variant
fn enum_of(r: &mut Rng, n: &str, v: &[T], d: usize) -> Ty {
    let var = match v.get(1) {
        _ if r.chance(1, 8) => Var::Newtype(Box::new(Ty::Any)),
        None => Var::Unit,
        Some(T::Arr(x)) if r.chance(2, 3) => {
            let mut ts: Vec<Ty> = x.iter().take(40).map(|x| ty_of(r, x, d)).collect();
            if r.chance(1, 8) {
                ts.push(Ty::Any);
            } else if r.chance(1, 8) {
                ts.pop();
            }
            Var::Tuple(ts)
        }
        Some(T::Dict(es)) if r.chance(2, 3) => Var::Struct(fields_of(r, es, d)),
        Some(x) => Var::Newtype(Box::new(ty_of(r, x, d))),
    };
    let mut vs = vec![("first".to_string(), Var::Unit), (n.to_string(), var), ("last".to_string(), Var::Newtype(Box::new(Ty::Any)))];
    if n == "first" || n == "last" {
        vs = vec![vs.remove(1)];
    }
    if r.chance(1, 12) {
        vs[0].0.push('x');
    }
    Ty::Enum(vs)
}

// ------------------------------------------------------------ families

struct Events<'a> {
    ev: Vec<String>,
    out: &'a mut Sink,
    name: &'static str,
    n: usize,
}

impl<'a> Events<'a> {
    fn new(name: &'static str, out: &'a mut Sink) -> Self {
        Events { ev: vec![], out, name, n: 0 }
    }
    fn flush(&mut self, at: usize) {
        if self.ev.len() >= at {
            self.n += 1;
            self.out.add(&format!("{}/{}", self.name, self.n), &self.ev);
            self.ev.clear();
        }
    }
}

/// Values which can be serialized (and some which cannot)
pub fn values(r: &mut Rng, scale: usize, out: &mut Sink) {
    let mut e = Events::new("serde", out);
    for i in 0..1500 * scale {
        let depth = r.range(1, 4);
        let ty = match i % 12 {
            // the top level is anything
            0 => gen_ty(r, depth),
            _ => loop {
                let t = gen_coll_ty(r, depth);
                if !matches!(t, Ty::Opt(_) | Ty::Newtype(_)) || r.chance(1, 8) {
                    break t;
                }
            },
        };
        let mut budget = 25;
        let v = gen_val(r, &ty, &mut budget);
        ser_event(&ty, &v, false, &mut e.ev);
        ser_event(&ty, &v, true, &mut e.ev);
        e.flush(16);
    }
    // Large ones: long sequences, maps, strings, and many names
    for i in 0..6 * scale {
        let n = *r.pick(&[255, 2046, 2047, 2048, 2100, 3000]);
        let (ty, v) = match i % 6 {
            0 => {
                let t = scalar_ty(r);
                let v = V::Arr((0..n).map(|_| gen_val(r, &t, &mut 1)).collect());
                (Ty::Seq(Box::new(t)), v)
            }
            1 => {
                let v = V::Map((0..n).map(|i| (V::T(T::str(&format!("key{i}"))), V::T(T::Int(i as i128)))).collect());
                (Ty::Map(Box::new(Ty::Str), Box::new(Ty::U(2))), v)
            }
            2 => {
                let m = *r.pick(&[127, 128, 129, 16383, 16384, 20000]);
                let ty = Ty::Tuple(vec![Ty::Str, Ty::Bytes, Ty::Seq(Box::new(Ty::U(1)))]);
                let v = V::Arr(vec![
                    V::T(T::str(&ascii(r, m))),
                    V::T(T::Data(vec![7; m])),
                    V::Arr((0..m.min(3000)).map(|_| V::T(T::Int(r.below(256) as i128))).collect()),
                ]);
                (ty, v)
            }
            3 => {
                // deep
                let mut ty = Ty::U(4);
                let mut v = V::T(T::Int(70_000));
                for k in 0..60 {
                    if k % 3 == 0 {
                        ty = Ty::Enum(vec![("V".into(), Var::Newtype(Box::new(ty)))]);
                        v = V::Var(0, Box::new(v));
                    } else if k % 3 == 1 {
                        ty = Ty::Struct(vec![("s".into(), Ty::Str), ("field".into(), ty)]);
                        v = V::Arr(vec![V::T(T::str("text")), v]);
                    } else {
                        ty = Ty::Opt(Box::new(Ty::Tuple(vec![ty, Ty::I(8)])));
                        v = V::Some(Box::new(V::Arr(vec![v, V::T(T::Int(-1))])));
                    }
                }
                (Ty::Seq(Box::new(ty)), V::Arr(vec![v.clone(), v]))
            }
            4 => {
                // the same names again and again
                let t = Ty::Struct(vec![("id".into(), Ty::U(4)), ("name".into(), Ty::Str), ("tag".into(), Ty::Opt(Box::new(Ty::Char)))]);
                let v = V::Arr((0..400).map(|_| gen_val(r, &t, &mut 9)).collect());
                (Ty::Seq(Box::new(t)), v)
            }
            _ => {
                // more names than can be shared, used before and after
                let fs: Vec<(String, Ty)> = (0..2200).map(|i| (format!("f{i}"), Ty::U(2))).collect();
                let v = V::Arr((0..2200).map(|i| V::T(T::Int(i))).collect());
                let two = Ty::Tuple(vec![Ty::Struct(fs.clone()), Ty::Struct(fs.into_iter().rev().take(20).collect())]);
                let w = V::Arr((0..20).map(|i| V::T(T::Int(i))).collect());
                (two, V::Arr(vec![v, w]))
            }
        };
        ser_event(&ty, &v, i % 2 == 0, &mut e.ev);
        ser_event(&ty, &v, i % 2 == 1, &mut e.ev);
        e.flush(2);
    }
    e.flush(1);
    real_types(r, 12 * scale, &mut e);
    e.flush(1);
}

/// Values which must be refused, among values which must not
pub fn refused(r: &mut Rng, scale: usize, out: &mut Sink) {
    let mut e = Events::new("refused", out);
    // every type of key, wrapped
    let keys: Vec<Ty> = vec![
        Ty::Bool, Ty::I(1), Ty::I(2), Ty::I(4), Ty::I(8), Ty::I(16), Ty::U(1), Ty::U(2), Ty::U(4), Ty::U(8), Ty::U(16), Ty::F(4), Ty::F(8), Ty::Char, Ty::Str,
        Ty::Bytes, Ty::Unit, Ty::UStruct, Ty::Opt(Box::new(Ty::Str)), Ty::Opt(Box::new(Ty::I(4))), Ty::Opt(Box::new(Ty::Opt(Box::new(Ty::Char)))), Ty::Newtype(Box::new(Ty::U(2))),
        Ty::Newtype(Box::new(Ty::Opt(Box::new(Ty::Newtype(Box::new(Ty::Str)))))), Ty::Seq(Box::new(Ty::Str)), Ty::Tuple(vec![Ty::Str]), Ty::Tuple(vec![]), Ty::TStruct(vec![Ty::Str, Ty::Str]),
        Ty::Struct(vec![("a".into(), Ty::Str)]), Ty::Map(Box::new(Ty::Str), Box::new(Ty::Str)), Ty::Any,
        Ty::Enum(vec![("A".into(), Var::Unit)]), Ty::Enum(vec![("A".into(), Var::Newtype(Box::new(Ty::Str)))]), Ty::Enum(vec![("A".into(), Var::Tuple(vec![Ty::Str]))]),
        Ty::Enum(vec![("A".into(), Var::Struct(vec![("b".into(), Ty::Str)]))]),
    ];
    for round in 0..4 * scale {
        for k in &keys {
            let t = if round == 0 { Ty::U(1) } else { gen_ty(r, 1) };
            let mut ty = Ty::Map(Box::new(k.clone()), Box::new(t.clone()));
            // at least one entry
            let mut es = vec![];
            for _ in 0..r.range(usize::from(round > 0) * 0 + 1, 2) {
                let a = gen_val(r, k, &mut 4);
                if es.iter().all(|(b, _): &(V, V)| b.json() != a.json() && b.json() != V::Some(Box::new(a.clone())).json()) {
                    es.push((a, gen_val(r, &t, &mut 4)));
                }
            }
            // two keys which are serialized as the same string are one key
            let mut v = V::Map(if matches!(k, Ty::Opt(_) | Ty::Newtype(_)) { es.into_iter().take(1).collect() } else { es });
            // somewhere
            for _ in 0..r.below(4) {
                (ty, v) = match r.below(7) {
                    0 => (Ty::Newtype(Box::new(ty)), v),
                    1 => (Ty::Opt(Box::new(ty)), V::Some(Box::new(v))),
                    2 => (Ty::Seq(Box::new(ty)), V::Arr(vec![v])),
                    3 => (Ty::Tuple(vec![Ty::Str, ty]), V::Arr(vec![V::T(T::str("x")), v])),
                    4 => (Ty::Struct(vec![("a".into(), ty), ("b".into(), Ty::U(1))]), V::Arr(vec![v, V::T(T::Int(1))])),
                    5 => (Ty::Enum(vec![("A".into(), Var::Unit), ("B".into(), Var::Tuple(vec![ty]))]), V::Var(1, Box::new(V::Arr(vec![v])))),
                    _ => (Ty::Map(Box::new(Ty::Char), Box::new(ty)), V::Map(vec![(V::T(T::str("k")), v)])),
                };
            }
            ser_event(&ty, &v, false, &mut e.ev);
            ser_event(&ty, &v, true, &mut e.ev);
            e.flush(16);
        }
        // every scalar at the top, wrapped, and wide integers anywhere
        for i in 0..40 {
            let mut ty = match i {
                0 => Ty::I(16),
                1 => Ty::U(16),
                2..=5 => {
                    let wide = if i % 2 == 0 { Ty::I(16) } else { Ty::U(16) };
                    if i < 4 {
                        Ty::Seq(Box::new(wide))
                    } else {
                        Ty::Struct(vec![("a".into(), Ty::Str), ("b".into(), Ty::Opt(Box::new(wide)))])
                    }
                }
                6..=26 => scalar_ty(r),
                _ => gen_ty(r, 2),
            };
            for _ in 0..r.below(3) {
                ty = if r.chance(1, 2) { Ty::Opt(Box::new(ty)) } else { Ty::Newtype(Box::new(ty)) };
            }
            let v = gen_val(r, &ty, &mut 8);
            ser_event(&ty, &v, i % 2 == 0, &mut e.ev);
            e.flush(16);
        }
    }
    e.flush(1);
}

/// Types and values, or documents, enumerated by TLC
pub fn replay(lines: &[String], r: &mut Rng, out: &mut Sink) {
    let mut e = Events::new("sdreplay", out);
    for l in lines {
        let j: serde_json::Value = serde_json::from_str(l).unwrap();
        let ty = Ty::from_json(&j[1]);
        match j[0].as_str().unwrap() {
            "v" => {
                let v = V::from_json(&ty, &j[2]);
                ser_event(&ty, &v, false, &mut e.ev);
                ser_event(&ty, &v, true, &mut e.ev);
            }
            _ => {
                let t = T::from_json(&j[2]);
                let shared = r.chance(1, 2);
                let (d, sk) = encode(&t, shared, r);
                de_event(&d, &sk, &ty, &mut e.ev);
            }
        }
        e.flush(24);
    }
    e.flush(1);
}

/// The document of a collection, and its shared keys
fn encode(t: &T, shared: bool, r: &mut Rng) -> (Vec<u8>, Vec<String>) {
    let mut enc = Encoder::new();
    if shared {
        enc.set_shared_keys(SharedKeys::new());
    }
    crate::codec::exec(&mut enc, &crate::codec::Op::Bld(t.clone(), r.next()), None);
    if shared {
        let s = enc.finish_scoped();
        let sk = s.shared_keys().map(|k| sk_list(k)).unwrap_or_default();
        (s.data().map(|d| d.to_vec()).unwrap_or_default(), sk)
    } else {
        (enc.finish(), vec![])
    }
}

/// Documents read as types which they may or may not have been written as
pub fn mismatched(r: &mut Rng, scale: usize, out: &mut Sink, foreign: &[Foreign]) {
    let mut e = Events::new("mismatch", out);
    let one = |r: &mut Rng, d: &[u8], sk: &[String], t: &T, e: &mut Events| {
        for _ in 0..4 {
            let ty = ty_of(r, t, 5);
            de_event(d, sk, &ty, &mut e.ev);
        }
        if !sk.is_empty() && r.chance(1, 4) {
            // without the shared keys, or with too few of them
            let ty = ty_of(r, t, 5);
            de_event(d, if r.chance(1, 2) { &[] } else { &sk[..sk.len() / 2] }, &ty, &mut e.ev);
        }
        e.flush(20);
    };
    for _ in 0..700 * scale {
        let mut b = 20;
        let t = gen_coll(r, 4, &mut b);
        let shared = r.chance(1, 2);
        let (d, sk) = encode(&t, shared, r);
        one(r, &d, &sk, &t, &mut e);
    }
    // enums, mostly
    for _ in 0..300 * scale {
        let mut b = 6;
        let x = gen_tree(r, 2, &mut b);
        let n = *r.pick(&["", "A", "first", "Variant", "a_long_variant_name"]);
        let mut v = vec![T::str(n), x];
        match r.below(8) {
            0 => {
                v.pop();
            }
            1 => v.push(T::Null),
            2 => v[0] = gen_scalar(r),
            3 => v[0] = T::Data(n.as_bytes().to_vec()),
            _ => {}
        }
        let t = if r.chance(1, 3) { T::Arr(vec![T::Int(1), T::Arr(v)]) } else { T::Arr(v) };
        let (d, sk) = encode(&t, r.chance(1, 3), r);
        one(r, &d, &sk, &t, &mut e);
    }
    // the keys of a dict as anything which a key might be asked for, with and without the shared keys
    for i in 0..60 * scale {
        let mut b = 8;
        let t = loop {
            let t = gen_coll(r, 2, &mut b);
            if matches!(&t, T::Dict(es) if !es.is_empty()) {
                break t;
            }
            b = 8;
        };
        let (d, sk) = encode(&T::Arr(vec![t]), i % 4 > 0, r);
        for _ in 0..3 {
            let mut k = scalar_ty(r);
            match r.below(6) {
                0 => k = Ty::Opt(Box::new(k)),
                1 => k = Ty::Newtype(Box::new(k)),
                2 => k = Ty::Any,
                _ => {}
            }
            let ty = Ty::Seq(Box::new(Ty::Map(Box::new(k), Box::new(if r.chance(1, 2) { Ty::Any } else { Ty::Ignored }))));
            let known: &[String] = match r.below(3) {
                0 => &sk,
                1 => &sk[..sk.len() / 2],
                _ => &[],
            };
            de_event(&d, known, &ty, &mut e.ev);
        }
        e.flush(20);
    }
    for (d, sk) in foreign.iter().filter(|f| f.0.len() < 2500 && crate::docs::visits(&f.0) < 400).take(400 * scale) {
        let scope = fleece::Scope::new(d.clone(), Some(std::sync::Arc::new(make_sk(sk))));
        let Some(root) = scope.root() else { continue };
        let Ok(t) = guarded(|| crate::tree::walk(&root, crate::tree::By::Iter)) else { continue };
        one(r, d, sk, &t, &mut e);
    }
    e.flush(1);
}

/// Broken documents read as the types which the unbroken ones were written as
pub fn broken(r: &mut Rng, scale: usize, out: &mut Sink, foreign: &[Foreign]) {
    let mut g = Guarded::new(1 << 16);
    let mut e = Events::new("broken", out);
    let mut base: Vec<(Vec<u8>, T)> = vec![];
    for _ in 0..150 {
        let mut b = 14;
        let t = gen_coll(r, 3, &mut b);
        let (d, _) = encode(&t, r.chance(1, 4), r);
        base.push((d, t));
    }
    for (d, sk) in foreign.iter().filter(|f| f.0.len() < 400 && f.1.is_empty() && crate::docs::visits(&f.0) < 400).take(150) {
        let scope = fleece::Scope::new(d.clone(), Some(std::sync::Arc::new(make_sk(sk))));
        let Some(root) = scope.root() else { continue };
        let Ok(t) = guarded(|| crate::tree::walk(&root, crate::tree::By::Iter)) else { continue };
        base.push((d.clone(), t));
    }
    for _ in 0..4000 * scale {
        let (d, t) = r.pick(&base).clone();
        let mut d = d;
        for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
            crate::docs::mutate(r, &mut d);
        }
        if d.len() > 1200 || crate::docs::visits(&d) > 5000 {
            continue;
        }
        let ty = ty_of(r, &t, 4);
        journal(&format!("{{\"document\":{},\"as\":{}}}", bj(&d), ty.json()));
        let mut got = vec![];
        for at_end in [true, false] {
            let b: &[u8] = unsafe { std::mem::transmute(g.put(&d, at_end)) };
            got.push(read_as(&ty, b));
        }
        if got[0] == got[1] {
            e.ev.push(format!("[\"de\",{},[],{},{}]", bj(&d), ty.json(), got[0]));
        } else {
            e.ev.push("[\"bad\",\"the answer depends on where the bytes are\"]".into());
        }
        e.flush(20);
    }
    e.flush(1);
}

// ------------------------------------------------------------ types of Rust

fn rt<X: Serialize + for<'de> Deserialize<'de> + PartialEq + fmt::Debug>(x: &X, e: &mut Events) {
    let n = std::any::type_name::<X>();
    let n: String = n.chars().map(|c| if c == '"' || c == '\\' { '\'' } else { c }).take(120).collect();
    journal(&format!("{{\"type\":\"{n}\"}}"));
    let g = guarded(|| -> Result<(Vec<u8>, bool), Error> {
        let d = fleece::to_bytes(x)?;
        let y: X = fleece::from_bytes(&d)?;
        Ok((d, *x == y))
    });
    let h = guarded(|| -> Result<(Vec<u8>, Vec<String>, bool), Error> {
        let s = fleece::to_bytes_with_shared_keys(x)?;
        let data = s.data();
        let y: X = fleece::from_bytes(data.as_deref().unwrap_or_default())?;
        Ok((data.map(|d| d.to_vec()).unwrap_or_default(), s.shared_keys().map(|k| sk_list(k)).unwrap_or_default(), *x == y))
    });
    match g {
        Ok(Ok((d, eq))) => e.ev.push(format!("[\"rt\",\"{n}\",\"ok\",{},[],{eq}]", bj(&d))),
        Ok(Err(_)) => e.ev.push(format!("[\"rt\",\"{n}\",\"err\",[],[],false]")),
        Err(_) => e.ev.push(format!("[\"rt\",\"{n}\",\"panic\",[],[],false]")),
    }
    match h {
        Ok(Ok((d, sk, eq))) => e.ev.push(format!("[\"rt\",\"{n}\",\"ok\",{},{},{eq}]", bj(&d), sk_json(&sk))),
        Ok(Err(_)) => e.ev.push(format!("[\"rt\",\"{n}\",\"err\",[],[],false]")),
        Err(_) => e.ev.push(format!("[\"rt\",\"{n}\",\"panic\",[],[],false]")),
    }
    e.flush(16);
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct Unit;
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct Meters(f64);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct Rgb(u8, u8, u8);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
#[serde(transparent)]
struct Clear {
    inner: Vec<i32>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(rename_all = "kebab-case")]
enum Kind {
    Nothing,
    OneThing(u64),
    TwoThings(i8, String),
    NamedThings {
        first_name: Option<String>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        second: Option<Box<Kind>>,
        list: Vec<Kind>,
    },
    Empty {},
    Nil(Unit),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "type")]
enum Tagged {
    A,
    B { x: i64, y: f32 },
    C(Inner),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    A,
    B(u16),
    C { k: String },
    D(u8, bool),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(untagged)]
enum Untagged {
    Flag(bool),
    Number(i64),
    Text(String),
    List(Vec<Untagged>),
    Point { x: i32, y: i32 },
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct Inner {
    id: u32,
    label: String,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Flat {
    a: i16,
    #[serde(flatten)]
    inner: Inner,
    #[serde(flatten)]
    rest: BTreeMap<String, i64>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Node<X> {
    #[serde(rename = "the value")]
    value: X,
    next: Option<Box<Node<X>>>,
    nothing: std::marker::PhantomData<X>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Everything {
    a: bool,
    b: i8,
    c: i16,
    d: i32,
    e: i64,
    f: u8,
    g: u16,
    h: u32,
    i: u64,
    j: f32,
    k: f64,
    l: char,
    m: String,
    n: Vec<u8>,
    o: Option<i32>,
    p: (u8, String, Option<bool>),
    q: [i16; 3],
    r: HashMap<String, Vec<f32>>,
    s: BTreeMap<char, u64>,
    t: Kind,
    u: Unit,
    v: Meters,
    w: Rgb,
    x: (),
    y: Option<()>,
    z: Vec<Option<Inner>>,
    #[serde(default)]
    extra: u8,
    isize_: isize,
    usize_: usize,
}

fn finite(r: &mut Rng) -> f64 {
    loop {
        let f = gen_f64(r);
        if !f.is_nan() {
            return f;
        }
    }
}

fn kind(r: &mut Rng, depth: usize) -> Kind {
    match r.below(if depth == 0 { 4 } else { 6 }) {
        0 => Kind::Nothing,
        1 => Kind::OneThing(gen_int(r) as u64),
        2 => Kind::TwoThings(gen_int(r) as i8, gen_str(r)),
        3 => {
            if r.chance(1, 2) {
                Kind::Empty {}
            } else {
                Kind::Nil(Unit)
            }
        }
        _ => Kind::NamedThings {
            first_name: if r.chance(1, 2) { Some(gen_str(r)) } else { None },
            second: if r.chance(1, 2) { Some(Box::new(kind(r, depth - 1))) } else { None },
            list: (0..r.below(3)).map(|_| kind(r, depth - 1)).collect(),
        },
    }
}

fn untagged(r: &mut Rng, depth: usize) -> Untagged {
    match r.below(if depth == 0 { 4 } else { 5 }) {
        0 => Untagged::Flag(r.chance(1, 2)),
        1 => Untagged::Number(gen_int(r) as i64),
        2 => Untagged::Text(gen_str(r)),
        3 => Untagged::Point { x: gen_int(r) as i32, y: gen_int(r) as i32 },
        _ => Untagged::List((0..r.below(3)).map(|_| untagged(r, depth - 1)).collect()),
    }
}

fn inner(r: &mut Rng) -> Inner {
    Inner { id: gen_int(r) as u32, label: gen_str(r) }
}

fn some<X>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> X) -> Option<X> {
    if r.chance(1, 2) {
        Some(f(r))
    } else {
        None
    }
}

fn many<X>(r: &mut Rng, f: impl Fn(&mut Rng) -> X) -> Vec<X> {
    (0..r.below(4)).map(|_| f(r)).collect()
}

fn json(r: &mut Rng, depth: usize) -> serde_json::Value {
    use serde_json::{json, Value as J};
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => J::Null,
        1 => json!(r.chance(1, 2)),
        2 => json!(gen_int(r) as i64),
        3 => json!((r.below(2000) as f64 - 1000.0) / 8.0 + 0.0625),
        4 => json!(gen_str(r)),
        5 => J::Array(many(r, |r| json(r, depth - 1))),
        _ => J::Object((0..r.below(4)).map(|_| (gen_key(r, 8), json(r, depth - 1))).collect()),
    }
}

fn real_types(r: &mut Rng, n: usize, e: &mut Events) {
    use std::collections::{BTreeSet, HashSet, LinkedList, VecDeque};
    for _ in 0..n {
        let x = Everything {
            a: r.chance(1, 2),
            b: gen_int(r) as i8,
            c: gen_int(r) as i16,
            d: gen_int(r) as i32,
            e: gen_int(r) as i64,
            f: gen_int(r) as u8,
            g: gen_int(r) as u16,
            h: gen_int(r) as u32,
            i: gen_int(r) as u64,
            j: finite(r) as f32,
            k: finite(r),
            l: gen_char(r),
            m: gen_str(r),
            n: gen_data(r),
            o: some(r, |r| gen_int(r) as i32),
            p: (gen_int(r) as u8, gen_str(r), some(r, |r| r.chance(1, 2))),
            q: [gen_int(r) as i16, 0, -1],
            r: many(r, |r| (gen_key(r, 8), many(r, |r| finite(r) as f32))).into_iter().collect(),
            s: many(r, |r| (gen_char(r), gen_int(r) as u64)).into_iter().collect(),
            t: kind(r, 2),
            u: Unit,
            v: Meters(finite(r)),
            w: Rgb(1, gen_int(r) as u8, 255),
            x: (),
            y: some(r, |_| ()),
            z: many(r, |r| some(r, inner)),
            extra: 3,
            isize_: gen_int(r) as isize,
            usize_: gen_int(r) as usize,
        };
        rt(&x, e);
        rt(&vec![x.clone(), x], e);
        rt(&kind(r, 3), e);
        rt(&many(r, |r| kind(r, 2)), e);
        rt(&vec![Tagged::A, Tagged::B { x: gen_int(r) as i64, y: 1.5 }, Tagged::C(inner(r))], e);
        rt(&[Adjacent::A, Adjacent::B(gen_int(r) as u16), Adjacent::C { k: gen_str(r) }, Adjacent::D(7, false)], e);
        rt(&(many(r, |r| untagged(r, 2)), 1u8), e);
        rt(&Flat { a: gen_int(r) as i16, inner: inner(r), rest: [("x".to_string(), 5), ("some longer name, not shared".to_string(), gen_int(r) as i64)].into() }, e);
        rt(&Node { value: gen_str(r), next: some(r, |r| Box::new(Node { value: gen_str(r), next: None, nothing: Default::default() })), nothing: Default::default() }, e);
        rt(&Clear { inner: many(r, |r| gen_int(r) as i32) }, e);
        rt(&many(r, |r| Rgb(gen_int(r) as u8, 0, 1)), e);
        rt(&many(r, |r| (gen_key(r, 8), inner(r))).into_iter().collect::<HashMap<_, _>>(), e);
        rt(&many(r, |r| (gen_char(r), Some(gen_int(r) as i64))).into_iter().collect::<BTreeMap<_, _>>(), e);
        rt(&many(r, |r| gen_int(r) as i32).into_iter().collect::<BTreeSet<_>>(), e);
        rt(&many(r, gen_str).into_iter().collect::<HashSet<_>>(), e);
        rt(&many(r, gen_str).into_iter().collect::<VecDeque<_>>(), e);
        rt(&many(r, |r| r.chance(1, 2)).into_iter().collect::<LinkedList<_>>(), e);
        rt(&std::time::Duration::new(gen_int(r) as u64 >> 1, r.below(1_000_000_000) as u32), e);
        rt(&many(r, |r| -> Result<u32, String> { if r.chance(1, 2) { Ok(gen_int(r) as u32) } else { Err(gen_str(r)) } }), e);
        rt(&(std::net::IpAddr::from([1, 2, 3, r.below(256) as u8]), std::net::IpAddr::from([r.next() as u16; 8])), e);
        rt(&std::net::SocketAddr::from(([127, 0, 0, 1], r.next() as u16)), e);
        rt(&(3..r.below(100)), e);
        rt(&(std::ops::Bound::Included(5u8), std::ops::Bound::<i8>::Unbounded, 1..=gen_int(r) as i64), e);
        rt(&(std::num::NonZeroU16::new(gen_int(r) as u16 | 1).unwrap(), std::num::Wrapping(gen_int(r) as u32), std::cell::Cell::new(gen_int(r) as i8)), e);
        rt(&(std::path::PathBuf::from(gen_str(r)), Box::new(gen_str(r)), std::cmp::Reverse(4i64)), e);
        rt(&(gen_f32(r).to_bits(), [0u8; 0], [(); 2], ((), ((),))), e);
        rt(&[[[gen_int(r) as i64; 2]; 3]; 2], e);
        rt(&vec![json(r, 3), json(r, 2)], e);
        rt(&vec![(gen_data(r), gen_str(r).into_boxed_str(), many(r, |r| gen_int(r) as u64).into_boxed_slice())], e);
        rt(&vec![std::ffi::CString::new(ascii(r, 5)).unwrap()], e);
        rt(&(std::sync::atomic::AtomicBool::new(true).into_inner(), Some((1u8, Some(-2i8), None::<u64>))), e);
        rt(&(std::time::UNIX_EPOCH + std::time::Duration::from_secs(r.below(1 << 40) as u64)), e);
        rt(&Some(inner(r)), e);
        rt(&Some(many(r, |r| some(r, gen_str))), e);
    }
}
