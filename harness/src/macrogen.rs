//! Programs which use `fleece!`: the shapes come from TLC (MacroMC), keys and values are filled in here.

use crate::codec::S;
use crate::gen::{gen_coll, gen_keys, gen_typed};
use crate::tree::{bj, T};
use crate::util::Rng;
use std::fmt::Write;

/// The scalar as a Rust expression which is a single token tree.
fn expr(s: &S) -> String {
    match s {
        S::I8(v) => format!("({v}i8)"),
        S::I16(v) => format!("({v}i16)"),
        S::I32(v) if *v >= 0 => format!("{v}"),
        S::I32(v) => format!("({v})"),
        S::I64(v) => format!("({v}i64)"),
        S::Isize(v) => format!("({v}isize)"),
        S::U8(v) => format!("{v}u8"),
        S::U16(v) => format!("{v}u16"),
        S::U32(v) => format!("{v}u32"),
        S::U64(v) => format!("{v}u64"),
        S::Usize(v) => format!("{v}usize"),
        S::F32(v) => format!("(f32::from_bits({}))", v.to_bits()),
        S::F64(v) if v.is_finite() && v.is_sign_positive() => format!("{v:?}"),
        S::F64(v) => format!("(f64::from_bits({}))", v.to_bits()),
        S::Bool(b) => format!("{b}"),
        S::Null => "(fleece::encoder::NullValue)".into(),
        S::Undef => "(fleece::encoder::UndefinedValue)".into(),
        S::Str(s) => format!("{s:?}"),
        S::Data(d) => format!("(&[{}][..])", d.iter().map(|b| format!("{b}u8,")).collect::<String>()),
        S::None => "(None::<i64>)".into(),
        // as in S::write
        S::Some(s) if plain(s) => format!("(Some({}))", expr(s)),
        S::Ref(s) if plain(s) => format!("(&{})", expr(s)),
        S::Some(s) | S::Ref(s) => expr(s),
    }
}

fn plain(s: &S) -> bool {
    !matches!(s, S::Null | S::Undef | S::None | S::Some(_) | S::Ref(_))
}

/// The tokens of a literal, as in MacroLit: JSON and Rust text.
#[derive(Default)]
struct Program {
    before: String,
    json: Vec<String>,
    text: String,
    vars: usize,
}

impl Program {
    fn punct(&mut self, t: &str) {
        self.json.push(format!("[\"{t}\"]"));
        self.text.push_str(t);
    }
    fn key(&mut self, k: &str) {
        self.json.push(format!("[\"k\",{}]", bj(k.as_bytes())));
        let _ = write!(self.text, "{k:?}: ");
    }
    fn value(&mut self, s: &S, r: &mut Rng) {
        self.json.push(format!("[\"v\",{}]", s.tree().json()));
        if r.chance(1, 6) {
            // a variable of the macro's own name, too
            let x = if self.vars == 1 { "encoder".to_string() } else { format!("x{}", self.vars) };
            let _ = writeln!(self.before, "    let {x} = {};", expr(s));
            let _ = if r.chance(1, 3) { write!(self.text, "{{{x}}}") } else { write!(self.text, "{x}") };
            self.vars += 1;
        } else {
            self.text.push_str(&expr(s));
        }
    }
    /// A separator, which stands between any two items
    fn sep(&mut self) {
        self.text.push_str(", ");
    }
    fn tree(&mut self, t: &T, r: &mut Rng) {
        match t {
            T::Arr(v) => {
                self.punct("[");
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.sep();
                    }
                    self.tree(x, r);
                }
                if !v.is_empty() && r.chance(1, 3) {
                    self.punct(",");
                }
                self.punct("]");
            }
            T::Dict(v) => {
                self.punct("{");
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        self.sep();
                    }
                    self.key(std::str::from_utf8(k).unwrap());
                    self.tree(x, r);
                }
                if !v.is_empty() && r.chance(1, 3) {
                    self.punct(",");
                }
                self.punct("}");
            }
            s => {
                let s = S::of_tree(s, r);
                self.value(&s, r);
            }
        }
    }
}

/// `shapes`: one literal per line, its tokens as JSON strings.
pub fn generate(shapes: &[String], scale: usize, r: &mut Rng) -> String {
    let mut programs = vec![];
    for line in shapes {
        let toks: Vec<String> = serde_json::from_str(line).expect("tokens");
        let mut p = Program::default();
        let style = r.below(8);
        let mut keys = gen_keys(r, toks.len(), style);
        if r.chance(1, 12) {
            keys = keys.iter().map(|_| keys[0].clone()).collect();
        }
        for (i, t) in toks.iter().enumerate() {
            // two items in a row are separated
            if i > 0 && matches!(t.as_str(), "k" | "v" | "{" | "[") && matches!(toks[i - 1].as_str(), "v" | "}" | "]") {
                p.sep();
            }
            match t.as_str() {
                "k" => {
                    let k = keys.pop().unwrap();
                    p.key(&k);
                }
                "v" => {
                    let n = r.below(18);
                    let s = gen_typed(r, n);
                    p.value(&s, r);
                }
                t => p.punct(t),
            }
        }
        programs.push(p);
    }
    for _ in 0..12 * scale {
        let mut budget = 40;
        let mut p = Program::default();
        let mut t = gen_coll(r, 5, &mut budget);
        if t == T::Arr(vec![]) {
            // fleece![] cannot be told from fleece!{}
            t = T::Dict(vec![]);
        }
        p.tree(&t, r);
        programs.push(p);
    }
    // deep ones
    for _ in 0..2 * scale {
        let mut t = T::Arr(vec![]);
        for i in 0..r.range(20, 45) {
            t = match r.below(3) {
                0 => T::Arr(vec![t]),
                1 => T::Arr(vec![T::Int(i as i128), t, T::Int(-(i as i128))]),
                _ => T::Dict(vec![(b"in".to_vec(), t), (b"after".to_vec(), T::Int(i as i128))]),
            };
        }
        let mut p = Program::default();
        p.tree(&t, r);
        programs.push(p);
    }
    let mut o = String::from("use fleece::{fleece, Encoder};\n");
    for (i, p) in programs.iter().enumerate() {
        let _ = writeln!(o, "fn p{i}() -> T {{\n{}    literal(&*fleece!{})\n}}", p.before, p.text);
    }
    o.push_str("pub const PROGRAMS: &[(&str, fn() -> T)] = &[\n");
    for (i, p) in programs.iter().enumerate() {
        let _ = writeln!(o, "    ({:?}, p{i}),", format!("[{}]", p.json.join(",")));
    }
    o.push_str("];\n");
    o
}

