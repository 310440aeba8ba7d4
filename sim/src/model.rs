//! The serde data model as data: types, values, their generation, serialization and deserialization.
use crate::alloc::harness;
use crate::src::{Expand, Src};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    Error as _, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant,
    SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer,
};
use std::cell::{Cell, RefCell};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Unit, Bool, I(u8), U(u8), F32, F64, Char,
    /// deserialized with deserialize_string when true, deserialize_str otherwise
    Str(bool),
    /// serialized with collect_str, the display output chopped as the number says
    Disp(u8),
    Bytes(bool),
    Opt(Box<Ty>), UnitStruct, New(Box<Ty>), Seq(Box<Ty>), Tuple(Vec<Ty>), TupleStruct(Vec<Ty>),
    Map(Box<Ty>, Box<Ty>), Struct(Box<Def>), Enum(Vec<Var>), Any, Ignored,
    /// an IPv4 address of the standard library: text in human readable formats, four bytes in others
    Hum,
}
pub fn ip(i: i128) -> std::net::Ipv4Addr { std::net::Ipv4Addr::from(i as u32) }
#[derive(Debug, Clone, PartialEq)]
pub struct Def { pub fields: Vec<Field> }
#[derive(Debug, Clone, PartialEq)]
pub struct Field {
    pub name: &'static str,
    pub ty: Ty,
    /// may be absent (skipped by the sender, defaulted by the receiver)
    pub opt: bool,
    /// index of the field in index-keyed messages
    pub idx: u32,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Var { pub idx: u32, pub name: &'static str, pub kind: VKind }
#[derive(Debug, Clone, PartialEq)]
pub enum VKind { Unit, New(Ty), Tuple(Vec<Ty>), Struct(Def) }

#[derive(Debug, Clone)]
pub enum Val {
    Unit, Bool(bool), Int(i128), F32(f32), F64(f64), Char(char), Str(String), Bytes(Vec<u8>),
    None, Some(Box<Val>), New(Box<Val>), Seq(Vec<Val>), Map(Vec<(Val, Val)>),
    /// one entry per field of the definition
    Struct(Vec<Option<Val>>),
    /// position of the variant in the definition, payload (Unit for unit variants)
    Enum(usize, Box<Val>),
    Tree(Tree), Ignored,
}

/// What a self-describing decoder sees.
#[derive(Debug, Clone)]
pub enum Tree {
    Nil, Bool(bool), Int(i128), F32(f32), F64(f64), Str(Vec<u8>), Bin(Vec<u8>),
    Arr(Vec<Tree>), Map(Vec<(Tree, Tree)>), Ext(u8, Vec<u8>),
}

fn feq32(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
fn feq64(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }

impl PartialEq for Tree {
    fn eq(&self, o: &Tree) -> bool {
        use Tree::*;
        match (self, o) {
            (Nil, Nil) => true,
            (Bool(a), Bool(b)) => a == b,
            (Int(a), Int(b)) => a == b,
            (F32(a), F32(b)) => feq32(*a, *b),
            (F64(a), F64(b)) => feq64(*a, *b),
            (Str(a), Str(b)) | (Bin(a), Bin(b)) => a == b,
            (Arr(a), Arr(b)) => a == b,
            (Map(a), Map(b)) => a == b,
            (Ext(a, x), Ext(b, y)) => a == b && x == y,
            _ => false,
        }
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Unit, Unit) | (None, None) | (Ignored, Ignored) => true,
            (Bool(a), Bool(b)) => a == b,
            (Int(a), Int(b)) => a == b,
            (F32(a), F32(b)) => feq32(*a, *b),
            (F64(a), F64(b)) => feq64(*a, *b),
            (Char(a), Char(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (Some(a), Some(b)) | (New(a), New(b)) => a == b,
            (Seq(a), Seq(b)) => a == b,
            (Map(a), Map(b)) => a == b,
            (Struct(a), Struct(b)) => a == b,
            (Enum(i, a), Enum(j, b)) => i == j && a == b,
            (Tree(a), Tree(b)) => a == b,
            _ => false,
        }
    }
}

// ------------------------------------------------------------------------------------------ names

pub fn names() -> &'static [&'static str] {
    use std::sync::OnceLock;
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    N.get_or_init(|| {
        let mut v: Vec<&'static str> = vec![
            "a", "b", "id", "name", "value", "payload", "x", "y", "kind", "ts", "a_rather_long_field_name",
            "exactly_thirty_one_characters__", "exactly_thirty_two_characters___", "żółć", "日本", "q\"uote",
            "back\\slash", "tab\there", "", "0", "12", "true", "null", "😀", "nl\n", "ctl\u{1}", "a/b", " space ",
        ];
        let long: String = "L".repeat(255);
        v.push(Box::leak(long.into_boxed_str()));
        let long: String = "M".repeat(256);
        v.push(Box::leak(long.into_boxed_str()));
        for i in 0..300 { v.push(Box::leak(format!("f{i}").into_boxed_str())); }
        v
    })
}

// -------------------------------------------------------------------------------------- generation

#[derive(Clone, Copy)]
pub struct Gen {
    pub json: bool,
    /// permit collect_str text
    pub disp: bool,
    /// permit big (>= 64 KiB) content
    pub big: bool,
    pub max_depth: u32,
    /// permit bytes
    pub bytes: bool,
    /// permit fields that are skipped
    pub skips: bool,
    pub floats: bool,
}
impl Gen {
    pub fn new(json: bool) -> Gen { Gen { json, disp: true, big: true, max_depth: 4, bytes: true, skips: true, floats: true } }
}

/// Types whose encoding can look like "nothing": an Option around them is ambiguous by design.
pub fn nullable(t: &Ty, json: bool) -> bool {
    match t {
        Ty::Unit | Ty::UnitStruct | Ty::Opt(_) | Ty::Any | Ty::Ignored => true,
        Ty::F32 | Ty::F64 => json,
        Ty::New(t) => nullable(t, json),
        _ => false,
    }
}

pub fn gen_scalar_ty(s: &mut Src, g: Gen) -> Ty {
    match s.weighted(&[3, 2, 4, 4, 2, 2, 2, 5, 2, 4, 1, 1, 1]) {
        0 => Ty::U(8),
        12 => Ty::Hum,
        1 => Ty::Bool,
        2 => Ty::I(*s.pick(&[8, 16, 32, 64])),
        3 => Ty::U(*s.pick(&[8, 16, 32, 64])),
        4 => if g.floats { Ty::F32 } else { Ty::U(32) },
        5 => if g.floats { Ty::F64 } else { Ty::I(32) },
        6 => Ty::Char,
        7 => Ty::Str(s.bool()),
        8 => if g.disp { Ty::Disp(s.draw(8) as u8) } else { Ty::Str(s.bool()) },
        9 => if g.bytes { Ty::Bytes(s.bool()) } else { Ty::Str(s.bool()) },
        10 => Ty::Unit,
        _ => Ty::UnitStruct,
    }
}

pub fn gen_key_ty(s: &mut Src, g: Gen, depth: u32) -> Ty {
    match s.weighted(&[4, 3, 3, 1, 1, 1, 1, 1]) {
        0 => Ty::Str(s.bool()),
        1 => Ty::U(*s.pick(&[8, 16, 32, 64])),
        2 => Ty::I(*s.pick(&[8, 16, 32, 64])),
        3 => Ty::Bool,
        4 => Ty::Char,
        5 => {
            let n = s.range(1, 3);
            Ty::Enum(gen_vars(s, g, n, 0, true))
        }
        6 => Ty::New(Box::new(if depth > 0 { gen_key_ty(s, g, depth - 1) } else { Ty::U(16) })),
        _ => if g.json || depth == 0 { Ty::Str(false) } else { gen_ty(s, g, depth.min(1)) },
    }
}

fn gen_vars(s: &mut Src, g: Gen, n: usize, depth: u32, unit_only: bool) -> Vec<Var> {
    let base = *s.pick(&[0u32, 0, 0, 126, 254, 255, 65534, 65535, 0x7fff_ffff, 0xffff_fff0]);
    let nb = s.usize(names().len() - 8);
    (0..n).map(|i| Var {
        idx: base + i as u32,
        name: names()[nb + i],
        kind: if unit_only || depth == 0 { VKind::Unit } else {
            match s.draw(4) {
                0 => VKind::Unit,
                1 => VKind::New(gen_ty(s, g, depth - 1)),
                2 => { let k = s.range(0, 4); VKind::Tuple((0..k).map(|_| gen_ty(s, g, depth - 1)).collect()) }
                _ => VKind::Struct(gen_def(s, g, depth - 1)),
            }
        },
    }).collect()
}

pub fn gen_def(s: &mut Src, g: Gen, depth: u32) -> Def {
    let n = match s.weighted(&[8, 30, 3, 1]) {
        0 => 0,
        1 => s.range(1, 5),
        2 => s.range(14, 18),
        _ => if g.big { s.range(126, 132) } else { s.range(14, 18) },
    };
    let nb = s.usize(names().len() - n - 1);
    let mut idx = 0u32;
    let gaps = g.skips && n < 20 && s.chance(1, 24);
    let small = n > 6;
    let fields = (0..n).map(|i| {
        if gaps && s.chance(1, 2) { idx += *s.pick(&[1u32, 2, 120, 250, 65530]); }
        let ty = if small { gen_scalar_ty(s, g) } else { gen_ty(s, g, depth) };
        let f = Field { name: names()[nb + i], ty, opt: g.skips && s.chance(1, 5), idx };
        idx += 1;
        f
    }).collect();
    Def { fields }
}

pub fn gen_ty(s: &mut Src, g: Gen, depth: u32) -> Ty {
    if depth == 0 { return gen_scalar_ty(s, g) }
    let d = depth - 1;
    match s.weighted(&[10, 3, 2, 6, 3, 1, 5, 7, 4]) {
        0 => gen_scalar_ty(s, g),
        1 => {
            let t = gen_ty(s, g, d);
            if nullable(&t, g.json) { Ty::Opt(Box::new(Ty::U(32))) } else { Ty::Opt(Box::new(t)) }
        }
        2 => Ty::New(Box::new(gen_ty(s, g, d))),
        3 => Ty::Seq(Box::new(gen_ty(s, g, d))),
        4 => { let n = s.range(0, 4); Ty::Tuple((0..n).map(|_| gen_ty(s, g, d)).collect()) }
        5 => { let n = s.range(0, 4); Ty::TupleStruct((0..n).map(|_| gen_ty(s, g, d)).collect()) }
        6 => Ty::Map(Box::new(gen_key_ty(s, g, d)), Box::new(gen_ty(s, g, d))),
        7 => Ty::Struct(Box::new(gen_def(s, g, d))),
        _ => { let n = s.range(1, 4); Ty::Enum(gen_vars(s, g, n, d, false)) }
    }
}

pub const INT_EDGES: &[i128] = &[
    0, 1, 2, 9, 10, 15, 16, 31, 32, 99, 100, 126, 127, 128, 129, 254, 255, 256, 257, 999, 1000, 32766, 32767, 32768, 32769, 65534, 65535,
    65536, 65537, 99999, 100000, 2147483646, 2147483647, 2147483648, 2147483649, 4294967294, 4294967295, 4294967296,
    4294967297, 999999999999999999, 1000000000000000000, 9223372036854775806, 9223372036854775807,
    9223372036854775808, 18446744073709551614, 18446744073709551615,
    9999999999999999999, 10000000000000000000, 9007199254740993, 16777217,
];

pub fn int_range(signed: bool, bits: u8) -> (i128, i128) {
    if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) }
}

pub fn gen_int(s: &mut Src, signed: bool, bits: u8) -> i128 {
    let (lo, hi) = int_range(signed, bits);
    let v = match s.draw(3) {
        0 => INT_EDGES[s.usize(INT_EDGES.len())],
        1 => -(INT_EDGES[s.usize(INT_EDGES.len())] + s.draw(2) as i128),
        _ => {
            let w = s.range(1, bits as usize) as u32;
            let r = s.draw(0) as i128 & ((1i128 << w) - 1);
            if signed && s.bool() { -r } else { r }
        }
    };
    if v < lo || v > hi {
        // wrap into range deterministically
        let span = hi - lo + 1;
        lo + (v - lo).rem_euclid(span)
    } else { v }
}

const F64_EDGES: &[f64] = &[
    0.0, 1.0, -1.0, 0.5, -0.25, 0.1, 0.2, 1.0 / 3.0, 100.0, 123456.789, 1e15, 1e16, 1e17, 1e18, 1.8446744073709552e19, 1e20, 9.99e20, 1e21, 1e22, 1e-5,
    1e-6, 1e-7, 1.5e-9, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 3.4028234663852886e38,
    9007199254740993.0, 4294967296.0, -9.223372036854776e18, -1e19, 16777217.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0,
];

pub fn gen_f64(s: &mut Src) -> f64 {
    match s.draw(4) {
        0 => F64_EDGES[s.usize(F64_EDGES.len())],
        1 => s.draw(2000) as f64 - 1000.0,
        2 => (s.draw(20_000_000) as f64 - 1e7) / *s.pick(&[10.0, 100.0, 1000.0, 8.0, 1e9]),
        _ => f64::from_bits(s.draw(0)),
    }
}
pub fn gen_f32(s: &mut Src) -> f32 {
    match s.draw(3) {
        0 => gen_f64(s) as f32,
        1 => (s.draw(20_000) as f32 - 1e4) / *s.pick(&[10.0, 100.0, 8.0]),
        _ => f32::from_bits(s.draw(1 << 32) as u32),
    }
}

pub fn gen_char(s: &mut Src) -> char {
    let c = match s.weighted(&[4, 3, 2, 2, 2, 2]) {
        0 => b'a' as u32 + s.draw(26) as u32,
        1 => *s.pick(&[0x22u32, 0x5c, 0x2f, 0x20, 0x7f, 0x7e, 0x3d, 0x2c, 0x3a, 0x7b, 0x7d, 0x5b, 0x5d]),
        2 => s.draw(0x20) as u32,
        3 => *s.pick(&[0x80u32, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x2028, 0x1f600]),
        4 => 0x80 + s.draw(0x2000) as u32,
        _ => s.draw(0x11_0000) as u32,
    };
    char::from_u32(c).unwrap_or('\u{fffd}')
}

pub fn gen_len(s: &mut Src, big: bool) -> usize {
    match s.weighted(&[40, 20, 8, if big { 2 } else { 0 }]) {
        0 => s.range(0, 6),
        1 => s.range(0, 40),
        2 => *s.pick(&[14, 15, 16, 17, 30, 31, 32, 33, 126, 127, 128, 129, 254, 255, 256, 257, 300, 1000]),
        _ => *s.pick(&[65534, 65535, 65536, 65537, 70000]),
    }
}

fn expand_char(e: &mut Expand, style: u64) -> char {
    let plain = |e: &mut Expand| (b' ' + e.below(95) as u8) as char;
    match style {
        0 => 'a',
        1 => plain(e),
        2 => match e.below(3) {
            0 => *['"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}'].get(e.below(8) as usize).unwrap(),
            1 => (e.below(0x20) as u8) as char,
            _ => plain(e),
        },
        3 => char::from_u32(0x80 + e.below(0x800) as u32).unwrap_or('é'),
        4 => char::from_u32(e.below(0x11_0000) as u32).unwrap_or('\u{10FFFF}'),
        5 => *['0', '1', '9', 'a', 'f', 'A', 'F', 'z', '+', '/', '=', '"', ']', '}', ',', ':', '{', '[', ' ']
            .get(e.below(19) as usize).unwrap(),
        6 => if e.below(8) == 0 { '\\' } else if e.below(5) == 0 { '"' } else { '\\' },
        _ => match e.below(4) {
            0 => plain(e),
            1 => char::from_u32(e.below(0x20) as u32).unwrap(),
            2 => char::from_u32(0x80 + e.below(0x10_000) as u32).unwrap_or('ż'),
            _ => if e.below(2) == 0 { '"' } else { '\\' },
        },
    }
}

/// Text of about `len` bytes (exactly `len` unless multi-byte characters overshoot).
pub fn gen_string(s: &mut Src, big: bool) -> String {
    let len = gen_len(s, big);
    let style = s.draw(8);
    let mut e = Expand::new(s.draw(0));
    let mut out = String::with_capacity(len + 4);
    while out.len() < len {
        let c = expand_char(&mut e, style);
        if out.len() + c.len_utf8() > len { out.push('.') } else { out.push(c) }
    }
    out
}

pub fn gen_bytes(s: &mut Src, big: bool) -> Vec<u8> {
    let len = gen_len(s, big);
    let style = s.draw(4);
    let mut e = Expand::new(s.draw(0));
    (0..len).map(|i| match style {
        0 => 0,
        1 => e.next() as u8,
        2 => i as u8,
        _ => *[0xffu8, 0, 0x22, 0x5c, 0x5d, 0x7f, 0x80, 9, 10, 99, 100, 255].get(e.below(12) as usize).unwrap(),
    }).collect()
}

pub struct Budget(pub isize);

pub fn gen_val(s: &mut Src, t: &Ty, g: Gen, b: &mut Budget) -> Val {
    b.0 -= 1;
    let big = g.big && b.0 > 0;
    match t {
        Ty::Unit | Ty::UnitStruct => Val::Unit,
        Ty::Bool => Val::Bool(s.bool()),
        Ty::I(n) => Val::Int(gen_int(s, true, *n)),
        Ty::U(n) => Val::Int(gen_int(s, false, *n)),
        Ty::F32 => Val::F32(gen_f32(s)),
        Ty::F64 => Val::F64(gen_f64(s)),
        Ty::Char => Val::Char(gen_char(s)),
        Ty::Hum => Val::Int(*s.pick(&[0, 1, 0x7f00_0001, 0xffff_ffff, 0x0a0b_0c0d, 0xc0a8_ff80]) ^ s.draw(2) as i128),
        Ty::Str(_) | Ty::Disp(_) => { let v = gen_string(s, big); b.0 -= (v.len() / 200) as isize; Val::Str(v) }
        Ty::Bytes(_) => { let v = gen_bytes(s, big); b.0 -= (v.len() / 200) as isize; Val::Bytes(v) }
        Ty::Opt(t) => if s.bool() { Val::Some(Box::new(gen_val(s, t, g, b))) } else { Val::None },
        Ty::New(t) => Val::New(Box::new(gen_val(s, t, g, b))),
        Ty::Seq(t) => {
            let n = seq_len(s, t, g, b);
            Val::Seq(gen_many(s, t, g, b, n))
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => Val::Seq(ts.iter().map(|t| gen_val(s, t, g, b)).collect()),
        Ty::Map(k, v) => {
            let n = seq_len(s, v, g, b).min(70_000);
            let mut out: Vec<(Val, Val)> = Vec::new();
            if n > 40 {
                // many entries: keep choices few by counting keys up and repeating values
                let v0 = gen_many(s, v, g, b, 3);
                let n = repeats(&v0, n, b);
                for i in 0..n {
                    let key = gen_val_nth(k, i as u64);
                    out.push((key, v0[i % 3].clone()));
                }
            } else {
                for _ in 0..n { out.push((gen_val(s, k, g, b), gen_val(s, v, g, b))); }
            }
            Val::Map(out)
        }
        Ty::Struct(d) => gen_struct(s, d, g, b),
        Ty::Enum(vs) => {
            let i = s.usize(vs.len());
            let p = match &vs[i].kind {
                VKind::Unit => Val::Unit,
                VKind::New(t) => gen_val(s, t, g, b),
                VKind::Tuple(ts) => Val::Seq(ts.iter().map(|t| gen_val(s, t, g, b)).collect()),
                VKind::Struct(d) => gen_struct(s, d, g, b),
            };
            Val::Enum(i, Box::new(p))
        }
        Ty::Any | Ty::Ignored => Val::Unit,
    }
}

fn gen_struct(s: &mut Src, d: &Def, g: Gen, b: &mut Budget) -> Val {
    Val::Struct(d.fields.iter().map(|f| {
        if f.opt && s.chance(1, 3) { None } else { Some(gen_val(s, &f.ty, g, b)) }
    }).collect())
}

fn seq_len(s: &mut Src, t: &Ty, g: Gen, b: &mut Budget) -> usize {
    let scalar = matches!(t, Ty::Unit | Ty::Bool | Ty::I(_) | Ty::U(_) | Ty::F32 | Ty::F64 | Ty::Char);
    if b.0 <= 0 { return s.usize(2) }
    match s.weighted(&[40, 10, 3, if g.big && scalar { 1 } else { 0 }]) {
        0 => s.range(0, 4),
        1 => s.range(0, 18),
        2 => *s.pick(&[14, 15, 16, 17, 31, 32, 255, 256]),
        _ => *s.pick(&[65534, 65535, 65536, 65540]),
    }
}

fn gen_many(s: &mut Src, t: &Ty, g: Gen, b: &mut Budget, n: usize) -> Vec<Val> {
    if n <= 40 { return (0..n).map(|_| gen_val(s, t, g, b)).collect() }
    let some: Vec<Val> = (0..7).map(|_| gen_val(s, t, Gen { big: false, ..g }, b)).collect();
    let n = repeats(&some, n, b);
    (0..n).map(|i| some[i % 7].clone()).collect()
}

/// How often values can be repeated without the whole growing out of bounds.
fn repeats(some: &[Val], n: usize, b: &mut Budget) -> usize {
    let w = some.iter().map(weight).sum::<usize>() / some.len() + 1;
    let n = n.min((600_000 / w).max(7));
    b.0 -= (n * w / 16) as isize;
    n
}
pub fn weight(v: &Val) -> usize {
    1 + match v {
        Val::Str(s) => s.len(),
        Val::Bytes(b) => b.len(),
        Val::Some(v) | Val::New(v) | Val::Enum(_, v) => weight(v),
        Val::Seq(v) => v.iter().map(weight).sum(),
        Val::Map(m) => m.iter().map(|(a, b)| weight(a) + weight(b)).sum(),
        Val::Struct(v) => v.iter().flatten().map(|v| 4 + weight(v)).sum(),
        _ => 0,
    }
}

/// The n-th key of a key type (not necessarily distinct for small types).
fn gen_val_nth(t: &Ty, i: u64) -> Val {
    match t {
        Ty::I(8) => Val::Int((i as i8) as i128),
        Ty::U(8) => Val::Int((i as u8) as i128),
        Ty::I(16) => Val::Int((i as i16) as i128),
        Ty::U(16) => Val::Int((i as u16) as i128),
        Ty::I(_) => Val::Int(i as i128 - 1000),
        Ty::U(_) => Val::Int(i as i128),
        Ty::Bool => Val::Bool(i % 2 == 1),
        Ty::Char => Val::Char(char::from_u32(0x20 + i as u32).unwrap_or('x')),
        Ty::Hum => Val::Int(i as u32 as i128),
        Ty::Str(_) | Ty::Disp(_) => Val::Str(format!("{i}")),
        Ty::New(t) => Val::New(Box::new(gen_val_nth(t, i))),
        Ty::Enum(vs) => {
            let i = i as usize % vs.len();
            match vs[i].kind { VKind::Unit => Val::Enum(i, Box::new(Val::Unit)), _ => zero_val(t) }
        }
        _ => zero_val(t),
    }
}

pub fn zero_val(t: &Ty) -> Val {
    let mut s = Src::from_choices(vec![]);
    gen_val(&mut s, t, Gen { big: false, ..Gen::new(true) }, &mut Budget(4))
}

/// One value with its type, of bounded size.
pub fn gen_typed(s: &mut Src, g: Gen) -> (Ty, Val) {
    if g.max_depth >= 4 && s.chance(1, 400) {
        // one thing wrapped in many
        let n = s.range(5, 120);
        let mut t = gen_scalar_ty(s, g);
        let mut v = gen_val(s, &t, g, &mut Budget(10));
        for _ in 0..n { (t, v) = wrap(s, g, t, v); }
        return (t, v)
    }
    let d = s.usize(g.max_depth as usize + 1) as u32;
    let t = gen_ty(s, g, d);
    let v = gen_val(s, &t, g, &mut Budget(120));
    (t, v)
}

fn wrap(s: &mut Src, g: Gen, t: Ty, v: Val) -> (Ty, Val) {
    let name = names()[s.usize(12)];
    match s.draw(8) {
        0 if !nullable(&t, g.json) => (Ty::Opt(Box::new(t)), Val::Some(Box::new(v))),
        0 | 1 => (Ty::New(Box::new(t)), Val::New(Box::new(v))),
        2 => (Ty::Seq(Box::new(t)), Val::Seq(vec![v])),
        3 => (Ty::Tuple(vec![Ty::U(8), t]), Val::Seq(vec![Val::Int(7), v])),
        4 => (Ty::Map(Box::new(Ty::Str(false)), Box::new(t)), Val::Map(vec![(Val::Str(name.to_string()), v)])),
        5 => (Ty::Struct(Box::new(Def { fields: vec![Field { name, ty: t, opt: false, idx: 0 }] })), Val::Struct(vec![Some(v)])),
        6 => (Ty::Enum(vec![Var { idx: 0, name, kind: VKind::New(t) }]), Val::Enum(0, Box::new(v))),
        _ => (Ty::Enum(vec![Var { idx: 0, name, kind: VKind::Tuple(vec![t, Ty::Bool]) }]), Val::Enum(0, Box::new(Val::Seq(vec![v, Val::Bool(true)])))),
    }
}

// ------------------------------------------------------------------------------------ serialization

/// Deliberate misbehaviour of a value, by container/text site in serialization order.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Lie {
    /// declared length = real length + delta (saturating at 0)
    Delta(i64),
    /// declared length is the given number
    Abs(usize),
    /// declares no length
    Unknown,
    /// fails with a custom error after emitting this many items
    FailAfter(usize),
    /// calls skip_field for this field although it was counted
    SkipCounted(usize),
    /// the display text of the n-th formatting is longer (positive) or shorter (negative)
    Unstable(i64),
    /// display returns an error after its first piece
    FmtErr,
}

thread_local! {
    static LIES_ON: Cell<bool> = const { Cell::new(false) };
    static SITE: Cell<usize> = const { Cell::new(0) };
    static LIES: RefCell<Vec<(usize, Lie)>> = const { RefCell::new(Vec::new()) };
    static TOLD: Cell<u32> = const { Cell::new(0) };
    static IN_DISP: Cell<bool> = const { Cell::new(false) };
}
/// Is a display formatter of the value being run right now?
pub fn in_display() -> bool { IN_DISP.with(|d| d.get()) }

pub struct LieGuard;
impl Drop for LieGuard { fn drop(&mut self) { LIES_ON.with(|l| l.set(false)); } }
/// Arms the misbehaviour plan until the guard is dropped.
pub fn lies(plan: Vec<(usize, Lie)>) -> LieGuard {
    LIES.with(|l| *l.borrow_mut() = plan);
    SITE.with(|s| s.set(0));
    TOLD.with(|s| s.set(0));
    LIES_ON.with(|l| l.set(true));
    LieGuard
}
pub fn lie_sites() -> usize { SITE.with(|s| s.get()) }
pub fn lies_told() -> u32 { TOLD.with(|s| s.get()) }
fn told() { TOLD.with(|s| s.set(s.get() + 1)) }

#[inline]
fn lie() -> Option<Lie> {
    if !LIES_ON.with(|l| l.get()) { return None }
    let site = SITE.with(|s| { let v = s.get(); s.set(v + 1); v });
    LIES.with(|l| l.borrow().iter().find(|(n, _)| *n == site).map(|(_, l)| *l))
}

fn declared(real: usize, l: Option<Lie>) -> usize {
    match l {
        Some(Lie::Delta(d)) => { let v = if d < 0 { real.saturating_sub((-d) as usize) } else { real.saturating_add(d as usize) }; if v != real { told() } v }
        Some(Lie::Abs(n)) => { if n != real { told() } n }
        _ => real,
    }
}
fn declared_opt(real: usize, l: Option<Lie>) -> Option<usize> {
    match l { Some(Lie::Unknown) => { told(); None } _ => Some(declared(real, l)) }
}
fn fail_at(l: Option<Lie>) -> usize { match l { Some(Lie::FailAfter(n)) => n, _ => usize::MAX } }

/// Display whose output arrives in pieces.
pub struct Pieces<'a> { pub text: &'a str, pub mode: u8, pub lie: Option<Lie>, pub calls: Cell<u32> }
impl fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        struct G;
        impl Drop for G { fn drop(&mut self) { IN_DISP.with(|d| d.set(false)) } }
        IN_DISP.with(|d| d.set(true));
        let _g = G;
        let call = self.calls.get();
        self.calls.set(call + 1);
        let mut t = self.text;
        match self.lie {
            Some(Lie::Unstable(d)) if call > 0 => {
                if d > 0 { told(); for _ in 0..d { f.write_str("#")?; } }
                else {
                    let mut cut = t.len().saturating_sub((-d) as usize);
                    while !t.is_char_boundary(cut) { cut -= 1 }
                    if cut != t.len() { told() }
                    t = &t[..cut];
                }
            }
            Some(Lie::FmtErr) => { told(); f.write_str(&t[..t.char_indices().nth(1).map(|x| x.0).unwrap_or(t.len())])?; return Err(fmt::Error) }
            _ => {}
        }
        match self.mode {
            0 => f.write_str(t),
            1 => { use fmt::Write; for c in t.chars() { f.write_char(c)?; } Ok(()) }
            2 => f.pad(t),
            n => {
                // pieces of about n characters, with empty pieces in between
                let step = n as usize;
                let mut rest = t;
                while !rest.is_empty() {
                    let cut = rest.char_indices().nth(step).map(|x| x.0).unwrap_or(rest.len());
                    f.write_str(&rest[..cut])?;
                    if n & 1 == 1 { f.write_str("")?; }
                    rest = &rest[cut..];
                }
                Ok(())
            }
        }
    }
}

pub struct S<'a>(pub &'a Ty, pub &'a Val);

impl Serialize for S<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match (self.0, self.1) {
            (Ty::Unit, _) => z.serialize_unit(),
            (Ty::UnitStruct, _) => z.serialize_unit_struct("UnitStruct"),
            (Ty::Bool, Val::Bool(b)) => z.serialize_bool(*b),
            (Ty::I(8), Val::Int(i)) => z.serialize_i8(*i as i8),
            (Ty::I(16), Val::Int(i)) => z.serialize_i16(*i as i16),
            (Ty::I(32), Val::Int(i)) => z.serialize_i32(*i as i32),
            (Ty::I(_), Val::Int(i)) => z.serialize_i64(*i as i64),
            (Ty::U(8), Val::Int(i)) => z.serialize_u8(*i as u8),
            (Ty::U(16), Val::Int(i)) => z.serialize_u16(*i as u16),
            (Ty::U(32), Val::Int(i)) => z.serialize_u32(*i as u32),
            (Ty::U(_), Val::Int(i)) => z.serialize_u64(*i as u64),
            (Ty::F32, Val::F32(f)) => z.serialize_f32(*f),
            (Ty::F64, Val::F64(f)) => z.serialize_f64(*f),
            (Ty::Char, Val::Char(c)) => z.serialize_char(*c),
            (Ty::Hum, Val::Int(i)) => ip(*i).serialize(z),
            (Ty::Str(_), Val::Str(s)) => z.serialize_str(s),
            (Ty::Disp(m), Val::Str(s)) => {
                let l = lie();
                z.collect_str(&Pieces { text: s, mode: *m, lie: l, calls: Cell::new(0) })
            }
            (Ty::Bytes(_), Val::Bytes(b)) => z.serialize_bytes(b),
            (Ty::Opt(_), Val::None) => z.serialize_none(),
            (Ty::Opt(t), Val::Some(v)) => z.serialize_some(&S(t, v)),
            (Ty::New(t), Val::New(v)) => z.serialize_newtype_struct("New", &S(t, v)),
            (Ty::Seq(t), Val::Seq(v)) => {
                let l = lie();
                let mut q = z.serialize_seq(declared_opt(v.len(), l))?;
                for (i, x) in v.iter().enumerate() {
                    if i == fail_at(l) { told(); return Err(Z::Error::custom("value failed")) }
                    q.serialize_element(&S(t, x))?;
                }
                if v.len() <= fail_at(l) && fail_at(l) != usize::MAX { told(); return Err(Z::Error::custom("value failed")) }
                q.end()
            }
            (Ty::Tuple(ts), Val::Seq(v)) => {
                let l = lie();
                let mut q = z.serialize_tuple(declared(v.len(), l))?;
                for (i, (t, x)) in ts.iter().zip(v).enumerate() {
                    if i == fail_at(l) { told(); return Err(Z::Error::custom("value failed")) }
                    q.serialize_element(&S(t, x))?;
                }
                q.end()
            }
            (Ty::TupleStruct(ts), Val::Seq(v)) => {
                let l = lie();
                let mut q = z.serialize_tuple_struct("TupleStruct", declared(v.len(), l))?;
                for (i, (t, x)) in ts.iter().zip(v).enumerate() {
                    if i == fail_at(l) { told(); return Err(Z::Error::custom("value failed")) }
                    q.serialize_field(&S(t, x))?;
                }
                q.end()
            }
            (Ty::Map(kt, vt), Val::Map(v)) => {
                let l = lie();
                let mut q = z.serialize_map(declared_opt(v.len(), l))?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i == fail_at(l) { told(); return Err(Z::Error::custom("value failed")) }
                    if i % 2 == 0 { q.serialize_entry(&S(kt, k), &S(vt, x))?; }
                    else { q.serialize_key(&S(kt, k))?; q.serialize_value(&S(vt, x))?; }
                }
                q.end()
            }
            (Ty::Struct(d), Val::Struct(v)) => {
                let l = lie();
                let n = v.iter().filter(|x| x.is_some()).count();
                let mut q = z.serialize_struct("Struct", declared(n, l))?;
                let mut idx = 0;
                for (i, (f, x)) in d.fields.iter().zip(v).enumerate() {
                    if i == fail_at(l) { told(); return Err(Z::Error::custom("value failed")) }
                    while idx < f.idx { q.skip_field("gap")?; idx += 1; }
                    match x {
                        Some(x) if l == Some(Lie::SkipCounted(i)) => { let _ = x; told(); q.skip_field(f.name)? }
                        Some(x) => q.serialize_field(f.name, &S(&f.ty, x))?,
                        None => q.skip_field(f.name)?,
                    }
                    idx += 1;
                }
                q.end()
            }
            (Ty::Enum(vs), Val::Enum(i, p)) => {
                let var = &vs[*i];
                match (&var.kind, &**p) {
                    (VKind::Unit, _) => z.serialize_unit_variant("Enum", var.idx, var.name),
                    (VKind::New(t), p) => z.serialize_newtype_variant("Enum", var.idx, var.name, &S(t, p)),
                    (VKind::Tuple(ts), Val::Seq(v)) => {
                        let l = lie();
                        let mut q = z.serialize_tuple_variant("Enum", var.idx, var.name, declared(v.len(), l))?;
                        for (i, (t, x)) in ts.iter().zip(v).enumerate() {
                            if i == fail_at(l) { told(); return Err(Z::Error::custom("value failed")) }
                            q.serialize_field(&S(t, x))?;
                        }
                        q.end()
                    }
                    (VKind::Struct(d), Val::Struct(v)) => {
                        let l = lie();
                        let n = v.iter().filter(|x| x.is_some()).count();
                        let mut q = z.serialize_struct_variant("Enum", var.idx, var.name, declared(n, l))?;
                        let mut idx = 0;
                        for (i, (f, x)) in d.fields.iter().zip(v).enumerate() {
                            if i == fail_at(l) { told(); return Err(Z::Error::custom("value failed")) }
                            while idx < f.idx { q.skip_field("gap")?; idx += 1; }
                            match x {
                                Some(_) if l == Some(Lie::SkipCounted(i)) => { told(); q.skip_field(f.name)? }
                                Some(x) => q.serialize_field(f.name, &S(&f.ty, x))?,
                                None => q.skip_field(f.name)?,
                            }
                            idx += 1;
                        }
                        q.end()
                    }
                    _ => panic!("harness: variant payload"),
                }
            }
            (t, v) => panic!("harness: value {v:?} of type {t:?}"),
        }
    }
}

// ---------------------------------------------------------------------------------- deserialization

thread_local! {
    static CUR_TY: Cell<*const Ty> = const { Cell::new(std::ptr::null()) };
    static BORROWS: RefCell<Vec<(usize, Vec<u8>)>> = const { RefCell::new(Vec::new()) };
    static BORROW_ON: Cell<bool> = const { Cell::new(false) };
    static BAD_TEXT: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}

/// Text handed to a visitor that is not valid UTF-8, if there was any since the last call.
pub fn take_bad_text() -> Option<Vec<u8>> { BAD_TEXT.with(|b| b.borrow_mut().take()) }
fn inspect(s: &str) {
    // the bytes are looked at as bytes: a broken `str` must not mislead the check
    let b: &[u8] = std::hint::black_box(s.as_bytes());
    if std::str::from_utf8(b).is_err() { harness(|| BAD_TEXT.with(|x| *x.borrow_mut() = Some(b.to_vec()))) }
}

/// Slices lent out by the decoder since the last call, with the content each had when lent.
pub fn take_borrows() -> Vec<(usize, Vec<u8>)> {
    BORROW_ON.with(|b| b.set(true));
    BORROWS.with(|b| std::mem::take(&mut *b.borrow_mut()))
}
fn lent(b: &[u8]) {
    if BORROW_ON.with(|b| b.get()) {
        harness(|| BORROWS.with(|v| v.borrow_mut().push((b.as_ptr() as usize, b.to_vec()))))
    }
}

/// Makes `f` deserialize `Dyn` as the given type.
pub fn with_ty<R>(t: &Ty, f: impl FnOnce() -> R) -> R {
    let old = CUR_TY.with(|c| c.replace(t as *const Ty));
    struct G(*const Ty);
    impl Drop for G { fn drop(&mut self) { CUR_TY.with(|c| c.set(self.0)) } }
    let _g = G(old);
    f()
}

#[derive(Debug, PartialEq)]
pub struct Dyn(pub Val);
impl<'de> de::Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let p = CUR_TY.with(|c| c.get());
        assert!(!p.is_null(), "harness: no type set");
        // SAFETY: with_ty keeps the type borrowed while it is set
        let t = unsafe { &*p };
        D_(t).deserialize(d).map(Dyn)
    }
}

/// Seed deserializing a value of the type.
#[derive(Clone, Copy)]
pub struct D_<'a>(pub &'a Ty);

impl<'de> DeserializeSeed<'de> for D_<'_> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let v = V(self.0);
        match self.0 {
            Ty::Unit => d.deserialize_unit(v),
            Ty::UnitStruct => d.deserialize_unit_struct("UnitStruct", v),
            Ty::Bool => d.deserialize_bool(v),
            Ty::I(8) => d.deserialize_i8(v),
            Ty::I(16) => d.deserialize_i16(v),
            Ty::I(32) => d.deserialize_i32(v),
            Ty::I(_) => d.deserialize_i64(v),
            Ty::U(8) => d.deserialize_u8(v),
            Ty::U(16) => d.deserialize_u16(v),
            Ty::U(32) => d.deserialize_u32(v),
            Ty::U(_) => d.deserialize_u64(v),
            Ty::F32 => d.deserialize_f32(v),
            Ty::F64 => d.deserialize_f64(v),
            Ty::Char => d.deserialize_char(v),
            Ty::Hum => <std::net::Ipv4Addr as de::Deserialize>::deserialize(d).map(|a| Val::Int(u32::from(a) as i128)),
            Ty::Str(false) => d.deserialize_str(v),
            Ty::Str(true) | Ty::Disp(_) => d.deserialize_string(v),
            Ty::Bytes(false) => d.deserialize_bytes(v),
            Ty::Bytes(true) => d.deserialize_byte_buf(v),
            Ty::Opt(_) => d.deserialize_option(v),
            Ty::New(_) => d.deserialize_newtype_struct("New", v),
            Ty::Seq(_) => d.deserialize_seq(v),
            Ty::Tuple(t) => d.deserialize_tuple(t.len(), v),
            Ty::TupleStruct(t) => d.deserialize_tuple_struct("TupleStruct", t.len(), v),
            Ty::Map(..) => d.deserialize_map(v),
            Ty::Struct(_) => d.deserialize_struct("Struct", names(), v),
            Ty::Enum(_) => d.deserialize_enum("Enum", names(), v),
            Ty::Any => d.deserialize_any(v),
            Ty::Ignored => d.deserialize_ignored_any(v),
        }
    }
}

struct V<'a>(&'a Ty);

impl V<'_> {
    fn int<E: de::Error>(&self, i: i128) -> Result<Val, E> {
        match self.0 {
            Ty::I(n) => { let (lo, hi) = int_range(true, *n); if (lo..=hi).contains(&i) { return Ok(Val::Int(i)) } }
            Ty::U(n) => { let (lo, hi) = int_range(false, *n); if (lo..=hi).contains(&i) { return Ok(Val::Int(i)) } }
            Ty::Any => return Ok(Val::Tree(Tree::Int(i))),
            _ => {}
        }
        Err(E::custom("unexpected integer"))
    }
    fn text<E: de::Error>(&self, s: &str) -> Result<Val, E> {
        match self.0 {
            Ty::Str(_) | Ty::Disp(_) => Ok(harness(|| Val::Str(s.to_string()))),
            Ty::Any => Ok(harness(|| Val::Tree(Tree::Str(s.as_bytes().to_vec())))),
            _ => Err(E::custom("unexpected string")),
        }
    }
    fn blob<E: de::Error>(&self, s: &[u8]) -> Result<Val, E> {
        match self.0 {
            Ty::Bytes(_) => Ok(harness(|| Val::Bytes(s.to_vec()))),
            Ty::Any => Ok(harness(|| Val::Tree(Tree::Bin(s.to_vec())))),
            _ => Err(E::custom("unexpected bytes")),
        }
    }
}
fn tree(v: Val) -> Tree { match v { Val::Tree(t) => t, _ => Tree::Nil } }

impl<'de> Visitor<'de> for V<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.0) }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        match self.0 {
            Ty::Unit | Ty::UnitStruct => Ok(Val::Unit),
            Ty::Any => Ok(Val::Tree(Tree::Nil)),
            Ty::Ignored => Ok(Val::Ignored),
            Ty::Opt(_) => Ok(Val::None),
            _ => Err(E::custom("unexpected unit")),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        match self.0 { Ty::Opt(_) => Ok(Val::None), Ty::Any => Ok(Val::Tree(Tree::Nil)), Ty::Ignored => Ok(Val::Ignored), _ => Err(E::custom("unexpected none")) }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Opt(t) => { let v = D_(t).deserialize(d)?; Ok(harness(|| Val::Some(Box::new(v)))) }
            Ty::Any | Ty::Ignored => D_(self.0).deserialize(d),
            _ => Err(de::Error::custom("unexpected some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::New(t) => { let v = D_(t).deserialize(d)?; Ok(harness(|| Val::New(Box::new(v)))) }
            _ => Err(de::Error::custom("unexpected newtype")),
        }
    }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<Val, E> {
        match self.0 { Ty::Bool => Ok(Val::Bool(b)), Ty::Any => Ok(Val::Tree(Tree::Bool(b))), Ty::Ignored => Ok(Val::Ignored), _ => Err(E::custom("unexpected bool")) }
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Val, E> { if let Ty::Ignored = self.0 { return Ok(Val::Ignored) } self.int(v as i128) }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> { if let Ty::Ignored = self.0 { return Ok(Val::Ignored) } self.int(v as i128) }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<Val, E> {
        match self.0 { Ty::F32 => Ok(Val::F32(v)), Ty::F64 => Ok(Val::F64(v as f64)), Ty::Any => Ok(Val::Tree(Tree::F32(v))), Ty::Ignored => Ok(Val::Ignored), _ => Err(E::custom("unexpected float")) }
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Val, E> {
        match self.0 { Ty::F64 => Ok(Val::F64(v)), Ty::F32 => Ok(Val::F32(v as f32)), Ty::Any => Ok(Val::Tree(Tree::F64(v))), Ty::Ignored => Ok(Val::Ignored), _ => Err(E::custom("unexpected float")) }
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<Val, E> {
        match self.0 { Ty::Char => Ok(Val::Char(v)), _ => Err(E::custom("unexpected char")) }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> { inspect(v); if let Ty::Ignored = self.0 { return Ok(Val::Ignored) } self.text(v) }
    fn visit_borrowed_str<E: de::Error>(self, v: &'de str) -> Result<Val, E> {
        lent(v.as_bytes());
        inspect(v);
        if let Ty::Ignored = self.0 { return Ok(Val::Ignored) }
        self.text(v)
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> { self.blob(v) }
    fn visit_borrowed_bytes<E: de::Error>(self, v: &'de [u8]) -> Result<Val, E> { lent(v); self.blob(v) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                let mut out = Vec::new();
                while let Some(v) = a.next_element_seed(D_(t))? { harness(|| out.push(v)); }
                Ok(Val::Seq(out))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => tuple_seq(ts, a),
            Ty::Struct(d) => struct_seq(d, a),
            Ty::Any => {
                let mut out = Vec::new();
                while let Some(v) = a.next_element_seed(D_(&Ty::Any))? { harness(|| out.push(tree(v))); }
                Ok(Val::Tree(Tree::Arr(out)))
            }
            Ty::Ignored => {
                while a.next_element_seed(D_(&Ty::Ignored))?.is_some() {}
                Ok(Val::Ignored)
            }
            _ => Err(de::Error::custom("unexpected sequence")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Map(k, v) => {
                let mut out = Vec::new();
                while let Some(key) = a.next_key_seed(D_(k))? {
                    let val = a.next_value_seed(D_(v))?;
                    harness(|| out.push((key, val)));
                }
                Ok(Val::Map(out))
            }
            Ty::Struct(d) => struct_map(d, a),
            Ty::Any => {
                let mut out = Vec::new();
                while let Some(key) = a.next_key_seed(D_(&Ty::Any))? {
                    let val = a.next_value_seed(D_(&Ty::Any))?;
                    harness(|| out.push((tree(key), tree(val))));
                }
                Ok(Val::Tree(Tree::Map(out)))
            }
            Ty::Ignored => {
                while a.next_key_seed(D_(&Ty::Ignored))?.is_some() { a.next_value_seed(D_(&Ty::Ignored))?; }
                Ok(Val::Ignored)
            }
            _ => Err(de::Error::custom("unexpected map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let Ty::Enum(vs) = self.0 else { return Err(de::Error::custom("unexpected enum")) };
        let (i, acc) = a.variant_seed(VarId(vs))?;
        let p = match &vs[i].kind {
            VKind::Unit => { acc.unit_variant()?; Val::Unit }
            VKind::New(t) => acc.newtype_variant_seed(D_(t))?,
            VKind::Tuple(ts) => acc.tuple_variant(ts.len(), TupV(ts))?,
            VKind::Struct(d) => acc.struct_variant(names(), StructV(d))?,
        };
        Ok(harness(|| Val::Enum(i, Box::new(p))))
    }
}

fn tuple_seq<'de, A: SeqAccess<'de>>(ts: &[Ty], mut a: A) -> Result<Val, A::Error> {
    let mut out = harness(|| Vec::with_capacity(ts.len()));
    for (i, t) in ts.iter().enumerate() {
        match a.next_element_seed(D_(t))? {
            Some(v) => harness(|| out.push(v)),
            None => return Err(de::Error::invalid_length(i, &"more tuple elements")),
        }
    }
    Ok(Val::Seq(out))
}
fn struct_seq<'de, A: SeqAccess<'de>>(d: &Def, mut a: A) -> Result<Val, A::Error> {
    let mut out = harness(|| Vec::with_capacity(d.fields.len()));
    for (i, f) in d.fields.iter().enumerate() {
        match a.next_element_seed(D_(&f.ty))? {
            Some(v) => harness(|| out.push(Some(v))),
            None if f.opt => harness(|| out.push(None)),
            None => return Err(de::Error::invalid_length(i, &"more fields")),
        }
    }
    Ok(Val::Struct(out))
}
fn struct_map<'de, A: MapAccess<'de>>(d: &Def, mut a: A) -> Result<Val, A::Error> {
    let mut out: Vec<Option<Val>> = harness(|| vec![None; d.fields.len()]);
    while let Some(id) = a.next_key_seed(FieldId(d))? {
        match id {
            Some(i) => {
                if out[i].is_some() { return Err(de::Error::duplicate_field("field")) }
                out[i] = Some(a.next_value_seed(D_(&d.fields[i].ty))?);
            }
            None => { a.next_value::<de::IgnoredAny>()?; }
        }
    }
    for (f, v) in d.fields.iter().zip(&out) {
        if v.is_none() && !f.opt { return Err(de::Error::missing_field(f.name)) }
    }
    Ok(Val::Struct(out))
}

struct TupV<'a>(&'a [Ty]);
impl<'de> Visitor<'de> for TupV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("tuple variant") }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> { tuple_seq(self.0, a) }
}
struct StructV<'a>(&'a Def);
impl<'de> Visitor<'de> for StructV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("struct variant") }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> { struct_seq(self.0, a) }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Val, A::Error> { struct_map(self.0, a) }
}

struct FieldId<'a>(&'a Def);
impl<'de> DeserializeSeed<'de> for FieldId<'_> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> { d.deserialize_identifier(self) }
}
impl<'de> Visitor<'de> for FieldId<'_> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("field identifier") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> { Ok(self.0.fields.iter().position(|f| f.idx as u64 == v)) }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> { Ok(self.0.fields.iter().position(|f| f.name == v)) }
    fn visit_borrowed_str<E: de::Error>(self, v: &'de str) -> Result<Option<usize>, E> { lent(v.as_bytes()); inspect(v); self.visit_str(v) }
}
struct VarId<'a>(&'a [Var]);
impl<'de> DeserializeSeed<'de> for VarId<'_> {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> { d.deserialize_identifier(self) }
}
impl<'de> Visitor<'de> for VarId<'_> {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("variant identifier") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> {
        self.0.iter().position(|f| f.idx as u64 == v).ok_or_else(|| E::custom("unknown variant"))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<usize, E> {
        self.0.iter().position(|f| f.name == v).ok_or_else(|| E::custom("unknown variant"))
    }
    fn visit_borrowed_str<E: de::Error>(self, v: &'de str) -> Result<usize, E> { lent(v.as_bytes()); inspect(v); self.visit_str(v) }
}

/// Does the type contain text collected from a display formatter?
pub fn has_disp(t: &Ty) -> bool { any_ty(t, &mut |t| matches!(t, Ty::Disp(_))) }
pub fn any_ty(t: &Ty, p: &mut dyn FnMut(&Ty) -> bool) -> bool {
    if p(t) { return true }
    match t {
        Ty::Opt(t) | Ty::New(t) | Ty::Seq(t) => any_ty(t, p),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => ts.iter().any(|t| any_ty(t, p)),
        Ty::Map(k, v) => any_ty(k, p) || any_ty(v, p),
        Ty::Struct(d) => d.fields.iter().any(|f| any_ty(&f.ty, p)),
        Ty::Enum(vs) => vs.iter().any(|v| match &v.kind {
            VKind::Unit => false,
            VKind::New(t) => any_ty(t, p),
            VKind::Tuple(ts) => ts.iter().any(|t| any_ty(t, p)),
            VKind::Struct(d) => d.fields.iter().any(|f| any_ty(&f.ty, p)),
        }),
        _ => false,
    }
}

/// Compact messages carry no field numbers: what they say is only understood without gaps and with consecutive numbers.
pub fn compact_ok(t: &Ty, v: &Val) -> bool { gapless(t, v, true) }
/// A field that is left out is followed by one that is not: Compact has to refuse that.
pub fn compact_gap(t: &Ty, v: &Val) -> bool { !gapless(t, v, false) }
fn gapless(t: &Ty, v: &Val, num: bool) -> bool {
    fn def(d: &Def, v: &[Option<Val>], num: bool) -> bool {
        let mut seen_none = false;
        for (i, (f, x)) in d.fields.iter().zip(v).enumerate() {
            if num && f.idx as usize != i { return false }
            match x {
                None => seen_none = true,
                Some(x) => { if seen_none || !gapless(&f.ty, x, num) { return false } }
            }
        }
        true
    }
    match (t, v) {
        (Ty::Opt(t), Val::Some(v)) | (Ty::New(t), Val::New(v)) => gapless(t, v, num),
        (Ty::Seq(t), Val::Seq(v)) => v.iter().all(|v| gapless(t, v, num)),
        (Ty::Tuple(ts), Val::Seq(v)) | (Ty::TupleStruct(ts), Val::Seq(v)) => ts.iter().zip(v).all(|(t, v)| gapless(t, v, num)),
        (Ty::Map(k, t), Val::Map(v)) => v.iter().all(|(a, b)| gapless(k, a, num) && gapless(t, b, num)),
        (Ty::Struct(d), Val::Struct(v)) => def(d, v, num),
        (Ty::Enum(vs), Val::Enum(i, p)) => match (&vs[*i].kind, &**p) {
            (VKind::New(t), p) => gapless(t, p, num),
            (VKind::Tuple(ts), Val::Seq(v)) => ts.iter().zip(v).all(|(t, v)| gapless(t, v, num)),
            (VKind::Struct(d), Val::Struct(v)) => def(d, v, num),
            _ => true,
        },
        _ => true,
    }
}

/// Short rendering for traces.
pub fn brief<T: fmt::Debug>(v: &T) -> String {
    let s = format!("{v:?}");
    if s.len() > 400 {
        let mut cut = 400;
        while !s.is_char_boundary(cut) { cut -= 1 }
        format!("{}…({} chars)", &s[..cut], s.len())
    } else { s }
}
