//! Real Rust types: what `#[derive(Serialize, Deserialize)]` and the standard library's
//! implementations do with the code under test, next to the dynamic model of `model.rs`.
use crate::ctx::{bad, show, Ctx, R};
use crate::drv::*;
use crate::ensure;
use crate::model::*;
use crate::sinks::{Boom, FaultSink, VecSink};
use crate::src::Src;
use crate::{refjson, refmp};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::num::{NonZeroI64, NonZeroU8, Wrapping};

/// Text and bytes the values borrow from.
struct Pool { text: Vec<String>, bytes: Vec<Vec<u8>> }
impl Pool {
    fn new(s: &mut Src) -> Pool {
        let big = s.chance(1, 40);
        Pool { text: (0..3).map(|_| gen_string(s, big)).collect(), bytes: (0..2).map(|_| gen_bytes(s, big)).collect() }
    }
    fn text(&self, s: &mut Src) -> &str { s.pick(&self.text) }
    fn bytes(&self, s: &mut Src) -> &[u8] { s.pick(&self.bytes) }
}
fn int<T: TryFrom<i128>>(s: &mut Src, signed: bool, bits: u8) -> T { T::try_from(gen_int(s, signed, bits)).ok().expect("harness: range") }
fn u8_(s: &mut Src) -> u8 { int(s, false, 8) }
fn u16_(s: &mut Src) -> u16 { int(s, false, 16) }
fn u32_(s: &mut Src) -> u32 { int(s, false, 32) }
fn u64_(s: &mut Src) -> u64 { int(s, false, 64) }
fn i8_(s: &mut Src) -> i8 { int(s, true, 8) }
fn i16_(s: &mut Src) -> i16 { int(s, true, 16) }
fn i32_(s: &mut Src) -> i32 { int(s, true, 32) }
fn i64_(s: &mut Src) -> i64 { int(s, true, 64) }
fn f64_(s: &mut Src) -> f64 { let f = gen_f64(s); if f.is_finite() && f != 0.0 { f } else { 0.5 } }
fn f32_(s: &mut Src) -> f32 { let f = gen_f32(s); if f.is_finite() && f != 0.0 { f } else { 0.5 } }
fn opt<T>(s: &mut Src, f: impl FnOnce(&mut Src) -> T) -> Option<T> { if s.chance(2, 3) { Some(f(s)) } else { None } }
fn few<T>(s: &mut Src, f: impl Fn(&mut Src) -> T) -> Vec<T> {
    let n = if s.chance(1, 12) { *s.pick(&[15usize, 16, 17]) } else { s.usize(4) };
    (0..n).map(|_| f(s)).collect()
}

/// A kind of value: how to make one, and which encodings can carry it.
trait Kind {
    type T<'a>: Serialize + Deserialize<'a> + Debug;
    const NAME: &'static str;
    /// MessagePack struct representations, JSON
    const MP: &'static [Fl];
    const JS: bool = true;
    fn make<'a>(s: &mut Src, p: &'a Pool) -> Self::T<'a>;
}
const NI: &[Fl] = &[Fl::Named, Fl::Idx];
const N: &[Fl] = &[Fl::Named];
macro_rules! kind { ($($n:ident [$mp:expr, $js:expr] $t:ty = |$s:ident, $p:ident| $e:expr;)*) => {
    $(struct $n;
    impl Kind for $n {
        type T<'a> = $t;
        const NAME: &'static str = stringify!($n);
        const MP: &'static [Fl] = $mp;
        const JS: bool = $js;
        #[allow(unused_variables)]
        fn make<'a>($s: &mut Src, $p: &'a Pool) -> $t { $e }
    })*
    const MP_KINDS: &[fn(&mut Ctx, Op) -> R] = &[$(mp_check::<$n>),*];
    const JS_KINDS: &[fn(&mut Ctx, Op) -> R] = &[$(js_check::<$n>),*];
} }

// ------------------------------------------------------------------------------------- the types

#[derive(Serialize, Deserialize, Debug)]
struct Plain<'a> { id: u32, name: &'a str, temp: f32, ok: bool, tag: char, #[serde(with = "serde_bytes")] raw: &'a [u8], neg: i64, exact: f64 }
#[derive(Serialize, Deserialize, Debug)]
struct Unit;
#[derive(Serialize, Deserialize, Debug)]
struct Empty {}
#[derive(Serialize, Deserialize, Debug)]
struct EmptyTuple();
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Meters(u16);
#[derive(Serialize, Deserialize, Debug)]
struct Pair(i8, String);
#[derive(Serialize, Deserialize, Debug)]
struct Nested { unit: Unit, empty: Empty, et: EmptyTuple, m: Meters, p: Pair, o: Option<Box<Nested>>, v: Vec<Meters>, a: [u8; 3], z: [u8; 0], t: (u8, i16, String), nil: (), ph: PhantomData<u8> }
#[derive(Serialize, Deserialize, Debug)]
enum Shape<'a> {
    Dot, Circle(f32), Line(i16, i16), Rect { w: u32, h: u32 }, Nothing(()), Zero(Unit), Void {}, NoFields(), Emptiness([u8; 0]), EmptyOne(Empty),
    #[serde(borrow)] Label(Cow<'a, str>),
    Group(Vec<Shape<'a>>), Boxed(Box<Shape<'a>>), Opt(Option<u8>), #[serde(rename = "re named \"1\"")] Renamed { #[serde(rename = "ключ")] k: u8 },
    Deep { inner: Box<Shape<'a>>, #[serde(with = "serde_bytes")] raw: &'a [u8] },
}
fn shape<'a>(s: &mut Src, p: &'a Pool, d: u32) -> Shape<'a> {
    match s.draw(if d == 0 { 13 } else { 16 }) {
        0 => Shape::Dot, 1 => Shape::Circle(f32_(s)), 2 => Shape::Line(i16_(s), i16_(s)), 3 => Shape::Rect { w: u32_(s), h: u32_(s) },
        4 => Shape::Nothing(()), 5 => Shape::Zero(Unit), 6 => Shape::Void {}, 7 => Shape::NoFields(), 8 => Shape::Emptiness([]), 9 => Shape::EmptyOne(Empty {}),
        10 => Shape::Label(if s.bool() { Cow::Borrowed(p.text(s)) } else { Cow::Owned(p.text(s).to_string()) }),
        11 => Shape::Opt(opt(s, u8_)), 12 => Shape::Renamed { k: u8_(s) },
        13 => Shape::Group((0..s.usize(3)).map(|_| shape(s, p, d - 1)).collect()), 14 => Shape::Boxed(Box::new(shape(s, p, d - 1))),
        _ => Shape::Deep { inner: Box::new(shape(s, p, d - 1)), raw: p.bytes(s) },
    }
}
fn nested(s: &mut Src, p: &Pool, d: u32) -> Nested {
    Nested {
        unit: Unit, empty: Empty {}, et: EmptyTuple(), m: Meters(u16_(s)), p: Pair(i8_(s), p.text(s).into()), o: if d > 0 && s.bool() { Some(Box::new(nested(s, p, d - 1))) } else { None },
        v: few(s, |s| Meters(u16_(s))), a: [u8_(s), 0, u8_(s)], z: [], t: (u8_(s), i16_(s), p.text(s).into()), nil: (), ph: PhantomData,
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
#[serde(rename_all = "kebab-case")]
enum Color { DarkRed, Green, #[serde(rename = "b\\l\"ue")] Blue }
fn color(s: &mut Src) -> Color { *s.pick(&[Color::DarkRed, Color::Green, Color::Blue]) }
#[derive(Serialize, Deserialize, Debug)]
struct Maps {
    text: BTreeMap<String, u8>, num: BTreeMap<i32, Vec<u8>>, big: BTreeMap<u64, ()>, chr: BTreeMap<char, bool>, flag: BTreeMap<bool, i8>,
    col: BTreeMap<Color, Option<u8>>, new: BTreeMap<Meters, BTreeMap<i8, String>>,
}
#[derive(Serialize, Deserialize, Debug)]
struct Attrs {
    a: u8,
    #[serde(skip_serializing_if = "Option::is_none", default)] b: Option<u32>,
    #[serde(skip_serializing_if = "Vec::is_empty", default)] c: Vec<u16>,
    #[serde(rename = "dd", alias = "d2")] d: i32,
    #[serde(skip)] hidden: u64,
    #[serde(default = "seven")] e: u8,
    #[serde(skip_serializing_if = "String::is_empty", default)] f: String,
}
fn seven() -> u8 { 7 }
#[derive(Serialize, Deserialize, Debug)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE", deny_unknown_fields)]
struct Strict { first_one: u8, second_one: Option<i16>, #[serde(skip)] third: () }
#[derive(Serialize, Deserialize, Debug)]
#[serde(transparent)]
struct Thin { inner: Vec<Option<char>> }
#[derive(Serialize, Deserialize, Debug)]
#[serde(from = "(u8, String)", into = "(u8, String)")]
struct Via { n: u8, s: String }
impl Clone for Via { fn clone(&self) -> Via { Via { n: self.n, s: self.s.clone() } } }
impl From<(u8, String)> for Via { fn from(x: (u8, String)) -> Via { Via { n: x.0, s: x.1 } } }
impl From<Via> for (u8, String) { fn from(x: Via) -> (u8, String) { (x.n, x.s) } }
#[derive(Serialize, Deserialize, Debug)]
#[serde(tag = "kind", rename_all = "snake_case")]
enum Internal { Nothing, Point { x: i32, y: Option<i32> }, Text { body: String }, Wrapped(Inner) }
#[derive(Serialize, Deserialize, Debug)]
struct Inner { list: Vec<u8>, name: String, more: BTreeMap<String, bool> }
#[derive(Serialize, Deserialize, Debug)]
#[serde(tag = "t", content = "c")]
enum Adjacent { Nothing, One(u16), Two(bool, String), Named { a: i64, b: Option<u8> } }
#[derive(Serialize, Deserialize, Debug)]
#[serde(untagged)]
enum Untagged { Flag(bool), Num(i64), Text(String), List(Vec<u8>), Obj { key: u8, val: Option<String> }, Nothing }
#[derive(Serialize, Deserialize, Debug)]
struct Flat { id: u16, #[serde(flatten)] inner: Inner, #[serde(flatten)] rest: BTreeMap<String, i32> }
#[derive(Serialize, Deserialize, Debug)]
struct Std {
    d: std::time::Duration, ip: std::net::Ipv4Addr, ip2: std::net::IpAddr, sock: std::net::SocketAddr, nz: NonZeroU8, nzi: NonZeroI64, w: Wrapping<i32>,
    r: std::ops::Range<i16>, ri: std::ops::RangeInclusive<u8>, res: Result<u8, String>, bound: std::ops::Bound<u16>, bs: Box<str>, bsl: Box<[i8]>,
    dq: VecDeque<u16>, set: BTreeSet<char>, path: std::path::PathBuf, rev: std::cmp::Reverse<u8>, cell: std::cell::Cell<i8>, sat: std::num::Saturating<u8>,
}
fn std_(s: &mut Src, p: &Pool) -> Std {
    use std::net::*;
    let ip4 = Ipv4Addr::from(u32_(s));
    let ip6 = Ipv6Addr::from((u64_(s) as u128) << 64 | u64_(s) as u128);
    let ip = |s: &mut Src| if s.bool() { IpAddr::V4(ip4) } else { IpAddr::V6(ip6) };
    Std {
        d: std::time::Duration::new(u64_(s), u32_(s) % 1_000_000_000), ip: ip4, ip2: ip(s), sock: SocketAddr::new(ip(s), u16_(s)),
        nz: NonZeroU8::new(u8_(s)).unwrap_or(NonZeroU8::MAX), nzi: NonZeroI64::new(i64_(s)).unwrap_or(NonZeroI64::MIN), w: Wrapping(i32_(s)),
        r: i16_(s)..i16_(s), ri: u8_(s)..=u8_(s), res: if s.bool() { Ok(u8_(s)) } else { Err(p.text(s).into()) },
        bound: match s.draw(3) { 0 => std::ops::Bound::Unbounded, 1 => std::ops::Bound::Included(u16_(s)), _ => std::ops::Bound::Excluded(u16_(s)) },
        bs: p.text(s).into(), bsl: few(s, i8_).into(), dq: few(s, u16_).into(), set: few(s, gen_char).into_iter().collect(), path: p.text(s).into(),
        rev: std::cmp::Reverse(u8_(s)), cell: std::cell::Cell::new(i8_(s)), sat: std::num::Saturating(u8_(s)),
    }
}
#[derive(Serialize, Deserialize, Debug)]
struct Owned { #[serde(with = "serde_bytes")] b: Vec<u8>, c: std::ffi::CString, n: serde_bytes::ByteBuf, a: serde_bytes::ByteArray<4> }
#[derive(Serialize, Deserialize, Debug)]
struct Borrowed<'a> {
    s: &'a str, #[serde(borrow)] o: Option<&'a str>, #[serde(borrow)] v: Vec<&'a str>, #[serde(borrow)] m: BTreeMap<&'a str, (u8, &'a str)>,
    #[serde(borrow)] b: &'a serde_bytes::Bytes, #[serde(borrow)] c: Cow<'a, str>, #[serde(borrow)] d: Vec<&'a serde_bytes::Bytes>, #[serde(borrow)] e: Option<&'a serde_bytes::Bytes>,
}
#[derive(Serialize, Deserialize, Debug)]
struct Wide {
    a: u8, b: i8, c: u16, d: i16, e: u32, f: i32, g: u64, h: i64, i: usize, j: isize, k: f32, l: f64, m: bool, n: char, o: (), p: Option<u64>, q: [i64; 2], r: Vec<f32>, s: String,
}
type Twelve = (u8, i8, u16, i16, u32, i32, u64, i64, bool, char, Option<u8>, (u8,));
#[derive(Serialize, Deserialize, Debug)]
enum List { Nil, Cons(i32, Box<List>) }

kind! {
    KPlain [FLS, true] Plain<'a> = |s, p| Plain { id: u32_(s), name: p.text(s), temp: f32_(s), ok: s.bool(), tag: gen_char(s), raw: p.bytes(s), neg: i64_(s), exact: f64_(s) };
    KUnit [FLS, true] Unit = |s, p| Unit;
    KEmpty [FLS, true] Empty = |s, p| Empty {};
    KMeters [FLS, true] Meters = |s, p| Meters(u16_(s));
    KPair [FLS, true] Pair = |s, p| Pair(i8_(s), p.text(s).into());
    KNested [FLS, true] Nested = |s, p| nested(s, p, 3);
    KShape [FLS, true] Shape<'a> = |s, p| shape(s, p, 3);
    KShapes [FLS, true] Vec<Shape<'a>> = |s, p| (0..s.usize(5)).map(|_| shape(s, p, 1)).collect();
    KMaps [FLS, true] Maps = |s, p| Maps {
        text: few(s, |s| (p.text(s).to_string(), u8_(s))).into_iter().collect(), num: few(s, |s| (i32_(s), few(s, u8_))).into_iter().collect(),
        big: few(s, |s| (u64_(s), ())).into_iter().collect(), chr: few(s, |s| (gen_char(s), s.bool())).into_iter().collect(), flag: few(s, |s| (s.bool(), i8_(s))).into_iter().collect(),
        col: few(s, |s| (color(s), opt(s, u8_))).into_iter().collect(),
        new: few(s, |s| (Meters(u16_(s)), few(s, |s| (i8_(s), p.text(s).to_string())).into_iter().collect())).into_iter().collect(),
    };
    KAttrs [NI, true] Attrs = |s, p| Attrs { a: u8_(s), b: opt(s, u32_), c: few(s, u16_), d: i32_(s), hidden: 0, e: u8_(s), f: if s.bool() { p.text(s).into() } else { String::new() } };
    KStrict [FLS, true] Strict = |s, p| Strict { first_one: u8_(s), second_one: opt(s, i16_), third: () };
    KThin [FLS, true] Thin = |s, p| Thin { inner: few(s, |s| opt(s, gen_char)) };
    KVia [FLS, true] Via = |s, p| Via { n: u8_(s), s: p.text(s).into() };
    KInternal [N, true] Internal = |s, p| match s.draw(4) {
        0 => Internal::Nothing, 1 => Internal::Point { x: i32_(s), y: opt(s, i32_) }, 2 => Internal::Text { body: p.text(s).into() },
        _ => Internal::Wrapped(inner(s, p)),
    };
    KAdjacent [NI, true] Adjacent = |s, p| match s.draw(4) { 0 => Adjacent::Nothing, 1 => Adjacent::One(u16_(s)), 2 => Adjacent::Two(s.bool(), p.text(s).into()), _ => Adjacent::Named { a: i64_(s), b: opt(s, u8_) } };
    KUntagged [N, true] Untagged = |s, p| match s.draw(6) {
        0 => Untagged::Flag(s.bool()), 1 => Untagged::Num(i64_(s)), 2 => Untagged::Text(p.text(s).into()), 3 => Untagged::List(few(s, u8_)),
        4 => Untagged::Obj { key: u8_(s), val: opt(s, |s| p.text(s).into()) }, _ => Untagged::Nothing,
    };
    KFlat [&[], true] Flat = |s, p| Flat { id: u16_(s), inner: inner(s, p), rest: few(s, |s| (format!("+{}", p.text(s)), i32_(s))).into_iter().collect() };
    KStd [&[Fl::Named, Fl::Compact], true] Std = |s, p| std_(s, p);
    KOwned [FLS, true] Owned = |s, p| Owned {
        b: p.bytes(s).to_vec(), c: std::ffi::CString::new(p.bytes(s).iter().copied().filter(|b| *b != 0).collect::<Vec<_>>()).expect("harness"),
        n: serde_bytes::ByteBuf::from(p.bytes(s)), a: serde_bytes::ByteArray::new([u8_(s), 0, 255, u8_(s)]),
    };
    KBorrowed [FLS, true] Borrowed<'a> = |s, p| Borrowed {
        s: p.text(s), o: opt(s, |s| p.text(s)), v: few(s, |s| p.text(s)), m: few(s, |s| (p.text(s), (u8_(s), p.text(s)))).into_iter().collect(), b: serde_bytes::Bytes::new(p.bytes(s)),
        c: Cow::Borrowed(p.text(s)), d: few(s, |s| serde_bytes::Bytes::new(p.bytes(s))), e: opt(s, |s| serde_bytes::Bytes::new(p.bytes(s))),
    };
    KWide [FLS, true] Wide = |s, p| Wide {
        a: u8_(s), b: i8_(s), c: u16_(s), d: i16_(s), e: u32_(s), f: i32_(s), g: u64_(s), h: i64_(s), i: u64_(s) as usize, j: i64_(s) as isize, k: f32_(s), l: f64_(s), m: s.bool(), n: gen_char(s),
        o: (), p: opt(s, u64_), q: [i64_(s), i64_(s)], r: few(s, f32_), s: p.text(s).into(),
    };
    KTwelve [FLS, true] Twelve = |s, p| (u8_(s), i8_(s), u16_(s), i16_(s), u32_(s), i32_(s), u64_(s), i64_(s), s.bool(), gen_char(s), opt(s, u8_), (u8_(s),));
    KList [FLS, true] List = |s, p| { let mut l = List::Nil; for _ in 0..s.usize(12) { l = List::Cons(i32_(s), Box::new(l)) } l };
    KUnits [FLS, true] Vec<()> = |s, p| vec![(); if s.chance(1, 8) { 15 + s.usize(3) } else { s.usize(4) }];
    KText [FLS, true] &'a str = |s, p| p.text(s);
    KBytes [FLS, true] &'a serde_bytes::Bytes = |s, p| serde_bytes::Bytes::new(p.bytes(s));
    KOptText [FLS, true] Option<&'a str> = |s, p| opt(s, |s| p.text(s));
    KTriples [FLS, true] Vec<(i16, Option<&'a str>, [bool; 2])> = |s, p| few(s, |s| (i16_(s), opt(s, |s| p.text(s)), [s.bool(), s.bool()]));
    KResults [FLS, true] Vec<Result<Shape<'a>, Option<u8>>> = |s, p| few(s, |s| if s.bool() { Ok(shape(s, p, 0)) } else { Err(opt(s, u8_)) });
}
fn inner(s: &mut Src, p: &Pool) -> Inner {
    Inner { list: few(s, u8_), name: p.text(s).into(), more: few(s, |s| (p.text(s).to_string(), s.bool())).into_iter().collect() }
}

// ------------------------------------------------------------------------------------ the checks

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    /// C01: the writer fails
    FailingWriter,
    /// C06, C09: sent, delivered with something behind it, received
    Trip,
    /// C06, C11: what is there of it so far
    Torn,
    /// C07, skipped in step
    Skip,
    /// C12, C13: what was written is a message
    Form,
    /// C08, C10: damaged on the way
    Damage,
}
pub fn mp(ctx: &mut Ctx, op: Op) -> R { let k = ctx.s.usize(MP_KINDS.len()); MP_KINDS[k](ctx, op) }
pub fn js(ctx: &mut Ctx, op: Op) -> R { let k = ctx.s.usize(JS_KINDS.len()); JS_KINDS[k](ctx, op) }

fn failing_writer<T: Serialize>(ctx: &mut Ctx, f: Fmt, v: &T, name: &str, bytes: &[u8]) -> R {
    let mut w = FaultSink::new(ctx.s.bool());
    let r = ser_any(f, &mut w, v);
    ensure!(ctx, r.is_ok() && w.got == bytes, "healthy-writer-error", "{f:?}: {name} with a healthy writer: {r:?} {}", show(&w.got));
    let n = w.calls;
    let ks: Vec<u64> = if n <= 24 { (0..n).collect() } else { (0..24).map(|i| if i < 4 { n - 1 - i } else { ctx.s.draw(n) }).collect() };
    for k in ks {
        let part = ctx.s.usize(6);
        w.arm(Some((k, part)));
        let r = ser_any(f, &mut w, v);
        ctx.fault("writer_call_fails");
        ctx.ev("fail", k, w.got.len() as u64, || format!("partial {part} → {r:?} accepted {}", show(&w.got)));
        ensure!(ctx, w.after == 0, "called-after-failure", "{name}: the writer was called {} more times after call {k} failed", w.after);
        ensure!(ctx, bytes.starts_with(&w.got), "not-a-prefix", "{name}: accepted {} is not a prefix of {}", show(&w.got), show(bytes));
        ensure!(ctx, r == Err(SErr::Writer(Boom(k))) || (r == Err(SErr::Format) && f.json() && name == "KStd"), "wrong-error", "{name}: the writer failed at call {k}, serialization reported {r:?}");
    }
    Ok(())
}

fn mp_check<K: Kind>(ctx: &mut Ctx, op: Op) -> R {
    use ser_write_msgpack as m;
    let pool = Pool::new(&mut ctx.s);
    let v = K::make(&mut ctx.s, &pool);
    let name = K::NAME;
    let said = format!("{v:?}");
    if op == Op::Form {
        // any representation: if it succeeds, it is a message
        for &fl in FLS {
            let mut w = VecSink::default();
            let r = ser_any(Fmt::Mp(fl), &mut w, &v);
            ctx.ev("serialize", w.0.len() as u64, r.is_ok() as u64, || format!("{fl:?} {said} = {}", show(&w.0)));
            if r.is_ok() { ensure!(ctx, refmp::span(&w.0) == Ok(w.0.len()), "malformed-success", "{fl:?}: {said} was written as {}", show(&w.0)) }
            else { ensure!(ctx, !K::MP.contains(&fl), "truthful-rejected", "{fl:?}: {said}: {r:?}") }
        }
        return Ok(())
    }
    if K::MP.is_empty() { return Ok(()) }
    let fl = *ctx.s.pick(K::MP);
    let mut w = VecSink::default();
    let r = ser_any(Fmt::Mp(fl), &mut w, &v);
    let mut b = w.0;
    ensure!(ctx, r.is_ok(), "sender-error", "{fl:?}: serializing {said} failed: {r:?}");
    let n = b.len();
    ctx.ev("real-type", n as u64, 0, || format!("{name} {fl:?} {said} = {}", show(&b)));
    match op {
        Op::FailingWriter => failing_writer(ctx, Fmt::Mp(fl), &v, name, &b)?,
        Op::Trip => {
            for _ in 0..ctx.s.usize(4) { let c = ctx.s.draw(256) as u8; b.push(c) }
            let r = match ctx.s.draw(3) {
                0 => m::from_slice::<K::T<'_>>(&b).map(|(v, k)| (format!("{v:?}"), k)),
                1 => m::from_slice_split_tail::<K::T<'_>>(&b).map(|(v, t)| (format!("{v:?}"), b.len() - t.len())),
                _ => {
                    let mut d = m::de::Deserializer::from_slice(&b);
                    K::T::deserialize(&mut d).map(|v| (format!("{v:?}"), b.len() - d.remaining_len()))
                }
            };
            match &r {
                Ok((got, k)) => {
                    ensure!(ctx, *got == said, "wrong-value", "{fl:?}: {said} was received as {got}, wire {}", show(&b));
                    ensure!(ctx, *k == n, "wrong-length", "{fl:?}: {said} occupies {n} bytes, {k} were reported");
                }
                Err(e) => return bad("complete-message-not-decoded", || format!("{fl:?}: {e:?} for {said} = {}", show(&b))),
            }
        }
        Op::Skip => {
            for _ in 0..ctx.s.usize(4) { let c = ctx.s.draw(256) as u8; b.push(c) }
            let r = (mp_skip(&b), m::from_slice::<serde::de::IgnoredAny>(&b).map(|x| x.1));
            ensure!(ctx, r == (Ok(n), Ok(n)), "out-of-step", "{fl:?}: {said} occupies {n} bytes, skipping it gives {r:?}");
        }
        Op::Torn => {
            let ks: Vec<usize> = if n <= 80 { (0..n).collect() } else { (0..40).map(|i| if i < 10 { n - 1 - i } else { ctx.s.usize(n) }).collect() };
            for k in ks {
                ctx.fault("message_cut");
                let r = m::from_slice::<K::T<'_>>(&b[..k]);
                ensure!(ctx, matches!(r, Err(ME::UnexpectedEof)), "partial-message", "{fl:?}: {k} of {n} bytes of {said}: {r:?} from {}", show(&b[..k]));
            }
        }
        Op::Damage => {
            for _ in 0..4 {
                let mut d = b.clone();
                for _ in 0..1 + ctx.s.usize(3) { crate::props::damage(ctx, &mut d, false) }
                let r = m::from_slice::<K::T<'_>>(&d).map(|(v, k)| (format!("{v:?}"), k));
                ctx.ev("damaged", d.len() as u64, r.is_ok() as u64, || brief(&r));
                if let Ok((_, k)) = r { ensure!(ctx, k <= d.len(), "wrong-length", "{k} of {} bytes consumed", d.len()) }
            }
        }
        Op::Form => {}
    }
    Ok(())
}

fn js_from<'a, T: Deserialize<'a>>(k: Dec, b: &'a mut [u8]) -> Result<T, JE> {
    use ser_write_json as j;
    match k {
        Dec::Nope => j::from_mut_slice(b), Dec::Hex => j::from_mut_slice_hex_bytes(b),
        Dec::Base64 => j::from_mut_slice_base64_bytes(b), Dec::Any => j::from_mut_slice_with_decoder::<AnyDec, T>(b),
    }
}
fn j_is(j: &refjson::J, v: &serde_json::Value) -> bool {
    use refjson::J;
    use serde_json::Value as V;
    match (j, v) {
        (J::Null, V::Null) => true,
        (J::Bool(a), V::Bool(b)) => a == b,
        (J::Str(a), V::String(b)) => a == b,
        (J::Num(a), V::Number(b)) => if b.is_f64() { let f = b.as_f64().unwrap(); a.parse::<f64>() == Ok(f) || a.parse::<f32>() == Ok(f as f32) } else { *a == b.to_string() },
        (J::Arr(a), V::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| j_is(a, b)),
        (J::Obj(a), V::Object(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).is_some_and(|y| j_is(x, y))),
        _ => false,
    }
}
fn js_check<K: Kind>(ctx: &mut Ctx, op: Op) -> R {
    if !K::JS { return Ok(()) }
    let pool = Pool::new(&mut ctx.s);
    let v = K::make(&mut ctx.s, &pool);
    let name = K::NAME;
    let said = format!("{v:?}");
    let enc = *ctx.s.pick(ENCS);
    let mut w = VecSink::default();
    let r = ser_any(Fmt::Js(enc), &mut w, &v);
    let b = w.0;
    ensure!(ctx, r.is_ok(), "sender-error", "{enc:?}: serializing {said} failed: {r:?}");
    ctx.ev("real-type", b.len() as u64, 0, || format!("{name} {enc:?} {said} = {}", show(&b)));
    match op {
        Op::FailingWriter => failing_writer(ctx, Fmt::Js(enc), &v, name, &b)?,
        Op::Form => {
            let j = match refjson::strict(&b) { Ok(j) => j, Err(e) => return bad("not-a-document", || format!("{enc:?}: {said} was written as {} ({e})", show(&b))) };
            if enc == Enc::Array {
                // what another serializer makes of the same value
                let o = serde_json::to_value(&v).map_err(|_| ()).expect("harness: serde_json");
                ensure!(ctx, j_is(&j, &o), "wrong-document", "{said} was written as {}, it should say {}", show(&b), o);
            }
        }
        Op::Trip | Op::Skip => {
            let mut x = b.clone();
            for _ in 0..ctx.s.usize(3) { x.push(*ctx.s.pick(b" \n\t\r")); }
            let lead = ctx.s.usize(3);
            for _ in 0..lead { x.insert(0, *ctx.s.pick(b" \n\t\r")); }
            let text = show(&x);
            let r = js_from::<K::T<'_>>(enc.decoder(), &mut x).map(|v| format!("{v:?}"));
            match &r {
                Ok(got) => ensure!(ctx, *got == said, "wrong-value", "{enc:?}: {said} was received as {got}, document {text}"),
                Err(e) => return bad("document-not-decoded", || format!("{enc:?}: {e:?} for {said} = {text}")),
            }
        }
        Op::Torn => {
            let n = b.len();
            if matches!(b[0], b'-' | b'0'..=b'9') { return Ok(()) }
            let ks: Vec<usize> = if n <= 120 { (0..n).collect() } else { (0..60).map(|i| if i < 20 { n - 1 - i } else { ctx.s.usize(n) }).collect() };
            for k in ks {
                ctx.fault("document_cut");
                let mut p = b[..k].to_vec();
                let r = js_from::<K::T<'_>>(enc.decoder(), &mut p).map(|v| format!("{v:?}"));
                let last_is_number = k > 0 && matches!(b[k - 1], b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E');
                let ok = matches!(r, Err(JE::UnexpectedEof)) || (last_is_number && matches!(r, Err(JE::InvalidNumber)));
                ensure!(ctx, ok, if r.is_ok() { "torn-document-accepted" } else { "torn-document-wrong-error" }, "{enc:?}: {k} of {n} bytes of {said}: {r:?} from {}", show(&b[..k]));
            }
        }
        Op::Damage => {
            for _ in 0..4 {
                let mut d = b.clone();
                for _ in 0..1 + ctx.s.usize(3) { crate::props::damage(ctx, &mut d, true) }
                let l = d.len();
                let r = js_from::<K::T<'_>>(enc.decoder(), &mut d).map(|v| format!("{v:?}"));
                ctx.ev("damaged", l as u64, r.is_ok() as u64, || brief(&r));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- two versions of one protocol

#[derive(Serialize, Deserialize, Debug, Clone)]
struct V1 { id: u32, name: String, level: i16 }
#[derive(Serialize, Deserialize, Debug)]
struct V1Less { name: String }
#[derive(Serialize, Deserialize, Debug)]
struct V1First { id: u32 }
#[derive(Serialize, Deserialize, Debug)]
struct V1Moved { level: i16, #[serde(default)] extra: Option<Vec<u8>>, id: u32, name: String }
#[derive(Serialize, Deserialize, Debug)]
struct V1More { id: u32, name: String, level: i16, #[serde(default)] a: bool, #[serde(default = "seven")] b: u8, #[serde(default)] c: Vec<String>, d: Option<u8> }
#[derive(Serialize, Deserialize, Debug)]
struct V1Needs { id: u32, name: String, level: i16, must: u8 }
#[derive(Serialize, Deserialize, Debug)]
#[serde(deny_unknown_fields)]
struct V1Strict { id: u32, name: String }
#[derive(Serialize, Deserialize, Debug)]
struct V1Alias { id: u32, #[serde(rename = "title", alias = "name")] title: String, #[serde(rename = "level")] lv: i64 }
#[derive(Serialize, Deserialize, Debug)]
struct V1Narrow { id: u8, name: String, level: u8 }
#[derive(Serialize, Debug)]
struct V1Twice { id: u32, name: String, #[serde(rename = "name")] again: String, level: i16 }
#[derive(Deserialize, Debug)]
struct V1Holes { #[serde(default)] id: Option<u32>, name: serde::de::IgnoredAny, level: i16 }
#[derive(Serialize, Deserialize, Debug)]
struct Big { skip1: Attrs0, id: u32, skip2: BTreeMap<String, Vec<f64>>, name: String, skip3: Vec<(Option<u8>, String)>, level: i16, skip4: List }
#[derive(Serialize, Deserialize, Debug)]
struct Attrs0 { a: f32, #[serde(with = "serde_bytes")] b: Vec<u8>, c: char }
#[derive(Serialize, Deserialize, Debug)]
enum E1 { A, B(u8), C { x: i32, y: String }, D(u8, String), E(V1) }
#[derive(Serialize, Deserialize, Debug)]
enum E2 { B(u8), A, C { y: String, #[serde(default)] z: u16 }, D(u8, String, #[serde(default)] u8), #[serde(other)] Rest }
#[derive(Serialize, Deserialize, Debug)]
enum E3 { A, B(u16), C { x: i64, y: String }, D(u64, String), E(V1Less), F }
#[derive(Serialize, Deserialize, Debug)]
enum E4 { A }
#[derive(Deserialize, Debug)]
#[serde(deny_unknown_fields)]
enum E5 { C { x: i32 }, #[allow(dead_code)] A }

/// `a` is sent, a receiver expecting a `B` must get `want`, or an error, and stay in step.
fn pair<A: Serialize + Debug, B: serde::de::DeserializeOwned + Debug>(ctx: &mut Ctx, fls: &[Fl], js: bool, a: &A, want: Option<B>) -> R {
    let said = format!("{a:?}");
    let want = want.map(|w| format!("{w:?}"));
    let what = std::any::type_name::<B>().rsplit("::").next().unwrap_or("");
    if want.is_none() { ctx.fault("incompatible_versions") } else { ctx.fault("version_skew") }
    let json = js && (fls.is_empty() || ctx.s.bool());
    let next = ("next", 7u8, [Some(true), None]);
    let (got, after) = if json {
        let enc = *ctx.s.pick(ENCS);
        let mut w = VecSink::default();
        let r = ser_any(Fmt::Js(enc), &mut w, a);
        ensure!(ctx, r.is_ok(), "sender-error", "{enc:?}: serializing {said} failed: {r:?}");
        ctx.ev("versions", w.0.len() as u64, 0, || format!("{enc:?} {said} for {what}: {}", show(&w.0)));
        w.0.push(b' ');
        let _ = ser_any(Fmt::Js(enc), &mut w, &next);
        fn go<'a, B: Deserialize<'a> + Debug, P: ser_write_json::de::StringByteDecoder<'a>>(b: &'a mut [u8]) -> (Result<String, String>, Option<String>) {
            let mut d = ser_write_json::de::Deserializer::<P>::from_mut_slice(b);
            match B::deserialize(&mut d) {
                Ok(v) => (Ok(format!("{v:?}")), <(&str, u8, [Option<bool>; 2])>::deserialize(&mut d).ok().map(|v| format!("{v:?}"))),
                Err(e) => (Err(format!("{e:?}")), None),
            }
        }
        match enc.decoder() {
            Dec::Nope => go::<B, ser_write_json::de::StringByteNopeDecoder>(&mut w.0), Dec::Hex => go::<B, ser_write_json::de::StringByteHexDecoder>(&mut w.0),
            Dec::Base64 => go::<B, ser_write_json::de::StringByteBase64Decoder>(&mut w.0), Dec::Any => go::<B, AnyDec>(&mut w.0),
        }
    } else {
        if fls.is_empty() { return Ok(()) }
        let fl = *ctx.s.pick(fls);
        let mut w = VecSink::default();
        let r = ser_any(Fmt::Mp(fl), &mut w, a);
        ensure!(ctx, r.is_ok(), "sender-error", "{fl:?}: serializing {said} failed: {r:?}");
        ctx.ev("versions", w.0.len() as u64, 1, || format!("{fl:?} {said} for {what}: {}", show(&w.0)));
        let _ = ser_any(Fmt::Mp(fl), &mut w, &next);
        match ser_write_msgpack::from_slice::<B>(&w.0) {
            Ok((v, n)) => (Ok(format!("{v:?}")), ser_write_msgpack::from_slice::<(&str, u8, [Option<bool>; 2])>(&w.0[n.min(w.0.len())..]).ok().map(|v| format!("{:?}", v.0))),
            Err(e) => (Err(format!("{e:?}")), None),
        }
    };
    match (&got, &want) {
        (Ok(g), Some(w)) => {
            ensure!(ctx, g == w, "wrong-assignment", "{said} was received as {g} instead of {w}");
            ensure!(ctx, after.as_ref() == Some(&format!("{next:?}")), "out-of-step", "after {said} was received as {what} the next message is {after:?}");
        }
        (Err(_), None) => ctx.probe("rejected"),
        (Ok(g), None) => return bad("incompatible-accepted", || format!("{said} was received as {what}: {g}")),
        (Err(e), Some(w)) => return bad("compatible-rejected", || format!("{said} received as {what} gives {e} instead of {w}")),
    }
    Ok(())
}

pub fn versions(ctx: &mut Ctx) -> R {
    const C: &[Fl] = &[Fl::Compact];
    let pool = Pool::new(&mut ctx.s);
    let s = &mut ctx.s;
    let p = &pool;
    let v = V1 { id: u32_(s), name: p.text(s).into(), level: i16_(s) };
    let name = || v.name.clone();
    let e1 = match s.draw(5) { 0 => E1::A, 1 => E1::B(u8_(s)), 2 => E1::C { x: i32_(s), y: p.text(s).into() }, 3 => E1::D(u8_(s), p.text(s).into()), _ => E1::E(v.clone()) };
    match s.draw(20) {
        0 => pair(ctx, N, true, &v, Some(V1Less { name: name() })),
        1 => { let fl = [Fl::Named, Fl::Idx]; pair(ctx, &fl, true, &v, Some(V1First { id: v.id })) }
        2 => pair(ctx, N, true, &v, Some(V1Moved { level: v.level, extra: None, id: v.id, name: name() })),
        3 => pair(ctx, NI, true, &v, Some(V1More { id: v.id, name: name(), level: v.level, a: false, b: 7, c: vec![], d: None })),
        // an array has no name to leave out: only a field with a default may be missing at its end
        4 => { #[derive(Serialize, Deserialize, Debug)] struct Tail { id: u32, name: String, level: i16, #[serde(default)] a: bool, #[serde(default = "seven")] b: u8 }
            pair(ctx, FLS, true, &v, Some(Tail { id: v.id, name: name(), level: v.level, a: false, b: 7 })) }
        5 => pair::<_, V1Needs>(ctx, FLS, true, &v, None),
        6 => pair::<_, V1Strict>(ctx, FLS, true, &v, None),
        7 => pair(ctx, N, true, &v, Some(V1Alias { id: v.id, title: name(), lv: v.level as i64 })),
        8 => { let w = match (u8::try_from(v.id), u8::try_from(v.level)) { (Ok(id), Ok(level)) => Some(V1Narrow { id, name: name(), level }), _ => None }; pair(ctx, FLS, true, &v, w) }
        9 => pair::<_, V1>(ctx, N, true, &V1Twice { id: v.id, name: name(), again: name(), level: v.level }, None),
        10 => pair(ctx, FLS, true, &v, Some(V1Holes { id: Some(v.id), name: serde::de::IgnoredAny, level: v.level })),
        11 => {
            let big = Big {
                skip1: Attrs0 { a: f32_(s), b: p.bytes(s).into(), c: gen_char(s) }, id: v.id, skip2: few(s, |s| (p.text(s).to_string(), few(s, f64_))).into_iter().collect(), name: name(),
                skip3: few(s, |s| (opt(s, u8_), p.text(s).to_string())), level: v.level, skip4: List::Cons(1, Box::new(List::Nil)),
            };
            match ctx.s.draw(3) {
                0 => pair(ctx, N, true, &big, Some(V1 { ..v.clone() })), 1 => pair(ctx, N, true, &big, Some(V1Less { name: name() })),
                _ => { let w: (serde::de::IgnoredAny, u32, serde::de::IgnoredAny, String, serde::de::IgnoredAny, i16, serde::de::IgnoredAny) = (serde::de::IgnoredAny, v.id, serde::de::IgnoredAny, name(), serde::de::IgnoredAny, v.level, serde::de::IgnoredAny); pair(ctx, C, false, &big, Some(w)) }
            }
        }
        12 => {
            let w = match &e1 {
                E1::A => Some(E2::A), E1::B(x) => Some(E2::B(*x)), E1::C { y, .. } => Some(E2::C { y: y.clone(), z: 0 }), E1::D(a, b) => Some(E2::D(*a, b.clone(), 0)),
                // `other` stands for a variant without content
                E1::E(_) => None,
            };
            match e1 { E1::E(_) => Ok(()), _ => pair(ctx, N, true, &e1, w) }
        }
        13 => {
            let w = match &e1 {
                E1::A => E3::A, E1::B(x) => E3::B(*x as u16), E1::C { x, y } => E3::C { x: *x as i64, y: y.clone() }, E1::D(a, b) => E3::D(*a as u64, b.clone()),
                E1::E(v) => E3::E(V1Less { name: v.name.clone() }),
            };
            if matches!(e1, E1::E(_)) { pair(ctx, N, true, &e1, Some(w)) } else { pair(ctx, FLS, true, &e1, Some(w)) }
        }
        14 => { let w = if let E1::A = e1 { Some(E4::A) } else { None }; pair(ctx, FLS, true, &e1, w) }
        15 => pair::<_, E5>(ctx, N, true, &E1::C { x: 1, y: name() }, None),
        // arrays and tuples have no optional elements
        16 => { let t = (v.id, name(), v.level); match ctx.s.draw(3) {
            0 => pair::<_, (u32, String)>(ctx, FLS, true, &t, None), 1 => pair::<_, (u32, String, i16, Option<u8>)>(ctx, FLS, true, &t, None), _ => pair(ctx, FLS, true, &t, Some(v.clone())),
        } }
        17 => { let l = few(s, u16_); let w = if l.len() == 3 { Some([l[0], l[1], l[2]]) } else { None }; pair(ctx, FLS, true, &l, w) }
        18 => {
            let x = opt(s, u16_);
            // a message within another: nothing there, or the thing itself
            match x { Some(n) => pair(ctx, FLS, true, &x, Some(n)), None => pair::<_, u16>(ctx, FLS, true, &x, None) }
        }
        _ => { let m: BTreeMap<String, i16> = [("id", 1i16), ("level", v.level), ("zz", 3)].into_iter().map(|(k, v)| (k.to_string(), v)).collect();
            #[derive(Serialize, Deserialize, Debug)] struct L { level: i16, id: u8 }
            // a map is a struct with names, and a struct with names is a map
            if ctx.s.bool() { pair(ctx, FLS, true, &m, Some(L { level: v.level, id: 1 })) }
            else { pair(ctx, N, true, &L { level: v.level, id: 9 }, Some(BTreeMap::from([("level".to_string(), v.level), ("id".to_string(), 9i16)]))) } }
    }
}
