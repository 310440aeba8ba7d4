//! One module per property; `run(ctx)` is one simulated run.
use crate::ctx::Ctx;
use crate::drv::*;
use crate::model::*;
use crate::refjson;
use crate::zoo;
use crate::src::{Expand, Src};

pub mod c01; pub mod c02; pub mod c03; pub mod c04; pub mod c05; pub mod c06; pub mod c07; pub mod c08;
pub mod c09; pub mod c10; pub mod c11; pub mod c12; pub mod c13; pub mod c14; pub mod c15; pub mod c16;

pub type Run = fn(&mut Ctx) -> crate::ctx::R;
pub const TABLE: &[(&str, Run)] = &[
    ("C01", c01::run), ("C02", c02::run), ("C03", c03::run), ("C04", c04::run), ("C05", c05::run), ("C06", c06::run),
    ("C07", c07::run), ("C08", c08::run), ("C09", c09::run), ("C10", c10::run), ("C11", c11::run), ("C12", c12::run),
    ("C13", c13::run), ("C14", c14::run), ("C15", c15::run), ("C16", c16::run),
];

pub fn gener(ctx: &mut Ctx, json: bool) -> Gen {
    // large content is rare in ordinary runs
    let big = ctx.s.chance(1, if ctx.deep { 8 } else { 24 });
    Gen { big, ..Gen::new(json) }
}

/// A value to be sent, with a format able to carry it.
pub fn message(ctx: &mut Ctx, json: bool, g: Gen) -> (Ty, Val, Fmt) {
    if json {
        let enc = *ctx.s.pick(ENCS);
        let (t, v) = gen_typed(&mut ctx.s, g);
        (t, v, Fmt::Js(enc))
    } else {
        let (t, v) = gen_typed(&mut ctx.s, g);
        let fl = flavour(&mut ctx.s, &t, &v);
        (t, v, Fmt::Mp(fl))
    }
}
pub fn flavour(s: &mut Src, t: &Ty, v: &Val) -> Fl {
    let fl = *s.pick(FLS);
    if fl == Fl::Compact && !compact_ok(t, v) { Fl::Named } else { fl }
}
/// A message for writers: any format, also pre-serialized fragments.
pub fn any_message(ctx: &mut Ctx) -> (Ty, Val, Fmt) {
    let json = ctx.s.bool();
    let g = gener(ctx, json);
    let (t, v, f) = message(ctx, json, g);
    if json && ctx.s.chance(1, 10) {
        let v = fragments_for_pass(&mut ctx.s, &t, v);
        return (t, v, Fmt::Js(Enc::Pass))
    }
    (t, v, f)
}
/// Replace byte strings by pre-serialized JSON fragments.
pub fn fragments_for_pass(s: &mut Src, t: &Ty, v: Val) -> Val {
    let mut style = refjson::Style { ws: 0, esc: 0, compactness: 0, enc: Enc::Array, lower: false, pad: false, structs_as_arrays: false, long: 0, e: Expand::new(s.draw(0)) };
    let doc = refjson::gen_jtree(s, 2);
    let mut text = Vec::new();
    style.tree(&doc, &mut text);
    map_bytes(t, v, &text)
}
fn map_bytes(t: &Ty, v: Val, text: &[u8]) -> Val {
    let list = |ts: Vec<&Ty>, vs: Vec<Val>| ts.into_iter().zip(vs).map(|(t, v)| map_bytes(t, v, text)).collect::<Vec<_>>();
    let def = |d: &Def, vs: Vec<Option<Val>>| d.fields.iter().zip(vs).map(|(f, v)| v.map(|v| map_bytes(&f.ty, v, text))).collect::<Vec<_>>();
    match (t, v) {
        (Ty::Bytes(_), _) => Val::Bytes(text.to_vec()),
        (Ty::Opt(t), Val::Some(v)) => Val::Some(Box::new(map_bytes(t, *v, text))),
        (Ty::New(t), Val::New(v)) => Val::New(Box::new(map_bytes(t, *v, text))),
        (Ty::Seq(t), Val::Seq(v)) => Val::Seq(v.into_iter().map(|v| map_bytes(t, v, text)).collect()),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), Val::Seq(v)) => Val::Seq(list(ts.iter().collect(), v)),
        (Ty::Map(k, t), Val::Map(v)) => Val::Map(v.into_iter().map(|(a, b)| (map_bytes(k, a, text), map_bytes(t, b, text))).collect()),
        (Ty::Struct(d), Val::Struct(v)) => Val::Struct(def(d, v)),
        (Ty::Enum(vs), Val::Enum(i, p)) => {
            let p = match (&vs[i].kind, *p) {
                (VKind::New(t), p) => map_bytes(t, p, text),
                (VKind::Tuple(ts), Val::Seq(v)) => Val::Seq(list(ts.iter().collect(), v)),
                (VKind::Struct(d), Val::Struct(v)) => Val::Struct(def(d, v)),
                (_, p) => p,
            };
            Val::Enum(i, Box::new(p))
        }
        (_, v) => v,
    }
}

/// What the network or a failing medium does to bytes.
pub fn damage(ctx: &mut Ctx, b: &mut Vec<u8>, json: bool) {
    let n = b.len();
    let s = &mut ctx.s;
    let k = s.weighted(&[4, 3, 3, 3, 3, 2, 2, 4, 1]);
    let name = match k {
        0 => { if n > 0 { let i = s.usize(n); b[i] ^= 1 << s.draw(8); } "bit_flip" }
        1 => { if n > 0 { let i = s.usize(n); b[i] = s.draw(256) as u8; } "byte_overwrite" }
        2 => { let i = s.usize(n + 1); b.truncate(i); "truncation" }
        3 => { if n > 0 { let i = s.usize(n); let l = 1 + s.usize((n - i).min(8)); b.drain(i..i + l); } "bytes_lost" }
        4 => { let i = s.usize(n + 1); let m = 1 + s.usize(4); for _ in 0..m { let c = junk(s, json); b.insert(i, c); } "bytes_inserted" }
        5 => { if n > 1 { let i = s.usize(n); let l = 1 + s.usize((n - i).min(32)); let c = b[i..i + l].to_vec(); let at = s.usize(n + 1); b.splice(at..at, c); } "chunk_duplicated" }
        6 => { if n > 1 { let i = s.usize(n); let j = s.usize(n); b.swap(i, j); } "bytes_reordered" }
        7 => { if n > 0 { let i = s.usize(n); b[i] = junk(s, json); } "structural_corruption" }
        _ => { if n > 0 { let i = s.usize(n); b[i..].fill(0); } "zero_filled_tail" }
    };
    ctx.fault(name);
    ctx.ev(name, b.len() as u64, 0, || crate::ctx::show(b));
}
fn junk(s: &mut Src, json: bool) -> u8 {
    if json { *s.pick(b"\"\\,:[]{}0919-+.eEntfu/= \n\t\x00\x1f\x7f\x80\xc3\xf0\xff") }
    else { *s.pick(&[0xc1, 0xc0, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xbf, 0xc4, 0xc6, 0xc7, 0xc9, 0xca, 0xcb, 0xcc, 0xcf, 0xd0, 0xd3, 0xd4, 0xd8, 0xd9, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff, 0x00, 0x7f]) }
}

/// Pre-check used by the harness to decide known findings.
pub fn probe(what: &str) -> i32 {
    match what {
        "mp-any-depth" => c08::deep_any(),
        "js-any-depth" => c10::deep(false),
        "js-ignored-depth" => c10::deep(true),
        _ => { eprintln!("unknown probe {what}"); 2 }
    }
}
