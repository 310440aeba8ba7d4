//! C14: peers of other versions and flavours.
use super::*;
use crate::ctx::{bad, show, R};
use crate::ensure;
use crate::refjson::{same, Style};
use crate::refmp;
use crate::sinks::VecSink;
use ser_write_json::de as jd;
use serde::de::DeserializeSeed;

/// How the receiver's idea of a type differs from the sender's.
struct Evolve { positional: bool, rate: u64, changes: u32, json: bool, receiver: bool }

impl Evolve {
    fn ty(&mut self, s: &mut Src, t: &Ty) -> Ty {
        let n = self.same_kind(s, t);
        if s.chance(1, self.rate * 6) { self.changes += 1; self.other_kind(s, n) } else { n }
    }
    /// The field has become something else.
    fn other_kind(&mut self, s: &mut Src, t: Ty) -> Ty {
        let bx = Box::new;
        match (s.draw(if self.receiver { 7 } else { 4 }), t) {
            (0, Ty::Opt(t)) | (0, Ty::New(t)) => *t,
            (0, t) => if nullable(&t, self.json) { Ty::New(bx(t)) } else { Ty::Opt(bx(t)) },
            (1, t) => Ty::New(bx(t)),
            (2, Ty::F32) => Ty::F64,
            (2, Ty::F64) => Ty::F32,
            (2, Ty::I(_) | Ty::U(_)) => if s.bool() { Ty::F64 } else { Ty::F32 },
            (2, Ty::Char | Ty::Disp(_)) => Ty::Str(s.bool()),
            (2, Ty::Str(_)) => if s.bool() { Ty::Char } else { Ty::Bytes(s.bool()) },
            (2, Ty::Tuple(ts)) => Ty::TupleStruct(ts),
            (2, Ty::TupleStruct(ts)) => Ty::Tuple(ts),
            (2, Ty::Seq(t)) => Ty::Tuple(vec![(*t).clone(), *t]),
            (2, Ty::Map(_, v)) => Ty::Map(bx(gen_key_ty(s, Gen::new(true), 0)), v),
            (2, Ty::Struct(d)) if !d.fields.is_empty() => Ty::Enum(d.fields.iter().enumerate().map(|(i, f)| Var { idx: i as u32, name: f.name, kind: VKind::New(f.ty.clone()) }).collect()),
            (2, Ty::Unit | Ty::UnitStruct) => Ty::Opt(bx(Ty::U(8))),
            (3, _) => gen_scalar_ty(s, Gen::new(self.json)),
            (4, Ty::Struct(_)) => Ty::Map(bx(if self.json { Ty::Str(true) } else { Ty::Any }), bx(Ty::Any)),
            (4, Ty::Tuple(_) | Ty::TupleStruct(_)) => Ty::Seq(bx(Ty::Any)),
            (5, _) => Ty::Ignored,
            (4 | 6, _) => Ty::Any,
            (_, t) => t,
        }
    }
    fn same_kind(&mut self, s: &mut Src, t: &Ty) -> Ty {
        match t {
            Ty::I(n) => Ty::I(self.width(s, *n)),
            Ty::U(n) => {
                let w = self.width(s, *n);
                if s.chance(1, self.rate * 3) { self.changes += 1; Ty::I(w) } else { Ty::U(w) }
            }
            Ty::Opt(t) => Ty::Opt(Box::new(self.ty(s, t))),
            Ty::New(t) => Ty::New(Box::new(self.ty(s, t))),
            Ty::Seq(t) => Ty::Seq(Box::new(self.ty(s, t))),
            Ty::Tuple(ts) => Ty::Tuple(self.tuple(s, ts)),
            Ty::TupleStruct(ts) => Ty::TupleStruct(self.tuple(s, ts)),
            Ty::Map(k, v) => Ty::Map(Box::new(self.key(s, k)), Box::new(self.ty(s, v))),
            Ty::Struct(d) => Ty::Struct(Box::new(self.def(s, d))),
            Ty::Enum(vs) => Ty::Enum(self.vars(s, vs)),
            t => t.clone(),
        }
    }
    fn key(&mut self, s: &mut Src, k: &Ty) -> Ty {
        match k {
            Ty::I(n) => Ty::I(self.width(s, *n)),
            Ty::U(n) => { let w = self.width(s, *n); if s.chance(1, self.rate * 3) { self.changes += 1; Ty::I(w) } else { Ty::U(w) } }
            Ty::New(k) => Ty::New(Box::new(self.key(s, k))),
            Ty::Enum(vs) => Ty::Enum(self.vars(s, vs)),
            k if s.chance(1, self.rate * 6) => { self.changes += 1; match (s.draw(3), k) { (0, Ty::Str(_)) => Ty::Char, (0, _) => Ty::Str(s.bool()), (1, _) => Ty::U(64), _ => Ty::Bool } }
            k => k.clone(),
        }
    }
    fn width(&mut self, s: &mut Src, n: u8) -> u8 {
        if s.chance(1, self.rate) { self.changes += 1; *s.pick(&[8, 16, 32, 64]) } else { n }
    }
    fn tuple(&mut self, s: &mut Src, ts: &[Ty]) -> Vec<Ty> {
        let mut v: Vec<Ty> = ts.iter().map(|t| self.ty(s, t)).collect();
        if s.chance(1, self.rate * 3) {
            self.changes += 1;
            if s.bool() && !v.is_empty() { v.pop(); } else { v.push(Ty::U(8)); }
        }
        v
    }
    fn def(&mut self, s: &mut Src, d: &Def) -> Def {
        let mut f: Vec<Field> = d.fields.iter().map(|f| Field { ty: self.ty(s, &f.ty), ..f.clone() }).collect();
        let next = f.iter().map(|f| f.idx + 1).max().unwrap_or(0);
        let rounds = if s.chance(2, self.rate) { 1 + s.usize(3) } else { 0 };
        for _ in 0..rounds {
            self.changes += 1;
            match s.draw(6) {
                0 if !f.is_empty() => { if self.positional { f.pop(); } else { let i = s.usize(f.len()); f.remove(i); } }
                1 if !self.positional && f.len() > 1 => { let i = s.usize(f.len()); let x = f.remove(i); let j = s.usize(f.len() + 1); f.insert(j, x); }
                2 if !f.is_empty() => { let i = s.usize(f.len()); f[i].opt = true; }
                3 if !f.is_empty() => { let i = s.usize(f.len()); f[i].opt = false; }
                _ => {
                    let used = |n: &str| d.fields.iter().chain(&f).any(|x| x.name == n);
                    let Some(name) = names().iter().find(|n| !used(n)) else { continue };
                    let taken = f.iter().map(|f| f.idx + 1).max().unwrap_or(0).max(next);
                    let x = Field { name, ty: gen_scalar_ty(s, Gen::new(true)), opt: s.chance(5, 6), idx: taken };
                    if self.positional { f.push(x) } else { let j = s.usize(f.len() + 1); f.insert(j, x) }
                }
            }
        }
        Def { fields: f }
    }
    fn vars(&mut self, s: &mut Src, vs: &[Var]) -> Vec<Var> {
        let mut v: Vec<Var> = vs.iter().map(|v| Var { kind: match &v.kind {
            VKind::Unit => VKind::Unit, VKind::New(t) => VKind::New(self.ty(s, t)), VKind::Tuple(ts) => VKind::Tuple(self.tuple(s, ts)), VKind::Struct(d) => VKind::Struct(self.def(s, d)),
        }, ..v.clone() }).collect();
        if s.chance(1, self.rate) {
            self.changes += 1;
            match s.draw(3) {
                0 if v.len() > 1 => { let i = s.usize(v.len()); v.remove(i); }
                1 if v.len() > 1 => { let i = s.usize(v.len()); let x = v.remove(i); v.push(x); }
                _ => {
                    let used = |n: &str| vs.iter().any(|x| x.name == n);
                    let idx = vs.iter().map(|v| v.idx).max().unwrap_or(0).saturating_add(1);
                    if let Some(name) = names().iter().rev().find(|n| !used(n)) { v.insert(0, Var { idx, name, kind: VKind::Unit }); }
                }
            }
        }
        v
    }
}

/// A sender declares its fields in the order of their indices.
fn ordered(t: &mut Ty) {
    fn def(d: &mut Def) { d.fields.sort_by_key(|f| f.idx); for f in &mut d.fields { ordered(&mut f.ty) } }
    match t {
        Ty::Opt(t) | Ty::New(t) | Ty::Seq(t) => ordered(t),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => ts.iter_mut().for_each(ordered),
        Ty::Map(_, v) => ordered(v),
        Ty::Struct(d) => def(d),
        Ty::Enum(vs) => for v in vs { match &mut v.kind { VKind::New(t) => ordered(t), VKind::Tuple(ts) => ts.iter_mut().for_each(ordered), VKind::Struct(d) => def(d), VKind::Unit => {} } },
        _ => {}
    }
}

struct Msg { t: Ty, to: Ty, v: Val, bytes: Vec<u8>, expect: Option<Val> }

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.s.chance(1, 10) { return zoo::versions(ctx) }
    let json = ctx.s.bool();
    let g = gener(ctx, json);
    let n = 1 + ctx.s.usize(4);
    let enc = *ctx.s.pick(ENCS);
    let mut msgs: Vec<Msg> = vec![];
    let mut versions: Vec<(Ty, Val)> = vec![];
    for i in 0..n {
        // several versions of one protocol, or unrelated messages
        let (t, v) = if !versions.is_empty() && ctx.s.bool() {
            let (t, _) = versions[ctx.s.usize(versions.len())].clone();
            let rate = 3;
            let mut t = Evolve { positional: false, rate, changes: 0, json, receiver: false }.ty(&mut ctx.s, &t);
            ordered(&mut t);
            let v = gen_val(&mut ctx.s, &t, g, &mut Budget(100));
            (t, v)
        } else {
            let (t, v) = gen_typed(&mut ctx.s, g);
            if ctx.s.bool() && !matches!(t, Ty::Struct(_) | Ty::Enum(_)) { let d = gen_def(&mut ctx.s, g, 2); let t = Ty::Struct(Box::new(d)); let v = gen_val(&mut ctx.s, &t, g, &mut Budget(100)); (t, v) } else { (t, v) }
        };
        versions.push((t.clone(), v.clone()));
        let foreign = ctx.s.chance(1, 4);
        let mut bytes = vec![];
        let (to, expect, what);
        if json {
            let mut style = Style::draw(&mut ctx.s, enc);
            let positional = foreign && style.structs_as_arrays;
            style.structs_as_arrays = positional;
            to = receiver(ctx, &t, positional, true);
            if foreign { bytes = style.doc(&t, &v) } else { send(ctx, Fmt::Js(enc), &t, &v, &mut bytes)? }
            expect = refjson::read(&to, &bytes, enc.decoder());
            what = format!("{enc:?}");
        } else {
            let fl = flavour(&mut ctx.s, &t, &v);
            to = receiver(ctx, &t, fl == Fl::Compact, false);
            let tree = refmp::to_tree(&t, &v, fl);
            if foreign { let mut w = refmp::Width::random(&mut ctx.s); bytes = refmp::bytes(&tree, &mut w); } else { send(ctx, Fmt::Mp(fl), &t, &v, &mut bytes)? }
            // what is on the wire counts: a foreign encoder may send 1 for 1.0
            let wire = if foreign { match refmp::parse(&bytes) { Ok((w, _)) => w, Err(e) => panic!("harness: {e:?}") } } else { tree };
            expect = refmp::read(&to, &wire);
            what = format!("{fl:?}");
        }
        if to != t { ctx.fault("version_skew") }
        if expect.is_none() { ctx.fault("incompatible_versions") }
        ctx.ev("message", i as u64, bytes.len() as u64, || format!("{what}{} {} of {} for {}: {}", if foreign { " foreign encoder" } else { "" }, brief(&v), brief(&t), brief(&to), show(&bytes)));
        msgs.push(Msg { t, to, v, bytes, expect });
    }
    if json {
        match enc.decoder() {
            Dec::Nope => js_stream::<jd::StringByteNopeDecoder>(ctx, &msgs, Dec::Nope), Dec::Hex => js_stream::<jd::StringByteHexDecoder>(ctx, &msgs, Dec::Hex),
            Dec::Base64 => js_stream::<jd::StringByteBase64Decoder>(ctx, &msgs, Dec::Base64), Dec::Any => js_stream::<AnyDec>(ctx, &msgs, Dec::Any),
        }
    } else { mp_stream(ctx, &msgs) }
}
fn receiver(ctx: &mut Ctx, t: &Ty, positional: bool, json: bool) -> Ty {
    let rate = *ctx.s.pick(&[2u64, 4, 8]);
    let mut e = Evolve { positional, rate, changes: 0, json, receiver: true };
    e.ty(&mut ctx.s, t)
}
fn send(ctx: &mut Ctx, f: Fmt, t: &Ty, v: &Val, out: &mut Vec<u8>) -> R {
    let mut w = VecSink::default();
    let r = ser(f, &mut w, t, v);
    ensure!(ctx, r.is_ok(), "sender-error", "{f:?}: serializing {} failed: {r:?}", brief(v));
    *out = w.0;
    Ok(())
}
fn compare<E: std::fmt::Debug>(ctx: &mut Ctx, m: &Msg, r: &Result<Val, E>) -> R {
    match (r, &m.expect) {
        (Ok(v), Some(w)) => ensure!(ctx, same(v, w), "wrong-assignment", "{} of {} was received as {}: {} instead of {}", brief(&m.v), brief(&m.t), brief(&m.to), brief(v), brief(w)),
        (Err(_), None) => ctx.probe("rejected"),
        (Ok(v), None) => return bad("incompatible-accepted", || format!("{} of {} was received as {}: {}, wire {}", brief(&m.v), brief(&m.t), brief(&m.to), brief(v), show(&m.bytes))),
        (Err(e), Some(w)) => return bad("compatible-rejected", || format!("{} of {} was received as {}: {e:?} instead of {}, wire {}", brief(&m.v), brief(&m.t), brief(&m.to), brief(w), show(&m.bytes))),
    }
    Ok(())
}

fn mp_stream(ctx: &mut Ctx, msgs: &[Msg]) -> R {
    let stream: Vec<u8> = msgs.iter().flat_map(|m| m.bytes.iter().copied()).collect();
    let mut at = 0;
    for m in msgs {
        let r = mp_de(&m.to, &stream[at..]);
        ctx.ev("decode", at as u64, r.is_ok() as u64, || brief(&r));
        if let Ok((_, n)) = &r { if m.expect.is_some() { ensure!(ctx, *n == m.bytes.len(), "out-of-step", "{n} of {} bytes consumed decoding {} as {}", m.bytes.len(), brief(&m.v), brief(&m.to)); } }
        compare(ctx, m, &r.map(|x| x.0))?;
        at += m.bytes.len();
    }
    Ok(())
}
fn js_stream<P: for<'x> jd::StringByteDecoder<'x>>(ctx: &mut Ctx, msgs: &[Msg], dec: Dec) -> R {
    // each on its own, then those that can be read in one slice
    for m in msgs {
        let mut b = m.bytes.clone();
        let r = js_de(dec, &m.to, &mut b);
        ctx.ev("decode", m.bytes.len() as u64, r.is_ok() as u64, || brief(&r));
        compare(ctx, m, &r)?;
    }
    let mut stream = vec![];
    for m in msgs { if m.expect.is_some() { stream.extend_from_slice(&m.bytes); stream.push(b' '); } }
    let mut d = jd::Deserializer::<P>::from_mut_slice(&mut stream);
    for m in msgs {
        if m.expect.is_none() { continue }
        let r = D_(&m.to).deserialize(&mut d);
        ctx.ev("decode-next", m.bytes.len() as u64, r.is_ok() as u64, || brief(&r));
        compare(ctx, m, &r)?;
    }
    Ok(())
}
