//! C13: whenever JSON serialization succeeds it wrote one valid document saying the value.
use super::c12::{name, plan, rich};
use super::*;
use crate::ctx::{bad, show, R};
use crate::ensure;
use crate::sinks::VecSink;

/// The same type with all display text delivered in another manner.
fn rechop(t: &Ty, to: &Ty) -> Ty {
    let f = |t: &Ty| rechop(t, to);
    let b = |t: &Ty| Box::new(rechop(t, to));
    let d = |d: &Def| Def { fields: d.fields.iter().map(|x| Field { ty: f(&x.ty), ..x.clone() }).collect() };
    match t {
        Ty::Disp(_) => to.clone(),
        Ty::Opt(t) => Ty::Opt(b(t)), Ty::New(t) => Ty::New(b(t)), Ty::Seq(t) => Ty::Seq(b(t)),
        Ty::Tuple(ts) => Ty::Tuple(ts.iter().map(f).collect()), Ty::TupleStruct(ts) => Ty::TupleStruct(ts.iter().map(f).collect()),
        Ty::Map(k, v) => Ty::Map(b(k), b(v)),
        Ty::Struct(x) => Ty::Struct(Box::new(d(x))),
        Ty::Enum(vs) => Ty::Enum(vs.iter().map(|v| Var { kind: match &v.kind {
            VKind::Unit => VKind::Unit, VKind::New(t) => VKind::New(f(t)), VKind::Tuple(ts) => VKind::Tuple(ts.iter().map(f).collect()), VKind::Struct(x) => VKind::Struct(d(x)),
        }, ..v.clone() }).collect()),
        t => t.clone(),
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.s.chance(1, 12) { return zoo::js(ctx, zoo::Op::Form) }
    // keys of any kind now and then
    let wild = ctx.s.chance(1, 3);
    let g = Gen { json: !wild, ..gener(ctx, !wild) };
    let (t, v) = rich(ctx, g);
    let pass = ctx.s.chance(1, 6);
    let v = if pass { fragments_for_pass(&mut ctx.s, &t, v) } else { v };
    let keys = refjson::keys_ok(&t, &v);
    if !keys { ctx.fault("unrepresentable_key") }
    let sites = { let _g = lies(vec![]); let _ = ser(Fmt::Js(Enc::Array), &mut VecSink::default(), &t, &v); lie_sites() };
    let rounds = 1 + ctx.s.usize(4);
    for _ in 0..rounds {
        let enc = if pass { Enc::Pass } else { *ctx.s.pick(ENCS) };
        let p = if ctx.s.chance(1, 3) { vec![] } else { plan(ctx, sites) };
        let mut w = VecSink::default();
        let r = { let _g = lies(p.clone()); ser(Fmt::Js(enc), &mut w, &t, &v) };
        let told = lies_told();
        if ctx.s.chance(1, 4) {
            // the object that had to do with the misbehaving value goes on to the next one
            let mut z = Serz::new(Fmt::Js(enc), VecSink::default());
            { let _g = lies(p.clone()); let _ = z.put(&t, &v); }
            let at = z.writer_ref().0.len();
            let r1 = z.put(&t, &v);
            let mut fresh = VecSink::default();
            let r2 = ser(Fmt::Js(enc), &mut fresh, &t, &v);
            ctx.ev("reuse", at as u64, r1.is_ok() as u64, String::new);
            ensure!(ctx, r1 == r2 && z.writer_ref().0[at..] == fresh.0[..], "object-spoiled", "{enc:?}: after {p:?} the serializer object writes {} as {} ({r1:?}), a new one as {} ({r2:?})", brief(&v), show(&z.writer_ref().0[at..]), show(&fresh.0));
        }
        for (_, l) in &p { if told > 0 { ctx.fault(name(l)) } }
        let has = |f: fn(&Lie) -> bool| p.iter().any(|(_, l)| f(l));
        ctx.ev("serialize", told as u64, (w.0.len() as u64) << 1 | r.is_ok() as u64, || format!("{enc:?} {} with {p:?} ({told} told): {r:?}, {}", brief(&v), show(&w.0)));
        if r.is_ok() {
            let j = match refjson::strict(&w.0) {
                Ok(j) => j,
                Err(e) => return bad("not-a-document", || format!("{enc:?}: {} with {p:?} reported success, the output is not one JSON document ({e}): {}", brief(&v), show(&w.0))),
            };
            let altered = told > 0 && has(|l| matches!(l, Lie::SkipCounted(_) | Lie::Unstable(_)));
            // (a skipped field may be the one with the bad key)
            if !altered {
                ensure!(ctx, keys, "bad-key-accepted", "{enc:?}: {} was written as {}", brief(&v), show(&w.0));
                if let Err(e) = refjson::matches(&t, &v, &j, enc) { return bad("wrong-document", || format!("{enc:?}: {} with {p:?} was written as {}: {e}", brief(&v), show(&w.0))) }
            }
            // a failure of the value must have surfaced
            if told > 0 && p.len() == 1 && has(|l| matches!(l, Lie::FailAfter(_) | Lie::FmtErr)) {
                return bad("failure-swallowed", || format!("{enc:?}: {} with {p:?} reported success: {}", brief(&v), show(&w.0)))
            }
        }
        if p.is_empty() {
            // however the text is chopped into pieces
            let other = match ctx.s.draw(9) { 8 => Ty::Str(false), m => Ty::Disp(m as u8) };
            let t2 = rechop(&t, &other);
            if t2 != t {
                let mut w2 = VecSink::default();
                let r2 = ser(Fmt::Js(enc), &mut w2, &t2, &v);
                ctx.fault("text_chopped");
                ctx.ev("rechop", w2.0.len() as u64, r2.is_ok() as u64, || format!("{other:?}"));
                ensure!(ctx, r2.is_ok() == r.is_ok() && (r.is_err() || w2.0 == w.0), "chopping-matters", "{enc:?}: {} is {r:?} {} in one piece pattern, {r2:?} {} with {other:?}", brief(&v), show(&w.0), show(&w2.0));
            }
            #[cfg(feature = "heap")]
            if enc == Enc::Pass || ctx.s.chance(1, 4) {
                let r3 = owned(Fmt::Js(enc), &t, &v);
                if !matches!(enc, Enc::PreHex | Enc::PreB64) {
                    ensure!(ctx, r3.is_ok() == r.is_ok() && r3.as_ref().ok().is_none_or(|b| *b == w.0), "owned-string-differs", "{enc:?}: {} gives {} as an owned string, {} otherwise", brief(&v), brief(&r3), show(&w.0));
                }
            }
        }
    }
    #[cfg(feature = "heap")]
    if ctx.s.chance(1, 8) {
        // fragments that are not text cannot become a string
        let t = Ty::Bytes(false);
        let v = Val::Bytes(gen_bytes(&mut ctx.s, false));
        let Val::Bytes(b) = &v else { return Ok(()) };
        let valid = std::str::from_utf8(b).is_ok();
        let r = owned(Fmt::Js(Enc::Pass), &t, &v);
        ctx.fault("fragment_not_text");
        match &r {
            Ok(s) => ensure!(ctx, valid && s == b, "invalid-string", "{} became a string", show(b)),
            Err(_) => ensure!(ctx, !valid, "valid-fragment-rejected", "{}: {r:?}", show(b)),
        }
    }
    Ok(())
}
