//! C05: fixed buffers and borrowing deserialization work without any heap.
use super::*;
use crate::alloc::{armed, Mode};
use crate::ctx::{show, R};
use crate::ensure;
use crate::sinks::*;

pub fn run(ctx: &mut Ctx) -> R {
    let json = ctx.s.bool();
    let heap = cfg!(feature = "heap");
    let g = Gen { disp: true, ..gener(ctx, json) };
    let (t, v, f) = message(ctx, json, g);
    let (v, f) = if json && ctx.s.chance(1, 10) { (fragments_for_pass(&mut ctx.s, &t, v), Fmt::Js(Enc::Pass)) } else { (v, f) };
    let mut w = VecSink::default();
    let r = ser(f, &mut w, &t, &v);
    ensure!(ctx, r.is_ok(), "reference-sink-error", "an unlimited sink got {r:?}");
    let full = w.0;

    // serialization into buffers around the needed size
    for _ in 0..2 {
        let cap = match ctx.s.draw(3) { 0 => full.len(), 1 => full.len() + ctx.s.usize(4), _ => ctx.s.usize(full.len() + 1) };
        let fixed = ctx.s.bool();
        let kind = ctx.s.usize(if fixed { FIXED.len() - 1 } else { SIZED.len() });
        let size = SIZES.iter().copied().find(|c| *c >= cap).unwrap_or(4096);
        let mut mem = guarded(cap, 0);
        let mut go = |mode: Mode| {
            let mut one = |s: &mut dyn Sink, spec: Spec| { let (r, rep) = armed(mode, || ser(f, s, &t, &v)); (spec.name, r, s.content(), rep) };
            if fixed { with_fixed(kind, &mut mem, &mut one) } else { with_sized(kind, size, &mut one) }
        };
        let (name, r0, c0, _) = go(Mode::Count);
        let (_, r1, c1, rep) = go(Mode::FailFrom(0));
        if rep.failed > 0 { ctx.fault("allocation_fails") } else { ctx.fault("no_heap_at_all") }
        ctx.ev("serialize", cap as u64, full.len() as u64, || format!("{f:?} into {name}: {r1:?}, {} allocations refused", rep.failed));
        // display text takes a temporary string in MessagePack builds with heap: without memory an error, what was written a prefix
        if !json && heap && rep.failed > 0 && has_disp(&t) {
            ensure!(ctx, matches!(r1, Err(SErr::Format)) && c0.starts_with(&c1), "wrong-error", "{f:?} into {name}: {r1:?} without memory, holds {}", show(&c1));
            continue
        }
        ensure!(ctx, r0 == r1, "result-depends-on-heap", "{f:?} into {name}: {r0:?} with memory, {r1:?} without");
        ensure!(ctx, c0 == c1, "bytes-depend-on-heap", "{f:?} into {name}: {} with memory, {} without", show(&c0), show(&c1));
    }

    // deserialization of what was written, sometimes damaged or as another type
    let mut input = full.clone();
    if f == Fmt::Js(Enc::Pass) { return Ok(()) }
    let n = ctx.s.usize(3);
    for _ in 0..n { damage(ctx, &mut input, json); }
    let ty = match ctx.s.draw(4) {
        0 => gen_typed(&mut ctx.s, Gen { big: false, max_depth: 2, ..Gen::new(json) }).0,
        1 => if ctx.s.bool() { Ty::Ignored } else { Ty::Any },
        _ => t.clone(),
    };
    let dec = match f { Fmt::Js(e) => if ctx.s.chance(1, 8) { *ctx.s.pick(DECS) } else { e.decoder() }, _ => Dec::Nope };
    let go = |mode: Mode| -> (String, bool, Vec<u8>, u64) {
        if json {
            let mut b = input.clone();
            let (r, rep) = armed(mode, || js_de(dec, &ty, &mut b));
            let custom = matches!(&r, Err(e) if j_is_custom(e));
            (format!("{r:?}"), custom, b, rep.failed)
        } else {
            let (r, rep) = armed(mode, || mp_de(&ty, &input));
            let custom = matches!(&r, Err(e) if m_is_custom(e));
            (format!("{r:?}"), custom, vec![], rep.failed)
        }
    };
    let (r0, custom, b0, _) = go(Mode::Count);
    // the wording of custom errors is kept on the heap where there is one
    if custom && heap { ctx.probe("custom_error_skipped"); return Ok(()) }
    let (r1, _, b1, failed) = go(Mode::FailFrom(0));
    if failed > 0 { ctx.fault("allocation_fails") } else { ctx.fault("no_heap_at_all") }
    ctx.ev("deserialize", input.len() as u64, failed, || format!("{} as {} → {}", show(&input), brief(&ty), crate::ctx::cut(&r1)));
    ensure!(ctx, r0 == r1, "result-depends-on-heap", "{} as {}: {} with memory, {} without", show(&input), brief(&ty), crate::ctx::cut(&r0), crate::ctx::cut(&r1));
    ensure!(ctx, b0 == b1, "buffer-depends-on-heap", "decoding left {} with memory, {} without", show(&b0), show(&b1));
    Ok(())
}
