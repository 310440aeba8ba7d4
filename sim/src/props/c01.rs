//! C01: a failing writer stops serialization at once and its error is reported.
use super::*;
use crate::ctx::{show, R};
use crate::ensure;
use crate::sinks::{Boom, FaultSink};

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.s.chance(1, 12) { return if ctx.s.bool() { zoo::js(ctx, zoo::Op::FailingWriter) } else { zoo::mp(ctx, zoo::Op::FailingWriter) } }
    let (t, v, f) = any_message(ctx);
    let (t2, v2) = { let g = Gen { big: false, max_depth: 2, ..Gen::new(f.json()) }; gen_typed(&mut ctx.s, g) };
    let v2 = if f == Fmt::Js(Enc::Pass) { fragments_for_pass(&mut ctx.s, &t2, v2) } else { v2 };
    let two = ctx.s.chance(1, 3) && (f != Fmt::Mp(Fl::Compact) || compact_ok(&t2, &v2));
    let wide = ctx.s.bool();
    ctx.note(|| format!("{f:?} writer with own byte/str calls: {wide}; value {} of type {}", brief(&v), brief(&t)));

    // the healthy run
    let mut z = Serz::new(f, FaultSink::new(wide));
    let r = z.put(&t, &v);
    ensure!(ctx, r.is_ok(), "healthy-writer-error", "serializing with a healthy writer failed: {r:?}");
    let full = z.writer().got.clone();
    let n = z.writer().calls;
    ctx.ev("healthy", n, full.len() as u64, || show(&full));
    let full2 = if two {
        let mut z = Serz::new(f, FaultSink::new(wide));
        let r = z.put(&t2, &v2);
        ensure!(ctx, r.is_ok(), "healthy-writer-error", "serializing with a healthy writer failed: {r:?}");
        Some(z.into_inner().got)
    } else { None };

    let ks: Vec<u64> = if n <= 40 { (0..n).collect() } else {
        let m = if ctx.deep { 120 } else { 24 };
        let mut ks: Vec<u64> = (0..m).map(|_| ctx.s.draw(n)).collect();
        ks.extend([0, 1, n - 1, n - 2]);
        ks
    };
    let exhaustive = n <= 40;
    if exhaustive { ctx.probe("every_call_failed_once") }
    for k in ks {
        let part = ctx.s.usize(6);
        z.writer().arm(Some((k, part)));
        let r = z.put(&t, &v);
        let w = z.writer();
        let (failed, after, got) = (w.failed, w.after, w.got.clone());
        ctx.fault("writer_call_fails");
        ctx.ev("fail", k, got.len() as u64, || format!("partial {part} → {r:?} accepted {}", show(&got)));
        ensure!(ctx, after == 0, "called-after-failure", "writer called {after} more times after its call {k} failed (result {r:?})");
        ensure!(ctx, full.starts_with(&got), "not-a-prefix", "accepted {} is not a prefix of {}", show(&got), show(&full));
        match failed {
            Some((k, in_disp)) => {
                if in_disp { ctx.fault("writer_fails_inside_display") }
                match &r {
                    Ok(()) => return crate::ctx::bad("failure-reported-as-success", || format!("call {k} of the writer failed but serialization returned Ok")),
                    Err(SErr::Writer(e)) => ensure!(ctx, *e == Boom(k), "wrong-error", "the writer reported {:?} at call {k}, serialization reported {e:?}", Boom(k)),
                    Err(SErr::Format) => ensure!(ctx, in_disp, "wrong-error", "call {k} failed outside display formatting, yet a formatting error was reported"),
                    Err(e) => return crate::ctx::bad("wrong-error", || format!("the writer failed at call {k}, serialization reported {e:?}")),
                }
            }
            None => ensure!(ctx, r.is_ok() && got == full, "reused-serializer-differs", "with the same serializer object: {r:?} {}", show(&got)),
        }
        // the writer works again: same object, same message or another one
        let heal = ctx.s.draw(3);
        if heal == 0 { continue }
        let (ty, va, want) = match &full2 { Some(f2) if heal == 2 => (&t2, &v2, f2), _ => (&t, &v, &full) };
        z.writer().arm(None);
        let r = z.put(ty, va);
        let got = z.writer().got.clone();
        ctx.ev("healed", heal, got.len() as u64, || format!("{r:?}"));
        ensure!(ctx, r.is_ok(), "not-recovered", "after the failure at call {k} the same serializer returned {r:?} with a working writer");
        ensure!(ctx, &got == want, "not-recovered", "after the failure at call {k} the same serializer wrote {} instead of {}", show(&got), show(want));
    }
    Ok(())
}
