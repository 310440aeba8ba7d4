//! C04: running out of heap while serializing.
use super::*;
#[cfg(feature = "heap")]
use crate::alloc::{armed, Mode};
use crate::ctx::R;

#[cfg(not(feature = "heap"))]
pub fn run(_: &mut Ctx) -> R { Ok(()) }

#[cfg(feature = "heap")]
pub fn run(ctx: &mut Ctx) -> R {
    use crate::ctx::{bad, show};
    use crate::ensure;
    use crate::sinks::*;
    use ser_write::SerError;

    let json = ctx.s.bool();
    // text collected from a display formatter goes through a temporary string in MessagePack builds with heap
    let g = Gen { disp: true, ..gener(ctx, json) };
    let (t, v, f) = message(ctx, json, g);
    let (v, f) = if json && ctx.s.chance(1, 10) { (fragments_for_pass(&mut ctx.s, &t, v), Fmt::Js(Enc::Pass)) } else { (v, f) };
    let mut w = VecSink::default();
    let r = ser(f, &mut w, &t, &v);
    ensure!(ctx, r.is_ok(), "reference-sink-error", "an unlimited sink got {r:?}");
    let full = w.0;
    let check_err = |ctx: &mut Ctx, r: &SErr<SerError>, what: &str| -> R {
        match r {
            SErr::Writer(SerError::BufferFull) => {}
            SErr::Format if has_disp(&t) => {}
            e => return bad("wrong-error", || format!("{what}: out of memory reported as {e:?}")),
        }
        ctx.checks += 1;
        Ok(())
    };
    let modes = |ctx: &mut Ctx, n: u64| -> Vec<Mode> {
        let mut m: Vec<Mode> = vec![];
        let all = if ctx.deep { 60 } else { 16 };
        for k in 0..n.min(all) { m.push(if ctx.s.bool() { Mode::FailFrom(k) } else { Mode::FailOne(k) }); }
        if n > all { for _ in 0..4 { m.push(Mode::FailFrom(ctx.s.draw(n))); } }
        m.push(Mode::Budget(ctx.s.usize(full.len() * 2 + 16)));
        m
    };

    let owned_form = !matches!(f, Fmt::Js(Enc::PreHex | Enc::PreB64)) && ctx.s.chance(2, 5);
    if owned_form {
        let (r, rep) = armed(Mode::Count, || owned(f, &t, &v));
        ensure!(ctx, r.as_ref() == Ok(&full), "owned-differs", "{f:?}: the owned result is {r:?} instead of {}", show(&full));
        ctx.ev("owned", rep.allocs, full.len() as u64, || format!("{f:?} {}", show(&full)));
        for m in modes(ctx, rep.allocs) {
            let (r, rep) = armed(m, || owned(f, &t, &v));
            ctx.ev("oom", rep.failed, rep.allocs, || format!("{m:?} → {:?}", r.as_ref().map(|b| b.len())));
            if rep.failed > 0 { ctx.fault("allocation_fails") }
            match r {
                Ok(b) => ensure!(ctx, rep.failed == 0 || b == full, "success-without-memory", "{m:?}: Ok with {}", show(&b)),
                Err(e) => {
                    ensure!(ctx, rep.failed > 0, "error-with-memory", "{m:?}: {e:?} although no allocation failed");
                    check_err(ctx, &e, "owned result")?;
                }
            }
            let (r, _) = armed(Mode::Count, || owned(f, &t, &v));
            ensure!(ctx, r.as_ref() == Ok(&full), "not-recovered", "with memory back the same call returned {r:?}");
        }
        return Ok(())
    }
    let kind = ctx.s.usize(GROW.len());
    let pre = gen_bytes(&mut ctx.s, false);
    with_grow(kind, |s, spec| {
        // how many allocations does it take?
        let r = s.write(&pre);
        ensure!(ctx, r.is_ok(), "prefill", "{}: {r:?}", spec.name);
        let (r, rep) = armed(Mode::Count, || ser(f, s, &t, &v));
        let want: Vec<u8> = pre.iter().chain(&full).copied().collect();
        ensure!(ctx, r.is_ok() && s.content() == want, "sink-differs", "{}: {r:?} {}", spec.name, show(&s.content()));
        ctx.ev("sink", rep.allocs, full.len() as u64, || format!("{} {f:?} {}", spec.name, show(&full)));
        modes(ctx, rep.allocs)
    .into_iter().try_for_each(|m| with_grow(kind, |s, spec| -> R {
            let r = s.write(&pre);
            ensure!(ctx, r.is_ok(), "prefill", "{}: {r:?}", spec.name);
            let (r, rep) = armed(m, || ser(f, s, &t, &v));
            let c = s.content();
            ctx.ev("oom", rep.failed, c.len() as u64, || format!("{} {m:?} → {r:?}", spec.name));
            if rep.failed > 0 { ctx.fault("allocation_fails") }
            ensure!(ctx, c.starts_with(&pre), "earlier-bytes-changed", "{}: content held before changed to {}", spec.name, show(&c));
            match r {
                Ok(()) => ensure!(ctx, c == want, "success-without-memory", "{}: {m:?}: Ok with {}", spec.name, show(&c)),
                Err(e) => {
                    ensure!(ctx, rep.failed > 0, "error-with-memory", "{}: {m:?}: {e:?} although no allocation failed", spec.name);
                    check_err(ctx, &e, spec.name)?;
                    ensure!(ctx, full.starts_with(&c[pre.len()..]), "not-a-prefix", "{}: holds {} which is no prefix of {}", spec.name, show(&c[pre.len()..]), show(&full));
                }
            }
            // memory is back: drop the torn message and send it again
            let again = if s.shorten(pre.len(), false) { want.clone() } else { s.wipe(); full.clone() };
            let (r, _) = armed(Mode::Count, || ser(f, s, &t, &v));
            ensure!(ctx, r.is_ok() && s.content() == again, "not-recovered", "{}: with memory back {r:?} {}", spec.name, show(&s.content()));
            Ok(())
        }))
    })
}
