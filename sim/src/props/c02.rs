//! C02: fixed-size buffers.
use super::*;
use crate::ctx::{bad, show, R};
use crate::ensure;
use crate::sinks::*;
use ser_write::{SerError, SliceWriter};

struct M { t: Ty, v: Val, f: Fmt, bytes: Vec<u8> }

fn messages(ctx: &mut Ctx, n: usize) -> R<Vec<M>> {
    let mut out = vec![];
    for _ in 0..n {
        let (t, v, f) = any_message(ctx);
        let mut w = VecSink::default();
        let r = ser(f, &mut w, &t, &v);
        ensure!(ctx, r.is_ok(), "reference-sink-error", "an unlimited sink got {r:?} for {} of type {}", brief(&v), brief(&t));
        out.push(M { t, v, f, bytes: w.0 });
    }
    Ok(out)
}

/// One message into a sink whose content and capacity are known.
fn put(ctx: &mut Ctx, s: &mut dyn Sink, name: &str, cap: usize, m: &M) -> R<bool> {
    let before = s.content();
    let spare = s.tail();
    let rem = cap - before.len();
    let r = ser(m.f, s, &m.t, &m.v);
    let after = s.content();
    ctx.ev("put", m.bytes.len() as u64, rem as u64, || format!("{:?} into {name} with {rem} of {cap} left → {r:?}: {}", m.f, show(&m.bytes)));
    ensure!(ctx, after.len() <= cap, "overfull", "{name} of capacity {cap} holds {} bytes", after.len());
    ensure!(ctx, after.starts_with(&before), "earlier-bytes-changed", "{name}: bytes before the starting position changed: {} → {}", show(&before), show(&after));
    let new = &after[before.len()..];
    if let (Some(a), Some(b)) = (spare, s.tail()) {
        ensure!(ctx, a.len() >= new.len() && a[new.len()..] == b[..], "wrote-beyond-length", "{name}: bytes beyond the reported length changed: {} → {}", show(&a[new.len().min(a.len())..]), show(&b));
    }
    if m.bytes.len() <= rem {
        ensure!(ctx, r.is_ok(), "fits-but-fails", "{name}: {} bytes fit in {rem} but serialization returned {r:?}", m.bytes.len());
        ensure!(ctx, new == &m.bytes[..], "other-bytes", "{name} received {} where an unlimited sink receives {}", show(new), show(&m.bytes));
        Ok(true)
    } else {
        ctx.fault("buffer_too_small");
        match &r {
            Ok(()) => return bad("success-but-does-not-fit", || format!("{name}: {} bytes cannot fit in {rem}, yet Ok with {}", m.bytes.len(), show(new))),
            Err(SErr::Writer(SerError::BufferFull)) => {}
            Err(SErr::Format) if has_disp(&m.t) => {}
            Err(e) => return bad("wrong-error", || format!("{name}: the buffer is too small but the error is {e:?}")),
        }
        ensure!(ctx, m.bytes.starts_with(new), "not-a-prefix", "{name}: wrote {} which is no prefix of {}", show(new), show(&m.bytes));
        Ok(false)
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    let n = 1 + ctx.s.usize(4);
    let ms = messages(ctx, n)?;
    match ctx.s.draw(5) {
        // compile-time capacities: move the start so that the boundary falls inside or at the ends of a message
        0 | 1 => {
            let kind = ctx.s.usize(SIZED.len());
            let len = ms[0].bytes.len();
            let fit: Vec<usize> = SIZES.iter().copied().filter(|c| *c >= len).collect();
            let size = if fit.is_empty() || ctx.s.chance(1, 6) { *ctx.s.pick(SIZES) } else { fit[ctx.s.usize(fit.len().min(3))] };
            // leave len + {-3..2} bytes free
            let free = (len + ctx.s.usize(6)).saturating_sub(3).min(size);
            with_sized(kind, size, |s, spec| {
                let pre = vec![0x5a; size - free];
                let r = s.write(&pre);
                ensure!(ctx, r.is_ok(), "prefill", "{}: {} bytes into an empty buffer of {size}: {r:?}", spec.name, pre.len());
                history(ctx, s, spec.name, size, &ms)
            })
        }
        // capacities decided at run time
        2 | 3 => {
            let kind = ctx.s.usize(FIXED.len());
            let upto = ctx.s.usize(ms.len()) + 1;
            let sum: usize = ms[..upto].iter().map(|m| m.bytes.len()).sum();
            let cap = if ctx.s.chance(1, 3) { ctx.s.usize(sum + 1) } else { (sum + ctx.s.usize(6)).saturating_sub(3) };
            let fill = ctx.s.draw(256) as u8;
            let mut mem = guarded(cap, fill);
            with_fixed(kind, &mut mem, |s, spec| history(ctx, s, spec.name, cap, &ms))?;
            ensure!(ctx, canaries_ok(&mem), "wrote-outside", "{}: bytes around the buffer changed", FIXED[kind]);
            Ok(())
        }
        // packing and splitting
        _ => {
            let sum: usize = ms.iter().map(|m| m.bytes.len()).sum();
            let cap = (sum + ctx.s.usize(8)).saturating_sub(ctx.s.usize(4));
            let fill = ctx.s.draw(256) as u8;
            let mut mem = guarded(cap, fill);
            let n = mem.len();
            {
                let mut w = SliceWriter::new(&mut mem[PAD..n - PAD]);
                let mut pieces: Vec<(&mut [u8], Vec<u8>)> = vec![];
                for m in &ms {
                    let c = w.capacity();
                    let ok = put(ctx, &mut w, "SliceWriter", c, m)?;
                    if !ok && ctx.s.bool() { w.clear(); }
                    if ctx.s.bool() {
                        let keep = w.as_ref().to_vec();
                        let (piece, rest) = w.split();
                        ctx.ev("split", keep.len() as u64, rest.capacity() as u64, String::new);
                        ensure!(ctx, piece == &keep[..], "split-piece", "split returned {} instead of {}", show(piece), show(&keep));
                        ensure!(ctx, rest.capacity() == c - keep.len() && rest.is_empty(), "split-rest", "capacity {} after splitting {} of {c}", rest.capacity(), keep.len());
                        w = rest;
                        pieces.push((piece, keep));
                    }
                }
                for (p, keep) in &pieces { ensure!(ctx, &**p == &keep[..], "piece-changed", "a piece split off earlier changed to {}", show(p)); }
            }
            ensure!(ctx, canaries_ok(&mem), "wrote-outside", "bytes around the buffer changed");
            Ok(())
        }
    }
}

fn history(ctx: &mut Ctx, s: &mut dyn Sink, name: &str, cap: usize, ms: &[M]) -> R {
    for m in ms {
        let len = s.content().len();
        let ok = put(ctx, s, name, cap, m)?;
        if !ok {
            // undo, keep the partial message, or start over
            match ctx.s.draw(3) { 0 => { s.shorten(len, false); } 1 => {} _ => s.wipe() }
        }
    }
    Ok(())
}
