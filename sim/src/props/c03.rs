//! C03: sinks as all-or-nothing append logs under any history of operations.
use super::*;
use crate::alloc::{armed, Mode};
use crate::ctx::{show, R};
use crate::ensure;
use crate::sinks::*;
use ser_write::{SerError, SliceWriter};
use std::fmt::Write as _;

fn payload(ctx: &mut Ctx, rem: usize) -> Vec<u8> {
    let s = &mut ctx.s;
    let n = match s.draw(7) {
        0 => 0,
        1 => rem,
        2 => rem + 1,
        3 => rem.saturating_sub(1),
        4 => s.usize(4),
        5 => s.usize(rem.min(4096) + 3),
        _ => *s.pick(&[8usize, 16, 17, 64, 65, 300, 1000, 5000]),
    }.min(70_000);
    let mut e = Expand::new(s.draw(0));
    let text = s.bool();
    (0..n).map(|_| if text { b' ' + e.below(90) as u8 } else { e.next() as u8 }).collect()
}

fn append(ctx: &mut Ctx, s: &mut dyn Sink, spec: &Spec, model: &mut Vec<u8>, mode: Mode) -> R {
    let rem = spec.cap.map(|c| c - model.len()).unwrap_or(ctx.s.usize(64));
    let p = payload(ctx, rem);
    let how = ctx.s.draw(3);
    let (r, rep, p) = match how {
        0 => { let b = *p.first().unwrap_or(&7); let (r, rep) = armed(mode, || s.write_byte(b)); (r, rep, vec![b]) }
        1 => { let t: String = p.iter().map(|b| (b' ' + b % 90) as char).collect(); let (r, rep) = armed(mode, || s.write_str(&t)); (r, rep, t.into_bytes()) }
        _ => { let (r, rep) = armed(mode, || s.write(&p)); (r, rep, p) }
    };
    let after = s.content();
    ctx.ev(["write_byte", "write_str", "write"][how as usize], p.len() as u64, rem as u64, || format!("{} ({} bytes held) {mode:?} → {r:?}, allocation failures {}", show(&p), model.len(), rep.failed));
    if rep.failed > 0 { ctx.fault("allocation_fails") }
    match r {
        Ok(()) => {
            model.extend_from_slice(&p);
            ensure!(ctx, after == *model, "not-appended", "{}: after a successful append of {} the content is {} instead of {}", spec.name, show(&p), show(&after), show(model));
            if let Some(c) = spec.cap { ensure!(ctx, after.len() <= c, "overfull", "{}: {} bytes in a buffer of {c}", spec.name, after.len()); }
        }
        Err(e) => {
            ensure!(ctx, e == SerError::BufferFull, "wrong-error", "{}: {e:?}", spec.name);
            match spec.cap {
                Some(_) => {
                    ctx.fault("no_capacity");
                    ensure!(ctx, p.len() > rem, "refused-with-room", "{}: refused {} bytes with room for {rem}", spec.name, p.len());
                }
                None => ensure!(ctx, rep.failed > 0, "refused-with-memory", "{}: refused {} bytes although no allocation failed", spec.name, p.len()),
            }
            if spec.partial {
                ensure!(ctx, after.starts_with(model) && p.starts_with(&after[model.len()..]), "content-corrupted", "{}: content became {}", spec.name, show(&after));
                *model = after;
            } else {
                ensure!(ctx, after == *model, "failed-append-left-traces", "{}: a failed append of {} changed the content from {} to {}", spec.name, show(&p), show(model), show(&after));
            }
        }
    }
    Ok(())
}

fn history(ctx: &mut Ctx, s: &mut dyn Sink, spec: &Spec) -> R {
    let mut model: Vec<u8> = vec![];
    let steps = 2 + ctx.s.usize(if ctx.deep { 40 } else { 18 });
    for _ in 0..steps {
        match ctx.s.weighted(&[14, 1, 2, 2]) {
            0 => {
                let mode = if spec.cap.is_none() && ctx.s.chance(1, 3) {
                    match ctx.s.draw(3) { 0 => Mode::FailFrom(0), 1 => Mode::FailOne(0), _ => Mode::Budget(ctx.s.usize(2000)) }
                } else { Mode::Count };
                append(ctx, s, spec, &mut model, mode)?;
            }
            1 => { s.wipe(); model.clear(); ctx.ev("clear", 0, 0, String::new); }
            2 => { let keep = ctx.s.usize(model.len() + 1); if s.shorten(keep, false) { model.truncate(keep); ctx.ev("truncate", keep as u64, 0, String::new); } }
            _ => { let keep = ctx.s.usize(model.len() + 1); if s.shorten(keep, true) { model.drain(..model.len() - keep); ctx.ev("consume", keep as u64, 0, String::new); } }
        }
        let c = s.content();
        ensure!(ctx, c == model, "content-differs", "{}: content {} instead of {}", spec.name, show(&c), show(&model));
    }
    // an empty append always fits
    let r = armed(if spec.cap.is_none() { Mode::FailFrom(0) } else { Mode::Count }, || s.write(&[])).0;
    ensure!(ctx, r.is_ok(), "empty-append-refused", "{}: an empty append returned {r:?}", spec.name);
    Ok(())
}

/// SliceWriter with everything it offers: formatted text, splitting, its own accounts.
fn slice_writer(ctx: &mut Ctx) -> R {
    let cap = match ctx.s.draw(3) { 0 => ctx.s.usize(8), 1 => ctx.s.usize(64), _ => ctx.s.usize(700) };
    let fill = ctx.s.draw(256) as u8;
    let mut mem = guarded(cap, fill);
    let n = mem.len();
    let mut image = mem[PAD..n - PAD].to_vec();
    {
        let mut w = SliceWriter::new(&mut mem[PAD..n - PAD]);
        let mut base = 0;
        let mut model: Vec<u8> = vec![];
        let mut pieces: Vec<(&mut [u8], Vec<u8>)> = vec![];
        let steps = 2 + ctx.s.usize(if ctx.deep { 50 } else { 20 });
        for _ in 0..steps {
            let cap_now = cap - base;
            let rem = cap_now - model.len();
            match ctx.s.weighted(&[8, 3, 3, 2, 1, 2]) {
                0 => {
                    let spec = Spec { name: "SliceWriter", cap: Some(cap_now), partial: false };
                    append(ctx, &mut w, &spec, &mut model, Mode::Count)?;
                }
                1 | 2 => {
                    // formatted text: every piece is an append
                    let text = gen_string(&mut ctx.s, false);
                    let mode = ctx.s.draw(8) as u8;
                    let one = ctx.s.bool();
                    let mut pieces: Vec<String> = vec![];
                    struct Rec<'a>(&'a mut Vec<String>);
                    impl std::fmt::Write for Rec<'_> { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.push(s.to_string()); Ok(()) } }
                    let r = if one { pieces.push(text.clone()); w.write_str_fmt(&text) } else {
                        let p = Pieces { text: &text, mode, lie: None, calls: Default::default() };
                        let _ = write!(Rec(&mut pieces), "{p}");
                        write!(w, "{p}")
                    };
                    let mut ok = true;
                    for p in &pieces {
                        if p.len() <= cap_now - model.len() { model.extend_from_slice(p.as_bytes()) } else { ok = false; break }
                    }
                    if !ok { ctx.fault("no_capacity") }
                    ctx.ev("format", text.len() as u64, rem as u64, || format!("{} pieces → {r:?}", pieces.len()));
                    ensure!(ctx, r.is_ok() == ok, "formatted-append", "formatting {} pieces, {} bytes with room for {rem}: {r:?}", pieces.len(), text.len());
                }
                3 => {
                    let (piece, rest) = w.split();
                    ctx.ev("split", piece.len() as u64, 0, String::new);
                    ensure!(ctx, piece == &model[..], "split-piece", "split returned {} instead of {}", show(piece), show(&model));
                    base += model.len();
                    pieces.push((piece, std::mem::take(&mut model)));
                    w = rest;
                }
                4 => { w.clear(); model.clear(); ctx.ev("clear", 0, 0, String::new); }
                _ => {
                    if !model.is_empty() {
                        let i = ctx.s.usize(model.len());
                        model[i] = !model[i];
                        w.as_mut()[i] = model[i];
                        ctx.ev("modify", i as u64, 0, String::new);
                    }
                }
            }
            let cap_now = cap - base;
            ensure!(ctx, w.as_ref() == &model[..], "content-differs", "content {} instead of {}", show(w.as_ref()), show(&model));
            ensure!(ctx, w.as_mut() == &model[..], "content-differs", "mutable content differs from {}", show(&model));
            ensure!(ctx, w.len() == model.len() && w.is_empty() == model.is_empty() && w.capacity() == cap_now && w.rem_capacity() == cap_now - model.len(),
                "accounts", "len {} is_empty {} capacity {} rem_capacity {} with {} bytes in a buffer of {cap_now}", w.len(), w.is_empty(), w.capacity(), w.rem_capacity(), model.len());
            for (p, keep) in &pieces { ensure!(ctx, &**p == &keep[..], "piece-changed", "a piece split off earlier changed from {} to {}", show(keep), show(p)); }
        }
        let mut at = 0;
        for (_, keep) in &pieces { image[at..at + keep.len()].copy_from_slice(keep); at += keep.len(); }
    }
    ensure!(ctx, canaries_ok(&mem), "wrote-outside", "bytes around the buffer changed");
    Ok(())
}
trait WriteStrFmt { fn write_str_fmt(&mut self, s: &str) -> std::fmt::Result; }
impl WriteStrFmt for SliceWriter<'_> { fn write_str_fmt(&mut self, s: &str) -> std::fmt::Result { std::fmt::Write::write_str(self, s) } }

pub fn run(ctx: &mut Ctx) -> R {
    match ctx.s.draw(5) {
        0 => {
            let kind = ctx.s.usize(SIZED.len());
            let size = *ctx.s.pick(SIZES);
            with_sized(kind, size, |s, spec| history(ctx, s, &spec))
        }
        1 => {
            let kind = ctx.s.usize(FIXED.len());
            let cap = match ctx.s.draw(3) { 0 => ctx.s.usize(6), 1 => ctx.s.usize(80), _ => ctx.s.usize(2000) };
            let mut mem = guarded(cap, 0);
            with_fixed(kind, &mut mem, |s, spec| history(ctx, s, &spec))?;
            ensure!(ctx, canaries_ok(&mem), "wrote-outside", "bytes around the buffer changed");
            Ok(())
        }
        2 | 3 => {
            let kind = ctx.s.usize(GROW.len());
            with_grow(kind, |s, spec| history(ctx, s, &spec))
        }
        _ => slice_writer(ctx),
    }
}
