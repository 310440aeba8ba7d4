//! C12: values that misreport themselves, MessagePack.
use super::*;
use crate::ctx::{bad, show, R};
use crate::ensure;
use crate::refmp;
use crate::sinks::VecSink;

/// Misbehaviour at some of the value's containers and texts.
pub fn plan(ctx: &mut Ctx, sites: usize) -> Vec<(usize, Lie)> {
    let n = if sites == 0 { 0 } else { *ctx.s.pick(&[1usize, 1, 1, 2, 3]) };
    let s = &mut ctx.s;
    (0..n).map(|_| {
        let site = if sites < 400 || s.bool() { s.usize(sites) } else { s.usize(20) };
        let lie = match s.draw(12) {
            0 => Lie::Delta(1),
            1 => Lie::Delta(-1),
            2 => Lie::Unknown,
            3 => Lie::FailAfter(s.usize(4)),
            4 => Lie::SkipCounted(s.usize(5)),
            5 => Lie::Unstable(1 + s.draw(300) as i64),
            6 => Lie::Unstable(-1 - s.draw(300) as i64),
            7 => Lie::FmtErr,
            8 => Lie::Delta(*s.pick(&[2i64, -2, 14, 15, 16, 65535, 65536, -16])),
            9 => Lie::Abs(*s.pick(&[0usize, 1, 15, 16, 31, 32, 255, 256, 65535, 65536])),
            10 => Lie::Abs(*s.pick(&[u32::MAX as usize, (u32::MAX as usize).saturating_add(1), usize::MAX, usize::MAX / 2, 1 << 31])),
            _ => Lie::Unstable(*s.pick(&[-1, 1, 32, -32, 256, -256])),
        };
        (site, lie)
    }).collect()
}

/// The misbehaviour needs somewhere to happen.
pub fn rich(ctx: &mut Ctx, g: Gen) -> (Ty, Val) {
    if ctx.s.chance(1, 4) {
        let t = Ty::Disp(ctx.s.draw(8) as u8);
        let v = gen_val(&mut ctx.s, &t, g, &mut Budget(100));
        return match ctx.s.draw(3) {
            0 => (t, v),
            1 => (Ty::Seq(Box::new(t)), Val::Seq(vec![v.clone(), v])),
            _ => (Ty::Map(Box::new(t), Box::new(Ty::U(8))), Val::Map(vec![(v, Val::Int(1))])),
        }
    }
    for _ in 0..4 {
        let (t, v) = gen_typed(&mut ctx.s, g);
        if any_ty(&t, &mut |t| matches!(t, Ty::Disp(_) | Ty::Seq(_) | Ty::Map(..) | Ty::Struct(_) | Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Enum(_))) { return (t, v) }
    }
    gen_typed(&mut ctx.s, g)
}

/// Lengths no MessagePack header can say: refused before anything is written.
#[cfg(target_pointer_width = "64")]
fn unsayable(ctx: &mut Ctx) -> R {
    struct Count(u64);
    impl ser_write::SerWrite for Count {
        type Error = std::fmt::Error;
        fn write(&mut self, b: &[u8]) -> std::fmt::Result { self.0 += b.len() as u64; Ok(()) }
    }
    struct Raw<'a>(&'a [u8], bool);
    impl serde::Serialize for Raw<'_> {
        fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
            // SAFETY: zeros are text
            if self.1 { z.serialize_str(unsafe { std::str::from_utf8_unchecked(self.0) }) } else { z.serialize_bytes(self.0) }
        }
    }
    // never touched, so never really there
    use std::alloc::{GlobalAlloc, Layout, System};
    struct Mem(*mut u8, Layout);
    impl Drop for Mem { fn drop(&mut self) { unsafe { System.dealloc(self.0, self.1) } } }
    let l = Layout::from_size_align((1 << 32) + 2, 1).unwrap();
    let mem = Mem(unsafe { System.alloc_zeroed(l) }, l);
    if mem.0.is_null() { std::mem::forget(mem); return Ok(()) }
    // SAFETY: allocated above, zeroed, freed after the last use
    let bytes: &[u8] = unsafe { std::slice::from_raw_parts(mem.0, l.size()) };
    let n = (1usize << 32) + ctx.s.usize(4) - 2;
    let text = ctx.s.bool();
    let fl = *ctx.s.pick(FLS);
    let v = Raw(&bytes[..n], text);
    let mut w = Count(0);
    let r = match fl {
        Fl::Compact => ser_write_msgpack::to_writer_compact(&mut w, &v).is_ok(),
        Fl::Idx => ser_write_msgpack::to_writer(&mut w, &v).is_ok(),
        Fl::Named => ser_write_msgpack::to_writer_named(&mut w, &v).is_ok(),
    };
    ctx.fault("unsayable_length");
    ctx.ev("unsayable", n as u64, w.0, || format!("{fl:?} text {text} success {r}"));
    if n > u32::MAX as usize { ensure!(ctx, !r, "malformed-success", "{fl:?}: {n} bytes (text: {text}) reported success, {} bytes were written", w.0); }
    else { ensure!(ctx, r && w.0 == n as u64 + 5, "truthful-rejected", "{fl:?}: {n} bytes (text: {text}): success {r}, {} bytes were written", w.0); }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.s.chance(1, 16) { return zoo::mp(ctx, zoo::Op::Form) }
    #[cfg(target_pointer_width = "64")]
    if ctx.s.chance(1, 50_000) { return unsayable(ctx) }
    let g = gener(ctx, false);
    let (t, v) = rich(ctx, g);
    let sites = { let _g = lies(vec![]); let _ = ser(Fmt::Mp(Fl::Named), &mut VecSink::default(), &t, &v); lie_sites() };
    let rounds = 1 + ctx.s.usize(4);
    for _ in 0..rounds {
        let fl = *ctx.s.pick(FLS);
        let p = plan(ctx, sites);
        let mut w = VecSink::default();
        let r = { let _g = lies(p.clone()); ser(Fmt::Mp(fl), &mut w, &t, &v) };
        let told = lies_told();
        if ctx.s.chance(1, 4) {
            // the object that had to do with the misbehaving value goes on to the next one
            let mut z = Serz::new(Fmt::Mp(fl), VecSink::default());
            { let _g = lies(p.clone()); let _ = z.put(&t, &v); }
            let at = z.writer_ref().0.len();
            let r1 = z.put(&t, &v);
            let mut fresh = VecSink::default();
            let r2 = ser(Fmt::Mp(fl), &mut fresh, &t, &v);
            ctx.ev("reuse", at as u64, r1.is_ok() as u64, String::new);
            ensure!(ctx, r1 == r2 && z.writer_ref().0[at..] == fresh.0[..], "object-spoiled", "{fl:?}: after {p:?} the serializer object writes {} as {} ({r1:?}), a new one as {} ({r2:?})", brief(&v), show(&z.writer_ref().0[at..]), show(&fresh.0));
        }
        for (_, l) in &p { if told > 0 { ctx.fault(name(l)) } }
        ctx.ev("serialize", told as u64, (w.0.len() as u64) << 1 | r.is_ok() as u64, || format!("{fl:?} {} with {p:?} ({told} told): {r:?}, {}", brief(&v), show(&w.0)));
        if r.is_ok() {
            match refmp::span(&w.0) {
                Ok(n) => ensure!(ctx, n == w.0.len(), "malformed-success", "{fl:?}: {} with {p:?} reported success, {n} of the {} bytes are a message: {}", brief(&v), w.0.len(), show(&w.0)),
                Err(e) => return bad("malformed-success", || format!("{fl:?}: {} with {p:?} reported success, the output is no complete message ({e:?}): {}", brief(&v), show(&w.0))),
            }
        }
        if told == 0 && (fl != Fl::Compact || compact_ok(&t, &v)) {
            ensure!(ctx, r.is_ok(), "truthful-rejected", "{fl:?}: {r:?} for the truthful {}", brief(&v));
        }
        // without field numbers a gap would shift every field that follows it
        if told == 0 && fl == Fl::Compact && compact_gap(&t, &v) {
            ensure!(ctx, r.is_err(), "gap-accepted", "{fl:?}: success for {} that leaves out a field before another one: {}", brief(&v), show(&w.0));
        }
    }
    Ok(())
}
pub fn name(l: &Lie) -> &'static str {
    match l {
        Lie::Delta(_) => "length_off", Lie::Abs(_) => "length_made_up", Lie::Unknown => "length_unknown", Lie::FailAfter(_) => "value_fails_midway",
        Lie::SkipCounted(_) => "counted_field_skipped", Lie::Unstable(_) => "display_changes", Lie::FmtErr => "display_fails",
    }
}
