//! C15: build configurations agree. One run is a history of operations; everything the code lets us
//! observe goes into a digest that the driver compares between builds. Nothing here is judged against
//! a model, apart from the owned results agreeing with the written ones.
use super::c09::document;
use super::*;
use crate::ctx::R;
use crate::refmp;
use crate::sinks::*;
use ser_write::{SerError, SerResult, SerWrite};

/// Takes exactly `room` bytes, whatever the pieces they come in.
struct Cut { got: Vec<u8>, room: usize, refused: bool }
impl SerWrite for Cut {
    type Error = SerError;
    fn write(&mut self, b: &[u8]) -> SerResult<()> {
        if self.refused { return Err(SerError::BufferFull) }
        let n = b.len().min(self.room - self.got.len());
        self.got.extend_from_slice(&b[..n]);
        if n < b.len() { self.refused = true; return Err(SerError::BufferFull) }
        Ok(())
    }
}
/// Remembers whether the sink refused anything.
struct Watch<'a> { s: &'a mut dyn Sink, refused: bool }
impl SerWrite for Watch<'_> {
    type Error = SerError;
    fn write(&mut self, b: &[u8]) -> SerResult<()> { let r = self.s.write(b); self.refused |= r.is_err(); r }
    fn write_byte(&mut self, b: u8) -> SerResult<()> { let r = self.s.write_byte(b); self.refused |= r.is_err(); r }
    fn write_str(&mut self, b: &str) -> SerResult<()> { let r = self.s.write_str(b); self.refused |= r.is_err(); r }
}
fn outcome<E>(r: &Result<(), SErr<E>>, refused: bool) -> &'static str {
    match r { Ok(()) => "ok", Err(_) if refused => "refused", Err(e) => e.name() }
}
/// A panic is an observation like any other.
fn guarded_run(ctx: &mut Ctx, f: impl FnOnce(&mut Ctx) -> R) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut *ctx)));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(v)) => ctx.obs_str("stopped", &v.class),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.starts_with("harness") { std::panic::resume_unwind(p) }
            ctx.obs_str("panicked", "");
        }
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    let ops = 1 + ctx.s.usize(4);
    for _ in 0..ops {
        match ctx.s.draw(8) {
            0 | 1 => write(ctx)?,
            2 | 3 => guarded_run(ctx, decode_mp),
            4 | 5 => guarded_run(ctx, decode_js),
            6 => guarded_run(ctx, |c| if c.s.bool() { super::c16::msgpack(c) } else { super::c16::json(c) }),
            _ => guarded_run(ctx, sinks),
        }
    }
    ctx.checks += 1;
    Ok(())
}

fn write(ctx: &mut Ctx) -> R {
    let (t, v, f) = any_message(ctx);
    let (t, v) = if ctx.s.chance(1, 3) { let g = gener(ctx, f.json()); super::c12::rich(ctx, g) } else { (t, v) };
    let f = match f { Fmt::Mp(Fl::Compact) if !compact_ok(&t, &v) => Fmt::Mp(Fl::Idx), f => f };
    let sites = { let _g = lies(vec![]); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = ser(f, &mut VecSink::default(), &t, &v); })); lie_sites() };
    let plan: Vec<(usize, Lie)> = if ctx.s.chance(1, 3) {
        super::c12::plan(ctx, sites).into_iter().map(|(i, l)| (i, match l {
            Lie::Unstable(_) => Lie::FmtErr,
            // lengths that every machine can say
            Lie::Abs(n) if n >= (1 << 31) - 1 => Lie::Abs(u32::MAX as usize),
            l => l,
        })).collect()
    } else { vec![] };
    if !plan.is_empty() { ctx.fault("misreporting_value") }
    let mut full = 0;
    guarded_run(ctx, |ctx| {
        let mut w = VecSink::default();
        let r = { let _g = lies(plan.clone()); ser(f, &mut w, &t, &v) };
        full = w.0.len();
        ctx.ev("write", w.0.len() as u64, r.is_ok() as u64, || format!("{f:?} {} {plan:?} → {r:?}", brief(&v)));
        ctx.obs_str("result", outcome(&r, false));
        ctx.obs_bytes("bytes", &w.0);
        Ok(())
    });
    let rounds = ctx.s.usize(3);
    for _ in 0..rounds {
        let cap = match ctx.s.draw(4) { 0 => full, 1 => full.saturating_sub(1), 2 => ctx.s.usize(full + 1), _ => full + ctx.s.usize(9) };
        let kind = ctx.s.usize(3);
        guarded_run(ctx, |ctx| {
            let mut mem = guarded(cap, 0);
            let o = with_fixed(kind, &mut mem, |s, _| {
                let mut w = Watch { s, refused: false };
                let r = { let _g = lies(plan.clone()); ser(f, &mut w, &t, &v) };
                let c = w.s.content();
                (outcome(&r, w.refused), if r.is_ok() { c } else { vec![] })
            });
            if o.0 == "refused" { ctx.fault("no_capacity") }
            ctx.ev("fixed_buffer", cap as u64, kind as u64, || o.0.to_string());
            ctx.obs_str("fixed", o.0);
            ctx.obs_bytes("fixed", &o.1);
            Ok(())
        });
        guarded_run(ctx, |ctx| {
            let mut w = Cut { got: vec![], room: cap, refused: false };
            let r = { let _g = lies(plan.clone()); ser(f, &mut w, &t, &v) };
            if w.refused { ctx.fault("write_error") }
            ctx.ev("failing_writer", cap as u64, w.refused as u64, String::new);
            ctx.obs_str("cut", outcome(&r, w.refused));
            ctx.obs_bytes("cut", &w.got);
            Ok(())
        });
    }
    #[cfg(feature = "heap")]
    {
        use crate::ensure;
        if !matches!(f, Fmt::Js(Enc::PreHex | Enc::PreB64)) {
            let mut w = VecSink::default();
            let r = { let _g = lies(plan.clone()); ser(f, &mut w, &t, &v) };
            let o = { let _g = lies(plan.clone()); owned(f, &t, &v) };
            match (&r, &o) {
                (Ok(()), Ok(b)) => ensure!(ctx, *b == w.0, "owned-differs", "the owned result {} differs from what is written {}", crate::ctx::show(b), crate::ctx::show(&w.0)),
                (Err(a), Err(b)) => ensure!(ctx, a.name() == b.name(), "owned-differs", "{a:?} and {b:?}"),
                (Ok(()), Err(SErr::Utf8)) => {}
                (a, b) => return crate::ctx::bad("owned-differs", || format!("{a:?} and {b:?}")),
            }
        }
    }
    Ok(())
}

fn receiver(ctx: &mut Ctx, t: &Ty, json: bool) -> Ty {
    match ctx.s.draw(8) {
        0 => Ty::Any,
        1 => Ty::Ignored,
        2 => gen_typed(&mut ctx.s, Gen { max_depth: 3, ..Gen::new(json) }).0,
        _ => t.clone(),
    }
}

fn decode_mp(ctx: &mut Ctx) -> R {
    let g = gener(ctx, false);
    let (t, v) = gen_typed(&mut ctx.s, g);
    let fl = flavour(&mut ctx.s, &t, &v);
    let mut b = vec![];
    let mut w = refmp::Width::draw(&mut ctx.s);
    if ctx.s.chance(1, 6) { let tr = refmp::gen_tree(&mut ctx.s, 3, true); refmp::write(&tr, &mut w, &mut b); }
    else { refmp::write(&refmp::to_tree(&t, &v, fl), &mut w, &mut b); }
    let tries = 1 + ctx.s.usize(3);
    for k in 0..tries {
        if k > 0 || ctx.s.bool() { damage(ctx, &mut b, false); }
        let t = receiver(ctx, &t, false);
        let r = mp_de(&t, &b);
        ctx.ev("decode", b.len() as u64, r.is_ok() as u64, || brief(&r));
        ctx.obs_str("decoded", &format!("{:?}", r.as_ref().map_err(kind)));
        let r = mp_de_tail(&t, &b);
        ctx.obs_str("tail", &format!("{:?}", r.as_ref().map(|x| x.1.len()).map_err(kind)));
        let r = mp_skip(&b);
        ctx.obs_str("skipped", &format!("{:?}", r.as_ref().map_err(kind)));
    }
    Ok(())
}

fn decode_js(ctx: &mut Ctx) -> R {
    let g = gener(ctx, true);
    let enc = *ctx.s.pick(ENCS);
    // byte arrays are what is decoded by different code
    let d = if ctx.s.chance(1, 3) { byte_arrays(ctx, g, enc) } else { let d = document(ctx, g, enc)?; (d.t, d.bytes) };
    let (t, mut b) = d;
    let tries = 1 + ctx.s.usize(3);
    for k in 0..tries {
        if k > 0 || ctx.s.bool() { damage(ctx, &mut b, true); }
        let t = receiver(ctx, &t, true);
        let dec = if ctx.s.chance(1, 6) { *ctx.s.pick(DECS) } else { enc.decoder() };
        let mut mem = vec![CANARY; b.len() + 2 * PAD];
        mem[PAD..PAD + b.len()].copy_from_slice(&b);
        let r = js_de(dec, &t, &mut mem[PAD..PAD + b.len()]);
        ctx.ev("decode", b.len() as u64, r.is_ok() as u64, || brief(&r));
        ctx.obs_str("decoded", &format!("{:?}", r.as_ref().map_err(kind)));
        ctx.obs_bytes("buffer", &mem);
    }
    Ok(())
}
fn byte_arrays(ctx: &mut Ctx, g: Gen, enc: Enc) -> (Ty, Vec<u8>) {
    let n = 1 + ctx.s.usize(4);
    let list: Vec<Val> = (0..n).map(|_| Val::Bytes(gen_bytes(&mut ctx.s, g.big))).collect();
    let t = Ty::Seq(Box::new(Ty::Bytes(ctx.s.bool())));
    let e = if ctx.s.chance(3, 4) { Enc::Array } else { enc };
    let mut st = refjson::Style::draw(&mut ctx.s, e);
    let b = st.doc(&t, &Val::Seq(list));
    (t, b)
}

fn sinks(ctx: &mut Ctx) -> R {
    let fixed = ctx.s.bool();
    let steps = 1 + ctx.s.usize(12);
    let script: Vec<(u64, Vec<u8>)> = (0..steps).map(|_| {
        let how = ctx.s.draw(8);
        let n = *ctx.s.pick(&[0usize, 1, 2, 3, 5, 8, 15, 16, 17, 40, 100]);
        let mut e = Expand::new(ctx.s.draw(0));
        (how, (0..n).map(|_| b' ' + e.below(90) as u8).collect())
    }).collect();
    fn go(s: &mut dyn Sink, script: &[(u64, Vec<u8>)]) -> Vec<String> {
        script.iter().map(|(how, b)| {
            let r = match how {
                0 => { s.wipe(); Ok(()) }
                1 => { let n = s.content().len() / 2; s.shorten(n, false); Ok(()) }
                2 | 3 => s.write_byte(b.first().copied().unwrap_or(0)),
                4 | 5 => s.write_str(std::str::from_utf8(b).unwrap()),
                _ => s.write(b),
            };
            format!("{how} {r:?} {}", crate::ctx::hex(&s.content()))
        }).collect()
    }
    let log = if fixed {
        let (kind, cap) = (ctx.s.usize(3), ctx.s.usize(120));
        let mut mem = guarded(cap, 0);
        with_fixed(kind, &mut mem, |s, _| go(s, &script))
    } else {
        let (kind, size) = (ctx.s.usize(5), *ctx.s.pick(&SIZES[..16]));
        with_sized(kind, size, |s, _| go(s, &script))
    };
    for l in log { ctx.ev("sink", l.len() as u64, 0, || l.clone()); ctx.obs_str("sink", &l); }
    Ok(())
}
