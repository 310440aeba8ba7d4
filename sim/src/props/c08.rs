//! C08: damaged MessagePack input.
use super::*;
use crate::ctx::{cut, show, R};
use crate::ensure;
use crate::refmp;
use crate::sinks::VecSink;

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.s.chance(1, 16) { return zoo::mp(ctx, zoo::Op::Damage) }
    let g = gener(ctx, false);
    let n = 1 + ctx.s.usize(3);
    let (mut b, mut t) = (vec![], Ty::Any);
    for i in 0..n {
        let (ty, v) = gen_typed(&mut ctx.s, g);
        if i == 0 { t = ty.clone(); }
        if ctx.s.chance(1, 5) {
            let tr = refmp::gen_tree(&mut ctx.s, 3, true);
            let mut w = refmp::Width::draw(&mut ctx.s);
            refmp::write(&tr, &mut w, &mut b);
        } else if ctx.s.bool() {
            let fl = flavour(&mut ctx.s, &ty, &v);
            let mut w = refmp::Width::draw(&mut ctx.s);
            refmp::write(&refmp::to_tree(&ty, &v, fl), &mut w, &mut b);
        } else {
            let fl = flavour(&mut ctx.s, &ty, &v);
            let mut w = VecSink::default();
            let r = ser(Fmt::Mp(fl), &mut w, &ty, &v);
            ensure!(ctx, r.is_ok(), "sender-error", "{r:?}");
            b.extend_from_slice(&w.0);
        }
    }
    if ctx.s.chance(1, 12) {
        // pure noise
        let n = ctx.s.usize(60);
        b = (0..n).map(|_| junk(&mut ctx.s, false)).collect();
        ctx.fault("noise");
    }
    if ctx.s.chance(1, 10) { bomb(ctx, &mut b); }
    let tries = 1 + ctx.s.usize(4);
    for _ in 0..tries {
        damage(ctx, &mut b, false);
        let ty = match ctx.s.draw(6) {
            0 => Ty::Any,
            1 => gen_typed(&mut ctx.s, Gen { max_depth: 3, ..g }).0,
            2 => Ty::Ignored,
            _ => t.clone(),
        };
        check(ctx, &ty, &b)?;
    }
    Ok(())
}

/// Headers that promise far more than there is.
fn bomb(ctx: &mut Ctx, b: &mut Vec<u8>) {
    let i = ctx.s.usize(b.len() + 1);
    let h: &[u8] = match ctx.s.draw(8) {
        0 => &[0xdd, 0xff, 0xff, 0xff, 0xff],
        1 => &[0xdf, 0xff, 0xff, 0xff, 0xff],
        2 => &[0xc6, 0xff, 0xff, 0xff, 0xff],
        3 => &[0xdb, 0xff, 0xff, 0xff, 0xff],
        4 => &[0xc9, 0xff, 0xff, 0xff, 0xff, 0x01],
        5 => &[0xdd, 0x7f, 0xff, 0xff, 0xff, 0xdd, 0x7f, 0xff, 0xff, 0xff],
        6 => &[0xdf, 0x80, 0, 0, 0],
        _ => &[0xdb, 0x80, 0, 0, 0],
    };
    b.splice(i..i, h.iter().copied());
    ctx.fault("length_bomb");
    if ctx.s.chance(1, 6) {
        let d = ctx.s.usize(1500);
        let c = *ctx.s.pick(&[0x91u8, 0x81, 0x9f]);
        b.splice(i..i, std::iter::repeat_n(c, d));
        ctx.fault("deep_nesting");
    }
}

fn check(ctx: &mut Ctx, t: &Ty, b: &[u8]) -> R {
    take_borrows();
    let r = mp_de(t, b);
    let lent = take_borrows();
    ctx.ev("decode", b.len() as u64, r.is_ok() as u64, || format!("{} as {} → {}", show(b), brief(t), cut(&format!("{r:?}"))));
    let lo = b.as_ptr() as usize;
    for (p, c) in &lent {
        let ok = c.is_empty() || (*p >= lo && p + c.len() <= lo + b.len() && b[p - lo..p - lo + c.len()] == c[..]);
        ensure!(ctx, ok, "slice-outside-input", "a slice lent out ({}) is not part of the input {}", show(c), show(b));
    }
    if let Ok((v, n)) = &r {
        ctx.probe("damaged_but_decodable");
        ensure!(ctx, *n <= b.len(), "consumed-too-much", "{n} of {} bytes consumed", b.len());
        match refmp::parse(b) {
            Err(e) => return crate::ctx::bad("made-up-value", || format!("{} from {}, which is no complete message ({e:?})", brief(v), show(b))),
            Ok((m, len)) => {
                ensure!(ctx, len == *n, "consumed-other-length", "{n} bytes consumed, the message has {len}: {}", show(b));
                let want = refmp::read(t, &m);
                ensure!(ctx, want.as_ref() == Some(v), "made-up-value", "{} as {} was decoded as {}, an independent decoder reads {}", show(b), brief(t), brief(v), brief(&want));
            }
        }
        // the same through the other entry point
        let r2 = mp_de_tail(t, b);
        ensure!(ctx, matches!(&r2, Ok((x, tail)) if x == v && tail.len() == b.len() - n), "entry-points-differ", "split_tail gives {}", brief(&r2));
    }
    let o = mp_obj(t, b);
    let agree = match (&o, &r) { (Ok((x, rest)), Ok((v, n))) => x == v && *rest == b.len() - n, (Err(_), Err(_)) => true, _ => false };
    ensure!(ctx, agree, "made-up-value", "{} as {}: a deserializer object gives {}, from_slice {}", show(b), brief(t), brief(&o), brief(&r));
    let s = mp_skip(b);
    if let Ok(n) = s { ensure!(ctx, refmp::span(b) == Ok(n), "skipped-other-length", "{n} bytes skipped in {}", show(b)); }
    Ok(())
}

/// Exit 0 when deeply nested input decodes (or errs) as a self-describing value on an ordinary stack.
pub fn deep_any() -> i32 {
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(|| {
        let b = vec![0x91u8; 300_000];
        let r = mp_de(&Ty::Any, &b);
        println!("PROBE {}", cut(&format!("{r:?}")));
    });
    if t.unwrap().join().is_ok() { 0 } else { 1 }
}
