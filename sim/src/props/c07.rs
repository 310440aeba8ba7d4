//! C07: skipping MessagePack data stays exactly in step with decoding it.
use super::c06::{receive, traffic, Rx};
use super::*;
use crate::alloc::{armed, Mode};
use crate::ctx::{show, R};
use crate::ensure;
use crate::refmp;
use serde::de::DeserializeSeed;

/// Offsets at which an item starts.
fn heads(b: &[u8]) -> Vec<usize> {
    let (mut out, mut i) = (vec![], 0);
    let be = |i: usize, n: usize| b[i + 1..i + 1 + n].iter().fold(0usize, |a, x| a << 8 | *x as usize);
    while i < b.len() {
        out.push(i);
        let c = b[i];
        i += 1 + match c {
            0xa0..=0xbf => (c & 31) as usize,
            0xc4..=0xc6 => { let w = 1 << (c - 0xc4); w + be(i, w) }
            0xc7..=0xc9 => { let w = 1 << (c - 0xc7); w + 1 + be(i, w) }
            0xca => 4, 0xcb => 8,
            0xcc..=0xcf => 1 << (c - 0xcc),
            0xd0..=0xd3 => 1 << (c - 0xd0),
            0xd4..=0xd8 => 1 + (1 << (c - 0xd4)),
            0xd9..=0xdb => { let w = 1 << (c - 0xd9); w + be(i, w) }
            0xdc | 0xde => 2, 0xdd | 0xdf => 4,
            _ => 0,
        };
    }
    out
}

/// The ways to pass over one value at the front of a stream.
fn pass(how: u64, b: &[u8]) -> (Result<usize, ME>, u64) {
    let mut failed = 0;
    let r = match how {
        0 => { let (r, rep) = armed(Mode::Budget(4096), || mp_skip(b)); failed = rep.failed; r }
        1 => { let (r, rep) = armed(Mode::Budget(4096), || ser_write_msgpack::from_slice::<serde::de::IgnoredAny>(b)); failed = rep.failed; r.map(|x| x.1) }
        2 => mp_de(&Ty::Ignored, b).map(|x| x.1),
        3 => mp_obj(&Ty::Ignored, b).map(|x| b.len() - x.1),
        _ => ser_write_msgpack::from_slice_split_tail::<serde::de::IgnoredAny>(b).map(|x| b.len() - x.1.len()),
    };
    (r, failed)
}

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.s.chance(1, 16) { return zoo::mp(ctx, zoo::Op::Skip) }
    if ctx.s.chance(1, 30_000) {
        // sixteen million elements, or an extension that long
        let n = (1u32 << 24) + ctx.s.draw(3) as u32 - 1;
        let (code, per) = *ctx.s.pick(&[(0xddu8, 1usize), (0xdf, 2), (0xc9, 1), (0xc6, 1), (0xdb, 1)]);
        let body = n as usize * per + (code == 0xc9) as usize;
        let mut b = vec![code];
        b.extend(n.to_be_bytes());
        b.resize(5 + body, 0xc0);
        b.push(7);
        ctx.fault("huge_message");
        ctx.ev("huge", code as u64, n as u64, String::new);
        let (r, c) = (mp_skip(&b), mp_skip(&b[..4 + body]));
        ensure!(ctx, r == Ok(5 + body), "lost-step", "skipping code {code:02x} with length {n}: {r:?}");
        ensure!(ctx, c == Err(ME::UnexpectedEof), "partial-message", "skipping all but the last byte of code {code:02x} with length {n}: {c:?}");
        return Ok(())
    }
    match ctx.s.weighted(&[5, 4, 5, 3, if ctx.deep { 1 } else { 0 }]) {
        0 => stream(ctx),
        1 => damaged(ctx),
        2 => fields(ctx),
        3 => {
            // ordinary traffic, decoded and skipped in turn
            let n = 2 + ctx.s.usize(4);
            let g = gener(ctx, false);
            let msgs = traffic(ctx, n, g)?;
            let buf: Vec<u8> = msgs.iter().flat_map(|m| m.bytes.iter().copied()).collect();
            let mut rx = Rx { buf, base: 0, next: 0 };
            receive(ctx, &mut rx, &msgs, true)?;
            ensure!(ctx, rx.next == msgs.len(), "lost-step", "{} of {} messages", rx.next, msgs.len());
            if ctx.s.chance(1, 20) { nested(ctx)?; }
            Ok(())
        }
        _ => nested(ctx),
    }
}

/// Messages of any content (extensions included) passed over, then one decoded.
fn stream(ctx: &mut Ctx) -> R {
    let n = 1 + ctx.s.usize(4);
    let mut parts: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let t = refmp::gen_tree(&mut ctx.s, 3, true);
        let mut w = refmp::Width::draw(&mut ctx.s);
        parts.push(refmp::bytes(&t, &mut w));
    }
    let (t, v) = gen_typed(&mut ctx.s, Gen { big: false, ..Gen::new(false) });
    let fl = flavour(&mut ctx.s, &t, &v);
    let last = refmp::bytes(&refmp::to_tree(&t, &v, fl), &mut refmp::Width::Minimal);
    let all: Vec<u8> = parts.iter().flatten().chain(&last).copied().collect();
    let mut at = 0;
    for p in &parts {
        let how = ctx.s.draw(5);
        let (r, failed) = pass(how, &all[at..]);
        ctx.ev("skip", how, p.len() as u64, || show(p));
        ensure!(ctx, r == Ok(p.len()), "lost-step", "skipping (way {how}) {} of {} bytes: {r:?}", show(p), p.len());
        ensure!(ctx, failed == 0, "memory", "skipping {} bytes took more than 4 kB of memory", p.len());
        // every incomplete form of it
        let cuts: Vec<usize> = if p.len() <= 40 { (0..p.len()).collect() } else { (0..10).map(|_| ctx.s.usize(p.len())).collect() };
        for c in cuts {
            ctx.fault("message_cut");
            let (r, _) = pass(how, &p[..c]);
            ensure!(ctx, r == Err(ME::UnexpectedEof), "partial-message", "skipping (way {how}) {c} of {} bytes of {}: {r:?}", p.len(), show(p));
        }
        at += p.len();
    }
    let r = mp_de(&t, &all[at..]);
    ensure!(ctx, matches!(&r, Ok((x, n)) if *x == v && *n == last.len()), "next-message", "after skipping, {} was decoded as {}", brief(&v), brief(&r));

    // the same through one deserializer object
    let mut d = ser_write_msgpack::de::Deserializer::from_slice(&all);
    let mut at = 0;
    for p in &parts {
        let r = if ctx.s.bool() { d.eat_message() } else { D_(&Ty::Ignored).deserialize(&mut d).map(|_| ()) };
        at += p.len();
        ensure!(ctx, r.is_ok() && d.remaining_len() == all.len() - at, "lost-step", "{r:?}, {} bytes remain instead of {}", d.remaining_len(), all.len() - at);
    }
    let r = D_(&t).deserialize(&mut d);
    ensure!(ctx, r.as_ref() == Ok(&v), "next-message", "after skipping, {} was decoded as {}", brief(&v), brief(&r));
    Ok(())
}

/// The reserved code and overwritten bytes: an error or exactly the length an independent reader finds.
fn damaged(ctx: &mut Ctx) -> R {
    let t = refmp::gen_tree(&mut ctx.s, 3, true);
    let mut w = refmp::Width::draw(&mut ctx.s);
    let mut b = refmp::bytes(&t, &mut w);
    let (tt, v) = gen_typed(&mut ctx.s, Gen { big: false, max_depth: 2, ..Gen::new(false) });
    let before = refmp::bytes(&refmp::to_tree(&tt, &v, Fl::Named), &mut refmp::Width::Minimal);
    let hs = heads(&b);
    let reserved = ctx.s.chance(2, 3);
    if reserved {
        let h = hs[ctx.s.usize(hs.len())];
        b[h] = 0xc1;
        ctx.fault("reserved_code");
    } else if ctx.s.chance(1, 3) { overlong(ctx, &mut b, &hs); } else { let k = 1 + ctx.s.usize(2); for _ in 0..k { damage(ctx, &mut b, false); } }
    let want = refmp::span(&b);
    ctx.ev("damaged", b.len() as u64, want.unwrap_or(0) as u64, || show(&b));
    let all: Vec<u8> = before.iter().chain(&b).copied().collect();
    let r = mp_de(&tt, &all);
    ensure!(ctx, matches!(&r, Ok((x, n)) if *x == v && *n == before.len()), "message-before", "the message before the damaged one was decoded as {}", brief(&r));
    for how in 0..5 {
        let (r, _) = pass(how, &b);
        match (&want, &r) {
            (Ok(n), Ok(m)) => ensure!(ctx, n == m, "lost-step", "skipping (way {how}) {}: {m} bytes instead of {n}", show(&b)),
            (Ok(n), Err(e)) => return crate::ctx::bad("well-formed-not-skipped", || format!("skipping (way {how}) {} of {n} bytes: {e:?}", show(&b))),
            (Err(refmp::PErr::Eof), r) => ensure!(ctx, *r == Err(ME::UnexpectedEof), "partial-message", "skipping (way {how}) {}: {r:?}", show(&b)),
            (Err(refmp::PErr::Reserved), r) => ensure!(ctx, r.is_err(), "reserved-code-accepted", "skipping (way {how}) {}: {r:?}", show(&b)),
        }
    }
    Ok(())
}

/// Lengths that are lies: extremes written over a real one.
fn overlong(ctx: &mut Ctx, b: &mut Vec<u8>, heads: &[usize]) {
    let with_len: Vec<usize> = heads.iter().copied().filter(|h| matches!(b[*h], 0xc4..=0xc9 | 0xd9..=0xdf)).collect();
    let h = if with_len.is_empty() {
        let h = heads[ctx.s.usize(heads.len())];
        b.truncate(h);
        b.push(*ctx.s.pick(&[0xc4u8, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf]));
        let k = ctx.s.usize(12);
        b.resize(h + 1 + k, 0);
        h
    } else { with_len[ctx.s.usize(with_len.len())] };
    let w = match b[h] { 0xc4 | 0xc7 | 0xd9 => 1, 0xc5 | 0xc8 | 0xda | 0xdc | 0xde => 2, _ => 4 };
    let v = *ctx.s.pick(&[0xffff_ffffu32, 0xffff_fffe, 0x8000_0000, 0x7fff_ffff, 0xffff, 0x8000, 0x7fff, 0xff, 0x80, 0x7f, 0x1_0000, 0x100_0000, 0]);
    for (k, x) in v.to_be_bytes()[4 - w..].iter().enumerate() { if let Some(p) = b.get_mut(h + 1 + k) { *p = *x } }
    ctx.fault("length_corrupted");
    ctx.ev("length_corrupted", h as u64, v as u64, || show(b));
}

/// Unknown fields and elements of any content inside a known message.
fn fields(ctx: &mut Ctx) -> R {
    let g = Gen { big: false, ..Gen::new(false) };
    let d = gen_def(&mut ctx.s, g, 2);
    let t = Ty::Struct(Box::new(d.clone()));
    let v = gen_val(&mut ctx.s, &t, g, &mut Budget(60));
    let idx = ctx.s.bool();
    let fl = if idx { Fl::Idx } else { Fl::Named };
    let Tree::Map(mut entries) = refmp::to_tree(&t, &v, fl) else { panic!("harness: struct") };
    let extra = 1 + ctx.s.usize(4);
    for k in 0..extra {
        let id = if idx { Tree::Int(*ctx.s.pick(&[100_000i128, 70_000, 250_000, 0xffff_ffff]) + if k < 3 { 0 } else { -1 }) }
            else { Tree::Str(format!("unknown{k}").into_bytes()) };
        let val = refmp::gen_tree(&mut ctx.s, 3, true);
        let at = ctx.s.usize(entries.len() + 1);
        entries.insert(at, (id, val));
    }
    let mut w = refmp::Width::draw(&mut ctx.s);
    let m1 = refmp::bytes(&Tree::Map(entries), &mut w);
    // a tuple in which some elements are ignored
    let k = 1 + ctx.s.usize(5);
    let (mut ts, mut vs, mut trees) = (vec![], vec![], vec![]);
    for _ in 0..k {
        if ctx.s.bool() { ts.push(Ty::Ignored); vs.push(Val::Ignored); trees.push(refmp::gen_tree(&mut ctx.s, 3, true)); }
        else { let (t, v) = gen_typed(&mut ctx.s, Gen { max_depth: 2, ..g }); trees.push(refmp::to_tree(&t, &v, Fl::Idx)); ts.push(t); vs.push(v); }
    }
    let m2 = refmp::bytes(&Tree::Arr(trees), &mut w);
    let t2 = Ty::Tuple(ts);
    let v2 = Val::Seq(vs);
    let all: Vec<u8> = m1.iter().chain(&m2).copied().collect();
    ctx.ev("unknown_fields", m1.len() as u64, extra as u64, || show(&m1));
    ctx.fault("unknown_data");
    let r = mp_de(&t, &all);
    ensure!(ctx, matches!(&r, Ok((x, n)) if *x == v && *n == m1.len()), "unknown-fields", "{} with {extra} unknown fields, {} bytes, was decoded as {}", brief(&v), m1.len(), brief(&r));
    let r = mp_de(&t2, &all[m1.len()..]);
    ensure!(ctx, matches!(&r, Ok((x, n)) if *x == v2 && *n == m2.len()), "ignored-elements", "{} was decoded as {} from {}", brief(&v2), brief(&r), show(&m2));
    for _ in 0..3 {
        let c = ctx.s.usize(m1.len());
        ctx.fault("message_cut");
        let r = if ctx.s.bool() { mp_de(&t, &m1[..c]) } else { mp_obj(&t, &m1[..c]) };
        ensure!(ctx, matches!(r, Err(ME::UnexpectedEof)), "partial-message", "{c} of {} bytes: {}", m1.len(), brief(&r));
    }
    Ok(())
}

/// Nesting far deeper than any stack could follow.
fn nested(ctx: &mut Ctx) -> R {
    let depth = 2000 + ctx.s.usize(if ctx.deep { 400_000 } else { 60_000 });
    let style = ctx.s.draw(5);
    let mut b = vec![];
    for i in 0..depth {
        match (style, i % 3) {
            (0, _) => b.push(0x91),
            (1, _) => b.extend([0x81, 0xc0]),
            (2, 0) => b.extend([0x92, 0x01]),
            (2, 1) => b.extend([0x81, 0xa1, b'k']),
            (2, _) => b.extend([0xdc, 0, 1]),
            (3, _) => b.extend([0xdd, 0, 0, 0, 1]),
            _ => b.push(0x81),
        }
    }
    // style 4: maps nested in keys, each needs a value afterwards
    b.push(0xc0);
    if style == 4 { b.extend(std::iter::repeat_n(0xc2, depth)); }
    let len = b.len();
    b.push(0x2a);
    let cut = ctx.s.usize(len);
    ctx.fault("extreme_nesting");
    ctx.ev("nested", depth as u64, style, String::new);
    let (r, r2, failed) = std::thread::Builder::new().stack_size(160 * 1024).spawn(move || {
        let (r, f) = pass(0, &b);
        let (r1, _) = pass(1, &b);
        let r = if r == r1 { r } else { Ok(0) };
        (r, pass(0, &b[..cut]).0, f)
    }).expect("harness: thread").join().unwrap_or((Err(ME::InvalidType), Ok(0), 0));
    ensure!(ctx, r == Ok(len), "lost-step", "skipping {depth} nested containers ({len} bytes): {r:?}");
    ensure!(ctx, r2 == Err(ME::UnexpectedEof), "partial-message", "skipping {cut} of {len} bytes: {r2:?}");
    ensure!(ctx, failed == 0, "memory", "skipping took more than 4 kB of memory");
    Ok(())
}
