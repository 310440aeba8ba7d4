//! C10: damaged JSON input.
use super::c09::document;
use super::*;
use crate::ctx::{cut, show, R};
use crate::ensure;
use crate::sinks::{CANARY, PAD};

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.s.chance(1, 16) { return zoo::js(ctx, zoo::Op::Damage) }
    if ctx.s.chance(1, 24) { return counted(ctx) }
    let g = gener(ctx, true);
    let enc = *ctx.s.pick(ENCS);
    let d = document(ctx, g, enc)?;
    let mut b = d.bytes;
    if ctx.s.chance(1, 8) {
        let e = document(ctx, g, enc)?;
        if ctx.s.bool() { b.extend_from_slice(&e.bytes); } else { let at = ctx.s.usize(b.len() + 1); b.splice(at..at, e.bytes); }
        ctx.fault("documents_run_together");
    }
    if ctx.s.chance(1, 12) {
        let n = ctx.s.usize(60);
        b = (0..n).map(|_| junk(&mut ctx.s, true)).collect();
        ctx.fault("noise");
    }
    if ctx.s.chance(1, 20) {
        let n = ctx.s.usize(1500);
        let i = ctx.s.usize(b.len() + 1);
        let c: &[u8] = *ctx.s.pick(&[&b"["[..], b"{\"a\":", b"[{\"\":"]);
        let c: Vec<u8> = c.iter().copied().cycle().take(n * c.len()).collect();
        b.splice(i..i, c);
        ctx.fault("deep_nesting");
    }
    let tries = 1 + ctx.s.usize(4);
    for k in 0..tries {
        if k > 0 || ctx.s.chance(9, 10) { damage(ctx, &mut b, true); }
        if ctx.s.chance(1, 6) { escape_damage(ctx, &mut b); }
        let t = match ctx.s.draw(6) {
            0 => Ty::Any,
            1 => gen_typed(&mut ctx.s, Gen { max_depth: 3, ..g }).0,
            2 => Ty::Ignored,
            _ => d.t.clone(),
        };
        let dec = if ctx.s.chance(1, 6) { *ctx.s.pick(DECS) } else { enc.decoder() };
        check(ctx, &t, dec, &b)?;
        if ctx.s.chance(1, 3) { first(ctx, &t, dec, &b)?; }
    }
    Ok(())
}

/// A flat container of a boundary number of entries with one piece of its structure damaged.
fn counted(ctx: &mut Ctx) -> R {
    const N: [usize; 16] = [1, 2, 15, 16, 17, 31, 32, 64, 127, 128, 255, 256, 257, 512, 1000, 1024];
    let n = *ctx.s.pick(&N);
    let object = ctx.s.bool();
    let mut parts: Vec<Vec<u8>> = (0..n).map(|i| if object { format!("\"{i}\":{}", i % 10) } else { format!("{}", i % 10) }.into_bytes()).collect();
    let at = match ctx.s.draw(4) { 0 => ctx.s.usize(n), 1 => 0, _ => n - 1 };
    let (mut open, mut close): (&[u8], &[u8]) = if object { (b"{", b"}") } else { (b"[", b"]") };
    let mut sep = vec![b','; n];
    sep[n - 1] = 0;
    match ctx.s.draw(10) {
        0 | 1 => { if sep[at] == 0 { sep[at] = b',' } else { sep[at] = b' ' } }
        2 => sep[at] = *ctx.s.pick(b":;,. ]}\x00"),
        3 => parts[at].push(b','),
        4 => parts[at].insert(0, b','),
        5 => parts[at] = Vec::new(),
        6 => close = if object { b"]" } else { b"}" },
        7 => open = if object { b"[" } else { b"{" },
        8 => close = b"",
        _ => { let p = &mut parts[at]; if let Some(c) = p.iter_mut().find(|c| **c == b':') { *c = b',' } else { p.push(b':') } }
    }
    let mut b = open.to_vec();
    for (p, c) in parts.iter().zip(&sep) { b.extend_from_slice(p); if *c != 0 { b.push(*c) } }
    b.extend_from_slice(close);
    ctx.fault("counted_structure");
    let u8s = || Box::new(Ty::U(8));
    let t = match ctx.s.draw(6) {
        0 => Ty::Any,
        1 => Ty::Ignored,
        2 if !object => Ty::Tuple(vec![Ty::U(8); n]),
        _ => if object { Ty::Map(Box::new(Ty::U(16)), u8s()) } else { Ty::Seq(u8s()) },
    };
    let dec = *ctx.s.pick(DECS);
    check(ctx, &t, dec, &b)?;
    let b = [&b"[0,"[..], &b, b",1]"].concat();
    check(ctx, &Ty::Tuple(vec![Ty::U(8), t, Ty::U(8)]), dec, &b)
}

/// Broken escapes, surrogates and text that is not UTF-8 inside strings.
fn escape_damage(ctx: &mut Ctx, b: &mut Vec<u8>) {
    let quotes: Vec<usize> = b.iter().enumerate().filter(|(_, c)| **c == b'"').map(|(i, _)| i).collect();
    if quotes.is_empty() { return }
    let at = quotes[ctx.s.usize(quotes.len())] + ctx.s.usize(2);
    let e: &[u8] = *ctx.s.pick(&[
        &b"\\u00"[..], b"\\ud83d\\ude00", b"\\ud800", b"\\uDBFF\\uDFFF", b"\\ud83d\\ud83d", b"\\uda00\\u0041", b"\\ude00\\ud83d", b"\\ud83d\\n", b"\\ud83dx", b"\\uDFFF", b"\\u0000", b"\\uFFFF", b"\\x41", b"\\", b"\\\\\\", b"\\\"", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80",
        b"\x80", b"\\u00e9", b"\\u12g4", b"\\u+123", b"\\/", b"\\b\\f\\n\\r\\t", b"\\a", b"\\u007F", b"\x7f", b"\x1f", b"\n", b"hex,", b"base64,", b"4", b"Zg==", b"=", b"\xe2\x28",
    ]);
    b.splice(at..at, e.iter().copied());
    ctx.fault("bad_escape");
}

fn text_ok(v: &Val) -> bool {
    // borrowed through bytes: the text is only known to be valid if the decoder checked it
    match v {
        Val::Str(s) => std::str::from_utf8(s.as_bytes()).is_ok(),
        Val::Some(v) | Val::New(v) | Val::Enum(_, v) => text_ok(v),
        Val::Seq(v) => v.iter().all(text_ok),
        Val::Map(v) => v.iter().all(|(a, b)| text_ok(a) && text_ok(b)),
        Val::Struct(v) => v.iter().flatten().all(text_ok),
        _ => true,
    }
}

fn check(ctx: &mut Ctx, t: &Ty, dec: Dec, b: &[u8]) -> R {
    let mut mem = vec![CANARY; b.len() + 2 * PAD];
    mem[PAD..PAD + b.len()].copy_from_slice(b);
    take_borrows();
    take_bad_text();
    let region = &mut mem[PAD..PAD + b.len()];
    let r = js_de(dec, t, region);
    let lent = take_borrows();
    ctx.ev("decode", b.len() as u64, r.is_ok() as u64, || format!("{} as {} {dec:?} → {}", show(b), brief(t), cut(&format!("{r:?}"))));
    ensure!(ctx, crate::sinks::canaries_ok(&mem), "wrote-outside", "decoding {} as {} wrote outside of its slice", show(b), brief(t));
    let lo = mem.as_ptr() as usize + PAD;
    for (p, c) in &lent {
        ensure!(ctx, c.is_empty() || (*p >= lo && p + c.len() <= lo + b.len()), "slice-outside-input", "a slice lent out ({}) is not part of the input {}", show(c), show(b));
    }
    if let Some(x) = take_bad_text() { return crate::ctx::bad("invalid-text", || format!("{} as {}: text {} is not UTF-8", show(b), brief(t), show(&x))) }
    if let Ok(v) = &r {
        ctx.probe("damaged_but_decodable");
        ensure!(ctx, text_ok(v), "invalid-text", "{} as {}: text is not UTF-8", show(b), brief(t));
        for (p, c) in &lent {
            let at = *p - lo;
            ensure!(ctx, c.is_empty() || mem[PAD + at..PAD + at + c.len()] == c[..], "borrowed-value-changed", "a value borrowed from {} changed while the rest was decoded", show(b));
        }
        let want = refjson::read(t, b, dec);
        ensure!(ctx, want.as_ref().is_some_and(|w| refjson::same(w, v)), "misread", "{} as {} {dec:?} was decoded as {}, an independent parser reads {}", show(b), brief(t), brief(v), brief(&want));
    }
    Ok(())
}

/// The first document through a deserializer object, whatever follows it.
fn first(ctx: &mut Ctx, t: &Ty, dec: Dec, b: &[u8]) -> R {
    let mut work = b.to_vec();
    let r = js_obj(dec, t, &mut work);
    ctx.ev("decode-first", b.len() as u64, r.is_ok() as u64, || brief(&r));
    if let Ok((v, rest)) = &r {
        let mut l = refjson::L { b, i: 0, dec };
        let want = l.value(t);
        ensure!(ctx, want.as_ref().is_some_and(|w| refjson::same(w, v)), "misread", "the start of {} as {} {dec:?} was decoded as {}, an independent parser reads {}", show(b), brief(t), brief(v), brief(&want));
        ensure!(ctx, b.len() - rest == l.i, "misread", "{} of {} bytes were consumed instead of {}", b.len() - rest, show(b), l.i);
        ensure!(ctx, work[l.i..] == b[l.i..], "unread-input-changed", "decoding the start of {} as {} changed what follows it", show(b), brief(t));
    }
    Ok(())
}

/// Exit 0 when deeply nested input is handled on an ordinary stack.
pub fn deep(ignored: bool) -> i32 {
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let mut b = vec![b'['; 300_000];
        let r = js_de(Dec::Nope, if ignored { &Ty::Ignored } else { &Ty::Any }, &mut b);
        println!("PROBE {}", cut(&format!("{r:?}")));
    });
    if t.unwrap().join().is_ok() { 0 } else { 1 }
}
