//! C09: JSON frames decoded in place in a shared receive buffer.
use super::*;
use crate::ctx::{bad, show, R};
use crate::ensure;
use crate::net::{fragments, Sched};
use crate::refjson::{canon, same, Style};
use crate::sinks::VecSink;
use ser_write_json::de as jd;
use serde::de::DeserializeSeed;

pub struct Doc { pub t: Ty, pub v: Val, pub enc: Enc, pub bytes: Vec<u8>, pub foreign: bool }

/// A document written by the code under test or by a foreign encoder.
pub fn document(ctx: &mut Ctx, g: Gen, enc: Enc) -> R<Doc> {
    if ctx.s.chance(1, 10) {
        let v = Val::Tree(refjson::gen_jtree(&mut ctx.s, 3));
        let bytes = Style::draw(&mut ctx.s, enc).doc(&Ty::Any, &v);
        return Ok(Doc { t: Ty::Any, v, enc, bytes, foreign: true })
    }
    let (t, v) = gen_typed(&mut ctx.s, g);
    let foreign = ctx.s.chance(2, 5);
    let bytes = if foreign { Style::draw(&mut ctx.s, enc).doc(&t, &v) } else {
        let mut w = VecSink::default();
        let r = ser(Fmt::Js(enc), &mut w, &t, &v);
        ensure!(ctx, r.is_ok(), "sender-error", "{enc:?}: serializing {} failed: {r:?}", brief(&v));
        w.0
    };
    Ok(Doc { v: canon(&v), t, enc, bytes, foreign })
}

/// A value borrowed from the buffer and still in use.
struct Held { slot: usize, at: usize, content: Vec<u8> }
struct Slot { at: usize, cap: usize, frame: Option<usize>, here: Vec<bool>, missing: usize, used: bool }
enum Ev { Seg { frame: usize, slot: usize, off: usize, len: usize, tries: u32 }, Decode(usize), Release(usize) }

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.s.chance(1, 12) { return zoo::js(ctx, zoo::Op::Trip) }
    if ctx.s.chance(1, 4) { return sequence(ctx) }
    let g = gener(ctx, true);
    let n = 1 + ctx.s.usize(if ctx.deep { 8 } else { 5 });
    let mut docs = vec![];
    for i in 0..n {
        let enc = *ctx.s.pick(ENCS);
        let d = document(ctx, g, enc)?;
        ctx.ev("frame", i as u64, d.bytes.len() as u64, || format!("{enc:?}{} {} = {}", if d.foreign { " foreign encoder" } else { "" }, brief(&d.v), show(&d.bytes)));
        docs.push(d);
    }
    let k = 1 + ctx.s.usize(n.min(3));
    let cap = docs.iter().map(|d| d.bytes.len()).max().unwrap();
    let gap = ctx.s.usize(9);
    let mut buf = vec![0xEEu8; gap + k * (cap + gap)];
    let mut slots: Vec<Slot> = (0..k).map(|i| Slot { at: gap + i * (cap + gap), cap, frame: None, here: vec![], missing: 0, used: false }).collect();
    let mut held: Vec<Held> = vec![];
    let mut q: Sched<Ev> = Sched::new();
    let (mut next, mut decoded) = (0, 0);
    let (lossy, dup, reorder) = (ctx.s.chance(1, 3), ctx.s.chance(1, 3), ctx.s.chance(1, 2));
    let mut losses = 0;
    loop {
        // free slots take the next frames
        for i in 0..k {
            if slots[i].frame.is_some() || next == n { continue }
            let len = docs[next].bytes.len();
            let s = &mut slots[i];
            (s.frame, s.here, s.missing, s.used) = (Some(next), vec![false; len], len, false);
            buf[s.at..s.at + cap].fill(0xDD);
            let cuts = fragments(ctx, len);
            if cuts.len() > 1 { ctx.fault("fragmentation") }
            let mut off = 0;
            for len in cuts {
                let t = ctx.now + 1 + if reorder { ctx.fault("delay"); ctx.s.draw(400) } else { off as u64 };
                q.at(t, Ev::Seg { frame: next, slot: i, off, len, tries: 0 });
                if dup && ctx.s.chance(1, 4) { let t = t + ctx.s.draw(600); q.at(t, Ev::Seg { frame: next, slot: i, off, len, tries: 1 }); }
                off += len;
            }
            next += 1;
        }
        let Some(e) = q.pop(ctx) else { break };
        match e {
            Ev::Seg { frame, slot, off, len, tries } => {
                if lossy && tries == 0 && losses < 40 && ctx.s.chance(1, 5) {
                    losses += 1;
                    ctx.fault("segment_lost");
                    let t = ctx.now + 200 + ctx.s.draw(400);
                    q.at(t, Ev::Seg { frame, slot, off, len, tries: 1 });
                    continue
                }
                let s = &mut slots[slot];
                if s.frame != Some(frame) || s.missing == 0 { ctx.fault("late_duplicate"); continue }
                let mut fresh = 0;
                for j in off..off + len { if !s.here[j] { s.here[j] = true; fresh += 1; } }
                if fresh == 0 { ctx.fault("segment_duplicated"); continue }
                if s.here[..off].iter().any(|h| !h) { ctx.fault("segment_reordered") }
                s.missing -= fresh;
                buf[s.at + off..s.at + off + len].copy_from_slice(&docs[frame].bytes[off..off + len]);
                let complete = s.missing == 0;
                ctx.ev("segment", frame as u64, off as u64, String::new);
                if complete { let t = ctx.now + ctx.s.draw(500); q.at(t, Ev::Decode(slot)); }
            }
            Ev::Decode(i) => {
                let frame = slots[i].frame.unwrap();
                decode(ctx, &mut buf, &mut slots[i], i, &docs[frame], &mut held)?;
                decoded += 1;
                let t = ctx.now + ctx.s.draw(1500);
                q.at(t, Ev::Release(i));
            }
            Ev::Release(i) => {
                // whoever used the values is done with them: the space can be used again
                held.retain(|h| h.slot != i);
                slots[i].frame = None;
                ctx.ev("release", i as u64, 0, String::new);
            }
        }
        for h in &held {
            ensure!(ctx, buf[h.at..h.at + h.content.len()] == h.content[..], "borrowed-value-changed", "a borrowed value {} became {}", show(&h.content), show(&buf[h.at..h.at + h.content.len()]));
        }
    }
    ensure!(ctx, decoded == n, "not-delivered", "{decoded} of {n} frames decoded");
    Ok(())
}

fn decode(ctx: &mut Ctx, buf: &mut [u8], s: &mut Slot, slot: usize, d: &Doc, held: &mut Vec<Held>) -> R {
    let (lo, hi) = (s.at, s.at + d.bytes.len());
    let before = buf.to_vec();
    let dec = d.enc.decoder();
    let any = if ctx.s.chance(1, 6) { Some(refjson::read(&Ty::Any, &d.bytes, dec)) } else { None };
    let how = ctx.s.draw(8);
    take_borrows();
    let base = buf.as_ptr() as usize;
    let region = &mut buf[lo..hi];
    let (t, want) = if how == 0 { (&Ty::Ignored, Some(Val::Ignored)) } else if let Some(w) = any { (&Ty::Any, w) } else { (&d.t, Some(d.v.clone())) };
    let r = if how == 1 {
        by_hand(dec, t, region)
    } else { js_de(dec, t, region) };
    let lent = take_borrows();
    ctx.ev("decode", slot as u64, d.bytes.len() as u64, || brief(&r));
    match (&r, &want) {
        (Ok(v), Some(w)) => ensure!(ctx, same(v, w), "wrong-value", "{} as {} was decoded as {} instead of {}", show(&d.bytes), brief(t), brief(v), brief(w)),
        (Err(e), _) => return bad("frame-not-decoded", || format!("{e:?} for {} as {}", show(&d.bytes), brief(t))),
        (Ok(v), None) => return bad("harness-or-value", || format!("{} was decoded as {}, the reference reads nothing", show(&d.bytes), brief(v))),
    }
    ensure!(ctx, buf[..lo] == before[..lo] && buf[hi..] == before[hi..], "neighbour-changed", "decoding {} changed bytes outside its slice", show(&d.bytes));
    for (p, c) in lent {
        if c.is_empty() { continue }
        let at = p.wrapping_sub(base);
        ensure!(ctx, at >= lo && at + c.len() <= hi, "slice-outside-frame", "a borrowed slice {} lies outside of the frame", show(&c));
        held.push(Held { slot, at, content: c });
    }
    s.used = true;
    Ok(())
}
fn by_hand(dec: Dec, t: &Ty, b: &mut [u8]) -> Result<Val, JE> {
    fn go<'a, P: jd::StringByteDecoder<'a>>(t: &Ty, b: &'a mut [u8]) -> Result<Val, JE> {
        let mut d = jd::Deserializer::<P>::from_mut_slice(b);
        let v = D_(t).deserialize(&mut d)?;
        d.end()?;
        Ok(v)
    }
    match dec {
        Dec::Nope => go::<jd::StringByteNopeDecoder>(t, b), Dec::Hex => go::<jd::StringByteHexDecoder>(t, b),
        Dec::Base64 => go::<jd::StringByteBase64Decoder>(t, b), Dec::Any => go::<AnyDec>(t, b),
    }
}

/// Documents following each other in one slice.
fn sequence(ctx: &mut Ctx) -> R {
    let g = gener(ctx, true);
    let n = 1 + ctx.s.usize(5);
    let enc = *ctx.s.pick(ENCS);
    let mut docs = vec![];
    let mut buf: Vec<u8> = vec![];
    for i in 0..n {
        let d = document(ctx, g, enc)?;
        let first = d.bytes.iter().position(|c| !c.is_ascii_whitespace()).unwrap();
        let last = d.bytes.iter().rposition(|c| !c.is_ascii_whitespace()).unwrap();
        let word = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'-' | b'.' | b'+');
        if buf.last().is_some_and(|c| word(*c)) && first == 0 && word(d.bytes[0]) { buf.push(*ctx.s.pick(b" \n\t\r")); }
        while ctx.s.chance(1, 4) { buf.push(*ctx.s.pick(b" \n\t\r")); }
        let (start, end) = (buf.len() + first, buf.len() + last + 1);
        buf.extend_from_slice(&d.bytes);
        ctx.ev("document", i as u64, d.bytes.len() as u64, || format!("{enc:?} {} = {}", brief(&d.v), show(&d.bytes)));
        docs.push((d, start, end));
    }
    fn go<'a, P: jd::StringByteDecoder<'a>>(ctx: &mut Ctx, docs: &[(Doc, usize, usize)], b: &'a mut [u8]) -> R<Vec<(usize, Vec<u8>)>> {
        let orig = b.to_vec();
        let total = orig.len();
        let stop = if ctx.s.chance(1, 5) { ctx.s.usize(docs.len()) } else { docs.len() };
        let mut held = vec![];
        let mut d = jd::Deserializer::<P>::from_mut_slice(b);
        for (i, (doc, _, end)) in docs[..stop].iter().enumerate() {
            take_borrows();
            let ignore = ctx.s.chance(1, 6);
            let t = if ignore { &Ty::Ignored } else { &doc.t };
            let r = D_(t).deserialize(&mut d);
            held.extend(take_borrows());
            ctx.ev("decode", i as u64, d.remaining_len() as u64, || brief(&r));
            match &r {
                Ok(v) => {
                    let want = if ignore { Val::Ignored } else if doc.t == Ty::Any { refjson::read(&Ty::Any, &doc.bytes, doc.enc.decoder()).unwrap_or(Val::Unit) } else { doc.v.clone() };
                    ensure!(ctx, same(v, &want), "wrong-value", "document {i} {} was decoded as {} instead of {}", show(&doc.bytes), brief(v), brief(&want));
                }
                Err(e) => return bad("document-not-decoded", || format!("{e:?} for document {i} {} in {}", show(&doc.bytes), show(&orig))),
            }
            let at = total - d.remaining_len();
            let next = docs.get(i + 1).map(|x| x.1).unwrap_or(total);
            ensure!(ctx, *end <= at && at <= next, "out-of-step", "after document {i} (ends at {end}, the next starts at {next}) the cursor is at {at} in {}", show(&orig));
            if let Ok(rest) = d.input_mut() { ensure!(ctx, *rest == orig[at..], "unread-input-changed", "decoding document {i} changed what follows it: {}", show(rest)); }
        }
        let r = d.end();
        if stop == docs.len() { ensure!(ctx, r.is_ok(), "end-not-recognized", "{r:?} after all documents of {}", show(&orig)); }
        else { ensure!(ctx, r.is_err(), "trailing-document-lost", "the end was reported before document {stop} in {}", show(&orig)); }
        Ok(held)
    }
    let held = match enc.decoder() {
        Dec::Nope => go::<jd::StringByteNopeDecoder>(ctx, &docs, &mut buf)?, Dec::Hex => go::<jd::StringByteHexDecoder>(ctx, &docs, &mut buf)?,
        Dec::Base64 => go::<jd::StringByteBase64Decoder>(ctx, &docs, &mut buf)?, Dec::Any => go::<AnyDec>(ctx, &docs, &mut buf)?,
    };
    let base = buf.as_ptr() as usize;
    for (p, c) in held {
        if c.is_empty() { continue }
        let at = p.wrapping_sub(base);
        ensure!(ctx, at < buf.len() && at + c.len() <= buf.len() && buf[at..at + c.len()] == c[..], "borrowed-value-changed", "a borrowed value {} changed while later documents were decoded", show(&c));
    }
    Ok(())
}
