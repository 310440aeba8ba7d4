//! C11: torn JSON documents.
use super::c09::{document, Doc};
use super::*;
use crate::ctx::{bad, show, R};
use crate::ensure;
use crate::refjson::same;
use ser_write_json::de as jd;
use serde::de::DeserializeSeed;

fn bare_number(b: &[u8]) -> bool { matches!(b.iter().find(|c| !c.is_ascii_whitespace()), Some(b'-' | b'0'..=b'9')) }
fn number_char(c: u8) -> bool { matches!(c, b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E') }
fn torn_error(e: &JE, prefix: &[u8]) -> bool {
    *e == JE::UnexpectedEof || (*e == JE::InvalidNumber && prefix.last().is_some_and(|c| number_char(*c)))
}
fn a_document(ctx: &mut Ctx, g: Gen, enc: Enc) -> R<Doc> {
    for _ in 0..8 {
        let d = document(ctx, g, enc)?;
        if !bare_number(&d.bytes) { return Ok(d) }
    }
    Ok(Doc { t: Ty::Bool, v: Val::Bool(true), enc, bytes: b"true".to_vec(), foreign: true })
}

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.s.chance(1, 12) { return zoo::js(ctx, zoo::Op::Torn) }
    let g = gener(ctx, true);
    let enc = *ctx.s.pick(ENCS);
    if ctx.s.chance(1, 3) { return log(ctx, g, enc) }
    let d = a_document(ctx, g, enc)?;
    let end = d.bytes.iter().rposition(|c| !c.is_ascii_whitespace()).unwrap() + 1;
    ctx.ev("document", end as u64, 0, || format!("{enc:?} {} = {}", brief(&d.v), show(&d.bytes)));
    // every cut of short documents, sampled cuts of long ones
    let cuts: Vec<usize> = if end <= 160 { (0..end).collect() } else {
        (0..60).map(|i| match i { 0..20 => end - 1 - i, 20..30 => i - 20, _ => ctx.s.usize(end) }).collect()
    };
    let mut work = Vec::with_capacity(end);
    let object = ctx.s.bool();
    for k in cuts {
        ctx.fault("document_cut");
        let p = &d.bytes[..k];
        for ty in [&d.t, &Ty::Ignored] {
            work.clear();
            work.extend_from_slice(p);
            let r = if object { js_obj(enc.decoder(), ty, &mut work).map(|x| x.0) } else { js_de(enc.decoder(), ty, &mut work) };
            ctx.ev("cut", k as u64, 0, || format!("as {}: {}", if *ty == Ty::Ignored { "ignored" } else { "written" }, brief(&r)));
            match &r {
                Ok(v) => return bad("torn-document-accepted", || format!("{k} of {end} bytes, {} as {} was decoded as {}", show(p), brief(ty), brief(v))),
                Err(e) => ensure!(ctx, torn_error(e, p), "torn-document-wrong-error", "{e:?} for {k} of {end} bytes, {} as {}", show(p), brief(ty)),
            }
        }
    }
    // the rest arrives
    work.clear();
    work.extend_from_slice(&d.bytes);
    whole(ctx, &d, &js_de(enc.decoder(), &d.t, &mut work))
}
fn whole(ctx: &mut Ctx, d: &Doc, r: &Result<Val, JE>) -> R {
    let want = if d.t == Ty::Any { refjson::read(&Ty::Any, &d.bytes, d.enc.decoder()).unwrap_or(Val::Unit) } else { d.v.clone() };
    ensure!(ctx, matches!(r, Ok(v) if same(v, &want)), "complete-document-lost", "{} gives {}", show(&d.bytes), brief(r));
    Ok(())
}

/// A log of documents, crashes while appending, recovery.
fn log(ctx: &mut Ctx, g: Gen, enc: Enc) -> R {
    let n = 1 + ctx.s.usize(5);
    let mut docs = vec![];
    let mut stream: Vec<u8> = vec![];
    for i in 0..n {
        let d = a_document(ctx, g, enc)?;
        ctx.ev("document", i as u64, d.bytes.len() as u64, || format!("{enc:?} {} = {}", brief(&d.v), show(&d.bytes)));
        stream.extend_from_slice(&d.bytes);
        let last = d.bytes.iter().rposition(|c| !c.is_ascii_whitespace()).unwrap();
        let end = stream.len() - d.bytes.len() + last + 1;
        if ctx.s.bool() { stream.push(b'\n'); }
        docs.push((d, end));
    }
    let mut disk = 0usize;
    let mut rounds = 0;
    loop {
        rounds += 1;
        let left = stream.len() - disk;
        let crash = rounds < 7 && ctx.s.chance(3, 4);
        let k = if crash { ctx.s.usize(left + 1) } else { left };
        disk += k;
        if crash { ctx.fault("torn_write"); }
        ctx.now += 1000;
        ctx.ev("append", disk as u64, k as u64, || if crash { "torn by a crash".into() } else { String::new() });
        let mut copy = stream[..disk].to_vec();
        let end = match enc.decoder() {
            Dec::Nope => recover::<jd::StringByteNopeDecoder>(ctx, &docs, &mut copy)?, Dec::Hex => recover::<jd::StringByteHexDecoder>(ctx, &docs, &mut copy)?,
            Dec::Base64 => recover::<jd::StringByteBase64Decoder>(ctx, &docs, &mut copy)?, Dec::Any => recover::<AnyDec>(ctx, &docs, &mut copy)?,
        };
        if disk == stream.len() && !crash { return Ok(()) }
        // what the crash tore is cut off
        disk = end;
    }
}
fn recover<'a, P: jd::StringByteDecoder<'a>>(ctx: &mut Ctx, docs: &[(Doc, usize)], b: &'a mut [u8]) -> R<usize> {
    let orig = b.to_vec();
    let total = b.len();
    let want = docs.iter().filter(|d| d.1 <= total).count();
    let mut d = jd::Deserializer::<P>::from_mut_slice(b);
    let (mut n, mut end) = (0, 0);
    let e = loop {
        let t = docs.get(n).map(|d| &d.0.t).unwrap_or(&Ty::Ignored);
        match D_(t).deserialize(&mut d) {
            Ok(v) => {
                ensure!(ctx, n < want, "torn-document-accepted", "document {n} was read as {} from a log of {want} complete documents: {}", brief(&v), show(&orig));
                whole(ctx, &docs[n].0, &Ok(v))?;
                n += 1;
                end = total - d.remaining_len();
            }
            Err(e) => break e,
        }
    };
    ctx.ev("recover", n as u64, want as u64, || format!("{e:?}"));
    ensure!(ctx, n == want, "complete-document-lost", "{n} documents recovered, {want} were complete ({e:?}): {}", show(&orig));
    ensure!(ctx, torn_error(&e, &orig), "torn-document-wrong-error", "{e:?} at the torn end of {}", show(&orig));
    Ok(end)
}
