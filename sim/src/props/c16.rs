//! C16: histories of low-level cursor operations against a position in the received bytes.
use super::c09::document;
use super::*;
/// Far beyond the input, without overflowing the position in a history on any machine.
const FAR: u64 = 27;
use crate::ctx::{bad, show, R};
use crate::ensure;
use crate::refmp;
use crate::sinks::{canaries_ok, CANARY, PAD};
use crate::src::Src;
use ser_write_json::de as jd;
use ser_write_msgpack::de as md;
use serde::de::DeserializeSeed;

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.s.chance(1, 40) { return codec(ctx) }
    if ctx.s.bool() { msgpack(ctx) } else { json(ctx) }
}

/// The Base-64 helpers on their own: in place, on memory with something on both sides.
fn codec(ctx: &mut Ctx) -> R {
    use ser_write_json::base64;
    const ALPHA: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = crate::sinks::FaultSink::new(ctx.s.bool());
    for _ in 0..1 + ctx.s.usize(3) {
        let data = gen_bytes(&mut ctx.s, false);
        out.arm(None);
        let pad = base64::encode(&mut out, &data);
        let text = refjson::b64(&data, false);
        ctx.ev("encode", data.len() as u64, out.calls, || show(&out.got));
        ensure!(ctx, out.got == text.as_bytes() && pad.as_ref().ok() == Some(&(((3 - data.len() % 3) % 3) as u8)), "wrong-encoding", "{} gives {} and {pad:?} paddings instead of {text}", show(&data), show(&out.got));
        if out.calls > 0 {
            let k = ctx.s.draw(out.calls);
            out.arm(Some((k, ctx.s.usize(5))));
            let r = base64::encode(&mut out, &data);
            ctx.fault("writer_call_fails");
            ensure!(ctx, r.is_err() && out.after == 0 && text.as_bytes().starts_with(&out.got), "failure-swallowed", "the writer failed at call {k}: {r:?}, called {} times more, accepted {}", out.after, show(&out.got));
        }
        // what arrives is cut, padded, damaged, or followed by something else
        let mut b = text.into_bytes();
        let tail = ctx.s.usize(8);
        for _ in 0..tail { let c = if ctx.s.bool() { *ctx.s.pick(ALPHA) } else { ctx.s.draw(256) as u8 }; b.push(c); }
        if !b.is_empty() && ctx.s.chance(1, 3) { let i = ctx.s.usize(b.len()); b[i] = ctx.s.draw(256) as u8; ctx.fault("byte_overwrite"); }
        let n = ctx.s.range(b.len().saturating_sub(6), b.len());
        let used = b[..n].iter().position(|c| !ALPHA.contains(c)).unwrap_or(n);
        let (mut bits, mut have, mut want) = (0u32, 0, vec![]);
        for c in &b[..used] {
            bits = bits << 6 | ALPHA.iter().position(|a| a == c).unwrap() as u32;
            have += 6;
            if have >= 8 { have -= 8; want.push((bits >> have) as u8); bits &= (1 << have) - 1; }
        }
        let mut mem = vec![CANARY; b.len() + 2 * PAD];
        mem[PAD..PAD + b.len()].copy_from_slice(&b);
        let r = base64::decode(&mut mem[PAD..PAD + n]);
        ctx.ev("decode", n as u64, r.0 as u64, || format!("{} gives {r:?}", show(&b[..n])));
        ensure!(ctx, r == (want.len(), used), "wrong-decoding", "{} gives lengths {r:?} instead of {:?}", show(&b[..n]), (want.len(), used));
        ensure!(ctx, mem[PAD..PAD + r.0] == want[..], "wrong-decoding", "{} gives {} instead of {}", show(&b[..n]), show(&mem[PAD..PAD + r.0]), show(&want));
        ensure!(ctx, canaries_ok(&mem) && mem[PAD + used..PAD + b.len()] == b[used..], "wrote-outside", "bytes behind the text changed");
        ctx.obs_bytes("base64", &mem[..PAD + r.0]);
    }
    Ok(())
}

/// How far the reader jumps: mostly within what has arrived, sometimes beyond.
fn jump(s: &mut Src, have: usize) -> usize {
    match s.draw(16) {
        0..=9 => s.usize(have.min(12) + 1),
        10..=12 => s.usize(have + 1),
        13 => have,
        14 => have + s.usize(20),
        _ => have.saturating_add(1 << s.draw(FAR)),
    }
}

// ---------------------------------------------------------------------------------------- MessagePack

pub fn msgpack(ctx: &mut Ctx) -> R {
    let g = gener(ctx, false);
    let mut b = vec![];
    let mut starts: Vec<(usize, Ty)> = vec![];
    let n = 1 + ctx.s.usize(5);
    for _ in 0..n {
        match ctx.s.draw(6) {
            0 => { let k = ctx.s.usize(6); for _ in 0..k { b.push(junk(&mut ctx.s, false)); } ctx.fault("noise"); }
            1 => { let tr = refmp::gen_tree(&mut ctx.s, 3, true); let mut w = refmp::Width::random(&mut ctx.s); refmp::write(&tr, &mut w, &mut b); }
            _ => {
                let (t, v) = gen_typed(&mut ctx.s, g);
                let fl = flavour(&mut ctx.s, &t, &v);
                starts.push((b.len(), t.clone()));
                let mut w = refmp::Width::draw(&mut ctx.s);
                refmp::write(&refmp::to_tree(&t, &v, fl), &mut w, &mut b);
            }
        }
    }
    if ctx.s.chance(1, 4) { damage(ctx, &mut b, false); }
    // the bytes arrive in up to three pieces
    let mut arrived = if ctx.s.chance(1, 2) { b.len() } else { ctx.fault("partial_arrival"); ctx.s.usize(b.len() + 1) };
    let mut pos = 0usize;
    let pieces = 1 + ctx.s.usize(3);
    ctx.ev("input", b.len() as u64, arrived as u64, || show(&b));
    for piece in 0..pieces {
        if piece > 0 {
            if pos > arrived { break }
            arrived = if piece + 1 == pieces { b.len() } else { arrived + ctx.s.usize(b.len() - arrived + 1) };
            ctx.ev("arrival", piece as u64, arrived as u64, String::new);
        }
        let base = pos;
        let r = reader(ctx, &b[base..arrived], base, &starts);
        pos = base + r?;
    }
    Ok(())
}

fn reader(ctx: &mut Ctx, b: &[u8], base: usize, starts: &[(usize, Ty)]) -> R<usize> {
    let n = b.len();
    let mut d = md::Deserializer::from_slice(b);
    let mut pos = 0usize;
    let mut held: Vec<(&[u8], usize)> = vec![];
    let ops = 1 + ctx.s.usize(14);
    let lo = b.as_ptr() as usize;
    for _ in 0..ops {
        let over = pos > n;
        let op = ctx.s.weighted(&[3, 3, 4, 5, 5, 4, 1]);
        let eof = |e: &md::Error| matches!(e, md::Error::UnexpectedEof);
        let mut resync = false;
        match op {
            0 => {
                let r = d.peek();
                ctx.ev("peek", pos as u64, 0, || format!("{r:?}"));
                ctx.obs_str("peek", &format!("{r:?}"));
                match b.get(pos) {
                    Some(c) => ensure!(ctx, r == Ok(*c), "wrong-peek", "{r:?} instead of {c:#x} at {pos} of {}", show(b)),
                    None => ensure!(ctx, r.as_ref().is_err_and(eof), "end-not-reported", "peek gives {r:?} at {pos} of {n}"),
                }
            }
            1 => {
                let r = d.fetch();
                ctx.ev("fetch", pos as u64, 0, || format!("{r:?}"));
                ctx.obs_str("fetch", &format!("{r:?}"));
                match b.get(pos) {
                    Some(c) => { ensure!(ctx, r == Ok(*c), "wrong-fetch", "{r:?} instead of {c:#x} at {pos} of {}", show(b)); pos += 1; }
                    None => ensure!(ctx, r.as_ref().is_err_and(eof), "end-not-reported", "fetch gives {r:?} at {pos} of {n}"),
                }
            }
            2 => {
                let k = jump(&mut ctx.s, n.saturating_sub(pos));
                if pos + k > n { ctx.fault("advanced_past_end"); }
                ctx.ev("advance", pos as u64, k as u64, String::new);
                d.eat_some(k);
                pos += k;
            }
            3 => {
                let k = jump(&mut ctx.s, n.saturating_sub(pos));
                let r = d.split_input(k);
                ctx.ev("split", pos as u64, k as u64, || format!("{:?}", r.as_ref().map(|x| show(x))));
                ctx.obs_str("split", &format!("{:?}", r.as_ref().map(|x| x.len())));
                if !over && k <= n - pos {
                    ensure!(ctx, r == Ok(&b[pos..pos + k]), "wrong-split", "split of {k} at {pos} of {} gives {r:?}", show(b));
                    let s = r.unwrap_or(&[]);
                    ensure!(ctx, s.is_empty() || s.as_ptr() as usize == lo + pos, "slice-outside-input", "the slice split off at {pos} is not that part of the input");
                    held.push((s, pos));
                    pos += k;
                } else { ensure!(ctx, r.as_ref().is_err_and(eof), "end-not-reported", "split of {k} at {pos} of {n} gives {r:?}"); }
            }
            4 => {
                let r = d.eat_message();
                ctx.ev("skip_message", pos as u64, 0, || format!("{r:?}"));
                ctx.obs_str("skip", &format!("{:?}", r.as_ref().map_err(kind)));
                let want = if over { Err(refmp::PErr::Eof) } else { refmp::span(&b[pos..]) };
                match want {
                    Ok(k) => { ensure!(ctx, r.is_ok(), "message-not-skipped", "{r:?} for {} at {pos}", show(&b[pos..])); pos += k; }
                    Err(refmp::PErr::Eof) => { ensure!(ctx, r.as_ref().is_err_and(eof), "end-not-reported", "skipping at {pos} of {n} gives {r:?}"); resync = true; }
                    Err(_) => { ensure!(ctx, r.is_err(), "bad-message-skipped", "skipping {} succeeds", show(&b[pos..])); resync = true; }
                }
            }
            5 => {
                let at = starts.iter().find(|x| x.0 == base + pos);
                let t = match at { Some((_, t)) if ctx.s.chance(3, 4) => t.clone(), _ => match ctx.s.draw(3) { 0 => Ty::Any, 1 => Ty::Ignored, _ => gen_typed(&mut ctx.s, Gen { max_depth: 2, ..Gen::new(false) }).0 } };
                take_borrows();
                let r = D_(&t).deserialize(&mut d);
                let lent = take_borrows();
                ctx.ev("decode", pos as u64, r.is_ok() as u64, || brief(&r));
                ctx.obs_str("decode", &format!("{:?}", r.as_ref().map_err(kind)));
                if over { ensure!(ctx, r.as_ref().is_err_and(eof), "end-not-reported", "decoding {} at {pos} of {n} gives {r:?}", brief(&t)); }
                match &r {
                    Ok(v) => {
                        let want = refmp::parse(&b[pos..]).ok().and_then(|(m, k)| refmp::read(&t, &m).map(|v| (v, k)));
                        match want {
                            Some((w, k)) if w == *v => pos += k,
                            w => return bad("wrong-value", || format!("{} as {} gives {} instead of {}", show(&b[pos..]), brief(&t), brief(v), brief(&w))),
                        }
                        for (p, c) in lent {
                            let ok = c.is_empty() || (p >= lo && p + c.len() <= lo + n && b[p - lo..p - lo + c.len()] == c[..]);
                            ensure!(ctx, ok, "slice-outside-input", "a slice lent out ({}) is not part of the input", show(&c));
                        }
                    }
                    Err(_) => resync = true,
                }
            }
            _ => {}
        }
        if resync {
            // where a failed operation leaves the cursor is not specified, except that nothing is read twice
            let left = d.remaining_len();
            let now = if d.input_ref().is_err() { n + 1 } else { n - left.min(n) };
            if !over {
                ensure!(ctx, left <= n - pos, "moved-backwards", "after a failed operation at {pos} of {n} there are {left} bytes left");
                pos = now;
            } else { ensure!(ctx, left == 0, "moved-backwards", "a cursor beyond the input has {left} bytes left"); }
        }
        // account
        let left = n.saturating_sub(pos);
        ensure!(ctx, d.remaining_len() == left, "wrong-account", "{} bytes left at {pos} of {n}", d.remaining_len());
        match d.input_ref() {
            Ok(rest) => ensure!(ctx, pos <= n && *rest == b[pos..], "wrong-account", "the unread bytes at {pos} of {n} are {}", show(rest)),
            Err(e) => ensure!(ctx, pos > n && eof(&e), "wrong-account", "{e:?} for the unread bytes at {pos} of {n}"),
        }
        for (s, at) in &held { ensure!(ctx, **s == b[*at..*at + s.len()], "slice-changed", "a slice handed out earlier changed"); }
    }
    let r = d.end();
    ctx.ev("end", pos as u64, 0, || format!("{r:?}"));
    ctx.obs_str("end", &format!("{r:?}"));
    if pos <= n { ensure!(ctx, r == Ok(n - pos), "wrong-end", "{r:?} at {pos} of {n}"); }
    else { ensure!(ctx, matches!(r, Err(md::Error::UnexpectedEof)), "end-not-reported", "{r:?} at {pos} of {n}"); }
    Ok(pos)
}

// ---------------------------------------------------------------------------------------------- JSON

pub fn json(ctx: &mut Ctx) -> R {
    let g = gener(ctx, true);
    let enc = *ctx.s.pick(ENCS);
    let mut b: Vec<u8> = vec![];
    let mut starts = vec![];
    let n = 1 + ctx.s.usize(8);
    for _ in 0..n {
        match ctx.s.draw(10) {
            0 => { let k = ctx.s.usize(5); for _ in 0..k { b.push(*ctx.s.pick(b" \n\t\r")); } }
            1 => { let neg = ctx.s.bool(); if neg { b.push(b'-'); } let w = *ctx.s.pick(&[8u8, 16, 32, 64]); let i = gen_int(&mut ctx.s, false, w); b.extend_from_slice(i.to_string().as_bytes()); if ctx.s.bool() { b.push(*ctx.s.pick(b" ,.eE-0]")); } }
            2 => b.extend_from_slice(*ctx.s.pick(&[&b"true"[..], b"false", b"null", b"nul", b"tru"])),
            3 => { let k = ctx.s.usize(12); let up = ctx.s.bool(); b.push(b'"'); for _ in 0..2 * k { let d = ctx.s.usize(16); b.push((if up { b"0123456789ABCDEF" } else { b"0123456789abcdef" })[d]); } if ctx.s.chance(1, 6) { b.push(b'7'); } b.push(b'"'); }
            4 => { let k = ctx.s.usize(14); b.push(b'"'); for _ in 0..k { b.push(*ctx.s.pick(b"ABCDwxyz0189+/Zm9v")); } let p = ctx.s.usize(3); for _ in 0..p { b.push(b'='); } b.push(b'"'); }
            5 => { let k = ctx.s.usize(4); for _ in 0..k { b.push(junk(&mut ctx.s, true)); } ctx.fault("noise"); }
            6 | 7 => { let s = gen_string(&mut ctx.s, false); let st = refjson::Style { ws: 0, esc: 4, compactness: 0, enc, lower: false, pad: false, structs_as_arrays: false, long: 0, e: Expand::new(ctx.s.draw(0)) }; style_text(st, &s, &mut b); }
            _ => { let d = document(ctx, g, enc)?; starts.push((b.len(), d.t.clone())); b.extend_from_slice(&d.bytes); }
        }
        if ctx.s.bool() { b.push(*ctx.s.pick(b" ,\n:]}")); }
    }
    if ctx.s.chance(1, 5) { damage(ctx, &mut b, true); }
    let n = b.len();
    let mut mem = vec![CANARY; n + 2 * PAD];
    mem[PAD..PAD + n].copy_from_slice(&b);
    let mut arrived = if ctx.s.chance(1, 2) { n } else { ctx.fault("partial_arrival"); ctx.s.usize(n + 1) };
    ctx.ev("input", n as u64, arrived as u64, || show(&b));
    let pieces = 1 + ctx.s.usize(3);
    let mut pos = 0;
    for piece in 0..pieces {
        if piece > 0 {
            arrived = if piece + 1 == pieces { n } else { arrived + ctx.s.usize(n - arrived + 1) };
            ctx.ev("arrival", piece as u64, arrived as u64, String::new);
        }
        let slice = &mut mem[PAD + pos..PAD + arrived];
        let st: Vec<(usize, Ty)> = starts.iter().filter(|x| x.0 >= pos).map(|x| (x.0 - pos, x.1.clone())).collect();
        let dec = if ctx.s.chance(1, 5) { *ctx.s.pick(DECS) } else { enc.decoder() };
        let k = match dec {
            Dec::Nope => jreader::<jd::StringByteNopeDecoder>(ctx, dec, slice, &st)?,
            Dec::Hex => jreader::<jd::StringByteHexDecoder>(ctx, dec, slice, &st)?,
            Dec::Base64 => jreader::<jd::StringByteBase64Decoder>(ctx, dec, slice, &st)?,
            Dec::Any => jreader::<AnyDec>(ctx, dec, slice, &st)?,
        };
        ensure!(ctx, canaries_ok(&mem) && mem[PAD + arrived..PAD + n] == b[arrived..], "wrote-outside", "bytes outside of the arrived input changed");
        match k { Some(k) => pos += k, None => break }
    }
    ctx.obs_bytes("memory", &mem);
    Ok(())
}
fn style_text(mut st: refjson::Style, s: &str, out: &mut Vec<u8>) { st.text(s, out) }

struct Model { cur: Vec<u8>, over: bool }

fn jreader<'a, P: jd::StringByteDecoder<'a>>(ctx: &mut Ctx, dec: Dec, b: &'a mut [u8], starts: &[(usize, Ty)]) -> R<Option<usize>> {
    let n = b.len();
    let lo = b.as_ptr() as usize;
    let mut m = Model { cur: b.to_vec(), over: false };
    let mut d = jd::Deserializer::<P>::from_mut_slice(b);
    let mut held: Vec<(&'a [u8], Vec<u8>)> = vec![];
    let mut lent: Vec<(usize, Vec<u8>)> = vec![];
    let eof = |e: &jd::Error| matches!(e, jd::Error::UnexpectedEof);
    let ops = 1 + ctx.s.usize(16);
    for _ in 0..ops {
        let have = m.cur.len();
        let at = n - have;
        // a reader looks at what comes next before it chooses
        let op = match m.cur.first() {
            _ if ctx.s.chance(1, 3) => ctx.s.usize(16),
            Some(b'"') => { ctx.ev("quote", at as u64, 0, String::new); d.eat_some(1); m.cur.remove(0); 8 + ctx.s.usize(5) }
            Some(b'-' | b'0'..=b'9') => 5 + ctx.s.usize(2),
            Some(b't' | b'f' | b'n') => *ctx.s.pick(&[7, 13]),
            Some(b'[' | b'{') => 13,
            Some(b' ' | b'\n' | b'\r' | b'\t') => *ctx.s.pick(&[2, 2, 5, 6, 13]),
            _ => ctx.s.usize(14),
        };
        let have = m.cur.len();
        let at = n - have;
        let mut resync = false;
        macro_rules! number { ($f:ident, $t:ty, $signed:expr, $bits:expr) => {{
            let r = d.$f::<$t>();
            let rs = format!("{:?}", r.as_ref().map_err(kind));
            ctx.ev("number", at as u64, $bits, || rs.clone());
            ctx.obs_str("number", &rs);
            let mut l = refjson::L { b: &m.cur, i: 0, dec };
            let blank = l.ws().is_none();
            l.i = 0;
            let want = if m.over { None } else { l.int($signed, $bits) };
            let i = l.i;
            match (&r, want) {
                (Ok(v), Some(w)) => { ensure!(ctx, *v as i128 == w, "wrong-number", "{v} instead of {w} from {}", show(&m.cur)); m.cur.drain(..i); }
                (Err(e), None) => { ensure!(ctx, !(m.over || blank) || eof(e), "end-not-reported", "a number read at the end gives {e:?}"); resync = true; }
                (r, w) => return bad("wrong-number", || format!("{r:?} instead of {w:?} from {} ({} bits)", show(&m.cur), $bits)),
            }
        }} }
        macro_rules! text { ($name:literal, $r:expr, $want:expr, $used:expr) => {{
            let r: Result<&'a [u8], jd::Error> = $r;
            let rs = format!("{:?}", r.as_ref().map(|b| show(b)).map_err(kind));
            ctx.ev($name, at as u64, r.is_ok() as u64, || rs.clone());
            ctx.obs_str($name, &rs);
            match (r, $want) {
                (Ok(s), Some(w)) => {
                    let w: Vec<u8> = w;
                    ensure!(ctx, *s == w[..], "wrong-text", "{} instead of {} from {}", show(s), show(&w), show(&m.cur));
                    let p = s.as_ptr() as usize;
                    ensure!(ctx, s.is_empty() || (p >= lo + at && p + s.len() <= lo + at + $used), "slice-outside-input", "the decoded text lies outside of the bytes it was read from");
                    m.cur.drain(..$used);
                    held.push((s, w));
                }
                (Err(e), None) => { ensure!(ctx, !(m.over || have == 0) || eof(&e), "end-not-reported", "{} at the end gives {e:?}", $name); resync = true; }
                (r, w) => return bad("wrong-text", || format!("{} gives {:?} instead of {:?} from {}", $name, r.map(show), w.map(|w: Vec<u8>| show(&w)), show(&m.cur))),
            }
        }} }
        match op {
            0 => {
                let r = d.peek();
                ctx.ev("peek", at as u64, 0, || format!("{r:?}"));
                match m.cur.first() {
                    Some(c) => ensure!(ctx, r == Ok(*c), "wrong-peek", "{r:?} instead of {c:#x} at {at}"),
                    None => ensure!(ctx, r.as_ref().is_err_and(eof), "end-not-reported", "peek gives {r:?} at the end"),
                }
            }
            1 => {
                let k = jump(&mut ctx.s, have);
                if m.over || k > have { ctx.fault("advanced_past_end"); }
                ctx.ev("advance", at as u64, k as u64, String::new);
                d.eat_some(k);
                if k > have { m.over = true; m.cur.clear(); } else { m.cur.drain(..k); }
            }
            2 => {
                let r = d.eat_whitespace();
                ctx.ev("whitespace", at as u64, 0, || format!("{r:?}"));
                ctx.obs_str("whitespace", &format!("{r:?}"));
                match m.cur.iter().position(|c| !b" \n\t\r".contains(c)) {
                    Some(p) => { ensure!(ctx, r == Ok(m.cur[p]), "wrong-peek", "{r:?} after whitespace in {}", show(&m.cur)); m.cur.drain(..p); }
                    None => { ensure!(ctx, r.as_ref().is_err_and(eof), "end-not-reported", "{r:?} after the last whitespace"); resync = true; }
                }
            }
            3 => {
                // the reader changes bytes it has not parsed yet
                if let Ok(rest) = d.input_mut() {
                    ensure!(ctx, !m.over && *rest == m.cur[..], "wrong-account", "the unread bytes are {} instead of {}", show(rest), show(&m.cur));
                    if !rest.is_empty() && ctx.s.bool() {
                        let i = ctx.s.usize(rest.len().min(8));
                        let c = *ctx.s.pick(b"a \"1n\\");
                        rest[i] = c;
                        m.cur[i] = c;
                        ctx.ev("rewrite", at as u64, i as u64, || format!("{c:#x}"));
                    }
                } else { ensure!(ctx, m.over, "wrong-account", "no access to {have} unread bytes"); }
            }
            4 => {
                if !m.over {
                    let (k, skip) = { let k = ctx.s.usize(have.min(20) + 1); (k, ctx.s.usize((have - k).min(6) + 1)) };
                    let s = d.split_input(k, skip);
                    ctx.ev("split", k as u64, skip as u64, || show(s));
                    ensure!(ctx, *s == m.cur[..k], "wrong-split", "split gives {} instead of {}", show(s), show(&m.cur[..k]));
                    ensure!(ctx, s.is_empty() || s.as_ptr() as usize == lo + at, "slice-outside-input", "the slice split off at {at} is not that part of the input");
                    let mut w = m.cur[..k].to_vec();
                    if ctx.s.bool() { s.reverse(); w.reverse(); }
                    held.push((s, w));
                    m.cur.drain(..k + skip);
                }
            }
            5 => match ctx.s.draw(4) { 0 => number!(parse_unsigned, u8, false, 8), 1 => number!(parse_unsigned, u16, false, 16), 2 => number!(parse_unsigned, u32, false, 32), _ => number!(parse_unsigned, u64, false, 64) },
            6 => match ctx.s.draw(4) { 0 => number!(parse_signed, i8, true, 8), 1 => number!(parse_signed, i16, true, 16), 2 => number!(parse_signed, i32, true, 32), _ => number!(parse_signed, i64, true, 64) },
            7 => {
                let tok: &[u8] = *ctx.s.pick(&[&b"null"[..], b"true", b"false", b"rue", b"-Infinity", b"n"]);
                let r = d.parse_token_content(tok);
                ctx.ev("token", at as u64, r.is_ok() as u64, || format!("{r:?}"));
                ctx.obs_str("token", &format!("{r:?}"));
                if m.cur.starts_with(tok) { ensure!(ctx, r.is_ok(), "wrong-token", "{r:?} for {} in {}", show(tok), show(&m.cur)); m.cur.drain(..tok.len()); }
                else {
                    ensure!(ctx, r.is_err(), "wrong-token", "{} found in {}", show(tok), show(&m.cur));
                    ensure!(ctx, have > 0 || r.as_ref().is_err_and(eof), "end-not-reported", "a token read at the end gives {r:?}");
                    // only a match advances
                }
            }
            8 => {
                let r = d.eat_str_content();
                ctx.ev("skip_text", at as u64, r.is_ok() as u64, || format!("{r:?}"));
                ctx.obs_str("skip_text", &format!("{r:?}"));
                let mut l = refjson::L { b: &m.cur, i: 0, dec };
                let want = l.skip_raw();
                let used = l.i;
                ensure!(ctx, r.is_ok() == want.is_some(), "wrong-text", "skipping the string in {} gives {r:?}", show(&m.cur));
                if want.is_some() { m.cur.drain(..used); } else { ensure!(ctx, have > 0 || r.as_ref().is_err_and(eof), "end-not-reported", "skipping text at the end gives {r:?}"); resync = true; }
            }
            9 => { let (w, u) = { let mut l = refjson::L { b: &m.cur, i: 0, dec }; let w = l.raw().and_then(|w| String::from_utf8(w).ok()).map(String::into_bytes); (w, l.i) }; text!("text", d.parse_str_content().map(|s| s.as_bytes()), w, u) }
            10 => { let (w, u) = { let mut l = refjson::L { b: &m.cur, i: 0, dec }; (l.raw(), l.i) }; text!("text_bytes", d.parse_str_bytes_content(), w, u) }
            11 => { let (w, u) = { let mut l = refjson::L { b: &m.cur, i: 0, dec }; (l.hex(), l.i) }; text!("hex", d.parse_hex_bytes_content(), w, u) }
            12 => { let (w, u) = { let mut l = refjson::L { b: &m.cur, i: 0, dec }; (l.base64(), l.i) }; text!("base64", d.parse_base64_bytes_content(), w, u) }
            13 => {
                let known = starts.iter().find(|x| x.0 == at);
                let t = match known { Some((_, t)) if ctx.s.chance(3, 4) => t.clone(), _ => match ctx.s.draw(3) { 0 => Ty::Any, 1 => Ty::Ignored, _ => gen_typed(&mut ctx.s, Gen { max_depth: 2, ..Gen::new(true) }).0 } };
                take_borrows();
                let r = D_(&t).deserialize(&mut d);
                let got = take_borrows();
                ctx.ev("decode", at as u64, r.is_ok() as u64, || brief(&r));
                ctx.obs_str("decode", &format!("{:?}", r.as_ref().map_err(kind)));
                if have == 0 { ensure!(ctx, r.as_ref().is_err_and(eof), "end-not-reported", "decoding {} at the end gives {r:?}", brief(&t)); }
                if let Ok(v) = &r {
                    let mut l = refjson::L { b: &m.cur, i: 0, dec };
                    let w = l.value(&t);
                    ensure!(ctx, w.as_ref().is_some_and(|w| refjson::same(w, v)), "wrong-value", "{} as {} gives {} instead of {}", show(&m.cur), brief(&t), brief(v), brief(&w));
                    let end = l.i;
                    l.ws();
                    let used = have - d.remaining_len().min(have);
                    ensure!(ctx, end <= used && used <= l.i, "wrong-account", "decoding a value of {end} bytes consumed {used} of {}", show(&m.cur));
                    m.cur.drain(..used);
                    for (p, c) in got {
                        if c.is_empty() { continue }
                        ensure!(ctx, p >= lo + at && p + c.len() <= lo + at + used, "slice-outside-input", "a borrowed value lies outside of the bytes it was read from");
                        lent.push((p, c));
                    }
                } else { resync = true; }
            }
            _ => {
                let l = d.remaining_len();
                ensure!(ctx, l == have, "wrong-account", "{l} bytes left instead of {have}");
            }
        }
        if resync {
            // a failed operation may have moved on or garbled what it looked at, but never goes back
            let left = d.remaining_len();
            ensure!(ctx, left <= have, "moved-backwards", "{left} bytes left after a failed operation with {have} bytes left");
            match d.input_mut() {
                Ok(rest) => { if !m.over { m.cur = rest.to_vec(); } }
                Err(_) => { m.over = true; m.cur.clear(); }
            }
        }
        let left = d.remaining_len();
        ensure!(ctx, left == m.cur.len(), "wrong-account", "{left} bytes left instead of {}", m.cur.len());
        match d.input_mut() {
            Ok(rest) => ensure!(ctx, !m.over && *rest == m.cur[..], "wrong-account", "the unread bytes are {} instead of {}", show(rest), show(&m.cur)),
            Err(e) => ensure!(ctx, m.over && eof(&e), "wrong-account", "{e:?} with {} bytes unread", m.cur.len()),
        }
        for (s, w) in &held { ensure!(ctx, **s == w[..], "slice-changed", "a slice handed out earlier changed from {} to {}", show(w), show(s)); }
    }
    let blank = m.cur.iter().all(|c| b" \n\t\r".contains(c));
    let r = d.end();
    ctx.ev("end", m.over as u64, 0, || format!("{r:?}"));
    ctx.obs_str("end", &format!("{r:?}"));
    if !m.over { ensure!(ctx, r.is_ok() == blank, "wrong-end", "{r:?} with {} unread", show(&m.cur)); }
    // the deserializer is gone: what it lent out must still be in place
    for (s, w) in &held { ensure!(ctx, **s == w[..], "slice-changed", "a slice handed out earlier changed from {} to {}", show(w), show(s)); }
    for (p, c) in &lent {
        // SAFETY: inside of the slice this function was given, which outlives the deserializer
        let s = unsafe { std::slice::from_raw_parts(*p as *const u8, c.len()) };
        ensure!(ctx, *s == c[..], "slice-changed", "a borrowed value changed from {} to {}", show(c), show(s));
    }
    Ok(if m.over { None } else { Some(n - m.cur.len()) })
}
