//! C06: MessagePack streams, each message delivered once, in order, exactly, on time.
use super::*;
use crate::ctx::{bad, show, R};
use crate::ensure;
use crate::net::{fragments, Sched};
use crate::refmp;
use crate::sinks::VecSink;

pub struct Msg { pub t: Ty, pub v: Val, pub bytes: Vec<u8>, pub start: usize, pub end: usize, pub foreign: bool }

/// The traffic of a run: serialized by the code under test in any flavour, or by a foreign encoder.
pub fn traffic(ctx: &mut Ctx, n: usize, g: Gen) -> R<Vec<Msg>> {
    let mut out: Vec<Msg> = vec![];
    let mut at = 0;
    for i in 0..n {
        let (t, v) = gen_typed(&mut ctx.s, g);
        let fl = flavour(&mut ctx.s, &t, &v);
        let foreign = ctx.s.chance(1, 3);
        let bytes = if foreign {
            let mut w = refmp::Width::random(&mut ctx.s);
            refmp::bytes(&refmp::to_tree(&t, &v, fl), &mut w)
        } else {
            let mut w = VecSink::default();
            let r = ser(Fmt::Mp(fl), &mut w, &t, &v);
            ensure!(ctx, r.is_ok(), "sender-error", "{fl:?}: serializing {} of type {} failed: {r:?}", brief(&v), brief(&t));
            w.0
        };
        ctx.ev("message", i as u64, bytes.len() as u64, || format!("{fl:?}{} {} = {}", if foreign { " foreign encoder" } else { "" }, brief(&v), show(&bytes)));
        let end = at + bytes.len();
        out.push(Msg { t, v, bytes, start: at, end, foreign });
        at = end;
    }
    Ok(out)
}

pub struct Rx { pub buf: Vec<u8>, pub base: usize, pub next: usize }

/// Everything the receiver can try at the front of its buffer, until the front is incomplete.
pub fn receive(ctx: &mut Ctx, rx: &mut Rx, msgs: &[Msg], skips: bool) -> R {
    loop {
        let have = rx.base + rx.buf.len();
        let Some(m) = msgs.get(rx.next) else {
            ensure!(ctx, rx.buf.is_empty(), "left-over", "{} bytes left after the last message", rx.buf.len());
            return Ok(())
        };
        if have < m.end {
            // incomplete: nothing but "end of input", whichever way it is tried
            let r = mp_skip(&rx.buf);
            ensure!(ctx, r == Err(ME::UnexpectedEof), "partial-message", "skipping {} of {} bytes: {r:?} in {}", rx.buf.len(), m.bytes.len(), show(&rx.buf));
            let r = mp_de(&m.t, &rx.buf);
            ensure!(ctx, matches!(r, Err(ME::UnexpectedEof)), "partial-message", "decoding {} of {} bytes as {}: {} from {}", rx.buf.len(), m.bytes.len(), brief(&m.t), brief(&r), show(&rx.buf));
            if ctx.s.chance(1, 3) {
                let r = mp_obj(if ctx.s.bool() { &m.t } else { &Ty::Ignored }, &rx.buf);
                ensure!(ctx, matches!(r, Err(ME::UnexpectedEof)), "partial-message", "reading {} of {} bytes with a deserializer object: {} from {}", rx.buf.len(), m.bytes.len(), brief(&r), show(&rx.buf));
            }
            if ctx.s.chance(1, 4) {
                let r = mp_de(&Ty::Any, &rx.buf);
                ensure!(ctx, matches!(r, Err(ME::UnexpectedEof)), "partial-message", "decoding {} of {} bytes as any value: {}", rx.buf.len(), m.bytes.len(), brief(&r));
            }
            ctx.ev("wait", rx.next as u64, rx.buf.len() as u64, String::new);
            return Ok(())
        }
        // complete: whatever follows it
        let mut view = rx.buf.clone();
        if ctx.s.chance(1, 5) { let k = ctx.s.usize(4); for _ in 0..k { let c = ctx.s.draw(256) as u8; view.push(c); } }
        let how = ctx.s.draw(if skips { 6 } else { 5 });
        let got = match how {
            0 | 1 => match mp_de(&m.t, &view) { Ok((v, n)) => { same(ctx, m, &v)?; n } Err(e) => return undecoded(m, e, &view) },
            2 => match mp_de_tail(&m.t, &view) {
                Ok((v, tail)) => {
                    same(ctx, m, &v)?;
                    ensure!(ctx, view.ends_with(tail), "wrong-tail", "the tail returned is not the end of the input");
                    view.len() - tail.len()
                }
                Err(e) => return undecoded(m, e, &view),
            },
            3 => match mp_de(&Ty::Any, &view) {
                Ok((v, n)) => {
                    let want = refmp::parse(&m.bytes).map(|(t, _)| Val::Tree(t));
                    ensure!(ctx, want.as_ref() == Ok(&v), "wrong-value", "as any value: {} instead of {}", brief(&v), brief(&want));
                    n
                }
                Err(e) => return undecoded(m, e, &view),
            },
            4 => {
                // several messages through one deserializer object
                use serde::de::DeserializeSeed;
                let mut d = ser_write_msgpack::de::Deserializer::from_slice(&view);
                let mut used = 0;
                while let Some(m) = msgs.get(rx.next) {
                    if rx.base + rx.buf.len() < m.end { break }
                    match D_(&m.t).deserialize(&mut d) { Ok(v) => same(ctx, m, &v)?, Err(e) => return undecoded(m, e, &view) }
                    used += m.bytes.len();
                    ensure!(ctx, d.remaining_len() == view.len() - used, "wrong-length", "after a message of {} bytes {} bytes remain, expected {}", m.bytes.len(), d.remaining_len(), view.len() - used);
                    consume(ctx, rx, m, "decode_many")?;
                    if ctx.s.chance(1, 3) { break }
                }
                continue
            }
            _ => match mp_skip(&view) { Ok(n) => n, Err(e) => return undecoded(m, e, &view) },
        };
        ensure!(ctx, got == m.bytes.len(), "wrong-length", "message {} occupies {} bytes, {got} were reported", rx.next, m.bytes.len());
        consume(ctx, rx, m, if how == 5 { "skip" } else { "decode" })?;
    }
}
fn undecoded(m: &Msg, e: ME, b: &[u8]) -> R { bad("complete-message-not-decoded", || format!("{e:?} for the complete message {} = {} in {}", brief(&m.v), show(&m.bytes), show(b))) }
fn same(ctx: &mut Ctx, m: &Msg, v: &Val) -> R {
    ensure!(ctx, *v == m.v, "wrong-value", "sent {} as {}, received {}", brief(&m.v), show(&m.bytes), brief(v));
    Ok(())
}
fn consume(ctx: &mut Ctx, rx: &mut Rx, m: &Msg, how: &'static str) -> R {
    ctx.ev(how, rx.next as u64, m.bytes.len() as u64, String::new);
    rx.buf.drain(..m.bytes.len().min(rx.buf.len()));
    rx.base += m.bytes.len();
    rx.next += 1;
    Ok(())
}

enum Ev { Seg { epoch: u32, off: usize, len: usize }, Connect, Crash, Reset, Produce }

/// Content lengths that need all four bytes of a length, with more than one of them in use.
pub fn huge(ctx: &mut Ctx) -> R {
    let n = (1usize << 24) + *ctx.s.pick(&[0usize, 1, 255, 65536]) - ctx.s.usize(2);
    let (t, v) = match ctx.s.draw(2) { 0 => (Ty::Str(ctx.s.bool()), Val::Str("x".repeat(n))), _ => (Ty::Bytes(ctx.s.bool()), Val::Bytes(vec![0x91; n])) };
    ctx.fault("huge_message");
    let mut w = VecSink::default();
    let r = ser(Fmt::Mp(*ctx.s.pick(FLS)), &mut w, &t, &v);
    let mut b = w.0;
    ensure!(ctx, r.is_ok() && b.len() == n + 5, "sender-error", "{n} bytes of content: {r:?}, {} bytes", b.len());
    b.extend([0x93, 1, 2, 3]);
    ctx.ev("huge", n as u64, b.len() as u64, || brief(&t));
    let r = mp_de(&t, &b);
    ensure!(ctx, matches!(&r, Ok((x, l)) if *x == v && *l == n + 5), "wrong-value", "{n} bytes of content: {}", brief(&r.map(|x| x.1)));
    ensure!(ctx, mp_skip(&b) == Ok(n + 5), "wrong-length", "skipping {n} bytes of content: {:?}", mp_skip(&b));
    for c in [n + 4, n, n + 5 - (1 << 24), 65540, 4, 1 + ctx.s.usize(n)] {
        ctx.fault("message_cut");
        let r = (mp_obj(&t, &b[..c]).map(|x| x.1), mp_skip(&b[..c]), mp_de(&Ty::Ignored, &b[..c]).map(|x| x.1));
        ensure!(ctx, r == (Err(ME::UnexpectedEof), Err(ME::UnexpectedEof), Err(ME::UnexpectedEof)), "partial-message", "{c} of {} bytes: {r:?}", n + 5);
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.s.chance(1, 12) { let op = if ctx.s.bool() { zoo::Op::Trip } else { zoo::Op::Torn }; return zoo::mp(ctx, op) }
    if ctx.s.chance(1, 30_000) { return huge(ctx) }
    let g = gener(ctx, false);
    let n = 1 + ctx.s.usize(if ctx.deep { 12 } else { 6 });
    let msgs = traffic(ctx, n, g)?;
    if ctx.s.chance(1, 4) { return torn_log(ctx, &msgs) }
    let stream: Vec<u8> = msgs.iter().flat_map(|m| m.bytes.iter().copied()).collect();

    let mut q: Sched<Ev> = Sched::new();
    let mut epoch = 0u32;
    let mut produced = 0usize; // bytes the sender's log holds
    let mut made = 0;
    let mut connected = false;
    let mut sent = 0usize; // stream offset handed to the current connection
    // receiver: `recv` bytes contiguous in this connection, out-of-order segments aside
    let mut rx = Rx { buf: vec![], base: 0, next: 0 };
    let mut held: Vec<(usize, usize)> = vec![];
    let faults = ctx.s.usize(5);
    let (dup, reorder, slow) = (ctx.s.chance(1, 3), ctx.s.chance(1, 3), ctx.s.chance(1, 3));
    q.at(0, Ev::Produce);
    q.at(1, Ev::Connect);
    for _ in 0..faults {
        let t = 1 + ctx.s.draw(4000);
        q.at(t, if ctx.s.bool() { Ev::Crash } else { Ev::Reset });
    }
    let mut steps = 0;
    while let Some(e) = q.pop(ctx) {
        steps += 1;
        if steps > 20_000 { return bad("harness", || "simulation does not settle".into()) }
        match e {
            Ev::Produce => {
                if made < msgs.len() {
                    made += 1;
                    produced = msgs[made - 1].end;
                    let dt = ctx.s.draw(900);
                    q.at(ctx.now + dt, Ev::Produce);
                }
            }
            Ev::Connect => {
                if connected { continue }
                epoch += 1;
                connected = true;
                held.clear();
                // only what was consumed is durable; the unconsumed part of a crashed receiver is gone
                sent = rx.base + rx.buf.len();
                ctx.ev("connect", epoch as u64, sent as u64, String::new);
            }
            Ev::Reset | Ev::Crash => {
                let crash = matches!(e, Ev::Crash);
                ctx.fault(if crash { "receiver_crash" } else { "connection_reset" });
                ctx.ev(if crash { "crash" } else { "reset" }, rx.next as u64, rx.buf.len() as u64, String::new);
                connected = false;
                if crash { if !rx.buf.is_empty() { ctx.fault("volatile_bytes_lost") } rx.buf.clear(); }
                q.retain(|e| !matches!(e, Ev::Seg { .. }));
                let dt = 1 + ctx.s.draw(500);
                q.at(ctx.now + dt, Ev::Connect);
            }
            Ev::Seg { epoch: ep, off, len } => {
                if !connected || ep != epoch { continue }
                let have = rx.base + rx.buf.len();
                if off > have { held.push((off, len)); ctx.fault("segment_reordered"); continue }
                if off + len <= have { ctx.fault("segment_duplicated"); ctx.ev("dup", off as u64, len as u64, String::new); continue }
                rx.buf.extend_from_slice(&stream[have..off + len]);
                ctx.ev("segment", off as u64, len as u64, String::new);
                receive(ctx, &mut rx, &msgs[..made], true)?;
                held.sort();
                let mut i = 0;
                while i < held.len() {
                    let have = rx.base + rx.buf.len();
                    let (o, l) = held[i];
                    if o <= have {
                        held.remove(i);
                        if o + l > have { rx.buf.extend_from_slice(&stream[have..o + l]); receive(ctx, &mut rx, &msgs[..made], true)?; }
                        i = 0;
                    } else { i += 1 }
                }
            }
        }
        // the sender pushes what it has
        if connected && sent < produced {
            let cuts = fragments(ctx, produced - sent);
            if cuts.len() > 1 { ctx.fault("fragmentation") }
            let mut t = ctx.now;
            for len in cuts {
                let dt = if slow { ctx.fault("delay"); ctx.s.draw(300) } else { 1 };
                t += dt;
                let at = if reorder && ctx.s.chance(1, 4) { t + ctx.s.draw(60) } else { t };
                q.at(at, Ev::Seg { epoch, off: sent, len });
                if dup && ctx.s.chance(1, 6) { q.at(at + ctx.s.draw(50), Ev::Seg { epoch, off: sent, len }); }
                sent += len;
            }
        }
    }
    ensure!(ctx, rx.next == msgs.len() && rx.buf.is_empty(), "not-delivered", "{} of {} messages delivered, {} bytes pending", rx.next, msgs.len(), rx.buf.len());
    Ok(())
}

/// Messages appended to a log; crashes leave a prefix; recovery finds exactly the complete ones.
fn torn_log(ctx: &mut Ctx, msgs: &[Msg]) -> R {
    let stream: Vec<u8> = msgs.iter().flat_map(|m| m.bytes.iter().copied()).collect();
    let mut disk: Vec<u8> = vec![];
    let mut rounds = 0;
    while disk.len() < stream.len() {
        rounds += 1;
        // the writer continues at the recovered end; a crash tears the write
        let left = stream.len() - disk.len();
        let crash = rounds < 6 && ctx.s.chance(3, 4);
        let k = if crash { ctx.s.usize(left + 1) } else { left };
        let at = disk.len();
        disk.extend_from_slice(&stream[at..at + k]);
        if crash { ctx.fault("torn_write") }
        ctx.ev("append", at as u64, k as u64, || if crash { "torn by a crash".into() } else { String::new() });
        ctx.now += 1000;
        // recovery
        let mut rx = Rx { buf: disk.clone(), base: 0, next: 0 };
        receive(ctx, &mut rx, msgs, true)?;
        let whole = msgs.iter().filter(|m| m.end <= disk.len()).count();
        ensure!(ctx, rx.next == whole, "recovered-wrong-number", "{} messages recovered from the log, {whole} were complete", rx.next);
        disk.truncate(rx.base);
    }
    Ok(())
}
