//! Independent MessagePack model: what a typed value means on the wire, a writer that may use any
//! conforming width, a strict parser, and the reading of a parsed message as a type.
use crate::drv::Fl;
use crate::model::{int_range, ip, Def, Tree, Ty, VKind, Val, Var};
use crate::src::{Expand, Src};

// --------------------------------------------------------------------------------- value → message

fn text(s: &str) -> Tree { Tree::Str(s.as_bytes().to_vec()) }

pub fn to_tree(t: &Ty, v: &Val, fl: Fl) -> Tree {
    match (t, v) {
        (Ty::Unit | Ty::UnitStruct, _) | (Ty::Opt(_), Val::None) => Tree::Nil,
        (Ty::Bool, Val::Bool(b)) => Tree::Bool(*b),
        (Ty::I(_) | Ty::U(_), Val::Int(i)) => Tree::Int(*i),
        (Ty::F32, Val::F32(f)) => Tree::F32(*f),
        (Ty::F64, Val::F64(f)) => Tree::F64(*f),
        (Ty::Hum, Val::Int(i)) => Tree::Arr(ip(*i).octets().iter().map(|b| Tree::Int(*b as i128)).collect()),
        (Ty::Char, Val::Char(c)) => text(&c.to_string()),
        (Ty::Str(_) | Ty::Disp(_), Val::Str(s)) => text(s),
        (Ty::Bytes(_), Val::Bytes(b)) => Tree::Bin(b.clone()),
        (Ty::Opt(t), Val::Some(v)) | (Ty::New(t), Val::New(v)) => to_tree(t, v, fl),
        (Ty::Seq(t), Val::Seq(v)) => Tree::Arr(v.iter().map(|v| to_tree(t, v, fl)).collect()),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), Val::Seq(v)) => Tree::Arr(ts.iter().zip(v).map(|(t, v)| to_tree(t, v, fl)).collect()),
        (Ty::Map(k, t), Val::Map(v)) => Tree::Map(v.iter().map(|(a, b)| (to_tree(k, a, fl), to_tree(t, b, fl))).collect()),
        (Ty::Struct(d), Val::Struct(v)) => def_tree(d, v, fl),
        (Ty::Enum(vs), Val::Enum(i, p)) => {
            let var = &vs[*i];
            let id = if fl == Fl::Named { text(var.name) } else { Tree::Int(var.idx as i128) };
            let payload = match (&var.kind, &**p) {
                (VKind::Unit, _) => return id,
                (VKind::New(t), p) => to_tree(t, p, fl),
                (VKind::Tuple(ts), Val::Seq(v)) => Tree::Arr(ts.iter().zip(v).map(|(t, v)| to_tree(t, v, fl)).collect()),
                (VKind::Struct(d), Val::Struct(v)) => def_tree(d, v, fl),
                _ => panic!("harness: variant payload"),
            };
            Tree::Map(vec![(id, payload)])
        }
        (Ty::Any, Val::Tree(t)) => t.clone(),
        _ => panic!("harness: to_tree {t:?} {v:?}"),
    }
}
fn def_tree(d: &Def, v: &[Option<Val>], fl: Fl) -> Tree {
    let present = d.fields.iter().zip(v).filter_map(|(f, x)| x.as_ref().map(|x| (f, x)));
    match fl {
        Fl::Compact => Tree::Arr(present.map(|(f, x)| to_tree(&f.ty, x, fl)).collect()),
        Fl::Idx => Tree::Map(present.map(|(f, x)| (Tree::Int(f.idx as i128), to_tree(&f.ty, x, fl))).collect()),
        Fl::Named => Tree::Map(present.map(|(f, x)| (text(f.name), to_tree(&f.ty, x, fl))).collect()),
    }
}

// --------------------------------------------------------------------------------- message → bytes

/// How a conforming encoder picks among the encodings able to hold a value.
pub enum Width { Minimal, Random(Expand) }
impl Width {
    pub fn draw(s: &mut Src) -> Width { if s.chance(1, 3) { Width::Random(Expand::new(s.draw(0))) } else { Width::Minimal } }
    pub fn random(s: &mut Src) -> Width { Width::Random(Expand::new(s.draw(0))) }
    /// numbers in another representation that keeps their value
    fn other(&mut self) -> bool { match self { Width::Minimal => false, Width::Random(e) => e.below(4) == 0 } }
    fn pick(&mut self, lo: usize, n: usize) -> usize {
        match self { Width::Minimal => lo, Width::Random(e) => if e.below(3) == 0 { lo } else { lo + e.below((n - lo) as u64) as usize } }
    }
}

fn header(n: usize, w: &mut Width, fix: Option<(u8, usize)>, codes: [Option<u8>; 3], out: &mut Vec<u8>) {
    // 0: fix, 1: 8 bit, 2: 16 bit, 3: 32 bit
    let ok = |k: usize| match k {
        0 => fix.is_some_and(|(_, m)| n <= m),
        1 => codes[0].is_some() && n <= 0xff,
        2 => n <= 0xffff,
        _ => true,
    };
    let avail: Vec<usize> = (0..4).filter(|k| ok(*k)).collect();
    let k = avail[w.pick(0, avail.len())];
    match k {
        0 => out.push(fix.unwrap().0 | n as u8),
        1 => { out.push(codes[0].unwrap()); out.push(n as u8); }
        2 => { out.push(codes[1].unwrap()); out.extend_from_slice(&(n as u16).to_be_bytes()); }
        _ => { out.push(codes[2].unwrap()); out.extend_from_slice(&(n as u32).to_be_bytes()); }
    }
}

pub fn write(t: &Tree, w: &mut Width, out: &mut Vec<u8>) {
    match t {
        Tree::Nil => out.push(0xc0),
        Tree::Bool(b) => out.push(0xc2 | *b as u8),
        Tree::Int(i) => {
            let mut forms: Vec<Vec<u8>> = Vec::new();
            if (0..128).contains(i) { forms.push(vec![*i as u8]); }
            if (-32..0).contains(i) { forms.push(vec![*i as i8 as u8]); }
            let mut add = |code: u8, b: &[u8], ok: bool| if ok { let mut f = vec![code]; f.extend_from_slice(b); forms.push(f) };
            add(0xcc, &(*i as u8).to_be_bytes(), (0..1 << 8).contains(i));
            add(0xd0, &(*i as i8).to_be_bytes(), (-(1 << 7)..1 << 7).contains(i));
            add(0xcd, &(*i as u16).to_be_bytes(), (0..1 << 16).contains(i));
            add(0xd1, &(*i as i16).to_be_bytes(), (-(1 << 15)..1 << 15).contains(i));
            add(0xce, &(*i as u32).to_be_bytes(), (0..1 << 32).contains(i));
            add(0xd2, &(*i as i32).to_be_bytes(), (-(1i128 << 31)..1 << 31).contains(i));
            add(0xcf, &(*i as u64).to_be_bytes(), (0..1 << 64).contains(i));
            add(0xd3, &(*i as i64).to_be_bytes(), (-(1i128 << 63)..1 << 63).contains(i));
            let k = w.pick(0, forms.len());
            out.extend_from_slice(&forms[k]);
        }
        Tree::F32(f) if w.other() && f.trunc() == *f && f.abs() <= 16777216.0 && f.to_bits() != 0x8000_0000 => write(&Tree::Int(*f as i128), w, out),
        Tree::F32(f) if w.other() && !f.is_nan() => write(&Tree::F64(*f as f64), &mut Width::Minimal, out),
        Tree::F64(f) if w.other() && f.trunc() == *f && f.abs() <= 9007199254740992.0 && f.to_bits() != 1 << 63 => write(&Tree::Int(*f as i128), w, out),
        Tree::F64(f) if w.other() && (*f as f32) as f64 == *f => write(&Tree::F32(*f as f32), &mut Width::Minimal, out),
        Tree::F32(f) => { out.push(0xca); out.extend_from_slice(&f.to_bits().to_be_bytes()); }
        Tree::F64(f) => { out.push(0xcb); out.extend_from_slice(&f.to_bits().to_be_bytes()); }
        Tree::Str(s) => { header(s.len(), w, Some((0xa0, 31)), [Some(0xd9), Some(0xda), Some(0xdb)], out); out.extend_from_slice(s); }
        Tree::Bin(s) => { header(s.len(), w, None, [Some(0xc4), Some(0xc5), Some(0xc6)], out); out.extend_from_slice(s); }
        Tree::Arr(a) => { header(a.len(), w, Some((0x90, 15)), [None, Some(0xdc), Some(0xdd)], out); for x in a { write(x, w, out) } }
        Tree::Map(a) => { header(a.len(), w, Some((0x80, 15)), [None, Some(0xde), Some(0xdf)], out); for (k, v) in a { write(k, w, out); write(v, w, out) } }
        Tree::Ext(k, b) => {
            let fixed = match b.len() { 1 => 0xd4, 2 => 0xd5, 4 => 0xd6, 8 => 0xd7, 16 => 0xd8, _ => 0u8 };
            if fixed != 0 && w.pick(0, 2) == 0 { out.push(fixed) }
            else { header(b.len(), w, None, [Some(0xc7), Some(0xc8), Some(0xc9)], out) }
            out.push(*k);
            out.extend_from_slice(b);
        }
    }
}
pub fn bytes(t: &Tree, w: &mut Width) -> Vec<u8> { let mut o = Vec::new(); write(t, w, &mut o); o }

// --------------------------------------------------------------------------------- bytes → message

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum PErr { Eof, Reserved }

struct P<'a> { b: &'a [u8], i: usize }
/// Lengths on the wire may exceed what a 32-bit machine can address.
fn sz(n: u64) -> usize { usize::try_from(n).unwrap_or(usize::MAX) }
impl<'a> P<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], PErr> {
        if self.b.len() - self.i < n { return Err(PErr::Eof) }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(r)
    }
    fn be(&mut self, n: usize) -> Result<u64, PErr> { Ok(self.take(n)?.iter().fold(0u64, |a, b| a << 8 | *b as u64)) }
    fn str(&mut self, n: u64) -> Result<Tree, PErr> { Ok(Tree::Str(self.take(sz(n))?.to_vec())) }
    fn bin(&mut self, n: u64) -> Result<Tree, PErr> { Ok(Tree::Bin(self.take(sz(n))?.to_vec())) }
    fn ext(&mut self, n: u64) -> Result<Tree, PErr> { let k = self.take(1)?[0]; Ok(Tree::Ext(k, self.take(sz(n))?.to_vec())) }
    fn arr(&mut self, n: u64) -> Result<Tree, PErr> {
        let mut v = Vec::new();
        for _ in 0..n { v.push(self.msg()?); }
        Ok(Tree::Arr(v))
    }
    fn map(&mut self, n: u64) -> Result<Tree, PErr> {
        let mut v = Vec::new();
        for _ in 0..n { let k = self.msg()?; v.push((k, self.msg()?)); }
        Ok(Tree::Map(v))
    }
    fn msg(&mut self) -> Result<Tree, PErr> {
        let c = self.take(1)?[0];
        Ok(match c {
            0..=0x7f => Tree::Int(c as i128),
            0x80..=0x8f => self.map((c & 15) as u64)?,
            0x90..=0x9f => self.arr((c & 15) as u64)?,
            0xa0..=0xbf => self.str((c & 31) as u64)?,
            0xc0 => Tree::Nil,
            0xc1 => return Err(PErr::Reserved),
            0xc2 => Tree::Bool(false),
            0xc3 => Tree::Bool(true),
            0xc4..=0xc6 => { let n = self.be(1 << (c - 0xc4))?; self.bin(n)? }
            0xc7..=0xc9 => { let n = self.be(1 << (c - 0xc7))?; self.ext(n)? }
            0xca => Tree::F32(f32::from_bits(self.be(4)? as u32)),
            0xcb => Tree::F64(f64::from_bits(self.be(8)?)),
            0xcc..=0xcf => Tree::Int(self.be(1 << (c - 0xcc))? as i128),
            0xd0 => Tree::Int(self.be(1)? as u8 as i8 as i128),
            0xd1 => Tree::Int(self.be(2)? as u16 as i16 as i128),
            0xd2 => Tree::Int(self.be(4)? as u32 as i32 as i128),
            0xd3 => Tree::Int(self.be(8)? as i64 as i128),
            0xd4..=0xd8 => self.ext(1 << (c - 0xd4))?,
            0xd9..=0xdb => { let n = self.be(1 << (c - 0xd9))?; self.str(n)? }
            0xdc => { let n = self.be(2)?; self.arr(n)? }
            0xdd => { let n = self.be(4)?; self.arr(n)? }
            0xde => { let n = self.be(2)?; self.map(n)? }
            0xdf => { let n = self.be(4)?; self.map(n)? }
            0xe0..=0xff => Tree::Int(c as i8 as i128),
        })
    }
}
/// The first message of the input and its length.
pub fn parse(b: &[u8]) -> Result<(Tree, usize), PErr> {
    let mut p = P { b, i: 0 };
    let t = p.msg()?;
    Ok((t, p.i))
}
/// Length of the first message, without recursion.
pub fn span(b: &[u8]) -> Result<usize, PErr> {
    let mut p = P { b, i: 0 };
    let mut pending: u128 = 1;
    while pending > 0 {
        pending -= 1;
        let c = p.take(1)?[0];
        let (bytes, items): (u64, u128) = match c {
            0..=0x7f | 0xe0..=0xff | 0xc0 | 0xc2 | 0xc3 => (0, 0),
            0x80..=0x8f => (0, 2 * (c & 15) as u128),
            0x90..=0x9f => (0, (c & 15) as u128),
            0xa0..=0xbf => ((c & 31) as u64, 0),
            0xc1 => return Err(PErr::Reserved),
            0xc4..=0xc6 => (p.be(1 << (c - 0xc4))?, 0),
            0xc7..=0xc9 => (p.be(1 << (c - 0xc7))? + 1, 0),
            0xca => (4, 0),
            0xcb => (8, 0),
            0xcc..=0xcf => (1 << (c - 0xcc), 0),
            0xd0..=0xd3 => (1 << (c - 0xd0), 0),
            0xd4..=0xd8 => (1 + (1 << (c - 0xd4)), 0),
            0xd9..=0xdb => (p.be(1 << (c - 0xd9))?, 0),
            0xdc => (0, p.be(2)? as u128),
            0xdd => (0, p.be(4)? as u128),
            0xde => (0, 2 * p.be(2)? as u128),
            0xdf => (0, 2 * p.be(4)? as u128),
        };
        p.take(sz(bytes))?;
        pending += items;
    }
    Ok(p.i)
}

// --------------------------------------------------------------------------------- message → value

pub fn utf8(b: &[u8]) -> Option<String> { std::str::from_utf8(b).ok().map(|s| s.to_string()) }

/// The value a receiver of this type must read from the message, if the message has that shape.
pub fn read(t: &Ty, m: &Tree) -> Option<Val> {
    Some(match (t, m) {
        (Ty::Unit | Ty::UnitStruct, Tree::Nil) => Val::Unit,
        (Ty::Bool, Tree::Bool(b)) => Val::Bool(*b),
        (Ty::I(n), Tree::Int(i)) => { let (lo, hi) = int_range(true, *n); if (lo..=hi).contains(i) { Val::Int(*i) } else { return None } }
        (Ty::U(n), Tree::Int(i)) => { let (lo, hi) = int_range(false, *n); if (lo..=hi).contains(i) { Val::Int(*i) } else { return None } }
        (Ty::F32, Tree::F32(f)) => Val::F32(*f),
        (Ty::F32, Tree::F64(f)) => Val::F32(*f as f32),
        (Ty::F32, Tree::Int(i)) => Val::F32(*i as f32),
        (Ty::F32, Tree::Nil) => Val::F32(f32::NAN),
        (Ty::F64, Tree::F32(f)) => Val::F64(*f as f64),
        (Ty::F64, Tree::F64(f)) => Val::F64(*f),
        (Ty::F64, Tree::Int(i)) => Val::F64(*i as f64),
        (Ty::F64, Tree::Nil) => Val::F64(f64::NAN),
        (Ty::Hum, Tree::Arr(a)) => {
            if a.len() != 4 { return None }
            let mut n = 0;
            for x in a { match x { Tree::Int(i) if (0..256).contains(i) => n = n << 8 | i, _ => return None } }
            Val::Int(n)
        }
        (Ty::Char, Tree::Str(s)) => { let s = utf8(s)?; let mut it = s.chars(); let c = it.next()?; if it.next().is_some() { return None } Val::Char(c) }
        (Ty::Str(_) | Ty::Disp(_), Tree::Str(s)) => Val::Str(utf8(s)?),
        (Ty::Bytes(_), Tree::Bin(b)) => Val::Bytes(b.clone()),
        (Ty::Opt(_), Tree::Nil) => Val::None,
        (Ty::Opt(t), m) => Val::Some(Box::new(read(t, m)?)),
        (Ty::New(t), m) => Val::New(Box::new(read(t, m)?)),
        (Ty::Seq(t), Tree::Arr(a)) => Val::Seq(a.iter().map(|m| read(t, m)).collect::<Option<_>>()?),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), m) => tuple(ts, m)?,
        (Ty::Map(k, t), Tree::Map(a)) => Val::Map(a.iter().map(|(x, y)| Some((read(k, x)?, read(t, y)?))).collect::<Option<_>>()?),
        (Ty::Struct(d), m) => fields(d, m)?,
        (Ty::Enum(vs), m) => {
            let (id, payload) = match m {
                Tree::Map(e) if e.len() == 1 => (&e[0].0, Some(&e[0].1)),
                Tree::Map(_) => return None,
                id => (id, None),
            };
            let i = variant(vs, id)?;
            let p = match (&vs[i].kind, payload) {
                (VKind::Unit, None) => Val::Unit,
                (VKind::New(t), Some(m)) => read(t, m)?,
                (VKind::Tuple(ts), Some(m)) => tuple(ts, m)?,
                (VKind::Struct(d), Some(m)) => fields(d, m)?,
                _ => return None,
            };
            Val::Enum(i, Box::new(p))
        }
        (Ty::Any, m) => { if !plain(m) { return None } Val::Tree(m.clone()) }
        (Ty::Ignored, _) => Val::Ignored,
        _ => return None,
    })
}
/// Readable by a self-describing receiver: no extension types, all text valid.
fn plain(m: &Tree) -> bool {
    match m {
        Tree::Ext(..) => false,
        Tree::Str(s) => std::str::from_utf8(s).is_ok(),
        Tree::Arr(a) => a.iter().all(plain),
        Tree::Map(a) => a.iter().all(|(k, v)| plain(k) && plain(v)),
        _ => true,
    }
}
fn tuple(ts: &[Ty], m: &Tree) -> Option<Val> {
    let Tree::Arr(a) = m else { return None };
    if a.len() != ts.len() { return None }
    Some(Val::Seq(ts.iter().zip(a).map(|(t, m)| read(t, m)).collect::<Option<_>>()?))
}
enum Id { Idx(u32), Name(String) }
fn ident(m: &Tree) -> Option<Id> {
    match m {
        Tree::Int(i) if (0..1 << 32).contains(i) => Some(Id::Idx(*i as u32)),
        Tree::Str(s) => Some(Id::Name(utf8(s)?)),
        _ => None,
    }
}
fn variant(vs: &[Var], m: &Tree) -> Option<usize> {
    match ident(m)? { Id::Idx(n) => vs.iter().position(|v| v.idx == n), Id::Name(s) => vs.iter().position(|v| v.name == s) }
}
fn fields(d: &Def, m: &Tree) -> Option<Val> {
    let mut out: Vec<Option<Val>> = vec![None; d.fields.len()];
    match m {
        Tree::Arr(a) => {
            if a.len() > d.fields.len() { return None }
            for (i, m) in a.iter().enumerate() { out[i] = Some(read(&d.fields[i].ty, m)?); }
        }
        Tree::Map(a) => {
            for (k, m) in a {
                let pos = match ident(k)? { Id::Idx(n) => d.fields.iter().position(|f| f.idx == n), Id::Name(s) => d.fields.iter().position(|f| f.name == s) };
                if let Some(i) = pos {
                    if out[i].is_some() { return None }
                    out[i] = Some(read(&d.fields[i].ty, m)?);
                }
            }
        }
        _ => return None,
    }
    if d.fields.iter().zip(&out).any(|(f, v)| v.is_none() && !f.opt) { return None }
    Some(Val::Struct(out))
}

// --------------------------------------------------------------------------------- random messages

/// Any well-formed message (with `ext`: extension types, also text that is not UTF-8).
pub fn gen_tree(s: &mut Src, depth: u32, ext: bool) -> Tree {
    use crate::model as m;
    let n = if depth == 0 { 8 } else { 10 };
    match s.draw(n) {
        0 => Tree::Nil,
        1 => Tree::Bool(s.bool()),
        2 => { let sg = s.bool(); Tree::Int(m::gen_int(s, sg, 64)) }
        3 => { let big = s.chance(1, 30); Tree::Str(m::gen_string(s, big).into_bytes()) }
        4 => { let big = s.chance(1, 30); Tree::Bin(m::gen_bytes(s, big)) }
        5 => Tree::F64(m::gen_f64(s)),
        6 => Tree::F32(m::gen_f32(s)),
        7 => if ext {
            if s.chance(1, 4) { Tree::Str(m::gen_bytes(s, false)) }
            else {
                let k = s.draw(256) as u8;
                let n = if s.chance(1, 60) { *s.pick(&[32766usize, 32767, 32768, 65534, 65535, 65536, 65537]) } else { *s.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 126, 127, 128, 254, 255, 256, 257, 300]) };
                let mut e = Expand::new(s.draw(0));
                Tree::Ext(k, (0..n).map(|_| e.next() as u8).collect())
            }
        } else { Tree::Nil },
        8 if s.chance(1, 250) => {
            // long containers of equal elements
            let k = *s.pick(&[127usize, 128, 255, 256, 32767, 32768, 65535, 65536, 65537]);
            let x = gen_tree(s, 0, false);
            let n = if k > 300 { if let Tree::Str(_) | Tree::Bin(_) = x { 200 } else { k } } else { k };
            if s.bool() { Tree::Arr(vec![x; n]) } else { Tree::Map(vec![(Tree::Int(n as i128), x); n]) }
        }
        8 => { let k = if s.chance(1, 30) { *s.pick(&[15, 16, 17, 40]) } else { s.range(0, 4) }; Tree::Arr((0..k).map(|_| gen_tree(s, depth - 1, ext)).collect()) }
        _ => {
            let k = if s.chance(1, 30) { *s.pick(&[15, 16, 17, 40]) } else { s.range(0, 4) };
            Tree::Map((0..k).map(|_| (gen_tree(s, depth.min(2) - 1, ext), gen_tree(s, depth - 1, ext))).collect())
        }
    }
}
