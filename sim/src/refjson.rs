//! Independent JSON model: strict RFC 8259 parser, comparison of a document with a typed value, a
//! foreign writer, and a typed reader with the documented leniencies of the parser under test.
use crate::drv::{Dec, Enc};
use crate::model::{int_range, Def, Tree, Ty, VKind, Val};
use crate::src::{Expand, Src};

#[derive(Debug, Clone, PartialEq)]
pub enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

// ------------------------------------------------------------------------------- strict RFC 8259

struct P<'a> { b: &'a [u8], i: usize }
type E<T> = Result<T, String>;

impl P<'_> {
    fn peek(&self) -> Option<u8> { self.b.get(self.i).copied() }
    fn ws(&mut self) { while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) { self.i += 1 } }
    fn err<T>(&self, m: &str) -> E<T> { Err(format!("{m} at {}", self.i)) }
    fn value(&mut self) -> E<J> {
        self.ws();
        match self.peek() {
            Some(b'n') => self.word("null", J::Null),
            Some(b't') => self.word("true", J::Bool(true)),
            Some(b'f') => self.word("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(b']') { self.i += 1; return Ok(J::Arr(v)) }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b']') => { self.i += 1; return Ok(J::Arr(v)) }
                        _ => return self.err("expected , or ]"),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(b'}') { self.i += 1; return Ok(J::Obj(v)) }
                loop {
                    self.ws();
                    if self.peek() != Some(b'"') { return self.err("expected key") }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != Some(b':') { return self.err("expected :") }
                    self.i += 1;
                    v.push((k, self.value()?));
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b'}') => { self.i += 1; return Ok(J::Obj(v)) }
                        _ => return self.err("expected , or }"),
                    }
                }
            }
            Some(b'-' | b'0'..=b'9') => self.number(),
            _ => self.err("expected a value"),
        }
    }
    fn word(&mut self, w: &str, j: J) -> E<J> {
        if self.b[self.i..].starts_with(w.as_bytes()) { self.i += w.len(); Ok(j) } else { self.err("bad literal") }
    }
    fn digits(&mut self) -> E<()> {
        if !matches!(self.peek(), Some(b'0'..=b'9')) { return self.err("expected a digit") }
        while matches!(self.peek(), Some(b'0'..=b'9')) { self.i += 1 }
        Ok(())
    }
    fn number(&mut self) -> E<J> {
        let s = self.i;
        if self.peek() == Some(b'-') { self.i += 1 }
        if self.peek() == Some(b'0') { self.i += 1 } else { self.digits()? }
        if self.peek() == Some(b'.') { self.i += 1; self.digits()? }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) { self.i += 1 }
            self.digits()?
        }
        Ok(J::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
    }
    fn hex4(&mut self) -> E<u32> {
        let Some(h) = self.b.get(self.i..self.i + 4) else { return self.err("short \\u") };
        if !h.iter().all(|c| c.is_ascii_hexdigit()) { return self.err("bad \\u") }
        self.i += 4;
        Ok(u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap())
    }
    fn string(&mut self) -> E<String> {
        self.i += 1;
        let mut out = Vec::new();
        loop {
            let Some(c) = self.peek() else { return self.err("unterminated string") };
            self.i += 1;
            match c {
                b'"' => break,
                0..=0x1f => return self.err("control character in string"),
                b'\\' => {
                    let Some(e) = self.peek() else { return self.err("unterminated escape") };
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"', b'\\' => '\\', b'/' => '/', b'b' => '\u{8}', b'f' => '\u{c}', b'n' => '\n', b'r' => '\r', b't' => '\t',
                        b'u' => {
                            let u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                if self.b.get(self.i..self.i + 2) != Some(b"\\u") { return self.err("lone surrogate") }
                                self.i += 2;
                                let l = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&l) { return self.err("lone surrogate") }
                                char::from_u32(0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00)).unwrap()
                            } else {
                                match char::from_u32(u) { Some(c) => c, None => return self.err("lone surrogate") }
                            }
                        }
                        _ => return self.err("bad escape"),
                    };
                    out.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
                }
                c => out.push(c),
            }
        }
        String::from_utf8(out).map_err(|_| format!("not UTF-8 before {}", self.i))
    }
}
/// Exactly one document, nothing but whitespace around it.
pub fn strict(b: &[u8]) -> E<J> {
    let mut p = P { b, i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != b.len() { return p.err("trailing characters") }
    Ok(v)
}

// -------------------------------------------------------------------------- document ↔ typed value

fn hexed(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02X}")).collect() }
const A64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(b: &[u8], pad: bool) -> String {
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() { o.push(A64[(n >> (18 - 6 * k)) as usize & 63] as char) } else if pad { o.push('=') }
        }
    }
    o
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.bytes().all(|c| c.is_ascii_hexdigit()) { return None }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
fn un64(s: &str) -> Option<Vec<u8>> {
    let s = s.trim_end_matches('=');
    let d: Vec<u32> = s.bytes().map(|c| A64.iter().position(|x| *x == c).map(|x| x as u32)).collect::<Option<_>>()?;
    let mut o = vec![];
    for c in d.chunks(4) {
        if c.len() == 1 { return None }
        let mut n = 0;
        for k in 0..4 { n = n << 6 | c.get(k).copied().unwrap_or(0) }
        for k in 0..c.len() - 1 { o.push((n >> (16 - 8 * k)) as u8) }
    }
    Some(o)
}

/// The text a key becomes, `None` if JSON cannot represent the key.
pub fn key_text(t: &Ty, v: &Val) -> Option<String> {
    Some(match (t, v) {
        (Ty::Bool, Val::Bool(b)) => b.to_string(),
        (Ty::I(_) | Ty::U(_), Val::Int(i)) => i.to_string(),
        (Ty::Char, Val::Char(c)) => c.to_string(),
        (Ty::Hum, Val::Int(i)) => crate::model::ip(*i).to_string(),
        (Ty::Str(_) | Ty::Disp(_), Val::Str(s)) => s.clone(),
        (Ty::New(t), Val::New(v)) => key_text(t, v)?,
        (Ty::Enum(vs), Val::Enum(i, _)) => if vs[*i].kind == VKind::Unit { vs[*i].name.to_string() } else { return None },
        _ => return None,
    })
}
/// Every map key of the value can be represented.
pub fn keys_ok(t: &Ty, v: &Val) -> bool {
    match (t, v) {
        (Ty::Opt(t), Val::Some(v)) | (Ty::New(t), Val::New(v)) => keys_ok(t, v),
        (Ty::Seq(t), Val::Seq(v)) => v.iter().all(|v| keys_ok(t, v)),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), Val::Seq(v)) => ts.iter().zip(v).all(|(t, v)| keys_ok(t, v)),
        (Ty::Map(k, t), Val::Map(v)) => v.iter().all(|(a, b)| key_text(k, a).is_some() && keys_ok(t, b)),
        (Ty::Struct(d), Val::Struct(v)) => def_ok(d, v),
        (Ty::Enum(vs), Val::Enum(i, p)) => match (&vs[*i].kind, &**p) {
            (VKind::New(t), p) => keys_ok(t, p),
            (VKind::Tuple(ts), Val::Seq(v)) => ts.iter().zip(v).all(|(t, v)| keys_ok(t, v)),
            (VKind::Struct(d), Val::Struct(v)) => def_ok(d, v),
            _ => true,
        },
        _ => true,
    }
}
fn def_ok(d: &Def, v: &[Option<Val>]) -> bool { d.fields.iter().zip(v).all(|(f, v)| v.as_ref().is_none_or(|v| keys_ok(&f.ty, v))) }

fn want<T>(what: &str, j: &J) -> E<T> { let s = format!("{j:?}"); Err(format!("expected {what}, found {}", crate::ctx::cut(&s))) }
fn all<'a>(it: impl Iterator<Item = (&'a Ty, &'a Val)>, j: &J, n: usize, enc: Enc) -> E<()> {
    let J::Arr(a) = j else { return want("an array", j) };
    if a.len() != n { return Err(format!("expected {n} elements, found {}", a.len())) }
    for ((t, v), j) in it.zip(a) { matches(t, v, j, enc)?; }
    Ok(())
}
fn def_matches(d: &Def, v: &[Option<Val>], j: &J, enc: Enc) -> E<()> {
    let J::Obj(o) = j else { return want("an object", j) };
    let n = v.iter().filter(|x| x.is_some()).count();
    if o.len() != n { return Err(format!("expected {n} fields, found {}", o.len())) }
    for ((f, v), (k, j)) in d.fields.iter().zip(v).filter_map(|(f, v)| v.as_ref().map(|v| (f, v))).zip(o) {
        if f.name != k { return Err(format!("expected field {:?}, found {k:?}", f.name)) }
        matches(&f.ty, v, j, enc)?;
    }
    Ok(())
}
/// Does the document say what serializing the value with this byte encoding must say?
pub fn matches(t: &Ty, v: &Val, j: &J, enc: Enc) -> E<()> {
    match (t, v) {
        (Ty::Unit | Ty::UnitStruct, _) | (Ty::Opt(_), Val::None) => if *j == J::Null { Ok(()) } else { want("null", j) },
        (Ty::Bool, Val::Bool(b)) => if *j == J::Bool(*b) { Ok(()) } else { want("a boolean", j) },
        (Ty::I(_) | Ty::U(_), Val::Int(i)) => match j { J::Num(n) if *n == i.to_string() => Ok(()), _ => want(&i.to_string(), j) },
        (Ty::F32, Val::F32(f)) => match j {
            J::Null if !f.is_finite() => Ok(()),
            J::Num(n) if f.is_finite() && n.parse::<f32>() == Ok(*f) => Ok(()),
            _ => want(&format!("{f:?}"), j),
        },
        (Ty::F64, Val::F64(f)) => match j {
            J::Null if !f.is_finite() => Ok(()),
            J::Num(n) if f.is_finite() && n.parse::<f64>() == Ok(*f) => Ok(()),
            _ => want(&format!("{f:?}"), j),
        },
        (Ty::Hum, Val::Int(i)) => match j { J::Str(s) if *s == crate::model::ip(*i).to_string() => Ok(()), _ => want("an address", j) },
        (Ty::Char, Val::Char(c)) => match j { J::Str(s) if *s == c.to_string() => Ok(()), _ => want(&format!("{c:?}"), j) },
        (Ty::Str(_) | Ty::Disp(_), Val::Str(s)) => match j { J::Str(x) if x == s => Ok(()), _ => want(&crate::ctx::cut(&format!("{s:?}")), j) },
        (Ty::Bytes(_), Val::Bytes(b)) => {
            let ok = match (enc, j) {
                (Enc::Array, J::Arr(a)) => a.len() == b.len() && a.iter().zip(b).all(|(j, b)| *j == J::Num(b.to_string())),
                (Enc::Hex, J::Str(s)) => unhex(s).as_ref() == Some(b),
                (Enc::Base64, J::Str(s)) => un64(s).as_ref() == Some(b),
                (Enc::PreHex, J::Str(s)) => s.strip_prefix("hex,").and_then(unhex).as_ref() == Some(b),
                (Enc::PreB64, J::Str(s)) => s.strip_prefix("base64,").and_then(un64).as_ref() == Some(b),
                (Enc::Pass, j) => strict(b).is_ok_and(|x| x == *j),
                _ => false,
            };
            if ok { Ok(()) } else { want(&format!("bytes {}", crate::ctx::show(b)), j) }
        }
        (Ty::Opt(t), Val::Some(v)) | (Ty::New(t), Val::New(v)) => matches(t, v, j, enc),
        (Ty::Seq(t), Val::Seq(v)) => all(v.iter().map(|v| (&**t, v)), j, v.len(), enc),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), Val::Seq(v)) => all(ts.iter().zip(v), j, v.len(), enc),
        (Ty::Map(k, t), Val::Map(v)) => {
            let J::Obj(o) = j else { return want("an object", j) };
            if o.len() != v.len() { return Err(format!("expected {} entries, found {}", v.len(), o.len())) }
            for ((a, b), (x, y)) in v.iter().zip(o) {
                if key_text(k, a).as_ref() != Some(x) { return Err(format!("key {x:?} is not {a:?}")) }
                matches(t, b, y, enc)?;
            }
            Ok(())
        }
        (Ty::Struct(d), Val::Struct(v)) => def_matches(d, v, j, enc),
        (Ty::Enum(vs), Val::Enum(i, p)) => {
            let var = &vs[*i];
            if var.kind == VKind::Unit { return match j { J::Str(s) if s == var.name => Ok(()), _ => want(var.name, j) } }
            let J::Obj(o) = j else { return want("an object", j) };
            if o.len() != 1 || o[0].0 != var.name { return want(var.name, j) }
            let j = &o[0].1;
            match (&var.kind, &**p) {
                (VKind::New(t), p) => matches(t, p, j, enc),
                (VKind::Tuple(ts), Val::Seq(v)) => all(ts.iter().zip(v), j, v.len(), enc),
                (VKind::Struct(d), Val::Struct(v)) => def_matches(d, v, j, enc),
                _ => panic!("harness: variant payload"),
            }
        }
        _ => panic!("harness: matches {t:?} {v:?}"),
    }
}

/// What the value reads back as: JSON has no non-finite numbers and does not keep the sign of zero.
pub fn canon(v: &Val) -> Val {
    match v {
        Val::F32(f) => Val::F32(if !f.is_finite() { f32::NAN } else if *f == 0.0 { 0.0 } else { *f }),
        Val::F64(f) => Val::F64(if !f.is_finite() { f64::NAN } else if *f == 0.0 { 0.0 } else { *f }),
        Val::Some(v) => Val::Some(Box::new(canon(v))),
        Val::New(v) => Val::New(Box::new(canon(v))),
        Val::Seq(v) => Val::Seq(v.iter().map(canon).collect()),
        Val::Map(v) => Val::Map(v.iter().map(|(a, b)| (canon(a), canon(b))).collect()),
        Val::Struct(v) => Val::Struct(v.iter().map(|x| x.as_ref().map(canon)).collect()),
        Val::Enum(i, p) => Val::Enum(*i, Box::new(canon(p))),
        v => v.clone(),
    }
}
/// Floats read back from JSON keep no sign of zero.
pub fn same(a: &Val, b: &Val) -> bool { canon(a) == canon(b) }

// ------------------------------------------------------------------------------- foreign encoder

/// A conforming encoder with its own taste in whitespace, escapes and digits.
pub struct Style { pub e: Expand, pub ws: u64, pub esc: u64, pub compactness: u64, pub enc: Enc, pub lower: bool, pub pad: bool, pub structs_as_arrays: bool, pub long: u64 }
impl Style {
    pub fn draw(s: &mut Src, enc: Enc) -> Style {
        Style {
            ws: s.draw(4), esc: s.draw(5), compactness: s.draw(2), enc, lower: s.bool(), pad: s.bool(), structs_as_arrays: s.chance(1, 6),
            long: if s.chance(1, 12) { 1 + s.draw(3) } else { 0 },
            e: Expand::new(s.draw(0)),
        }
    }
    fn sp(&mut self, out: &mut Vec<u8>) {
        // a few very long runs (indentation, padding to blocks)
        if self.long > 0 && self.e.below(8) == 0 {
            self.long -= 1;
            let n = [15, 31, 64, 127, 255, 256, 257, 511, 1023, 1024, 2500, 4097][self.e.below(12) as usize];
            let c = b" \n\t\r"[self.e.below(4) as usize];
            for _ in 0..n { out.push(c); }
            return
        }
        let n = match self.ws { 0 => 0, 1 => self.e.below(2), 2 => if self.e.below(6) == 0 { self.e.below(12) } else { 0 }, _ => self.e.below(4) };
        for _ in 0..n { out.push(b" \n\t\r"[self.e.below(4) as usize]); }
    }
    pub fn text(&mut self, s: &str, out: &mut Vec<u8>) {
        out.push(b'"');
        for c in s.chars() {
            let must = (c as u32) < 0x20 || c == '"' || c == '\\';
            let may = match self.esc { 0 => false, 1 => self.e.below(8) == 0, 2 => self.e.below(2) == 0, 3 => true, _ => c == '/' || !c.is_ascii() };
            if must || may {
                let short = match c { '"' => b'"', '\\' => b'\\', '/' => b'/', '\u{8}' => b'b', '\u{c}' => b'f', '\n' => b'n', '\r' => b'r', '\t' => b't', _ => 0 };
                if short != 0 && self.e.below(3) != 0 { out.push(b'\\'); out.push(short); }
                else {
                    // characters beyond U+FFFF as a pair of escapes
                    for u in c.encode_utf16(&mut [0; 2]) {
                        let h = match self.e.below(3) { 0 => format!("\\u{u:04x}"), 1 => format!("\\u{u:04X}"), _ => {
                            format!("\\u{u:04x}").chars().enumerate().map(|(i, c)| if i % 2 == 0 && i > 1 { c.to_ascii_uppercase() } else { c }).collect() } };
                        out.extend_from_slice(h.as_bytes());
                    }
                }
            } else { out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()); }
        }
        out.push(b'"');
    }
    /// plain digits, scientific, or with more digits than needed; the exponent as C prints it (`e+05`) or padded
    fn float(&mut self, plain: String, sci: String, digits: String, out: &mut Vec<u8>) {
        let mut t = match self.e.below(5) { 0 | 1 => plain, 2 | 3 => sci, _ => digits };
        if let (Some((m, e)), true) = (t.split_once('e'), self.e.below(2) == 0) {
            let (sign, n) = match e.strip_prefix('-') { Some(n) => ("-", n), None => ("+", e) };
            let zeros = [1, 2, 2, 3, 4, 6][self.e.below(6) as usize];
            let sign = if sign == "+" && self.e.below(3) == 0 { "" } else { sign };
            t = format!("{m}e{sign}{n:0>zeros$}");
        }
        if self.compactness == 1 && self.e.below(2) == 0 { t = t.replace('e', "E"); }
        if t.contains('.') && !t.contains(['e', 'E']) && self.e.below(4) == 0 { t.push_str("00"); }
        out.extend_from_slice(t.as_bytes());
    }
    fn list(&mut self, n: usize, out: &mut Vec<u8>, mut f: impl FnMut(&mut Self, usize, &mut Vec<u8>)) {
        out.push(b'[');
        for i in 0..n {
            if i > 0 { out.push(b','); }
            self.sp(out);
            f(self, i, out);
            self.sp(out);
        }
        if n == 0 { self.sp(out) }
        out.push(b']');
    }
    fn object(&mut self, n: usize, out: &mut Vec<u8>, mut f: impl FnMut(&mut Self, usize, &mut Vec<u8>) -> (String, bool)) {
        out.push(b'{');
        for i in 0..n {
            if i > 0 { out.push(b','); }
            self.sp(out);
            let mut body = Vec::new();
            let k = f(self, i, &mut body);
            // keys that stand for numbers and booleans are never escaped
            if k.1 { self.text(&k.0, out) } else { out.push(b'"'); out.extend_from_slice(k.0.as_bytes()); out.push(b'"'); }
            self.sp(out);
            out.push(b':');
            self.sp(out);
            out.extend_from_slice(&body);
            self.sp(out);
        }
        if n == 0 { self.sp(out) }
        out.push(b'}');
    }
    fn key(&mut self, t: &Ty, v: &Val) -> (String, bool) {
        let mut k = t;
        while let Ty::New(t) = k { k = t }
        (key_text(t, v).expect("harness: key"), !matches!(k, Ty::I(_) | Ty::U(_) | Ty::Bool))
    }
    fn def(&mut self, d: &Def, v: &[Option<Val>], out: &mut Vec<u8>) {
        let present: Vec<_> = d.fields.iter().zip(v).filter_map(|(f, v)| v.as_ref().map(|v| (f, v))).collect();
        // a missing field can only be left out at the end of an array
        let prefix = v.iter().take(present.len()).all(|x| x.is_some());
        if self.structs_as_arrays && prefix {
            self.list(present.len(), out, |st, i, out| st.value(&present[i].0.ty, present[i].1, out));
        } else {
            self.object(present.len(), out, |st, i, out| { st.value(&present[i].0.ty, present[i].1, out); (present[i].0.name.to_string(), true) });
        }
    }
    pub fn value(&mut self, t: &Ty, v: &Val, out: &mut Vec<u8>) {
        match (t, v) {
            (Ty::Unit | Ty::UnitStruct, _) | (Ty::Opt(_), Val::None) => out.extend_from_slice(b"null"),
            (Ty::Bool, Val::Bool(b)) => out.extend_from_slice(if *b { b"true" } else { b"false" }),
            (Ty::I(_) | Ty::U(_), Val::Int(i)) => out.extend_from_slice(i.to_string().as_bytes()),
            (Ty::F32, Val::F32(f)) if f.trunc() == *f && f.abs() <= 16777216.0 && self.e.below(3) == 0 => out.extend_from_slice(format!("{f}").as_bytes()),
            (Ty::F64, Val::F64(f)) if f.trunc() == *f && f.abs() <= 9007199254740992.0 && self.e.below(3) == 0 => out.extend_from_slice(format!("{f}").as_bytes()),
            (Ty::F32, Val::F32(f)) => if f.is_finite() { self.float(format!("{f:?}"), format!("{f:e}"), format!("{f:.8e}"), out) } else { out.extend_from_slice(b"null") },
            (Ty::F64, Val::F64(f)) => if f.is_finite() { self.float(format!("{f:?}"), format!("{f:e}"), format!("{f:.17e}"), out) } else { out.extend_from_slice(b"null") },
            (Ty::Char, Val::Char(c)) => self.text(&c.to_string(), out),
            (Ty::Hum, Val::Int(i)) => self.text(&crate::model::ip(*i).to_string(), out),
            (Ty::Str(_) | Ty::Disp(_), Val::Str(s)) => self.text(s, out),
            (Ty::Bytes(_), Val::Bytes(b)) => {
                let h = hexed(b);
                let h = if self.lower { h.to_lowercase() } else { h };
                match self.enc {
                    Enc::Hex => { out.push(b'"'); out.extend_from_slice(h.as_bytes()); out.push(b'"'); }
                    Enc::PreHex => { out.extend_from_slice(b"\"hex,"); out.extend_from_slice(h.as_bytes()); out.push(b'"'); }
                    Enc::Base64 => { out.push(b'"'); out.extend_from_slice(b64(b, self.pad).as_bytes()); out.push(b'"'); }
                    Enc::PreB64 => { out.extend_from_slice(b"\"base64,"); out.extend_from_slice(b64(b, self.pad).as_bytes()); out.push(b'"'); }
                    _ => self.list(b.len(), out, |_, i, out| out.extend_from_slice(b[i].to_string().as_bytes())),
                }
            }
            (Ty::Opt(t), Val::Some(v)) | (Ty::New(t), Val::New(v)) => self.value(t, v, out),
            (Ty::Seq(t), Val::Seq(v)) => self.list(v.len(), out, |st, i, out| st.value(t, &v[i], out)),
            (Ty::Tuple(ts) | Ty::TupleStruct(ts), Val::Seq(v)) => self.list(v.len(), out, |st, i, out| st.value(&ts[i], &v[i], out)),
            (Ty::Map(k, t), Val::Map(v)) => self.object(v.len(), out, |st, i, out| { st.value(t, &v[i].1, out); st.key(k, &v[i].0) }),
            (Ty::Struct(d), Val::Struct(v)) => self.def(d, v, out),
            (Ty::Enum(vs), Val::Enum(i, p)) => {
                let var = &vs[*i];
                if var.kind == VKind::Unit { self.text(var.name, out); return }
                self.object(1, out, |st, _, out| {
                    match (&var.kind, &**p) {
                        (VKind::New(t), p) => st.value(t, p, out),
                        (VKind::Tuple(ts), Val::Seq(v)) => st.list(v.len(), out, |st, i, out| st.value(&ts[i], &v[i], out)),
                        (VKind::Struct(d), Val::Struct(v)) => st.def(d, v, out),
                        _ => panic!("harness: variant payload"),
                    }
                    (var.name.to_string(), true)
                });
            }
            (Ty::Any, Val::Tree(t)) => self.tree(t, out),
            _ => panic!("harness: foreign {t:?} {v:?}"),
        }
    }
    /// A self-describing value (from [`gen_jtree`]).
    pub fn tree(&mut self, t: &Tree, out: &mut Vec<u8>) {
        match t {
            Tree::Nil => out.extend_from_slice(b"null"),
            Tree::Bool(b) => out.extend_from_slice(if *b { b"true" } else { b"false" }),
            Tree::Int(i) => out.extend_from_slice(i.to_string().as_bytes()),
            Tree::F64(f) => self.float(format!("{f:?}"), format!("{f:e}"), format!("{f:.17e}"), out),
            Tree::F32(f) => self.float(format!("{f:?}"), format!("{f:e}"), format!("{f:e}"), out),
            Tree::Str(s) => { let s = String::from_utf8(s.clone()).unwrap(); self.text(&s, out) }
            Tree::Arr(a) => self.list(a.len(), out, |st, i, out| st.tree(&a[i], out)),
            Tree::Map(m) => self.object(m.len(), out, |st, i, out| {
                st.tree(&m[i].1, out);
                match &m[i].0 { Tree::Str(s) => (String::from_utf8(s.clone()).unwrap(), true), _ => panic!("harness: key") }
            }),
            _ => panic!("harness: not a JSON value"),
        }
    }
    pub fn doc(&mut self, t: &Ty, v: &Val) -> Vec<u8> {
        let mut o = Vec::new();
        self.sp(&mut o);
        self.value(t, v, &mut o);
        self.sp(&mut o);
        o
    }
}
/// Any JSON value (floats finite, always spelled as floats).
pub fn gen_jtree(s: &mut Src, depth: u32) -> Tree {
    use crate::model as m;
    match s.draw(if depth == 0 { 6 } else { 8 }) {
        0 => Tree::Nil,
        1 => Tree::Bool(s.bool()),
        2 => { let sg = s.bool(); Tree::Int(m::gen_int(s, sg, 64)) }
        3 | 4 => Tree::Str(m::gen_string(s, false).into_bytes()),
        5 if cfg!(feature = "v_f32") => { let f = m::gen_f32(s); Tree::F32(if f.is_finite() && f != 0.0 { f } else { 0.5 }) }
        5 => { let f = m::gen_f64(s); Tree::F64(if f.is_finite() && f != 0.0 { f } else { 0.5 }) }
        6 => { let k = s.range(0, 4); Tree::Arr((0..k).map(|_| gen_jtree(s, depth - 1)).collect()) }
        _ => { let k = s.range(0, 4); Tree::Map((0..k).map(|_| (Tree::Str(m::gen_string(s, false).into_bytes()), gen_jtree(s, depth - 1))).collect()) }
    }
}

// --------------------------------------------------------------------- typed reader (with leniency)

/// `None`: the input is not a document of this type.
pub struct L<'a> { pub b: &'a [u8], pub i: usize, pub dec: Dec }
impl<'a> L<'a> {
    fn peek(&self) -> Option<u8> { self.b.get(self.i).copied() }
    /// next significant byte
    pub fn ws(&mut self) -> Option<u8> { while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) { self.i += 1 } self.peek() }
    fn eat(&mut self, c: u8) -> Option<()> { if self.ws()? == c { self.i += 1; Some(()) } else { None } }
    pub fn word(&mut self, w: &[u8]) -> Option<()> { if self.b[self.i..].starts_with(w) { self.i += w.len(); Some(()) } else { None } }
    /// decoded content of a string whose opening quote was consumed; the closing quote is consumed
    pub fn raw(&mut self) -> Option<Vec<u8>> {
        let mut out = Vec::new();
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                b'"' => return Some(out),
                0..=0x1f => return None,
                b'\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"', b'\\' => '\\', b'/' => '/', b'b' => '\u{8}', b'f' => '\u{c}', b'n' => '\n', b'r' => '\r', b't' => '\t',
                        b'u' => {
                            let u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                if self.b.get(self.i..self.i + 2)? != b"\\u" { return None }
                                self.i += 2;
                                let l = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&l) { return None }
                                char::from_u32(0x10000 + (u - 0xd800) * 0x400 + (l - 0xdc00))?
                            } else { char::from_u32(u)? }
                        }
                        _ => return None,
                    };
                    out.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
                }
                c => out.push(c),
            }
        }
    }
    /// end of a string whose content is not looked at
    pub fn skip_raw(&mut self) -> Option<()> {
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                b'"' => return Some(()),
                0..=0x1f => return None,
                // a backslash hides whatever follows, but not a control character
                b'\\' => { if self.peek()? <= 0x1f { return None } self.i += 1; }
                _ => {}
            }
        }
    }
    pub fn string(&mut self) -> Option<String> { self.eat(b'"')?; String::from_utf8(self.raw()?).ok() }
    pub fn int(&mut self, signed: bool, bits: u8) -> Option<i128> {
        let mut c = self.ws()?;
        let neg = signed && c == b'-';
        if neg { self.i += 1; c = self.peek()?; }
        if !c.is_ascii_digit() { return None }
        let mut n = 0i128;
        if c == b'0' { self.i += 1 } else {
            while let Some(d @ b'0'..=b'9') = self.peek() {
                n = n * 10 + (d - b'0') as i128;
                if n > 1 << 70 { return None }
                self.i += 1;
            }
        }
        if neg { n = -n }
        let (lo, hi) = int_range(signed, bits);
        if n < lo || n > hi { None } else { Some(n) }
    }
    fn token(&mut self) -> &'a str {
        let s = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E')) { self.i += 1 }
        std::str::from_utf8(&self.b[s..self.i]).unwrap()
    }
    fn any_number(&mut self) -> Option<Tree> {
        let neg = self.peek()? == b'-';
        let t = self.token();
        let float = |t: &str| -> Option<Tree> {
            if cfg!(feature = "v_f32") { t.parse::<f32>().ok().map(Tree::F32) } else { t.parse::<f64>().ok().map(Tree::F64) }
        };
        if t.contains(['.', 'e', 'E']) { return float(t) }
        let digits = if neg { &t[1..] } else { t };
        if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) { return None }
        let d = digits.trim_start_matches('0');
        if d.len() < 38 {
            let n: i128 = if d.is_empty() { 0 } else { d.parse().ok()? };
            let n = if neg { -n } else { n };
            if (!neg && n < 1 << 64) || (neg && n >= -(1 << 63)) { return Some(Tree::Int(n)) }
        }
        float(t)
    }
    fn hex4(&mut self) -> Option<u32> {
        let h = self.b.get(self.i..self.i + 4)?;
        if !h.iter().all(|c| c.is_ascii_hexdigit()) { return None }
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()
    }
    pub fn base64(&mut self) -> Option<Vec<u8>> {
        let s = self.i;
        while self.peek().is_some_and(|c| A64.contains(&c)) { self.i += 1 }
        let d: Vec<u32> = self.b[s..self.i].iter().map(|c| A64.iter().position(|x| x == c).unwrap() as u32).collect();
        let mut o = vec![];
        for c in d.chunks(4) {
            let mut n = 0;
            for k in 0..4 { n = n << 6 | c.get(k).copied().unwrap_or(0) }
            for k in 0..c.len() - 1 { o.push((n >> (16 - 8 * k)) as u8) }
        }
        while self.peek() == Some(b'=') { self.i += 1 }
        if self.peek()? != b'"' { return None }
        self.i += 1;
        Some(o)
    }
    pub fn hex(&mut self) -> Option<Vec<u8>> {
        let s = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_hexdigit()) { self.i += 1 }
        let h = unhex(std::str::from_utf8(&self.b[s..self.i]).unwrap())?;
        if self.peek()? != b'"' { return None }
        self.i += 1;
        Some(h)
    }
    fn bytes(&mut self) -> Option<Vec<u8>> {
        match self.ws()? {
            b'"' => {
                self.i += 1;
                match self.dec {
                    Dec::Nope => self.raw(),
                    Dec::Hex => self.hex(),
                    Dec::Base64 => self.base64(),
                    Dec::Any => if self.word(b"base64,").is_some() { self.base64() } else if self.word(b"hex,").is_some() { self.hex() } else { self.raw() },
                }
            }
            b'[' => {
                self.i += 1;
                if self.ws()? == b']' { self.i += 1; return Some(vec![]) }
                let mut o = vec![];
                loop {
                    o.push(self.int(false, 8)? as u8);
                    match self.ws()? { b',' => self.i += 1, b']' => { self.i += 1; return Some(o) } _ => return None }
                }
            }
            _ => None,
        }
    }
    /// Elements of an array, `f(i)` reads the i-th; returns how many there were.
    fn list(&mut self, mut f: impl FnMut(&mut Self, usize) -> Option<()>) -> Option<usize> {
        self.eat(b'[')?;
        if self.ws()? == b']' { self.i += 1; return Some(0) }
        let mut n = 0;
        loop {
            self.ws()?;
            f(self, n)?;
            n += 1;
            match self.ws()? { b',' => { self.i += 1; } b']' => { self.i += 1; return Some(n) } _ => return None }
        }
    }
    /// Entries of an object; `f` starts at the key.
    fn object(&mut self, mut f: impl FnMut(&mut Self) -> Option<()>) -> Option<()> {
        self.eat(b'{')?;
        if self.ws()? == b'}' { self.i += 1; return Some(()) }
        loop {
            if self.ws()? != b'"' { return None }
            f(self)?;
            match self.ws()? { b',' => self.i += 1, b'}' => { self.i += 1; return Some(()) } _ => return None }
        }
    }
    pub fn skip(&mut self) -> Option<()> {
        match self.ws()? {
            b'n' => self.word(b"null"),
            b't' => self.word(b"true"),
            b'f' => self.word(b"false"),
            b'"' => { self.i += 1; self.skip_raw() }
            b'-' | b'0'..=b'9' => { self.token(); Some(()) }
            b'[' => self.list(|l, _| l.skip()).map(|_| ()),
            b'{' => self.object(|l| { l.string()?; l.eat(b':')?; l.skip() }),
            _ => None,
        }
    }
    fn key(&mut self, t: &Ty) -> Option<Val> {
        Some(match t {
            Ty::I(_) | Ty::U(_) | Ty::Bool => {
                self.i += 1;
                let v = self.value(t)?;
                if self.peek()? != b'"' { return None }
                self.i += 1;
                v
            }
            Ty::Char | Ty::Str(_) | Ty::Disp(_) | Ty::Hum => self.value(t)?,
            Ty::New(t) => Val::New(Box::new(self.key(t)?)),
            Ty::Enum(vs) => { let s = self.string()?; let i = vs.iter().position(|v| v.name == s)?; if vs[i].kind != VKind::Unit { return None } Val::Enum(i, Box::new(Val::Unit)) }
            Ty::Any => Val::Tree(Tree::Str(self.string()?.into_bytes())),
            Ty::Ignored => { self.string()?; Val::Ignored }
            _ => return None,
        })
    }
    fn tuple(&mut self, ts: &[Ty]) -> Option<Val> {
        let mut out = vec![];
        let n = self.list(|l, i| { out.push(l.value(ts.get(i)?)?); Some(()) })?;
        if n != ts.len() { return None }
        Some(Val::Seq(out))
    }
    fn fields(&mut self, d: &Def) -> Option<Val> {
        let mut out: Vec<Option<Val>> = vec![None; d.fields.len()];
        if self.ws()? == b'[' {
            self.list(|l, i| { out[i.min(d.fields.len().checked_sub(1)?)] = Some(l.value(&d.fields.get(i)?.ty)?); Some(()) })?;
        } else {
            self.object(|l| {
                let k = l.string()?;
                l.eat(b':')?;
                match d.fields.iter().position(|f| f.name == k) {
                    Some(i) => { if out[i].is_some() { return None } out[i] = Some(l.value(&d.fields[i].ty)?); Some(()) }
                    None => l.skip(),
                }
            })?;
        }
        if d.fields.iter().zip(&out).any(|(f, v)| v.is_none() && !f.opt) { return None }
        Some(Val::Struct(out))
    }
    pub fn value(&mut self, t: &Ty) -> Option<Val> {
        let c = self.ws()?;
        Some(match t {
            Ty::Unit | Ty::UnitStruct => { self.word(b"null")?; Val::Unit }
            Ty::Bool => if c == b't' { self.word(b"true")?; Val::Bool(true) } else { self.word(b"false")?; Val::Bool(false) },
            Ty::I(n) => Val::Int(self.int(true, *n)?),
            Ty::U(n) => Val::Int(self.int(false, *n)?),
            Ty::F32 => Val::F32(if c == b'n' { self.word(b"null")?; f32::NAN } else { self.token().parse().ok()? }),
            Ty::F64 => Val::F64(if c == b'n' { self.word(b"null")?; f64::NAN } else { self.token().parse().ok()? }),
            Ty::Hum => Val::Int(u32::from(self.string()?.parse::<std::net::Ipv4Addr>().ok()?) as i128),
            Ty::Char => { let s = self.string()?; let mut it = s.chars(); let c = it.next()?; if it.next().is_some() { return None } Val::Char(c) }
            Ty::Str(_) | Ty::Disp(_) => Val::Str(self.string()?),
            Ty::Bytes(_) => Val::Bytes(self.bytes()?),
            Ty::Opt(t) => if c == b'n' { self.word(b"null")?; Val::None } else { Val::Some(Box::new(self.value(t)?)) },
            Ty::New(t) => Val::New(Box::new(self.value(t)?)),
            Ty::Seq(t) => { let mut out = vec![]; self.list(|l, _| { out.push(l.value(t)?); Some(()) })?; Val::Seq(out) }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => self.tuple(ts)?,
            Ty::Map(k, t) => { let mut out = vec![]; self.object(|l| { let k = l.key(k)?; l.eat(b':')?; out.push((k, l.value(t)?)); Some(()) })?; Val::Map(out) }
            Ty::Struct(d) => self.fields(d)?,
            Ty::Enum(vs) => if c == b'"' {
                let s = self.string()?;
                let i = vs.iter().position(|v| v.name == s)?;
                if vs[i].kind != VKind::Unit { return None }
                Val::Enum(i, Box::new(Val::Unit))
            } else {
                self.eat(b'{')?;
                let s = self.string()?;
                let i = vs.iter().position(|v| v.name == s)?;
                self.eat(b':')?;
                let p = match &vs[i].kind {
                    VKind::Unit => return None,
                    VKind::New(t) => self.value(t)?,
                    VKind::Tuple(ts) => self.tuple(ts)?,
                    VKind::Struct(d) => self.fields(d)?,
                };
                self.eat(b'}')?;
                Val::Enum(i, Box::new(p))
            },
            Ty::Any => Val::Tree(match c {
                b'n' => { self.word(b"null")?; Tree::Nil }
                b't' => { self.word(b"true")?; Tree::Bool(true) }
                b'f' => { self.word(b"false")?; Tree::Bool(false) }
                b'"' => Tree::Str(self.string()?.into_bytes()),
                b'-' | b'0'..=b'9' => self.any_number()?,
                b'[' => { let mut out = vec![]; self.list(|l, _| { out.push(any(l)?); Some(()) })?; Tree::Arr(out) }
                b'{' => { let mut out = vec![]; self.object(|l| { let k = l.string()?; l.eat(b':')?; out.push((Tree::Str(k.into_bytes()), any(l)?)); Some(()) })?; Tree::Map(out) }
                _ => return None,
            }),
            Ty::Ignored => { self.skip()?; Val::Ignored }
        })
    }
}
fn any(l: &mut L) -> Option<Tree> { match l.value(&Ty::Any)? { Val::Tree(t) => Some(t), _ => None } }

/// One document of the type, nothing but whitespace after it.
pub fn read(t: &Ty, b: &[u8], dec: Dec) -> Option<Val> {
    let mut l = L { b, i: 0, dec };
    let v = l.value(t)?;
    if l.ws().is_some() { return None }
    Some(v)
}
