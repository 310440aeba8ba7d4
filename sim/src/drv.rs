//! The code under test, reached through its public API, with uniform results.
use crate::model::{D_, Dyn, S, Ty, Val, with_ty};
use core::fmt;
use ser_write::SerWrite;
use ser_write_json as js;
use ser_write_msgpack as mp;
use serde::de::DeserializeSeed;
use serde::Serialize;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fl { Compact, Idx, Named }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Enc { Array, Hex, Base64, Pass, PreHex, PreB64 }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt { Mp(Fl), Js(Enc) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dec { Nope, Hex, Base64, Any }

pub const FLS: &[Fl] = &[Fl::Named, Fl::Idx, Fl::Compact];
pub const ENCS: &[Enc] = &[Enc::Array, Enc::Hex, Enc::Base64, Enc::PreHex, Enc::PreB64];
pub const DECS: &[Dec] = &[Dec::Nope, Dec::Hex, Dec::Base64, Dec::Any];
impl Enc {
    /// A decoder that reads what this encoder writes.
    pub fn decoder(self) -> Dec {
        match self { Enc::Array | Enc::Pass => Dec::Nope, Enc::Hex => Dec::Hex, Enc::Base64 => Dec::Base64, Enc::PreHex | Enc::PreB64 => Dec::Any }
    }
}
impl Fmt { pub fn json(self) -> bool { matches!(self, Fmt::Js(_)) } }

/// Result of a serialization, independent of the format.
#[derive(Debug, Clone, PartialEq)]
pub enum SErr<E> { Writer(E), Format, KeyType, Length, Skipped, Utf8, Custom, Other }
impl<E> SErr<E> {
    pub fn name(&self) -> &'static str {
        match self {
            SErr::Writer(_) => "Writer", SErr::Format => "Format", SErr::KeyType => "KeyType", SErr::Length => "Length",
            SErr::Skipped => "Skipped", SErr::Utf8 => "Utf8", SErr::Custom => "Custom", SErr::Other => "Other",
        }
    }
}
fn mp_err<E>(e: mp::ser::Error<E>) -> SErr<E> {
    use mp::ser::Error::*;
    match e {
        Writer(e) => SErr::Writer(e),
        MapLength | SeqLength | StrLength | DataLength => SErr::Length,
        FieldSkipped => SErr::Skipped,
        FormatError => SErr::Format,
        #[cfg(feature = "heap")]
        SerializeError(_) => SErr::Custom,
        #[cfg(not(feature = "heap"))]
        SerializeError => SErr::Custom,
        _ => SErr::Other,
    }
}
fn js_err<E>(e: js::ser::Error<E>) -> SErr<E> {
    use js::ser::Error::*;
    match e {
        Writer(e) => SErr::Writer(e),
        InvalidKeyType => SErr::KeyType,
        FormatError => SErr::Format,
        #[cfg(feature = "heap")]
        Utf8Encode => SErr::Utf8,
        #[cfg(feature = "heap")]
        SerializeError(_) => SErr::Custom,
        #[cfg(not(feature = "heap"))]
        SerializeError => SErr::Custom,
        _ => SErr::Other,
    }
}

/// A writer behind a vtable, so each format is instantiated once.
pub struct DynW<'a, E>(pub &'a mut dyn SerWrite<Error = E>);
impl<E> SerWrite for DynW<'_, E> {
    type Error = E;
    fn write(&mut self, b: &[u8]) -> Result<(), E> { self.0.write(b) }
    fn write_byte(&mut self, b: u8) -> Result<(), E> { self.0.write_byte(b) }
    fn write_str(&mut self, s: &str) -> Result<(), E> { self.0.write_str(s) }
}

// Byte codecs of the repository's custom_bytes example.
pub struct PreHex;
impl js::ser::ByteEncoder for PreHex {
    fn serialize_bytes<'a, W: SerWrite>(ser: &'a mut js::ser::Serializer<W, Self>, v: &[u8]) -> js::ser::Result<(), W::Error>
        where &'a mut js::ser::Serializer<W, Self>: serde::ser::Serializer<Ok=(), Error=js::ser::Error<W::Error>>
    {
        ser.writer().write_str("\"hex,")?;
        ser.serialize_bytes_as_hex_str(v)?;
        Ok(ser.writer().write_byte(b'"')?)
    }
}
pub struct PreB64;
impl js::ser::ByteEncoder for PreB64 {
    fn serialize_bytes<'a, W: SerWrite>(ser: &'a mut js::ser::Serializer<W, Self>, v: &[u8]) -> js::ser::Result<(), W::Error>
        where &'a mut js::ser::Serializer<W, Self>: serde::ser::Serializer<Ok=(), Error=js::ser::Error<W::Error>>
    {
        ser.writer().write_str("\"base64,")?;
        js::base64::encode(ser.writer(), v)?;
        Ok(ser.writer().write_byte(b'"')?)
    }
}
pub struct AnyDec;
impl<'de> js::de::StringByteDecoder<'de> for AnyDec {
    fn decode_string_to_bytes(de: &mut js::de::Deserializer<'de, Self>) -> js::de::Result<&'de [u8]> {
        let input = de.input_mut()?;
        if input.starts_with(b"base64,") { de.eat_some(7); de.parse_base64_bytes_content() }
        else if input.starts_with(b"hex,") { de.eat_some(4); de.parse_hex_bytes_content() }
        else { de.parse_str_bytes_content() }
    }
}

pub fn ser_any<E: fmt::Debug + fmt::Display, T: Serialize + ?Sized>(f: Fmt, w: &mut dyn SerWrite<Error = E>, v: &T) -> Result<(), SErr<E>> {
    let w = DynW(w);
    match f {
        Fmt::Mp(Fl::Compact) => mp::to_writer_compact(w, v).map_err(mp_err),
        Fmt::Mp(Fl::Idx) => mp::to_writer(w, v).map_err(mp_err),
        Fmt::Mp(Fl::Named) => mp::to_writer_named(w, v).map_err(mp_err),
        Fmt::Js(Enc::Array) => js::to_writer(w, v).map_err(js_err),
        Fmt::Js(Enc::Hex) => js::to_writer_hex_bytes(w, v).map_err(js_err),
        Fmt::Js(Enc::Base64) => js::to_writer_base64_bytes(w, v).map_err(js_err),
        Fmt::Js(Enc::Pass) => js::to_writer_pass_bytes(w, v).map_err(js_err),
        Fmt::Js(Enc::PreHex) => js::to_writer_with_encoder::<PreHex, _, _>(w, v).map_err(js_err),
        Fmt::Js(Enc::PreB64) => js::to_writer_with_encoder::<PreB64, _, _>(w, v).map_err(js_err),
    }
}
pub fn ser<E: fmt::Debug + fmt::Display>(f: Fmt, w: &mut dyn SerWrite<Error = E>, t: &Ty, v: &Val) -> Result<(), SErr<E>> {
    ser_any(f, w, &S(t, v))
}

/// A serializer object kept across messages.
pub enum Serz<W> {
    C(mp::ser::CompactSerializer<W>), I(mp::ser::StructMapIdxSerializer<W>), N(mp::ser::StructMapStrSerializer<W>),
    A(js::ser::SerializerByteArray<W>), H(js::ser::SerializerByteHexStr<W>), B(js::ser::SerializerByteBase64<W>), P(js::ser::SerializerBytePass<W>),
    Ph(js::ser::Serializer<W, PreHex>), Pb(js::ser::Serializer<W, PreB64>),
}
macro_rules! each { ($self:expr, $s:ident => $e:expr) => { match $self {
    Serz::C($s) => $e, Serz::I($s) => $e, Serz::N($s) => $e, Serz::A($s) => $e, Serz::H($s) => $e, Serz::B($s) => $e, Serz::P($s) => $e,
    Serz::Ph($s) => $e, Serz::Pb($s) => $e,
} } }
impl<W: SerWrite<Error = E>, E: fmt::Debug + fmt::Display> Serz<W> {
    pub fn new(f: Fmt, w: W) -> Self {
        match f {
            Fmt::Mp(Fl::Compact) => Serz::C(mp::ser::CompactSerializer::new(w)),
            Fmt::Mp(Fl::Idx) => Serz::I(mp::ser::StructMapIdxSerializer::new(w)),
            Fmt::Mp(Fl::Named) => Serz::N(mp::ser::StructMapStrSerializer::new(w)),
            Fmt::Js(Enc::Array) => Serz::A(js::ser::Serializer::new(w)),
            Fmt::Js(Enc::Hex) => Serz::H(js::ser::Serializer::new(w)),
            Fmt::Js(Enc::Base64) => Serz::B(js::ser::Serializer::new(w)),
            Fmt::Js(Enc::Pass) => Serz::P(js::ser::Serializer::new(w)),
            Fmt::Js(Enc::PreHex) => Serz::Ph(js::ser::Serializer::new(w)),
            Fmt::Js(Enc::PreB64) => Serz::Pb(js::ser::Serializer::new(w)),
        }
    }
    pub fn put(&mut self, t: &Ty, v: &Val) -> Result<(), SErr<E>> {
        let v = S(t, v);
        match self {
            Serz::C(s) => v.serialize(s).map_err(mp_err), Serz::I(s) => v.serialize(s).map_err(mp_err), Serz::N(s) => v.serialize(s).map_err(mp_err),
            Serz::A(s) => v.serialize(s).map_err(js_err), Serz::H(s) => v.serialize(s).map_err(js_err), Serz::B(s) => v.serialize(s).map_err(js_err),
            Serz::P(s) => v.serialize(s).map_err(js_err), Serz::Ph(s) => v.serialize(s).map_err(js_err), Serz::Pb(s) => v.serialize(s).map_err(js_err),
        }
    }
    pub fn writer(&mut self) -> &mut W { each!(self, s => s.writer()) }
    pub fn writer_ref(&self) -> &W { each!(self, s => s.writer_ref()) }
    pub fn into_inner(self) -> W { each!(self, s => s.into_inner()) }
}

#[cfg(feature = "heap")]
pub fn owned(f: Fmt, t: &Ty, v: &Val) -> Result<Vec<u8>, SErr<ser_write::SerError>> {
    let v = &S(t, v);
    match f {
        Fmt::Mp(Fl::Compact) => mp::to_vec_compact(v).map_err(mp_err),
        Fmt::Mp(Fl::Idx) => mp::to_vec(v).map_err(mp_err),
        Fmt::Mp(Fl::Named) => mp::to_vec_named(v).map_err(mp_err),
        Fmt::Js(Enc::Hex) => js::to_string_hex_bytes(v).map(String::into_bytes).map_err(js_err),
        Fmt::Js(Enc::Base64) => js::to_string_base64_bytes(v).map(String::into_bytes).map_err(js_err),
        Fmt::Js(Enc::Pass) => js::to_string_pass_bytes(v).map(String::into_bytes).map_err(js_err),
        Fmt::Js(_) => js::to_string(v).map(String::into_bytes).map_err(js_err),
    }
}

// -------------------------------------------------------------------------------- deserialization

pub type ME = mp::de::Error;
pub type JE = js::de::Error;

/// Name of the variant only (the wording of custom errors is not compared).
pub fn kind<E: fmt::Debug>(e: &E) -> String {
    let s = format!("{e:?}");
    s.split('(').next().unwrap_or("").to_string()
}

pub fn mp_de(t: &Ty, b: &[u8]) -> Result<(Val, usize), ME> {
    with_ty(t, || mp::from_slice::<Dyn>(b)).map(|(d, n)| (d.0, n))
}
pub fn mp_de_tail<'a>(t: &Ty, b: &'a [u8]) -> Result<(Val, &'a [u8]), ME> {
    with_ty(t, || mp::from_slice_split_tail::<Dyn>(b)).map(|(d, n)| (d.0, n))
}
/// Through a deserializer object, its end not asked for: the value and how many bytes remain.
pub fn mp_obj(t: &Ty, b: &[u8]) -> Result<(Val, usize), ME> {
    let mut d = mp::de::Deserializer::from_slice(b);
    let v = D_(t).deserialize(&mut d)?;
    Ok((v, d.remaining_len()))
}
pub fn js_obj(k: Dec, t: &Ty, b: &mut [u8]) -> Result<(Val, usize), JE> {
    fn go<'a, P: js::de::StringByteDecoder<'a>>(t: &Ty, b: &'a mut [u8]) -> Result<(Val, usize), JE> {
        let mut d = js::de::Deserializer::<P>::from_mut_slice(b);
        let v = D_(t).deserialize(&mut d)?;
        Ok((v, d.remaining_len()))
    }
    match k {
        Dec::Nope => go::<js::de::StringByteNopeDecoder>(t, b), Dec::Hex => go::<js::de::StringByteHexDecoder>(t, b),
        Dec::Base64 => go::<js::de::StringByteBase64Decoder>(t, b), Dec::Any => go::<AnyDec>(t, b),
    }
}
pub fn mp_skip(b: &[u8]) -> Result<usize, ME> {
    let mut d = mp::de::Deserializer::from_slice(b);
    d.eat_message()?;
    Ok(b.len() - d.end()?)
}
pub fn js_de(k: Dec, t: &Ty, b: &mut [u8]) -> Result<Val, JE> {
    with_ty(t, || match k {
        Dec::Nope => js::from_mut_slice::<Dyn>(b),
        Dec::Hex => js::from_mut_slice_hex_bytes::<Dyn>(b),
        Dec::Base64 => js::from_mut_slice_base64_bytes::<Dyn>(b),
        Dec::Any => js::from_mut_slice_with_decoder::<AnyDec, Dyn>(b),
    }).map(|d| d.0)
}
pub fn m_is_custom(e: &ME) -> bool { kind(e) == "DeserializeError" }
pub fn j_is_custom(e: &JE) -> bool { kind(e) == "DeserializeError" }
