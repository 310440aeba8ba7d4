//! Simulated destinations: a scripted faulty writer, a reference sink, and every sink the crate
//! provides behind one interface.
use crate::alloc::harness;
use crate::model::in_display;
use ser_write::{SerError, SerResult, SerWrite, SliceWriter};
use std::fmt;

/// Collects everything; its allocations belong to the harness.
#[derive(Default, Clone)]
pub struct VecSink(pub Vec<u8>);
impl SerWrite for VecSink {
    type Error = SerError;
    fn write(&mut self, b: &[u8]) -> SerResult<()> { harness(|| self.0.extend_from_slice(b)); Ok(()) }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Boom(pub u64);
impl fmt::Display for Boom { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "boom {}", self.0) } }

/// A writer whose calls fail as scripted.
pub struct FaultSink {
    pub got: Vec<u8>,
    pub calls: u64,
    /// the script: calls (counted from 0) that fail, each with how many of its bytes are still taken
    pub fail: Option<(u64, usize)>,
    /// number of the failed call, and whether display text was being formatted at the time
    pub failed: Option<(u64, bool)>,
    pub after: u64,
    /// also implements the byte and string calls itself
    pub wide: bool,
}
impl FaultSink {
    pub fn new(wide: bool) -> Self { FaultSink { got: Vec::new(), calls: 0, fail: None, failed: None, after: 0, wide } }
    pub fn arm(&mut self, fail: Option<(u64, usize)>) { self.calls = 0; self.fail = fail; self.failed = None; self.after = 0; self.got.clear(); }
    fn call(&mut self, b: &[u8]) -> Result<(), Boom> {
        let k = self.calls;
        self.calls += 1;
        if let Some((f, _)) = self.failed {
            self.after += 1;
            return Err(Boom(f))
        }
        if let Some((n, part)) = self.fail {
            if n == k {
                harness(|| self.got.extend_from_slice(&b[..part.min(b.len())]));
                self.failed = Some((k, in_display()));
                return Err(Boom(k))
            }
        }
        harness(|| self.got.extend_from_slice(b));
        Ok(())
    }
}
impl SerWrite for FaultSink {
    type Error = Boom;
    fn write(&mut self, b: &[u8]) -> Result<(), Boom> { self.call(b) }
    fn write_byte(&mut self, b: u8) -> Result<(), Boom> { if self.wide { self.call(&[b]) } else { self.write(&[b]) } }
    fn write_str(&mut self, s: &str) -> Result<(), Boom> { if self.wide { self.call(s.as_bytes()) } else { self.write(s.as_bytes()) } }
}

/// A provided sink under test.
pub trait Sink: SerWrite<Error = SerError> {
    fn content(&self) -> Vec<u8>;
    fn wipe(&mut self);
    /// Drop bytes from the front or the back the way the container allows, keeping `keep` of them.
    fn shorten(&mut self, keep: usize, front: bool) -> bool;
    /// The unused part of the buffer, where it can be looked at.
    fn tail(&self) -> Option<Vec<u8>> { None }
}
macro_rules! veclike { ($([$($g:tt)*] $t:ty),* $(,)?) => { $(
    impl<$($g)*> Sink for $t {
        fn content(&self) -> Vec<u8> { self.iter().copied().collect() }
        fn wipe(&mut self) { self.clear() }
        fn shorten(&mut self, keep: usize, front: bool) -> bool { if front { return false } self.truncate(keep); true }
    }
)* } }
veclike! {
    [const N: usize] arrayvec::ArrayVec<u8, N>,
    [const N: usize, L: heapless::LenType] heapless::Vec<u8, N, L>,
    [L: heapless::LenType] heapless::VecView<u8, L>,
    [const N: usize] tinyvec::ArrayVec<[u8; N]>,
    [] tinyvec::SliceVec<'_, u8>,
}
#[cfg(feature = "heap")]
veclike! { [] Vec<u8>, [] smallvec::SmallVec<[u8; 8]>, [] smallvec::SmallVec<[u8; 64]>, [const N: usize] tinyvec::TinyVec<[u8; N]> }
#[cfg(feature = "heap")]
impl Sink for std::collections::VecDeque<u8> {
    fn content(&self) -> Vec<u8> { self.iter().copied().collect() }
    fn wipe(&mut self) { self.clear() }
    fn shorten(&mut self, keep: usize, front: bool) -> bool {
        if front { let n = self.len() - keep.min(self.len()); drop(self.drain(..n)); } else { self.truncate(keep) }
        true
    }
}
impl Sink for SliceWriter<'_> {
    fn content(&self) -> Vec<u8> { self.as_ref().to_vec() }
    fn wipe(&mut self) { self.clear() }
    fn shorten(&mut self, keep: usize, front: bool) -> bool { if front { return false } self.len = keep.min(self.len); true }
    fn tail(&self) -> Option<Vec<u8>> { Some(self.buf[self.len..].to_vec()) }
}
#[cfg(feature = "v_std")]
mod cursors {
    use super::*;
    use std::io::Cursor;
    macro_rules! cur { ($([$($g:tt)*] $t:ty),*) => { $(
        impl<$($g)*> Sink for Cursor<$t> {
            fn content(&self) -> Vec<u8> { let b: &[u8] = self.get_ref().as_ref(); b[..(self.position() as usize).min(b.len())].to_vec() }
            fn wipe(&mut self) { self.set_position(0) }
            fn shorten(&mut self, keep: usize, front: bool) -> bool { if front { return false } self.set_position(keep as u64); true }
            fn tail(&self) -> Option<Vec<u8>> { let b: &[u8] = self.get_ref().as_ref(); Some(b[(self.position() as usize).min(b.len())..].to_vec()) }
        }
    )* } }
    cur! { [const N: usize] [u8; N], [] &mut [u8], [] Box<[u8]>, [] Vec<u8> }
}

pub struct Spec {
    pub name: &'static str,
    /// capacity, `None` when growable
    pub cap: Option<usize>,
    pub partial: bool,
}

pub const PAD: usize = 24;
pub const CANARY: u8 = 0xC5;

/// Fixed-size kinds able to hold exactly `cap` bytes; `mem` has PAD canary bytes on both sides.
pub const FIXED: &[&str] = &["SliceWriter", "&mut SliceWriter", "tinyvec::SliceVec", "io::Cursor<&mut [u8]>", "io::Cursor<Box<[u8]>>"];
/// Kinds with a capacity fixed at compile time.
pub const SIZED: &[&str] = &["ArrayVec", "heapless::Vec", "heapless::VecView", "heapless::Vec<u8>", "tinyvec::ArrayVec", "io::Cursor<[u8; N]>"];
pub const SIZES: &[usize] = &[0, 1, 2, 3, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 128, 255, 256, 300, 512, 1024, 4096];
pub const GROW: &[&str] = &["Vec", "VecDeque", "SmallVec<8>", "TinyVec<16>", "SmallVec<64>", "TinyVec<0>"];

/// Runs `f` with a sink whose capacity is decided at run time.
pub fn with_fixed<R>(kind: usize, mem: &mut [u8], f: impl FnOnce(&mut dyn Sink, Spec) -> R) -> R {
    let n = mem.len();
    let b = &mut mem[PAD..n - PAD];
    let cap = b.len();
    let spec = |i: usize| Spec { name: FIXED[i], cap: Some(cap), partial: false };
    match kind {
        1 => { let mut w = SliceWriter::new(b); f(&mut w, spec(1)) }
        2 => { let mut w = tinyvec::SliceVec::from_slice_len(b, 0); f(&mut w, spec(2)) }
        #[cfg(feature = "v_std")]
        3 => { let mut w = std::io::Cursor::new(b); f(&mut w, Spec { partial: true, ..spec(3) }) }
        #[cfg(feature = "v_std")]
        4 => {
            let mut w = std::io::Cursor::new(b.to_vec().into_boxed_slice());
            let r = f(&mut w, Spec { partial: true, ..spec(4) });
            b.copy_from_slice(w.get_ref());
            r
        }
        _ => { let mut w = SliceWriter::new(b); f(&mut w, spec(0)) }
    }
}

fn sized<const N: usize, R>(kind: usize, f: impl FnOnce(&mut dyn Sink, Spec) -> R) -> R {
    let spec = |i: usize| Spec { name: SIZED[i], cap: Some(N), partial: false };
    match kind {
        1 => f(&mut heapless::Vec::<u8, N>::new(), spec(1)),
        2 => { struct D<'a>(&'a mut heapless::VecView<u8>);
            impl SerWrite for D<'_> {
                type Error = SerError;
                fn write(&mut self, b: &[u8]) -> SerResult<()> { SerWrite::write(&mut *self.0, b) }
                fn write_byte(&mut self, b: u8) -> SerResult<()> { SerWrite::write_byte(&mut *self.0, b) }
                fn write_str(&mut self, b: &str) -> SerResult<()> { SerWrite::write_str(&mut *self.0, b) }
            }
            impl Sink for D<'_> {
                fn content(&self) -> Vec<u8> { Sink::content(&*self.0) }
                fn wipe(&mut self) { Sink::wipe(&mut *self.0) }
                fn shorten(&mut self, keep: usize, front: bool) -> bool { Sink::shorten(&mut *self.0, keep, front) }
            }
            let mut v = heapless::Vec::<u8, N>::new();
            f(&mut D(v.as_mut_view()), spec(2)) }
        3 => f(&mut heapless::Vec::<u8, N, u16>::new(), spec(3)),
        4 => f(&mut tinyvec::ArrayVec::<[u8; N]>::default(), spec(4)),
        #[cfg(feature = "v_std")]
        5 => f(&mut std::io::Cursor::new([0u8; N]), Spec { partial: true, ..spec(5) }),
        _ => f(&mut arrayvec::ArrayVec::<u8, N>::new(), spec(0)),
    }
}
pub fn with_sized<R>(kind: usize, size: usize, f: impl FnOnce(&mut dyn Sink, Spec) -> R) -> R {
    macro_rules! go { ($($n:literal)*) => { match size { $($n => sized::<$n, R>(kind, f),)* _ => panic!("harness: size {size}") } } }
    go!(0 1 2 3 5 7 8 15 16 17 31 32 33 64 100 128 255 256 300 512 1024 4096)
}
/// Growable sinks; without heap support the reference sink stands in.
pub fn with_grow<R>(kind: usize, f: impl FnOnce(&mut dyn Sink, Spec) -> R) -> R {
    #[cfg(feature = "heap")]
    {
        let spec = |i: usize| Spec { name: GROW[i], cap: None, partial: false };
        match kind {
            1 => {
                // start with a wrapped ring now and then
                f(&mut std::collections::VecDeque::<u8>::new(), spec(1))
            }
            2 => f(&mut smallvec::SmallVec::<[u8; 8]>::new(), spec(2)),
            3 => f(&mut tinyvec::TinyVec::<[u8; 16]>::new(), spec(3)),
            4 => f(&mut smallvec::SmallVec::<[u8; 64]>::new(), spec(4)),
            5 => f(&mut tinyvec::TinyVec::<[u8; 1]>::new(), spec(5)),
            _ => f(&mut Vec::<u8>::new(), spec(0)),
        }
    }
    #[cfg(not(feature = "heap"))]
    {
        let _ = kind;
        struct Own(VecSink);
        impl SerWrite for Own { type Error = SerError; fn write(&mut self, b: &[u8]) -> SerResult<()> { self.0.write(b) } }
        impl Sink for Own {
            fn content(&self) -> Vec<u8> { self.0.0.clone() }
            fn wipe(&mut self) { self.0.0.clear() }
            fn shorten(&mut self, keep: usize, front: bool) -> bool { if front { return false } self.0.0.truncate(keep); true }
        }
        f(&mut Own(VecSink::default()), Spec { name: "reference (no heap sinks in this build)", cap: None, partial: false })
    }
}
pub fn canaries_ok(mem: &[u8]) -> bool {
    mem[..PAD].iter().chain(&mem[mem.len() - PAD..]).all(|b| *b == CANARY)
}
pub fn guarded(cap: usize, fill: u8) -> Vec<u8> {
    let mut m = vec![CANARY; cap + 2 * PAD];
    m[PAD..PAD + cap].fill(fill);
    m
}
