//! Per-run context: choices, simulated clock, event log, fault counters, observables.
use crate::alloc::harness;
use crate::src::{mix, Src};
use std::collections::BTreeMap;

pub struct Violation { pub class: String, pub detail: String }
pub type R<T = ()> = Result<T, Violation>;

pub struct Ctx {
    pub s: Src,
    /// simulated microseconds
    pub now: u64,
    pub events: u64,
    pub hash: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    /// digest of everything the code under test let us observe (compared across builds)
    pub obs: u64,
    pub obs_on: bool,
    pub obs_log: Vec<String>,
    pub deep: bool,
    pub checks: u64,
}

pub fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h.rotate_left(23) ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    mix(h ^ b.len() as u64)
}

impl Ctx {
    pub fn new(s: Src, tracing: bool, deep: bool) -> Ctx {
        Ctx {
            s, now: 0, events: 0, hash: 0x51AE, tracing, trace: vec![], faults: BTreeMap::new(), probes: BTreeMap::new(),
            obs: 0x0B5, obs_on: true, obs_log: vec![], deep, checks: 0,
        }
    }
    /// An event of the simulation: enters the hash that identifies the interleaving.
    pub fn ev(&mut self, kind: &'static str, a: u64, b: u64, detail: impl FnOnce() -> String) {
        harness(|| {
            self.events += 1;
            self.hash = mix(self.hash ^ fnv(0, kind.as_bytes()) ^ mix(a.wrapping_mul(0x1000193) ^ mix(b)));
            if self.tracing { let l = format!("t={:>8} #{:<4} {kind} {a} {b} {}", self.now, self.events, detail()); self.trace.push(l); }
        })
    }
    pub fn fault(&mut self, kind: &'static str) { *self.faults.entry(kind).or_insert(0) += 1; }
    pub fn probe(&mut self, kind: &'static str) { *self.probes.entry(kind).or_insert(0) += 1; }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing { harness(|| { let l = format!("t={:>8}        {}", self.now, f()); self.trace.push(l); }) }
    }
    pub fn obs_bytes(&mut self, what: &'static str, b: &[u8]) {
        if !self.obs_on { return }
        self.obs = fnv(self.obs ^ fnv(1, what.as_bytes()), b);
        if self.tracing {
            let l = format!("{what}: {} bytes {} #{:016x}", b.len(), hex(&b[..b.len().min(48)]), fnv(7, b));
            self.obs_log.push(l);
        }
    }
    pub fn obs_str(&mut self, what: &'static str, s: &str) {
        if !self.obs_on { return }
        self.obs = fnv(self.obs ^ fnv(1, what.as_bytes()), s.as_bytes());
        if self.tracing { let l = format!("{what}: {}", cut(s)); self.obs_log.push(l); }
    }
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn cut(s: &str) -> String {
    if s.len() > 300 {
        let mut c = 300;
        while !s.is_char_boundary(c) { c -= 1 }
        format!("{}…({} bytes)", &s[..c], s.len())
    } else { s.to_string() }
}
/// Bytes for a trace: text when printable, hex otherwise.
pub fn show(b: &[u8]) -> String {
    let n = b.len().min(240);
    let tail = if n < b.len() { format!("…({} bytes)", b.len()) } else { String::new() };
    if b[..n].iter().all(|c| (0x20..0x7f).contains(c)) { format!("`{}`{tail}", String::from_utf8_lossy(&b[..n])) }
    else { format!("x{}{tail}", hex(&b[..n])) }
}

pub fn bad<T>(class: &str, detail: impl FnOnce() -> String) -> R<T> {
    harness(|| Err(Violation { class: class.to_string(), detail: detail() }))
}
#[macro_export]
macro_rules! ensure {
    ($ctx:expr, $cond:expr, $class:expr, $($arg:tt)+) => {{
        $ctx.checks += 1;
        if !$cond { return $crate::ctx::bad($class, || format!($($arg)+)); }
    }};
}
