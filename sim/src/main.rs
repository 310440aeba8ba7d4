//! Deterministic simulation of ser-write, ser-write-json and ser-write-msgpack.
//!
//! One seed is one run: every value, schedule, fault and delivery is drawn from `src::Src`.
#![allow(dead_code)]
mod alloc;
mod ctx;
mod drv;
mod model;
mod net;
mod props;
mod refjson;
mod refmp;
mod sinks;
mod src;
mod zoo;

use ctx::{Ctx, Violation};
use src::{mix, Src};
use std::cell::RefCell;
use std::collections::HashSet;
use std::collections::BTreeMap;
use std::io::Write;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

thread_local! { static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }

fn hook(i: &std::panic::PanicHookInfo) {
    alloc::panic_mode();
    let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
    let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
}

pub struct Outcome { pub ctx: Ctx, pub viol: Option<Violation>, pub harness: Option<String> }

fn short(loc: &str) -> String {
    // file name only: the path of the working copy is not part of the failure
    let f = loc.rsplit('/').next().unwrap_or(loc);
    f.split(':').next().unwrap_or(f).to_string()
}

fn exec(prop: &str, src: Src, tracing: bool, deep: bool) -> Outcome {
    let f = props::TABLE.iter().find(|(n, _)| *n == prop).unwrap_or_else(|| { eprintln!("unknown property {prop}"); std::process::exit(2) }).1;
    let mut ctx = Ctx::new(src, tracing, deep);
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ctx)));
    match r {
        Ok(Ok(())) => Outcome { ctx, viol: None, harness: None },
        Ok(Err(v)) => Outcome { ctx, viol: Some(v), harness: None },
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if msg.starts_with("harness") { return Outcome { ctx, viol: None, harness: Some(format!("{msg} at {loc}")) } }
            let v = Violation { class: format!("panic:{}", short(&loc)), detail: format!("panicked at {loc}: {}", ctx::cut(&msg)) };
            Outcome { ctx, viol: Some(v), harness: None }
        }
    }
}

fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    mix(mix(seed) ^ ctx::fnv(3, prop.as_bytes()) ^ mix(run.wrapping_mul(0x9E37_79B9)))
}

fn same_class(prop: &str, c: &[u64], class: &str, deep: bool) -> Option<Vec<u64>> {
    let o = exec(prop, Src::from_choices(c.to_vec()), false, deep);
    match o.viol { Some(v) if v.class == class => { let mut l = o.ctx.s.log; while l.last() == Some(&0) { l.pop(); } Some(l) } _ => None }
}

/// Shrink the choice sequence: drop chunks, then lower values, keeping the class of the violation.
fn shrink(prop: &str, start: Vec<u64>, class: &str, deep: bool, secs: f64) -> Vec<u64> {
    let t0 = std::time::Instant::now();
    let Some(mut best) = same_class(prop, &start, class, deep) else { return start };
    let over = || t0.elapsed().as_secs_f64() > secs;
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a.iter().map(|x| 64 - x.leading_zeros() as u64).sum::<u64>()) < (b.len(), b.iter().map(|x| 64 - x.leading_zeros() as u64).sum::<u64>());
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && !over() {
            let mut i = 0;
            while i < best.len() && !over() {
                let mut c = best.clone();
                c.drain(i..(i + size).min(best.len()));
                match same_class(prop, &c, class, deep) { Some(l) if better(&l, &best) => best = l, _ => i += size }
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && !over() {
            let v = best[i];
            for w in [0, v / 2, v.saturating_sub(1)] {
                if w >= v { continue }
                let mut c = best.clone();
                c[i] = w;
                if let Some(l) = same_class(prop, &c, class, deep) { if better(&l, &best) { best = l; break } }
                if over() { break }
            }
            i += 1;
        }
        if best == before || over() { return best }
    }
}

fn one_line(s: &str) -> String { s.replace('\n', "\\n") }
fn join(c: &[u64]) -> String { c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ") }

struct Args(Vec<String>);
impl Args {
    fn opt(&self, n: &str) -> Option<&str> { self.0.iter().position(|a| a == n).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str()) }
    fn has(&self, n: &str) -> bool { self.0.iter().any(|a| a == n) }
    fn num(&self, n: &str, d: u64) -> u64 { self.opt(n).and_then(|s| s.parse().ok()).unwrap_or(d) }
}

fn batch(a: &Args) -> i32 {
    let prop = a.opt("--prop").unwrap().to_string();
    let (seed, start, count, step) = (a.num("--seed", 1), a.num("--start", 0), a.num("--count", 1000), a.num("--step", 1));
    let secs = a.num("--secs", 3600) as f64;
    let deep = a.has("--deep");
    let mut prog = a.opt("--progress").map(|p| std::fs::File::create(p).unwrap());
    let mut obs = a.opt("--obs").map(|p| std::io::BufWriter::new(std::fs::File::create(p).unwrap()));
    let t0 = std::time::Instant::now();
    let (mut runs, mut events, mut checks, mut simt, mut digest, mut nontriv) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut code = 0;
    let mut i = start;
    while runs < count && t0.elapsed().as_secs_f64() < secs {
        if let Some(f) = prog.as_mut() {
            use std::io::Seek;
            let _ = f.seek(std::io::SeekFrom::Start(0));
            let _ = f.write_all(format!("{i:<20}\n").as_bytes());
        }
        let o = exec(&prop, Src::from_seed(run_seed(seed, &prop, i)), false, deep);
        runs += 1;
        events += o.ctx.events;
        checks += o.ctx.checks;
        simt += o.ctx.now;
        digest = mix(digest ^ o.ctx.hash ^ mix(o.ctx.obs));
        for (k, v) in &o.ctx.faults { *faults.entry(k).or_insert(0) += v; }
        for (k, v) in &o.ctx.probes { *probes.entry(k).or_insert(0) += v; }
        if o.ctx.checks > 0 && (!o.ctx.faults.is_empty() || o.ctx.events > 2) { nontriv += 1; if seen.len() < 4_000_000 { seen.insert(o.ctx.hash); } }
        if let Some(f) = obs.as_mut() { let _ = f.write_all(&o.ctx.obs.to_le_bytes()); }
        if let Some(h) = o.harness { println!("HARNESS run={i} {}", one_line(&h)); code = 2; break }
        if let Some(v) = o.viol {
            let c = shrink(&prop, o.ctx.s.log, &v.class, deep, a.num("--shrink", 20) as f64);
            let o2 = exec(&prop, Src::from_choices(c.clone()), false, deep);
            let v2 = o2.viol.unwrap_or(v);
            println!("CLASS {}", one_line(&v2.class));
            println!("DETAIL {}", one_line(&v2.detail));
            println!("RUN {i}");
            println!("CHOICES {}", join(&c));
            code = 1;
            break
        }
        i += step;
    }
    if let Some(mut f) = obs { let _ = f.flush(); }
    if let Some(p) = a.opt("--hashes") {
        let mut b = Vec::with_capacity(seen.len() * 8);
        for h in &seen { b.extend_from_slice(&h.to_le_bytes()); }
        let _ = std::fs::write(p, b);
    }
    println!("RUNS {runs}\nEVENTS {events}\nCHECKS {checks}\nSIMTIME {simt}\nNONTRIVIAL {nontriv}\nDIGEST {digest:016x}\nWALL {:.3}", t0.elapsed().as_secs_f64());
    for (k, v) in faults { println!("FAULT {v} {k}"); }
    for (k, v) in probes { println!("PROBE {v} {k}"); }
    code
}

fn report(o: &Outcome) -> i32 {
    for l in &o.ctx.trace { println!("  {l}"); }
    for l in &o.ctx.obs_log { println!("OBS {}", one_line(l)); }
    println!("OBSDIGEST {:016x}", o.ctx.obs);
    println!("HASH {:016x}", o.ctx.hash);
    if let Some(h) = &o.harness { println!("HARNESS {}", one_line(h)); return 2 }
    if let Some(v) = &o.viol {
        println!("CLASS {}", one_line(&v.class));
        println!("DETAIL {}", one_line(&v.detail));
        return 1
    }
    println!("HELD");
    0
}

fn real_main() -> i32 {
    let a = Args(std::env::args().skip(1).collect());
    std::panic::set_hook(Box::new(hook));
    let deep = a.has("--deep");
    match a.0.first().map(|s| s.as_str()) {
        Some("batch") => batch(&a),
        Some("run") => {
            let prop = a.opt("--prop").unwrap();
            let mut s = Src::from_seed(run_seed(a.num("--seed", 1), prop, a.num("--run", 0)));
            if let Some(p) = a.opt("--live") { s.live = Some(std::fs::File::create(p).unwrap()); }
            let o = exec(prop, s, !a.has("--quiet"), deep);
            report(&o)
        }
        Some("choices") => {
            let prop = a.opt("--prop").unwrap();
            let t = std::fs::read_to_string(a.opt("--file").unwrap()).unwrap();
            let c: Vec<u64> = t.split_ascii_whitespace().map(|x| x.parse().unwrap()).collect();
            let o = exec(prop, Src::from_choices(c), !a.has("--quiet"), deep);
            report(&o)
        }
        Some("probe") => props::probe(a.0.get(1).map(|s| s.as_str()).unwrap_or("")),
        _ => { eprintln!("usage: sim batch|run|choices|probe …"); 2 }
    }
}

fn main() {
    // A large (lazily committed) stack: only explicit deep-nesting probes are meant to exhaust one.
    let h = std::thread::Builder::new().stack_size(if cfg!(target_pointer_width = "64") { 1 << 30 } else { 1 << 28 }).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(2);
    std::process::exit(code);
}
