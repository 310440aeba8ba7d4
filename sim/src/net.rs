//! Discrete-event scheduler of the simulated system.
use crate::ctx::Ctx;
use std::collections::BTreeMap;

pub struct Sched<E> { q: BTreeMap<(u64, u64), E>, seq: u64 }
impl<E> Sched<E> {
    pub fn new() -> Self { Sched { q: BTreeMap::new(), seq: 0 } }
    pub fn at(&mut self, t: u64, e: E) { self.seq += 1; self.q.insert((t, self.seq), e); }
    /// Next event in simulated time; events of the same instant are ordered by the seeded choice made here.
    pub fn pop(&mut self, ctx: &mut Ctx) -> Option<E> {
        let (&(t, _), _) = self.q.iter().next()?;
        let same: Vec<_> = self.q.range((t, 0)..(t + 1, 0)).map(|(k, _)| *k).collect();
        let k = if same.len() > 1 { same[ctx.s.usize(same.len())] } else { same[0] };
        ctx.now = ctx.now.max(t);
        self.q.remove(&k)
    }
    pub fn retain(&mut self, mut f: impl FnMut(&E) -> bool) { self.q.retain(|_, e| f(e)); }
    pub fn len(&self) -> usize { self.q.len() }
}
/// Cut `n` bytes into fragments: sizes chosen by a style.
pub fn fragments(ctx: &mut Ctx, n: usize) -> Vec<usize> {
    let mut out = Vec::new();
    let mut left = n;
    let style = ctx.s.draw(4);
    while left > 0 {
        let k = match style {
            _ if out.len() > 300 => left,
            0 => 1 + ctx.s.usize(8),
            1 => 1,
            2 => 1 + ctx.s.usize(left),
            _ => *ctx.s.pick(&[1usize, 2, 3, 16, 64, 256, 1500, 4096]),
        }.min(left);
        out.push(k);
        left -= k;
    }
    out
}
