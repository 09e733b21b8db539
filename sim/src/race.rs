//! Happens-before between callers, from the atomic operations and fences the
//! instrumented library executes and their memory orderings. Finds unordered
//! conflicting accesses to writable statics, and lets an atomic load return
//! any store the memory model allows it to see, not only the latest.

use crate::engine::{eng, Engine, K_LOAD, K_STORE};
use crate::exec;
use crate::prng::fold;
use crate::shared::{Stat, V_RACE};
use alloc::boxed::Box;
use alloc::collections::BTreeMap;
use alloc::vec::Vec;

pub const MAX_ACTS: usize = 12;
type Clock = [u32; MAX_ACTS];
const ZERO: Clock = [0; MAX_ACTS];
/// Stores an atomic location remembers.
const HISTORY: usize = 6;

/// For one byte, when each caller last did what to it.
#[derive(Default)]
struct Byte {
    read: Clock,
    write: Clock,
    aread: Clock,
    awrite: Clock,
}

struct Store {
    val: u64,
    /// Who stored it and when; nobody: it was there before.
    by: usize,
    clk: u32,
    /// What an acquiring load of it learns.
    rel: Clock,
    /// When each caller last read it.
    seen: Clock,
}

pub struct Race {
    clock: [Clock; MAX_ACTS],
    bytes: BTreeMap<usize, Box<Byte>>,
    atoms: BTreeMap<usize, Vec<Store>>,
    /// Learnt by relaxed loads, to take effect at an acquire fence.
    acquire: [Clock; MAX_ACTS],
    /// Published at the last release fence.
    release: [Clock; MAX_ACTS],
    fences: Clock,
    /// An access announced but not known to be a plain one yet.
    pending: [(usize, usize, u32); MAX_ACTS],
    seed: u64,
    weak: bool,
}

fn join(a: &mut Clock, b: &Clock) {
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

impl Race {
    pub fn new(seed: u64) -> Box<Race> {
        let mut clock = [ZERO; MAX_ACTS];
        for (t, c) in clock.iter_mut().enumerate() {
            c[t] = 1;
        }
        Box::new(Race {
            clock,
            bytes: BTreeMap::new(),
            atoms: BTreeMap::new(),
            acquire: [ZERO; MAX_ACTS],
            release: [ZERO; MAX_ACTS],
            fences: ZERO,
            pending: [(0, 0, 0); MAX_ACTS],
            seed,
            weak: seed % 4 != 0,
        })
    }

    fn everything(&self) -> Clock {
        let mut j = ZERO;
        self.clock.iter().for_each(|c| join(&mut j, c));
        j
    }

    /// All callers start now, after everything that went before.
    pub fn fork(&mut self) {
        let j = self.everything();
        for (t, c) in self.clock.iter_mut().enumerate() {
            *c = j;
            c[t] += 1;
        }
    }

    /// Caller t synchronised in a way that is not visible here.
    pub fn unknown_sync(&mut self, t: usize) {
        let j = self.everything();
        join(&mut self.clock[t], &j);
    }

    /// The access caller t announced last was a plain one.
    pub fn settle(&mut self, t: usize) {
        let (addr, size, kind) = core::mem::take(&mut self.pending[t]);
        if size > 0 {
            self.access(t, addr, size, kind == K_STORE, false);
        }
    }

    pub fn event(&mut self, t: usize, addr: usize, size: usize, kind: u32, tracked: bool) {
        self.settle(t);
        if (kind == K_LOAD || kind == K_STORE) && tracked {
            self.pending[t] = (addr, size, kind);
        }
    }

    fn access(&mut self, t: usize, addr: usize, size: usize, write: bool, atomic: bool) {
        let clock = &self.clock[t];
        for p in addr..addr + size {
            let b = self.bytes.entry(p).or_default();
            let after = |c: &Clock| (0..MAX_ACTS).find(|&u| u != t && c[u] > clock[u]);
            let mut hit = after(&b.write).map(|u| (u, "write"));
            if !atomic {
                hit = hit.or(after(&b.awrite).map(|u| (u, "atomic write")));
            }
            if write {
                hit = hit.or(after(&b.read).map(|u| (u, "read")));
                if !atomic {
                    hit = hit.or(after(&b.aread).map(|u| (u, "atomic read")));
                }
            }
            if let Some((u, what)) = hit {
                let e = eng();
                let place = crate::platform::locate(e.nodes, p as u64);
                let m = alloc::format!(
                    "data race: {}{} by a{t} is not ordered after the {what} by a{u}, at static {place}",
                    if atomic { "atomic " } else { "" },
                    if write { "write" } else { "read" },
                );
                exec::fail(e, V_RACE, m);
            }
            *match (write, atomic) {
                (false, false) => &mut b.read[t],
                (true, false) => &mut b.write[t],
                (false, true) => &mut b.aread[t],
                (true, true) => &mut b.awrite[t],
            } = clock[t];
        }
    }

    /// Index of the oldest store caller t may still read.
    fn oldest(&self, t: usize, h: &[Store]) -> usize {
        let c = &self.clock[t];
        (0..h.len())
            .rev()
            .find(|&j| {
                let s = &h[j];
                s.by == usize::MAX
                    || s.clk <= c[s.by]
                    || (0..MAX_ACTS).any(|u| s.seen[u] != 0 && s.seen[u] <= c[u])
            })
            .unwrap_or(0)
    }
}

fn acquires(o: i32) -> bool {
    matches!(o, 1 | 2 | 4 | 5)
}
fn releases(o: i32) -> bool {
    matches!(o, 3..=5)
}

unsafe fn get(p: usize, size: usize) -> u64 {
    match size {
        1 => u64::from((p as *const u8).read_volatile()),
        2 => u64::from((p as *const u16).read_volatile()),
        4 => u64::from((p as *const u32).read_volatile()),
        _ => (p as *const u64).read_volatile(),
    }
}
unsafe fn put(p: usize, size: usize, v: u64) {
    match size {
        1 => (p as *mut u8).write_volatile(v as u8),
        2 => (p as *mut u16).write_volatile(v as u16),
        4 => (p as *mut u32).write_volatile(v as u32),
        _ => (p as *mut u64).write_volatile(v),
    }
}

fn tracked(e: &Engine, addr: usize) -> bool {
    e.nodes[e.acts[e.cur].node].rw.iter().any(|&(lo, hi)| addr >= lo && addr < hi)
}

/// One atomic operation of the library. `new` maps the value read to the one
/// to store, if any; it is None for a load. Returns the value read.
pub unsafe fn atomic(p: usize, size: usize, ord: i32, fail_ord: i32, new: Option<&dyn Fn(u64) -> Option<u64>>, blind: bool) -> u64 {
    let now = get(p, size);
    let plain = || {
        if let Some(v) = new.and_then(|f| f(now)) {
            put(p, size, v);
        }
        now
    };
    if !crate::engine::active() || !eng().armed || eng().race.is_none() {
        return plain();
    }
    let e = eng();
    e.armed = false;
    let t = e.cur;
    let watch = tracked(e, p);
    let (call, ev) = (e.acts[t].call, e.acts[t].ev);
    let r = e.race.as_mut().unwrap();
    if r.pending[t].0 == p {
        r.pending[t] = (0, 0, 0);
    }
    r.settle(t);
    let mut h = r.atoms.remove(&p).unwrap_or_default();
    if h.last().is_none_or(|s| s.val != now) {
        // new here, or changed by code that cannot be seen
        r.unknown_sync(t);
        let rel = if h.is_empty() { ZERO } else { r.everything() };
        h.clear();
        h.push(Store { val: now, by: usize::MAX, clk: 0, rel, seen: ZERO });
    }
    let wanted = new.map(|f| f(now));
    let got = match wanted {
        Some(Some(v)) => {
            // a store, or a read-modify-write that succeeds: after the latest
            let mut rel = ZERO;
            if !blind {
                let s = h.last_mut().unwrap();
                s.seen[t] = r.clock[t][t];
                rel = s.rel;
                let learnt = if acquires(ord) { &mut r.clock[t] } else { &mut r.acquire[t] };
                join(learnt, &rel);
            }
            join(&mut rel, if releases(ord) { &r.clock[t] } else { &r.release[t] });
            if h.len() == HISTORY {
                h.remove(0);
            }
            h.push(Store { val: v, by: t, clk: r.clock[t][t], rel, seen: ZERO });
            put(p, size, v);
            if watch {
                r.access(t, p, size, true, true);
            }
            if releases(ord) {
                r.clock[t][t] += 1;
            }
            now
        }
        w => {
            let o = if w.is_some() { fail_ord } else { ord };
            let mut i = h.len() - 1;
            if w.is_none() && o != 5 && r.weak && i > 0 {
                let lo = r.oldest(t, &h);
                let x = fold(fold(r.seed, (t as u64) << 32 | u64::from(call)), u64::from(ev));
                if lo < i && x >> 16 & 3 != 0 {
                    i = lo + (x >> 24) as usize % (i + 1 - lo);
                }
                if i + 1 != h.len() {
                    crate::engine::sh().stat(Stat::StaleRead, 1);
                }
            }
            let s = &mut h[i];
            s.seen[t] = r.clock[t][t];
            let rel = s.rel;
            let val = s.val;
            let learnt = if acquires(o) { &mut r.clock[t] } else { &mut r.acquire[t] };
            join(learnt, &rel);
            if watch {
                r.access(t, p, size, false, true);
            }
            val
        }
    };
    r.atoms.insert(p, h);
    crate::engine::sh().stat(Stat::AtomicOps, 1);
    e.armed = true;
    got
}

pub fn fence(ord: i32) {
    if !crate::engine::active() || !eng().armed {
        return;
    }
    let e = eng();
    let t = e.cur;
    let Some(r) = e.race.as_mut() else { return };
    r.settle(t);
    if acquires(ord) {
        let a = r.acquire[t];
        join(&mut r.clock[t], &a);
    }
    if ord == 5 {
        let f = r.fences;
        join(&mut r.clock[t], &f);
        r.fences = r.clock[t];
    }
    if releases(ord) {
        r.release[t] = r.clock[t];
        r.clock[t][t] += 1;
    }
}
