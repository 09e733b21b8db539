//! The scheduler. Every load, store, atomic access and basic block of the
//! instrumented library calls `on_event`; there, and at call boundaries, this
//! module decides what happens next: go on, switch to another caller, run an
//! interrupt handler, stall or kill the caller, disturb not-yet-received
//! memory. One OS thread, one PRNG, one recorded plan.

use crate::ctx;
use crate::modes;
use crate::exec::{self, Regs};
use crate::prng::{fold, Rng};
use crate::scen::{Cfg, Step};
use crate::shadow;
use crate::shared::{self, Shared, Stat};
use alloc::boxed::Box;
use alloc::vec::Vec;

pub const A_SWITCH: u8 = 1; // arg: activity to run
pub const A_INTR: u8 = 2; // arg: handler activity
pub const A_KILL: u8 = 3; // arg: activity to run next
pub const A_STALL: u8 = 4; // arg: calls by others to sit out << 16 | activity to run next
pub const A_SCRAMBLE: u8 = 5; // arg: seed
pub const A_NET: u8 = 6; // act: link, call: packet number, arg: packed fate
pub const A_PARK: u8 = 7; // call: how often this fiber could not go on before; arg: who runs next

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Plan {
    pub act: u16,
    pub kind: u8,
    pub pad: u8,
    pub call: u32,
    pub ev: u32,
    pub arg: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Ready,
    /// Not started until the activity it succeeds is dead.
    Waiting,
    Sleeping(u64),
    Stalled(u64),
    /// Waits in the kernel on the word at this address.
    Futex(usize),
    Idle, // handlers
    Dead,
    Done,
}

pub struct Range {
    pub lo: usize,
    pub hi: usize,
    pub write: bool,
}

pub struct Act {
    pub id: usize,
    pub node: usize,
    pub handler: bool,
    pub state: St,
    pub script: Vec<Step>,
    pub pc: usize,
    pub regs: Box<Regs>,
    pub native: Option<fn(*mut Engine, usize)>,
    pub succeeds: Option<usize>,
    pub group: u16,
    pub digests: Vec<u64>,
    /// Durable state of a session that another node may have to resume: keys
    /// and data bytes after the last completed step, which step comes next,
    /// and the answers given so far.
    pub journal: Option<Box<(Regs, usize, Vec<u64>)>>,
    // call in progress
    pub in_call: bool,
    /// Calls with this operation are repeated so often, each time after the
    /// prelude if there is one.
    pub age: (u32, u32),
    pub prelude: Option<(u32, [usize; 2])>,
    /// Repeated rendering: the sink forgets each failure as soon as it has reported it.
    pub wear: bool,
    /// Nothing inside its calls is a scheduling point.
    pub quiet: bool,
    /// Nobody else is let in unless the call goes on for ever.
    pub alone: bool,
    /// The call in progress is one the library must refuse.
    pub refusing: bool,
    pub call: u32,
    pub ev: u32,
    pub next_ev: u32,
    /// The call in progress may take so many steps.
    pub limit: u32,
    pub sched_ev: u32,
    pub force_ev: u32,
    pub hash: u64,
    /// Where the stack was when the call in progress began.
    pub base: usize,
    pub low: usize,
    pub ranges: Vec<Range>,
    pub sink: exec::SinkState,
    // replay
    pub plan: Vec<Plan>,
    pub plan_pos: usize,
    pub park_plan: Vec<Plan>,
    pub parks: u32,
    // fiber
    pub sp: usize,
    /// Where the call in progress returns to if it panics (bare platform).
    pub guard_sp: usize,
    pub stack: (usize, usize),
    pub frames: Vec<usize>,
    pub tls: Vec<u8>,
}

pub struct NodeRt {
    pub name: &'static str,
    pub call: unsafe extern "C" fn(u32, *mut crate::abi::Args) -> i32,
    /// Writable parts of the image (.data, .bss): a static touched there is
    /// state shared between callers.
    pub rw: Vec<(usize, usize)>,
    pub tls: (usize, usize),
    pub tls_init: Vec<u8>,
    pub sizes: crate::exec::Sizes,
    pub ct: bool,
}

pub struct Engine {
    pub armed: bool,
    pub flags: u32,
    pub cur: usize,
    pub fiber: usize,
    pub tick: u64,
    pub cfg: Cfg,
    pub acts: Vec<Act>,
    pub nodes: &'static [NodeRt],
    pub rng: Rng,
    pub replay: bool,
    pub main_sp: usize,
    pub gap_left: u32,
    pub kills_left: u32,
    pub intr_left: u32,
    pub stalls_left: u32,
    pub calls_done: u64,
    pub sched_hash: u64,
    pub arena: (usize, usize),
    pub world: exec::World,
    pub net: crate::net::Net,
    pub deny_alloc: bool,
    pub deny_env: bool,
    pub sink_panics: bool,
    /// Repeated calls are watched like single ones.
    pub strict: bool,
    /// A request that the simulator makes itself, to see that it is denied.
    pub probing: bool,
    pub probed: u32,
    pub stack_limit: usize,
    /// Every caller has processor modes of its own (seed).
    pub modes: Option<u64>,
    /// The work of calls is limited.
    pub work: bool,
    pub started: bool,
    pub race: Option<Box<crate::race::Race>>,
    /// Who ran before the current fiber.
    pub before: usize,
}

pub const F_CHECK: u32 = 1; // check every access against what the call was given
pub const F_HASH: u32 = 2; // fold every event into the caller's event log hash
pub const F_RACE: u32 = 8; // judge unordered accesses to image statics
pub const F_STACK: u32 = 16; // calls get a limited stack
pub const F_HOT: u32 = 4; // prefer to preempt around accesses to image statics

static mut ENG: *mut Engine = core::ptr::null_mut();

pub unsafe fn set(e: *mut Engine) {
    ENG = e;
}

#[inline(always)]
pub fn eng() -> &'static mut Engine {
    unsafe { &mut *ENG }
}

pub fn active() -> bool {
    unsafe { !ENG.is_null() }
}

pub fn sh() -> &'static mut Shared {
    shared::get()
}

// ---------------------------------------------------------------- events

pub const K_BLOCK: u32 = 0;
pub const K_LOAD: u32 = 1;
pub const K_STORE: u32 = 2;
pub const K_SINK: u32 = 3;

#[inline(always)]
pub unsafe fn on_event(addr: usize, size: usize, kind: u32) {
    if ENG.is_null() {
        return;
    }
    let e = &mut *ENG;
    if !e.armed {
        return;
    }
    e.tick += 1;
    let cur = e.cur;
    let a = e.acts.get_unchecked_mut(cur);
    a.ev += 1;
    if e.flags != 0 {
        slow(e, cur, addr, size, kind);
    }
    let a = e.acts.get_unchecked_mut(cur);
    if a.ev >= a.next_ev {
        e.armed = false;
        decide(e);
        e.armed = true;
    }
}

#[inline(never)]
fn slow(e: *mut Engine, cur: usize, addr: usize, size: usize, kind: u32) {
    let e = unsafe { &mut *e };
    if e.flags & F_HASH != 0 {
        let a = &mut e.acts[cur];
        a.hash = fold(a.hash, (addr as u64) ^ ((size as u64) << 48) ^ (u64::from(kind) << 60));
        if let Some((act, call)) = shared::trace_wanted() {
            if act as usize == cur && call == a.call {
                shared::trace_push(addr as u64, size as u32, kind);
            }
        }
    }
    if e.flags & F_STACK != 0 {
        check_stack(e, cur);
    }
    if e.flags & F_RACE != 0 {
        let n = &e.nodes[e.acts[cur].node];
        let st = e.acts[e.fiber].stack;
        let tracked = n.rw.iter().any(|&(lo, hi)| addr >= lo && addr < hi)
            && !(addr >= st.0 && addr < st.1)
            && !(addr >= e.arena.0 && addr < e.arena.1);
        if let Some(r) = &mut e.race {
            r.event(cur, addr, size, kind, tracked);
        }
    }
    if kind == K_LOAD || kind == K_STORE {
        if e.flags & F_CHECK != 0 {
            if addr >= e.arena.0 && addr < e.arena.1 {
                check_access(e, cur, addr, size, kind);
            } else if shadow::is_global(addr) {
                check_variable(e, addr, size, kind);
            }
        }
        if e.flags & F_HOT != 0 {
            let n = &e.nodes[e.acts[cur].node];
            if n.rw.iter().any(|&(lo, hi)| addr >= lo && addr < hi) {
                sh().stat(Stat::HotAccess, 1);
                if !e.replay && e.rng.chance(1, 2) {
                    // the scheduling point comes right after this access
                    let a = &mut e.acts[cur];
                    a.sched_ev = a.ev + e.rng.below(3) as u32;
                    a.next_ev = a.next_ev.min(a.sched_ev);
                }
            }
        }
    }
}

/// How deep the call in progress has gone.
#[inline(never)]
fn check_stack(e: *mut Engine, cur: usize) {
    let e = unsafe { &mut *e };
    let here = 0u8;
    let here = core::ptr::addr_of!(here) as usize;
    let a = &mut e.acts[cur];
    if here < a.low {
        a.low = here;
        let used = a.base - here;
        if used > e.stack_limit {
            let l = e.stack_limit;
            exec::fail(e, shared::V_STACK, alloc::format!("the call ran out of its {l} bytes of stack"));
        }
    }
}

/// The library's own variables have ends, too.
fn check_variable(e: *mut Engine, addr: usize, size: usize, kind: u32) {
    if let Some(what) = shadow::judge(addr, size) {
        let (class, how) = if kind == K_LOAD { (shared::V_OVERREAD, "read") } else { (shared::V_OVERWRITE, "write") };
        exec::fail(unsafe { &mut *e }, class, alloc::format!("{how} of {size} bytes {what}"));
    }
}

#[cold]
#[inline(never)]
fn check_access(e: *mut Engine, cur: usize, addr: usize, size: usize, kind: u32) {
    let e = unsafe { &mut *e };
    let stack = e.acts[e.fiber].stack;
    let end = addr + size;
    if addr >= stack.0 && end <= stack.1 {
        check_variable(e, addr, size, kind);
        return;
    }
    let a = &e.acts[cur];
    let ok = a.ranges.iter().any(|r| addr >= r.lo && end <= r.hi && (kind == K_LOAD || r.write));
    if !ok {
        // a wide access may span adjacent granted ranges
        let mut p = addr;
        while p < end {
            match a.ranges.iter().find(|r| p >= r.lo && p < r.hi && (kind == K_LOAD || r.write)) {
                Some(r) => p = r.hi,
                None => break,
            }
        }
        if p >= end {
            return;
        }
        let what = if kind == K_LOAD { "read" } else { "write" };
        let near = e.world.describe(p);
        exec::fail(
            e,
            if kind == K_LOAD { shared::V_OVERREAD } else { shared::V_OVERWRITE },
            alloc::format!("{what} of {size} bytes outside the memory the call was given, at {near}"),
        );
    }
}

// ---------------------------------------------------------------- decisions

/// A scheduling point of the current activity (inside a call, or at a call
/// boundary when ev is 0).
#[inline(never)]
pub fn decide(e: *mut Engine) {
    let e = unsafe { &mut *e };
    let cur = e.cur;
    let (ev, call) = (e.acts[cur].ev, e.acts[cur].call);
    if ev >= e.cfg.bound {
        let b = e.cfg.bound;
        exec::fail(e, shared::V_UNBOUNDED, alloc::format!("call did not complete within {b} of its own steps"));
    }
    if ev >= e.acts[cur].limit {
        let l = e.acts[cur].limit;
        if e.probing {
            e.probed += 1;
            e.acts[cur].limit = u32::MAX;
            rearm(e, cur);
            return;
        }
        exec::fail(e, shared::V_COST, alloc::format!("the call takes more than {l} steps, far more than such calls take alone"));
    }
    if ev >= e.acts[cur].force_ev {
        // fairness: spinning on something another caller holds must not
        // starve that caller. Deterministic, so not part of the plan.
        e.acts[cur].force_ev = ev.saturating_add(e.cfg.force);
        if let Some(t) = next_ready(e, cur) {
            rearm(e, cur);
            run_other(e, t);
            return;
        }
    }
    if e.replay {
        loop {
            let a = &mut e.acts[cur];
            match a.plan.get(a.plan_pos) {
                Some(p) if (p.call, p.ev) < (call, ev) => a.plan_pos += 1, // passed, cannot apply
                Some(&p) if (p.call, p.ev) == (call, ev) => {
                    a.plan_pos += 1;
                    apply(e, p);
                }
                _ => break,
            }
        }
        rearm(e, cur);
        return;
    }
    let due = ev >= e.acts[cur].sched_ev;
    if due {
        e.acts[cur].sched_ev = ev.saturating_add(gap(e));
    }
    rearm(e, cur);
    if due || ev == 0 {
        if let Some(p) = choose(e) {
            record(p);
            apply(e, p);
        }
    }
}

fn gap(e: *mut Engine) -> u32 {
    let e = unsafe { &mut *e };
    if e.cfg.gap_bits == 0 {
        return e.cfg.gap_fixed;
    }
    (e.rng.log(e.cfg.gap_bits) as u32).saturating_mul(e.cfg.gap_mul.max(1))
}

fn rearm(e: *mut Engine, cur: usize) {
    let e = unsafe { &mut *e };
    let replay = e.replay;
    let bound = e.cfg.bound;
    let a = &mut e.acts[cur];
    if replay {
        a.sched_ev = match a.plan.get(a.plan_pos) {
            Some(p) if p.call == a.call => p.ev,
            _ => u32::MAX,
        };
    }
    a.next_ev = a.sched_ev.min(a.force_ev).min(bound).min(a.limit);
}

pub fn record(p: Plan) {
    sh().plan_push(p);
}

/// More activities than any scenario has.
const MANY: usize = 64;

fn ready_list(e: &Engine, except: usize, out: &mut [usize; MANY]) -> usize {
    let mut n = 0;
    for a in &e.acts {
        if a.id != except && !a.handler && a.state == St::Ready && n < MANY {
            out[n] = a.id;
            n += 1;
        }
    }
    n
}

fn next_ready(e: &Engine, fiber_of: usize) -> Option<usize> {
    let f = if e.acts[fiber_of].handler { e.fiber } else { fiber_of };
    let n = e.acts.len();
    (1..=n).map(|d| (f + d) % n).find(|&i| i != f && !e.acts[i].handler && e.acts[i].state == St::Ready)
}

fn choose(e: *mut Engine) -> Option<Plan> {
    let e = unsafe { &mut *e };
    if !e.started || sh().plan_full() {
        return None;
    }
    let cur = e.cur;
    let a = &e.acts[cur];
    let mut p = Plan { act: cur as u16, kind: 0, pad: 0, call: a.call, ev: a.ev, arg: 0 };
    let c = e.cfg.clone_weights();
    if a.ev == 0 && !e.rng.chance(c.boundary, 100) {
        return None;
    }
    let total = c.switch + c.intr + c.kill + c.stall + c.scramble;
    if total == 0 {
        return None;
    }
    let mut list = [0; MANY];
    let n = ready_list(e, e.fiber, &mut list);
    let mut r = e.rng.below(total);
    if r < c.switch {
        if n == 0 {
            return None;
        }
        p.kind = A_SWITCH;
        p.arg = pick_ready(e, &list[..n]) as u32;
        return Some(p);
    }
    r -= c.switch;
    if r < c.intr {
        let node = e.acts[e.fiber].node;
        if e.intr_left == 0 || e.acts[e.fiber].frames.len() > e.cfg.max_depth {
            return None;
        }
        let mut hs = [0; MANY];
        let mut m = 0;
        for h in &e.acts {
            if h.handler && h.state == St::Idle && h.node == node && m < MANY {
                hs[m] = h.id;
                m += 1;
            }
        }
        if m == 0 {
            return None;
        }
        p.kind = A_INTR;
        p.arg = hs[e.rng.idx(m)] as u32;
        return Some(p);
    }
    r -= c.intr;
    if r < c.kill {
        let f = &e.acts[e.fiber];
        if e.kills_left == 0 || f.native.is_some() {
            return None;
        }
        let succ = e.acts.iter().any(|x| x.succeeds == Some(f.id));
        if n == 0 && !succ {
            return None;
        }
        p.kind = A_KILL;
        p.arg = if n == 0 { 0xffff } else { list[e.rng.idx(n)] as u32 };
        return Some(p);
    }
    r -= c.kill;
    if r < c.stall {
        if e.stalls_left == 0 || n == 0 {
            return None;
        }
        p.kind = A_STALL;
        let calls = e.rng.log(6) as u32;
        p.arg = calls << 16 | list[e.rng.idx(n)] as u32;
        return Some(p);
    }
    p.kind = A_SCRAMBLE;
    p.arg = e.rng.next() as u32;
    Some(p)
}

fn pick_ready(e: *mut Engine, l: &[usize]) -> usize {
    let e = unsafe { &mut *e };
    match e.cfg.pick {
        1 => {
            // round robin
            let f = e.fiber;
            *l.iter().find(|&&x| x > f).unwrap_or(&l[0])
        }
        _ => l[e.rng.idx(l.len())],
    }
}

fn apply(e: *mut Engine, p: Plan) {
    let e = unsafe { &mut *e };
    let cur = e.cur;
    let f = e.fiber;
    let mid = e.acts[cur].in_call && e.acts[cur].ev > 0;
    e.sched_hash = fold(e.sched_hash, u64::from(p.act) << 48 | u64::from(p.kind) << 40 | u64::from(p.arg & 0xffff));
    e.sched_hash = fold(e.sched_hash, u64::from(p.call) << 32 | u64::from(p.ev));
    let ok = |e: &Engine, t: usize| t < e.acts.len() && t != f && !e.acts[t].handler && e.acts[t].state == St::Ready;
    match p.kind {
        A_SWITCH => {
            let t = p.arg as usize;
            if ok(e, t) {
                sh().stat(if mid { Stat::SwitchMid } else { Stat::SwitchBoundary }, 1);
                run_other(e, t);
            }
        }
        A_INTR => {
            let h = p.arg as usize;
            if h < e.acts.len()
                && e.acts[h].handler
                && e.acts[h].state == St::Idle
                && e.acts[h].node == e.acts[f].node
            {
                let d = e.acts[f].frames.len() as u64;
                sh().stat(if mid { Stat::IntrMid } else { Stat::IntrBoundary }, 1);
                if d > 1 {
                    sh().stat(Stat::IntrNested, 1);
                }
                sh().stat_max(Stat::IntrDepth, d);
                e.intr_left = e.intr_left.saturating_sub(1);
                e.acts[h].state = St::Ready;
                e.acts[f].frames.push(h);
                e.cur = h;
                exec::run_handler(e, h);
                let e = eng();
                e.acts[h].state = St::Idle;
                e.acts[f].frames.pop();
                e.cur = cur;
            }
        }
        A_KILL => {
            sh().stat(if mid { Stat::KillMid } else { Stat::KillBoundary }, 1);
            e.kills_left = e.kills_left.saturating_sub(1);
            die(e, p.arg as usize);
        }
        A_STALL => {
            let t = (p.arg & 0xffff) as usize;
            if ok(e, t) {
                sh().stat(if mid { Stat::StallMid } else { Stat::StallBoundary }, 1);
                e.stalls_left = e.stalls_left.saturating_sub(1);
                e.acts[f].state = St::Stalled(e.calls_done + u64::from(p.arg >> 16));
                run_other(e, t);
            }
        }
        A_SCRAMBLE => {
            sh().stat(Stat::Scramble, 1);
            exec::scramble(e, p.arg);
        }
        _ => {}
    }
}

/// The current fiber dies here; nothing of it runs again.
fn die(e: *mut Engine, next: usize) {
    let e = unsafe { &mut *e };
    let f = e.fiber;
    e.acts[f].state = St::Dead;
    let n = e.acts.len();
    for i in 0..n {
        if e.acts[i].succeeds == Some(f) && e.acts[i].state == St::Waiting {
            e.acts[i].state = St::Ready;
            sh().stat(Stat::Failover, 1);
        }
    }
    let t = if next < n && !e.acts[next].handler && e.acts[next].state == St::Ready && next != f {
        Some(next)
    } else {
        None
    };
    leave(e, t);
    unreachable!();
}

fn wake(e: *mut Engine) {
    let e = unsafe { &mut *e };
    let (tick, done) = (e.tick, e.calls_done);
    for a in &mut e.acts {
        match a.state {
            St::Sleeping(t) if t <= tick => a.state = St::Ready,
            St::Stalled(c) if c <= done => a.state = St::Ready,
            _ => {}
        }
    }
}

/// The current fiber cannot go on (dead, done, asleep, blocked): run somebody
/// else, jumping the clock if nobody is ready; back to main if all is over.
pub fn leave(e: *mut Engine, want: Option<usize>) {
    let e = unsafe { &mut *e };
    let f = e.fiber;
    let target = match want {
        Some(t) => Some(t),
        None => {
            wake(e);
            if !e.acts.iter().any(|a| !a.handler && a.state == St::Ready) {
                // release the longest-stalled, or jump the clock
                let next = e.acts.iter().filter_map(|a| if let St::Sleeping(t) = a.state { Some(t) } else { None }).min();
                let stalled = e.acts.iter().filter_map(|a| if let St::Stalled(c) = a.state { Some(c) } else { None }).min();
                if let Some(c) = stalled {
                    for a in &mut e.acts {
                        if a.state == St::Stalled(c) {
                            a.state = St::Ready;
                        }
                    }
                } else if let Some(t) = next {
                    sh().stat(Stat::ClockJump, 1);
                    e.tick = e.tick.max(t);
                    wake(e);
                }
            }
            let mut list = [0; MANY];
            let n = ready_list(e, usize::MAX, &mut list);
            if n == 0 {
                None
            } else {
                let nth = e.acts[f].parks;
                e.acts[f].parks += 1;
                let chosen = if e.replay {
                    let a = &e.acts[f];
                    a.park_plan
                        .iter()
                        .find(|p| p.call == nth)
                        .map(|p| p.arg as usize)
                        .filter(|t| list[..n].contains(t))
                        .unwrap_or(list[0])
                } else {
                    let t = list[e.rng.idx(n)];
                    if n > 1 {
                        record(Plan { act: f as u16, kind: A_PARK, pad: 0, call: nth, ev: 0, arg: t as u32 });
                    }
                    t
                };
                Some(chosen)
            }
        }
    };
    match target {
        Some(t) if t == f => {}
        Some(t) => to_fiber(e, t),
        None => {
            // all over, or a deadlock: main finds out
            unsafe {
                let save: *mut usize = &mut e.acts[f].sp;
                let to = e.main_sp;
                swap(e, save, to);
            }
        }
    }
}

/// Between two calls: lets the given activity go on, or the next one. Part of
/// what the current one does, not of the schedule.
pub fn give_way(e: *mut Engine, to: Option<usize>) {
    let e = unsafe { &mut *e };
    wake(e);
    let f = e.fiber;
    let ok = |t: usize| t != f && !e.acts[t].handler && e.acts[t].state == St::Ready;
    if let Some(t) = to.filter(|&t| ok(t)).or_else(|| next_ready(e, f)) {
        to_fiber(e, t);
    }
}

fn run_other(e: *mut Engine, t: usize) {
    let e = unsafe { &mut *e };
    wake(e);
    to_fiber(e, t);
}

/// Switches stacks; a fiber's processor modes stay with it.
unsafe fn swap(e: *mut Engine, save: *mut usize, to: usize) {
    if (*e).modes.is_none() {
        ctx::switch(save, to);
        return;
    }
    let m = modes::get();
    ctx::switch(save, to);
    modes::set(m);
}

fn to_fiber(e: *mut Engine, t: usize) {
    let e = unsafe { &mut *e };
    let f = e.fiber;
    if f == t {
        return;
    }
    let cur = e.cur;
    tls_swap(e, f, t);
    e.before = f;
    e.fiber = t;
    e.cur = *e.acts[t].frames.last().unwrap();
    unsafe {
        let save: *mut usize = &mut e.acts[f].sp;
        let to = e.acts[t].sp;
        swap(e, save, to);
    }
    // resumed
    let e = eng();
    e.fiber = f;
    e.cur = cur;
}

fn tls_swap(e: *mut Engine, f: usize, t: usize) {
    let e = unsafe { &mut *e };
    let (nf, nt) = (e.acts[f].node, e.acts[t].node);
    unsafe {
        let (p, l) = e.nodes[nf].tls;
        if l > 0 {
            core::ptr::copy_nonoverlapping(p as *const u8, e.acts[f].tls.as_mut_ptr(), l);
        }
        let (p, l) = e.nodes[nt].tls;
        if l > 0 {
            core::ptr::copy_nonoverlapping(e.acts[t].tls.as_ptr(), p as *mut u8, l);
        }
    }
}

/// First function on a fiber.
pub extern "C" fn fiber_main() -> ! {
    let e = eng();
    let f = e.fiber;
    if e.modes.is_some() {
        modes::reset();
    }
    match e.acts[f].native {
        Some(g) => g(e, f),
        None => exec::run_script(e, f),
    }
    let e = eng();
    e.acts[f].state = St::Done;
    leave(e, None);
    unreachable!();
}

/// Runs every activity to its end. Called on the main stack.
pub fn run_all(e: *mut Engine, first: usize) {
    let e = unsafe { &mut *e };
    e.fiber = first;
    e.cur = first;
    unsafe {
        let (p, l) = e.nodes[e.acts[first].node].tls;
        if l > 0 {
            core::ptr::copy_nonoverlapping(e.acts[first].tls.as_ptr(), p as *mut u8, l);
        }
        let save: *mut usize = &mut e.main_sp;
        let to = e.acts[first].sp;
        swap(e, save, to);
    }
}

// ---------------------------------------------------------------- calls

/// As `call`; an ageing activity repeats the call many times.
pub fn call(id: usize, word: u32, args: &mut crate::abi::Args) -> i32 {
    use crate::abi;
    let (op, n) = eng().acts[id].age;
    if n == 0 || word & 0xff != op {
        return call_once(id, word, args);
    }
    let zero = || abi::Args { p: [core::ptr::null_mut(); 6], n: [0; 6], sink: None, ctx: core::ptr::null_mut() };
    let mut pre = zero();
    let mut outer = zero();
    outer.p[0] = (args as *mut abi::Args).cast();
    outer.n[1] = word as usize;
    if let Some((w, p)) = eng().acts[id].prelude {
        (pre.p[0], pre.p[1]) = (p[0] as *mut u8, p[1] as *mut u8);
        outer.p[3] = core::ptr::addr_of_mut!(pre).cast();
        outer.n[3] = w as usize;
    }
    let width = 16 << (word >> 8 & 0xf);
    match op {
        abi::EQ | abi::SPLIT | abi::KEY_NEW | abi::KEY_CONV | abi::KEY_CLONE => {}
        abi::FMT | abi::KEY_FMT => {}
        abi::BYTES => (outer.p[1], outer.n[2]) = (args.p[0], width),
        abi::STORE => (outer.p[1], outer.n[2]) = (args.p[0], args.n[0].min(width)),
        _ => (outer.p[1], outer.n[2]) = (args.p[5], width),
    }
    let (mut left, mut first) = (n, None);
    while left > 0 {
        let k = left.min(if eng().work { 1 } else { 64 });
        left -= k;
        outer.n[0] = k as usize;
        sh().stat(Stat::Aged, u64::from(k));
        // however long the whole takes, each part is short
        crate::platform::in_child();
        let r = call_once(id, abi::word(abi::AGE, 0, 0, 0, 0), &mut outer);
        if *first.get_or_insert(r) != r || r == abi::AGED {
            let e = eng();
            let m = alloc::format!("the same {} gave another answer after {} repetitions", crate::scen::op_name(op as u8), n - left);
            crate::exec::fail(e, crate::shared::V_RESULT, m);
        }
    }
    first.unwrap_or(0)
}

/// The kind of a call as far as its work is concerned, and how many units of
/// that it asks for.
fn kind_of(word: u32, args: &crate::abi::Args) -> (usize, u32) {
    use crate::abi;
    let op = word & 0xff;
    // text takes as many steps as it has digits
    if matches!(op, abi::FMT | abi::KEY_FMT) {
        return ((op | (word >> 8 & 3) << 5 | (word >> 12 & 3) << 7) as usize, 1);
    }
    let sub = match op {
        abi::ROUND | abi::CHAIN | abi::MC => word >> 20 & 3,
        _ => word >> 16 & 1,
    };
    let k = op & 31 | (word >> 8 & 3) << 5 | (word >> 12 & 3) << 7 | (sub & 3) << 9;
    (k as usize, if op == abi::CHAIN { args.n[0].max(1) as u32 } else { 1 })
}

/// No call takes more than four times what it takes alone, and a little.
fn limit_of(node: usize, word: u32, args: &crate::abi::Args) -> u32 {
    use crate::abi;
    let inner = |p: *mut u8, w: usize| limit_of(node, w as u32, unsafe { &*p.cast::<abi::Args>() });
    match word & 0xff {
        abi::AGE => {
            let pre = if args.p[3].is_null() { 0 } else { inner(args.p[3], args.n[3]) };
            // the comparisons of the results are not the library's work
            inner(args.p[0], args.n[1]).saturating_add(pre).saturating_mul(args.n[0] as u32).saturating_add(800)
        }
        abi::ENV_SELFTEST if sh().learning == 0 => SPARE_WORK,
        abi::KEY_DROP | abi::ALLOC_SELFTEST | abi::ENV_SELFTEST => u32::MAX,
        _ => {
            let (k, n) = kind_of(word, args);
            match sh().costs[node][k] {
                0 => u32::MAX,
                c => c.saturating_mul(4).saturating_mul(n).saturating_add(SPARE_WORK),
            }
        }
    }
}

const SPARE_WORK: u32 = 250;

#[inline(never)]
fn note_work(e: &Engine, id: usize, word: u32, args: &crate::abi::Args) {
    let a = &e.acts[id];
    let s = sh();
    if s.learning == 0 {
        if a.limit != u32::MAX {
            s.stat(Stat::CostChecked, 1);
            s.stat_max(Stat::MaxCost, u64::from(a.ev) * 100 / u64::from(a.limit));
        }
    } else if word & 0xff != crate::abi::AGE {
        let (k, n) = kind_of(word, args);
        let c = &mut s.costs[a.node][k];
        *c = (*c).max(a.ev / n).max(1);
    }
}

/// One call into the library by activity `id`, every event of it a
/// scheduling point.
fn call_once(id: usize, word: u32, args: &mut crate::abi::Args) -> i32 {
    let e = eng();
    let f = e.nodes[e.acts[id].node].call;
    {
        let left = e.gap_left;
        let force = e.cfg.force;
        let work = e.work;
        let a = &mut e.acts[id];
        a.call += 1;
        a.ev = 0;
        a.hash = u64::from(word);
        a.force_ev = if a.alone || a.quiet { force * 16 } else { force };
        a.sched_ev = if a.alone || a.quiet { u32::MAX } else { left };
        a.in_call = true;
        a.limit = if work && sh().learning == 0 { limit_of(a.node, word, &*args) } else { u32::MAX };
    }
    {
        let s = sh();
        (s.act, s.step, s.call) = (id as u32, e.acts[id].regs.cur_step as u32, e.acts[id].call);
    }
    // call boundary
    rearm(e, id);
    wake(e);
    if !e.acts[id].alone && !e.acts[id].quiet {
        decide(e);
    }
    let e = eng();
    let here = 0u8;
    e.acts[id].base = core::ptr::addr_of!(here) as usize;
    e.acts[id].low = e.acts[id].base;
    // what a call asks for counts however often it has been made before
    let own = e.modes.map(|seed| {
        if modes::WORKS { sh().stat(Stat::ModesSet, 1); }
        (modes::get(), modes::enter(seed, id, e.acts[id].call, e.probing))
    });
    e.armed = !e.acts[id].quiet || e.strict;
    let r = crate::platform::guarded_call(f, word, args);
    let e = eng();
    e.armed = false;
    if let Some((before, want)) = own {
        let diff = modes::changed(&want);
        modes::set(before);
        match diff {
            Some(_) if e.probing => e.probed += 1,
            Some((what, a, b)) => {
                exec::fail(e, shared::V_STATE, alloc::format!("the call changed {what}: {a:#x} became {b:#x}"));
            }
            None => {}
        }
    }
    if let Some(r) = &mut e.race {
        r.settle(id);
    }
    let a = &mut e.acts[id];
    a.in_call = false;
    e.gap_left = if a.alone || a.quiet {
        e.gap_left
    } else if a.sched_ev == u32::MAX {
        u32::MAX
    } else { a.sched_ev.saturating_sub(a.ev).max(1) };
    if e.replay {
        // entries of this call that were never reached cannot apply any more
        let c = a.call;
        while let Some(p) = a.plan.get(a.plan_pos) {
            if p.call <= c {
                a.plan_pos += 1;
            } else {
                break;
            }
        }
    }
    let used = a.base - a.low;
    if e.work {
        note_work(e, id, word, args);
    }
    let a = &mut e.acts[id];
    let (ev, hash, c) = (a.ev, a.hash, a.call);
    e.calls_done += 1;
    let s = sh();
    s.stat(Stat::Calls, 1);
    s.stat(Stat::Events, u64::from(ev));
    s.stat_max(Stat::MaxCallEvents, u64::from(ev));
    if e.flags & F_STACK != 0 {
        s.stat_max(Stat::MaxStack, used as u64);
    }
    if e.flags & F_HASH != 0 {
        s.hash_push(id as u32, c, ev, hash);
    }
    s.digest = fold(s.digest, fold(u64::from(word) ^ (id as u64) << 40, u64::from(ev)) ^ r as u32 as u64);
    r
}

/// The sink (simulator code) reached during a call: also a scheduling point.
pub fn sink_point() {
    let e = eng();
    e.tick += 1;
    let cur = e.cur;
    e.acts[cur].ev += 1;
    if e.acts[cur].ev >= e.acts[cur].next_ev {
        decide(e);
    }
}

/// A native activity waits for simulated time to pass.
pub fn sleep_until(e: *mut Engine, t: u64) {
    let e = unsafe { &mut *e };
    let f = e.fiber;
    e.acts[f].state = St::Sleeping(t);
    leave(e, None);
}

/// The code under test waits in the kernel on a futex word.
pub fn futex_wait(addr: usize) {
    let e = eng();
    let f = e.fiber;
    sh().stat(Stat::FutexWait, 1);
    e.armed = false;
    e.acts[f].state = St::Futex(addr);
    leave(e, None);
    let e = eng();
    if let Some(r) = &mut e.race {
        r.unknown_sync(f);
    }
    e.armed = true;
}

pub fn futex_wake(addr: usize, mut n: usize) -> usize {
    let e = eng();
    let mut woken = 0;
    for a in &mut e.acts {
        if n > 0 && a.state == St::Futex(addr) {
            a.state = St::Ready;
            n -= 1;
            woken += 1;
        }
    }
    woken
}

/// sched_yield and friends from the code under test.
pub fn yield_now() {
    let e = eng();
    e.armed = false;
    if let Some(t) = next_ready(e, e.cur) {
        run_other(e, t);
    }
    eng().armed = true;
}
