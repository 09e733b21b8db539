//! Executes the steps of an activity against the real library and judges
//! every result against the reference model.

use crate::abi::{self, word, Args};
use crate::engine::{self, eng, sh, Act, Engine, NodeRt, Plan, Range, St};
use crate::model::{Model, B16};
use crate::platform;
use crate::prng::{fold, fold_bytes, Rng};
use crate::scen::*;
use crate::shared::*;
use crate::sys;
use alloc::boxed::Box;
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;

pub const NC: usize = 6;
pub const NB: usize = 4;
pub const NCHAIN: usize = 16;
pub const LIT: u16 = 0xffff;
const O_VERIFY: u32 = S_VERIFY as u32;
const O_ENDUR: u32 = S_ENDUR as u32;
const O_PROBE: u32 = S_PROBE as u32;
const O_WEAR: u32 = S_WEAR as u32;
const O_LAP: u32 = S_LAP as u32;
const O_STREAM: u32 = S_STREAM as u32;
const O_SLEEP: u32 = S_SLEEP as u32;
pub const SHARED: u16 = 100;
pub const OUTER: u16 = 200;

pub const IN_LEN: usize = 96;
pub const OUT_LEN: usize = 96;
/// Room for slices whose length does not fit in 8 or 16 bits.
/// Where objects lie that are far apart.
const FAR: usize = (1u64 << (usize::BITS / 2 + 8) % 64) as usize;
const BIG_LEN: usize = 33 * PAGE;
pub const AUX_LEN: usize = 64;
pub const KEY_LEN: usize = 32;
pub const PAGE: usize = 4096;
const STACK: usize = 512 * 1024;
/// What a call may use of it (C15).
const STACK_LIMIT: usize = 32 << 10;

pub fn width(w: u8) -> usize {
    16 << w
}
pub fn klen(ks: usize) -> usize {
    16 + 8 * ks
}

#[derive(Clone, Copy, Default)]
pub struct Sizes {
    pub block: [(usize, usize); 3],
    pub cipher: [(usize, usize); 3],
}

#[derive(Clone, Copy, Default)]
pub struct CReg {
    pub addr: usize,
    pub def: bool,
    pub dir: u8,
    pub key: [u8; 32],
}

#[derive(Clone, Copy)]
pub struct BReg {
    pub addr: usize,
    pub def: bool,
    pub val: [u8; 64],
}

impl Default for BReg {
    fn default() -> Self {
        BReg { addr: 0, def: false, val: [0; 64] }
    }
}

#[derive(Clone, Copy, Default)]
pub struct Buf {
    pub lo: usize,
    pub len: usize,
}

#[derive(Clone, Default)]
pub struct Regs {
    pub c: [CReg; NC],
    pub busy: [bool; NC],
    pub b: [[BReg; NB + 2]; 3],
    pub chain: [usize; 3],
    pub input: Buf,
    pub output: Buf,
    pub aux: Buf,
    pub key: Buf,
    /// A large buffer between two unmapped pages, mapped when first used.
    pub big: Buf,
    /// One page between two unmapped pages.
    pub edge: [usize; 2],
    /// Bytes of the input buffer that have not been received yet.
    pub future: (usize, usize),
    /// What a fault-free rendering of a cipher gave: (key hash, text).
    pub renderings: Vec<(u64, Vec<u8>)>,
    pub cur_step: usize,
}

#[derive(Clone, Default)]
pub struct SinkState {
    pub fail_at: u32,
    pub accept: usize,
    pub writes: u32,
    pub failed: bool,
    pub after: u32,
    /// The sink does not report its failure but panics.
    pub panics: bool,
    pub got: Vec<u8>,
}

pub struct World {
    pub model: Model,
    pub rk: Vec<([u8; 32], usize, [B16; 15], usize)>,
    pub strip: (usize, usize),
    pub shadow: Vec<u8>,
    /// Bytes whose content is unknown for ever: destinations of killed calls.
    pub unknown: Vec<(usize, usize)>,
    pub extents: Vec<(usize, usize, String)>,
    pub setup_of: Vec<usize>,
}

impl World {
    pub fn describe(&self, addr: usize) -> String {
        for (lo, hi, n) in &self.extents {
            if addr >= *lo && addr < *hi {
                return format!("{n}+{}", addr - lo);
            }
        }
        "unassigned memory".to_string()
    }
    pub fn keys(&mut self, key: &[u8]) -> (&[B16; 15], usize) {
        let mut k = [0; 32];
        k[..key.len()].copy_from_slice(key);
        if let Some(i) = self.rk.iter().position(|x| x.0 == k && x.1 == key.len()) {
            let x = &self.rk[i];
            return (&x.2, x.3);
        }
        let mut rk = [[0; 16]; 15];
        let nr = self.model.expand(key, &mut rk);
        if self.rk.len() >= 24 {
            self.rk.remove(0);
        }
        self.rk.push((k, key.len(), rk, nr));
        let x = self.rk.last().unwrap();
        (&x.2, x.3)
    }
    pub fn crypt(&mut self, key: &[u8], dir: u8, v: &mut [u8]) {
        let (rk, nr) = {
            let (r, n) = self.keys(key);
            (*r, n)
        };
        for c in v.chunks_exact_mut(16) {
            let b: &mut B16 = c.try_into().unwrap();
            *b = if dir == 0 { self.model.encrypt_rk(&rk, nr, b) } else { self.model.decrypt_rk(&rk, nr, b) };
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit(u32::from(x >> 4), 16).unwrap());
        s.push(char::from_digit(u32::from(x & 15), 16).unwrap());
    }
    s
}

/// Records a violation and ends the run.
pub fn fail(e: *mut Engine, class: u32, msg: String) -> ! {
    let e = unsafe { &mut *e };
    e.armed = false;
    if e.modes.is_some() {
        crate::modes::reset();
    }
    let s = sh();
    if s.warm == 1 {
        // not a run that counts; give up on it
        s.warm = 2;
        unsafe {
            let mut here = 0;
            crate::ctx::switch(&mut here, e.main_sp);
        }
    }
    let a = &e.acts[e.cur];
    s.vclass = class;
    s.act = a.id as u32;
    s.step = a.regs.cur_step as u32;
    s.call = a.call;
    s.ev = a.ev;
    s.tick = e.tick;
    s.sched_hash = e.sched_hash;
    let m = msg.as_bytes();
    let n = m.len().min(s.msg.len());
    s.msg[..n].copy_from_slice(&m[..n]);
    s.msg_len = n as u32;
    s.finished = 1;
    unsafe { sys::exit(0) }
}

// ---------------------------------------------------------------- set-up

fn align_up(x: usize, a: usize) -> usize {
    (x + a - 1) & !(a - 1)
}

/// Lays out stacks, byte buffers and object slots and creates the activities.
pub fn build(sc: &Scenario, nodes: &'static [NodeRt], plan: Option<&[Plan]>) -> Box<Engine> {
    let n = sc.acts.len();
    let mut lay = Rng::derive(sc.layout, "layout", 0);
    let base_hint = if cfg!(target_pointer_width = "64") { 0x5_0000_0000u64 as usize } else { 0x5000_0000 };
    // room for every level of nesting
    let stack = if sc.cfg.max_depth > 6 { 4 * STACK } else { STACK };
    let stacks = n * (stack + PAGE) + PAGE;
    let edges = if sc.cfg.edge { n * 4 * PAGE + PAGE } else { 0 };
    let data = 256 * 1024;
    let bigs = n * (BIG_LEN + PAGE);
    let total = stacks + edges + data + bigs + 2 * PAGE;
    let mut base;
    unsafe {
        base = sys::mmap(base_hint, total, sys::PROT_NONE, sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_FIXED);
        if base == 0 {
            base = sys::mmap(0, total, sys::PROT_NONE, sys::MAP_PRIVATE | sys::MAP_ANON);
        }
    }
    assert!(base != 0, "mmap");
    unsafe { crate::shadow::fresh(base, base + total) };
    let mut extents = Vec::new();
    let mut acts = Vec::new();
    for (i, s) in sc.acts.iter().enumerate() {
        let lo = base + PAGE + i * (stack + PAGE);
        let hi = lo + stack;
        unsafe {
            if !s.handler {
                sys::mprotect(lo, stack, sys::PROT_RW);
                if sc.cfg.garbage {
                    let g = lay.next() as u8 | 1;
                    core::ptr::write_bytes((hi - 32 * 1024) as *mut u8, g, 32 * 1024);
                }
            }
        }
        extents.push((lo, hi, format!("stack of a{i}")));
        let sp = if s.handler { 0 } else { unsafe { crate::ctx::prepare(hi) } };
        let mut p: Vec<Plan> = Vec::new();
        let mut park: Vec<Plan> = Vec::new();
        if let Some(pl) = plan {
            p = pl.iter().copied().filter(|x| x.act as usize == i && x.kind < engine::A_NET).collect();
            p.sort_by_key(|x| (x.call, x.ev));
            park = pl.iter().copied().filter(|x| x.act as usize == i && x.kind == engine::A_PARK).collect();
        }
        acts.push(Act {
            id: i,
            node: s.node,
            handler: s.handler,
            state: St::Idle,
            script: s.script.clone(),
            pc: 0,
            regs: Box::default(),
            native: s.native,
            succeeds: s.succeeds,
            group: s.group,
            digests: Vec::new(),
            journal: None,
            in_call: false,
            refusing: false,
            age: (0, 0),
            prelude: None,
            wear: false,
            quiet: false,
            alone: false,
            call: 0,
            ev: 0,
            next_ev: u32::MAX,
            limit: u32::MAX,
            sched_ev: u32::MAX,
            force_ev: u32::MAX,
            hash: 0,
            base: 0,
            low: 0,
            ranges: Vec::with_capacity(12),
            sink: SinkState::default(),
            plan: p,
            plan_pos: 0,
            park_plan: park,
            parks: 0,
            sp,
            guard_sp: 0,
            stack: (lo, hi),
            frames: vec![i],
            tls: nodes[s.node].tls_init.clone(),
        });
    }
    for (i, a) in acts.iter_mut().enumerate() {
        let lo = base + stacks + edges + data + 2 * PAGE + i * (BIG_LEN + PAGE);
        a.regs.big = Buf { lo, len: 0 };
        extents.push((lo, lo + BIG_LEN, format!("big buffer of a{i}")));
    }
    // edge pages
    if sc.cfg.edge {
        let e0 = base + stacks;
        for (i, a) in acts.iter_mut().enumerate() {
            for k in 0..2 {
                let pg = e0 + PAGE + (i * 2 + k) * 2 * PAGE;
                unsafe {
                    sys::mprotect(pg, PAGE, sys::PROT_RW);
                    core::ptr::write_bytes(pg as *mut u8, 0x5a, PAGE);
                }
                a.regs.edge[k] = pg;
                extents.push((pg, pg + PAGE, format!("edge page {k} of a{i}")));
            }
        }
    }
    // byte strip: every buffer of every activity, in random order, often
    // without a gap
    let d0 = base + stacks + edges + PAGE;
    let d1 = d0 + data;
    unsafe {
        sys::mprotect(d0, data, sys::PROT_RW);
        let fill = if sc.cfg.garbage { lay.next() as u8 } else { 0 };
        core::ptr::write_bytes(d0 as *mut u8, fill, data);
    }
    let mut items: Vec<(usize, u8, usize)> = Vec::new();
    for i in 0..n {
        items.push((i, 0, IN_LEN));
        items.push((i, 1, OUT_LEN));
        items.push((i, 2, AUX_LEN));
        items.push((i, 3, KEY_LEN));
    }
    for i in (1..items.len()).rev() {
        items.swap(i, lay.idx(i + 1));
    }
    let tight = lay.chance(1, 2);
    let mut p = d0 + lay.idx(64);
    let strip_lo = d0;
    for (i, k, len) in items {
        if !tight {
            p += lay.idx(20);
        }
        let b = Buf { lo: p, len };
        let nm = match k {
            0 => {
                acts[i].regs.input = b;
                "input"
            }
            1 => {
                acts[i].regs.output = b;
                "output"
            }
            2 => {
                acts[i].regs.aux = b;
                "aux"
            }
            _ => {
                acts[i].regs.key = b;
                "key"
            }
        };
        extents.push((p, p + len, format!("{nm} buffer of a{i}")));
        p += len;
    }
    let strip_hi = align_up(p + 64, PAGE);
    // object slots
    let mut slots: Vec<(usize, u8, u8, u8)> = Vec::new(); // act, kind, index, sub
    for i in 0..n {
        for c in 0..NC {
            slots.push((i, 0, c as u8, 0));
        }
        for w in 0..3 {
            for b in 0..NB + 2 {
                slots.push((i, 1, b as u8, w));
            }
            slots.push((i, 2, 0, w));
        }
    }
    for i in (1..slots.len()).rev() {
        slots.swap(i, lay.idx(i + 1));
    }
    // sorted by alignment class keeps neighbours exactly adjacent
    if lay.chance(1, 2) {
        slots.sort_by_key(|&(i, k, x, w)| {
            let z = &nodes[sc.acts[i].node].sizes;
            if k == 0 {
                z.cipher[x as usize % 3].1
            } else {
                z.block[w as usize].1
            }
        });
    }
    // now and then objects lie far apart, at addresses that agree in their low bits
    let mut far = 0;
    let (mut far_n, far_at) = (0, lay.idx(56) * 64);
    if cfg!(target_pointer_width = "64") && n <= 12 && lay.chance(1, 8) {
        far = [PAGE, 1 << 16, 1 << 20, 1usize << (usize::BITS / 2)][lay.idx(4)];
    }
    let mut p = strip_hi;
    for (i, k, x, w) in slots {
        let z = &nodes[sc.acts[i].node].sizes;
        let (size, align) = if k == 0 { z.cipher[x as usize % 3] } else { z.block[w as usize] };
        let total = if k == 2 { size * NCHAIN } else { size };
        let near = p;
        // alike modulo the stride, one to a page
        let distant = far != 0 && k < 2 && x < 4 && size <= 512;
        if distant {
            p = FAR + far_n * far;
            unsafe {
                let flags = sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_FIXED;
                assert!(sys::mmap(p, PAGE, sys::PROT_RW, flags) == p, "mmap");
            }
            p += far_at;
            far_n += 1;
        }
        p = align_up(p, align);
        let r = &mut acts[i].regs;
        let nm = match k {
            0 => {
                r.c[x as usize].addr = p;
                format!("cipher c{x} of a{i}")
            }
            1 => {
                r.b[w as usize][x as usize].addr = p;
                format!("block b{x} (x{}) of a{i}", 1 << w)
            }
            _ => {
                r.chain[w as usize] = p;
                format!("key list (x{}) of a{i}", 1 << w)
            }
        };
        extents.push((p, p + total, nm));
        p = if distant { near } else { p + total };
    }
    assert!(p < d1, "arena too small");
    // flush the object slots against the end of the mapping
    let tail = align_up(p, PAGE);
    unsafe {
        sys::mprotect(tail, d1 - tail, sys::PROT_NONE);
        // recognisable content of the strip
        for q in strip_lo..strip_hi {
            *(q as *mut u8) = lay.next() as u8;
        }
    }
    let shadow = unsafe { core::slice::from_raw_parts(strip_lo as *const u8, strip_hi - strip_lo).to_vec() };
    let mut setup_of = vec![usize::MAX; nodes.len()];
    for (i, s) in sc.acts.iter().enumerate() {
        if s.setup {
            setup_of[s.node] = i;
        }
    }
    let world = World {
        model: Model::new(),
        rk: Vec::new(),
        strip: (strip_lo, strip_hi),
        shadow,
        unknown: Vec::new(),
        extents,
        setup_of,
    };
    let mut flags = 0;
    if sc.cfg.check_access {
        flags |= engine::F_CHECK;
    }
    if sc.cfg.hash_events {
        flags |= engine::F_HASH;
    }
    if sc.prop == 15 {
        flags |= engine::F_STACK;
    }
    if sc.cfg.hot {
        flags |= engine::F_HOT;
    }
    let race = (sc.prop == 2 && acts.len() <= crate::race::MAX_ACTS).then(|| crate::race::Race::new(sc.sched));
    if race.is_some() {
        flags |= engine::F_RACE;
    }
    let net_plan: Vec<Plan> = plan
        .map(|pl| pl.iter().copied().filter(|x| x.kind == engine::A_NET).collect())
        .unwrap_or_default();
    Box::new(Engine {
        armed: false,
        flags,
        cur: 0,
        fiber: 0,
        tick: 0,
        cfg: sc.cfg.clone(),
        acts,
        nodes,
        rng: Rng::derive(sc.sched, "schedule", 0),
        replay: plan.is_some(),
        main_sp: 0,
        gap_left: u32::MAX,
        kills_left: sc.cfg.kills,
        intr_left: sc.cfg.intrs,
        stalls_left: sc.cfg.stalls,
        calls_done: 0,
        sched_hash: 0,
        arena: (base, base + total),
        world,
        net: crate::net::Net::new(sc, net_plan),
        deny_alloc: sc.cfg.deny_alloc,
        deny_env: sc.prop == 14,
        sink_panics: matches!(sc.prop, 3 | 7 | 9),
        strict: sc.prop >= 13,
        probing: false,
        probed: 0,
        stack_limit: STACK_LIMIT,
        modes: (sc.prop == 16).then_some(sc.sched),
        work: sc.prop == 17,
        started: false,
        race,
        before: 0,
    })
}

/// One whole run, in a child process. Returns normally if nothing is wrong.
pub fn run(sc: &Scenario, e: *mut Engine) {
    let e = unsafe { &mut *e };
    unsafe { engine::set(e) };
    // set-up activities, one at a time and undisturbed unless asked
    let n = e.acts.len();
    for i in 0..n {
        if sc.acts[i].setup {
            e.acts[i].state = St::Ready;
            engine::run_all(e, i);
            if sh().warm == 2 {
                return;
            }
            if e.acts[i].state != St::Done {
                fail(e, V_BLOCKED, "set-up did not finish".to_string());
            }
        }
    }
    let mut first = None;
    for i in 0..n {
        if sc.acts[i].setup {
            continue;
        }
        let a = &mut e.acts[i];
        a.state = if a.handler {
            St::Idle
        } else if a.succeeds.is_some() {
            St::Waiting
        } else {
            if first.is_none() {
                first = Some(i);
            }
            St::Ready
        };
    }
    e.started = true;
    // limits and deadlines count from here
    e.tick = 0;
    if let Some(r) = &mut e.race {
        r.fork();
    }
    e.gap_left = if e.replay { u32::MAX } else { e.rng.log(8) as u32 };
    if let Some(f) = first {
        engine::run_all(e, f);
    }
    if sh().warm != 0 {
        return;
    }
    for i in 0..n {
        if matches!(e.acts[i].state, St::Futex(_) | St::Sleeping(_) | St::Stalled(_) | St::Ready) {
            e.cur = i;
            let dead = e.acts.iter().any(|a| a.state == St::Dead);
            let m = format!(
                "a{i} waits for ever inside a call{}",
                if dead { " for a caller that was killed" } else { "" }
            );
            fail(e, V_BLOCKED, m);
        }
    }
    // final state: everything the survivors own still has its value
    e.started = false;
    e.flags &= !engine::F_RACE;
    e.race = None;
    for i in 0..n {
        if e.acts[i].state == St::Done && e.acts[i].native.is_none() || e.acts[i].handler {
            e.cur = i;
            e.fiber = i;
            if e.cfg.final_verify && !e.acts[i].handler {
                // on the main stack, no preemption; the checks still apply
                let st = e.acts[i].stack;
                e.acts[i].stack = (0, usize::MAX);
                tls_load(e, i);
                verify_regs(e, i);
                e.acts[i].stack = st;
            }
        }
    }
    check_strip(e);
    crate::net::finish(e);
    let s = sh();
    s.tick = e.tick;
    s.stat(Stat::TicksSimulated, e.tick);
    s.sched_hash = e.sched_hash;
    let mut rd = 0u64;
    for a in &e.acts {
        for (i, d) in a.digests.iter().enumerate() {
            if *d != 0 {
                s.dig_push(a.id as u32, i as u32, *d);
                rd = fold(rd, *d ^ (a.id as u64) << 32);
            }
        }
    }
    s.result_digest = rd;
    if let Some((x, y, st)) = crate::scen::diverged(sc, e) {
        e.cur = x;
        let m = format!(
            "replicas a{x} ({}) and a{y} ({}) answered step {st} differently",
            e.nodes[e.acts[x].node].name, e.nodes[e.acts[y].node].name
        );
        fail(e, V_DIVERGED, m);
    }
    s.finished = 1;
}

fn tls_load(e: *mut Engine, i: usize) {
    let e = unsafe { &mut *e };
    let (p, l) = e.nodes[e.acts[i].node].tls;
    if l > 0 {
        unsafe { core::ptr::copy_nonoverlapping(e.acts[i].tls.as_ptr(), p as *mut u8, l) };
    }
}

fn check_strip(e: *mut Engine) {
    let e = unsafe { &mut *e };
    let (lo, hi) = e.world.strip;
    for p in lo..hi {
        let v = unsafe { *(p as *const u8) };
        if v != e.world.shadow[p - lo] && !e.world.unknown.iter().any(|&(a, b)| p >= a && p < b) {
            // an activity killed inside a call leaves its own destination torn
            let torn = e.acts.iter().any(|a| {
                a.state == St::Dead
                    && [a.regs.output, a.regs.aux].iter().any(|b| p >= b.lo && p < b.lo + b.len)
            });
            if torn {
                continue;
            }
            let m = format!(
                "{} holds {v:02x}, but the last write to it left {:02x}",
                e.world.describe(p),
                e.world.shadow[p - lo]
            );
            fail(e, V_CORRUPT, m);
        }
    }
    sh().stat(Stat::Checks, 1);
}

// ---------------------------------------------------------------- scripts

pub fn run_script(e: *mut Engine, id: usize) {
    let e = unsafe { &mut *e };
    if let Some(p) = e.acts[id].succeeds {
        takeover(e, id, p);
    }
    loop {
        let a = &eng().acts[id];
        if a.pc >= a.script.len() {
            return;
        }
        let pc = a.pc;
        step(id, pc);
        let a = &mut eng().acts[id];
        a.pc = pc + 1;
        if a.group != 0 {
            let j = (*a.regs.clone(), a.pc, a.digests.clone());
            a.journal = Some(Box::new(j));
        }
    }
}

/// A handler invocation: the next few steps of its script, round and round.
pub fn run_handler(e: *mut Engine, id: usize) {
    let e = unsafe { &mut *e };
    let n = e.acts[id].script.len();
    if n == 0 {
        return;
    }
    let k = 1 + (e.acts[id].call as usize) % 3;
    for _ in 0..k {
        let pc = eng().acts[id].pc % n;
        step(id, pc);
        eng().acts[id].pc = pc + 1;
    }
    sh().stat(Stat::HandlerCalls, 1);
}

/// Another node resumes the session of a crashed one from its raw key and
/// data bytes.
fn takeover(e: *mut Engine, id: usize, dead: usize) {
    let e = unsafe { &mut *e };
    e.acts[id].script = e.acts[dead].script.clone();
    e.acts[id].journal = e.acts[dead].journal.clone();
    let Some(j) = e.acts[id].journal.clone() else {
        return; // died before completing anything
    };
    let (old, pc, digests) = *j;
    e.acts[id].pc = pc;
    e.acts[id].regs.cur_step = pc;
    for i in 0..NC {
        if old.c[i].def {
            let key = old.c[i].key;
            new_cipher(id, i, old.c[i].dir, &key[..klen(i % 3)], 0);
        }
    }
    for w in 0..3u8 {
        for b in 0..NB {
            if old.b[w as usize][b].def {
                let v = old.b[w as usize][b].val;
                new_block(id, w, b, 1, &v[..width(w)], 0);
            }
        }
    }
    verify_regs(eng(), id);
    // what restoring answered is not part of the session
    eng().acts[id].digests = digests;
}

// ---------------------------------------------------------------- operands

fn cipher_of(id: usize, o: u16) -> Option<(usize, usize)> {
    let e = eng();
    let (owner, r) = if o >= OUTER {
        // the ciphers of the caller this handler interrupted
        let f = &e.acts[e.fiber];
        let pos = f.frames.iter().position(|&x| x == id)?;
        if pos == 0 {
            return None;
        }
        (f.frames[pos - 1], (o - OUTER) as usize)
    } else if o >= SHARED {
        (e.world.setup_of[e.acts[id].node], (o - SHARED) as usize)
    } else {
        (id, o as usize)
    };
    if owner == usize::MAX || r >= NC {
        return None;
    }
    let g = &e.acts[owner].regs;
    if g.c[r].def && !(owner != id && g.busy[r]) && e.acts[owner].node == e.acts[id].node {
        Some((owner, r))
    } else {
        None
    }
}

fn block_of(id: usize, w: u8, o: u16) -> Option<(usize, usize)> {
    let e = eng();
    let (owner, r) = if o >= SHARED {
        (e.world.setup_of[e.acts[id].node], (o - SHARED) as usize)
    } else {
        (id, o as usize)
    };
    if owner == usize::MAX || r >= NB + 2 {
        return None;
    }
    if e.acts[owner].regs.b[w as usize][r].def {
        Some((owner, r))
    } else {
        None
    }
}

fn grant(id: usize, lo: usize, len: usize, write: bool) {
    eng().acts[id].ranges.push(Range { lo, hi: lo + len, write });
}

/// Where input bytes go. Writes them there.
fn place_in(id: usize, pl: u8, b: Buf, data: &[u8]) -> usize {
    let e = eng();
    let r = &e.acts[id].regs;
    let len = data.len();
    let at = match pl & 3 {
        2 if r.edge[0] != 0 => r.edge[0] + PAGE - len,
        3 if r.edge[0] != 0 => r.edge[0],
        1 => b.lo + b.len - len,
        _ => b.lo,
    };
    if pl & 2 != 0 && r.edge[0] != 0 {
        sh().stat(Stat::EdgeBuffers, 1);
    }
    unsafe { core::ptr::copy_nonoverlapping(data.as_ptr(), at as *mut u8, len) };
    shadow_set(at, data);
    at
}

fn place_out(id: usize, pl: u8, len: usize) -> usize {
    let r = &eng().acts[id].regs;
    let b = r.output;
    if pl & 8 != 0 && r.edge[1] != 0 {
        sh().stat(Stat::EdgeBuffers, 1);
    }
    match pl >> 2 & 3 {
        2 if r.edge[1] != 0 => r.edge[1] + PAGE - len,
        3 if r.edge[1] != 0 => r.edge[1],
        1 => b.lo + b.len - len,
        _ => b.lo,
    }
}

fn shadow_set(at: usize, data: &[u8]) {
    let w = &mut eng().world;
    if at >= w.strip.0 && at + data.len() <= w.strip.1 {
        let o = at - w.strip.0;
        w.shadow[o..o + data.len()].copy_from_slice(data);
    }
}

unsafe fn bytes_at(p: usize, n: usize) -> &'static [u8] {
    core::slice::from_raw_parts(p as *const u8, n)
}

/// Not-yet-received bytes change under the feet of the call in progress.
pub fn scramble(e: *mut Engine, seed: u32) {
    let e = unsafe { &mut *e };
    let (lo, hi) = e.acts[e.cur].regs.future;
    let mut r = Rng::new(u64::from(seed));
    for p in lo..hi {
        let v = r.next() as u8;
        unsafe { *(p as *mut u8) = v };
        shadow_set(p, &[v]);
    }
}

fn no_args() -> Args {
    Args { p: [core::ptr::null_mut(); 6], n: [0; 6], sink: None, ctx: core::ptr::null_mut() }
}

fn garbage_fill(lo: usize, len: usize, seed: u64) {
    let mut r = Rng::new(seed);
    let mode = r.below(4);
    for i in 0..len {
        let v = match mode {
            0 => 0,
            1 => 0xff,
            _ => r.next() as u8,
        };
        unsafe { *((lo + i) as *mut u8) = v };
    }
    sh().stat(Stat::GarbageFill, 1);
}

fn digest(id: usize, st: usize, v: &[u8]) {
    let a = &mut eng().acts[id];
    if a.handler {
        return;
    }
    if a.digests.len() <= st {
        a.digests.resize(st + 1, 0);
    }
    a.digests[st] = fold_bytes(a.digests[st] ^ 0x9e37, v) | 1;
}

fn reset_digest(id: usize, st: usize) {
    let a = &mut eng().acts[id];
    if a.digests.len() > st {
        a.digests[st] = 0;
    }
}

/// A call that must not be refused.
fn must(id: usize, w: u32, a: &mut Args, what: &str) -> i32 {
    let r = engine::call(id, w, a);
    if r == abi::PANIC {
        let e = eng();
        fail(e, V_REFUSED, format!("{what} panicked"));
    }
    if r == abi::BADOP {
        let e = eng();
        fail(e, V_HARNESS, format!("bad operation word {w:#x}"));
    }
    r
}

pub fn wrong(id: usize, what: &str, want: &[u8], got: &[u8]) {
    let e = eng();
    if !e.cfg.judge_results {
        return;
    }
    e.cur = id;
    let node = e.nodes[e.acts[id].node].name;
    let m = format!("{what} on {node}: expected {} got {}", hex(want), hex(got));
    fail(e, V_RESULT, m);
}

/// Completes a block-producing call: judges the bytes it stored at `out`.
fn finish_block(id: usize, w: u8, dst: usize, out: usize, want: &[u8], what: &str) {
    let n = width(w);
    let got: [u8; 64] = {
        let mut g = [0; 64];
        g[..n].copy_from_slice(unsafe { bytes_at(out, n) });
        g
    };
    shadow_set(out, &got[..n]);
    sh().stat(Stat::Checks, 1);
    if &got[..n] != want {
        wrong(id, what, want, &got[..n]);
    }
    let st = eng().acts[id].regs.cur_step;
    digest(id, st, &got[..n]);
    let r = &mut eng().acts[id].regs.b[w as usize][dst];
    r.def = true;
    r.val[..n].copy_from_slice(&got[..n]);
}

pub fn new_cipher(id: usize, dst: usize, dir: u8, key: &[u8], pl: u8) {
    let e = eng();
    let ks = dst % 3;
    let node = e.acts[id].node;
    let size = e.nodes[node].sizes.cipher[ks].0;
    let reg = e.acts[id].regs.c[dst];
    let mut a = no_args();
    if reg.def && pl & 16 != 0 {
        a.p[0] = reg.addr as *mut u8;
        begin(id);
        grant(id, reg.addr, size, true);
        e.acts[id].regs.c[dst].def = false;
        must(id, word(abi::KEY_DROP, 0, ks as u32, u32::from(reg.dir), 0), &mut a, "drop");
        sh().stat(Stat::ObjDrop, 1);
    }
    let e = eng();
    if reg.def {
        sh().stat(Stat::ObjRebuild, 1);
    }
    if pl & 32 != 0 {
        garbage_fill(reg.addr, size, u64::from(pl) ^ e.calls_done);
    }
    let kb = e.acts[id].regs.key;
    let at = place_in(id, pl, kb, key);
    begin(id);
    grant(id, at, key.len(), false);
    grant(id, reg.addr, size, true);
    let mut a = no_args();
    a.p[0] = reg.addr as *mut u8;
    a.p[1] = at as *mut u8;
    e.acts[id].regs.busy[dst] = true;
    must(id, word(abi::KEY_NEW, 0, ks as u32, u32::from(dir), 0), &mut a, "key setup");
    let r = &mut eng().acts[id].regs;
    r.busy[dst] = false;
    let c = &mut r.c[dst];
    c.def = true;
    c.dir = dir;
    c.key = [0; 32];
    c.key[..key.len()].copy_from_slice(key);
}

pub fn new_block(id: usize, w: u8, dst: usize, form: u8, data: &[u8], pl: u8) {
    let e = eng();
    let n = width(w);
    let ib = e.acts[id].regs.input;
    let at = place_in(id, pl, ib, data);
    let slot = e.acts[id].regs.b[w as usize][dst].addr;
    let aux = e.acts[id].regs.aux.lo;
    begin(id);
    grant(id, at, n, false);
    grant(id, slot, bsize(id, w), true);
    grant(id, aux, n, true);
    let mut a = no_args();
    a.p[0] = slot as *mut u8;
    a.p[1] = at as *mut u8;
    a.p[5] = aux as *mut u8;
    a.n[5] = usize::from(pl >> 6 & 1);
    let form = if form == 4 && w != 0 { 1 } else { form };
    if form == 3 {
        a.n[0] = n;
        let r = must(id, word(abi::TRY, u32::from(w), 0, 0, 0), &mut a, "try_from");
        if r != 0 {
            let e = eng();
            fail(e, V_REFUSED, format!("try_from refused {n} of {n} bytes"));
        }
    } else {
        must(id, word(abi::NEW, u32::from(w), 0, 0, u32::from(form)), &mut a, "block from bytes");
    }
    finish_block(id, w, dst, aux, data, "block from bytes");
}

fn bsize(id: usize, w: u8) -> usize {
    let e = eng();
    e.nodes[e.acts[id].node].sizes.block[w as usize].0
}

fn begin(id: usize) {
    eng().acts[id].ranges.clear();
}

/// Bytes of a literal operand: the step's data, repeated as needed, or, in
/// secret variants, bytes of that variant.
fn lit(id: usize, s: &Step, off: usize, n: usize, key: bool) -> Vec<u8> {
    let e = eng();
    if e.cfg.variant != 0 {
        return crate::scen::secret(e.cfg.variant, id, e.acts[id].regs.cur_step, off, n, key);
    }
    if s.data.is_empty() {
        return vec![0; n];
    }
    (0..n).map(|i| s.data[(off + i) % s.data.len()]).collect()
}

/// Changes those 4-byte words of a value that the step's number has a bit for.
fn alter(id: usize, s: &Step, v: &mut [u8]) {
    let d = lit(id, s, 128, v.len(), false);
    for (i, b) in v.iter_mut().enumerate() {
        if s.n >> (i / 4) & 1 == 1 {
            *b ^= d[i];
        }
    }
}

/// Resolves a block operand; literals are loaded into scratch register k.
fn operand(id: usize, s: &Step, w: u8, o: u16, k: usize) -> Option<(usize, usize)> {
    if o == LIT {
        let d = lit(id, s, k * 64, width(w), false);
        let form = [1, 0, 2, 3, 4][(s.pl as usize + k) % 5];
        new_block(id, w, NB + k, form, &d, s.pl & 3);
        return Some((id, NB + k));
    }
    block_of(id, w, o)
}

fn breg(owner: usize, w: u8, r: usize) -> BReg {
    eng().acts[owner].regs.b[w as usize][r]
}

/// Executes one step. Steps whose operands are undefined are skipped, so any
/// sub-sequence of a script is a script.
pub fn step(id: usize, pc: usize) {
    let e = eng();
    let s = e.acts[id].script[pc].clone();
    e.acts[id].regs.cur_step = pc;
    reset_digest(id, pc);
    sh().stat(Stat::Steps, 1);
    if exec(id, &s).is_none() {
        sh().stat(Stat::StepsSkipped, 1);
    }
}

fn exec(id: usize, s: &Step) -> Option<()> {
    let w = s.w.min(2);
    let wi = w as usize;
    let n = width(w);
    let e = eng();
    let node = e.acts[id].node;
    let sizes = e.nodes[node].sizes;
    let dst = (s.a[0] as usize) % NB;
    let slot = e.acts[id].regs.b[wi][dst].addr;
    let aux = e.acts[id].regs.aux.lo;
    let bs = sizes.block[wi].0;
    let mut a = no_args();
    a.p[5] = aux as *mut u8;
    a.n[5] = usize::from(s.pl >> 6 & 1);
    let ww = u32::from(w);
    match u32::from(s.op) {
        abi::KEY_NEW => {
            let d = (s.a[0] as usize) % NC;
            let k = lit(id, s, 0, klen(d % 3), true);
            new_cipher(id, d, s.dir & 1, &k, s.pl);
        }
        abi::KEY_CLONE | abi::KEY_CONV | abi::KEY_MOVE => {
            let (o, r) = cipher_of(id, s.a[1])?;
            let d = (s.a[0] as usize) % NC;
            if (o, r) == (id, d) || d % 3 != r % 3 {
                return None;
            }
            if u32::from(s.op) == abi::KEY_MOVE && o != id {
                return None;
            }
            let ks = d % 3;
            let size = sizes.cipher[ks].0;
            let src = e.acts[o].regs.c[r];
            let addr = e.acts[id].regs.c[d].addr;
            let old = e.acts[id].regs.c[d];
            // clone_from needs a live cipher of the same type to overwrite
            let over = u32::from(s.op) == abi::KEY_CLONE && s.form & 1 == 1 && old.def && old.dir == src.dir;
            if s.pl & 32 != 0 && !over {
                garbage_fill(addr, size, e.calls_done ^ 77);
            }
            sh().stat(Stat::CloneFrom, over as u64);
            begin(id);
            grant(id, src.addr, size, false);
            grant(id, addr, size, true);
            a.p[0] = addr as *mut u8;
            a.p[1] = src.addr as *mut u8;
            e.acts[id].regs.busy[d] = true;
            must(id, word(u32::from(s.op), 0, ks as u32, u32::from(src.dir), over as u32), &mut a, "cipher copy or conversion");
            let r_ = &mut eng().acts[id].regs;
            r_.busy[d] = false;
            r_.c[d].def = true;
            r_.c[d].key = src.key;
            r_.c[d].dir = if u32::from(s.op) == abi::KEY_CONV { 1 - src.dir } else { src.dir };
            if u32::from(s.op) == abi::KEY_MOVE {
                r_.c[r].def = false;
                garbage_fill(src.addr, size, u64::from(s.n));
            }
        }
        abi::KEY_DROP => {
            let (_, r) = cipher_of(id, s.a[0] % NC as u16)?;
            let c = e.acts[id].regs.c[r];
            let size = sizes.cipher[r % 3].0;
            begin(id);
            grant(id, c.addr, size, true);
            a.p[0] = c.addr as *mut u8;
            e.acts[id].regs.c[r].def = false;
            must(id, word(abi::KEY_DROP, 0, (r % 3) as u32, u32::from(c.dir), 0), &mut a, "drop");
            sh().stat(Stat::ObjDrop, 1);
            garbage_fill(c.addr, size, u64::from(s.n));
        }
        abi::CRYPT => {
            let (co, cr) = cipher_of(id, s.a[1])?;
            let (bo, br) = operand(id, s, w, s.a[2], 0)?;
            crypt(id, w, dst, co, cr, bo, br, s.pl)?;
        }
        abi::NEW => {
            let d = lit(id, s, 0, n, false);
            new_block(id, w, dst, s.form % 5, &d, s.pl);
        }
        abi::BYTES => {
            let (o, r) = operand(id, s, w, s.a[1], 0)?;
            let src = breg(o, w, r);
            let out = place_out(id, s.pl, n);
            let form = if s.form % 3 == 2 && w != 0 { 0 } else { s.form % 3 };
            begin(id);
            grant(id, src.addr, bs, false);
            grant(id, out, n, true);
            a.p[0] = out as *mut u8;
            a.p[1] = src.addr as *mut u8;
            must(id, word(abi::BYTES, ww, 0, 0, u32::from(form)), &mut a, "bytes of a block");
            let got = unsafe { bytes_at(out, n) }.to_vec();
            shadow_set(out, &got);
            sh().stat(Stat::Checks, 1);
            if got[..] != src.val[..n] {
                wrong(id, "bytes of a block", &src.val[..n], &got);
            }
            digest(id, eng().acts[id].regs.cur_step, &got);
        }
        abi::STORE => {
            let (o, r) = operand(id, s, w, s.a[1], 0)?;
            let src = breg(o, w, r);
            if s.n as usize > OUT_LEN {
                return store_big(id, w, src, s);
            }
            store(id, w, src, s.n as usize, s.pl, s.data.first().copied().unwrap_or(0))?;
        }
        abi::TRY if s.n as usize > IN_LEN => {
            try_big(id, w, dst, s);
        }
        abi::TRY => {
            let have = s.n as usize;
            let d = lit(id, s, 0, IN_LEN, false);
            try_from(id, w, dst, &d, have, s.pl);
        }
        abi::BIN => {
            let (xo, xr) = operand(id, s, w, s.a[1], 0)?;
            let (yo, yr) = operand(id, s, w, s.a[2], 1)?;
            let (x, y) = (breg(xo, w, xr), breg(yo, w, yr));
            begin(id);
            grant(id, x.addr, bs, false);
            grant(id, y.addr, bs, false);
            grant(id, slot, bs, true);
            grant(id, aux, n, true);
            a.p[0] = slot as *mut u8;
            a.p[1] = x.addr as *mut u8;
            a.p[2] = y.addr as *mut u8;
            let f = s.form % 6;
            let want: Vec<u8> = (0..n)
                .map(|i| match f % 3 {
                    0 => x.val[i] & y.val[i],
                    1 => x.val[i] | y.val[i],
                    _ => x.val[i] ^ y.val[i],
                })
                .collect();
            must(id, word(abi::BIN, ww, 0, 0, u32::from(f)), &mut a, "bit operation");
            finish_block(id, w, dst, aux, &want, "bit operation");
        }
        abi::NOT | abi::COPY => {
            let (o, r) = operand(id, s, w, s.a[1], 0)?;
            let x = breg(o, w, r);
            begin(id);
            grant(id, x.addr, bs, false);
            grant(id, slot, bs, true);
            grant(id, aux, n, true);
            a.p[0] = slot as *mut u8;
            a.p[1] = x.addr as *mut u8;
            let inv = u32::from(s.op) == abi::NOT;
            let want: Vec<u8> = x.val[..n].iter().map(|&b| if inv { !b } else { b }).collect();
            must(id, word(u32::from(s.op), ww, 0, 0, 0), &mut a, "not or copy");
            finish_block(id, w, dst, aux, &want, "not or copy");
        }
        abi::EQ => {
            let (xo, xr) = operand(id, s, w, s.a[1], 0)?;
            let (yo, yr) = if s.n == 0 {
                operand(id, s, w, s.a[2], 1)?
            } else {
                // nearly the same value again
                let mut v = breg(xo, w, xr).val[..n].to_vec();
                alter(id, s, &mut v);
                new_block(id, w, NB + 1, 1, &v, s.pl & 3);
                (id, NB + 1)
            };
            let (x, y) = (breg(xo, w, xr), breg(yo, w, yr));
            begin(id);
            grant(id, x.addr, bs, false);
            grant(id, y.addr, bs, false);
            a.p[1] = x.addr as *mut u8;
            a.p[2] = y.addr as *mut u8;
            let ne = s.form & 1;
            let r = must(id, word(abi::EQ, ww, 0, 0, u32::from(ne)), &mut a, ["==", "!="][ne as usize]);
            let want = ((x.val[..n] == y.val[..n]) != (ne == 1)) as i32;
            sh().stat(Stat::Checks, 1);
            if r != want {
                wrong(id, ["==", "!="][ne as usize], &[want as u8], &[r as u8]);
            }
            digest(id, eng().acts[id].regs.cur_step, &[r as u8]);
        }
        abi::ISZERO => {
            let (o, r) = if s.n == 0 {
                operand(id, s, w, s.a[1], 0)?
            } else {
                let mut v = vec![0; n];
                alter(id, s, &mut v);
                new_block(id, w, NB, 1, &v, s.pl & 3);
                (id, NB)
            };
            let x = breg(o, w, r);
            begin(id);
            grant(id, x.addr, bs, false);
            a.p[1] = x.addr as *mut u8;
            let r = must(id, word(abi::ISZERO, ww, 0, 0, 0), &mut a, "is_zero");
            let want = x.val[..n].iter().all(|&b| b == 0) as i32;
            sh().stat(Stat::Checks, 1);
            if r != want {
                wrong(id, "is_zero", &[want as u8], &[r as u8]);
            }
            digest(id, eng().acts[id].regs.cur_step, &[r as u8]);
        }
        abi::ZERO => {
            begin(id);
            grant(id, slot, bs, true);
            grant(id, aux, n, true);
            a.p[0] = slot as *mut u8;
            must(id, word(abi::ZERO, ww, 0, 0, u32::from(s.form & 1)), &mut a, "zero");
            finish_block(id, w, dst, aux, &vec![0; n], "zero");
        }
        abi::ROUND => {
            let (xo, xr) = operand(id, s, w, s.a[1], 0)?;
            let (ko, kr) = operand(id, s, w, s.a[2], 1)?;
            let (x, k) = (breg(xo, w, xr), breg(ko, w, kr));
            begin(id);
            grant(id, x.addr, bs, false);
            grant(id, k.addr, bs, false);
            grant(id, slot, bs, true);
            grant(id, aux, n, true);
            a.p[0] = slot as *mut u8;
            a.p[1] = x.addr as *mut u8;
            a.p[2] = k.addr as *mut u8;
            let f = s.form & 3;
            let mut want = Vec::new();
            for l in 0..1 << w {
                want.extend_from_slice(&round(f, lane(&x.val, l), lane(&k.val, l)));
            }
            must(id, word(abi::ROUND, ww, 0, 0, u32::from(f)), &mut a, "round");
            let nm = ["enc round", "dec round", "enc_last round", "dec_last round"][f as usize];
            finish_block(id, w, dst, aux, &want, nm);
        }
        abi::MC => {
            let (o, r) = operand(id, s, 0, s.a[1], 0)?;
            let x = breg(o, 0, r);
            let slot = e.acts[id].regs.b[0][dst].addr;
            begin(id);
            grant(id, x.addr, sizes.block[0].0, false);
            grant(id, slot, sizes.block[0].0, true);
            grant(id, aux, 16, true);
            a.p[0] = slot as *mut u8;
            a.p[1] = x.addr as *mut u8;
            let m = &eng().world.model;
            let v = lane(&x.val, 0);
            let want = if s.form & 1 == 0 { m.mc(v) } else { m.imc(v) };
            must(id, word(abi::MC, 0, 0, 0, u32::from(s.form & 1)), &mut a, "mix columns");
            finish_block(id, 0, dst, aux, &want, if s.form & 1 == 0 { "mc" } else { "imc" });
        }
        abi::CHAIN => {
            let (o, r) = operand(id, s, w, s.a[1], 0)?;
            let x = breg(o, w, r);
            let nk = (s.n as usize).min((BIG_LEN - PAGE) / bs);
            let mut keys: Vec<[u8; 64]> = Vec::new();
            let mut base = e.acts[id].regs.chain[wi];
            if nk >= NCHAIN {
                // a long list, of few different keys
                base = big(id, &Step { n: 64, ..Step::default() }).0;
            }
            for k in 0..nk {
                if k >= 7 && nk >= NCHAIN {
                    unsafe {
                        core::ptr::copy_nonoverlapping((base + (k - 7) * bs) as *const u8, (base + k * bs) as *mut u8, bs);
                    }
                    keys.push(keys[k - 7]);
                    continue;
                }
                let d = lit(id, s, 128 + 5 * k, n, false);
                // through the scratch register, then copied into the list
                new_block(id, w, NB + 1, 1, &d, 0);
                let src = eng().acts[id].regs.b[wi][NB + 1].addr;
                unsafe { core::ptr::copy_nonoverlapping(src as *const u8, (base + k * bs) as *mut u8, bs) };
                let mut v = [0; 64];
                v[..n].copy_from_slice(&d);
                keys.push(v);
            }
            begin(id);
            grant(id, x.addr, bs, false);
            grant(id, base, bs * nk, false);
            let mut a = no_args();
            a.p[0] = slot as *mut u8;
            a.p[1] = x.addr as *mut u8;
            a.p[2] = base as *mut u8;
            a.n[0] = nk;
            a.p[5] = aux as *mut u8;
            let wd = word(abi::CHAIN, ww, 0, 0, u32::from(s.form & 1));
            if nk == 0 {
                if !may_misuse(id) {
                    return None;
                }
                let before = unsafe { bytes_at(slot, bs) }.to_vec();
                let r = misuse(id, wd, &mut a);
                refused(id, r, "chain over an empty key list");
                if unsafe { bytes_at(slot, bs) } != &before[..] {
                    let e = eng();
                    fail(e, V_DEST, "a refused chain modified its destination".to_string());
                }
                return Some(());
            }
            grant(id, slot, bs, true);
            grant(id, aux, n, true);
            let mut want = Vec::new();
            for l in 0..1 << w {
                let mut v = crate::model::xor(lane(&x.val, l), lane(&keys[0], l));
                for k in &keys[1..] {
                    v = round(s.form & 1, &v, lane(k, l));
                }
                want.extend_from_slice(&v);
            }
            must(id, wd, &mut a, "chain");
            finish_block(id, w, dst, aux, &want, if s.form & 1 == 0 { "chain_enc" } else { "chain_dec" });
            if nk >= NCHAIN {
                big_check(id, base, nk * bs);
            }
        }
        abi::JOIN => join(id, s)?,
        abi::SPLIT => split(id, s)?,
        abi::FMT => {
            let (o, r) = operand(id, s, w, s.a[1], 0)?;
            let x = breg(o, w, r);
            let form = match (w, s.form % 16) {
                (0, f) => f,
                (_, f) if f < 10 => f & 1,
                (_, f) => 10 + f % 4,
            };
            begin(id);
            grant(id, x.addr, bs, false);
            a.p[5] = core::ptr::null_mut();
            a.p[1] = x.addr as *mut u8;
            let wd = word(abi::FMT, ww, 0, 0, u32::from(form));
            let full = if form < 10 {
                block_text(w, form, &x.val)
            } else {
                // not looked up: whether values recur may depend on secrets
                unfailing(id, wd, 0, a.p[1])
            };
            render(id, wd, a, s, &full);
        }
        abi::KEY_FMT => {
            let (o, r) = cipher_of(id, s.a[1])?;
            let c = e.acts[o].regs.c[r];
            let size = sizes.cipher[r % 3].0;
            begin(id);
            grant(id, c.addr, size, false);
            a.p[5] = core::ptr::null_mut();
            a.p[1] = c.addr as *mut u8;
            let form = u64::from(s.form % 6);
            let wd = word(abi::KEY_FMT, 0, (r % 3) as u32, u32::from(c.dir), form as u32);
            let tag = fold_bytes(fold(form << 10 | u64::from(c.dir) << 9, r as u64 % 3), &c.key);
            let full = unfailing(id, wd, tag, a.p[1]);
            render(id, wd, a, s, &full);
        }
        O_VERIFY => verify_regs(eng(), id),
        O_ENDUR => {
            let r = endure(id, s);
            let a = &mut eng().acts[id];
            (a.age, a.quiet, a.prelude, a.alone) = ((0, 0), false, None, false);
            r?;
        }
        O_WEAR => {
            let r = wear(id, s);
            let a = &mut eng().acts[id];
            (a.age, a.quiet, a.wear) = ((0, 0), false, false);
            r?;
        }
        O_PROBE => {
            // requests that must be denied, made by the simulator itself
            let kinds = platform::env_kinds();
            let e = eng();
            (e.probing, e.probed) = (true, 0);
            let list = match e.modes {
                Some(_) if !crate::modes::WORKS => 0..0,
                Some(_) => 6..7,
                None if e.work => 7..8,
                None if e.deny_alloc => 0..1,
                None => 1..6u32,
            };
            for k in list {
                if matches!(k, 1..=5) && kinds >> (k - 1) & 1 == 0 {
                    continue;
                }
                let mut a = no_args();
                let wd = if k == 0 { word(abi::ALLOC_SELFTEST, 0, 0, 0, 0) } else { word(abi::ENV_SELFTEST, 0, 0, 0, k - 1) };
                let before = eng().probed;
                let r = engine::call(id, wd, &mut a);
                let n = eng().probed - before;
                sh().stat([Stat::AllocDenied, Stat::EnvDenied, Stat::ModesNoticed, Stat::CostNoticed][[0, 1, 1, 1, 1, 1, 2, 3][k as usize]], u64::from(n));
                if n == 0 || k == 0 && r != 1 {
                    eng().probing = false;
                    fail(eng(), V_HARNESS, format!("request {k} was not denied ({r})"));
                }
            }
            eng().probing = false;
        }
        O_LAP => {
            let r = laps(id, s);
            eng().acts[id].alone = false;
            r?;
        }
        O_STREAM => stream(id, s),
        O_SLEEP => {
            let e = eng();
            // in a handler nothing may sleep
            if !e.acts[id].handler && e.started {
                let t = e.tick + u64::from(s.n);
                engine::sleep_until(e, t);
            }
        }
        _ => return None,
    }
    Some(())
}

/// Some use of a key, then exactly as many calls of one kind as bring an 8- or
/// 16-bit count of them round again, then the same use of another key.
fn come_round(id: usize, s: &Step) -> Option<()> {
    let n = s.n as usize;
    if s.form % 16 == 1 {
        return round_trip(id, s, n % 10, [1, 1, 2, 1, 0, 2, 1, 3][n >> 3 & 7], 65536);
    }
    for k in 0..40 {
        round_trip(id, s, k % 10, k as u32 / 10, 256)?;
    }
    Some(())
}

fn round_trip(id: usize, s: &Step, kind: usize, short: u32, count: u32) -> Option<()> {
    let n = s.n as usize;
    let (ks, w, dst) = (s.a[1] as usize % 3, s.w.min(2), s.a[0] as usize % NB);
    let (first, other) = if n >> 8 & 1 == 0 { (ks, ks + 3) } else { (ks + 3, ks) };
    let second = if n >> 9 & 1 == 0 { first } else { other };
    let dir = s.dir & 1;
    let mut key = lit(id, s, 64, klen(ks), true);
    let derive = |op: u32, from: usize, to: usize| {
        let mut t = Step { op: op as u8, ..Step::default() };
        (t.a[0], t.a[1]) = (to as u16, from as u16);
        exec(id, &t)
    };
    let crypt_with = |c: usize, w: u8| {
        let (bo, br) = operand(id, s, w, LIT, 0)?;
        crypt(id, w, dst, id, c, bo, br, 0)
    };
    let used = |c: usize| {
        let o = if c == first { other } else { first };
        match n >> 6 & 3 {
            0 => crypt_with(c, w),
            1 | 2 => derive(abi::KEY_CONV, c, o).and_then(|()| crypt_with(o, w)),
            _ => derive(abi::KEY_CLONE, c, o).and_then(|()| crypt_with(o, w)),
        }
    };
    new_cipher(id, first, dir, &key, 0);
    used(first)?;
    // in other properties than C09 what matters is who was in the middle of a call meanwhile
    let quiet = count > 256;
    let age = |op: u32| {
        let a = &mut eng().acts[id];
        (a.age, a.quiet) = ((op, count - short), quiet);
    };
    let third: [u8; 32] = core::array::from_fn(|i| i as u8 ^ 0x5c);
    let third = &third[..klen(ks)];
    match kind {
        0 | 1 => {
            age(abi::KEY_NEW);
            new_cipher(id, other, dir, third, 0);
        }
        2 => {
            age(abi::KEY_NEW);
            new_cipher(id, other, dir ^ 1, third, 0);
        }
        3 | 4 => {
            let op = if kind == 3 { abi::KEY_CONV } else { abi::KEY_CLONE };
            age(op);
            derive(op, first, other)?;
        }
        5 => {
            age(abi::CRYPT);
            crypt_with(first, w)?;
        }
        6 => {
            new_cipher(id, other, dir, third, 0);
            age(abi::CRYPT);
            crypt_with(other, w)?;
        }
        // as many calls, but with two arguments in turn
        8 => {
            if short & 1 == 1 {
                new_cipher(id, other, dir, third, 0);
            }
            let fourth: [u8; 32] = core::array::from_fn(|i| i as u8 ^ 0xc5);
            let ib = eng().acts[id].regs.input;
            let from = place_in(id, 0, ib, &fourth[..klen(ks)]);
            let to = eng().acts[id].regs.c[other].addr;
            let a = &mut eng().acts[id];
            a.prelude = Some((word(abi::KEY_NEW, 0, ks as u32, u32::from(dir), 0), [to, from]));
            (a.age, a.quiet) = ((abi::KEY_NEW, (count - short) / 2), quiet);
            new_cipher(id, other, dir, third, 0);
        }
        9 => {
            if short & 1 == 1 {
                derive(abi::KEY_CONV, first, other)?;
            }
            let (x, y) = (eng().acts[id].regs.c[first], eng().acts[id].regs.c[other].addr);
            derive(abi::KEY_CONV, first, other)?;
            let a = &mut eng().acts[id];
            a.prelude = Some((word(abi::KEY_CONV, 0, ks as u32, u32::from(x.dir), 0), [y, x.addr]));
            (a.age, a.quiet) = ((abi::KEY_CONV, (count - short) / 2), quiet);
            derive(abi::KEY_CONV, other, first)?;
        }
        _ => {
            age(abi::KEY_NEW);
            let o = (ks + 1) % 3;
            let k: [u8; 32] = core::array::from_fn(|i| i as u8 ^ 0x39);
            new_cipher(id, o, dir, &k[..klen(o)], 0);
        }
    }
    let a = &mut eng().acts[id];
    (a.age, a.quiet, a.prelude) = ((0, 0), false, None);
    for (i, b) in key.iter_mut().enumerate() {
        *b ^= 0x11 + i as u8;
    }
    new_cipher(id, second, dir, &key, 0);
    used(second)
}

/// While somebody else is in the middle of a call: exactly as many different
/// calls of one kind as bring a small count of them round, and back to him.
fn laps(id: usize, s: &Step) -> Option<()> {
    let e = eng();
    let handler = e.acts[id].handler;
    let (ks, w, dst) = (s.a[1] as usize % 3, s.w.min(2), s.a[0] as usize % NB);
    let key = lit(id, s, 64, klen(ks), true);
    let fresh = |i: u32| {
        let mut k = key.clone();
        for (b, x) in k.iter_mut().zip(i.to_le_bytes()) {
            *b ^= x;
        }
        k
    };
    let kind = s.form & 7;
    let data = |i: u32| Step { op: abi::CRYPT as u8, data: fresh(i), ..Step::default() };
    if kind > 2 {
        new_cipher(id, ks, s.dir & 1, &key, 0);
    }
    for t in 0..if handler { 1 } else { 6 } {
        let e = eng();
        if !handler && e.started {
            engine::give_way(e, None);
        }
        let n = u32::from(s.n) >> t;
        let count = if n & 0xf00 == 0x300 && t == 0 && !handler && cfg!(target_arch = "x86_64") {
            [65536, 32768, 65535, 65534][n as usize & 3]
        } else if handler {
            [128, 127, 126, 125, 256, 255, 254, 253, 64, 63, 62, 512, 124, 252, 129, 257][n as usize & 15]
        } else {
            [128, 256, 128, 256, 64, 512, 127, 255, 126, 254, 32, 16, 8, 4, 129, 257][n as usize & 15]
        };
        let victim = eng().before;
        eng().acts[id].alone = true;
        for i in 1..=count {
            if i % 1024 == 0 {
                crate::platform::in_child();
            }
            match kind {
                0 | 1 => new_cipher(id, ks, s.dir & 1, &fresh(i), 0),
                2 => new_cipher(id, ks, i as u8 & 1, &fresh(i), 0),
                3 | 4 => {
                    if kind == 3 {
                        new_cipher(id, ks, s.dir & 1, &fresh(i), 0);
                    }
                    let mut t = Step { op: if kind == 3 { abi::KEY_CONV } else { abi::KEY_CLONE } as u8, ..Step::default() };
                    (t.a[0], t.a[1]) = (ks as u16 + 3, ks as u16);
                    exec(id, &t)?;
                }
                5 | 6 => {
                    let l = data(i);
                    let (bo, br) = operand(id, &l, w, LIT, 0)?;
                    crypt(id, w, dst, id, ks, bo, br, 0)?;
                }
                _ => {
                    let op = [abi::FMT, abi::KEY_FMT, abi::STORE, abi::TRY][n as usize >> 4 & 3];
                    let mut t = Step { op: op as u8, w, n: width(w) as u16, data: fresh(i), ..Step::default() };
                    t.a = [s.a[0], if op == abi::KEY_FMT { ks as u16 } else { LIT }, LIT, LIT];
                    if op == abi::FMT || op == abi::KEY_FMT {
                        (t.n, t.form) = (0, s.dir);
                    }
                    exec(id, &t)?;
                }
            }
        }
        eng().acts[id].alone = false;
        if !handler && eng().started {
            engine::give_way(eng(), Some(victim));
        }
    }
    Some(())
}

/// The same call again and again.
/// How often a step repeats its call: up to a million times.
fn often(s: &Step) -> u32 {
    if s.form & 64 != 0 {
        return u32::from(s.n) << 10;
    }
    2 * u32::from(s.n) << if s.form & 32 != 0 { 4 } else { 0 }
}

/// One refused or failing call, time and again.
fn wear(id: usize, s: &Step) -> Option<()> {
    let w = s.w.min(2);
    let n = width(w) as u16;
    let kind = s.form % 32 % 7;
    let op = [abi::STORE, abi::CHAIN, abi::TRY, abi::FMT, abi::FMT, abi::FMT, abi::KEY_FMT][kind as usize];
    let mut t = Step { op: op as u8, w, dir: s.dir, form: s.dir, pl: s.pl & 0xc0, data: s.data.clone(), ..Step::default() };
    t.a = [s.a[0], LIT, LIT, LIT];
    match op {
        abi::STORE | abi::TRY => t.n = s.a[2] % n,
        abi::FMT => t.form = (s.a[2] % 16) as u8,
        abi::KEY_FMT => (t.form, t.a[1]) = ((s.a[2] % 6) as u8, s.a[1]),
        _ => {}
    }
    let mut fail_at = 0;
    if op == abi::FMT || op == abi::KEY_FMT {
        // how many writes it takes
        exec(id, &t)?;
        let writes = eng().acts[id].sink.writes;
        fail_at = if kind == 5 { 0 } else { 1 + u32::from(s.a[3]) % writes.max(1) };
        // panics, if the run has them, or reports the failure
        t.data.resize(t.data.len().max(1), 0);
        t.data[0] = if kind == 4 { 255 } else { 0 };
    }
    t.n = if fail_at > 0 { fail_at as u16 } else { t.n };
    let a = &mut eng().acts[id];
    let count = often(s);
    // a target without unwinding cannot repeat what panics
    let count = if cfg!(feature = "host") || kind > 1 { count } else { 0 };
    (a.age, a.quiet, a.wear) = ((op, count), count > 256, true);
    let r = exec(id, &t);
    let a = &mut eng().acts[id];
    (a.age, a.quiet, a.wear) = ((0, 0), false, false);
    r
}

fn endure(id: usize, s: &Step) -> Option<()> {
    if s.form & 16 != 0 {
        return come_round(id, s);
    }
    let w = s.w.min(2);
    let n = width(w);
    let e = eng();
    let dst = (s.a[0] as usize) % NB;
    let (co, cr) = cipher_of(id, s.a[1])?;
    let ks = cr % 3;
    let count = often(s);
    let age = |op: u32, count: u32, prelude| {
        let a = &mut eng().acts[id];
        (a.age, a.prelude, a.quiet) = ((op, count), prelude, count > 256);
    };
    // a register of this activity of the same key size, not the source
    let own = if (co, cr) == (id, ks) { ks + 3 } else { ks };
    match s.form % 16 {
        0 => {
            // each output the next input
            let mut v = lit(id, s, 0, n, false);
            new_block(id, w, dst, 1, &v, 0);
            for i in 0..u32::from(s.n / 8) {
                crypt(id, w, dst, co, cr, id, dst, (i & 1) as u8 * 64)?;
                if i % 16 == 0 {
                    v[0] ^= i as u8;
                }
            }
        }
        k @ 1..=4 => {
            let (bo, br) = operand(id, s, w, LIT, 0)?;
            let src = e.acts[co].regs.c[cr];
            let (mut fo, mut fr) = (co, cr);
            let mut pre = None;
            if k == 2 {
                let key = lit(id, s, 64, klen(ks), true);
                new_cipher(id, own, s.dir & 1, &key, 0);
                let kb = eng().acts[id].regs.key;
                pre = Some((word(abi::KEY_NEW, 0, ks as u32, u32::from(s.dir & 1), 0), place_in(id, 0, kb, &key)));
            } else if k > 2 {
                let op = [abi::KEY_CONV, abi::KEY_CLONE][k as usize - 3];
                let mut t = Step { op: op as u8, ..Step::default() };
                (t.a[0], t.a[1]) = (own as u16, s.a[1]);
                exec(id, &t)?;
                pre = Some((word(op, 0, ks as u32, u32::from(src.dir), 0), src.addr));
            }
            if pre.is_some() {
                (fo, fr) = (id, own);
            }
            let to = eng().acts[id].regs.c[own].addr;
            age(abi::CRYPT, count, pre.map(|(w, from)| (w, [to, from])));
            if pre.is_some() {
                eng().acts[id].regs.busy[own] = true;
            }
            let r = crypt(id, w, dst, fo, fr, bo, br, 0);
            eng().acts[id].regs.busy[own] = false;
            age(0, 0, None);
            r?;
        }
        k => {
            let op = [
                abi::TRY, abi::STORE, abi::ROUND, abi::BYTES, abi::NEW, abi::CHAIN, abi::JOIN, abi::SPLIT, abi::EQ,
                abi::MC, abi::BIN,
            ][k as usize - 5];
            let mut t = Step { op: op as u8, w, pl: s.pl & 0xc0, form: s.dir, data: s.data.clone(), ..Step::default() };
            t.a = [s.a[0], LIT, LIT, LIT];
            t.n = match op {
                abi::CHAIN => 5,
                abi::JOIN => LIT,
                _ => n as u16 + 7,
            };
            if matches!(op, abi::JOIN | abi::SPLIT) {
                t.w = w.max(1);
                t.form = if op == abi::JOIN { w.max(1) - 1 + u8::from(w > 1) } else { w.max(1) - 1 };
            }
            age(op, count, None);
            let r = exec(id, &t);
            age(0, 0, None);
            r?;
        }
    }
    Some(())
}

pub fn lane(v: &[u8; 64], l: usize) -> &B16 {
    v[16 * l..16 * l + 16].try_into().unwrap()
}

fn round(f: u8, x: &B16, k: &B16) -> B16 {
    let m = &eng().world.model;
    match f {
        0 => m.enc(x, k),
        1 => m.dec(x, k),
        2 => m.enc_last(x, k),
        _ => m.dec_last(x, k),
    }
}

pub fn crypt(id: usize, w: u8, dst: usize, co: usize, cr: usize, bo: usize, br: usize, pl: u8) -> Option<()> {
    let e = eng();
    let c = e.acts[co].regs.c[cr];
    if !c.def {
        return None;
    }
    let n = width(w);
    let x = breg(bo, w, br);
    let ks = cr % 3;
    let node = e.acts[id].node;
    let (bs, cs) = (e.nodes[node].sizes.block[w as usize].0, e.nodes[node].sizes.cipher[ks].0);
    let slot = e.acts[id].regs.b[w as usize][dst].addr;
    let aux = e.acts[id].regs.aux.lo;
    begin(id);
    grant(id, c.addr, cs, false);
    grant(id, x.addr, bs, false);
    grant(id, slot, bs, true);
    grant(id, aux, n, true);
    let mut a = no_args();
    a.p[0] = slot as *mut u8;
    a.p[1] = c.addr as *mut u8;
    a.p[2] = x.addr as *mut u8;
    a.p[5] = aux as *mut u8;
    a.n[5] = usize::from(pl >> 6 & 1);
    let mut want = x.val;
    e.world.crypt(&c.key[..klen(ks)], c.dir, &mut want[..n]);
    must(id, word(abi::CRYPT, u32::from(w), ks as u32, u32::from(c.dir), 0), &mut a, "encryption or decryption");
    let what = if c.dir == 0 { "encryption" } else { "decryption" };
    let e = eng();
    if e.cfg.judge_results && unsafe { bytes_at(aux, n) } != &want[..n] {
        let what = format!(
            "{what} x{} with key {} of {}",
            1 << w,
            hex(&c.key[..klen(ks)]),
            hex(&x.val[..n])
        );
        wrong(id, &what, &want[..n], unsafe { bytes_at(aux, n) });
    }
    finish_block(id, w, dst, aux, &want[..n], what);
    Some(())
}

/// A handler that interrupts a panic in progress must not panic itself: the
/// standard library's panic machinery, not the code under test, forbids it.
fn may_misuse(id: usize) -> bool {
    let e = eng();
    !e.acts[e.fiber].frames.iter().any(|&x| x != id && e.acts[x].refusing)
}

fn misuse(id: usize, wd: u32, a: &mut Args) -> i32 {
    eng().acts[id].refusing = true;
    let r = engine::call(id, wd, a);
    eng().acts[id].refusing = false;
    r
}

fn refused(id: usize, r: i32, what: &str) {
    let e = eng();
    sh().stat(Stat::Refused, 1);
    sh().stat(Stat::Checks, 1);
    if r != abi::PANIC {
        e.cur = id;
        fail(e, V_NOT_REFUSED, format!("{what} was not refused"));
    }
    digest(id, eng().acts[id].regs.cur_step, b"refused");
}

fn big_word(i: usize) -> u64 {
    (i as u64 ^ 0xa5a5).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29)
}

/// The big buffer and the place in it of a slice as long as the step says.
fn big(id: usize, s: &Step) -> (usize, usize) {
    let b = &mut eng().acts[id].regs.big;
    if b.len == 0 {
        b.len = BIG_LEN;
        unsafe {
            sys::mprotect(b.lo, BIG_LEN, sys::PROT_RW);
            for i in 0..BIG_LEN / 8 {
                *(b.lo as *mut u64).add(i) = big_word(i);
            }
        }
    }
    let len = s.n as usize + if s.pl & 16 != 0 { 65536 - 97 } else { 0 };
    let at = match s.pl & 3 {
        0 => b.lo,
        1 => b.lo + 1 + (s.pl as usize >> 2) % 31,
        _ => b.lo + BIG_LEN - len,
    };
    (at, len)
}

/// Everything in the big buffer but the n bytes at `at` is as it was; those
/// are made so again.
fn big_check(id: usize, at: usize, n: usize) {
    let e = eng();
    e.cur = id;
    let lo = e.acts[id].regs.big.lo;
    for i in at - lo..at - lo + n {
        unsafe { *((lo + i) as *mut u8) = big_word(i / 8).to_ne_bytes()[i % 8] };
    }
    for i in 0..BIG_LEN / 8 {
        let v = unsafe { *(lo as *const u64).add(i) };
        if v != big_word(i) {
            let m = format!("byte(s) {} from the place of the value in a long slice changed", (lo + i * 8) as isize - at as isize);
            fail(e, V_DEST, m);
        }
    }
}

fn store_big(id: usize, w: u8, src: BReg, s: &Step) -> Option<()> {
    let n = width(w);
    let (at, len) = big(id, s);
    begin(id);
    grant(id, src.addr, bsize(id, w), false);
    grant(id, at, n, true);
    let mut a = no_args();
    a.p[0] = at as *mut u8;
    a.p[1] = src.addr as *mut u8;
    a.n[0] = len;
    let r = engine::call(id, word(abi::STORE, u32::from(w), 0, 0, 0), &mut a);
    let e = eng();
    e.cur = id;
    if r != 0 {
        fail(e, V_REFUSED, format!("store of {n} bytes to a destination of {len} was refused"));
    }
    let now = unsafe { bytes_at(at, n) }.to_vec();
    sh().stat(Stat::Checks, 1);
    if now[..] != src.val[..n] {
        wrong(id, "store", &src.val[..n], &now);
    }
    digest(id, e.acts[id].regs.cur_step, &now);
    big_check(id, at, n);
    Some(())
}

fn try_big(id: usize, w: u8, dst: usize, s: &Step) {
    let n = width(w);
    let (at, len) = big(id, s);
    let d = lit(id, s, 0, n, false);
    unsafe { core::ptr::copy_nonoverlapping(d.as_ptr(), at as *mut u8, n) };
    let slot = eng().acts[id].regs.b[w as usize][dst].addr;
    let aux = eng().acts[id].regs.aux.lo;
    begin(id);
    grant(id, at, len, false);
    grant(id, slot, bsize(id, w), true);
    grant(id, aux, n, true);
    let mut a = no_args();
    a.p[0] = slot as *mut u8;
    a.p[1] = at as *mut u8;
    a.n[0] = len;
    a.n[1] = usize::MAX;
    a.p[5] = aux as *mut u8;
    a.n[5] = usize::from(s.pl >> 6 & 1);
    let r = must(id, word(abi::TRY, u32::from(w), 0, 0, 0), &mut a, "try_from");
    let e = eng();
    e.cur = id;
    if r != 0 {
        fail(e, V_REFUSED, format!("try_from refused {len} bytes where {n} suffice"));
    }
    finish_block(id, w, dst, aux, &d, "block from received bytes");
    big_check(id, at, n);
}

fn store(id: usize, w: u8, src: BReg, len: usize, pl: u8, fill: u8) -> Option<()> {
    let e = eng();
    let n = width(w);
    if len < n && !may_misuse(id) {
        return None;
    }
    let at = place_out(id, pl, len.max(1));
    // known content first, in the whole destination and around it
    let before: Vec<u8> = (0..len).map(|i| fill.wrapping_add(i as u8)).collect();
    unsafe { core::ptr::copy_nonoverlapping(before.as_ptr(), at as *mut u8, len) };
    shadow_set(at, &before);
    begin(id);
    grant(id, src.addr, bsize(id, w), false);
    let mut a = no_args();
    a.p[0] = at as *mut u8;
    a.p[1] = src.addr as *mut u8;
    a.n[0] = len;
    let wd = word(abi::STORE, u32::from(w), 0, 0, 0);
    if len < n {
        grant(id, at, len, false);
        let r = misuse(id, wd, &mut a);
        refused(id, r, &format!("store of {n} bytes to a destination of {len}"));
        let now = unsafe { bytes_at(at, len) };
        if now != &before[..] {
            let e = eng();
            e.cur = id;
            fail(e, V_DEST, format!("refused store modified its destination: {} became {}", hex(&before), hex(now)));
        }
    } else {
        grant(id, at, n, true);
        let r = engine::call(id, wd, &mut a);
        let e2 = eng();
        e2.cur = id;
        if r != 0 {
            fail(e2, V_REFUSED, format!("store of {n} bytes to a destination of {len} was refused"));
        }
        let now = unsafe { bytes_at(at, len) }.to_vec();
        sh().stat(Stat::Checks, 1);
        if now[n..] != before[n..] {
            fail(e2, V_DEST, format!("store of {n} bytes changed byte(s) beyond them: {}", hex(&now)));
        }
        shadow_set(at, &now);
        if now[..n] != src.val[..n] {
            wrong(id, "store", &src.val[..n], &now[..n]);
        }
        digest(id, e.acts[id].regs.cur_step, &now);
    }
    Some(())
}

/// try_from over the first `have` bytes of d; the rest "has not arrived yet".
/// Returns whether it was accepted.
fn try_from(id: usize, w: u8, dst: usize, d: &[u8], have: usize, pl: u8) -> bool {
    let e = eng();
    let n = width(w);
    let ib = e.acts[id].regs.input;
    // flush against the end of the mapping: nothing at all behind the
    // received bytes; otherwise not-yet-received garbage behind them
    let at;
    let edge = pl & 3 == 2 && e.acts[id].regs.edge[0] != 0;
    if edge {
        at = place_in(id, 2, ib, &d[..have]);
    } else {
        at = place_in(id, 0, ib, &d[..have]);
        e.acts[id].regs.future = (at + have, ib.lo + ib.len);
        let fill: Vec<u8> = (have..ib.len).map(|i| 0xd0 ^ i as u8).collect();
        unsafe { core::ptr::copy_nonoverlapping(fill.as_ptr(), (at + have) as *mut u8, fill.len()) };
        shadow_set(at + have, &fill);
    }
    let slot = e.acts[id].regs.b[w as usize][dst].addr;
    let aux = e.acts[id].regs.aux.lo;
    begin(id);
    grant(id, at, have, false);
    grant(id, slot, bsize(id, w), true);
    grant(id, aux, n, true);
    let mut a = no_args();
    a.p[0] = slot as *mut u8;
    a.p[1] = at as *mut u8;
    a.n[0] = have;
    a.n[1] = usize::MAX;
    a.p[5] = aux as *mut u8;
    a.n[5] = usize::from(pl >> 6 & 1);
    let r = must(id, word(abi::TRY, u32::from(w), 0, 0, 0), &mut a, "try_from");
    let e = eng();
    e.acts[id].regs.future = (0, 0);
    e.cur = id;
    let st = e.acts[id].regs.cur_step;
    sh().stat(Stat::Checks, 1);
    if have >= n {
        if r != 0 {
            fail(e, V_REFUSED, format!("try_from refused {have} bytes where {n} suffice"));
        }
        finish_block(id, w, dst, aux, &d[..n], "block from received bytes");
        true
    } else {
        sh().stat(Stat::ShortRead, 1);
        if r != 1 {
            fail(e, V_NOT_REFUSED, format!("try_from made a {n}-byte value of {have} bytes"));
        }
        if a.n[1] != have {
            fail(e, V_STREAM, format!("try_from of {have} bytes reported {} instead", a.n[1]));
        }
        digest(id, st, &[have as u8]);
        false
    }
}

/// A reader on a stream that arrives cut up arbitrarily: on a refusal it waits
/// for more, as the error tells it to, and it must get every block once, in
/// order. data = cut sizes; the stream itself is derived from n.
fn stream(id: usize, s: &Step) {
    let mut rng = Rng::derive(u64::from(s.n), "stream", 0);
    let len = 64 + rng.idx(200);
    let mut bytes = vec![0; len];
    rng.bytes(&mut bytes);
    let (mut pos, mut arrived, mut cut) = (0usize, 0usize, 0usize);
    let mut w = s.w.min(2);
    let mut out: Vec<u8> = Vec::new();
    let mut spins = 0;
    loop {
        let have = (arrived - pos).min(IN_LEN);
        let mut win = [0u8; IN_LEN];
        let avail = (len - pos).min(IN_LEN);
        win[..avail].copy_from_slice(&bytes[pos..pos + avail]);
        if try_from(id, w, 0, &win, have, s.pl) {
            let n = width(w);
            let v = breg(id, w, 0).val;
            out.extend_from_slice(&v[..n]);
            pos += n;
            if s.pl & 64 != 0 {
                w = rng.below(3) as u8;
            }
        } else {
            if arrived == len {
                if w == 0 {
                    break;
                }
                w -= 1; // tail: smaller blocks
                continue;
            }
            // wait for the next piece
            let c = s.data.get(cut % s.data.len().max(1)).copied().unwrap_or(7);
            cut += 1;
            arrived = (arrived + 1 + c as usize % 40).min(len);
            let e = eng();
            if !e.acts[id].handler && e.started && c & 1 == 1 {
                let t = e.tick + u64::from(c);
                engine::sleep_until(e, t);
            }
        }
        spins += 1;
        if spins > 2000 {
            let e = eng();
            e.cur = id;
            fail(e, V_STREAM, "the reader makes no progress although everything has arrived".to_string());
        }
    }
    if out[..] != bytes[..pos] || len - pos >= 16 {
        let e = eng();
        e.cur = id;
        fail(e, V_STREAM, format!("reassembled stream differs: {} of {len} bytes", out.len()));
    }
}

pub fn join(id: usize, s: &Step) -> Option<()> {
    let form = u32::from(s.form) % 6;
    let (w, nw, cnt) = match form {
        abi::J_X2_FROM_2 => (1u8, 0u8, 2usize),
        abi::J_X2_FROM_1 => (1, 0, 1),
        abi::J_X4_FROM_4 => (2, 0, 4),
        abi::J_X4_FROM_22 => (2, 1, 2),
        abi::J_X4_FROM_1 => (2, 0, 1),
        _ => (2, 1, 1),
    };
    let mut src = [(0usize, 0usize); 4];
    for k in 0..cnt {
        let o = if k < 3 { s.a[1 + k] } else { s.n };
        src[k] = if o == LIT {
            // each literal in its own place
            let d = lit(id, s, k * 64, width(nw), false);
            new_block(id, nw, k.min(NB - 1), 1, &d, 0);
            (id, k.min(NB - 1))
        } else {
            block_of(id, nw, o)?
        };
    }
    let e = eng();
    let dst = (s.a[0] as usize) % NB;
    let slot = e.acts[id].regs.b[w as usize][dst].addr;
    let aux = e.acts[id].regs.aux.lo;
    let mut a = no_args();
    begin(id);
    let mut parts = Vec::new();
    for k in 0..cnt {
        let b = breg(src[k].0, nw, src[k].1);
        grant(id, b.addr, bsize(id, nw), false);
        a.p[1 + k] = b.addr as *mut u8;
        parts.extend_from_slice(&b.val[..width(nw)]);
    }
    grant(id, slot, bsize(id, w), true);
    grant(id, aux, width(w), true);
    a.p[0] = slot as *mut u8;
    // p5 is the byte result, also for J_X4_FROM_4 (sources are p1..p4)
    a.p[5] = aux as *mut u8;
    let want: Vec<u8> = (0..width(w)).map(|i| parts[i % parts.len()]).collect();
    must(id, word(abi::JOIN, u32::from(w), 0, 0, form), &mut a, "joining blocks");
    finish_block(id, w, dst, aux, &want, "joining blocks");
    Some(())
}

fn split(id: usize, s: &Step) -> Option<()> {
    let form = u32::from(s.form) % 3;
    let (w, nw, cnt) = match form {
        abi::S_X2_TO_2 => (1u8, 0u8, 2usize),
        abi::S_X4_TO_4 => (2, 0, 4),
        _ => (2, 1, 2),
    };
    let (o, r) = operand(id, s, w, s.a[1], 0)?;
    let x = breg(o, w, r);
    let e = eng();
    let mut a = no_args();
    begin(id);
    grant(id, x.addr, bsize(id, w), false);
    a.p[4] = x.addr as *mut u8;
    for k in 0..cnt {
        let q = e.acts[id].regs.b[nw as usize][k].addr;
        grant(id, q, bsize(id, nw), true);
        a.p[k] = q as *mut u8;
    }
    must(id, word(abi::SPLIT, u32::from(w), 0, 0, form), &mut a, "splitting a block");
    let n = width(nw);
    for k in 0..cnt {
        let r = &mut eng().acts[id].regs.b[nw as usize][k];
        r.def = true;
        r.val[..n].copy_from_slice(&x.val[k * n..k * n + n]);
    }
    for k in 0..cnt {
        read_back(id, nw, k, "splitting a block");
    }
    Some(())
}

/// Reads a block register back and compares.
pub fn read_back(id: usize, w: u8, r: usize, what: &str) {
    let e = eng();
    let n = width(w);
    let b = e.acts[id].regs.b[w as usize][r];
    let out = e.acts[id].regs.output.lo;
    let mut a = no_args();
    begin(id);
    grant(id, b.addr, bsize(id, w), false);
    grant(id, out, n, true);
    a.p[0] = out as *mut u8;
    a.p[1] = b.addr as *mut u8;
    must(id, word(abi::BYTES, u32::from(w), 0, 0, (r & 1) as u32), &mut a, what);
    let got = unsafe { bytes_at(out, n) }.to_vec();
    shadow_set(out, &got);
    sh().stat(Stat::Checks, 1);
    if got[..] != b.val[..n] {
        wrong(id, what, &b.val[..n], &got);
        eng().acts[id].regs.b[w as usize][r].val[..n].copy_from_slice(&got);
    }
    digest(id, eng().acts[id].regs.cur_step, &got);
}

/// Every value this activity owns is still what it was.
pub fn verify_regs(e: *mut Engine, id: usize) {
    let e = unsafe { &mut *e };
    for w in 0..3u8 {
        for r in 0..NB {
            if e.acts[id].regs.b[w as usize][r].def {
                read_back(id, w, r, "value of a block kept by the caller");
            }
        }
    }
    let probe: [u8; 16] = *b"\x00\x11\x22\x33probe\xc3\xd2\xe1\xf0789";
    for c in 0..NC {
        let e = eng();
        if e.acts[id].regs.c[c].def {
            new_block(id, 0, NB, 1, &probe, 0);
            crypt(id, 0, NB + 1, id, c, id, NB, 0);
        }
    }
}

pub fn eng_acts() -> &'static mut Vec<Act> {
    &mut eng().acts
}

/// Clone, conversion or drop on an activity's own registers.
pub fn key_op(id: usize, op: u32, dst: usize, src: usize) {
    let s = Step { op: op as u8, a: [dst as u16, src as u16, 0, 0], ..Step::default() };
    if exec(id, &s).is_none() {
        let e = eng();
        fail(e, V_HARNESS, "cipher operation without operands".to_string());
    }
}

/// A crash of the process behind an activity: its objects are gone, their
/// memory holds garbage.
pub fn forget(id: usize) {
    let e = eng();
    let z = e.nodes[e.acts[id].node].sizes;
    for i in 0..NC {
        let c = &mut e.acts[id].regs.c[i];
        c.def = false;
        garbage_fill(c.addr, z.cipher[i % 3].0, i as u64);
    }
    for w in 0..3 {
        for b in &mut e.acts[id].regs.b[w] {
            b.def = false;
            garbage_fill(b.addr, z.block[w].0, w as u64);
        }
    }
}

// ---------------------------------------------------------------- rendering

pub unsafe extern "C" fn sink(ctx: *mut u8, p: *const u8, n: usize) -> i32 {
    let e = eng();
    let armed = e.armed;
    e.armed = false;
    let id = ctx as usize;
    if e.acts[id].wear && e.acts[id].age.1 > 0 {
        // every rendering alike, so that all of them fail at the same write
        let k = &mut e.acts[id].sink;
        k.writes += 1;
        let mut r = 0;
        if k.writes == k.fail_at {
            (k.writes, k.failed) = (0, true);
            r = 1 + i32::from(k.panics);
            sh().stat(if k.panics { Stat::SinkPanic } else { Stat::SinkFail }, 1);
        }
        e.armed = armed;
        return r;
    }
    engine::sink_point();
    let e = eng();
    let k = &mut e.acts[id].sink;
    k.writes += 1;
    sh().stat(Stat::SinkWrites, 1);
    let chunk = core::slice::from_raw_parts(p, n);
    let r = if k.failed {
        k.after += 1;
        1
    } else if k.fail_at != 0 && k.writes >= k.fail_at {
        k.failed = true;
        let m = k.accept.min(n.saturating_sub(1));
        k.got.extend_from_slice(&chunk[..m]);
        let p = k.panics;
        sh().stat(if p { Stat::SinkPanic } else if m > 0 { Stat::SinkShort } else { Stat::SinkFail }, 1);
        1 + i32::from(p)
    } else {
        if k.got.len() < 1 << 16 {
            k.got.extend_from_slice(chunk);
        }
        0
    };
    engine::sink_point();
    eng().armed = armed;
    r
}

/// The full rendering, to a sink that does not fail.
fn unfailing(id: usize, wd: u32, tag: u64, of: *mut u8) -> Vec<u8> {
    let e = eng();
    if let Some(t) = e.acts[id].regs.renderings.iter().find(|x| tag != 0 && x.0 == tag) {
        return t.1.clone();
    }
    e.acts[id].sink = SinkState::default();
    let age = core::mem::take(&mut e.acts[id].age);
    let mut b = Args { ctx: id as *mut u8, sink: Some(sink), ..no_args() };
    b.p[1] = of;
    let r = must(id, wd, &mut b, "rendering");
    let e = eng();
    e.acts[id].age = age;
    if r != 0 {
        fail(e, V_SINK, "rendering to a sink that does not fail reported an error".to_string());
    }
    let t = e.acts[id].sink.got.clone();
    if tag != 0 {
        e.acts[id].regs.renderings.push((tag, t.clone()));
    }
    t
}

fn render(id: usize, wd: u32, mut a: Args, s: &Step, full: &[u8]) {
    let e = eng();
    a.sink = Some(sink);
    a.ctx = id as *mut u8;
    e.acts[id].sink = SinkState {
        fail_at: u32::from(s.n),
        accept: s.data.first().map_or(0, |&x| x as usize % 6),
        // where panics unwind, and where another one is not under way already
        panics: cfg!(feature = "host") && e.sink_panics && s.data.first().is_some_and(|x| *x > 215) && may_misuse(id),
        ..Default::default()
    };
    let panics = e.acts[id].sink.panics;
    let r = if panics { misuse(id, wd, &mut a) } else { must(id, wd, &mut a, "rendering") };
    let e = eng();
    if r == abi::PANIC && !e.acts[id].sink.failed {
        fail(e, V_REFUSED, "rendering panicked".to_string());
    }
    if panics && r != abi::PANIC && e.acts[id].sink.failed {
        fail(e, V_SINK, "the sink panicked but the rendering returned".to_string());
    }
    e.cur = id;
    let k = e.acts[id].sink.clone();
    sh().stat(Stat::Checks, 1);
    let show = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(160)]).into_owned();
    if k.after != 0 {
        fail(e, V_SINK, format!("{} write(s) to the sink after it failed", k.after));
    }
    if k.failed {
        if r == 0 {
            fail(e, V_SINK, "the sink failed but the rendering reported success".to_string());
        }
        if !full.starts_with(&k.got) {
            fail(e, V_SINK, format!("accepted output is not a prefix of the full rendering: {}", show(&k.got)));
        }
    } else {
        if r != 0 {
            fail(e, V_SINK, "no sink failure but the rendering reported one".to_string());
        }
        if k.got != full && !e.acts[id].wear {
            fail(e, V_SINK, format!("incomplete or wrong rendering: {} instead of {}", show(&k.got), show(full)));
        }
    }
    digest(id, e.acts[id].regs.cur_step, &k.got);
}

fn block_text(w: u8, form: u8, v: &[u8; 64]) -> Vec<u8> {
    let lower = |l: usize| hex(lane(v, l));
    let upper = |l: usize| hex(lane(v, l)).to_uppercase();
    if w > 0 {
        let k = 1usize << w;
        return if form == 0 {
            let p: Vec<String> = (0..k).map(lower).collect();
            format!("({})", p.join(", ")).into_bytes()
        } else {
            let mut t = String::from("(\n");
            for l in 0..k {
                t += &format!("    {},\n", upper(l));
            }
            t.push(')');
            t.into_bytes()
        };
    }
    let bin = || {
        let mut t = String::new();
        for b in lane(v, 0) {
            for i in (0..8).rev() {
                t.push(if b >> i & 1 == 1 { '1' } else { '0' });
            }
        }
        t
    };
    match form {
        0 | 2 => lower(0),
        1 | 3 => upper(0),
        4 => bin(),
        5 => format!("0b{}", bin()),
        6 => lower(0),
        7 => format!("0x{}", lower(0)),
        8 => upper(0),
        _ => format!("0X{}", upper(0)),
    }
    .into_bytes()
}
