//! Two parties and a network between them. The sender encrypts a message
//! block by block, in batches of whatever size, the network loses,
//! duplicates, reorders, delays and flips bits, the receiver decrypts what has
//! arrived in batches of whatever size, acknowledges intact blocks, and the
//! sender retransmits what is not acknowledged.

use crate::engine::{self, Engine, Plan, A_NET};
use crate::exec::{self, eng_acts};
use crate::prng::Rng;
use crate::scen::{Scenario, Step};
use crate::shared::*;
use alloc::format;
use alloc::string::ToString;
use alloc::vec;
use alloc::vec::Vec;

#[derive(Clone, Default)]
pub struct NetCfg {
    pub blocks: usize,
    pub ks: usize,
    pub key: [u8; 32],
    /// 0: encrypt to send, 1: decrypt to send (the inverse direction)
    pub dir: u8,
    pub loss: u64,
    pub dup: u64,
    pub flip: u64,
    pub delay: u64,
    pub max_delay: u64,
    pub crash: u64,
    pub part: u64,
    /// Simulated time at which faults stop.
    pub quiet_at: u64,
    pub seed: u64,
    pub rto: u64,
    /// Nodes the receiver may be restarted on.
    pub spare: usize,
}

#[derive(Clone)]
pub struct Packet {
    pub at: u64,
    pub no: u32,
    pub seq: usize,
    pub body: [u8; 16],
    pub intact: bool,
}

pub struct Net {
    pub cfg: NetCfg,
    pub rng: Rng,
    pub plan: Vec<Plan>,
    pub plain: Vec<[u8; 16]>,
    pub link: [Vec<Packet>; 2],
    pub sent: [u32; 2],
    pub acked: Vec<bool>,
    pub got: Vec<Option<[u8; 16]>>,
    pub done: bool,
    pub part_until: u64,
    pub used: bool,
    pub last_at: u64,
    pub batches: u32,
}

impl Net {
    pub fn new(sc: &Scenario, plan: Vec<Plan>) -> Self {
        let cfg = sc.net.clone();
        let mut r = Rng::derive(cfg.seed, "message", 0);
        let mut plain = vec![[0u8; 16]; cfg.blocks];
        let style = r.below(4);
        for (i, p) in plain.iter_mut().enumerate() {
            match style {
                0 => p[15] = i as u8, // counter
                1 => {}               // all equal
                _ => r.bytes(p),
            }
        }
        let n = cfg.blocks;
        Net {
            rng: Rng::derive(cfg.seed, "network", 0),
            cfg,
            plan,
            plain,
            link: [Vec::new(), Vec::new()],
            sent: [0; 2],
            acked: vec![false; n],
            got: vec![None; n],
            done: false,
            part_until: 0,
            used: false,
            last_at: 0,
            batches: 0,
        }
    }
}

const LOST: u32 = 1;
const DUP: u32 = 2;
const FLIP: u32 = 4;
const PART: u32 = 8;

/// The fate of one packet, drawn once and recorded, or replayed.
fn fate(e: *mut Engine, link: usize) -> (u32, u64) {
    let e = unsafe { &mut *e };
    let now = e.tick;
    let no = e.net.sent[link];
    e.net.sent[link] += 1;
    if e.replay {
        let p = e.net.plan.iter().find(|p| p.act as usize == link && p.call == no);
        return p.map_or((0, 1), |p| (p.arg, u64::from(p.ev)));
    }
    let n = &mut e.net;
    if now >= n.cfg.quiet_at {
        return (0, 1);
    }
    let (mut f, mut delay) = (0, 1);
    if now < n.part_until {
        f |= LOST | PART;
    } else if n.rng.chance(n.cfg.part, 1000) {
        n.part_until = now + 1 + n.rng.below(n.cfg.rto * 4);
        f |= LOST | PART;
    }
    if n.rng.chance(n.cfg.loss, 100) {
        f |= LOST;
    }
    if n.rng.chance(n.cfg.dup, 100) {
        f |= DUP;
    }
    if n.rng.chance(n.cfg.flip, 100) {
        f |= FLIP | (n.rng.below(128) as u32) << 8 | (n.rng.below(128) as u32) << 16;
    }
    if n.rng.chance(n.cfg.delay, 100) {
        delay = 1 + n.rng.below(n.cfg.max_delay.max(1));
    }
    if f != 0 || delay != 1 {
        engine::record(Plan { act: link as u16, kind: A_NET, pad: 0, call: no, ev: delay as u32, arg: f });
    }
    (f, delay)
}

fn send(e: *mut Engine, link: usize, seq: usize, body: [u8; 16]) {
    let e = unsafe { &mut *e };
    let (f, delay) = fate(e, link);
    let s = sh();
    s.stat(Stat::NetSent, 1);
    if f & PART != 0 {
        s.stat(Stat::NetPartition, 1);
    }
    if f & LOST != 0 {
        s.stat(Stat::NetLost, 1);
        return;
    }
    let mut p = Packet { at: e.tick + delay, no: e.net.sent[link], seq, body, intact: true };
    if delay > 1 {
        s.stat(Stat::NetDelay, 1);
    }
    if e.net.link[link].iter().any(|q| q.at > p.at) {
        s.stat(Stat::NetReorder, 1);
    }
    if f & DUP != 0 {
        s.stat(Stat::NetDup, 1);
        let mut q = p.clone();
        q.at += delay;
        e.net.link[link].push(q);
    }
    if f & FLIP != 0 {
        s.stat(Stat::NetFlip, 1);
        for sft in [8, 16] {
            let b = (f >> sft & 0x7f) as usize;
            p.body[b / 8] ^= 1 << (b % 8);
        }
        p.intact = p.body == body;
    }
    e.net.link[link].push(p);
}

fn sh() -> &'static mut Shared {
    get()
}

/// Earliest packet on the link that has arrived.
fn recv(e: *mut Engine, link: usize) -> Option<Packet> {
    let e = unsafe { &mut *e };
    let now = e.tick;
    let l = &mut e.net.link[link];
    let i = (0..l.len()).filter(|&i| l[i].at <= now).min_by_key(|&i| (l[i].at, l[i].no))?;
    Some(l.remove(i))
}

fn next_arrival(e: &Engine, link: usize) -> Option<u64> {
    e.net.link[link].iter().map(|p| p.at).min()
}

/// Encrypts or decrypts the given blocks as one batch (1, 2 or 4).
fn batch(id: usize, reg: usize, blocks: &[[u8; 16]], how: u64) -> Vec<[u8; 16]> {
    let w = match blocks.len() {
        4 => 2u8,
        2 => 1,
        _ => 0,
    };
    let n = blocks.len();
    if how & 1 == 0 || w == 0 {
        let cat: Vec<u8> = blocks.concat();
        exec::new_block(id, w, 0, [1, 0, 2, 3][(how >> 1) as usize % 4], &cat, 0);
    } else {
        for (i, b) in blocks.iter().enumerate() {
            exec::new_block(id, 0, i, 1, b, 0);
        }
        let s = Step { a: [0, 0, 1, 2], n: 3, form: if w == 1 { 0 } else { 2 }, ..Step::default() };
        exec::join(id, &s);
    }
    exec::crypt(id, w, 1, id, reg, id, 0, (how >> 3 & 1) as u8 * 64);
    let v = eng_acts()[id].regs.b[w as usize][1].val;
    (0..n).map(|i| *exec::lane(&v, i)).collect()
}

fn key(e: &Engine) -> Vec<u8> {
    e.net.cfg.key[..exec::klen(e.net.cfg.ks)].to_vec()
}

/// The party's cipher, obtained in one of the possible ways.
fn make_cipher(id: usize, ks: usize, dir: u8, key: &[u8], how: u64) -> usize {
    match how % 3 {
        0 => {
            exec::new_cipher(id, ks, dir, key, 0);
            ks
        }
        1 => {
            // via the other direction
            exec::new_cipher(id, ks + 3, 1 - dir, key, 0);
            exec::key_op(id, crate::abi::KEY_CONV, ks, ks + 3);
            ks
        }
        _ => {
            exec::new_cipher(id, ks + 3, dir, key, 0);
            exec::key_op(id, crate::abi::KEY_CLONE, ks, ks + 3);
            exec::key_op(id, crate::abi::KEY_DROP, ks + 3, 0);
            ks
        }
    }
}

pub fn sender(e: *mut Engine, id: usize) {
    let e = unsafe { &mut *e };
    e.net.used = true;
    let mut rng = Rng::derive(e.net.cfg.seed, "sender", 0);
    let k = key(e);
    let (ks, dir, n) = (e.net.cfg.ks, e.net.cfg.dir, e.net.cfg.blocks);
    let reg = make_cipher(id, ks, dir, &k, rng.next());
    let mut due = vec![0u64; n];
    let mut tries = vec![0u32; n];
    loop {
        let e = engine::eng();
        while let Some(p) = recv(e, 1) {
            if p.intact && p.seq < n {
                e.net.acked[p.seq] = true;
            }
        }
        let open: Vec<usize> = (0..n).filter(|&i| !e.net.acked[i]).collect();
        if open.is_empty() {
            break;
        }
        // faults over: everything must be through after a few round trips
        let cfg = &e.net.cfg;
        if e.tick > cfg.quiet_at + cfg.max_delay * 2 && tries.iter().any(|&t| t > 4000) {
            exec::fail(e, V_DELIVERY, "retransmission does not deliver after faults stopped".to_string());
        }
        let now = e.tick;
        let ready: Vec<usize> = open.iter().copied().filter(|&i| due[i] <= now).collect();
        if ready.is_empty() {
            let t = open.iter().map(|&i| due[i]).min().unwrap();
            let t = next_arrival(e, 1).map_or(t, |x| x.min(t)).max(now + 1);
            engine::sleep_until(e, t);
            continue;
        }
        let want = [1, 2, 4][rng.idx(3)];
        let want = if ready.len() >= want { want } else { 1 };
        let start = rng.idx(ready.len() - want + 1);
        let idx = &ready[start..start + want];
        let blocks: Vec<[u8; 16]> = idx.iter().map(|&i| e.net.plain[i]).collect();
        let out = batch(id, reg, &blocks, rng.next());
        let e = engine::eng();
        for (j, &i) in idx.iter().enumerate() {
            if tries[i] > 0 {
                sh().stat(Stat::NetRetransmit, 1);
            }
            tries[i] += 1;
            let now = e.tick;
            if now > e.net.cfg.quiet_at {
                e.net.last_at = now;
            }
            due[i] = now + e.net.cfg.rto;
            send(e, 0, i, out[j]);
        }
        let t = e.tick + 1 + rng.below(600);
        engine::sleep_until(e, t);
    }
    engine::eng().net.done = true;
}

pub fn receiver(e: *mut Engine, id: usize) {
    let e = unsafe { &mut *e };
    let mut rng = Rng::derive(e.net.cfg.seed, "receiver", 0);
    let k = key(e);
    let (ks, dir) = (e.net.cfg.ks, e.net.cfg.dir);
    let mut reg = make_cipher(id, ks, 1 - dir, &k, rng.next());
    loop {
        let e = engine::eng();
        if e.net.done {
            return;
        }
        let now = e.tick;
        let avail = e.net.link[0].iter().filter(|p| p.at <= now).count();
        if avail == 0 {
            let t = next_arrival(e, 0).map_or(now + e.net.cfg.rto, |t| t.max(now + 1));
            engine::sleep_until(e, t.min(now + e.net.cfg.rto));
            continue;
        }
        let want = [1, 2, 4][rng.idx(3)];
        let want = if avail >= want { want } else { 1 };
        let mut ps: Vec<Packet> = Vec::new();
        for _ in 0..want {
            ps.push(recv(e, 0).unwrap());
        }
        // batch neighbours in any order
        if rng.chance(1, 3) {
            ps.reverse();
        }
        e.net.batches += 1;
        let no = e.net.batches;
        let crash = if e.replay {
            e.net.plan.iter().any(|p| p.act == 2 && p.call == no)
        } else {
            let c = now < e.net.cfg.quiet_at && e.net.cfg.crash > 0 && {
                let c = e.net.cfg.crash;
                e.net.rng.chance(c, 100)
            };
            if c {
                engine::record(Plan { act: 2, kind: A_NET, pad: 0, call: no, ev: 0, arg: 0 });
            }
            c
        };
        if crash {
            // everything in memory is gone, only the raw key survives
            sh().stat(Stat::NetCrash, 1);
            exec::forget(id);
            reg = make_cipher(id, ks, 1 - dir, &k, rng.next());
            continue;
        }
        let blocks: Vec<[u8; 16]> = ps.iter().map(|p| p.body).collect();
        let out = batch(id, reg, &blocks, rng.next());
        let e = engine::eng();
        for (j, p) in ps.iter().enumerate() {
            sh().stat(Stat::NetDelivered, 1);
            sh().stat(Stat::Checks, 1);
            if p.intact {
                if out[j] != e.net.plain[p.seq] {
                    let m = format!(
                        "intact block {} of the message, decrypted in a batch of {}, gave {} instead of {}",
                        p.seq,
                        ps.len(),
                        exec::hex(&out[j]),
                        exec::hex(&e.net.plain[p.seq])
                    );
                    e.cur = id;
                    exec::fail(e, V_RESULT, m);
                }
                e.net.got[p.seq] = Some(out[j]);
                send(e, 1, p.seq, [0; 16]);
            } else {
                sh().stat(Stat::NetDamagedDecrypted, 1);
                if out[j] == e.net.plain[p.seq] {
                    e.cur = id;
                    exec::fail(e, V_RESULT, format!("damaged block {} decrypted to the original", p.seq));
                }
            }
        }
    }
}

/// After the run: the whole message has arrived.
pub fn finish(e: *mut Engine) {
    let e = unsafe { &mut *e };
    if !e.net.used {
        return;
    }
    for i in 0..e.net.cfg.blocks {
        if e.net.got[i] != Some(e.net.plain[i]) {
            exec::fail(e, V_DELIVERY, format!("block {i} of the message was never delivered"));
        }
    }
    let c = &e.net.cfg;
    let limit = c.quiet_at + (c.max_delay + c.rto) * 64 + 4_000_000;
    if e.tick > limit {
        let t = e.tick;
        exec::fail(e, V_DELIVERY, format!("delivery took until {t}, {limit} was allowed"));
    }
}
