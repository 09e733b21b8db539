//! Scenarios: who calls what on which node, under which scheduling policy and
//! which faults. Everything is derived from (seed, property, run number).

use crate::abi;
use crate::engine::{Engine, NodeRt, St};
use crate::exec::{klen, LIT, NB, NC, OUTER, SHARED};
use crate::net::{self, NetCfg};
use crate::prng::Rng;
use alloc::string::String;
use alloc::vec;
use alloc::vec::Vec;

pub const S_STREAM: u8 = 64;
pub const S_VERIFY: u8 = 65;
pub const S_ENDUR: u8 = 67;
pub const S_SLEEP: u8 = 68;
pub const S_PROBE: u8 = 70;
pub const S_LAP: u8 = 69;
/// The same refused or failing call, many times over.
pub const S_WEAR: u8 = 71;

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Step {
    pub op: u8,
    pub w: u8,
    pub dir: u8,
    pub form: u8,
    pub pl: u8,
    pub n: u16,
    pub a: [u16; 4],
    pub data: Vec<u8>,
}

#[derive(Clone, Copy)]
pub struct Weights {
    /// Per cent of call boundaries that are scheduling points.
    pub boundary: u64,
    pub switch: u64,
    pub intr: u64,
    pub kill: u64,
    pub stall: u64,
    pub scramble: u64,
}

#[derive(Clone)]
pub struct Cfg {
    pub bound: u32,
    pub force: u32,
    pub gap_bits: u32,
    pub gap_fixed: u32,
    pub gap_mul: u32,
    pub pick: u8,
    pub weights: Weights,
    pub kills: u32,
    pub intrs: u32,
    pub stalls: u32,
    pub max_depth: usize,
    pub check_access: bool,
    pub hash_events: bool,
    pub hot: bool,
    pub edge: bool,
    pub garbage: bool,
    pub deny_alloc: bool,
    pub judge_results: bool,
    pub final_verify: bool,
    pub variant: u64,
}

impl Cfg {
    pub fn clone_weights(&self) -> Weights {
        self.weights
    }
}

#[derive(Clone, Default)]
pub struct ActSpec {
    pub node: usize,
    pub setup: bool,
    pub handler: bool,
    pub script: Vec<Step>,
    pub native: Option<fn(*mut Engine, usize)>,
    pub native_kind: u8, // 1 sender, 2 receiver
    pub succeeds: Option<usize>,
    /// Replicas of one group answer alike.
    pub group: u16,
}

#[derive(Clone)]
pub struct Scenario {
    pub prop: u32,
    pub run: u64,
    pub layout: u64,
    pub sched: u64,
    pub cfg: Cfg,
    pub acts: Vec<ActSpec>,
    pub net: NetCfg,
}

pub const PROPS: [&str; 18] =
    ["", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"];

// ---------------------------------------------------------------- data

/// Key and block material: related values are where caches, comparisons and
/// shortcuts go wrong, so pools come in families.
pub struct Pool {
    pub keys: Vec<[u8; 32]>,
    pub blocks: Vec<[u8; 16]>,
}

fn family(r: &mut Rng, base: &[u8], kind: u64, out: &mut [u8]) {
    let n = out.len();
    for i in 0..n {
        out[i] = base[i % base.len()];
    }
    match kind {
        0 => r.bytes(out),
        1 => {
            // one bit differs
            let b = r.idx(8 * n);
            out[b / 8] ^= 1 << (b % 8);
        }
        2 => {
            // same bytes, other order
            for _ in 0..3 {
                let (i, j) = (r.idx(n), r.idx(n));
                out.swap(i, j);
            }
        }
        3 => {
            // same prefix
            let k = if r.chance(1, 2) && n > 4 { 4 * (1 + r.idx(n / 4 - 1)) } else { r.idx(n) };
            r.bytes(&mut out[k..]);
        }
        4 => {
            // same suffix
            let k = if r.chance(1, 2) && n > 4 { 4 * (1 + r.idx(n / 4 - 1)) } else { r.idx(n) };
            r.bytes(&mut out[..k]);
        }
        5 => {
            // same xor and nearly same sum
            let (i, j) = (r.idx(n), r.idx(n));
            if i != j {
                let d = r.next() as u8;
                out[i] ^= d;
                out[j] ^= d;
            }
        }
        6 => out.fill(0),
        7 => out.fill(0xff),
        8 => {
            // few bits set
            out.fill(0);
            for _ in 0..1 + r.idx(3) {
                let b = r.idx(8 * n);
                out[b / 8] |= 1 << (b % 8);
            }
        }
        9 => {
            // repeated 4- or 8-byte word
            let k = [1, 4, 8][r.idx(3)];
            for i in k..n {
                out[i] = out[i - k];
            }
        }
        10 => {
            // rotated
            out.rotate_left(r.idx(n));
        }
        11 => {
            // ascending
            let s = r.next() as u8;
            for (i, o) in out.iter_mut().enumerate() {
                *o = s.wrapping_add(i as u8);
            }
        }
        12 => {
            // one byte replaced by a boundary value
            let i = r.idx(n);
            out[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x63, 0x52, 0x1b, 0x20, 0x0a]);
        }
        _ => {
            // ASCII text
            for o in out.iter_mut() {
                *o = 0x20 + (r.next() % 95) as u8;
            }
        }
    }
}

impl Pool {
    pub fn new(r: &mut Rng) -> Self {
        let mut base = [0u8; 32];
        r.bytes(&mut base);
        let related = r.chance(2, 3);
        let nk = 2 + r.idx(5);
        let mut keys = vec![base];
        for _ in 1..nk {
            let mut k = [0; 32];
            let kind = if related { 1 + r.below(13) } else { r.below(4) / 3 * r.below(14) };
            let b = *r.pick(&keys);
            // related as keys of one of the three sizes
            k = b;
            let n = *r.pick(&[16, 24, 32, 32]);
            family(r, &b[..n], kind, &mut k[..n]);
            if r.chance(1, 6) {
                k = special_key(r, &b, n);
            }
            mention(r, &mut k[..n], 1, 6);
            keys.push(k);
        }
        let mut b0 = [0u8; 16];
        r.bytes(&mut b0);
        let mut blocks = vec![b0];
        for _ in 0..7 {
            let mut b = [0; 16];
            let kind = if r.chance(1, 3) { 0 } else { r.below(14) };
            if r.chance(1, 6) {
                let k = *r.pick(&keys);
                blocks.push(special_block(r, &k));
                continue;
            }
            let base: Vec<u8> = if r.chance(1, 4) { r.pick(&keys)[..16].to_vec() } else { r.pick(&blocks).to_vec() };
            family(r, &base, kind, &mut b);
            mention(r, &mut b, 1, 6);
            blocks.push(b);
        }
        Pool { keys, blocks }
    }
    pub fn key(&self, r: &mut Rng) -> Vec<u8> {
        if r.chance(1, 5) {
            let mut k = vec![0; 32];
            r.bytes(&mut k);
            return k;
        }
        r.pick(&self.keys).to_vec()
    }
    pub fn data(&self, r: &mut Rng) -> Vec<u8> {
        let mut d = Vec::with_capacity(64);
        match r.below(4) {
            0 => {
                // equal lanes
                d.extend_from_slice(&r.pick(&self.blocks)[..]);
            }
            1 => {
                d = vec![0; 64];
                r.bytes(&mut d);
                mention(r, &mut d, 1, 4);
            }
            2 => {
                for _ in 0..4 {
                    d.extend_from_slice(&r.pick(&self.blocks)[..]);
                }
            }
            _ => {
                // one lane unlike the others
                let b = *r.pick(&self.blocks);
                let l = r.idx(4);
                for i in 0..4 {
                    if i == l {
                        d.extend_from_slice(&r.pick(&self.blocks)[..]);
                    } else {
                        d.extend_from_slice(&b);
                    }
                }
                let mut tail = [0; 7];
                r.bytes(&mut tail);
                d.extend_from_slice(&tail);
            }
        }
        d
    }
}

/// Values the library's source mentions: byte patterns and numbers. Whether
/// they mean anything is for the runs to find out.
#[derive(Default)]
pub struct Dict {
    pub words: Vec<Vec<u8>>,
    pub ints: Vec<u64>,
    pub text: alloc::string::String,
}

static mut DICT: Option<Dict> = None;

pub fn dict() -> &'static Dict {
    // the generator is single-threaded
    unsafe { (*core::ptr::addr_of_mut!(DICT)).get_or_insert_with(Dict::default) }
}

/// Lines "dict w HEX" and "dict n NUMBER"; others are skipped.
pub fn set_dict(text: &str) {
    let mut d = Dict::default();
    for l in text.lines() {
        let f: Vec<&str> = l.split_ascii_whitespace().collect();
        if f.len() != 3 || f[0] != "dict" {
            continue;
        }
        if f[1] == "w" {
            let b: Option<Vec<u8>> =
                (0..f[2].len() / 2).map(|i| u8::from_str_radix(f[2].get(2 * i..2 * i + 2)?, 16).ok()).collect();
            d.words.extend(b.filter(|b| !b.is_empty() && b.len() <= 32));
        } else {
            d.ints.extend(f[2].parse::<u64>());
        }
        d.text += l.trim();
        d.text += "\n";
    }
    unsafe { *core::ptr::addr_of_mut!(DICT) = Some(d) }
}

/// Now and then one of those byte patterns somewhere in `out`.
fn mention(r: &mut Rng, out: &mut [u8], num: u64, den: u64) -> bool {
    let words = &dict().words;
    if words.is_empty() || !r.chance(num, den) {
        return false;
    }
    let w = r.pick(words);
    if w.len() > out.len() {
        return false;
    }
    let room = out.len() - w.len();
    let (all, xor, step) = (r.chance(1, 6), r.chance(1, 6), if r.chance(1, 5) { 1 } else { w.len().next_power_of_two() });
    let at = r.idx(room / step + 1) * step;
    for (i, o) in out.iter_mut().enumerate() {
        let k = if all { i % w.len() } else { i.wrapping_sub(at) };
        if k < w.len() {
            *o = if xor { *o ^ w[k] } else { w[k] };
        }
    }
    true
}

/// One of those numbers within the limits.
fn mentioned(r: &mut Rng, lo: u64, hi: u64) -> Option<u64> {
    let v: Vec<u64> = dict().ints.iter().copied().filter(|&x| x >= lo && x <= hi).collect();
    if v.is_empty() {
        return None;
    }
    Some(*r.pick(&v))
}

fn model() -> &'static crate::model::Model {
    static mut M: Option<crate::model::Model> = None;
    // the generator is single-threaded
    unsafe { (*core::ptr::addr_of_mut!(M)).get_or_insert_with(crate::model::Model::new) }
}

/// A block that makes the cipher state take a special value in the middle of
/// an encryption or decryption under `key`.
pub fn special_block(r: &mut Rng, key: &[u8]) -> [u8; 16] {
    let m = model();
    let mut rk = [[0u8; 16]; 15];
    let n = *r.pick(&[16, 24, 32]);
    let nr = m.expand(&key[..n], &mut rk);
    let mut s = match r.below(7) {
        0 | 1 => [0; 16],
        2 => [0x63; 16],
        3 => [0x52; 16],
        4 => [0xff; 16],
        5 => rk[r.idx(nr + 1)],
        _ => [r.next() as u8; 16],
    };
    if !dict().words.is_empty() && r.chance(1, 6) {
        r.bytes(&mut s);
        mention(r, &mut s, 1, 1);
    }
    let zero = [0; 16];
    let at = r.idx(nr);
    if r.chance(1, 2) {
        // state before round at+1 of an encryption
        for i in (1..=at).rev() {
            s = m.dec_last(&m.imc(&crate::model::xor(&s, &rk[i])), &zero);
        }
        crate::model::xor(&s, &rk[0])
    } else {
        // state of a decryption after `at` rounds of the equivalent inverse cipher
        for i in (1..=at).rev() {
            let k = m.imc(&rk[nr - i]);
            s = m.enc_last(&m.mc(&crate::model::xor(&s, &k)), &zero);
        }
        crate::model::xor(&s, &rk[nr])
    }
}

/// A key whose schedule takes special values somewhere, or shares round keys
/// with the schedule of `base`.
pub fn special_key(r: &mut Rng, base: &[u8], n: usize) -> [u8; 32] {
    let m = model();
    let nk = n / 4;
    let mut rk = [[0u8; 16]; 15];
    let nr = m.expand(&base[..n], &mut rk);
    let word = |i: usize| -> [u8; 4] { rk[i / 4][i % 4 * 4..][..4].try_into().unwrap() };
    let last = 4 * (nr + 1) - nk;
    let mut at = r.idx(last + 1);
    let mut x: Vec<[u8; 4]> = (0..nk).map(|i| word(at + i)).collect();
    match r.below(8) {
        // words alike
        0 => x.fill([*r.pick(&[0, 0xff, 0x63, 0x52, 1]); 4]),
        1 => {
            let v = x[0];
            x.fill(v);
        }
        // one special word
        2 | 3 => {
            let i = r.idx(nk);
            x[i] = match r.below(4) {
                0 => [0; 4],
                1 => [0xff; 4],
                2 => [0x52; 4],
                _ => x[(i + 1) % nk],
            };
        }
        // the schedule of the base, shifted
        4 => {
            let to = r.idx(last + 1);
            at = if r.chance(1, 2) { 0 } else { to };
        }
        // the last round key alike, or a round key in the middle
        5 => {
            at = last;
            for (i, v) in x.iter_mut().enumerate() {
                *v = if i < nk - 4 { (r.next() as u32).to_le_bytes() } else { word(last + i) };
            }
            if nk == 4 {
                let i = r.idx(4);
                x[i] = (r.next() as u32).to_le_bytes();
            }
        }
        // some words as in the base
        6 => {
            for v in x.iter_mut() {
                if r.chance(1, 2) {
                    *v = (r.next() as u32).to_le_bytes();
                }
            }
        }
        // halves alike
        _ => {
            for i in nk / 2..nk {
                x[i] = x[i - nk / 2];
            }
        }
    }
    if !dict().words.is_empty() && r.chance(1, 4) {
        let mut b = x.concat();
        mention(r, &mut b, 1, 1);
        for (w, c) in x.iter_mut().zip(b.chunks(4)) {
            w.copy_from_slice(c);
        }
    }
    m.shrink(&mut x, at);
    let mut k = [0u8; 32];
    k.copy_from_slice(&base[..32]);
    for (c, v) in k.chunks_mut(4).zip(&x) {
        c.copy_from_slice(v);
    }
    k
}

pub const SECRET_KINDS: u64 = 16;

/// Secret operand bytes of variant v (C11).
pub fn secret(v: u64, id: usize, step: usize, off: usize, n: usize, key: bool) -> Vec<u8> {
    let mut r = Rng::derive(v, "secret", (id as u64) << 40 | (step as u64) << 16 | off as u64);
    let mut d = vec![0; n];
    // key material every literal of the run shares
    let shared = |d: &mut [u8]| Rng::derive(v, "all", 0).bytes(d);
    match v % SECRET_KINDS {
        0 => d.fill(0),
        1 => d.fill(0xff),
        2 => {
            let b = r.idx(8 * n);
            d[b / 8] = 1 << (b % 8);
        }
        // every literal of the run alike: plaintext equals key
        3 => shared(&mut d),
        4 => {
            let mut q = Rng::derive(v, "lane", 0);
            q.bytes(&mut d);
            let k = 4;
            for i in k..n {
                d[i] = d[i - k];
            }
        }
        5 if key => d.fill(0),
        6 => {
            r.bytes(&mut d);
            let m = *r.pick(&[0x7f, 0x0f, 0x01, 0x55]);
            d.iter_mut().for_each(|b| *b &= m);
        }
        7 => {
            r.bytes(&mut d);
            d[..n / 2].fill(0);
        }
        8 => {
            r.bytes(&mut d);
            d[n / 2..].fill(0);
        }
        9 => {
            r.bytes(&mut d);
            d.iter_mut().for_each(|b| *b |= 0x80);
        }
        10 | 11 | 12 => {
            // special intermediate states under the one key of the run
            let mut k = [0; 32];
            shared(&mut k);
            if key {
                d.copy_from_slice(&k[..n]);
            } else {
                let mut at = 0;
                while at < n {
                    let b = special_block(&mut r, &k);
                    let m = (n - at).min(16);
                    d[at..at + m].copy_from_slice(&b[..m]);
                    at += m;
                }
            }
        }
        13 => {
            // blocks are round keys
            let mut k = [0; 32];
            shared(&mut k);
            if key {
                d.copy_from_slice(&k[..n]);
            } else {
                let mut rk = [[0u8; 16]; 15];
                let l = *r.pick(&[16, 24, 32]);
                let nr = model().expand(&k[..l], &mut rk);
                for c in d.chunks_mut(16) {
                    let i = r.idx(nr + 1);
                    let b = if r.chance(1, 3) { model().imc(&rk[i]) } else { rk[i] };
                    c.copy_from_slice(&b[..c.len()]);
                }
            }
        }
        14 if key => {
            let mut b = [0; 32];
            r.bytes(&mut b);
            d.copy_from_slice(&special_key(&mut r, &b, n)[..n]);
        }
        _ => {
            r.bytes(&mut d);
            mention(&mut r, &mut d, 1, 2);
        }
    }
    d
}

// ---------------------------------------------------------------- scripts

#[derive(Clone)]
pub struct Mix {
    pub w: [u64; 72],
    pub refuse: u64,
    pub sink_fail: u64,
    pub short: u64,
    /// Per cent of steps followed by a short life story of one cipher.
    pub motif: u64,
    /// Chains over hundreds or thousands of keys.
    pub long_lists: bool,
}

impl Mix {
    fn general() -> Self {
        let mut m = Mix { w: [0; 72], refuse: 10, sink_fail: 10, short: 25, motif: 3, long_lists: false };
        for (op, w) in [
            (abi::KEY_NEW, 14),
            (abi::KEY_CLONE, 5),
            (abi::KEY_CONV, 8),
            (abi::KEY_MOVE, 3),
            (abi::KEY_DROP, 2),
            (abi::CRYPT, 40),
            (abi::NEW, 5),
            (abi::BYTES, 6),
            (abi::STORE, 5),
            (abi::TRY, 4),
            (abi::BIN, 5),
            (abi::NOT, 2),
            (abi::EQ, 3),
            (abi::ISZERO, 2),
            (abi::ZERO, 1),
            (abi::ROUND, 10),
            (abi::MC, 4),
            (abi::CHAIN, 5),
            (abi::JOIN, 5),
            (abi::SPLIT, 4),
            (abi::FMT, 1),
            (abi::KEY_FMT, 1),
            (abi::COPY, 1),
            (S_VERIFY as u32, 1),
        ] {
            m.w[op as usize] = w;
        }
        m
    }
    fn set(mut self, l: &[(u32, u64)]) -> Self {
        for &(o, w) in l {
            self.w[o as usize] = w;
        }
        self
    }
    fn only(l: &[(u32, u64)]) -> Self {
        Mix { w: [0; 72], refuse: 10, sink_fail: 10, short: 25, motif: 3, long_lists: false }.set(l)
    }
    /// Swarm: some operations are absent from a run altogether.
    fn swarm(mut self, r: &mut Rng) -> Self {
        if r.chance(3, 4) {
            for (i, w) in self.w.iter_mut().enumerate() {
                if *w > 0 && i != abi::KEY_NEW as usize && i != abi::CRYPT as usize && r.chance(1, 3) {
                    *w = 0;
                }
            }
        }
        if r.chance(1, 4) {
            let i = r.idx(72);
            self.w[i] *= 6;
        }
        self
    }
}

impl Mix {
    /// Nearly everybody does the same thing.
    fn theme(mut self, r: &mut Rng) -> Self {
        let l: Vec<usize> = (0..72).filter(|&i| self.w[i] > 0).collect();
        let i = if r.chance(1, 3) { abi::CRYPT as usize } else { *r.pick(&l) };
        self.w[i] = self.w[i].max(10) * 20;
        self.motif = 0;
        self
    }
}

struct Defs {
    c: [bool; NC],
    b: [[bool; NB]; 3],
}

/// The length of a long slice: around the limits of 8 and 16 bits, and others.
fn long(r: &mut Rng, pl: &mut u8) -> u16 {
    *pl &= !16;
    if let Some(n) = mentioned(r, 97, 65534) {
        if r.chance(1, 3) {
            return n as u16 - 1 + r.below(3) as u16;
        }
    }
    match r.below(8) {
        0 | 1 => 97 + r.below(200) as u16,
        2 => (0x100 << r.below(7)) - 1 + r.below(3) as u16,
        3 => 256 + r.below(80) as u16,
        4 => 128 + 16 * r.below(60) as u16,
        5 => 1 << (7 + r.below(9)),
        6 => 65535 - r.below(3) as u16,
        _ => {
            // 65536 and up to 95 more
            *pl |= 16;
            97 + r.below(96) as u16
        }
    }
}

/// Some of sixteen words.
fn words(r: &mut Rng) -> u16 {
    match r.below(6) {
        0 => r.next() as u16,
        1 => 1 << r.below(16),
        2 => !(1 << r.below(16)),
        3 => *r.pick(&[0x5555, 0xaaaa, 0x3333, 0xcccc, 0x0f0f, 0xf0f0, 0x00ff, 0xff00]),
        k => {
            // the same words of each block
            let m = if k == 4 { 1 << r.below(4) } else { r.below(16) as u16 };
            m * 0x1111
        }
    }
}

/// A random script; references are chosen among registers that will be
/// defined when the step runs.
fn gen_script(r: &mut Rng, m: &Mix, p: &Pool, n: usize, outer: bool, shared: bool) -> Vec<Step> {
    let mut d = Defs { c: [false; NC], b: [[false; NB]; 3] };
    let mut out = Vec::new();
    let total: u64 = m.w.iter().sum();
    while out.len() < n {
        let mut x = r.below(total.max(1));
        let mut op = 0;
        for (i, &w) in m.w.iter().enumerate() {
            if x < w {
                op = i;
                break;
            }
            x -= w;
        }
        let mut s = Step { op: op as u8, w: [0, 0, 1, 1, 2, 2][r.idx(6)], pl: r.next() as u8, ..Step::default() };
        // garbage fill of the slot before rebuilding it: now and then
        if !r.chance(1, 3) {
            s.pl &= !32;
        }
        s.form = r.below(16) as u8;
        let cipher = |r: &mut Rng, d: &Defs| -> Option<u16> {
            let mut v: Vec<u16> = (0..NC).filter(|&i| d.c[i]).map(|i| i as u16).collect();
            if shared {
                for i in 0..NC {
                    v.push(SHARED + i as u16);
                }
            }
            if outer && r.chance(1, 2) {
                v.clear();
                for i in 0..NC {
                    v.push(OUTER + i as u16);
                }
            }
            if v.is_empty() {
                None
            } else {
                Some(*r.pick(&v))
            }
        };
        let block = |r: &mut Rng, d: &Defs, w: u8| -> u16 {
            if r.chance(1, 2) {
                return LIT;
            }
            let mut v: Vec<u16> = (0..NB).filter(|&i| d.b[w as usize][i]).map(|i| i as u16).collect();
            if shared {
                v.push(SHARED + r.below(3) as u16);
            }
            if v.is_empty() {
                LIT
            } else {
                *r.pick(&v)
            }
        };
        let w = s.w as usize;
        s.a[0] = r.below(NB as u64) as u16;
        let dst = s.a[0] as usize;
        match op as u32 {
            abi::KEY_NEW => {
                s.a[0] = r.below(NC as u64) as u16;
                s.dir = r.below(2) as u8;
                s.data = p.key(r);
                s.data.truncate(klen(s.a[0] as usize % 3));
                d.c[s.a[0] as usize] = true;
            }
            abi::KEY_CLONE | abi::KEY_CONV | abi::KEY_MOVE => {
                let Some(c) = cipher(r, &d) else { continue };
                if op as u32 == abi::KEY_MOVE && c >= SHARED {
                    continue;
                }
                let ks = (c % 100) % 3;
                s.a[1] = c;
                s.a[0] = ks + 3 * r.below(2) as u16;
                if s.a[0] == c {
                    s.a[0] = (c + 3) % 6;
                }
                s.n = r.next() as u16;
                if op as u32 == abi::KEY_MOVE {
                    d.c[c as usize] = false;
                }
                d.c[s.a[0] as usize] = true;
            }
            abi::KEY_DROP => {
                let v: Vec<u16> = (0..NC).filter(|&i| d.c[i]).map(|i| i as u16).collect();
                if v.is_empty() {
                    continue;
                }
                s.a[0] = *r.pick(&v);
                s.n = r.next() as u16;
                d.c[s.a[0] as usize] = false;
            }
            abi::KEY_FMT => {
                let Some(c) = cipher(r, &d) else { continue };
                s.a[1] = c;
                sink_params(r, m, &mut s, 40);
            }
            abi::CRYPT => {
                let Some(c) = cipher(r, &d) else { continue };
                s.a[1] = c;
                s.a[2] = block(r, &d, s.w);
                s.data = p.data(r);
                d.b[w][dst] = true;
            }
            abi::NEW | abi::ZERO => {
                s.data = p.data(r);
                d.b[w][dst] = true;
            }
            abi::BYTES | abi::COPY | abi::NOT | abi::ISZERO => {
                s.a[1] = block(r, &d, s.w);
                s.data = p.data(r);
                if op as u32 == abi::COPY || op as u32 == abi::NOT {
                    d.b[w][dst] = true;
                } else if op as u32 == abi::ISZERO && r.chance(1, 2) {
                    s.n = words(r);
                }
            }
            abi::STORE => {
                s.a[1] = block(r, &d, s.w);
                s.data = p.data(r);
                let n = 16 << s.w;
                s.n = if r.chance(m.refuse, 100) {
                    if r.chance(1, 2) {
                        n - 1 - r.below(4) as u16
                    } else {
                        r.below(u64::from(n)) as u16
                    }
                } else if r.chance(1, 12) {
                    long(r, &mut s.pl)
                } else {
                    (n + [0, 0, 0, 1, 7, 16, 31][r.idx(7)]).min(96)
                };
            }
            abi::TRY => {
                s.data = p.data(r);
                let n = 16 << s.w;
                s.n = if r.chance(m.short, 100) {
                    if r.chance(1, 2) {
                        n - 1 - r.below(3) as u16
                    } else {
                        r.below(u64::from(n)) as u16
                    }
                } else if r.chance(1, 12) {
                    long(r, &mut s.pl)
                } else {
                    (n + [0, 0, 1, 5, 16, 32][r.idx(6)]).min(96)
                };
                if s.n >= n {
                    d.b[w][dst] = true;
                }
            }
            abi::BIN | abi::EQ | abi::ROUND => {
                s.a[1] = block(r, &d, s.w);
                s.a[2] = if r.chance(1, 6) && s.a[1] != LIT { s.a[1] } else { block(r, &d, s.w) };
                s.data = p.data(r);
                if op as u32 != abi::EQ {
                    d.b[w][dst] = true;
                } else if r.chance(1, 2) {
                    s.n = words(r);
                }
            }
            abi::MC => {
                s.w = 0;
                s.a[1] = block(r, &d, 0);
                s.data = p.data(r);
                d.b[0][dst] = true;
            }
            abi::CHAIN => {
                s.a[1] = block(r, &d, s.w);
                s.data = p.data(r);
                s.n = if r.chance(m.refuse, 100) {
                    0
                } else if m.long_lists && r.chance(1, 40) {
                    // up to what fits the buffer
                    (200 + r.log(11) as u16).min(2040 >> s.w)
                } else if let Some(n) = mentioned(r, 17, 1023 >> s.w).filter(|_| r.chance(1, 40)) {
                    n as u16 - 1 + r.below(3) as u16
                } else if r.chance(1, 40) {
                    [16, 17, 31, 64, 65, 127, 128, 129, 255, 256, 257, 300][r.idx(12)]
                } else {
                    [1, 1, 2, 3, 5, 10, 11, 13, 15][r.idx(9)]
                };
                if s.n != 0 {
                    d.b[w][dst] = true;
                }
            }
            abi::JOIN => {
                s.form = r.below(6) as u8;
                let nw = if s.form == 3 || s.form == 5 { 1 } else { 0 };
                s.w = if s.form < 2 { 1 } else { 2 };
                for k in 1..4 {
                    s.a[k] = block(r, &d, nw);
                }
                s.n = block(r, &d, nw);
                s.data = p.data(r);
                d.b[s.w as usize][dst] = true;
            }
            abi::SPLIT => {
                s.form = r.below(3) as u8;
                s.w = if s.form == 0 { 1 } else { 2 };
                s.a[1] = block(r, &d, s.w);
                s.data = p.data(r);
                let (nw, k) = [(0, 2), (0, 4), (1, 2)][s.form as usize];
                for i in 0..k {
                    d.b[nw][i] = true;
                }
            }
            abi::FMT => {
                s.a[1] = block(r, &d, s.w);
                s.data = p.data(r);
                sink_params(r, m, &mut s, 24);
            }
            x if x == u32::from(S_STREAM) => {
                s.n = r.next() as u16;
                let k = 1 + r.idx(12);
                s.data = vec![0; k];
                r.bytes(&mut s.data);
            }
            x if x == u32::from(S_ENDUR) => {
                let Some(c) = cipher(r, &d) else { continue };
                s.a[1] = c;
                s.data = p.data(r);
                s.n = r.log(9) as u16;
                d.b[w][dst] = true;
            }
            x if x == u32::from(S_SLEEP) => s.n = r.log(12) as u16,
            x if x == u32::from(S_VERIFY) => {}
            _ => continue,
        }
        out.push(s);
        if m.w[abi::KEY_NEW as usize] > 0 && m.w[abi::CRYPT as usize] > 0 && r.chance(m.motif, 100) {
            motif(r, p, &mut d, &mut out);
        }
    }
    out
}

/// A short life story of one or two ciphers: keyed, used, rebuilt, converted
/// or copied in the same memory, and used again in the same way.
fn motif(r: &mut Rng, p: &Pool, d: &mut Defs, out: &mut Vec<Step>) {
    let c = r.below(6) as u16;
    let c2 = (c + 3) % 6;
    let n = klen(c as usize % 3);
    let dir = r.below(2) as u8;
    let w = r.below(3) as u8;
    let data = p.data(r);
    let same_data = r.chance(1, 2);
    let ka = p.key(r)[..n].to_vec();
    let mut kb = ka.clone();
    match r.below(8) {
        0 => {}
        1 => r.bytes(&mut kb),
        2 | 3 => {
            let k = *r.pick(&[4, 8, 12, 16, 20, 24, 28].iter().copied().filter(|&x| x < n).collect::<Vec<_>>());
            if r.chance(1, 2) {
                r.bytes(&mut kb[k..]);
            } else {
                r.bytes(&mut kb[..k]);
            }
        }
        _ => {
            let kind = 1 + r.below(13);
            family(r, &ka, kind, &mut kb);
        }
    }
    let garbage = if r.chance(1, 4) { 32 } else { 0 };
    let drop = if r.chance(1, 2) { 16 } else { 0 };
    let new = |out: &mut Vec<Step>, c: u16, k: &[u8]| {
        let mut s = Step { op: abi::KEY_NEW as u8, dir, data: k.to_vec(), pl: garbage | drop, ..Step::default() };
        s.a[0] = c;
        out.push(s);
    };
    let copy = |out: &mut Vec<Step>, op: u32, to: u16, from: u16, form: u8| {
        let mut s = Step { op: op as u8, form, ..Step::default() };
        s.a[0] = to;
        s.a[1] = from;
        out.push(s);
    };
    let mut at = r.idx(8);
    let mut crypt = |r: &mut Rng, out: &mut Vec<Step>, c: u16| {
        for _ in 0..1 + r.below(2) {
            let mut s = Step { op: abi::CRYPT as u8, w, pl: r.next() as u8 & 0xdf, ..Step::default() };
            s.a = [at as u16 % NB as u16, c, LIT, 0];
            at += 1;
            s.data = if same_data { data.clone() } else { p.data(r) };
            out.push(s);
        }
    };
    new(out, c, &ka);
    if r.chance(4, 5) {
        crypt(r, out, c);
    }
    match r.below(6) {
        0 | 1 => {
            new(out, c, &kb);
            crypt(r, out, c);
        }
        2 => {
            copy(out, abi::KEY_CONV, c2, c, 0);
            crypt(r, out, c2);
            copy(out, abi::KEY_CONV, c, c2, 0);
            crypt(r, out, c);
        }
        3 => {
            copy(out, *r.pick(&[abi::KEY_CLONE, abi::KEY_CONV]), c2, c, 0);
            new(out, c, &kb);
            crypt(r, out, c2);
            crypt(r, out, c);
        }
        4 => {
            new(out, c2, &kb);
            crypt(r, out, c2);
            crypt(r, out, c);
            copy(out, abi::KEY_CLONE, c2, c, 1);
            crypt(r, out, c2);
            new(out, c, &kb);
            crypt(r, out, c2);
        }
        _ => {
            copy(out, abi::KEY_MOVE, c2, c, 0);
            crypt(r, out, c2);
            new(out, c, &kb);
            crypt(r, out, c);
            crypt(r, out, c2);
        }
    }
    d.c[c as usize] = true;
    for o in &out[..] {
        if u32::from(o.op) == abi::CRYPT && o.w == w {
            d.b[w as usize][o.a[0] as usize] = true;
        }
    }
}

/// Every call twice or more, so that the second one may find what the first
/// one left behind.
fn echo(r: &mut Rng, p: &Pool, ks: u16, w: u8) -> Vec<Step> {
    let mut out = Vec::new();
    let n = klen(ks as usize);
    let dir = r.below(2) as u8;
    for _ in 0..4 {
        let data = p.data(r);
        let mut list = Vec::new();
        let mut s = Step { op: abi::KEY_NEW as u8, dir, data: p.key(r)[..n].to_vec(), ..Step::default() };
        s.a[0] = ks;
        list.push(s);
        for op in [abi::KEY_CONV, abi::CRYPT, abi::KEY_CLONE, abi::CRYPT] {
            let mut s = Step { op: op as u8, w, ..Step::default() };
            if op == abi::CRYPT {
                s.a = [r.below(NB as u64) as u16, ks + 3 * r.below(2) as u16, LIT, 0];
                s.data = data.clone();
            } else {
                (s.a[0], s.a[1]) = (ks + 3, ks);
            }
            list.push(s);
        }
        let op = *r.pick(&[abi::FMT, abi::KEY_FMT, abi::STORE, abi::TRY]);
        let mut s = Step { op: op as u8, w, data, form: r.below(2) as u8, ..Step::default() };
        s.a = [0, if op == abi::KEY_FMT { ks } else { LIT }, LIT, LIT];
        s.n = if op == abi::STORE || op == abi::TRY { 16 << w } else { 0 };
        list.push(s);
        for s in list {
            for _ in 0..1 + r.below(4) {
                out.push(s.clone());
            }
        }
    }
    out
}

fn sink_params(r: &mut Rng, m: &Mix, s: &mut Step, writes: u64) {
    s.n = if r.chance(m.sink_fail, 100) { 1 + r.below(writes) as u16 } else { 0 };
    if s.data.is_empty() {
        s.data = vec![0];
    }
    if r.chance(1, 2) {
        s.data[0] = r.next() as u8;
    }
}

/// Shared objects: all cipher registers and three blocks of each width.
fn gen_setup(r: &mut Rng, p: &Pool) -> Vec<Step> {
    let mut v = Vec::new();
    for c in 0..NC as u16 {
        let via = r.below(3);
        let mut s = Step { op: abi::KEY_NEW as u8, ..Step::default() };
        s.a[0] = c;
        s.dir = r.below(2) as u8;
        s.data = p.key(r);
        s.data.truncate(klen(c as usize % 3));
        if via == 1 && c >= 3 {
            // a conversion or clone of the earlier one of the same size
            s = Step { op: *r.pick(&[abi::KEY_CLONE, abi::KEY_CONV]) as u8, ..Step::default() };
            s.a[0] = c;
            s.a[1] = c - 3;
        }
        v.push(s);
    }
    for w in 0..3u8 {
        for b in 0..3u16 {
            let mut s = Step { op: abi::NEW as u8, w, form: r.below(4) as u8, ..Step::default() };
            s.a[0] = b;
            s.data = p.data(r);
            v.push(s);
        }
    }
    v
}

// ---------------------------------------------------------------- policies

fn base_cfg() -> Cfg {
    Cfg {
        bound: 4_000_000,
        force: 50_000,
        gap_bits: 8,
        gap_fixed: u32::MAX,
        gap_mul: 1,
        pick: 0,
        weights: Weights { boundary: 20, switch: 100, intr: 0, kill: 0, stall: 0, scramble: 0 },
        kills: 0,
        intrs: 0,
        stalls: 0,
        max_depth: 1,
        check_access: false,
        hash_events: false,
        hot: true,
        edge: false,
        garbage: true,
        deny_alloc: false,
        judge_results: true,
        final_verify: true,
        variant: 0,
    }
}

fn policy(r: &mut Rng, c: &mut Cfg) {
    match r.below(10) {
        0 => {
            // lockstep: every few events, round robin
            c.gap_bits = 0;
            c.gap_fixed = 1 + r.below(6) as u32;
            c.pick = 1;
        }
        1 => {
            // call boundaries only
            c.gap_bits = 0;
            c.gap_fixed = u32::MAX;
            c.weights.boundary = 70;
        }
        2 | 3 => c.gap_bits = 3 + r.below(4) as u32,
        4 | 5 => c.gap_bits = 7 + r.below(4) as u32,
        6 | 7 => c.gap_bits = 10 + r.below(4) as u32,
        8 => {
            // rare preemption, long stretches
            c.gap_bits = 6;
            c.gap_mul = 64;
        }
        _ => {
            c.gap_bits = 5 + r.below(8) as u32;
            c.weights.boundary = 0;
        }
    }
    c.pick = if r.chance(1, 4) { 1 } else { c.pick };
    if c.gap_bits != 1 && r.chance(1, 6) {
        c.hot = false;
    }
}

// ---------------------------------------------------------------- scenarios

pub struct Tier {
    pub thorough: bool,
}

/// Counts that are worth the trouble of getting there.
const MANY: (u64, u64) = (1_060_000, 60_000_000);

fn count_to(s: &mut Step, n: u64) {
    s.form = [1, 1, 1, 1, 2, 3, 4][s.n as usize % 7] | 64;
    s.n = (n >> 10) as u16 + 2;
}

/// A single caller that makes all kinds of calls, undisturbed.
pub fn lonely(k: u64, node: usize) -> Scenario {
    let mut r = Rng::derive(k, "alone", 0);
    let pool = Pool::new(&mut r);
    let mut m = Mix::general().set(&[(abi::FMT, 40), (abi::KEY_FMT, 20), (abi::CHAIN, 8)]);
    (m.refuse, m.sink_fail) = (0, 0);
    let setup = gen_setup(&mut r, &pool);
    let script = gen_script(&mut r, &m, &pool, 60, false, true);
    let acts = vec![
        ActSpec { node, setup: true, script: setup, ..ActSpec::default() },
        ActSpec { node, script, ..ActSpec::default() },
    ];
    let mut cfg = base_cfg();
    (cfg.gap_bits, cfg.weights.boundary) = (0, 0);
    Scenario { prop: 17, run: k, layout: r.next(), sched: 0, cfg, acts, net: NetCfg::default() }
}

/// The scenario of run `run` of property `prop` over the available nodes.
/// Scripts depend only on (seed, prop, run), never on which nodes there are.
pub fn generate(prop: u32, seed: u64, run: u64, nodes: &[NodeRt], thorough: bool) -> Scenario {
    let name = PROPS[prop as usize];
    let mut r = Rng::derive(seed, name, run);
    let mut fr = Rng::derive(seed ^ 0x5151, name, run); // fleet
    let mut pr = Rng::derive(seed ^ 0x7272, name, run); // policy
    let layout = fr.next();
    let sched = fr.next();
    let mut cfg = base_cfg();
    policy(&mut pr, &mut cfg);
    let pool = Pool::new(&mut r);
    let nn = nodes.len();
    let mut acts: Vec<ActSpec> = Vec::new();
    let mut netc = NetCfg::default();
    let gen = Mix::general().swarm(&mut r);
    let mut clients = 2 + r.idx(4);
    let mut len = 2 + r.log(5) as usize;
    // now and then a crowd: many callers with little to do, all alike
    let crowd = matches!(prop, 1 | 3 | 4 | 13..=17) && r.chance(1, 10);
    let gen = if crowd { gen.theme(&mut r) } else { gen };
    if crowd {
        clients = 8 + r.idx(if prop == 3 { 32 } else { 20 });
        len = 1 + r.idx(4);
    }

    // the nodes of this run: mostly one image shared by all
    let fleet_n = if prop == 2 || fr.chance(2, 3) { 1 } else { 2 + fr.idx(2) };
    let mut eligible: Vec<usize> = (0..nn).collect();
    if prop == 11 {
        eligible.retain(|&i| nodes[i].ct);
    }
    let fleet: Vec<usize> = (0..fleet_n).map(|_| *fr.pick(&eligible)).collect();
    // now and then nothing has been used before the callers meet
    let cold = matches!(prop, 1 | 2 | 3 | 4 | 10 | 13..=17) && r.chance(1, if prop == 2 { 3 } else { 8 });
    let node_of = |i: usize| fleet[i % fleet.len()];
    let mut setup_script = gen_setup(&mut r, &pool);
    if matches!(prop, 13 | 14 | 16 | 17) {
        setup_script.insert(0, Step { op: S_PROBE, ..Step::default() });
    }
    // now and then the process is old: it has made many calls of one kind before
    let native = cfg!(target_arch = "x86_64");
    let old = prop != 9 && run % if native && prop < 12 { 256 } else { 512 } == 5;
    let cold = cold && !old;
    if old {
        let wear = match prop {
            5 | 6 | 7 => r.chance(5, 6),
            11 | 12 => false,
            _ => r.chance(1, 4),
        };
        let n = 33_000 + r.below(4_000) as u16;
        let form = if r.chance(2, 3) || prop == 11 { r.below(5) } else { r.below(16) } as u8;
        let mut s = Step { op: S_ENDUR, w: r.below(3) as u8, n, form, dir: r.below(2) as u8, ..Step::default() };
        s.a = [r.below(NB as u64) as u16, SHARED + r.below(6) as u16, r.next() as u16, r.next() as u16];
        s.data = pool.data(&mut r);
        if wear {
            s.op = S_WEAR;
            // refusals take their time under emulation
            s.n = if native { s.n } else { 300 };
            s.pl = r.next() as u8;
            // refusals by panic allocate, so where that is not to happen there are none
            s.form = match prop {
                5 => r.below(2) as u8,
                6 => 2,
                7 => 3 + r.below(4) as u8,
                13..=17 => *r.pick(&[2, 3, 5, 6]),
                _ => r.below(7) as u8,
            };
        }
        if native && run % 4096 == 5 {
            s.form |= 32;
            // or as many as the library mentions
            if let Some(n) = mentioned(&mut r, MANY.0, 8_000_000).filter(|_| !wear) {
                count_to(&mut s, n);
            }
        }
        setup_script.push(s);
    }
    let mut setups = |acts: &mut Vec<ActSpec>, fleet: &[usize]| {
        for &n in fleet {
            if cold {
                break;
            }
            if !acts.iter().any(|a| a.setup && a.node == n) {
                acts.push(ActSpec { node: n, setup: true, script: setup_script.clone(), ..ActSpec::default() });
            }
        }
    };

    // now and then somebody laps the others: as many calls as a small count
    // takes to come round, while they are where they are
    let lap = matches!(prop, 1 | 4 | 13 | 14 | 16 | 17) && r.chance(1, 20);
    if lap {
        let mut step = Step { op: S_LAP, w: r.below(3) as u8, form: r.below(8) as u8, dir: r.below(2) as u8, ..Step::default() };
        step.n = r.below(1 << 12) as u16;
        step.a = [r.below(NB as u64) as u16, r.below(3) as u16, LIT, LIT];
        step.data = pool.data(&mut r);
        // the others do everything twice
        for i in 0..1 + r.idx(2) {
            let script = echo(&mut r, &pool, step.a[1], step.w);
            acts.push(ActSpec { node: node_of(0), script, ..ActSpec::default() });
            if i == 0 {
                acts.push(ActSpec { node: node_of(0), handler: prop == 4, script: vec![step.clone()], ..ActSpec::default() });
            }
        }
        clients = 0;
    }

    match prop {
        1 => {
            // C01: shared ciphers, every interleaving
            setups(&mut acts, &fleet);
            for i in 0..clients {
                let script = gen_script(&mut r, &gen, &pool, len, false, !cold);
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
        }
        2 => {
            // C02: races, and accesses outside what a call was given
            setups(&mut acts, &fleet);
            let mut m = gen.clone();
            m.refuse = 10;
            cfg.check_access = true;
            cfg.edge = fr.chance(1, 2);
            for i in 0..clients {
                let script = gen_script(&mut r, &m, &pool, len, false, !cold);
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
        }
        3 => {
            // C03: callers die or freeze in the middle of calls
            setups(&mut acts, &fleet);
            cfg.weights.kill = 25;
            cfg.weights.stall = 25;
            cfg.kills = 1 + pr.below(3) as u32;
            cfg.stalls = 1 + pr.below(4) as u32;
            cfg.bound = 1_000_000;
            if crowd {
                cfg.weights.kill = 60;
                cfg.kills = clients as u32 - 2;
                cfg.stalls = pr.below(20) as u32;
            }
            for i in 0..clients + 1 {
                let script = gen_script(&mut r, &gen, &pool, len, false, !cold);
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
            // latecomers: arrive when others have died already
            for i in 0..2 {
                let mut script = gen_script(&mut r, &gen, &pool, 4, false, !cold);
                let n = 5_000 + r.below(50_000) as u16;
                script.insert(0, Step { op: S_SLEEP, n, ..Step::default() });
                script.push(Step { op: S_VERIFY, ..Step::default() });
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
        }
        4 => {
            // C04: interrupts inside calls, nested
            setups(&mut acts, &fleet);
            cfg.weights.switch = if pr.chance(1, 2) { 0 } else { 20 };
            cfg.weights.intr = 100;
            cfg.intrs = 1 << (2 + pr.below(8));
            cfg.max_depth = 1 + pr.idx(if crowd { 16 } else { 6 });
            let k = if lap { 0 } else { 1 + r.idx(3) };
            for i in 0..k {
                let script = gen_script(&mut r, &gen, &pool, len, false, !cold);
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
            cfg.intrs = if lap { cfg.intrs.min(32) } else { cfg.intrs };
            for i in 0..if lap {
                0
            } else if crowd { 18 } else { 6 } {
                let l = if crowd { 1 + r.idx(3) } else { 2 + r.idx(4) };
                let script = gen_script(&mut r, &gen, &pool, l, true, !cold);
                acts.push(ActSpec { node: node_of(i), handler: true, script, ..ActSpec::default() });
            }
        }
        5 => {
            // C05: refused calls among others
            setups(&mut acts, &fleet);
            let mut m = gen.clone().set(&[(abi::STORE, 45), (abi::CHAIN, 20), (abi::CRYPT, 25)]);
            m.refuse = 60;
            cfg.check_access = true;
            cfg.edge = fr.chance(1, 2);
            for i in 0..clients {
                let script = gen_script(&mut r, &m, &pool, len + 2, false, true);
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
            if pr.chance(1, 2) {
                cfg.weights.intr = 40;
                cfg.intrs = 16;
                for i in 0..2 {
                    let script = gen_script(&mut r, &m, &pool, 4, true, true);
                    acts.push(ActSpec { node: node_of(i), handler: true, script, ..ActSpec::default() });
                }
            }
        }
        6 => {
            // C06: short reads
            setups(&mut acts, &fleet);
            let mut m = Mix::only(&[
                (abi::TRY, 40),
                (u32::from(S_STREAM), 12),
                (abi::CRYPT, 6),
                (abi::KEY_NEW, 3),
                (abi::BYTES, 5),
                (abi::STORE, 4),
                (abi::SPLIT, 3),
            ]);
            m.short = 55;
            cfg.check_access = true;
            cfg.edge = fr.chance(2, 3);
            cfg.weights.scramble = 60;
            for i in 0..clients {
                let script = gen_script(&mut r, &m, &pool, len, false, true);
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
        }
        7 => {
            // C07: failing sinks
            setups(&mut acts, &fleet);
            let mut m = Mix::only(&[
                (abi::FMT, 50),
                (abi::KEY_FMT, 25),
                (abi::CRYPT, 6),
                (abi::KEY_NEW, 6),
                (abi::KEY_CONV, 4),
                (abi::JOIN, 3),
                (abi::TRY, 2),
            ]);
            m.sink_fail = 60;
            for i in 0..clients {
                let script = gen_script(&mut r, &m, &pool, len, false, true);
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
            cfg.gap_bits = cfg.gap_bits.min(7);
            if pr.chance(1, 3) {
                cfg.weights.intr = 40;
                cfg.intrs = 12;
                for i in 0..2 {
                    let script = gen_script(&mut r, &m, &pool, 4, true, true);
                    acts.push(ActSpec { node: node_of(i), handler: true, script, ..ActSpec::default() });
                }
            }
        }
        8 => {
            // C08: two parties and a bad network
            let (x, y) = (*fr.pick(&eligible), *fr.pick(&eligible));
            let mut k = [0; 32];
            let kk = pool.key(&mut r);
            k.copy_from_slice(&kk);
            netc = NetCfg {
                blocks: 6 + r.idx(if thorough { 60 } else { 30 }),
                ks: r.idx(3),
                key: k,
                dir: u8::from(r.chance(1, 4)),
                loss: *pr.pick(&[0, 5, 20, 40]),
                dup: *pr.pick(&[0, 5, 25]),
                flip: *pr.pick(&[0, 10, 30, 50]),
                delay: *pr.pick(&[0, 10, 50, 90]),
                max_delay: 1 << (4 + pr.below(14)),
                crash: *pr.pick(&[0, 0, 2, 8]),
                part: *pr.pick(&[0, 0, 5, 20]),
                quiet_at: 20_000 + pr.below(600_000),
                seed: r.next(),
                rto: 1 << (10 + pr.below(8)),
                spare: 0,
            };
            if old {
                setups(&mut acts, &[if r.chance(1, 3) { x } else { y }]);
            }
            acts.push(ActSpec { node: x, native: Some(net::sender), native_kind: 1, ..ActSpec::default() });
            acts.push(ActSpec { node: y, native: Some(net::receiver), native_kind: 2, ..ActSpec::default() });
            cfg.final_verify = false;
            cfg.weights.stall = 15;
            cfg.stalls = pr.below(6) as u32;
            if fr.chance(1, 3) {
                // other customers of the same nodes
                setups(&mut acts, &[x]);
                let script = gen_script(&mut r, &gen, &pool, len, false, true);
                acts.push(ActSpec { node: x, script, ..ActSpec::default() });
            }
        }
        9 => {
            // C09: long histories of object life and death in the same memory
            setups(&mut acts, &fleet);
            let mut m = gen.clone().set(&[
                (abi::KEY_NEW, 30),
                (abi::KEY_CLONE, 14),
                (abi::KEY_CONV, 18),
                (abi::KEY_MOVE, 12),
                (abi::KEY_DROP, 8),
                (abi::CRYPT, 40),
                (u32::from(S_ENDUR), 3),
                (u32::from(S_VERIFY), 4),
            ]);
            m.refuse = 25;
            m.motif = 12;
            let k = 1 + r.idx(3);
            let l = 10 << r.below(4);
            for i in 0..k {
                let script = gen_script(&mut r, &m, &pool, l as usize, false, true);
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
            cfg.gap_bits = cfg.gap_bits.max(8);
            // endurance: a few runs make one long history of a single kind
            if run % 16 == 7 {
                acts.truncate(fleet.len());
                acts.retain(|a| a.setup);
                // past the width of any 16-bit count, twice in thorough runs
                let mut script = Vec::new();
                for _ in 0..if thorough { 2 } else { 1 } {
                    let n = 33_000 + r.below(if thorough { 32_000 } else { 4_000 }) as u16;
                    let form = if r.chance(1, 2) { r.below(5) } else { r.below(16) } as u8;
                    let mut s = Step { op: S_ENDUR, w: r.below(3) as u8, n, form, dir: r.below(2) as u8, ..Step::default() };
                    s.a[1] = SHARED + r.below(6) as u16;
                    s.data = pool.data(&mut r);
                    // a few past the width of 20 bits
                    if native && run % 256 == 7 {
                        s.form |= 32;
                    }
                    // and to any number the library mentions
                    if let Some(n) = mentioned(&mut r, MANY.0, MANY.1).filter(|&n| native && run % if n < 8_000_000 { 256 } else { 1024 } == 7) {
                        count_to(&mut s, n);
                    }
                    script.push(s);
                }
                if run % 32 == 23 {
                    // exactly until an 8- or 16-bit count comes round
                    script.clear();
                    for form in [16, 17, 17, 17, 17] {
                        let mut s = Step { op: S_ENDUR, w: r.below(3) as u8, form, dir: r.below(2) as u8, ..Step::default() };
                        s.n = r.below(1024) as u16;
                        s.a = [r.below(NB as u64) as u16, r.below(3) as u16, LIT, LIT];
                        s.data = pool.data(&mut r);
                        script.push(s);
                    }
                }
                script.push(Step { op: S_VERIFY, ..Step::default() });
                script.extend(gen_script(&mut r, &gen, &pool, 30, false, true));
                acts.push(ActSpec { node: node_of(0), script, ..ActSpec::default() });
            }
        }
        10 => {
            // C10: adjacent memory
            setups(&mut acts, &fleet);
            let mut m = gen.clone().set(&[(abi::STORE, 16), (abi::BYTES, 14), (abi::TRY, 12), (abi::KEY_NEW, 18)]);
            m.refuse = 15;
            cfg.check_access = true;
            cfg.edge = fr.chance(2, 3);
            cfg.judge_results = false;
            for i in 0..clients {
                let script = gen_script(&mut r, &m, &pool, len, false, !cold);
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
        }
        11 => {
            // C11: event logs under one schedule, different secrets
            setups(&mut acts, &fleet);
            let mut m = Mix::only(&[
                (abi::KEY_NEW, 14),
                (abi::KEY_CLONE, 3),
                (abi::KEY_CONV, 10),
                (abi::KEY_MOVE, 1),
                (abi::KEY_DROP, 2),
                (abi::CRYPT, 34),
                (abi::NEW, 4),
                (abi::BYTES, 5),
                (abi::STORE, 3),
                (abi::TRY, 3),
                (abi::BIN, 6),
                (abi::NOT, 2),
                (abi::ROUND, 16),
                (abi::MC, 8),
                (abi::CHAIN, 8),
                (abi::JOIN, 4),
                (abi::SPLIT, 4),
                (abi::COPY, 1),
            ]);
            m.refuse = 0;
            m.short = 10;
            cfg.hash_events = true;
            cfg.judge_results = false;
            cfg.hot = false;
            cfg.final_verify = false;
            cfg.variant = SECRET_KINDS - 1 + SECRET_KINDS * (1 + r.below(1 << 30));
            let k = 1 + r.idx(3);
            for i in 0..k {
                let script = gen_script(&mut r, &m, &pool, len, false, true);
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
            if pr.chance(1, 4) {
                cfg.weights.kill = 20;
                cfg.kills = 1;
            }
        }
        12 => {
            // C12: replicas on different builds, crash and failover
            if old {
                // one of the replicas' nodes
                setups(&mut acts, &[fr.idx(nn)]);
            }
            let groups = 1 + r.idx(2);
            let members = 2 + r.idx(3);
            let m = gen.clone().set(&[(abi::KEY_FMT, 0), (abi::FMT, 3), (u32::from(S_VERIFY), 2)]);
            cfg.weights.kill = 30;
            cfg.kills = pr.below(4) as u32;
            for g in 0..groups {
                let script = gen_script(&mut r, &m, &pool, len + 6, false, false);
                let start = if old { acts[0].node } else { fr.idx(nn) };
                for i in 0..members {
                    acts.push(ActSpec {
                        node: (start + i * (1 + nn / members.max(1))) % nn,
                        script: script.clone(),
                        group: g as u16 + 1,
                        ..ActSpec::default()
                    });
                    // whoever takes over if this member dies, and again
                    let dead = acts.len() - 1;
                    acts.push(ActSpec {
                        node: fr.idx(nn),
                        succeeds: Some(dead),
                        group: g as u16 + 1,
                        ..ActSpec::default()
                    });
                    let dead = acts.len() - 1;
                    acts.push(ActSpec {
                        node: fr.idx(nn),
                        succeeds: Some(dead),
                        group: g as u16 + 1,
                        ..ActSpec::default()
                    });
                }
            }
        }
        13 | 14 | 16 | 17 => {
            // C13: the allocator fails everything; C14: so does all else
            // outside; C16: callers with processor modes of their own; C17: little work
            setups(&mut acts, &fleet);
            let mut m = gen.clone().set(&[(abi::FMT, 6), (abi::KEY_FMT, 6), (u32::from(S_STREAM), 2)]);
            m.refuse = 0;
            m.sink_fail = 30;
            m.long_lists = true;
            cfg.deny_alloc = prop == 13;
            cfg.max_depth = if prop == 16 { 3 } else { cfg.max_depth };
            for i in 0..clients {
                let script = gen_script(&mut r, &m, &pool, len, false, !cold);
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
            if pr.chance(1, 3) {
                cfg.weights.intr = 40;
                cfg.intrs = 12;
                for i in 0..2 {
                    let script = gen_script(&mut r, &m, &pool, 4, true, !cold);
                    acts.push(ActSpec { node: node_of(i), handler: true, script, ..ActSpec::default() });
                }
            } else if prop == 17 && !lap && pr.chance(1, 2) {
                // others hold what they hold for long, or for ever
                (cfg.weights.kill, cfg.weights.stall) = (25, 25);
                (cfg.kills, cfg.stalls) = (pr.below(3) as u32, 1 + pr.below(4) as u32);
            }
        }
        15 => {
            // C15: little stack
            setups(&mut acts, &fleet);
            let mut m = gen.clone().set(&[(abi::CHAIN, 20), (abi::FMT, 6), (abi::KEY_FMT, 6), (u32::from(S_STREAM), 2)]);
            m.refuse = 0;
            m.sink_fail = 30;
            m.long_lists = true;
            for i in 0..clients {
                let script = gen_script(&mut r, &m, &pool, len, false, !cold);
                acts.push(ActSpec { node: node_of(i), script, ..ActSpec::default() });
            }
            if pr.chance(1, 3) {
                cfg.weights.intr = 40;
                cfg.intrs = 12;
                for i in 0..2 {
                    let script = gen_script(&mut r, &m, &pool, 4, true, !cold);
                    acts.push(ActSpec { node: node_of(i), handler: true, script, ..ActSpec::default() });
                }
            }
        }
        _ => {}
    }
    Scenario { prop, run, layout, sched, cfg, acts, net: netc }
}

/// Two finished replicas of a group that answered a step differently.
pub fn diverged(sc: &Scenario, e: &Engine) -> Option<(usize, usize, usize)> {
    for i in 0..sc.acts.len() {
        let g = sc.acts[i].group;
        if g == 0 || e.acts[i].state != St::Done {
            continue;
        }
        for j in i + 1..sc.acts.len() {
            if sc.acts[j].group != g || e.acts[j].state != St::Done {
                continue;
            }
            let (x, y) = (&e.acts[i].digests, &e.acts[j].digests);
            for k in 0..x.len().min(y.len()) {
                if x[k] != y[k] {
                    return Some((i, j, k));
                }
            }
        }
    }
    None
}

/// The part of a run's outcome that must not depend on the build: the answers
/// of every replica group.
pub fn group_digest(sc: &Scenario, e: &Engine) -> u64 {
    let mut d = 0;
    let mut seen: Vec<u16> = Vec::new();
    for i in 0..sc.acts.len() {
        let g = sc.acts[i].group;
        if g != 0 && e.acts[i].state == St::Done && !seen.contains(&g) {
            seen.push(g);
            for &x in &e.acts[i].digests {
                d = crate::prng::fold(d, x);
            }
        }
    }
    d
}

// ---------------------------------------------------------------- text form

pub fn step_text(s: &Step) -> String {
    alloc::format!(
        "{} {} {} {} {} {} {} {} {} {} {}",
        s.op,
        s.w,
        s.dir,
        s.form,
        s.pl,
        s.n,
        s.a[0],
        s.a[1],
        s.a[2],
        s.a[3],
        if s.data.is_empty() { String::from("-") } else { crate::exec::hex(&s.data) }
    )
}

pub fn step_parse(t: &str) -> Option<Step> {
    let f: Vec<&str> = t.split_ascii_whitespace().collect();
    if f.len() != 11 {
        return None;
    }
    let n = |i: usize| f[i].parse::<u32>().ok();
    let mut s = Step {
        op: n(0)? as u8,
        w: n(1)? as u8,
        dir: n(2)? as u8,
        form: n(3)? as u8,
        pl: n(4)? as u8,
        n: n(5)? as u16,
        a: [n(6)? as u16, n(7)? as u16, n(8)? as u16, n(9)? as u16],
        data: Vec::new(),
    };
    if f[10] != "-" {
        let b = f[10].as_bytes();
        for c in b.chunks(2) {
            s.data.push(u8::from_str_radix(core::str::from_utf8(c).ok()?, 16).ok()?);
        }
    }
    Some(s)
}

pub fn op_name(op: u8) -> &'static str {
    match u32::from(op) {
        abi::KEY_NEW => "cipher-from-key",
        abi::KEY_CLONE => "cipher-clone",
        abi::KEY_CONV => "cipher-convert",
        abi::KEY_DROP => "cipher-drop",
        abi::KEY_MOVE => "cipher-move",
        abi::KEY_FMT => "cipher-render",
        abi::CRYPT => "encrypt/decrypt",
        abi::NEW => "block-from-bytes",
        abi::BYTES => "block-to-bytes",
        abi::STORE => "store_to",
        abi::TRY => "try_from",
        abi::BIN => "bit-op",
        abi::NOT => "not",
        abi::EQ => "eq",
        abi::ISZERO => "is_zero",
        abi::ZERO => "zero",
        abi::ROUND => "round",
        abi::MC => "mix-columns",
        abi::CHAIN => "chain",
        abi::JOIN => "join",
        abi::SPLIT => "split",
        abi::FMT => "block-render",
        abi::COPY => "copy",
        x if x == u32::from(S_STREAM) => "read-stream",
        x if x == u32::from(S_VERIFY) => "verify-all",
        x if x == u32::from(S_ENDUR) => "endurance",
        x if x == u32::from(S_SLEEP) => "sleep",
        x if x == u32::from(S_LAP) => "lap",
        x if x == u32::from(S_PROBE) => "probe",
        x if x == u32::from(S_WEAR) => "wear",
        _ => "?",
    }
}
