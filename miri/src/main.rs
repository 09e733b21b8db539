//! One simulated execution of several threads sharing ciphers and blocks, for
//! an interpreter that decides every context switch and every store a load
//! may see from one seed. The workload is drawn from the same seed.
//!
//! Arguments: THREADS OPS SKIP (all optional). THREADS and OPS of 0 mean
//! "draw"; SKIP is a comma-separated list of thread.op to leave out.

use aes_crypto::*;
use std::collections::HashSet;
use std::fmt::{Debug, Write};
use std::hash::{BuildHasher, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

mod oracle;
use oracle::Model;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 33) as usize % n
    }
    fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let style = self.below(8);
        core::array::from_fn(|i| match style {
            0 => 0,
            1 => 0xff,
            2 => i as u8,
            _ => (self.next() >> 40) as u8,
        })
    }
}

/// More bytes than any block needs.
fn long(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => 65 + r.below(63),
        1 => 128 + r.below(1000),
        2 => 256 + r.below(70) * 256,
        _ => 65536 + r.below(70),
    }
}

static WRONG: Mutex<Option<String>> = Mutex::new(None);

fn wrong(what: &str, t: usize, k: usize) {
    let mut w = WRONG.lock().unwrap();
    if w.is_none() {
        *w = Some(format!("thread {t} op {k}: {what}"));
    }
}

type B16 = [u8; 16];

trait Suite: Sync {
    fn encrypt(&self, n: usize, p: [B16; 4]) -> [B16; 4];
    fn decrypt(&self, n: usize, p: [B16; 4]) -> [B16; 4];
    /// Through `decrypter().encrypter()` of the shared encrypter.
    fn convert(&self, p: B16) -> (B16, B16);
    fn clone_use(&self, p: B16) -> B16;
    /// A private cipher of another key overwritten by `clone_from` the shared one.
    fn clone_over(&self, p: B16) -> (B16, B16);
    fn render(&self) -> String;
    /// A key set up by the calling thread.
    fn fresh(&self, p: B16) -> (B16, B16);
}

struct Shared<const K: usize, E, D> {
    key: [u8; K],
    enc: E,
    dec: D,
}

fn run_enc<const K: usize, E: AesEncrypt<K>>(c: &E, n: usize, p: [B16; 4]) -> [B16; 4] {
    let b = p.map(AesBlock::from);
    match n {
        0 => {
            let mut o = p;
            for i in 0..4 {
                o[i] = c.encrypt_block(b[i]).into();
            }
            o
        }
        1 => {
            let x: (AesBlock, AesBlock) = c.encrypt_2_blocks((b[0], b[1]).into()).into();
            let y: (AesBlock, AesBlock) = c.encrypt_2_blocks((b[2], b[3]).into()).into();
            [x.0.into(), x.1.into(), y.0.into(), y.1.into()]
        }
        _ => {
            let x: (AesBlock, AesBlock, AesBlock, AesBlock) =
                c.encrypt_4_blocks((b[0], b[1], b[2], b[3]).into()).into();
            [x.0.into(), x.1.into(), x.2.into(), x.3.into()]
        }
    }
}

fn run_dec<const K: usize, D: AesDecrypt<K>>(c: &D, n: usize, p: [B16; 4]) -> [B16; 4] {
    let b = p.map(AesBlock::from);
    match n {
        0 => {
            let mut o = p;
            for i in 0..4 {
                o[i] = c.decrypt_block(b[i]).into();
            }
            o
        }
        1 => {
            let x: (AesBlock, AesBlock) = c.decrypt_2_blocks((b[0], b[1]).into()).into();
            let y: (AesBlock, AesBlock) = c.decrypt_2_blocks((b[2], b[3]).into()).into();
            [x.0.into(), x.1.into(), y.0.into(), y.1.into()]
        }
        _ => {
            let x: (AesBlock, AesBlock, AesBlock, AesBlock) =
                c.decrypt_4_blocks((b[0], b[1], b[2], b[3]).into()).into();
            [x.0.into(), x.1.into(), x.2.into(), x.3.into()]
        }
    }
}

impl<const K: usize, E, D> Suite for Shared<K, E, D>
where
    E: AesEncrypt<K, Decrypter = D> + Sync,
    D: AesDecrypt<K, Encrypter = E> + Sync,
{
    fn encrypt(&self, n: usize, p: [B16; 4]) -> [B16; 4] {
        run_enc(&self.enc, n, p)
    }
    fn decrypt(&self, n: usize, p: [B16; 4]) -> [B16; 4] {
        run_dec(&self.dec, n, p)
    }
    fn convert(&self, p: B16) -> (B16, B16) {
        let d = self.enc.decrypter();
        let e = self.dec.encrypter();
        (e.encrypt_block(p.into()).into(), d.decrypt_block(p.into()).into())
    }
    fn clone_use(&self, p: B16) -> B16 {
        let c = Box::new(self.enc.clone());
        c.encrypt_block(p.into()).into()
    }
    fn clone_over(&self, p: B16) -> (B16, B16) {
        let other: [u8; K] = self.key.map(|b| b ^ 0x5a);
        let (mut e, mut d) = (E::from(other), D::from(other));
        e.clone_from(&self.enc);
        d.clone_from(&self.dec);
        (e.encrypt_block(p.into()).into(), d.decrypt_block(p.into()).into())
    }
    fn render(&self) -> String {
        format!("{:?}{:?}", self.enc, self.dec)
    }
    fn fresh(&self, p: B16) -> (B16, B16) {
        let e = E::from(self.key);
        let d = D::from(self.key);
        (e.encrypt_block(p.into()).into(), d.decrypt_block(p.into()).into())
    }
}

fn shared<const K: usize, E, D>(key: [u8; K]) -> Box<dyn Suite + Send + Sync>
where
    E: AesEncrypt<K, Decrypter = D> + Send + Sync + 'static,
    D: AesDecrypt<K, Encrypter = E> + Send + Sync + 'static,
{
    Box::new(Shared { key, enc: E::from(key), dec: D::from(key) })
}

type DynSuite = Arc<dyn Suite + Send + Sync>;

/// Bytes only: drawn before any library call.
struct Raw {
    k: ([u8; 16], [u8; 24], [u8; 32]),
    plain: [B16; 4],
    keys: [B16; 6],
    input: Vec<u8>,
    want: Vec<([B16; 4], [B16; 4])>,
}

/// Library objects, made by whichever thread needs them first. One job is
/// shared by all threads; in a cold run each thread also has one of its own,
/// so that the first uses of the library in the process coincide.
struct Job<'a> {
    raw: &'a Raw,
    suites: [OnceLock<DynSuite>; 3],
    keys1: OnceLock<[AesBlock; 6]>,
    keys2: OnceLock<[AesBlockX2; 6]>,
    keys4: OnceLock<[AesBlockX4; 6]>,
    block: OnceLock<AesBlock>,
    pos: AtomicUsize,
}

impl<'a> Job<'a> {
    fn new(raw: &'a Raw) -> Self {
        Job {
            raw,
            suites: Default::default(),
            keys1: OnceLock::new(),
            keys2: OnceLock::new(),
            keys4: OnceLock::new(),
            block: OnceLock::new(),
            pos: AtomicUsize::new(0),
        }
    }
    fn suite(&self, s: usize) -> &DynSuite {
        let k = &self.raw.k;
        self.suites[s].get_or_init(|| match s {
            0 => Arc::from(shared::<16, Aes128Enc, Aes128Dec>(k.0)),
            1 => Arc::from(shared::<24, Aes192Enc, Aes192Dec>(k.1)),
            _ => Arc::from(shared::<32, Aes256Enc, Aes256Dec>(k.2)),
        })
    }
    fn keys1(&self) -> &[AesBlock; 6] {
        self.keys1.get_or_init(|| self.raw.keys.map(AesBlock::from))
    }
    fn keys2(&self) -> &[AesBlockX2; 6] {
        self.keys2.get_or_init(|| self.keys1().map(AesBlockX2::from))
    }
    fn keys4(&self) -> &[AesBlockX4; 6] {
        self.keys4.get_or_init(|| self.keys1().map(AesBlockX4::from))
    }
    fn block(&self) -> &AesBlock {
        self.block.get_or_init(|| AesBlock::from(self.raw.plain[0]))
    }
    fn warm(&self) {
        (0..3).for_each(|s| {
            self.suite(s);
        });
        self.keys2();
        self.keys4();
        self.block();
    }
}

fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

/// The wide values share one implementation here.
macro_rules! wide_ops {
    ($name:ident, $t:ty, $n:literal) => {
        fn $name(j: &Job, keys: &[$t; 6], m: &Model, r: &mut Rng, dst: &mut [u8], op: usize) -> Option<String> {
            let lanes = $n / 16;
            let mut raw = [0u8; $n];
            let off = r.below(j.raw.input.len() - $n + 1);
            raw.copy_from_slice(&j.raw.input[off..off + $n]);
            let x = <$t>::from(raw);
            match op {
                0 if r.below(4) == 0 => {
                    // into the front of something long
                    let (o, len) = (r.below(3), long(r));
                    let mut buf = vec![0x3cu8; o + len];
                    x.store_to(&mut buf[o..]);
                    let mut want = vec![0x3cu8; o + len];
                    want[o..o + $n].copy_from_slice(&raw);
                    if buf != want {
                        return Some(format!("store_to with {len} bytes of room"));
                    }
                }
                2 if r.below(4) == 0 => {
                    let (o, len) = (r.below(3), long(r));
                    let mut buf = vec![0x3cu8; o + len];
                    buf[o..o + $n].copy_from_slice(&raw);
                    if <$t>::try_from(&buf[o..]) != Ok(x) {
                        return Some(format!("try_from {len}"));
                    }
                }
                0 => {
                    // accepted store to an unaligned place next to others
                    let o = r.below(3);
                    let before = dst.to_vec();
                    x.store_to(&mut dst[o..]);
                    let mut want = before;
                    want[o..o + $n].copy_from_slice(&raw);
                    if dst != &want[..] {
                        return Some("store_to".into());
                    }
                }
                1 => {
                    let len = r.below($n);
                    let before = dst.to_vec();
                    if quiet(|| x.store_to(&mut dst[..len])).is_ok() {
                        return Some("short store accepted".into());
                    }
                    if dst != &before[..] {
                        return Some("refused store modified its destination".into());
                    }
                }
                2 => {
                    let len = r.below($n + 4).min(j.raw.input.len() - off);
                    let got = <$t>::try_from(&j.raw.input[off..off + len]);
                    let ok = match got {
                        Ok(v) => len >= $n && v == x,
                        Err(e) => len < $n && e == len,
                    };
                    if !ok {
                        return Some(format!("try_from {len}"));
                    }
                }
                3 => {
                    let n = if r.below(4) == 0 { 6 + r.below(20) } else { r.below(6) };
                    let dec = r.below(2) == 1;
                    let many: Vec<$t> = keys.iter().copied().cycle().take(n).collect();
                    let k = &many[..];
                    let got = quiet(|| if dec { x.chain_dec(k) } else { x.chain_enc(k) });
                    match got {
                        Err(()) if n == 0 => {}
                        Ok(v) if n > 0 => {
                            let v: [u8; $n] = v.into();
                            for l in 0..lanes {
                                let mut s: B16 = raw[16 * l..16 * l + 16].try_into().unwrap();
                                s = oracle::xor(&s, &j.raw.keys[0]);
                                for k in j.raw.keys.iter().cycle().take(n).skip(1) {
                                    s = if dec { m.dec(&s, k) } else { m.enc(&s, k) };
                                }
                                if v[16 * l..16 * l + 16] != s {
                                    return Some("chain".into());
                                }
                            }
                        }
                        _ => return Some("chain over a list of keys".into()),
                    }
                }
                4 => {
                    let k = keys[r.below(6)];
                    let kb: [u8; $n] = k.into();
                    let v: [u8; $n] = match r.below(4) {
                        0 => x & k,
                        1 => x | k,
                        2 => x ^ k,
                        _ => !x,
                    }
                    .into();
                    let a: [u8; $n] = core::array::from_fn(|i| raw[i] & kb[i]);
                    let o: [u8; $n] = core::array::from_fn(|i| raw[i] | kb[i]);
                    let e: [u8; $n] = core::array::from_fn(|i| raw[i] ^ kb[i]);
                    let n: [u8; $n] = core::array::from_fn(|i| !raw[i]);
                    if v != a && v != o && v != e && v != n {
                        return Some("bit operation".into());
                    }
                    if (x == k) != (raw == kb) || (x != k) != (raw != kb) || x.is_zero() != (raw == [0; $n]) {
                        return Some("comparison".into());
                    }
                }
                5 => {
                    let k = r.below(6);
                    let (v, w): ($t, fn(&Model, &B16, &B16) -> B16) = match r.below(4) {
                        0 => (x.enc(keys[k]), Model::enc),
                        1 => (x.dec(keys[k]), Model::dec),
                        2 => (x.enc_last(keys[k]), Model::enc_last),
                        _ => (x.dec_last(keys[k]), Model::dec_last),
                    };
                    let v: [u8; $n] = v.into();
                    for l in 0..lanes {
                        let s: B16 = raw[16 * l..16 * l + 16].try_into().unwrap();
                        if v[16 * l..16 * l + 16] != w(m, &s, &j.raw.keys[k]) {
                            return Some("round".into());
                        }
                    }
                }
                _ => {
                    let mut s = String::new();
                    let _ = write!(s, "{x:?}");
                    if s.is_empty() {
                        return Some("rendering".into());
                    }
                }
            }
            None
        }
    };
}
wide_ops!(ops1, AesBlock, 16);
wide_ops!(ops2, AesBlockX2, 32);
wide_ops!(ops4, AesBlockX4, 64);

fn body(shared: &Job, cold: bool, m: &Model, t: usize, ops: usize, seed: u64, skip: &HashSet<(usize, usize)>, dst: &mut [u8]) {
    let own = cold.then(|| Job::new(shared.raw));
    for k in 0..ops {
        let mut r = Rng(seed ^ (t as u64) << 32 ^ k as u64);
        r.next();
        if skip.contains(&(t, k)) {
            continue;
        }
        // threads of a cold run begin with their own objects
        let j = match &own {
            Some(o) if k == 0 || r.below(3) == 0 => o,
            _ => shared,
        };
        let s = if cold && k == 0 { (seed % 3) as usize } else { r.below(3) };
        let bad = match if cold && k == 0 { [0, 2, 7, 8, 12, 14, 16, 11][(seed >> 8) as usize % 8] } else { r.below(19) } {
            0 | 1 => {
                let n = r.below(3);
                (j.suite(s).encrypt(n, j.raw.plain) != j.raw.want[s].0).then(|| format!("encrypt on shared cipher {s}, form {n}"))
            }
            2 | 3 => {
                let n = r.below(3);
                (j.suite(s).decrypt(n, j.raw.plain) != j.raw.want[s].1).then(|| format!("decrypt on shared cipher {s}, form {n}"))
            }
            4 => (j.suite(s).convert(j.raw.plain[1]) != (j.raw.want[s].0[1], j.raw.want[s].1[1]))
                .then(|| "converted cipher".to_string()),
            5 => (j.suite(s).clone_use(j.raw.plain[2]) != j.raw.want[s].0[2]).then(|| "cloned cipher".to_string()),
            6 => {
                let a = Arc::clone(j.suite(s));
                let bad = a.encrypt(0, j.raw.plain) != j.raw.want[s].0;
                drop(a);
                bad.then(|| "encrypt".to_string())
            }
            7 => (j.suite(s).fresh(j.raw.plain[3]) != (j.raw.want[s].0[3], j.raw.want[s].1[3])).then(|| "fresh key".to_string()),
            8 => {
                let key: [u8; 32] = r.bytes();
                let p: B16 = r.bytes();
                let got: B16 = match s {
                    0 => Aes128Enc::from(<[u8; 16]>::try_from(&key[..16]).unwrap()).encrypt_block(p.into()).into(),
                    1 => Aes192Enc::from(<[u8; 24]>::try_from(&key[..24]).unwrap()).encrypt_block(p.into()).into(),
                    _ => Aes256Enc::from(key).encrypt_block(p.into()).into(),
                };
                (got != m.encrypt_rk(&m.expand(&key[..[16, 24, 32][s]]), &p)).then(|| "key of this thread".to_string())
            }
            17 => (j.suite(s).clone_over(j.raw.plain[0]) != (j.raw.want[s].0[0], j.raw.want[s].1[0]))
                .then(|| "cipher overwritten by clone_from".to_string()),
            9 => j.suite(s).render().is_empty().then(|| "rendering".to_string()),
            10 => {
                let b: B16 = (*j.block()).into();
                let u: u128 = (*j.block()).into();
                let z = AesBlock::from(u);
                let text = match r.below(6) {
                    0 => (format!("{:x}", j.block()), format!("{u:032x}")),
                    1 => (format!("{:#X}", j.block()), format!("0X{u:032X}")),
                    2 => (format!("{:b}", j.block()), format!("{u:0128b}")),
                    3 => (format!("{}", z), format!("{}", j.block())),
                    4 => (format!("{:?}", z), format!("{:?}", j.block())),
                    _ => (String::new(), String::new()),
                };
                (u != u128::from_be_bytes(b) || text.0 != text.1).then(|| "block value".to_string())
            }
            11 => {
                let b: B16 = (*j.block()).into();
                let (x, y): (B16, B16) = (j.block().mc().into(), j.block().imc().into());
                (x != m.mc(&b) || y != m.imc(&b)).then(|| "mix columns".to_string())
            }
            12 | 13 => ops1(j, j.keys1(), m, &mut r, dst, (k + t) % 7),
            14 | 15 => ops2(j, j.keys2(), m, &mut r, dst, (k + t) % 7),
            16 => ops4(j, j.keys4(), m, &mut r, dst, (k + t) % 7),
            _ => {
                if r.below(4) == 0 {
                    // this caller dies here, in the middle of the others
                    resume_unwind(Box::new(0u8));
                }
                j.pos.fetch_add(1, Ordering::Relaxed);
                None
            }
        };
        if let Some(w) = bad {
            wrong(&w, t, k);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.first().is_some_and(|x| x == "selftest") {
        std::process::exit(if oracle::MODEL.selftest() { 0 } else { 3 });
    }
    let n = |i: usize| a.get(i).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
    let skip: HashSet<(usize, usize)> = a
        .get(2)
        .map(|s| s.split(',').filter_map(|x| x.split_once('.')).filter_map(|(t, k)| Some((t.parse().ok()?, k.parse().ok()?))).collect())
        .unwrap_or_default();
    // the interpreter's randomness, which is its seed
    let seed = std::collections::hash_map::RandomState::new().build_hasher().finish();
    let mut r = Rng(seed);
    let threads = 2 + r.below(3);
    let ops = 3 + r.below(6);
    let threads = if n(0) > 0 { n(0) } else { threads };
    let ops = if n(1) > 0 { n(1) } else { ops };
    std::panic::set_hook(Box::new(|_| {}));

    let m: &Model = &oracle::MODEL;
    let (k1, k2, k3): ([u8; 16], [u8; 24], [u8; 32]) = (r.bytes(), r.bytes(), r.bytes());
    let plain: [B16; 4] = [r.bytes(), r.bytes(), r.bytes(), r.bytes()];
    let keys: [B16; 6] = [r.bytes(), r.bytes(), r.bytes(), r.bytes(), r.bytes(), r.bytes()];
    let input: Vec<u8> = (0..90).map(|_| r.next() as u8).collect();
    let cold = r.below(2) == 1;
    println!("EXEC seed {seed:016x} threads {threads} ops {ops} cold {}", cold as u8);
    let rks = [m.expand(&k1), m.expand(&k2), m.expand(&k3)];
    let want = rks.iter().map(|k| (plain.map(|p| m.encrypt_rk(k, &p)), plain.map(|p| m.decrypt_rk(k, &p)))).collect();
    let raw = Raw { k: (k1, k2, k3), plain, keys, input, want };
    let job = Job::new(&raw);
    if !cold {
        job.warm();
    }
    let mut out = vec![0xa5u8; threads * 70];
    let mut died = 0;
    std::thread::scope(|s| {
        let hs: Vec<_> = out
            .chunks_mut(70)
            .enumerate()
            .map(|(t, dst)| {
                let (job, skip) = (&job, &skip);
                s.spawn(move || body(job, cold, m, t, ops, seed, skip, dst))
            })
            .collect();
        for h in hs {
            if let Err(e) = h.join() {
                if e.downcast_ref::<u8>().is_some() {
                    died += 1;
                } else {
                    let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string()));
                    wrong(&format!("unexpected panic: {}", t.unwrap_or_default()), 0, 0);
                }
            }
        }
    });
    let w = WRONG.lock().unwrap();
    println!("DONE seed {seed:016x} died {died}");
    if let Some(w) = &*w {
        println!("WRONG-RESULT {w}");
        std::process::exit(70);
    }
}

#[allow(dead_code)]
fn traits<T: Send + Sync + Debug>() {}
#[allow(dead_code)]
fn all_shareable() {
    traits::<Aes128Enc>();
    traits::<Aes128Dec>();
    traits::<Aes192Enc>();
    traits::<Aes192Dec>();
    traits::<Aes256Enc>();
    traits::<Aes256Dec>();
    traits::<AesBlock>();
    traits::<AesBlockX2>();
    traits::<AesBlockX4>();
}
