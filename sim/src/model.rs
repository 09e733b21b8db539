//! FIPS-197, written from the standard and independent of the code under
//! test: the reference model every result is compared with.

use alloc::vec::Vec;

pub struct Model {
    sbox: [u8; 256],
    inv: [u8; 256],
    mul: [[u8; 256]; 16],
}

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        let hi = a & 0x80;
        a <<= 1;
        if hi != 0 {
            a ^= 0x1b;
        }
        b >>= 1;
    }
    r
}

pub type B16 = [u8; 16];

impl Model {
    pub fn new() -> Self {
        let mut m = Model { sbox: [0; 256], inv: [0; 256], mul: [[0; 256]; 16] };
        for x in 0..=255u8 {
            // multiplicative inverse = x^254
            let mut y = 1u8;
            let mut base = x;
            let mut e = 254u32;
            while e != 0 {
                if e & 1 != 0 {
                    y = gmul(y, base);
                }
                base = gmul(base, base);
                e >>= 1;
            }
            let s = y ^ y.rotate_left(1) ^ y.rotate_left(2) ^ y.rotate_left(3) ^ y.rotate_left(4) ^ 0x63;
            m.sbox[x as usize] = s;
            m.inv[s as usize] = x;
            for f in 0..16u8 {
                m.mul[f as usize][x as usize] = gmul(x, f);
            }
        }
        m
    }

    /// Round keys w[0..Nr+1]; key length 16, 24 or 32.
    pub fn expand(&self, key: &[u8], rk: &mut [B16; 15]) -> usize {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w = [[0u8; 4]; 60];
        for i in 0..nk {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [t[1], t[2], t[3], t[0]].map(|b| self.sbox[b as usize]);
                t[0] ^= rcon;
                rcon = gmul(rcon, 2);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|b| self.sbox[b as usize]);
            }
            for j in 0..4 {
                w[i][j] = w[i - nk][j] ^ t[j];
            }
        }
        for r in 0..=nr {
            for c in 0..4 {
                rk[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]);
            }
        }
        nr
    }

    /// The key whose schedule has the words `x` from word `at` on.
    pub fn shrink(&self, x: &mut [[u8; 4]], at: usize) {
        let nk = x.len();
        for i in (nk..nk + at).rev() {
            // x holds words i - nk + 1 ..= i; drop word i, find word i - nk
            let (new, mut t) = (x[nk - 1], x[nk - 2]);
            if i % nk == 0 {
                let mut rcon = 1u8;
                for _ in 1..i / nk {
                    rcon = gmul(rcon, 2);
                }
                t = [t[1], t[2], t[3], t[0]].map(|b| self.sbox[b as usize]);
                t[0] ^= rcon;
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|b| self.sbox[b as usize]);
            }
            x.copy_within(0..nk - 1, 1);
            x[0] = core::array::from_fn(|j| new[j] ^ t[j]);
        }
    }

    fn sub_shift(&self, s: &B16) -> B16 {
        let mut o = [0; 16];
        for c in 0..4 {
            for r in 0..4 {
                o[4 * c + r] = self.sbox[s[4 * ((c + r) % 4) + r] as usize];
            }
        }
        o
    }

    fn inv_sub_shift(&self, s: &B16) -> B16 {
        let mut o = [0; 16];
        for c in 0..4 {
            for r in 0..4 {
                o[4 * ((c + r) % 4) + r] = self.inv[s[4 * c + r] as usize];
            }
        }
        o
    }

    fn mat(&self, s: &B16, m: [usize; 4]) -> B16 {
        let mut o = [0; 16];
        for c in 0..4 {
            for r in 0..4 {
                let mut v = 0;
                for k in 0..4 {
                    v ^= self.mul[m[(k + 4 - r) % 4]][s[4 * c + k] as usize];
                }
                o[4 * c + r] = v;
            }
        }
        o
    }

    pub fn mc(&self, s: &B16) -> B16 {
        self.mat(s, [2, 3, 1, 1])
    }
    pub fn imc(&self, s: &B16) -> B16 {
        self.mat(s, [14, 11, 13, 9])
    }
    pub fn enc(&self, s: &B16, k: &B16) -> B16 {
        xor(&self.mc(&self.sub_shift(s)), k)
    }
    pub fn enc_last(&self, s: &B16, k: &B16) -> B16 {
        xor(&self.sub_shift(s), k)
    }
    pub fn dec(&self, s: &B16, k: &B16) -> B16 {
        xor(&self.imc(&self.inv_sub_shift(s)), k)
    }
    pub fn dec_last(&self, s: &B16, k: &B16) -> B16 {
        xor(&self.inv_sub_shift(s), k)
    }

    pub fn encrypt(&self, key: &[u8], p: &B16) -> B16 {
        let mut rk = [[0; 16]; 15];
        let nr = self.expand(key, &mut rk);
        self.encrypt_rk(&rk, nr, p)
    }
    pub fn encrypt_rk(&self, rk: &[B16; 15], nr: usize, p: &B16) -> B16 {
        let mut s = xor(p, &rk[0]);
        for k in &rk[1..nr] {
            s = self.enc(&s, k);
        }
        self.enc_last(&s, &rk[nr])
    }
    pub fn decrypt(&self, key: &[u8], c: &B16) -> B16 {
        let mut rk = [[0; 16]; 15];
        let nr = self.expand(key, &mut rk);
        self.decrypt_rk(&rk, nr, c)
    }
    /// The straightforward inverse cipher of FIPS-197 5.3.
    pub fn decrypt_rk(&self, rk: &[B16; 15], nr: usize, c: &B16) -> B16 {
        let mut s = xor(c, &rk[nr]);
        for k in rk[1..nr].iter().rev() {
            s = self.imc(&xor(&self.inv_sub_shift(&s), k));
        }
        xor(&self.inv_sub_shift(&s), &rk[0])
    }

    /// FIPS-197 appendix B and C vectors.
    pub fn selftest(&self) -> bool {
        let mut key = [0u8; 32];
        let mut pt = [0u8; 16];
        for i in 0..32 {
            key[i] = i as u8;
        }
        for i in 0..16 {
            pt[i] = (i * 17) as u8;
        }
        let want: [u128; 3] = [
            0x69c4e0d86a7b0430d8cdb78070b4c55a,
            0xdda97ca4864cdfe06eaf70a0ec0d7191,
            0x8ea2b7ca516745bfeafc49904b496089,
        ];
        for (i, n) in [16, 24, 32].into_iter().enumerate() {
            let c = self.encrypt(&key[..n], &pt);
            if c != want[i].to_be_bytes() || self.decrypt(&key[..n], &c) != pt {
                return false;
            }
            let mut rk = [[0u8; 16]; 15];
            let nr = self.expand(&key[..n], &mut rk);
            for at in 0..=4 * (nr + 1) - n / 4 {
                let mut x: Vec<[u8; 4]> =
                    (at..at + n / 4).map(|j| core::array::from_fn(|b| rk[j / 4][j % 4 * 4 + b])).collect();
                self.shrink(&mut x, at);
                if x.concat() != key[..n] {
                    return false;
                }
            }
        }
        true
    }
}

pub fn xor(a: &B16, b: &B16) -> B16 {
    let mut o = [0; 16];
    for i in 0..16 {
        o[i] = a[i] ^ b[i];
    }
    o
}
