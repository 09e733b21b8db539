//! FIPS-197 by tables built at compile time: cheap to interpret. Independent
//! of the code under test; `selftest` compares it with the vectors of
//! FIPS-197 appendix C.

pub type B16 = [u8; 16];

pub struct Model {
    sbox: [u8; 256],
    inv: [u8; 256],
    /// Columns of MixColumns and InvMixColumns times x, first byte lowest.
    mix: [u32; 256],
    imix: [u32; 256],
}

const fn xt(x: u8) -> u8 {
    (x << 1) ^ (if x & 0x80 != 0 { 0x1b } else { 0 })
}

pub static MODEL: Model = Model::new();

impl Model {
    const fn new() -> Self {
        let mut m = Model { sbox: [0; 256], inv: [0; 256], mix: [0; 256], imix: [0; 256] };
        // powers of the generator 3
        let mut exp = [0u8; 256];
        let mut log = [0u8; 256];
        let mut g = 1u8;
        let mut i = 0;
        while i < 255 {
            exp[i] = g;
            log[g as usize] = i as u8;
            g ^= xt(g);
            i += 1;
        }
        exp[255] = exp[0];
        let mut x = 0;
        while x < 256 {
            let y = if x == 0 { 0 } else { exp[255 - log[x] as usize] };
            let s = y ^ y.rotate_left(1) ^ y.rotate_left(2) ^ y.rotate_left(3) ^ y.rotate_left(4) ^ 0x63;
            m.sbox[x] = s;
            m.inv[s as usize] = x as u8;
            let b1 = x as u8;
            let b2 = xt(b1);
            let b4 = xt(b2);
            let b8 = xt(b4);
            m.mix[x] = u32::from_le_bytes([b2, b1, b1, b2 ^ b1]);
            m.imix[x] = u32::from_le_bytes([b8 ^ b4 ^ b2, b8 ^ b1, b8 ^ b4 ^ b1, b8 ^ b2 ^ b1]);
            x += 1;
        }
        m
    }

    pub fn expand(&self, key: &[u8]) -> ([B16; 15], usize) {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w = [0u32; 60];
        for i in 0..nk {
            w[i] = u32::from_le_bytes([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]);
        }
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = self.sub(t.rotate_right(8)) ^ u32::from(rcon);
                rcon = xt(rcon);
            } else if nk > 6 && i % nk == 4 {
                t = self.sub(t);
            }
            w[i] = w[i - nk] ^ t;
        }
        let mut rk = [[0; 16]; 15];
        for r in 0..=nr {
            rk[r] = join([w[4 * r], w[4 * r + 1], w[4 * r + 2], w[4 * r + 3]]);
        }
        (rk, nr)
    }

    fn sub(&self, w: u32) -> u32 {
        let b = w.to_le_bytes();
        let s = &self.sbox;
        u32::from_le_bytes([s[b[0] as usize], s[b[1] as usize], s[b[2] as usize], s[b[3] as usize]])
    }

    fn sub_shift(&self, s: &B16) -> B16 {
        let t = |i: usize| self.sbox[s[i] as usize];
        [t(0), t(5), t(10), t(15), t(4), t(9), t(14), t(3), t(8), t(13), t(2), t(7), t(12), t(1), t(6), t(11)]
    }

    fn inv_sub_shift(&self, s: &B16) -> B16 {
        let t = |i: usize| self.inv[s[i] as usize];
        [t(0), t(13), t(10), t(7), t(4), t(1), t(14), t(11), t(8), t(5), t(2), t(15), t(12), t(9), t(6), t(3)]
    }

    fn mat(&self, s: &B16, m: &[u32; 256]) -> B16 {
        let c = |i: usize| {
            m[s[i] as usize]
                ^ m[s[i + 1] as usize].rotate_left(8)
                ^ m[s[i + 2] as usize].rotate_left(16)
                ^ m[s[i + 3] as usize].rotate_left(24)
        };
        join([c(0), c(4), c(8), c(12)])
    }

    pub fn mc(&self, s: &B16) -> B16 {
        self.mat(s, &self.mix)
    }
    pub fn imc(&self, s: &B16) -> B16 {
        self.mat(s, &self.imix)
    }
    pub fn enc(&self, s: &B16, k: &B16) -> B16 {
        xor(&self.mc(&self.sub_shift(s)), k)
    }
    pub fn enc_last(&self, s: &B16, k: &B16) -> B16 {
        xor(&self.sub_shift(s), k)
    }
    pub fn dec(&self, s: &B16, k: &B16) -> B16 {
        xor(&self.imc(&self.inv_sub_shift(s)), k)
    }
    pub fn dec_last(&self, s: &B16, k: &B16) -> B16 {
        xor(&self.inv_sub_shift(s), k)
    }
    pub fn encrypt_rk(&self, (rk, nr): &([B16; 15], usize), p: &B16) -> B16 {
        let mut s = xor(p, &rk[0]);
        for k in &rk[1..*nr] {
            s = self.enc(&s, k);
        }
        self.enc_last(&s, &rk[*nr])
    }
    pub fn decrypt_rk(&self, (rk, nr): &([B16; 15], usize), c: &B16) -> B16 {
        let mut s = xor(c, &rk[*nr]);
        for k in rk[1..*nr].iter().rev() {
            s = self.imc(&xor(&self.inv_sub_shift(&s), k));
        }
        xor(&self.inv_sub_shift(&s), &rk[0])
    }

    pub fn selftest(&self) -> bool {
        let key: [u8; 32] = core::array::from_fn(|i| i as u8);
        let pt: B16 = core::array::from_fn(|i| (i * 17) as u8);
        let want: [u128; 3] = [
            0x69c4e0d86a7b0430d8cdb78070b4c55a,
            0xdda97ca4864cdfe06eaf70a0ec0d7191,
            0x8ea2b7ca516745bfeafc49904b496089,
        ];
        [16, 24, 32].into_iter().zip(want).all(|(n, w)| {
            let k = self.expand(&key[..n]);
            let c = self.encrypt_rk(&k, &pt);
            c == w.to_be_bytes() && self.decrypt_rk(&k, &c) == pt
        })
    }
}

fn join(w: [u32; 4]) -> B16 {
    let mut o = 0u128;
    for i in [3, 2, 1, 0] {
        o = o << 32 | u128::from(w[i]);
    }
    o.to_le_bytes()
}

pub fn xor(a: &B16, b: &B16) -> B16 {
    (u128::from_le_bytes(*a) ^ u128::from_le_bytes(*b)).to_le_bytes()
}
