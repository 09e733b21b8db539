//! One image of the real library, driven through raw pointers by the
//! simulator. Nothing here decides anything: every arm is one public call.
#![cfg_attr(not(feature = "std"), no_std)]
#![allow(clippy::missing_safety_doc)]

include!("../../abi/abi.rs");

extern crate alloc;

use abi::*;
use aes_crypto::*;
use core::fmt::{self, Write};

struct Sink<'a>(&'a Args);

impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let f = self.0.sink.unwrap();
        match unsafe { f(self.0.ctx, s.as_ptr(), s.len()) } {
            0 => Ok(()),
            #[cfg(feature = "std")]
            2 => std::panic::resume_unwind(std::boxed::Box::new(0u8)),
            _ => Err(fmt::Error),
        }
    }
}

#[inline(always)]
unsafe fn r<'a, T>(p: *mut u8) -> &'a T {
    &*p.cast::<T>()
}

#[inline(always)]
unsafe fn put<T>(p: *mut u8, v: T) {
    p.cast::<T>().write(v);
}

/// Writes a block result to its slot and, if wanted, its bytes to p5.
macro_rules! put_block {
    ($a:expr, $t:ty, $n:literal, $v:expr) => {{
        let v: $t = $v;
        put($a.p[0], v);
        if !$a.p[5].is_null() {
            if $a.n[5] == 0 {
                v.store_to(core::slice::from_raw_parts_mut($a.p[5], $n));
            } else {
                *$a.p[5].cast::<[u8; $n]>() = v.into();
            }
        }
        0
    }};
}

macro_rules! block_ops {
    ($name:ident, $t:ty, $n:literal) => {
        unsafe fn $name(op: u32, form: u32, a: &mut Args) -> i32 {
            match op {
                INFO => {
                    a.n[0] = core::mem::size_of::<$t>();
                    a.n[1] = core::mem::align_of::<$t>();
                    0
                }
                NEW => {
                    let b: &[u8; $n] = r(a.p[1]);
                    match form {
                        0 => put_block!(a, $t, $n, <$t>::new(*b)),
                        1 => put_block!(a, $t, $n, <$t>::from(*b)),
                        2 => put_block!(a, $t, $n, <$t>::from(b)),
                        _ => BADOP,
                    }
                }
                BYTES => {
                    let v = *r::<$t>(a.p[1]);
                    match form {
                        0 => {
                            put::<[u8; $n]>(a.p[0], v.into());
                            0
                        }
                        1 => {
                            v.store_to(core::slice::from_raw_parts_mut(a.p[0], $n));
                            0
                        }
                        _ => BADOP,
                    }
                }
                STORE => {
                    let v = *r::<$t>(a.p[1]);
                    v.store_to(core::slice::from_raw_parts_mut(a.p[0], a.n[0]));
                    0
                }
                TRY => {
                    let s = core::slice::from_raw_parts(a.p[1] as *const u8, a.n[0]);
                    match <$t>::try_from(s) {
                        Ok(v) => put_block!(a, $t, $n, v),
                        Err(e) => {
                            a.n[1] = e;
                            1
                        }
                    }
                }
                BIN => {
                    let (x, y) = (*r::<$t>(a.p[1]), *r::<$t>(a.p[2]));
                    let mut z = x;
                    match form {
                        0 => z = x & y,
                        1 => z = x | y,
                        2 => z = x ^ y,
                        3 => z &= y,
                        4 => z |= y,
                        5 => z ^= y,
                        _ => return BADOP,
                    }
                    put_block!(a, $t, $n, z)
                }
                NOT => put_block!(a, $t, $n, !*r::<$t>(a.p[1])),
                EQ if form == 1 => (r::<$t>(a.p[1]) != r::<$t>(a.p[2])) as i32,
                EQ => (r::<$t>(a.p[1]) == r::<$t>(a.p[2])) as i32,
                ISZERO => r::<$t>(a.p[1]).is_zero() as i32,
                ZERO => match form {
                    0 => put_block!(a, $t, $n, <$t>::zero()),
                    1 => put_block!(a, $t, $n, <$t>::default()),
                    _ => BADOP,
                },
                ROUND => {
                    let (x, k) = (*r::<$t>(a.p[1]), *r::<$t>(a.p[2]));
                    match form {
                        0 => put_block!(a, $t, $n, x.enc(k)),
                        1 => put_block!(a, $t, $n, x.dec(k)),
                        2 => put_block!(a, $t, $n, x.enc_last(k)),
                        3 => put_block!(a, $t, $n, x.dec_last(k)),
                        _ => BADOP,
                    }
                }
                CHAIN => {
                    let x = *r::<$t>(a.p[1]);
                    let k = core::slice::from_raw_parts(a.p[2] as *const $t, a.n[0]);
                    match form {
                        0 => put_block!(a, $t, $n, x.chain_enc(k)),
                        1 => put_block!(a, $t, $n, x.chain_dec(k)),
                        _ => BADOP,
                    }
                }
                COPY => put_block!(a, $t, $n, *r::<$t>(a.p[1])),
                FMT => {
                    let v = r::<$t>(a.p[1]);
                    let mut s = Sink(a);
                    let res = match form {
                        0 => write!(s, "{v:?}"),
                        1 => write!(s, "{v:#?}"),
                        10 => write!(s, "{v:>140?}"),
                        11 => write!(s, "{v:x?}"),
                        12 => write!(s, "{v:#X?}"),
                        13 => write!(s, "{v:.3?}"),
                        _ => return BADOP,
                    };
                    res.is_err() as i32
                }
                _ => BADOP,
            }
        }
    };
}

block_ops!(ops_1, AesBlock, 16);
block_ops!(ops_2, AesBlockX2, 32);
block_ops!(ops_4, AesBlockX4, 64);

/// What only the single block has.
unsafe fn ops_single(op: u32, form: u32, a: &mut Args) -> i32 {
    match (op, form) {
        (NEW, 4) => {
            let b: [u8; 16] = *r(a.p[1]);
            put_block!(a, AesBlock, 16, AesBlock::from(u128::from_be_bytes(b)))
        }
        (BYTES, 2) => {
            let v: u128 = (*r::<AesBlock>(a.p[1])).into();
            put(a.p[0], v.to_be_bytes());
            0
        }
        (MC, 0) => put_block!(a, AesBlock, 16, r::<AesBlock>(a.p[1]).mc()),
        (MC, 1) => put_block!(a, AesBlock, 16, r::<AesBlock>(a.p[1]).imc()),
        (FMT, f) if f >= 2 => {
            let v = r::<AesBlock>(a.p[1]);
            let mut s = Sink(a);
            let res = match f {
                2 => write!(s, "{v}"),
                3 => write!(s, "{v:#}"),
                4 => write!(s, "{v:b}"),
                5 => write!(s, "{v:#b}"),
                6 => write!(s, "{v:x}"),
                7 => write!(s, "{v:#x}"),
                8 => write!(s, "{v:X}"),
                9 => write!(s, "{v:#X}"),
                10 => write!(s, "{v:>40}"),
                11 => write!(s, "{v:040x}"),
                12 => write!(s, "{v:#0200b}"),
                13 => write!(s, "{v:.5X}"),
                14 => write!(s, "{v:*<+#60x}"),
                15 => write!(s, "{v:#^50.7?}"),
                _ => return BADOP,
            };
            res.is_err() as i32
        }
        _ => ops_1(op, form, a),
    }
}

unsafe fn join_split(op: u32, form: u32, a: &mut Args) -> i32 {
    type A = AesBlock;
    type B = AesBlockX2;
    type C = AesBlockX4;
    let b = |i: usize| *r::<A>(a.p[i]);
    let d = |i: usize| *r::<B>(a.p[i]);
    match (op, form) {
        (JOIN, J_X2_FROM_2) => put_block!(a, B, 32, B::from((b(1), b(2)))),
        (JOIN, J_X2_FROM_1) => put_block!(a, B, 32, B::from(b(1))),
        (JOIN, J_X4_FROM_4) => put_block!(a, C, 64, C::from((b(1), b(2), b(3), b(4)))),
        (JOIN, J_X4_FROM_22) => put_block!(a, C, 64, C::from((d(1), d(2)))),
        (JOIN, J_X4_FROM_1) => put_block!(a, C, 64, C::from(b(1))),
        (JOIN, J_X4_FROM_2) => put_block!(a, C, 64, C::from(d(1))),
        (SPLIT, S_X2_TO_2) => {
            let (x, y) = <(A, A)>::from(*r::<B>(a.p[4]));
            put(a.p[0], x);
            put(a.p[1], y);
            0
        }
        (SPLIT, S_X4_TO_4) => {
            let (x, y, z, w) = <(A, A, A, A)>::from(*r::<C>(a.p[4]));
            put(a.p[0], x);
            put(a.p[1], y);
            put(a.p[2], z);
            put(a.p[3], w);
            0
        }
        (SPLIT, S_X4_TO_22) => {
            let (x, y) = <(B, B)>::from(*r::<C>(a.p[4]));
            put(a.p[0], x);
            put(a.p[1], y);
            0
        }
        _ => BADOP,
    }
}

macro_rules! cipher_ops {
    ($name:ident, $t:ty, $o:ty, $k:literal, $conv:ident, $one:ident, $two:ident, $four:ident) => {
        unsafe fn $name(op: u32, w: u32, form: u32, a: &mut Args) -> i32 {
            match op {
                INFO => {
                    a.n[2] = core::mem::size_of::<$t>();
                    a.n[3] = core::mem::align_of::<$t>();
                    0
                }
                KEY_NEW => {
                    let k: [u8; $k] = *r(a.p[1]);
                    put(a.p[0], <$t>::from(k));
                    0
                }
                KEY_CLONE if form == 1 => {
                    let d = &mut *a.p[0].cast::<$t>();
                    d.clone_from(r::<$t>(a.p[1]));
                    0
                }
                KEY_CLONE => {
                    put(a.p[0], r::<$t>(a.p[1]).clone());
                    0
                }
                KEY_CONV => {
                    let o: $o = r::<$t>(a.p[1]).$conv();
                    put(a.p[0], o);
                    0
                }
                KEY_DROP => {
                    core::ptr::drop_in_place(a.p[0].cast::<$t>());
                    0
                }
                KEY_MOVE => {
                    let v: $t = a.p[1].cast::<$t>().read();
                    put(a.p[0], v);
                    0
                }
                KEY_FMT => {
                    let v = r::<$t>(a.p[1]);
                    let mut s = Sink(a);
                    let res = match form {
                        0 => write!(s, "{v:?}"),
                        1 => write!(s, "{v:#?}"),
                        2 => write!(s, "{v:x?}"),
                        3 => write!(s, "{v:#X?}"),
                        4 => write!(s, "{v:>60?}"),
                        5 => write!(s, "{v:#.5?}"),
                        _ => return BADOP,
                    };
                    res.is_err() as i32
                }
                CRYPT => {
                    let c = r::<$t>(a.p[1]);
                    match w {
                        0 => put_block!(a, AesBlock, 16, c.$one(*r(a.p[2]))),
                        1 => put_block!(a, AesBlockX2, 32, c.$two(*r(a.p[2]))),
                        2 => put_block!(a, AesBlockX4, 64, c.$four(*r(a.p[2]))),
                        _ => BADOP,
                    }
                }
                _ => BADOP,
            }
        }
    };
}

macro_rules! enc_ops {
    ($name:ident, $t:ty, $o:ty, $k:literal) => {
        cipher_ops!($name, $t, $o, $k, decrypter, encrypt_block, encrypt_2_blocks, encrypt_4_blocks);
    };
}
macro_rules! dec_ops {
    ($name:ident, $t:ty, $o:ty, $k:literal) => {
        cipher_ops!($name, $t, $o, $k, encrypter, decrypt_block, decrypt_2_blocks, decrypt_4_blocks);
    };
}
enc_ops!(e128, Aes128Enc, Aes128Dec, 16);
enc_ops!(e192, Aes192Enc, Aes192Dec, 24);
enc_ops!(e256, Aes256Enc, Aes256Dec, 32);
dec_ops!(d128, Aes128Dec, Aes128Enc, 16);
dec_ops!(d192, Aes192Dec, Aes192Enc, 24);
dec_ops!(d256, Aes256Dec, Aes256Enc, 32);

unsafe fn dispatch(word: u32, a: &mut Args) -> i32 {
    let (op, w, ks, dir, form) = (
        word & 0xff,
        word >> 8 & 0xf,
        word >> 12 & 0xf,
        word >> 16 & 0xf,
        word >> 20,
    );
    let cipher = |a: &mut Args| match (ks, dir) {
        (0, 0) => e128(op, w, form, a),
        (1, 0) => e192(op, w, form, a),
        (2, 0) => e256(op, w, form, a),
        (0, 1) => d128(op, w, form, a),
        (1, 1) => d192(op, w, form, a),
        (2, 1) => d256(op, w, form, a),
        _ => BADOP,
    };
    match op {
        KEY_NEW..=CRYPT => cipher(a),
        JOIN | SPLIT => join_split(op, form, a),
        AGE => {
            let (inner, pre) = (a.p[0].cast::<Args>(), a.p[3].cast::<Args>());
            let mut first = None;
            for _ in 0..a.n[0] {
                if !pre.is_null() {
                    let _ = node_call(a.n[3] as u32, pre);
                }
                let res = node_call(a.n[1] as u32, inner);
                let mut h: u64 = 0xcbf2_9ce4_8422_2325;
                for i in 0..a.n[2] {
                    h = (h ^ *a.p[1].add(i) as u64).wrapping_mul(0x100_0000_01b3);
                }
                if *first.get_or_insert((res, h)) != (res, h) {
                    return AGED;
                }
            }
            first.map_or(0, |f| f.0)
        }
        ALLOC_SELFTEST => {
            let l = core::alloc::Layout::new::<u64>();
            let p = core::hint::black_box(alloc::alloc::alloc(core::hint::black_box(l)));
            if p.is_null() {
                return 1;
            }
            alloc::alloc::dealloc(p, l);
            0
        }
        // leaves a trace in the floating-point flags
        ENV_SELFTEST if form == 5 => {
            let x = core::hint::black_box(1f32) / core::hint::black_box(3f32);
            (core::hint::black_box(x) > 1f32) as i32
        }
        // is slow
        ENV_SELFTEST if form == 6 => {
            let mut x = 0;
            while core::hint::black_box(&mut x) < &mut 2000 {
                x += 1;
            }
            0
        }
        #[cfg(feature = "std")]
        ENV_SELFTEST => match form {
            0 => std::env::var_os("PATH").is_some() as i32,
            1 => std::time::SystemTime::now().elapsed().is_ok() as i32,
            2 => std::process::id() as i32,
            #[cfg(target_arch = "x86_64")]
            3 => core::arch::x86_64::_rdtsc() as i32,
            #[cfg(target_arch = "x86_64")]
            4 => core::arch::x86_64::__cpuid(1).eax as i32,
            _ => BADOP,
        },
        _ => {
            let res = match w {
                0 => ops_single(op, form, a),
                1 => ops_2(op, form, a),
                2 => ops_4(op, form, a),
                _ => BADOP,
            };
            if op == INFO {
                cipher(a);
            }
            res
        }
    }
}

/// Entry point. With `std` a panic inside the call is caught here; without,
/// the panic handler of the final binary abandons the call.
#[no_mangle]
pub unsafe extern "C" fn node_call(word: u32, args: *mut Args) -> i32 {
    #[cfg(feature = "std")]
    {
        std::panic::catch_unwind(|| dispatch(word, &mut *args)).unwrap_or(PANIC)
    }
    #[cfg(not(feature = "std"))]
    {
        dispatch(word, &mut *args)
    }
}

/// Must be called once after loading: a refused call is an expected event.
#[cfg(feature = "std")]
#[no_mangle]
pub unsafe extern "C" fn node_init() {
    std::panic::set_hook(Box::new(|_| {}));
    // makes this image's thread-local storage exist, so that the simulator
    // can find it and give every caller its own
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(0u8));
}

#[cfg(feature = "std")]
mod alloc_hook {
    use std::alloc::{GlobalAlloc, Layout, System};

    extern "C" {
        /// Asks the simulator; non-zero means this request must fail.
        fn sim_alloc_hook(size: usize, align: usize) -> i32;
    }

    struct Hook;

    unsafe impl GlobalAlloc for Hook {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if sim_alloc_hook(l.size(), l.align()) != 0 {
                core::ptr::null_mut()
            } else {
                System.alloc(l)
            }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
    }

    #[global_allocator]
    static HOOK: Hook = Hook;
}
