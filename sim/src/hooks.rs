//! Entry points the instrumented library calls: the ASan-style access checks
//! and the coverage callback, here turned into scheduling points.

use crate::engine::{on_event, K_BLOCK, K_LOAD, K_STORE};
use crate::race;
use core::arch::global_asm;

macro_rules! access {
    ($($name:ident $size:literal $kind:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: usize) {
            on_event(a, $size, $kind);
        }
    )*};
}

access! {
    __asan_load1_noabort 1 K_LOAD;
    __asan_load2_noabort 2 K_LOAD;
    __asan_load4_noabort 4 K_LOAD;
    __asan_load8_noabort 8 K_LOAD;
    __asan_load16_noabort 16 K_LOAD;
    __asan_store1_noabort 1 K_STORE;
    __asan_store2_noabort 2 K_STORE;
    __asan_store4_noabort 4 K_STORE;
    __asan_store8_noabort 8 K_STORE;
    __asan_store16_noabort 16 K_STORE;
    __sanitizer_cov_load1 1 K_LOAD;
    __sanitizer_cov_load2 2 K_LOAD;
    __sanitizer_cov_load4 4 K_LOAD;
    __sanitizer_cov_load8 8 K_LOAD;
    __sanitizer_cov_load16 16 K_LOAD;
    __sanitizer_cov_store1 1 K_STORE;
    __sanitizer_cov_store2 2 K_STORE;
    __sanitizer_cov_store4 4 K_STORE;
    __sanitizer_cov_store8 8 K_STORE;
    __sanitizer_cov_store16 16 K_STORE;
}

#[no_mangle]
pub unsafe extern "C" fn __asan_loadN_noabort(a: usize, n: usize) {
    on_event(a, n, K_LOAD);
}
#[no_mangle]
pub unsafe extern "C" fn __asan_storeN_noabort(a: usize, n: usize) {
    on_event(a, n, K_STORE);
}

macro_rules! atomics {
    ($($t:ty, $n:literal, $load:ident $store:ident $swap:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident
        $nand:ident $cas:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: usize, o: i32) -> $t {
            race::atomic(p, $n, o, o, None, false) as $t
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: usize, v: $t, o: i32) {
            race::atomic(p, $n, o, o, Some(&|_| Some(u64::from(v))), true);
        }
        atomics!(@rmw $t, $n, $swap |_x, v| v);
        atomics!(@rmw $t, $n, $add |x, v| x.wrapping_add(v));
        atomics!(@rmw $t, $n, $sub |x, v| x.wrapping_sub(v));
        atomics!(@rmw $t, $n, $and |x, v| x & v);
        atomics!(@rmw $t, $n, $or |x, v| x | v);
        atomics!(@rmw $t, $n, $xor |x, v| x ^ v);
        atomics!(@rmw $t, $n, $nand |x, v| !(x & v));
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: usize, old: $t, new: $t, o: i32, f: i32) -> $t {
            let g = |x: u64| (x as $t == old).then_some(u64::from(new));
            race::atomic(p, $n, o, f, Some(&g), false) as $t
        }
    )*};
    (@rmw $t:ty, $n:literal, $name:ident |$x:ident, $v:ident| $e:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: usize, $v: $t, o: i32) -> $t {
            let g = |w: u64| {
                let $x = w as $t;
                Some(u64::from($e))
            };
            race::atomic(p, $n, o, o, Some(&g), false) as $t
        }
    };
}

// Atomic operations of the library; each has been announced as an access just before.
atomics! {
    u8, 1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add
        __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor
        __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16, 2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add
        __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor
        __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32, 4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add
        __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor
        __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64, 8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add
        __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor
        __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(o: i32) {
    race::fence(o);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}

extern "C" {
    fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
}

/// Copies go piecewise, so a copy can be interrupted half-way like any loop.
#[no_mangle]
pub unsafe extern "C" fn __asan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if !crate::engine::active() || !crate::engine::eng().armed {
        return memcpy(d, s, n);
    }
    let mut o = 0;
    while o < n {
        let k = (n - o).min(16);
        on_event(s as usize + o, k, K_LOAD);
        let mut t = [0u8; 16];
        core::ptr::copy_nonoverlapping(s.add(o), t.as_mut_ptr(), k);
        on_event(d as usize + o, k, K_STORE);
        core::ptr::copy_nonoverlapping(t.as_ptr(), d.add(o), k);
        o += k;
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn __asan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n != 0 {
        on_event(s as usize, n, K_LOAD);
        on_event(d as usize, n, K_STORE);
    }
    memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __asan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    if !crate::engine::active() || !crate::engine::eng().armed {
        return memset(d, c, n);
    }
    let mut o = 0;
    while o < n {
        let k = (n - o).min(16);
        on_event(d as usize + o, k, K_STORE);
        for i in 0..k {
            d.add(o + i).write(c as u8);
        }
        o += k;
    }
    d
}
#[no_mangle]
pub extern "C" fn __asan_init() {}
#[no_mangle]
pub extern "C" fn __asan_version_mismatch_check_v8() {}

#[no_mangle]
pub unsafe extern "C" fn sim_trace_pc(pc: usize) {
    on_event(pc, 0, K_BLOCK);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_indir(_callee: usize) {}

#[cfg(target_arch = "x86_64")]
global_asm!(
    ".globl __sanitizer_cov_trace_pc",
    ".type __sanitizer_cov_trace_pc, @function",
    "__sanitizer_cov_trace_pc:",
    "mov rdi, [rsp]",
    "jmp {f}",
    f = sym sim_trace_pc,
);
#[cfg(target_arch = "x86")]
global_asm!(
    ".globl __sanitizer_cov_trace_pc",
    ".type __sanitizer_cov_trace_pc, @function",
    "__sanitizer_cov_trace_pc:",
    "mov eax, [esp]", "sub esp, 8", "push eax", "call {f}", "add esp, 12", "ret",
    f = sym sim_trace_pc,
);
#[cfg(target_arch = "aarch64")]
global_asm!(
    ".globl __sanitizer_cov_trace_pc",
    ".type __sanitizer_cov_trace_pc, %function",
    "__sanitizer_cov_trace_pc:",
    "mov x0, x30",
    "b {f}",
    f = sym sim_trace_pc,
);
#[cfg(any(target_arch = "riscv64", target_arch = "riscv32"))]
global_asm!(
    ".globl __sanitizer_cov_trace_pc",
    "__sanitizer_cov_trace_pc:",
    "mv a0, ra",
    "tail {f}",
    f = sym sim_trace_pc,
);
#[cfg(target_arch = "arm")]
global_asm!(
    ".arm",
    ".globl __sanitizer_cov_trace_pc",
    ".type __sanitizer_cov_trace_pc, %function",
    "__sanitizer_cov_trace_pc:",
    "mov r0, lr",
    "b {f}",
    f = sym sim_trace_pc,
);

extern "C" {
    fn __sanitizer_cov_trace_pc();
}
/// Keeps the assembler symbol in the dynamic symbol table.
#[used]
static KEEP: unsafe extern "C" fn() = __sanitizer_cov_trace_pc;
