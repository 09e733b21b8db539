//! What the instrumented library says about its own variables: the compiler
//! surrounds each local variable and each static with a margin and marks the
//! margin in a shadow of memory (one byte for eight), also a variable's own
//! place before and after its life. The simulator owns that shadow and looks
//! each access up in it.

#[cfg(feature = "host")]
mod imp {
    use crate::sys;
    use std::collections::BTreeSet;

    const BASE: usize = 0x20_0000_0000;
    #[no_mangle]
    pub static mut __asan_shadow_memory_dynamic_address: usize = BASE;
    #[no_mangle]
    pub static mut __asan_option_detect_stack_use_after_return: i32 = 0;

    static mut PAGES: BTreeSet<usize> = BTreeSet::new();
    static mut GLOBALS: Vec<(usize, usize)> = Vec::new();

    fn at(addr: usize) -> usize {
        (addr >> 3) + BASE
    }

    /// Makes sure there is shadow for [lo, hi).
    pub unsafe fn cover(lo: usize, hi: usize) {
        for p in at(lo) / 4096..=at(hi) / 4096 {
            if PAGES.insert(p) {
                let flags = sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_FIXED;
                assert!(sys::mmap(p * 4096, 4096, sys::PROT_RW, flags) != 0, "shadow");
            }
        }
    }

    /// Nothing of [lo, hi), which is all the simulator's, is marked.
    pub unsafe fn fresh(lo: usize, hi: usize) {
        let (a, b) = (at(lo) / 4096, at(hi) / 4096 + 1);
        let flags = sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_FIXED;
        assert!(sys::mmap(a * 4096, (b - a) * 4096, sys::PROT_RW, flags) != 0, "shadow");
    }

    /// Is this address in a module whose statics have margins?
    pub fn is_global(addr: usize) -> bool {
        unsafe { GLOBALS.iter().any(|&(lo, hi)| addr >= lo && addr < hi) }
    }

    /// What is wrong with an access of these bytes, all covered.
    pub fn judge(addr: usize, size: usize) -> Option<&'static str> {
        let mut p = addr;
        while p < addr + size {
            let s = unsafe { *(at(p) as *const i8) };
            let last = (addr + size).min((p | 7) + 1) - 1;
            if s != 0 && (s < 0 || (last & 7) as i8 >= s) {
                return Some(match s as u8 {
                    0xf8 => "of a local variable after its life",
                    0xf9 => "beyond a static",
                    _ => "beyond a local variable",
                });
            }
            p = (p | 7) + 1;
        }
        None
    }

    macro_rules! set {
        ($($name:ident $v:literal;)*) => {$(
            #[no_mangle]
            pub unsafe extern "C" fn $name(p: *mut u8, n: usize) {
                core::ptr::write_bytes(p, $v, n);
            }
        )*};
    }
    set! {
        __asan_set_shadow_00 0x00; __asan_set_shadow_01 0x01; __asan_set_shadow_02 0x02; __asan_set_shadow_03 0x03;
        __asan_set_shadow_04 0x04; __asan_set_shadow_05 0x05; __asan_set_shadow_06 0x06; __asan_set_shadow_07 0x07;
        __asan_set_shadow_f1 0xf1; __asan_set_shadow_f2 0xf2; __asan_set_shadow_f3 0xf3; __asan_set_shadow_f5 0xf5;
        __asan_set_shadow_f8 0xf8;
    }

    unsafe fn mark(addr: usize, size: usize, v: u8) {
        let whole = size / 8;
        core::ptr::write_bytes(at(addr) as *mut u8, v, whole);
        if size % 8 != 0 {
            *((at(addr) + whole) as *mut u8) = if v == 0 { (size % 8) as u8 } else { v };
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn __asan_poison_stack_memory(a: usize, n: usize) {
        mark(a, n, 0xf8);
    }
    #[no_mangle]
    pub unsafe extern "C" fn __asan_unpoison_stack_memory(a: usize, n: usize) {
        mark(a, n, 0);
    }
    #[no_mangle]
    pub unsafe extern "C" fn __asan_alloca_poison(_a: usize, _n: usize) {}
    #[no_mangle]
    pub unsafe extern "C" fn __asan_allocas_unpoison(_top: usize, _bottom: usize) {}

    /// The current stack is about to be left by unwinding.
    #[no_mangle]
    pub unsafe extern "C" fn __asan_handle_no_return() {
        if !crate::engine::active() {
            return;
        }
        let here = 0u8;
        let sp = core::ptr::addr_of!(here) as usize & !7;
        let e = crate::engine::eng();
        let st = e.acts[e.fiber].stack;
        if sp >= st.0 && sp < st.1 {
            core::ptr::write_bytes(at(sp) as *mut u8, 0, (st.1 - sp) / 8);
        }
    }

    /// start, size, size with margin, and five more words.
    #[no_mangle]
    pub unsafe extern "C" fn __asan_register_globals(g: *const [usize; 8], n: usize) {
        let (mut lo, mut hi) = (usize::MAX, 0);
        for k in 0..n {
            let [beg, size, all, ..] = *g.add(k);
            cover(beg, beg + all);
            mark(beg, size, 0);
            let from = beg + (size + 7) / 8 * 8;
            mark(from, beg + all - from, 0xf9);
            (lo, hi) = (lo.min(beg), hi.max(beg + all));
        }
        if n > 0 {
            // what lies between them must have a shadow, too
            cover(lo, hi);
            GLOBALS.push((lo, hi));
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn __asan_unregister_globals(_g: *const [usize; 8], _n: usize) {}
    #[no_mangle]
    pub unsafe extern "C" fn __asan_register_elf_globals(done: *mut usize, from: *const [usize; 8], to: *const [usize; 8]) {
        if *done == 0 {
            *done = 1;
            __asan_register_globals(from, to.offset_from(from) as usize);
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn __asan_unregister_elf_globals(_d: *mut usize, _f: *const [usize; 8], _t: *const [usize; 8]) {}
    #[no_mangle]
    pub unsafe extern "C" fn __asan_before_dynamic_init(_m: usize) {}
    #[no_mangle]
    pub unsafe extern "C" fn __asan_after_dynamic_init() {}
}

#[cfg(not(feature = "host"))]
mod imp {
    pub unsafe fn fresh(_lo: usize, _hi: usize) {}
    pub fn is_global(_addr: usize) -> bool {
        false
    }
    pub fn judge(_addr: usize, _size: usize) -> Option<&'static str> {
        None
    }
}

pub use imp::*;
