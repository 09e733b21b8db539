//! Host platform: loads several independent images of the library, each with
//! its own statics, into one process.

use crate::abi::{self, word, Args};
use crate::engine::{self, NodeRt};
use crate::exec::Sizes;
use std::ffi::{c_char, c_int, c_void, CString};
use std::time::Instant;

extern "C" {
    fn dlopen(p: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
    fn __tls_get_addr(module_and_offset: &[usize; 2]) -> *mut c_void;
    fn dl_iterate_phdr(cb: extern "C" fn(*mut PhdrInfo, usize, *mut c_void) -> c_int, d: *mut c_void) -> c_int;
}

#[repr(C)]
struct PhdrInfo {
    addr: usize,
    name: *const c_char,
    phdr: *const Phdr,
    phnum: u16,
    adds: u64,
    subs: u64,
    tls_modid: usize,
    tls_data: *mut c_void,
}
#[repr(C)]
struct Phdr {
    p_type: u32,
    p_flags: u32,
    p_offset: u64,
    p_vaddr: u64,
    p_paddr: u64,
    p_filesz: u64,
    p_memsz: u64,
    p_align: u64,
}

struct Find {
    path: String,
    rw: Vec<(usize, usize)>,
    relro: Vec<(usize, usize)>,
    tls: (usize, usize),
    all: (usize, usize),
}

extern "C" fn visit(i: *mut PhdrInfo, _n: usize, d: *mut c_void) -> c_int {
    unsafe {
        let f = &mut *(d as *mut Find);
        let i = &*i;
        let name = std::ffi::CStr::from_ptr(i.name).to_string_lossy();
        if name != f.path.as_str() {
            return 0;
        }
        for k in 0..i.phnum as usize {
            let p = &*i.phdr.add(k);
            let lo = i.addr + p.p_vaddr as usize;
            let hi = lo + p.p_memsz as usize;
            match p.p_type {
                1 => {
                    f.all.0 = f.all.0.min(lo);
                    f.all.1 = f.all.1.max(hi);
                    if p.p_flags & 2 != 0 {
                        f.rw.push((lo, hi));
                    }
                }
                7 => f.tls = (__tls_get_addr(&[i.tls_modid, 0]) as usize, p.p_memsz as usize),
                0x6474_e552 => f.relro.push((lo, (hi + 4095) & !4095)),
                _ => {}
            }
        }
        1
    }
}

static mut IMAGES: Vec<(usize, usize)> = Vec::new();

pub fn load_all(specs: &[(&str, &str)]) -> Result<&'static [NodeRt], String> {
    let mut v = Vec::new();
    unsafe {
        let here = core::ptr::addr_of!(v) as usize;
        crate::shadow::cover(here - (1 << 20), here + (1 << 16));
    }
    for (name, path) in specs {
        let c = CString::new(*path).unwrap();
        unsafe {
            let h = dlopen(c.as_ptr(), 2); // RTLD_NOW
            if h.is_null() {
                let e = dlerror();
                return Err(format!("dlopen: {}", std::ffi::CStr::from_ptr(e).to_string_lossy()));
            }
            let call = dlsym(h, c"node_call".as_ptr());
            let init = dlsym(h, c"node_init".as_ptr());
            if call.is_null() || init.is_null() {
                return Err(format!("{path}: not a node"));
            }
            let init: unsafe extern "C" fn() = std::mem::transmute(init);
            init();
            let call: unsafe extern "C" fn(u32, *mut Args) -> i32 = std::mem::transmute(call);
            let sizes = sizes(call);
            let mut f = Find { path: path.to_string(), rw: Vec::new(), relro: Vec::new(), tls: (0, 0), all: (usize::MAX, 0) };
            dl_iterate_phdr(visit, &mut f as *mut Find as *mut c_void);
            if f.all.1 == 0 {
                return Err(format!("{path}: image not found"));
            }
            let mut rw = Vec::new();
            for (mut lo, hi) in f.rw {
                for &(a, b) in &f.relro {
                    if lo >= a && lo < b {
                        lo = b;
                    }
                }
                if lo < hi {
                    rw.push((lo, hi));
                }
            }
            IMAGES.push(f.all);
            let tls_init = std::slice::from_raw_parts(f.tls.0.max(1) as *const u8, f.tls.1).to_vec();
            let name: &'static str = Box::leak(name.to_string().into_boxed_str());
            v.push(NodeRt { name, call, rw, tls: f.tls, tls_init, sizes, ct: !name.starts_with("sw") });
        }
    }
    std::panic::set_hook(Box::new(|i| {
        // a panic of the simulator itself is never a finding
        let s = crate::shared::get();
        if !(s as *const crate::shared::Shared).is_null() {
            s.vclass = crate::shared::V_HARNESS;
            let m = i.to_string();
            let n = m.len().min(s.msg.len());
            s.msg[..n].copy_from_slice(&m.as_bytes()[..n]);
            s.msg_len = n as u32;
            s.finished = 1;
        }
        eprintln!("simulator: {i}");
        unsafe { crate::sys::exit(0) }
    }));
    Ok(Box::leak(v.into_boxed_slice()))
}

unsafe fn sizes(call: unsafe extern "C" fn(u32, *mut Args) -> i32) -> Sizes {
    let mut z = Sizes::default();
    for w in 0..3 {
        for dir in 0..2 {
            let mut a = Args { p: [std::ptr::null_mut(); 6], n: [0; 6], sink: None, ctx: std::ptr::null_mut() };
            call(word(abi::INFO, w, w, dir, 0), &mut a);
            z.block[w as usize] = (a.n[0], a.n[1]);
            let c = &mut z.cipher[w as usize];
            c.0 = c.0.max(a.n[2]);
            c.1 = c.1.max(a.n[3]);
        }
    }
    z
}

#[inline(always)]
pub fn guarded_call(f: unsafe extern "C" fn(u32, *mut Args) -> i32, w: u32, a: &mut Args) -> i32 {
    unsafe { f(w, a) }
}

pub fn locate(nodes: &[NodeRt], addr: u64) -> String {
    let a = addr as usize;
    unsafe {
        for (i, &(lo, hi)) in IMAGES.iter().enumerate() {
            if a >= lo && a < hi {
                return format!("{}+{:#x}", nodes[i].name, a - lo);
            }
        }
    }
    format!("{a:#x}")
}

pub fn in_child() {
    unsafe { crate::sys::watchdog(20, 600) }
}

pub fn print(s: &str) {
    unsafe { crate::sys::write(1, s.as_bytes()) }
}

pub fn die(s: &str) -> ! {
    print(&format!("HARNESS {s}\n"));
    std::process::exit(2)
}

pub fn write_file(p: &str, t: &str) {
    let _ = std::fs::write(p, t);
}

pub fn read_file(p: &str) -> Option<String> {
    std::fs::read_to_string(p).ok()
}

pub fn now_ms() -> u64 {
    static mut T0: Option<Instant> = None;
    unsafe { T0.get_or_insert_with(Instant::now).elapsed().as_millis() as u64 }
}

/// The allocator of the images asks here.
#[no_mangle]
pub extern "C" fn sim_alloc_hook(size: usize, _align: usize) -> i32 {
    if !engine::active() {
        return 0;
    }
    let e = engine::eng();
    if !e.armed || !e.deny_alloc {
        return 0;
    }
    if e.probing {
        e.probed += 1;
        return 1;
    }
    crate::exec::fail(
        e,
        crate::shared::V_ALLOC,
        format!("a call requested {size} bytes from the allocator, which has nothing to give"),
    );
}

/// Blocking system calls of the images. Waiting on a futex inside a call
/// becomes waiting in the simulation; everything else goes to the kernel.
#[no_mangle]
pub unsafe extern "C" fn syscall(nr: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    #[cfg(target_arch = "x86_64")]
    const FUTEX: i64 = 202;
    #[cfg(target_arch = "aarch64")]
    const FUTEX: i64 = 98;
    if env_asked(&|| format!("system call {nr}")) {
        set_errno(38);
        return -1;
    }
    if nr == FUTEX && engine::active() && engine::eng().armed {
        match b & 0x7f {
            0 | 9 => {
                if *(a as *const u32) != c as u32 {
                    set_errno(11);
                    return -1;
                }
                engine::futex_wait(a);
                return 0;
            }
            1 | 10 => return engine::futex_wake(a, c) as i64,
            _ => {}
        }
    }
    let r: isize;
    #[cfg(target_arch = "x86_64")]
    std::arch::asm!("syscall", inlateout("rax") nr as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    #[cfg(target_arch = "aarch64")]
    std::arch::asm!("svc 0", in("x8") nr, inlateout("x0") a => r, in("x1") b, in("x2") c,
        in("x3") d, in("x4") e, in("x5") f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r as i64
    }
}

unsafe fn set_errno(v: i32) {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    *__errno_location() = v;
}

#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if env_asked(&|| "sched_yield".to_string()) {
        return -1;
    }
    if engine::active() && engine::eng().armed {
        engine::yield_now();
    }
    0
}

/// The simulator's heap is not among the images' statics.
pub fn keep_heap(f: &mut dyn FnMut()) {
    f();
}

// ---------------------------------------------------------------- environment

/// A call asks for something outside it while everything outside refuses
/// (C14). False if that is not so at present.
fn env_asked(what: &dyn Fn() -> String) -> bool {
    if !engine::active() {
        return false;
    }
    let e = engine::eng();
    if !e.armed || !e.deny_env {
        return false;
    }
    if e.probing {
        e.probed += 1;
        return true;
    }
    e.armed = false;
    crate::exec::fail(e, crate::shared::V_ENV, format!("a call asked its environment: {}", what()))
}

static mut KINDS: u32 = 0;

/// Which kinds of requests can be denied here: bits 0.. are environment
/// variables, clock, system calls, cycle counter, processor identification.
pub fn env_kinds() -> u32 {
    unsafe { KINDS }
}

/// From here on requests made inside calls are denied.
pub fn deny_env(e: &mut engine::Engine) {
    unsafe {
        KINDS = 3;
        for f in FORWARD.iter() {
            (f.real)();
        }
        #[cfg(target_arch = "x86_64")]
        trap::on(core::ptr::addr_of!(e.armed).cast());
    }
    let _ = e;
}

struct Forward {
    real: fn() -> usize,
}

/// Functions of the C library that reach outside, looked up before the
/// library's own. Integer arguments only, so passing six on is always right.
macro_rules! forward {
    ($($name:ident $fail:expr;)*) => {
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $name(a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> usize {
                if env_asked(&|| stringify!($name).to_string()) {
                    return $fail as usize;
                }
                let f6: unsafe extern "C" fn(usize, usize, usize, usize, usize, usize) -> usize =
                    std::mem::transmute(real::$name());
                f6(a, b, c, d, e, f)
            }
        )*
        mod real {
            use super::*;
            $(pub fn $name() -> usize {
                static mut P: usize = 0;
                unsafe {
                    if P == 0 {
                        let n = concat!(stringify!($name), "\0");
                        P = dlsym(usize::MAX as *mut c_void, n.as_ptr().cast()) as usize;
                    }
                    P
                }
            })*
        }
        static FORWARD: &[Forward] = &[$(Forward { real: real::$name }),*];
    };
}

forward! {
    getenv 0;
    secure_getenv 0;
    clock_gettime -1isize;
    gettimeofday -1isize;
    time 0;
    clock 0;
    getrandom -1isize;
    getentropy -1isize;
    getauxval 0;
    nanosleep -1isize;
    clock_nanosleep -1isize;
    pthread_create 11;
}

#[cfg(target_arch = "x86_64")]
mod trap {
    use super::*;

    // The kernel's side of signal delivery; nothing here may leave this image's own code.
    std::arch::global_asm!(
        ".globl sim_trap_restorer",
        "sim_trap_restorer:",
        "mov eax, 15",
        "syscall",
        ".globl sim_trap_end",
        "sim_trap_end:",
    );
    extern "C" {
        fn sim_trap_restorer();
        fn sim_trap_end();
        fn prctl(o: c_int, a: usize, b: usize, c: usize, d: usize) -> c_int;
    }

    #[repr(C)]
    struct Action {
        handler: usize,
        flags: u64,
        restorer: usize,
        mask: u64,
    }

    unsafe fn raw(nr: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
        let r: isize;
        std::arch::asm!("syscall", inlateout("rax") nr as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
        r
    }

    const SIGSEGV: usize = 11;
    const SIGSYS: usize = 31;
    const RAX: usize = 13;
    const RIP: usize = 16;

    unsafe fn handle(sig: usize, f: usize) {
        let a = Action { handler: f, flags: 0x4 | 0x0400_0000 | 0x4000_0000, restorer: sim_trap_restorer as *const () as usize, mask: 0 };
        raw(13, sig, &a as *const Action as usize, 0, 8, 0, 0);
    }

    /// Registers of the interrupted code: uc_flags, uc_link, uc_stack, then gregs.
    unsafe fn regs(uc: *mut u8) -> *mut usize {
        uc.add(40).cast()
    }

    /// A system call from inside a call.
    unsafe extern "C" fn on_syscall(_s: c_int, si: *const u8, uc: *mut u8) {
        let nr = *si.add(24).cast::<i32>();
        let g = regs(uc);
        let e = engine::eng();
        // memory management is the allocator's business (C13)
        if matches!(nr, 9 | 10 | 11 | 12 | 25 | 28) {
            let was = e.armed;
            e.armed = false;
            // rdi 8, rsi 9, rdx 12, r10 2, r8 0, r9 1
            let r = raw(nr as usize, *g.add(8), *g.add(9), *g.add(12), *g.add(2), *g.add(0), *g.add(1));
            *g.add(RAX) = r as usize;
            e.armed = was;
            return;
        }
        if env_asked(&|| format!("system call {nr}")) {
            *g.add(RAX) = -38isize as usize;
        }
    }

    /// Instructions that ask the machine what time it is or who it is.
    unsafe extern "C" fn on_fault(_s: c_int, _si: *const u8, uc: *mut u8) {
        let g = regs(uc);
        let ip = *g.add(RIP) as *const u8;
        if engine::active() && *_si.add(8).cast::<i32>() == 0x80 {
            let (what, n) = match (*ip, *ip.add(1)) {
                (0x0f, 0x31) => ("the cycle counter", 2),
                (0x0f, 0x01) if *ip.add(2) == 0xf9 => ("the cycle counter", 3),
                (0x0f, 0xa2) => ("the processor's identification", 2),
                _ => ("", 0),
            };
            if n != 0 {
                let armed = engine::eng().armed;
                if !env_asked(&|| what.to_string()) {
                    // not inside a call: let it have what it wants
                    engine::eng().armed = false;
                    allow(true);
                    if n == 2 && *ip.add(1) == 0xa2 {
                        let r = std::arch::x86_64::__cpuid_count(*g.add(RAX) as u32, *g.add(14) as u32);
                        (*g.add(RAX), *g.add(11), *g.add(14), *g.add(12)) = (r.eax as usize, r.ebx as usize, r.ecx as usize, r.edx as usize);
                    } else {
                        let t = std::arch::x86_64::_rdtsc();
                        (*g.add(RAX), *g.add(12)) = (t as u32 as usize, (t >> 32) as usize);
                    }
                    allow(false);
                    engine::eng().armed = armed;
                } else {
                    (*g.add(RAX), *g.add(12)) = (0, 0);
                }
                *g.add(RIP) += n;
                return;
            }
        }
        // anything else: as without this handler
        let a = Action { handler: 0, flags: 0x0400_0000, restorer: sim_trap_restorer as *const () as usize, mask: 0 };
        raw(13, SIGSEGV, &a as *const Action as usize, 0, 8, 0, 0);
    }

    unsafe fn allow(yes: bool) {
        if KINDS & 8 != 0 {
            raw(157, 26, if yes { 1 } else { 2 }, 0, 0, 0, 0); // PR_SET_TSC
        }
        if KINDS & 16 != 0 {
            raw(158, 0x1012, yes as usize, 0, 0, 0, 0); // ARCH_CPUID
        }
    }

    /// `sel` is 1 while code of the library runs, 0 otherwise.
    pub unsafe fn on(sel: *const u8) {
        handle(SIGSYS, on_syscall as *const () as usize);
        handle(SIGSEGV, on_fault as *const () as usize);
        let lo = sim_trap_restorer as *const () as usize;
        let hi = sim_trap_end as *const () as usize;
        if prctl(59, 1, lo, hi - lo + 1, sel as usize) == 0 {
            KINDS |= 4;
        }
        if raw(157, 26, 2, 0, 0, 0, 0) == 0 {
            KINDS |= 8;
        }
        if raw(158, 0x1012, 0, 0, 0, 0, 0) == 0 {
            KINDS |= 16;
        }
    }
}
