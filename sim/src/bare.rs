//! Bare platform: no standard library, no C library. One image of the library
//! is linked in; a panic inside a call abandons the call.

use crate::abi::{self, word, Args};
use crate::engine::{self, NodeRt};
use crate::exec::Sizes;
use crate::sys;
use alloc::boxed::Box;
use alloc::string::String;
use alloc::vec::Vec;
use core::alloc::{GlobalAlloc, Layout};
use core::arch::global_asm;

extern "C" {
    fn sim_guarded(save: *mut usize, f: unsafe extern "C" fn(u32, *mut Args) -> i32, w: u32, a: *mut Args) -> i32;
    fn sim_abandon(sp: usize) -> !;
}
extern crate node as _;
extern "C" {
    fn node_call(word: u32, args: *mut Args) -> i32;
}

// sim_guarded saves the callee-saved state like a context switch, then calls;
// sim_abandon unwinds to it with the result PANIC.
#[cfg(target_arch = "aarch64")]
global_asm!(
    ".globl _start", "_start:", "mov x29, #0", "mov x0, sp", "bl {main}",
    ".globl sim_guarded", "sim_guarded:",
    "sub sp, sp, #160",
    "stp x19, x20, [sp, #0]", "stp x21, x22, [sp, #16]", "stp x23, x24, [sp, #32]",
    "stp x25, x26, [sp, #48]", "stp x27, x28, [sp, #64]", "stp x29, x30, [sp, #80]",
    "stp d8, d9, [sp, #96]", "stp d10, d11, [sp, #112]", "stp d12, d13, [sp, #128]", "stp d14, d15, [sp, #144]",
    "mov x9, sp", "str x9, [x0]", "mov x9, x1", "mov w0, w2", "mov x1, x3", "blr x9",
    "2:",
    "ldp x19, x20, [sp, #0]", "ldp x21, x22, [sp, #16]", "ldp x23, x24, [sp, #32]",
    "ldp x25, x26, [sp, #48]", "ldp x27, x28, [sp, #64]", "ldp x29, x30, [sp, #80]",
    "ldp d8, d9, [sp, #96]", "ldp d10, d11, [sp, #112]", "ldp d12, d13, [sp, #128]", "ldp d14, d15, [sp, #144]",
    "add sp, sp, #160", "ret",
    ".globl sim_abandon", "sim_abandon:", "mov sp, x0", "mov w0, #-100", "b 2b",
    main = sym bare_main,
);
#[cfg(target_arch = "x86")]
global_asm!(
    ".globl _start", "_start:", "mov eax, esp", "xor ebp, ebp", "and esp, -16", "sub esp, 12", "push eax", "call {main}",
    ".globl sim_guarded", "sim_guarded:",
    "push ebp", "push ebx", "push esi", "push edi",
    "mov eax, [esp + 20]", "mov ecx, [esp + 24]", "mov edx, [esp + 28]", "mov ebx, [esp + 32]",
    "mov [eax], esp", "sub esp, 4", "push ebx", "push edx", "call ecx", "add esp, 12",
    "2:",
    "pop edi", "pop esi", "pop ebx", "pop ebp", "ret",
    ".globl sim_abandon", "sim_abandon:", "mov esp, [esp + 4]", "mov eax, -100", "jmp 2b",
    main = sym bare_main,
);
#[cfg(target_arch = "riscv64")]
global_asm!(
    ".globl _start", "_start:",
    ".option push", ".option norelax", "la gp, __global_pointer$", ".option pop",
    "mv a0, sp", "call {main}",
    ".globl sim_guarded", "sim_guarded:",
    "addi sp, sp, -112",
    "sd ra, 0(sp)", "sd s0, 8(sp)", "sd s1, 16(sp)", "sd s2, 24(sp)", "sd s3, 32(sp)", "sd s4, 40(sp)",
    "sd s5, 48(sp)", "sd s6, 56(sp)", "sd s7, 64(sp)", "sd s8, 72(sp)", "sd s9, 80(sp)", "sd s10, 88(sp)",
    "sd s11, 96(sp)",
    "sd sp, 0(a0)", "mv t0, a1", "mv a0, a2", "mv a1, a3", "jalr t0",
    "2:",
    "ld ra, 0(sp)", "ld s0, 8(sp)", "ld s1, 16(sp)", "ld s2, 24(sp)", "ld s3, 32(sp)", "ld s4, 40(sp)",
    "ld s5, 48(sp)", "ld s6, 56(sp)", "ld s7, 64(sp)", "ld s8, 72(sp)", "ld s9, 80(sp)", "ld s10, 88(sp)",
    "ld s11, 96(sp)",
    "addi sp, sp, 112", "ret",
    ".globl sim_abandon", "sim_abandon:", "mv sp, a0", "li a0, -100", "j 2b",
    main = sym bare_main,
);
#[cfg(target_arch = "riscv32")]
global_asm!(
    ".globl _start", "_start:",
    ".option push", ".option norelax", "la gp, __global_pointer$", ".option pop",
    "mv a0, sp", "call {main}",
    ".globl sim_guarded", "sim_guarded:",
    "addi sp, sp, -64",
    "sw ra, 0(sp)", "sw s0, 4(sp)", "sw s1, 8(sp)", "sw s2, 12(sp)", "sw s3, 16(sp)", "sw s4, 20(sp)",
    "sw s5, 24(sp)", "sw s6, 28(sp)", "sw s7, 32(sp)", "sw s8, 36(sp)", "sw s9, 40(sp)", "sw s10, 44(sp)",
    "sw s11, 48(sp)",
    "sw sp, 0(a0)", "mv t0, a1", "mv a0, a2", "mv a1, a3", "jalr t0",
    "2:",
    "lw ra, 0(sp)", "lw s0, 4(sp)", "lw s1, 8(sp)", "lw s2, 12(sp)", "lw s3, 16(sp)", "lw s4, 20(sp)",
    "lw s5, 24(sp)", "lw s6, 28(sp)", "lw s7, 32(sp)", "lw s8, 36(sp)", "lw s9, 40(sp)", "lw s10, 44(sp)",
    "lw s11, 48(sp)",
    "addi sp, sp, 64", "ret",
    ".globl sim_abandon", "sim_abandon:", "mv sp, a0", "li a0, -100", "j 2b",
    main = sym bare_main,
);
#[cfg(target_arch = "arm")]
global_asm!(
    ".arm", ".fpu neon",
    ".globl _start", ".type _start, %function", "_start:", "mov r0, sp", "bic sp, sp, #7", "bl {main}",
    ".globl sim_guarded", ".type sim_guarded, %function", "sim_guarded:",
    "push {{r4-r11, lr}}", "sub sp, sp, #4", "vpush {{d8-d15}}",
    "str sp, [r0]", "mov r12, r1", "mov r0, r2", "mov r1, r3", "blx r12",
    "2:",
    "vpop {{d8-d15}}", "add sp, sp, #4", "pop {{r4-r11, lr}}", "bx lr",
    ".globl sim_abandon", ".type sim_abandon, %function", "sim_abandon:",
    "mov sp, r0", "mvn r0, #99", "b 2b",
    main = sym bare_main,
);

// ---------------------------------------------------------------- entry

const NAME: &str = match option_env!("SIM_NODE") {
    Some(n) => n,
    None => "node",
};

unsafe extern "C" fn bare_main(sp: *const usize) -> ! {
    let argc = *sp;
    let mut args: Vec<&'static str> = Vec::new();
    for i in 1..argc {
        let p = *sp.add(1 + i) as *const u8;
        let mut n = 0;
        while *p.add(n) != 0 {
            n += 1;
        }
        args.push(core::str::from_utf8(core::slice::from_raw_parts(p, n)).unwrap_or(""));
    }
    let nodes: &'static [NodeRt] = Box::leak(Box::new([NodeRt {
        name: NAME,
        call: node_call,
        rw: statics(),
        tls: (0, 0),
        tls_init: Vec::new(),
        sizes: sizes(),
        ct: !NAME.starts_with("sw"),
    }]));
    let code = crate::command(&args, nodes);
    sys::exit(code)
}

/// Writable statics of the program, the library's among them: the writable
/// segments of its own file header.
fn statics() -> Vec<(usize, usize)> {
    extern "C" {
        static __ehdr_start: u8;
    }
    const W: usize = core::mem::size_of::<usize>();
    let mut v = Vec::new();
    unsafe {
        let h = core::ptr::addr_of!(__ehdr_start);
        let word = |p: *const u8| p.cast::<usize>().read_unaligned();
        let half = |p: *const u8| p.cast::<u16>().read_unaligned() as usize;
        let (off, size, n) = (word(h.add(24 + W)), half(h.add(24 + 3 * W + 6)), half(h.add(24 + 3 * W + 8)));
        for k in 0..n {
            let p = h.add(off + k * size);
            let (flags, addr, len) = if W == 8 { (p.add(4), 16, 40) } else { (p.add(24), 8, 20) };
            if p.cast::<u32>().read_unaligned() == 1 && flags.cast::<u32>().read_unaligned() & 2 != 0 {
                let a = word(p.add(addr));
                v.push((a, a + word(p.add(len))));
            }
        }
    }
    v
}

unsafe fn sizes() -> Sizes {
    let mut z = Sizes::default();
    for w in 0..3 {
        for dir in 0..2 {
            let mut a = Args { p: [core::ptr::null_mut(); 6], n: [0; 6], sink: None, ctx: core::ptr::null_mut() };
            node_call(word(abi::INFO, w, w, dir, 0), &mut a);
            z.block[w as usize] = (a.n[0], a.n[1]);
            let c = &mut z.cipher[w as usize];
            c.0 = c.0.max(a.n[2]);
            c.1 = c.1.max(a.n[3]);
        }
    }
    z
}

pub fn guarded_call(f: unsafe extern "C" fn(u32, *mut Args) -> i32, w: u32, a: &mut Args) -> i32 {
    let e = engine::eng();
    let cur = e.cur;
    unsafe {
        let save: *mut usize = &mut e.acts[cur].guard_sp;
        sim_guarded(save, f, w, a)
    }
}

#[panic_handler]
fn panicked(i: &core::panic::PanicInfo) -> ! {
    if engine::active() && engine::eng().armed {
        let e = engine::eng();
        let sp = e.acts[e.cur].guard_sp;
        unsafe { sim_abandon(sp) }
    }
    let m = alloc::format!("{i}");
    die(&m)
}

pub fn die(s: &str) -> ! {
    let sh = crate::shared::get();
    if crate::shared::ready() {
        sh.vclass = crate::shared::V_HARNESS;
        let n = s.len().min(sh.msg.len());
        sh.msg[..n].copy_from_slice(&s.as_bytes()[..n]);
        sh.msg_len = n as u32;
        sh.finished = 1;
    }
    print("HARNESS ");
    print(s);
    print("\n");
    unsafe { sys::exit(2) }
}

pub fn locate(_nodes: &[NodeRt], addr: u64) -> String {
    alloc::format!("{NAME}:{addr:#x}")
}

pub fn in_child() {
    unsafe { sys::watchdog(60, 600) }
}

pub fn print(s: &str) {
    unsafe { sys::write(1, s.as_bytes()) }
}

fn c_path(p: &str) -> Vec<u8> {
    let mut v = p.as_bytes().to_vec();
    v.push(0);
    v
}

pub fn write_file(p: &str, t: &str) {
    unsafe {
        let fd = sys::open(c_path(p).as_ptr(), 0o1101, 0o644); // O_WRONLY|O_CREAT|O_TRUNC
        if fd >= 0 {
            sys::write(fd, t.as_bytes());
            sys::close(fd);
        }
    }
}

pub fn read_file(p: &str) -> Option<String> {
    let mut v = Vec::new();
    unsafe {
        let fd = sys::open(c_path(p).as_ptr(), 0, 0);
        if fd < 0 {
            return None;
        }
        let mut b = [0u8; 4096];
        loop {
            let n = sys::read(fd, &mut b);
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        sys::close(fd);
    }
    String::from_utf8(v).ok()
}

pub fn now_ms() -> u64 {
    unsafe { sys::clock_ms() }
}

// ---------------------------------------------------------------- memory

/// Powers of two, recycled through free lists.
struct Heap;

const CLASSES: usize = 28;
static mut FREE: [*mut u8; CLASSES] = [core::ptr::null_mut(); CLASSES];
static mut CHUNK: (usize, usize) = (0, 0);

fn class(l: Layout) -> usize {
    let n = l.size().max(l.align()).max(16);
    (usize::BITS - (n - 1).leading_zeros()) as usize
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if engine::active() {
            let e = engine::eng();
            if e.armed && e.deny_alloc {
                if e.probing {
                    e.probed += 1;
                    return core::ptr::null_mut();
                }
                let m = alloc_message(l.size());
                e.armed = false;
                crate::exec::fail(e, crate::shared::V_ALLOC, m);
            }
        }
        let c = class(l);
        if c >= CLASSES {
            return core::ptr::null_mut();
        }
        let p = FREE[c];
        if !p.is_null() {
            FREE[c] = *(p as *mut *mut u8);
            return p;
        }
        let n = 1usize << c;
        let at = (CHUNK.0 + n.min(4096) - 1) & !(n.min(4096) - 1);
        if CHUNK.0 == 0 || at + n > CHUNK.1 {
            let len = n.max(1 << 21);
            let m = sys::mmap(0, len, sys::PROT_RW, sys::MAP_PRIVATE | sys::MAP_ANON);
            if m == 0 {
                return core::ptr::null_mut();
            }
            if n >= 1 << 20 {
                return m as *mut u8;
            }
            CHUNK = (m + n, m + len);
            return m as *mut u8;
        }
        CHUNK.0 = at + n;
        at as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = class(l);
        *(p as *mut *mut u8) = FREE[c];
        FREE[c] = p;
    }
}

/// Runs `f`, which may overwrite the program's statics, but not the heap's.
pub fn keep_heap(f: &mut dyn FnMut()) {
    unsafe {
        let (a, b) = (FREE, CHUNK);
        f();
        (FREE, CHUNK) = (a, b);
    }
}

fn alloc_message(n: usize) -> String {
    let e = engine::eng();
    e.armed = false;
    alloc::format!("a call requested {n} bytes from the allocator, which has nothing to give")
}

#[global_allocator]
static HEAP: Heap = Heap;

/// Bare images have no operating system to ask.
pub fn env_kinds() -> u32 {
    0
}
pub fn deny_env(_e: &mut engine::Engine) {}
