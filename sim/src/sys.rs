//! The few operating-system services the simulator itself needs: fork, wait,
//! mmap, exit, file reads and writes. The code under test uses none.

pub const PROT_NONE: usize = 0;
pub const PROT_RW: usize = 3;
pub const MAP_SHARED: usize = 1;
pub const MAP_PRIVATE: usize = 2;
pub const MAP_FIXED: usize = 0x10;
pub const MAP_ANON: usize = 0x20;

#[cfg(feature = "host")]
mod imp {
    use super::*;
    mod c {
        extern "C" {
            pub fn fork() -> i32;
            pub fn waitpid(p: i32, st: *mut i32, opt: i32) -> i32;
            pub fn _exit(c: i32) -> !;
            pub fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, off: i64) -> *mut u8;
            pub fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
            pub fn write(fd: i32, p: *const u8, n: usize) -> isize;
            pub fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
        }
    }
    pub unsafe fn fork() -> i32 {
        c::fork()
    }
    pub unsafe fn wait(pid: i32) -> i32 {
        let mut st = 0;
        c::waitpid(pid, &mut st, 0);
        st
    }
    pub unsafe fn exit(code: i32) -> ! {
        c::_exit(code)
    }
    pub unsafe fn mmap(a: usize, l: usize, prot: usize, flags: usize) -> usize {
        let r = c::mmap(a as *mut u8, l, prot as i32, flags as i32, -1, 0) as usize;
        if r == usize::MAX {
            0
        } else {
            r
        }
    }
    pub unsafe fn mprotect(a: usize, l: usize, prot: usize) -> i32 {
        c::mprotect(a as *mut u8, l, prot as i32)
    }
    pub unsafe fn write(fd: i32, b: &[u8]) {
        let mut o = 0;
        while o < b.len() {
            let n = c::write(fd, b.as_ptr().add(o), b.len() - o);
            if n <= 0 {
                return;
            }
            o += n as usize;
        }
    }
    /// A run that burns this much processor time has hung in code the
    /// simulator cannot see (ITIMER_PROF, so load on the machine is harmless),
    /// or sleeps in the kernel (ITIMER_REAL, generous).
    pub unsafe fn watchdog(cpu_s: i64, wall_s: i64) {
        c::setitimer(2, &[0, 0, cpu_s, 0], core::ptr::null_mut());
        c::setitimer(0, &[0, 0, wall_s, 0], core::ptr::null_mut());
    }
}

#[cfg(not(feature = "host"))]
mod imp {
    use super::*;
    use core::arch::asm;

    #[cfg(target_arch = "riscv64")]
    #[inline(always)]
    unsafe fn sc(n: usize, a: [usize; 6]) -> usize {
        let r;
        asm!("ecall", in("a7") n, inlateout("a0") a[0] => r, in("a1") a[1], in("a2") a[2],
             in("a3") a[3], in("a4") a[4], in("a5") a[5]);
        r
    }
    #[cfg(target_arch = "riscv32")]
    #[inline(always)]
    unsafe fn sc(n: usize, a: [usize; 6]) -> usize {
        let r;
        asm!("ecall", in("a7") n, inlateout("a0") a[0] => r, in("a1") a[1], in("a2") a[2],
             in("a3") a[3], in("a4") a[4], in("a5") a[5]);
        r
    }
    #[cfg(target_arch = "aarch64")]
    #[inline(always)]
    unsafe fn sc(n: usize, a: [usize; 6]) -> usize {
        let r;
        asm!("svc 0", in("x8") n, inlateout("x0") a[0] => r, in("x1") a[1], in("x2") a[2],
             in("x3") a[3], in("x4") a[4], in("x5") a[5]);
        r
    }
    #[cfg(target_arch = "arm")]
    #[inline(always)]
    unsafe fn sc(n: usize, a: [usize; 6]) -> usize {
        let r;
        asm!("push {{r7}}", "mov r7, {n}", "svc 0", "pop {{r7}}", n = in(reg) n,
             inlateout("r0") a[0] => r, in("r1") a[1], in("r2") a[2],
             in("r3") a[3], in("r4") a[4], in("r5") a[5]);
        r
    }
    #[cfg(target_arch = "x86_64")]
    #[inline(always)]
    unsafe fn sc(n: usize, a: [usize; 6]) -> usize {
        let r;
        asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
             in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
        r
    }

    #[cfg(target_arch = "x86")]
    core::arch::global_asm!(
        "sim_syscall:",
        "push ebp", "push ebx", "push esi", "push edi", "mov eax, [esp + 20]", "mov ebp, [esp + 24]",
        "mov ebx, [ebp]", "mov ecx, [ebp + 4]", "mov edx, [ebp + 8]", "mov esi, [ebp + 12]", "mov edi, [ebp + 16]",
        "mov ebp, [ebp + 20]", "int 0x80",
        "pop edi", "pop esi", "pop ebx", "pop ebp", "ret",
    );
    #[cfg(target_arch = "x86")]
    unsafe fn sc(n: usize, a: [usize; 6]) -> usize {
        extern "C" {
            fn sim_syscall(n: usize, a: *const usize) -> usize;
        }
        sim_syscall(n, a.as_ptr())
    }

    #[cfg(target_arch = "x86")]
    mod nr {
        pub const WRITE: usize = 4;
        pub const EXIT: usize = 252;
        pub const MMAP: usize = 192;
        pub const MPROTECT: usize = 125;
        pub const CLONE: usize = 120;
        pub const WAITID: usize = 284;
        pub const OPENAT: usize = 295;
        pub const READ: usize = 3;
        pub const CLOSE: usize = 6;
        pub const CLOCK: usize = 403;
        pub const SETITIMER: usize = 104;
    }
    #[cfg(target_arch = "arm")]
    mod nr {
        pub const WRITE: usize = 4;
        pub const EXIT: usize = 248;
        pub const MMAP: usize = 192;
        pub const MPROTECT: usize = 125;
        pub const CLONE: usize = 120;
        pub const WAITID: usize = 280;
        pub const OPENAT: usize = 322;
        pub const READ: usize = 3;
        pub const CLOSE: usize = 6;
        pub const CLOCK: usize = 403;
        pub const SETITIMER: usize = 104;
    }
    #[cfg(target_arch = "x86_64")]
    mod nr {
        pub const WRITE: usize = 1;
        pub const EXIT: usize = 231;
        pub const MMAP: usize = 9;
        pub const MPROTECT: usize = 10;
        pub const CLONE: usize = 56;
        pub const WAITID: usize = 247;
        pub const OPENAT: usize = 257;
        pub const READ: usize = 0;
        pub const CLOSE: usize = 3;
        pub const CLOCK: usize = 228;
        pub const SETITIMER: usize = 38;
    }
    #[cfg(not(any(target_arch = "arm", target_arch = "x86", target_arch = "x86_64")))]
    mod nr {
        pub const WRITE: usize = 64;
        pub const EXIT: usize = 94;
        pub const MMAP: usize = 222;
        pub const MPROTECT: usize = 226;
        pub const CLONE: usize = 220;
        pub const WAITID: usize = 95;
        pub const OPENAT: usize = 56;
        pub const READ: usize = 63;
        pub const CLOSE: usize = 57;
        pub const CLOCK: usize = if cfg!(target_pointer_width = "64") { 113 } else { 403 };
        pub const SETITIMER: usize = 103;
    }

    pub unsafe fn fork() -> i32 {
        sc(nr::CLONE, [17, 0, 0, 0, 0, 0]) as i32
    }
    /// Returns a wait(2)-style status.
    pub unsafe fn wait(pid: i32) -> i32 {
        let mut si = [0i32; 32];
        sc(nr::WAITID, [1, pid as usize, si.as_mut_ptr() as usize, 4, 0, 0]);
        // siginfo: si_code at word 2 (CLD_EXITED = 1), si_status after pid, uid
        let code = si[2];
        let base: usize = if cfg!(target_pointer_width = "64") { 4 } else { 3 };
        let status = si[base + 2];
        if code == 1 {
            (status & 0xff) << 8
        } else {
            status & 0x7f
        }
    }
    pub unsafe fn exit(code: i32) -> ! {
        sc(nr::EXIT, [code as usize, 0, 0, 0, 0, 0]);
        loop {}
    }
    pub unsafe fn mmap(a: usize, l: usize, prot: usize, flags: usize) -> usize {
        let r = sc(nr::MMAP, [a, l, prot, flags, usize::MAX, 0]);
        if r > usize::MAX - 4096 {
            0
        } else {
            r
        }
    }
    pub unsafe fn mprotect(a: usize, l: usize, prot: usize) -> i32 {
        sc(nr::MPROTECT, [a, l, prot, 0, 0, 0]) as i32
    }
    pub unsafe fn write(fd: i32, b: &[u8]) {
        let mut o = 0;
        while o < b.len() {
            let n = sc(nr::WRITE, [fd as usize, b.as_ptr() as usize + o, b.len() - o, 0, 0, 0]) as isize;
            if n <= 0 {
                return;
            }
            o += n as usize;
        }
    }
    pub unsafe fn watchdog(cpu_s: i64, wall_s: i64) {
        for (which, n) in [(2, cpu_s), (0, wall_s)] {
            let t = [0, 0, n as isize, 0];
            sc(nr::SETITIMER, [which, t.as_ptr() as usize, 0, 0, 0, 0]);
        }
    }
    pub unsafe fn open(p: *const u8, flags: usize, mode: usize) -> i32 {
        sc(nr::OPENAT, [(-100isize) as usize, p as usize, flags, mode, 0, 0]) as i32
    }
    pub unsafe fn close(fd: i32) {
        sc(nr::CLOSE, [fd as usize, 0, 0, 0, 0, 0]);
    }
    pub unsafe fn read(fd: i32, b: &mut [u8]) -> isize {
        sc(nr::READ, [fd as usize, b.as_mut_ptr() as usize, b.len(), 0, 0, 0]) as isize
    }
    pub unsafe fn clock_ms() -> u64 {
        let mut t = [0i64; 2];
        sc(nr::CLOCK, [1, t.as_mut_ptr() as usize, 0, 0, 0, 0]);
        t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
    }
}

pub use imp::*;
