//! The modes of the processor that a caller may have set for its own work:
//! rounding, treatment of denormals, exception masks, sticky flags.

use crate::prng::fold;

/// What is saved and restored with every fiber.
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct Modes {
    pub a: u32,
    pub b: u32,
}

/// What can be seen of them; parts that nobody sets must not change either.
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct Seen {
    part: [u32; 6],
}

#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
mod arch {
    use super::{Modes, Seen};
    use core::arch::asm;
    pub const WORKS: bool = true;
    pub const NAMES: [&str; 6] = [
        "the MXCSR register's modes",
        "the MXCSR register's sticky flags",
        "the x87 control word",
        "the x87 status word",
        "the set of x87/MMX registers in use",
        "the direction or alignment-check flag",
    ];
    #[repr(C, align(16))]
    struct Area([u8; 512]);

    pub const DEFAULT: Modes = Modes { a: 0x1f80, b: 0x37f };

    pub unsafe fn get() -> Modes {
        let (mut a, mut b) = (0u32, 0u16);
        asm!("stmxcsr [{}]", in(reg) &mut a, options(nostack, preserves_flags));
        asm!("fnstcw [{}]", in(reg) &mut b, options(nostack, preserves_flags));
        Modes { a, b: u32::from(b) }
    }
    pub unsafe fn set(m: Modes) {
        let b = m.b as u16;
        asm!("ldmxcsr [{}]", in(reg) &m.a, options(nostack, preserves_flags));
        asm!("fldcw [{}]", in(reg) &b, options(nostack, preserves_flags));
    }
    pub unsafe fn see() -> Seen {
        let mut x = Area([0; 512]);
        asm!("fxsave [{}]", in(reg) &mut x, options(nostack, preserves_flags));
        let f: usize;
        #[cfg(target_arch = "x86_64")]
        asm!("pushfq", "pop {}", out(reg) f);
        #[cfg(target_arch = "x86")]
        asm!("pushfd", "pop {}", out(reg) f);
        let w = |i: usize| u32::from(x.0[i]) | u32::from(x.0[i + 1]) << 8;
        Seen { part: [w(24) & 0xffc0, w(24) & 0x3f, w(0), w(2), w(4) & 0xff, f as u32 & 0x4_0400] }
    }
    pub fn any(r: u64, mask_all: bool) -> Modes {
        let r = |lo: u32, n: u32| (r >> lo) as u32 & ((1 << n) - 1);
        let masks = |k: u32, x: u32| match k {
            _ if mask_all => 0x3f,
            0 => 0x3f,
            1 => 0,
            _ => x,
        };
        let a = masks(r(0, 2), r(2, 6)) << 7 | r(8, 2) << 13 | r(10, 1) << 15 | r(11, 1) << 6
            | if mask_all { 0 } else { r(12, 6) };
        let b = masks(r(18, 2), r(20, 6)) | [0, 2, 3, 3][r(26, 2) as usize] << 8 | r(28, 2) << 10 | 0x40;
        Modes { a, b }
    }
}

#[cfg(target_arch = "aarch64")]
mod arch {
    use super::{Modes, Seen};
    use core::arch::asm;
    pub const WORKS: bool = true;
    pub const NAMES: [&str; 6] =
        ["the FPCR register", "the FPSR register's sticky flags", "the interrupt masks", "", "", ""];
    pub const DEFAULT: Modes = Modes { a: 0, b: 0 };

    pub unsafe fn get() -> Modes {
        let (a, b): (u64, u64);
        asm!("mrs {}, fpcr", "mrs {}, fpsr", out(reg) a, out(reg) b, options(nostack, preserves_flags));
        Modes { a: a as u32, b: b as u32 & 0x0800_009f }
    }
    pub unsafe fn set(m: Modes) {
        let (a, b) = (u64::from(m.a), u64::from(m.b));
        asm!("msr fpcr, {}", "msr fpsr, {}", in(reg) a, in(reg) b, options(nostack, preserves_flags));
    }
    pub unsafe fn see() -> Seen {
        let m = get();
        Seen { part: [m.a, m.b, 0, 0, 0, 0] }
    }
    pub fn any(r: u64, mask_all: bool) -> Modes {
        let x = r as u32;
        Modes { a: x & 0x07c0_0000, b: if mask_all { 0 } else { (r >> 32) as u32 & 0x0800_009f } }
    }
}

#[cfg(target_arch = "arm")]
mod arch {
    use super::{Modes, Seen};
    use core::arch::asm;
    pub const WORKS: bool = true;
    pub const NAMES: [&str; 6] = ["the FPSCR register's modes", "the FPSCR register's sticky flags", "", "", "", ""];
    pub const DEFAULT: Modes = Modes { a: 0, b: 0 };

    pub unsafe fn get() -> Modes {
        let a: u32;
        asm!(".fpu neon", "vmrs {}, fpscr", out(reg) a, options(nostack));
        Modes { a: a & 0x0fff_009f, b: 0 }
    }
    pub unsafe fn set(m: Modes) {
        asm!(".fpu neon", "vmsr fpscr, {}", in(reg) m.a, options(nostack));
    }
    pub unsafe fn see() -> Seen {
        let m = get();
        Seen { part: [m.a & !0x0800_009f, m.a & 0x0800_009f, 0, 0, 0, 0] }
    }
    pub fn any(r: u64, mask_all: bool) -> Modes {
        let x = r as u32;
        Modes { a: x & if mask_all { 0x07c0_0000 } else { 0x0fc0_009f }, b: 0 }
    }
}

#[cfg(target_arch = "riscv64")]
mod arch {
    use super::{Modes, Seen};
    use core::arch::asm;
    pub const WORKS: bool = true;
    pub const NAMES: [&str; 6] = ["the rounding mode", "the accrued exception flags", "", "", "", ""];
    pub const DEFAULT: Modes = Modes { a: 0, b: 0 };

    pub unsafe fn get() -> Modes {
        let a: usize;
        asm!("csrr {}, fcsr", out(reg) a, options(nostack));
        Modes { a: a as u32 & 0xff, b: 0 }
    }
    pub unsafe fn set(m: Modes) {
        asm!("csrw fcsr, {}", in(reg) m.a as usize, options(nostack));
    }
    pub unsafe fn see() -> Seen {
        let m = get();
        Seen { part: [m.a >> 5, m.a & 0x1f, 0, 0, 0, 0] }
    }
    pub fn any(r: u64, mask_all: bool) -> Modes {
        let x = r as u32;
        Modes { a: (x & 7) % 5 << 5 | if mask_all { 0 } else { x >> 8 & 0x1f }, b: 0 }
    }
}

#[cfg(not(any(
    target_arch = "x86",
    target_arch = "x86_64",
    target_arch = "aarch64",
    target_arch = "arm",
    target_arch = "riscv64"
)))]
mod arch {
    //! No floating-point unit.
    use super::{Modes, Seen};
    pub const WORKS: bool = false;
    pub const NAMES: [&str; 6] = [""; 6];
    pub const DEFAULT: Modes = Modes { a: 0, b: 0 };
    pub unsafe fn get() -> Modes {
        Modes::default()
    }
    pub unsafe fn set(_m: Modes) {}
    pub unsafe fn see() -> Seen {
        Seen::default()
    }
    pub fn any(_r: u64, _mask_all: bool) -> Modes {
        Modes::default()
    }
}

pub use arch::WORKS;

pub fn get() -> Modes {
    unsafe { arch::get() }
}

pub fn set(m: Modes) {
    unsafe { arch::set(m) }
}

pub fn reset() {
    unsafe { arch::set(arch::DEFAULT) }
}

/// The modes of one caller in one call.
pub fn enter(seed: u64, id: usize, call: u32, mask_all: bool) -> Seen {
    let r = fold(fold(fold(seed, 0x6d6f_6465), id as u64), u64::from(call));
    let r = r ^ r >> 29;
    // one in four has touched nothing
    let m = if !mask_all && r >> 62 == 0 { arch::DEFAULT } else { arch::any(r, mask_all) };
    unsafe {
        arch::set(m);
        arch::see()
    }
}

/// What is not as it was.
pub fn changed(want: &Seen) -> Option<(&'static str, u32, u32)> {
    let have = unsafe { arch::see() };
    (0..6).find(|&i| want.part[i] != have.part[i]).map(|i| (arch::NAMES[i], want.part[i], have.part[i]))
}
