//! Stackful context switch between fibers.
use core::arch::global_asm;

extern "C" {
    /// Saves the callee-saved state, stores sp to *save, loads sp from to.
    fn sim_ctx_switch(save: *mut usize, to: usize);
}

#[cfg(target_arch = "x86_64")]
global_asm!(
    ".globl sim_ctx_switch",
    "sim_ctx_switch:",
    "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
    "ret",
    ".globl sim_ctx_entry",
    "sim_ctx_entry:",
    "xor ebp, ebp",
    "call {main}",
    "ud2",
    main = sym crate::engine::fiber_main,
);

#[cfg(target_arch = "x86")]
global_asm!(
    ".globl sim_ctx_switch",
    "sim_ctx_switch:",
    "mov eax, [esp + 4]", "mov ecx, [esp + 8]",
    "push ebp", "push ebx", "push esi", "push edi",
    "mov [eax], esp",
    "mov esp, ecx",
    "pop edi", "pop esi", "pop ebx", "pop ebp",
    "ret",
    ".globl sim_ctx_entry",
    "sim_ctx_entry:",
    "xor ebp, ebp",
    "call {main}",
    "ud2",
    main = sym crate::engine::fiber_main,
);

#[cfg(target_arch = "aarch64")]
global_asm!(
    ".globl sim_ctx_switch",
    "sim_ctx_switch:",
    "sub sp, sp, #160",
    "stp x19, x20, [sp, #0]", "stp x21, x22, [sp, #16]", "stp x23, x24, [sp, #32]",
    "stp x25, x26, [sp, #48]", "stp x27, x28, [sp, #64]", "stp x29, x30, [sp, #80]",
    "stp d8, d9, [sp, #96]", "stp d10, d11, [sp, #112]", "stp d12, d13, [sp, #128]",
    "stp d14, d15, [sp, #144]",
    "mov x9, sp", "str x9, [x0]", "mov sp, x1",
    "ldp x19, x20, [sp, #0]", "ldp x21, x22, [sp, #16]", "ldp x23, x24, [sp, #32]",
    "ldp x25, x26, [sp, #48]", "ldp x27, x28, [sp, #64]", "ldp x29, x30, [sp, #80]",
    "ldp d8, d9, [sp, #96]", "ldp d10, d11, [sp, #112]", "ldp d12, d13, [sp, #128]",
    "ldp d14, d15, [sp, #144]",
    "add sp, sp, #160",
    "ret",
    ".globl sim_ctx_entry",
    "sim_ctx_entry:",
    "bl {main}",
    "brk #1",
    main = sym crate::engine::fiber_main,
);

#[cfg(target_arch = "riscv64")]
global_asm!(
    ".globl sim_ctx_switch",
    "sim_ctx_switch:",
    "addi sp, sp, -112",
    "sd ra, 0(sp)", "sd s0, 8(sp)", "sd s1, 16(sp)", "sd s2, 24(sp)", "sd s3, 32(sp)",
    "sd s4, 40(sp)", "sd s5, 48(sp)", "sd s6, 56(sp)", "sd s7, 64(sp)", "sd s8, 72(sp)",
    "sd s9, 80(sp)", "sd s10, 88(sp)", "sd s11, 96(sp)",
    "sd sp, 0(a0)", "mv sp, a1",
    "ld ra, 0(sp)", "ld s0, 8(sp)", "ld s1, 16(sp)", "ld s2, 24(sp)", "ld s3, 32(sp)",
    "ld s4, 40(sp)", "ld s5, 48(sp)", "ld s6, 56(sp)", "ld s7, 64(sp)", "ld s8, 72(sp)",
    "ld s9, 80(sp)", "ld s10, 88(sp)", "ld s11, 96(sp)",
    "addi sp, sp, 112",
    "ret",
    ".globl sim_ctx_entry",
    "sim_ctx_entry:",
    "call {main}",
    "ebreak",
    main = sym crate::engine::fiber_main,
);

#[cfg(target_arch = "riscv32")]
global_asm!(
    ".globl sim_ctx_switch",
    "sim_ctx_switch:",
    "addi sp, sp, -64",
    "sw ra, 0(sp)", "sw s0, 4(sp)", "sw s1, 8(sp)", "sw s2, 12(sp)", "sw s3, 16(sp)",
    "sw s4, 20(sp)", "sw s5, 24(sp)", "sw s6, 28(sp)", "sw s7, 32(sp)", "sw s8, 36(sp)",
    "sw s9, 40(sp)", "sw s10, 44(sp)", "sw s11, 48(sp)",
    "sw sp, 0(a0)", "mv sp, a1",
    "lw ra, 0(sp)", "lw s0, 4(sp)", "lw s1, 8(sp)", "lw s2, 12(sp)", "lw s3, 16(sp)",
    "lw s4, 20(sp)", "lw s5, 24(sp)", "lw s6, 28(sp)", "lw s7, 32(sp)", "lw s8, 36(sp)",
    "lw s9, 40(sp)", "lw s10, 44(sp)", "lw s11, 48(sp)",
    "addi sp, sp, 64",
    "ret",
    ".globl sim_ctx_entry",
    "sim_ctx_entry:",
    "call {main}",
    "ebreak",
    main = sym crate::engine::fiber_main,
);

#[cfg(target_arch = "arm")]
global_asm!(
    ".arm",
    ".fpu neon",
    ".globl sim_ctx_switch",
    ".type sim_ctx_switch, %function",
    "sim_ctx_switch:",
    "push {{r4-r11, lr}}",
    "sub sp, sp, #4",
    "vpush {{d8-d15}}",
    "str sp, [r0]",
    "mov sp, r1",
    "vpop {{d8-d15}}",
    "add sp, sp, #4",
    "pop {{r4-r11, lr}}",
    "bx lr",
    ".globl sim_ctx_entry",
    ".type sim_ctx_entry, %function",
    "sim_ctx_entry:",
    "bl {main}",
    "udf #0",
    main = sym crate::engine::fiber_main,
);

extern "C" {
    fn sim_ctx_entry();
}

/// Words of the saved frame, and the index of the return address in it.
#[cfg(target_arch = "x86_64")]
const FRAME: (usize, usize) = (7, 6);
#[cfg(target_arch = "x86")]
const FRAME: (usize, usize) = (5, 4);
#[cfg(target_arch = "aarch64")]
const FRAME: (usize, usize) = (20, 11);
#[cfg(target_arch = "riscv64")]
const FRAME: (usize, usize) = (14, 0);
#[cfg(target_arch = "riscv32")]
const FRAME: (usize, usize) = (16, 0);
#[cfg(target_arch = "arm")]
const FRAME: (usize, usize) = (16 + 1 + 9, 25);

/// Prepares a stack [lo, hi) so that switching to the returned sp enters
/// `fiber_main`.
pub unsafe fn prepare(hi: usize) -> usize {
    let top = hi & !63;
    let sp = top - FRAME.0 * core::mem::size_of::<usize>();
    // x86: sp is `top` when the entry stub makes its call. Elsewhere the
    // frame size is subtracted from a 16-aligned sp.
    let sp = if cfg!(any(target_arch = "x86_64", target_arch = "x86")) { sp } else { sp & !15 };
    let f = sp as *mut usize;
    for i in 0..FRAME.0 {
        f.add(i).write(0);
    }
    f.add(FRAME.1).write(sim_ctx_entry as usize);
    sp
}

pub unsafe fn switch(save: *mut usize, to: usize) {
    sim_ctx_switch(save, to);
}
