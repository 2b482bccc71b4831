//! Register stubs for the architectures that are only encoded.
use core::arch::global_asm;

// ---------------------------------------------------------------- AArch64
#[cfg(target_arch = "aarch64")]
mod arch {
    use super::*;
    pub const NSAVED: usize = 19; // x19..x29, d8..d15
    pub const NG: usize = 40;
    pub const SPIDX: usize = 31;
    pub const NIMG: usize = 32;
    pub const NCLOB: usize = 18 + 2 * 32;
    pub const SPALIGN: usize = 16;
    pub const RETPUSH: usize = 0;
    macro_rules! stub {
        ($n:literal) => {
            global_asm!(
                ".balign 4",
                concat!(".globl ", $n), concat!(".globl ", $n, "_ret"), concat!(".type ", $n, ", @function"),
                concat!($n, ":"),
                ".cfi_startproc",
                "stp x29, x30, [sp, #-176]!", ".cfi_def_cfa_offset 176", ".cfi_offset x29, -176", ".cfi_offset x30, -168",
                "stp x19, x20, [sp, #16]", ".cfi_offset x19, -160", ".cfi_offset x20, -152",
                "stp x21, x22, [sp, #32]", ".cfi_offset x21, -144", ".cfi_offset x22, -136",
                "stp x23, x24, [sp, #48]", ".cfi_offset x23, -128", ".cfi_offset x24, -120",
                "stp x25, x26, [sp, #64]", ".cfi_offset x25, -112", ".cfi_offset x26, -104",
                "stp x27, x28, [sp, #80]", ".cfi_offset x27, -96", ".cfi_offset x28, -88",
                "stp d8, d9, [sp, #96]", ".cfi_offset b8, -80", ".cfi_offset b9, -72",
                "stp d10, d11, [sp, #112]", ".cfi_offset b10, -64", ".cfi_offset b11, -56",
                "stp d12, d13, [sp, #128]", ".cfi_offset b12, -48", ".cfi_offset b13, -40",
                "stp d14, d15, [sp, #144]", ".cfi_offset b14, -32", ".cfi_offset b15, -24",
                "str x2, [sp, #160]",
                "mov x9, x0", "mov x0, x1", "mov x10, sp", "str x10, [x2, #640]",
                "ldp x19, x20, [x2]", "ldp x21, x22, [x2, #16]", "ldp x23, x24, [x2, #32]", "ldp x25, x26, [x2, #48]",
                "ldp x27, x28, [x2, #64]", "ldr x29, [x2, #80]",
                "ldp d8, d9, [x2, #88]", "ldp d10, d11, [x2, #104]", "ldp d12, d13, [x2, #120]", "ldp d14, d15, [x2, #136]",
                "blr x9",
                concat!($n, "_ret:"),
                "ldr x9, [sp, #160]", "add x10, x9, #320",
                "stp x19, x20, [x10]", "stp x21, x22, [x10, #16]", "stp x23, x24, [x10, #32]", "stp x25, x26, [x10, #48]",
                "stp x27, x28, [x10, #64]", "str x29, [x10, #80]",
                "stp d8, d9, [x10, #88]", "stp d10, d11, [x10, #104]", "stp d12, d13, [x10, #120]", "stp d14, d15, [x10, #136]",
                "mov x11, sp", "ldr x12, [x9, #640]", "sub x11, x11, x12", "str x11, [x10, #152]",
                "ldp x19, x20, [sp, #16]", "ldp x21, x22, [sp, #32]", "ldp x23, x24, [sp, #48]", "ldp x25, x26, [sp, #64]",
                "ldp x27, x28, [sp, #80]", "ldp d8, d9, [sp, #96]", "ldp d10, d11, [sp, #112]", "ldp d12, d13, [sp, #128]",
                "ldp d14, d15, [sp, #144]", "ldp x29, x30, [sp], #176", ".cfi_def_cfa_offset 0",
                "ret",
                ".cfi_endproc",
                concat!(".size ", $n, ", . - ", $n),
            );
        };
    }
    stub!("v_call_p");
    stub!("v_call_c");
    global_asm!(
        ".balign 4",
        ".globl v_sp", ".type v_sp, @function", "v_sp:", ".cfi_startproc", "mov x0, sp", "ret", ".cfi_endproc", ".size v_sp, . - v_sp",
        ".globl v_fp", ".type v_fp, @function", "v_fp:", ".cfi_startproc", "mov x0, x29", "ret", ".cfi_endproc", ".size v_fp, . - v_fp",
        ".globl v_clobber", ".type v_clobber, @function", "v_clobber:", ".cfi_startproc",
        "add x9, x0, #144",
        "ldp q0, q1, [x9]", "ldp q2, q3, [x9, #32]", "ldp q4, q5, [x9, #64]", "ldp q6, q7, [x9, #96]",
        "ldp q16, q17, [x9, #128]", "ldp q18, q19, [x9, #160]", "ldp q20, q21, [x9, #192]", "ldp q22, q23, [x9, #224]",
        "ldp q24, q25, [x9, #256]", "ldp q26, q27, [x9, #288]", "ldp q28, q29, [x9, #320]", "ldp q30, q31, [x9, #352]",
        // only the low halves of v8..v15 belong to the caller
        "ldr x10, [x9, #384]", "mov v8.d[1], x10", "ldr x10, [x9, #392]", "mov v9.d[1], x10",
        "ldr x10, [x9, #400]", "mov v10.d[1], x10", "ldr x10, [x9, #408]", "mov v11.d[1], x10",
        "ldr x10, [x9, #416]", "mov v12.d[1], x10", "ldr x10, [x9, #424]", "mov v13.d[1], x10",
        "ldr x10, [x9, #432]", "mov v14.d[1], x10", "ldr x10, [x9, #440]", "mov v15.d[1], x10",
        "ldp x1, x2, [x0, #8]", "ldp x3, x4, [x0, #24]", "ldp x5, x6, [x0, #40]", "ldp x7, x8, [x0, #56]",
        "ldp x9, x10, [x0, #72]", "ldp x11, x12, [x0, #88]", "ldp x13, x14, [x0, #104]", "ldp x15, x16, [x0, #120]",
        "ldr x17, [x0, #136]", "ldr x0, [x0]", "ret",
        ".cfi_endproc", ".size v_clobber, . - v_clobber",
        ".globl v_trap", ".globl v_trap_site", ".type v_trap, @function", "v_trap:", ".cfi_startproc",
        "ldr x1, [x0, #248]", "mov sp, x1",
        "ldp x1, x2, [x0, #8]", "ldp x3, x4, [x0, #24]", "ldp x5, x6, [x0, #40]", "ldp x7, x8, [x0, #56]",
        "ldp x9, x10, [x0, #72]", "ldp x11, x12, [x0, #88]", "ldp x13, x14, [x0, #104]", "ldp x15, x16, [x0, #120]",
        "ldp x17, x18, [x0, #136]", "ldp x19, x20, [x0, #152]", "ldp x21, x22, [x0, #168]", "ldp x23, x24, [x0, #184]",
        "ldp x25, x26, [x0, #200]", "ldp x27, x28, [x0, #216]", "ldp x29, x30, [x0, #232]", "ldr x0, [x0]",
        "v_trap_site:", "udf #0", ".cfi_endproc", ".size v_trap, . - v_trap",
    );
}

// ---------------------------------------------------------------- ARM (the stubs are in the ARM instruction set)
#[cfg(target_arch = "arm")]
mod arch {
    use super::*;
    pub const NSAVED: usize = 24; // r4..r11, d8..d15
    pub const NG: usize = 40;
    pub const SPIDX: usize = 13;
    pub const NIMG: usize = 15;
    pub const NCLOB: usize = 4 + 2 * 24;
    pub const SPALIGN: usize = 8;
    pub const RETPUSH: usize = 0;
    macro_rules! stub {
        ($n:literal) => {
            global_asm!(
                ".arm", ".balign 4", ".fpu neon",
                concat!(".globl ", $n), concat!(".globl ", $n, "_ret"), concat!(".type ", $n, ", %function"),
                concat!($n, ":"),
                ".fnstart",
                "push {{r4, r5, r6, r7, r8, r9, r10, r11, lr}}", ".save {{r4, r5, r6, r7, r8, r9, r10, r11, lr}}",
                "sub sp, sp, #4", ".pad #4",
                "vpush {{d8, d9, d10, d11, d12, d13, d14, d15}}", ".vsave {{d8, d9, d10, d11, d12, d13, d14, d15}}",
                "str r2, [sp, #64]",
                "mov r12, r0", "mov r0, r1", "str sp, [r2, #320]",
                "add r1, r2, #32", "vldmia r1, {{d8, d9, d10, d11, d12, d13, d14, d15}}",
                "ldm r2, {{r4, r5, r6, r7, r8, r9, r10, r11}}",
                "blx r12",
                concat!($n, "_ret:"),
                "ldr r2, [sp, #64]", "add r1, r2, #160",
                "stmia r1!, {{r4, r5, r6, r7, r8, r9, r10, r11}}", "vstmia r1!, {{d8, d9, d10, d11, d12, d13, d14, d15}}",
                "ldr r3, [r2, #320]", "sub r3, sp, r3", "str r3, [r1]",
                "vpop {{d8, d9, d10, d11, d12, d13, d14, d15}}", "add sp, sp, #4",
                "pop {{r4, r5, r6, r7, r8, r9, r10, r11, pc}}",
                ".fnend",
                concat!(".size ", $n, ", . - ", $n),
            );
        };
    }
    stub!("v_call_p");
    stub!("v_call_c");
    global_asm!(
        ".arm", ".balign 4", ".fpu neon",
        ".globl v_sp", ".type v_sp, %function", "v_sp:", ".fnstart", "mov r0, sp", "bx lr", ".fnend", ".size v_sp, . - v_sp",
        ".globl v_fp", ".type v_fp, %function", "v_fp:", ".fnstart", "mov r0, r11", "bx lr", ".fnend", ".size v_fp, . - v_fp",
        ".globl v_clobber", ".type v_clobber, %function", "v_clobber:", ".fnstart",
        "add r1, r0, #16", "vldmia r1!, {{d0, d1, d2, d3, d4, d5, d6, d7}}",
        "vldmia r1, {{d16, d17, d18, d19, d20, d21, d22, d23, d24, d25, d26, d27, d28, d29, d30, d31}}",
        "ldr r1, [r0, #4]", "ldr r2, [r0, #8]", "ldr r3, [r0, #12]", "mov r12, r3", "ldr r0, [r0]", "bx lr",
        ".fnend", ".size v_clobber, . - v_clobber",
        ".globl v_trap", ".globl v_trap_site", ".type v_trap, %function", "v_trap:", ".fnstart",
        "ldr r1, [r0, #52]", "mov sp, r1", "ldr lr, [r0, #56]", "add r12, r0, #48", "ldr r12, [r12]",
        "ldmib r0, {{r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11}}", "ldr r0, [r0]",
        "v_trap_site:", "udf #0", ".fnend", ".size v_trap, . - v_trap",
    );
}

// ---------------------------------------------------------------- RISC-V
#[cfg(any(target_arch = "riscv32", target_arch = "riscv64"))]
mod arch {
    use super::*;
    #[cfg(target_arch = "riscv64")]
    macro_rules! x { ($a:expr, $b:expr) => { $b }; }
    #[cfg(target_arch = "riscv32")]
    macro_rules! x { ($a:expr, $b:expr) => { $a }; }
    pub const NSAVED: usize = x!(36, 24); // s0..s11, fs0..fs11
    pub const NG: usize = 40;
    pub const SPIDX: usize = 2;
    pub const NIMG: usize = 32;
    pub const NCLOB: usize = x!(16 + 40, 16 + 20);
    pub const SPALIGN: usize = 16;
    pub const RETPUSH: usize = 0;
    macro_rules! l { ($r:literal, $o:literal, $b:literal) => { concat!(x!("lw ", "ld "), $r, ", (", $o, "*", x!("4", "8"), ")(", $b, ")") }; }
    macro_rules! s { ($r:literal, $o:literal, $b:literal) => { concat!(x!("sw ", "sd "), $r, ", (", $o, "*", x!("4", "8"), ")(", $b, ")") }; }
    macro_rules! w { ($r:literal, $o:literal) => { concat!(".cfi_offset ", $r, ", ", $o, "*", x!("4", "8"), "-208") }; }
    macro_rules! stub {
        ($n:literal) => {
            global_asm!(
                ".balign 4",
                concat!(".globl ", $n), concat!(".globl ", $n, "_ret"), concat!(".type ", $n, ", @function"),
                concat!($n, ":"),
                ".cfi_startproc",
                "addi sp, sp, -208", ".cfi_def_cfa_offset 208",
                s!("ra", 0, "sp"), w!("ra", 0), s!("s0", 1, "sp"), w!("s0", 1), s!("s1", 2, "sp"), w!("s1", 2),
                s!("s2", 3, "sp"), w!("s2", 3), s!("s3", 4, "sp"), w!("s3", 4), s!("s4", 5, "sp"), w!("s4", 5),
                s!("s5", 6, "sp"), w!("s5", 6), s!("s6", 7, "sp"), w!("s6", 7), s!("s7", 8, "sp"), w!("s7", 8),
                s!("s8", 9, "sp"), w!("s8", 9), s!("s9", 10, "sp"), w!("s9", 10), s!("s10", 11, "sp"), w!("s10", 11),
                s!("s11", 12, "sp"), w!("s11", 12),
                "fsd fs0, 104(sp)", ".cfi_offset fs0, -104", "fsd fs1, 112(sp)", ".cfi_offset fs1, -96",
                "fsd fs2, 120(sp)", ".cfi_offset fs2, -88", "fsd fs3, 128(sp)", ".cfi_offset fs3, -80",
                "fsd fs4, 136(sp)", ".cfi_offset fs4, -72", "fsd fs5, 144(sp)", ".cfi_offset fs5, -64",
                "fsd fs6, 152(sp)", ".cfi_offset fs6, -56", "fsd fs7, 160(sp)", ".cfi_offset fs7, -48",
                "fsd fs8, 168(sp)", ".cfi_offset fs8, -40", "fsd fs9, 176(sp)", ".cfi_offset fs9, -32",
                "fsd fs10, 184(sp)", ".cfi_offset fs10, -24", "fsd fs11, 192(sp)", ".cfi_offset fs11, -16",
                concat!(x!("sw", "sd"), " a2, 200(sp)"),
                "mv t0, a0", "mv a0, a1", s!("sp", 80, "a2"),
                l!("s0", 0, "a2"), l!("s1", 1, "a2"), l!("s2", 2, "a2"), l!("s3", 3, "a2"), l!("s4", 4, "a2"), l!("s5", 5, "a2"),
                l!("s6", 6, "a2"), l!("s7", 7, "a2"), l!("s8", 8, "a2"), l!("s9", 9, "a2"), l!("s10", 10, "a2"), l!("s11", 11, "a2"),
                concat!("addi t1, a2, ", x!("48", "96")),
                "fld fs0, 0(t1)", "fld fs1, 8(t1)", "fld fs2, 16(t1)", "fld fs3, 24(t1)", "fld fs4, 32(t1)", "fld fs5, 40(t1)",
                "fld fs6, 48(t1)", "fld fs7, 56(t1)", "fld fs8, 64(t1)", "fld fs9, 72(t1)", "fld fs10, 80(t1)", "fld fs11, 88(t1)",
                "jalr t0",
                concat!($n, "_ret:"),
                concat!(x!("lw", "ld"), " t0, 200(sp)"),
                concat!("addi t1, t0, ", x!("160", "320")),
                s!("s0", 0, "t1"), s!("s1", 1, "t1"), s!("s2", 2, "t1"), s!("s3", 3, "t1"), s!("s4", 4, "t1"), s!("s5", 5, "t1"),
                s!("s6", 6, "t1"), s!("s7", 7, "t1"), s!("s8", 8, "t1"), s!("s9", 9, "t1"), s!("s10", 10, "t1"), s!("s11", 11, "t1"),
                concat!("addi t1, t1, ", x!("48", "96")),
                "fsd fs0, 0(t1)", "fsd fs1, 8(t1)", "fsd fs2, 16(t1)", "fsd fs3, 24(t1)", "fsd fs4, 32(t1)", "fsd fs5, 40(t1)",
                "fsd fs6, 48(t1)", "fsd fs7, 56(t1)", "fsd fs8, 64(t1)", "fsd fs9, 72(t1)", "fsd fs10, 80(t1)", "fsd fs11, 88(t1)",
                l!("t2", 80, "t0"), "sub t2, sp, t2", concat!(x!("sw", "sd"), " t2, 96(t1)"),
                l!("ra", 0, "sp"), l!("s0", 1, "sp"), l!("s1", 2, "sp"), l!("s2", 3, "sp"), l!("s3", 4, "sp"), l!("s4", 5, "sp"),
                l!("s5", 6, "sp"), l!("s6", 7, "sp"), l!("s7", 8, "sp"), l!("s8", 9, "sp"), l!("s9", 10, "sp"), l!("s10", 11, "sp"),
                l!("s11", 12, "sp"),
                "fld fs0, 104(sp)", "fld fs1, 112(sp)", "fld fs2, 120(sp)", "fld fs3, 128(sp)", "fld fs4, 136(sp)", "fld fs5, 144(sp)",
                "fld fs6, 152(sp)", "fld fs7, 160(sp)", "fld fs8, 168(sp)", "fld fs9, 176(sp)", "fld fs10, 184(sp)", "fld fs11, 192(sp)",
                "addi sp, sp, 208", ".cfi_def_cfa_offset 0",
                "ret",
                ".cfi_endproc",
                concat!(".size ", $n, ", . - ", $n),
            );
        };
    }
    stub!("v_call_p");
    stub!("v_call_c");
    global_asm!(
        ".balign 4",
        ".globl v_sp", ".type v_sp, @function", "v_sp:", ".cfi_startproc", "mv a0, sp", "ret", ".cfi_endproc", ".size v_sp, . - v_sp",
        ".globl v_fp", ".type v_fp, @function", "v_fp:", ".cfi_startproc", "mv a0, s0", "ret", ".cfi_endproc", ".size v_fp, . - v_fp",
        ".globl v_clobber", ".type v_clobber, @function", "v_clobber:", ".cfi_startproc",
        concat!("addi t0, a0, ", x!("64", "128")),
        "fld ft0, 0(t0)", "fld ft1, 8(t0)", "fld ft2, 16(t0)", "fld ft3, 24(t0)", "fld ft4, 32(t0)", "fld ft5, 40(t0)",
        "fld ft6, 48(t0)", "fld ft7, 56(t0)", "fld fa0, 64(t0)", "fld fa1, 72(t0)", "fld fa2, 80(t0)", "fld fa3, 88(t0)",
        "fld fa4, 96(t0)", "fld fa5, 104(t0)", "fld fa6, 112(t0)", "fld fa7, 120(t0)", "fld ft8, 128(t0)", "fld ft9, 136(t0)",
        "fld ft10, 144(t0)", "fld ft11, 152(t0)",
        l!("t0", 1, "a0"), l!("t1", 2, "a0"), l!("t2", 3, "a0"), l!("a1", 4, "a0"), l!("a2", 5, "a0"), l!("a3", 6, "a0"),
        l!("a4", 7, "a0"), l!("a5", 8, "a0"), l!("a6", 9, "a0"), l!("a7", 10, "a0"), l!("t3", 11, "a0"), l!("t4", 12, "a0"),
        l!("t5", 13, "a0"), l!("t6", 14, "a0"), l!("a0", 0, "a0"), "ret",
        ".cfi_endproc", ".size v_clobber, . - v_clobber",
        ".globl v_trap", ".globl v_trap_site", ".type v_trap, @function", "v_trap:", ".cfi_startproc",
        l!("x1", 1, "a0"), l!("x2", 2, "a0"), l!("x5", 5, "a0"), l!("x6", 6, "a0"), l!("x7", 7, "a0"),
        l!("x8", 8, "a0"), l!("x9", 9, "a0"), l!("x11", 11, "a0"), l!("x12", 12, "a0"), l!("x13", 13, "a0"), l!("x14", 14, "a0"),
        l!("x15", 15, "a0"), l!("x16", 16, "a0"), l!("x17", 17, "a0"), l!("x18", 18, "a0"), l!("x19", 19, "a0"), l!("x20", 20, "a0"),
        l!("x21", 21, "a0"), l!("x22", 22, "a0"), l!("x23", 23, "a0"), l!("x24", 24, "a0"), l!("x25", 25, "a0"), l!("x26", 26, "a0"),
        l!("x27", 27, "a0"), l!("x28", 28, "a0"), l!("x29", 29, "a0"), l!("x30", 30, "a0"), l!("x31", 31, "a0"), l!("x10", 10, "a0"),
        ".balign 4",
        "v_trap_site:", "unimp", ".cfi_endproc", ".size v_trap, . - v_trap",
    );
}

// ---------------------------------------------------------------- LoongArch
#[cfg(target_arch = "loongarch64")]
mod arch {
    use super::*;
    pub const NSAVED: usize = 18; // fp, s0..s8, fs0..fs7
    pub const NG: usize = 40;
    pub const SPIDX: usize = 3;
    pub const NIMG: usize = 32;
    pub const NCLOB: usize = 17 + 24;
    pub const SPALIGN: usize = 16;
    pub const RETPUSH: usize = 0;
    macro_rules! stub {
        ($n:literal) => {
            global_asm!(
                ".balign 4",
                concat!(".globl ", $n), concat!(".globl ", $n, "_ret"), concat!(".type ", $n, ", @function"),
                concat!($n, ":"),
                ".cfi_startproc",
                "addi.d $sp, $sp, -160", ".cfi_def_cfa_offset 160",
                "st.d $ra, $sp, 0", ".cfi_offset 1, -160", "st.d $fp, $sp, 8", ".cfi_offset 22, -152",
                "st.d $s0, $sp, 16", ".cfi_offset 23, -144", "st.d $s1, $sp, 24", ".cfi_offset 24, -136",
                "st.d $s2, $sp, 32", ".cfi_offset 25, -128", "st.d $s3, $sp, 40", ".cfi_offset 26, -120",
                "st.d $s4, $sp, 48", ".cfi_offset 27, -112", "st.d $s5, $sp, 56", ".cfi_offset 28, -104",
                "st.d $s6, $sp, 64", ".cfi_offset 29, -96", "st.d $s7, $sp, 72", ".cfi_offset 30, -88",
                "st.d $s8, $sp, 80", ".cfi_offset 31, -80",
                "fst.d $fs0, $sp, 88", ".cfi_offset 56, -72", "fst.d $fs1, $sp, 96", ".cfi_offset 57, -64",
                "fst.d $fs2, $sp, 104", ".cfi_offset 58, -56", "fst.d $fs3, $sp, 112", ".cfi_offset 59, -48",
                "fst.d $fs4, $sp, 120", ".cfi_offset 60, -40", "fst.d $fs5, $sp, 128", ".cfi_offset 61, -32",
                "fst.d $fs6, $sp, 136", ".cfi_offset 62, -24", "fst.d $fs7, $sp, 144", ".cfi_offset 63, -16",
                "st.d $a2, $sp, 152",
                "move $t0, $a0", "move $a0, $a1", "st.d $sp, $a2, 640",
                "ld.d $fp, $a2, 0", "ld.d $s0, $a2, 8", "ld.d $s1, $a2, 16", "ld.d $s2, $a2, 24", "ld.d $s3, $a2, 32",
                "ld.d $s4, $a2, 40", "ld.d $s5, $a2, 48", "ld.d $s6, $a2, 56", "ld.d $s7, $a2, 64", "ld.d $s8, $a2, 72",
                "fld.d $fs0, $a2, 80", "fld.d $fs1, $a2, 88", "fld.d $fs2, $a2, 96", "fld.d $fs3, $a2, 104",
                "fld.d $fs4, $a2, 112", "fld.d $fs5, $a2, 120", "fld.d $fs6, $a2, 128", "fld.d $fs7, $a2, 136",
                "jirl $ra, $t0, 0",
                concat!($n, "_ret:"),
                "ld.d $t0, $sp, 152", "addi.d $t1, $t0, 320",
                "st.d $fp, $t1, 0", "st.d $s0, $t1, 8", "st.d $s1, $t1, 16", "st.d $s2, $t1, 24", "st.d $s3, $t1, 32",
                "st.d $s4, $t1, 40", "st.d $s5, $t1, 48", "st.d $s6, $t1, 56", "st.d $s7, $t1, 64", "st.d $s8, $t1, 72",
                "fst.d $fs0, $t1, 80", "fst.d $fs1, $t1, 88", "fst.d $fs2, $t1, 96", "fst.d $fs3, $t1, 104",
                "fst.d $fs4, $t1, 112", "fst.d $fs5, $t1, 120", "fst.d $fs6, $t1, 128", "fst.d $fs7, $t1, 136",
                "ld.d $t2, $t0, 640", "sub.d $t2, $sp, $t2", "st.d $t2, $t1, 144",
                "ld.d $ra, $sp, 0", "ld.d $fp, $sp, 8", "ld.d $s0, $sp, 16", "ld.d $s1, $sp, 24", "ld.d $s2, $sp, 32",
                "ld.d $s3, $sp, 40", "ld.d $s4, $sp, 48", "ld.d $s5, $sp, 56", "ld.d $s6, $sp, 64", "ld.d $s7, $sp, 72",
                "ld.d $s8, $sp, 80",
                "fld.d $fs0, $sp, 88", "fld.d $fs1, $sp, 96", "fld.d $fs2, $sp, 104", "fld.d $fs3, $sp, 112",
                "fld.d $fs4, $sp, 120", "fld.d $fs5, $sp, 128", "fld.d $fs6, $sp, 136", "fld.d $fs7, $sp, 144",
                "addi.d $sp, $sp, 160", ".cfi_def_cfa_offset 0",
                "jr $ra",
                ".cfi_endproc",
                concat!(".size ", $n, ", . - ", $n),
            );
        };
    }
    stub!("v_call_p");
    stub!("v_call_c");
    global_asm!(
        ".balign 4",
        ".globl v_sp", ".type v_sp, @function", "v_sp:", ".cfi_startproc", "move $a0, $sp", "jr $ra", ".cfi_endproc", ".size v_sp, . - v_sp",
        ".globl v_fp", ".type v_fp, @function", "v_fp:", ".cfi_startproc", "move $a0, $fp", "jr $ra", ".cfi_endproc", ".size v_fp, . - v_fp",
        ".globl v_clobber", ".type v_clobber, @function", "v_clobber:", ".cfi_startproc",
        "fld.d $f0, $a0, 136", "fld.d $f1, $a0, 144", "fld.d $f2, $a0, 152", "fld.d $f3, $a0, 160", "fld.d $f4, $a0, 168",
        "fld.d $f5, $a0, 176", "fld.d $f6, $a0, 184", "fld.d $f7, $a0, 192", "fld.d $f8, $a0, 200", "fld.d $f9, $a0, 208",
        "fld.d $f10, $a0, 216", "fld.d $f11, $a0, 224", "fld.d $f12, $a0, 232", "fld.d $f13, $a0, 240", "fld.d $f14, $a0, 248",
        "fld.d $f15, $a0, 256", "fld.d $f16, $a0, 264", "fld.d $f17, $a0, 272", "fld.d $f18, $a0, 280", "fld.d $f19, $a0, 288",
        "fld.d $f20, $a0, 296", "fld.d $f21, $a0, 304", "fld.d $f22, $a0, 312", "fld.d $f23, $a0, 320",
        "ld.d $a1, $a0, 8", "ld.d $a2, $a0, 16", "ld.d $a3, $a0, 24", "ld.d $a4, $a0, 32", "ld.d $a5, $a0, 40", "ld.d $a6, $a0, 48",
        "ld.d $a7, $a0, 56", "ld.d $t0, $a0, 64", "ld.d $t1, $a0, 72", "ld.d $t2, $a0, 80", "ld.d $t3, $a0, 88", "ld.d $t4, $a0, 96",
        "ld.d $t5, $a0, 104", "ld.d $t6, $a0, 112", "ld.d $t7, $a0, 120", "ld.d $t8, $a0, 128", "ld.d $a0, $a0, 0", "jr $ra",
        ".cfi_endproc", ".size v_clobber, . - v_clobber",
        ".globl v_trap", ".globl v_trap_site", ".type v_trap, @function", "v_trap:", ".cfi_startproc",
        "ld.d $r1, $a0, 8", "ld.d $r3, $a0, 24", "ld.d $r5, $a0, 40", "ld.d $r6, $a0, 48", "ld.d $r7, $a0, 56", "ld.d $r8, $a0, 64",
        "ld.d $r9, $a0, 72", "ld.d $r10, $a0, 80", "ld.d $r11, $a0, 88", "ld.d $r12, $a0, 96", "ld.d $r13, $a0, 104",
        "ld.d $r14, $a0, 112", "ld.d $r15, $a0, 120", "ld.d $r16, $a0, 128", "ld.d $r17, $a0, 136", "ld.d $r18, $a0, 144",
        "ld.d $r19, $a0, 152", "ld.d $r20, $a0, 160", "ld.d $r22, $a0, 176", "ld.d $r23, $a0, 184",
        "ld.d $r24, $a0, 192", "ld.d $r25, $a0, 200", "ld.d $r26, $a0, 208", "ld.d $r27, $a0, 216", "ld.d $r28, $a0, 224",
        "ld.d $r29, $a0, 232", "ld.d $r30, $a0, 240", "ld.d $r31, $a0, 248", "ld.d $r4, $a0, 32",
        "v_trap_site:", "break 0", ".cfi_endproc", ".size v_trap, . - v_trap",
    );
}
pub use arch::*;
