//! Register stubs for Windows (only encoded, never run here).
use core::arch::global_asm;

#[cfg(target_arch = "x86_64")]
mod arch {
    use super::*;
    pub const NSAVED: usize = 28; // rbx rbp rdi rsi r12..r15, xmm6..xmm15
    pub const NG: usize = 32;
    pub const SPIDX: usize = 4;
    pub const NIMG: usize = 16;
    pub const NCLOB: usize = 8 + 12;
    pub const SPALIGN: usize = 16;
    pub const RETPUSH: usize = 8;
    macro_rules! stub {
        ($n:literal) => {
            global_asm!(
                concat!(".globl ", $n), concat!(".globl ", $n, "_ret"),
                concat!(".def ", $n), ".scl 2", ".type 32", ".endef",
                ".balign 16",
                concat!($n, ":"),
                concat!(".seh_proc ", $n),
                "push rbp", ".seh_pushreg rbp", "push rbx", ".seh_pushreg rbx", "push rdi", ".seh_pushreg rdi",
                "push rsi", ".seh_pushreg rsi", "push r12", ".seh_pushreg r12", "push r13", ".seh_pushreg r13",
                "push r14", ".seh_pushreg r14", "push r15", ".seh_pushreg r15",
                "sub rsp, 216", ".seh_stackalloc 216",
                "movaps [rsp + 48], xmm6", ".seh_savexmm xmm6, 48", "movaps [rsp + 64], xmm7", ".seh_savexmm xmm7, 64",
                "movaps [rsp + 80], xmm8", ".seh_savexmm xmm8, 80", "movaps [rsp + 96], xmm9", ".seh_savexmm xmm9, 96",
                "movaps [rsp + 112], xmm10", ".seh_savexmm xmm10, 112", "movaps [rsp + 128], xmm11", ".seh_savexmm xmm11, 128",
                "movaps [rsp + 144], xmm12", ".seh_savexmm xmm12, 144", "movaps [rsp + 160], xmm13", ".seh_savexmm xmm13, 160",
                "movaps [rsp + 176], xmm14", ".seh_savexmm xmm14, 176", "movaps [rsp + 192], xmm15", ".seh_savexmm xmm15, 192",
                ".seh_endprologue",
                "mov [rsp + 32], r8",
                "mov rax, rcx", "mov rcx, rdx", "mov [r8 + 512], rsp",
                "mov rbx, [r8]", "mov rbp, [r8 + 8]", "mov rdi, [r8 + 16]", "mov rsi, [r8 + 24]",
                "mov r12, [r8 + 32]", "mov r13, [r8 + 40]", "mov r14, [r8 + 48]", "mov r15, [r8 + 56]",
                "movups xmm6, [r8 + 64]", "movups xmm7, [r8 + 80]", "movups xmm8, [r8 + 96]", "movups xmm9, [r8 + 112]",
                "movups xmm10, [r8 + 128]", "movups xmm11, [r8 + 144]", "movups xmm12, [r8 + 160]", "movups xmm13, [r8 + 176]",
                "movups xmm14, [r8 + 192]", "movups xmm15, [r8 + 208]",
                "call rax",
                concat!($n, "_ret:"),
                "mov r8, [rsp + 32]",
                "mov [r8 + 256], rbx", "mov [r8 + 264], rbp", "mov [r8 + 272], rdi", "mov [r8 + 280], rsi",
                "mov [r8 + 288], r12", "mov [r8 + 296], r13", "mov [r8 + 304], r14", "mov [r8 + 312], r15",
                "movups [r8 + 320], xmm6", "movups [r8 + 336], xmm7", "movups [r8 + 352], xmm8", "movups [r8 + 368], xmm9",
                "movups [r8 + 384], xmm10", "movups [r8 + 400], xmm11", "movups [r8 + 416], xmm12", "movups [r8 + 432], xmm13",
                "movups [r8 + 448], xmm14", "movups [r8 + 464], xmm15",
                "mov rdx, rsp", "sub rdx, [r8 + 512]", "mov [r8 + 480], rdx",
                "movaps xmm6, [rsp + 48]", "movaps xmm7, [rsp + 64]", "movaps xmm8, [rsp + 80]", "movaps xmm9, [rsp + 96]",
                "movaps xmm10, [rsp + 112]", "movaps xmm11, [rsp + 128]", "movaps xmm12, [rsp + 144]", "movaps xmm13, [rsp + 160]",
                "movaps xmm14, [rsp + 176]", "movaps xmm15, [rsp + 192]",
                "add rsp, 216",
                "pop r15", "pop r14", "pop r13", "pop r12", "pop rsi", "pop rdi", "pop rbx", "pop rbp",
                "ret",
                ".seh_endproc",
            );
        };
    }
    stub!("v_call_p");
    stub!("v_call_c");
    global_asm!(
        ".globl v_sp", "v_sp:", "mov rax, rsp", "ret",
        ".globl v_fp", "v_fp:", "mov rax, rbp", "ret",
        ".globl v_clobber", "v_clobber:",
        "movups xmm0, [rcx + 64]", "movups xmm1, [rcx + 80]", "movups xmm2, [rcx + 96]", "movups xmm3, [rcx + 112]",
        "movups xmm4, [rcx + 128]", "movups xmm5, [rcx + 144]",
        "mov rax, [rcx]", "mov rdx, [rcx + 16]", "mov r8, [rcx + 32]", "mov r9, [rcx + 40]", "mov r10, [rcx + 48]",
        "mov r11, [rcx + 56]", "mov rcx, [rcx + 8]", "ret",
        ".globl v_trap", ".globl v_trap_site", "v_trap:",
        "mov rax, [rcx]", "mov rdx, [rcx + 16]", "mov rbx, [rcx + 24]", "mov rsp, [rcx + 32]",
        "mov rbp, [rcx + 40]", "mov rsi, [rcx + 48]", "mov rdi, [rcx + 56]", "mov r8, [rcx + 64]", "mov r9, [rcx + 72]",
        "mov r10, [rcx + 80]", "mov r11, [rcx + 88]", "mov r12, [rcx + 96]", "mov r13, [rcx + 104]", "mov r14, [rcx + 112]",
        "mov r15, [rcx + 120]", "mov rcx, [rcx + 8]",
        "v_trap_site:", "ud2",
    );
}

#[cfg(target_arch = "x86")]
mod arch {
    use super::*;
    pub const NSAVED: usize = 4;
    pub const NG: usize = 8;
    pub const SPIDX: usize = 4;
    pub const NIMG: usize = 16;
    pub const NCLOB: usize = 96;
    pub const SPALIGN: usize = 4;
    pub const RETPUSH: usize = 4;
    macro_rules! stub {
        ($n:literal) => {
            global_asm!(
                concat!(".globl _", $n), concat!(".globl _", $n, "_ret"),
                concat!("_", $n, ":"),
                "push ebp", "push ebx", "push esi", "push edi",
                "mov eax, [esp + 20]", "mov ecx, [esp + 24]", "mov edx, [esp + 28]",
                "sub esp, 12",
                "mov [esp], ecx", "mov [esp + 4], edx",
                "mov [edx + 64], esp",
                "mov ebx, [edx]", "mov ebp, [edx + 4]", "mov esi, [edx + 8]", "mov edi, [edx + 12]",
                "call eax",
                concat!("_", $n, "_ret:"),
                "mov ecx, [esp + 4]",
                "mov [ecx + 32], ebx", "mov [ecx + 36], ebp", "mov [ecx + 40], esi", "mov [ecx + 44], edi",
                "sub esp, [ecx + 64]", "mov [ecx + 48], esp", "add esp, [ecx + 64]",
                "add esp, 12",
                "pop edi", "pop esi", "pop ebx", "pop ebp",
                "ret",
            );
        };
    }
    stub!("v_call_p");
    stub!("v_call_c");
    global_asm!(
        ".globl _v_sp", "_v_sp:", "mov eax, esp", "ret",
        ".globl _v_fp", "_v_fp:", "mov eax, ebp", "ret",
        ".globl _v_clobber", "_v_clobber:", "mov eax, [esp + 4]",
        "movups xmm0, [eax + 128]", "movups xmm1, [eax + 144]", "movups xmm2, [eax + 160]", "movups xmm3, [eax + 176]",
        "movups xmm4, [eax + 192]", "movups xmm5, [eax + 208]", "movups xmm6, [eax + 224]", "movups xmm7, [eax + 240]",
        "mov ecx, [eax + 4]", "mov edx, [eax + 8]", "mov eax, [eax]", "ret",
        ".globl _v_trap", ".globl _v_trap_site", "_v_trap:",
        "mov edi, [esp + 4]",
        "mov eax, [edi]", "mov ecx, [edi + 4]", "mov edx, [edi + 8]", "mov ebx, [edi + 12]", "mov esp, [edi + 16]",
        "mov ebp, [edi + 20]", "mov esi, [edi + 24]", "mov edi, [edi + 28]",
        "_v_trap_site:", "ud2",
    );
}
pub use arch::*;
