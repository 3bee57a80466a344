//! Assembly probes: registers as a caller sees them, stack alignment.
use std::arch::global_asm;

#[cfg(target_arch = "x86_64")]
pub const NREG: usize = 6;
#[cfg(target_arch = "x86")]
pub const NREG: usize = 4;
#[cfg(target_arch = "x86_64")]
pub const REGS: [&str; 6] = ["rbx", "rbp", "r12", "r13", "r14", "r15"];
#[cfg(target_arch = "x86")]
pub const REGS: [&str; 4] = ["ebx", "ebp", "esi", "edi"];

/// Image of what a callee must preserve.
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Image {
    pub r: [usize; NREG],
    pub sp: usize,
    pub flags: usize,
    pub mxcsr: u32,
    pub fpucw: u32,
    pub x87tag: u32,
    pub pad: u32,
}

#[cfg(target_arch = "x86_64")]
global_asm!(
    ".globl vh_regprobe",
    ".type vh_regprobe,@function",
    "vh_regprobe:",
    ".cfi_startproc",
    "push rbp", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset rbp, 0",
    "push rbx", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset rbx, 0",
    "push r12", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r12, 0",
    "push r13", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r13, 0",
    "push r14", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r14, 0",
    "push r15", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r15, 0",
    "sub rsp, 56", ".cfi_adjust_cfa_offset 56",
    // rdi cb, rsi arg, rdx before, rcx after
    "mov [rsp + 8], rcx",
    "mov [rdx + 48], rsp",
    "pushfq", ".cfi_adjust_cfa_offset 8", "pop rax", ".cfi_adjust_cfa_offset -8",
    "and rax, 0x400",
    "mov [rdx + 56], rax",
    "stmxcsr [rdx + 64]",
    "and dword ptr [rdx + 64], 0xffc0",
    "fnstcw [rdx + 68]",
    "mov rbx, [rdx]",
    "mov rbp, [rdx + 8]",
    "mov r12, [rdx + 16]",
    "mov r13, [rdx + 24]",
    "mov r14, [rdx + 32]",
    "mov r15, [rdx + 40]",
    "mov rax, rdi",
    "mov rdi, rsi",
    "call rax",
    "nop",
    "mov rcx, [rsp + 8]",
    "mov [rcx], rbx",
    "mov [rcx + 8], rbp",
    "mov [rcx + 16], r12",
    "mov [rcx + 24], r13",
    "mov [rcx + 32], r14",
    "mov [rcx + 40], r15",
    "mov [rcx + 48], rsp",
    "pushfq", ".cfi_adjust_cfa_offset 8", "pop rdx", ".cfi_adjust_cfa_offset -8",
    "and rdx, 0x400",
    "mov [rcx + 56], rdx",
    "stmxcsr [rcx + 64]",
    "and dword ptr [rcx + 64], 0xffc0",
    "fnstcw [rcx + 68]",
    "fnstenv [rsp + 16]",
    "movzx edx, word ptr [rsp + 24]",
    "mov [rcx + 72], edx",
    "fldenv [rsp + 16]",
    "add rsp, 56", ".cfi_adjust_cfa_offset -56",
    "pop r15", ".cfi_adjust_cfa_offset -8", ".cfi_restore r15",
    "pop r14", ".cfi_adjust_cfa_offset -8", ".cfi_restore r14",
    "pop r13", ".cfi_adjust_cfa_offset -8", ".cfi_restore r13",
    "pop r12", ".cfi_adjust_cfa_offset -8", ".cfi_restore r12",
    "pop rbx", ".cfi_adjust_cfa_offset -8", ".cfi_restore rbx",
    "pop rbp", ".cfi_adjust_cfa_offset -8", ".cfi_restore rbp",
    "ret",
    ".cfi_endproc",
    ".size vh_regprobe, . - vh_regprobe",
    // Stack pointer at the call site of this function.
    ".globl vh_callsp",
    ".type vh_callsp,@function",
    "vh_callsp:",
    ".cfi_startproc",
    "lea rax, [rsp + 8]",
    "ret",
    ".cfi_endproc",
    ".size vh_callsp, . - vh_callsp",
);
#[cfg(target_arch = "x86")]
global_asm!(
    ".globl vh_regprobe",
    ".type vh_regprobe,@function",
    "vh_regprobe:",
    ".cfi_startproc",
    "push ebp", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset ebp, 0",
    "push ebx", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset ebx, 0",
    "push esi", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset esi, 0",
    "push edi", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset edi, 0",
    "sub esp, 60", ".cfi_adjust_cfa_offset 60",
    // 80(esp) cb, 84 arg, 88 before, 92 after
    "mov edx, [esp + 88]",
    "mov [edx + 16], esp",
    "pushfd", ".cfi_adjust_cfa_offset 4", "pop eax", ".cfi_adjust_cfa_offset -4",
    "and eax, 0x400",
    "mov [edx + 20], eax",
    "stmxcsr [edx + 24]",
    "and dword ptr [edx + 24], 0xffc0",
    "fnstcw [edx + 28]",
    "mov eax, [esp + 84]",
    "mov [esp], eax",
    "mov eax, [esp + 80]",
    "mov ebx, [edx]",
    "mov ebp, [edx + 4]",
    "mov esi, [edx + 8]",
    "mov edi, [edx + 12]",
    "call eax",
    "nop",
    "mov ecx, [esp + 92]",
    "mov [ecx], ebx",
    "mov [ecx + 4], ebp",
    "mov [ecx + 8], esi",
    "mov [ecx + 12], edi",
    "mov [ecx + 16], esp",
    "pushfd", ".cfi_adjust_cfa_offset 4", "pop edx", ".cfi_adjust_cfa_offset -4",
    "and edx, 0x400",
    "mov [ecx + 20], edx",
    "stmxcsr [ecx + 24]",
    "and dword ptr [ecx + 24], 0xffc0",
    "fnstcw [ecx + 28]",
    "fnstenv [esp + 4]",
    "movzx edx, word ptr [esp + 12]",
    "mov [ecx + 32], edx",
    "fldenv [esp + 4]",
    "add esp, 60", ".cfi_adjust_cfa_offset -60",
    "pop edi", ".cfi_adjust_cfa_offset -4", ".cfi_restore edi",
    "pop esi", ".cfi_adjust_cfa_offset -4", ".cfi_restore esi",
    "pop ebx", ".cfi_adjust_cfa_offset -4", ".cfi_restore ebx",
    "pop ebp", ".cfi_adjust_cfa_offset -4", ".cfi_restore ebp",
    "ret",
    ".cfi_endproc",
    ".size vh_regprobe, . - vh_regprobe",
    ".globl vh_callsp",
    ".type vh_callsp,@function",
    "vh_callsp:",
    ".cfi_startproc",
    "lea eax, [esp + 4]",
    "ret",
    ".cfi_endproc",
    ".size vh_callsp, . - vh_callsp",
);
extern "C-unwind" {
    fn vh_regprobe(cb: unsafe extern "C-unwind" fn(*mut u8), arg: *mut u8, before: *mut Image, after: *mut Image);
    fn vh_callsp() -> usize;
}

/// Calls `f` with the callee-saved registers holding `vals`, and reports every
/// difference the caller could observe afterwards.
#[inline(never)]
pub fn with_registers<F: FnMut()>(vals: [usize; NREG], mut f: F) -> Option<String> {
    unsafe extern "C-unwind" fn tramp<F: FnMut()>(p: *mut u8) {
        (*(p as *mut F))()
    }
    let mut b = Image { r: vals, ..Default::default() };
    let mut a = Image::default();
    unsafe { vh_regprobe(tramp::<F>, &mut f as *mut F as *mut u8, &mut b, &mut a) };
    b.fpucw &= 0xffff;
    a.fpucw &= 0xffff;
    for i in 0..NREG {
        if a.r[i] != vals[i] {
            return Some(format!("register {} was {:#x} before and {:#x} after", REGS[i], vals[i], a.r[i]));
        }
    }
    if a.sp != b.sp {
        return Some(format!("the stack pointer moved from {:#x} to {:#x}", b.sp, a.sp));
    }
    if a.flags != b.flags {
        return Some("the direction flag changed".into());
    }
    if a.mxcsr != b.mxcsr || a.fpucw != b.fpucw {
        return Some(format!("floating-point control changed: mxcsr {:#x}->{:#x}, cw {:#x}->{:#x}", b.mxcsr, a.mxcsr, b.fpucw, a.fpucw));
    }
    if a.x87tag & 0xffff != 0xffff {
        return Some(format!("the x87 register stack is not empty: tag {:#x}", a.x87tag));
    }
    None
}

/// The stack pointer as the compiler believes it to be 16-aligned at calls.
#[inline(always)]
pub fn call_sp() -> usize {
    unsafe { vh_callsp() }
}
/// True if calls made here obey the platform ABI's 16-byte stack alignment.
/// The compiler derives it from the alignment at entry of the function.
#[inline(always)]
pub fn aligned_here() -> bool {
    call_sp() % 16 == 0
}
