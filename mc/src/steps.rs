//! Steps executed by this thread. Only in the build for C32 (`--cfg mc_steps`), whose
//! code calls `__sanitizer_cov_trace_pc` on every edge of the control flow graph, and
//! whose calls of memcpy, memmove and memset come by here: one step per eight bytes.
#[cfg(mc_steps)]
mod count {
    use std::arch::{asm, global_asm};
    global_asm!(
        ".section .tbss.mc_steps,\"awT\",@nobits",
        ".globl mc_steps",
        ".type mc_steps,@object",
        ".size mc_steps,8",
        ".p2align 3",
        "mc_steps: .zero 8",
        ".text",
        ".macro MC_FN name",
        ".globl \\name",
        ".type \\name,@function",
        "\\name:",
        ".endm",
        "MC_FN __sanitizer_cov_trace_pc",
        "incq %fs:mc_steps@tpoff",
        "ret",
        ".macro MC_WRAP name",
        "MC_FN __wrap_\\name",
        "movq %rdx,%rax",
        "shrq $3,%rax",
        "addq %rax,%fs:mc_steps@tpoff",
        "jmp __real_\\name@PLT",
        ".endm",
        "MC_WRAP memcpy",
        "MC_WRAP memmove",
        "MC_WRAP memset",
        options(att_syntax)
    );
    pub fn now() -> u64 {
        let v: u64;
        unsafe { asm!("movq %fs:mc_steps@tpoff, {}", out(reg) v, options(att_syntax, nostack)) }
        v
    }
}
#[cfg(mc_steps)]
pub const COUNTED: bool = true;
#[cfg(not(mc_steps))]
pub const COUNTED: bool = false;
#[cfg(not(mc_steps))]
mod count {
    pub fn now() -> u64 {
        0
    }
}
/// Steps this thread takes in `f`.
pub fn taken<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let a = count::now();
    let r = f();
    (r, count::now() - a)
}
