//! Raw kernel calls that bypass the interposed libc symbols.
use std::arch::asm;
#[inline(always)]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe { asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack)); }
    r
}
/// libc convention: -1 and errno.
pub unsafe fn libc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = unsafe { sys6(n, a, b, c, d, e, f) };
    if (-4095..0).contains(&r) { set_errno(-r as i32); -1 } else { r }
}
pub fn set_errno(e: i32) { unsafe { *libc::__errno_location() = e } }
pub fn write_fd(fd: i32, b: &[u8]) {
    let mut off = 0;
    while off < b.len() {
        let r = unsafe { sys6(libc::SYS_write, fd as i64, b[off..].as_ptr() as i64, (b.len() - off) as i64, 0, 0, 0) };
        if r <= 0 { if r == -(libc::EINTR as i64) { continue; } return; }
        off += r as usize;
    }
}
pub fn exit_group(code: i32) -> ! { unsafe { sys6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0); } loop {} }
pub fn real_now() -> std::time::Duration {
    let mut ts: [i64; 2] = [0; 2];
    unsafe { sys6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, ts.as_mut_ptr() as i64, 0, 0, 0, 0); }
    std::time::Duration::new(ts[0] as u64, ts[1] as u32)
}
