//! Scripts what the operating system's generator returns to this thread (x86-64 Linux), so that entry points that use
//! it can be decided like the others.  Replaces libc's `syscall` and `getrandom`; everything else passes through.
use std::cell::Cell;

#[derive(Clone, Copy)]
struct Script {
    /// outlives its use
    bytes: *const u8,
    len: usize,
    at: usize,
    faults: Faults,
    calls: u32,
}
/// What the operating system may do besides returning all the bytes at once
#[derive(Clone, Copy, Default)]
pub struct Faults {
    /// at most this many bytes a call (0: no limit)
    pub most: usize,
    /// every n-th call is interrupted (0: none)
    pub interrupt: u32,
    /// fails for good once this many bytes have been returned
    pub fail_after: Option<usize>,
}
thread_local! {
    static SCRIPT: Cell<Option<Script>> = const { Cell::new(None) };
}
const SYS_GETRANDOM: i64 = 318;
extern "C" {
    fn __errno_location() -> *mut i32;
}
const EINTR: i32 = 4;
const EIO: i32 = 5;
unsafe fn scripted(buf: *mut u8, len: usize) -> Option<isize> {
    SCRIPT.with(|cell| {
        let mut s = cell.get()?;
        s.calls += 1;
        let mut n = if s.faults.most > 0 { len.min(s.faults.most) } else { len };
        let mut error = 0;
        if s.faults.interrupt > 0 && s.calls % s.faults.interrupt == 0 {
            error = EINTR;
        } else if let Some(f) = s.faults.fail_after {
            n = n.min(f.saturating_sub(s.at));
            if n == 0 && len > 0 {
                error = EIO;
            }
        }
        if error != 0 {
            cell.set(Some(s));
            *__errno_location() = error;
            return Some(-1);
        }
        for i in 0..n {
            // beyond the script: a fixed pattern
            *buf.add(i) = if s.at < s.len { *s.bytes.add(s.at) } else { s.at as u8 ^ 0xa5 };
            s.at += 1;
        }
        cell.set(Some(s));
        Some(n as isize)
    })
}
/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == SYS_GETRANDOM && a != 0 {
        if let Some(r) = scripted(a as *mut u8, b) {
            return r as i64;
        }
    }
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    syscall(SYS_GETRANDOM, buf as usize, len, flags as usize, 0, 0, 0) as isize
}
/// Runs `f` with the operating system's generator returning `script`; also says how many bytes were taken.
/// `f` must not unwind.
pub fn with_os_random<R>(script: &[u8], faults: Faults, f: impl FnOnce() -> R) -> (R, usize) {
    SCRIPT.with(|s| s.set(Some(Script { bytes: script.as_ptr(), len: script.len(), at: 0, faults, calls: 0 })));
    let r = f();
    let used = SCRIPT.with(|s| s.take()).map_or(0, |s| s.at);
    (r, used)
}
