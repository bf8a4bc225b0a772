//! The operations of `probe` on a 32-bit target without an operating system.
#![no_std]
extern crate alloc;
#[path = "../../probe/src/ops.rs"]
mod ops;

use alloc::{boxed::Box, vec};
use core::alloc::{GlobalAlloc, Layout};
use core::cell::Cell;

/// Never frees; `reset` goes back to an earlier mark.
struct Bump {
    next: Cell<usize>,
    end: Cell<usize>,
}
// SAFETY: there are no threads here
unsafe impl Sync for Bump {}
// SAFETY: blocks come from memory this allocator alone asked for, and do not overlap
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let at = (self.next.get() + l.align() - 1) & !(l.align() - 1);
        if at + l.size() > self.end.get() {
            let pages = l.size() / 65536 + 16;
            let old = core::arch::wasm32::memory_grow(0, pages);
            if old == usize::MAX {
                core::arch::wasm32::unreachable()
            }
            if self.end.get() != old * 65536 {
                self.next.set(old * 65536);
            }
            self.end.set((old + pages) * 65536);
            return self.alloc(l);
        }
        self.next.set(at + l.size());
        at as *mut u8
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static HEAP: Bump = Bump { next: Cell::new(0), end: Cell::new(0) };

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    core::arch::wasm32::unreachable()
}

/// memory for a request
#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}
/// the answer, ended by a zero byte
/// # Safety
/// `p` comes from `room(n)`
#[no_mangle]
pub unsafe extern "C" fn request(p: *mut u8, n: usize) -> *mut u8 {
    let line = core::str::from_utf8(core::slice::from_raw_parts(p, n)).unwrap();
    Box::leak((ops::respond(line) + "\0").into_bytes().into_boxed_slice()).as_mut_ptr()
}
#[no_mangle]
pub extern "C" fn mark() -> usize {
    room(1);
    HEAP.next.get()
}
/// forgets everything allocated since the mark
#[no_mangle]
pub extern "C" fn reset(n: usize) {
    HEAP.next.set(n);
}
