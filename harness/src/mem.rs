//! Memory reserved for lengths claimed by damaged data.
//!
//! Decoders reserve memory for as many items as the data claim to have before
//! reading them. The reservation alone may exceed the memory of the machine,
//! which ends the process. Here huge reservations do not take memory until it
//! is used, and are counted.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

use crate::frame::*;

const HUGE: usize = 1 << 30;
/// More than this is reserved only in part: there are no data to fill it.
const MOST: usize = 1 << 40;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}

pub struct Lazy;

unsafe impl GlobalAlloc for Lazy {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() < HUGE {
            return System.alloc(layout);
        }
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        // readable and writable; private, anonymous, without reservation
        let p = mmap(std::ptr::null_mut(), layout.size().min(MOST), 3, 0x4022, -1, 0);
        if p as isize == -1 {
            return std::ptr::null_mut();
        }
        p
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if layout.size() < HUGE {
            return System.dealloc(ptr, layout);
        }
        munmap(ptr, layout.size().min(MOST));
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if layout.size() < HUGE {
            return System.alloc_zeroed(layout);
        }
        self.alloc(layout)
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if layout.size() < HUGE && new_size < HUGE {
            return System.realloc(ptr, layout, new_size);
        }
        let new = Layout::from_size_align_unchecked(new_size, layout.align());
        let res = self.alloc(new);
        if !res.is_null() {
            std::ptr::copy_nonoverlapping(ptr, res, layout.size().min(new_size));
            self.dealloc(ptr, layout);
        }
        res
    }
}

/// The number of huge reservations made by the code.
pub fn huge<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let before = COUNT.with(|c| c.get());
    let res = f();
    (res, COUNT.with(|c| c.get()) - before)
}

/// Runs the code which must not panic nor reserve huge amounts of memory.
pub fn frugal<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    let (res, reserved) = huge(|| total(what, f));
    match res {
        Err(e) if e.msg.contains("capacity overflow") => Err(Fail::sig(HUGE_SIG, format!("{what}: {}", e.msg))),
        Err(e) if e.msg.contains("bulletproofs dummies must never be read") => Err(Fail::sig(DUMMY_SIG, e.msg)),
        Err(e) if e.msg.contains("overflow") && e.msg.contains("/base85-") => Err(Fail::sig(TEXT_SIG, e.msg)),
        _ if reserved > 0 => Err(Fail::sig(HUGE_SIG, format!("{what} reserves more than a gigabyte of memory"))),
        res => res,
    }
}

pub const HUGE_SIG: &str = "memory-reserved-for-claimed-length";

/// Encoded concealed amounts can't be read.
pub const DUMMY_SIG: &str = "panic-on-concealed-amount";

/// Groups of symbols in armored texts standing for too big numbers.
pub const TEXT_SIG: &str = "overflow-on-symbols-in-armored-text";

pub fn is_known_flaw(f: &Fail) -> bool { matches!(f.sig.as_deref(), Some(HUGE_SIG | DUMMY_SIG | TEXT_SIG)) }
