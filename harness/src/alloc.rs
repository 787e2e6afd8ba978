//! Allocator that tracks the live and peak number of bytes per thread and
//! refuses single allocations beyond a hard limit.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Tracking;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// No case needs as much in one piece, or altogether on its thread: asking for
/// more ends the process, which the caller reports as a crash of the case
const PIECE: usize = 1 << 30;
const TOTAL: isize = 3 << 30;

fn too_much(size: usize) -> bool {
    size > PIECE || LIVE.try_with(|l| l.get() + size as isize > TOTAL).unwrap_or(false)
}

fn note(delta: isize) {
    let _ = LIVE.try_with(|l| {
        let now = l.get() + delta;
        l.set(now);
        let _ = PEAK.try_with(|p| {
            if now > p.get() {
                p.set(now)
            }
        });
    });
}

/// Start a measurement on this thread
pub fn reset() -> isize {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    live
}

/// Peak number of bytes above the level at `reset`
pub fn peak_since(base: isize) -> u64 {
    (PEAK.with(|p| p.get()) - base).max(0) as u64
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if too_much(layout.size()) {
            return std::ptr::null_mut();
        }
        note(layout.size() as isize);
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        note(-(layout.size() as isize));
        System.dealloc(ptr, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if too_much(layout.size()) {
            return std::ptr::null_mut();
        }
        note(layout.size() as isize);
        System.alloc_zeroed(layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if new_size > layout.size() && too_much(new_size) {
            return std::ptr::null_mut();
        }
        note(new_size as isize - layout.size() as isize);
        System.realloc(ptr, layout, new_size)
    }
}
