//! A counting allocator: memory held by the code under test is bounded per operation.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// A single request beyond this ends the process (after reporting): it cannot be served safely.
pub const HUGE: usize = 300 << 20;

pub fn arm() {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    ARMED.with(|c| c.set(true));
}
/// Returns the largest number of bytes held since `arm`.
pub fn disarm() -> u64 {
    ARMED.with(|c| c.set(false));
    PEAK.with(|c| c.get()).max(0) as u64
}

fn add(n: i64) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let c = CUR.with(|c| {
                c.set(c.get() + n);
                c.get()
            });
            PEAK.with(|p| {
                if c > p.get() {
                    p.set(c);
                }
            });
        }
    });
}
fn check(size: usize) {
    if size > HUGE {
        let armed = ARMED.try_with(|a| a.replace(false)).unwrap_or(false);
        if armed {
            crate::run::fatal(&format!("one operation requests a buffer of {size} bytes"));
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        check(l.size());
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        check(l.size());
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check(n);
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
