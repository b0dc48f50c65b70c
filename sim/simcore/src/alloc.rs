//! A counting allocator that also poisons fresh and freed memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};

pub struct SimAlloc;

static FRESH: AtomicU8 = AtomicU8::new(0xA5);
/// The byte found in memory the code under test has just been given.
pub fn set_fresh(b: u8) { FRESH.store(b, Relaxed) }

thread_local! {
    static BAL: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    static ON: Cell<bool> = const { Cell::new(false) };
}

#[inline]
fn add(n: i64, b: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = BAL.try_with(|c| {
                let (x, y) = c.get();
                c.set((x + n, y + b))
            });
        }
    });
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(1, l.size() as i64);
            if crate::sim::in_sut() {
                std::ptr::write_bytes(p, FRESH.load(Relaxed), l.size().min(4096));
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-1, -(l.size() as i64));
        if crate::sim::in_sut() {
            std::ptr::write_bytes(p, 0x5A, l.size().min(4096));
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(1, l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(0, n as i64 - l.size() as i64);
        }
        q
    }
}

/// Blocks and bytes allocated minus freed by this thread during `f`.
pub fn balance<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    let old = BAL.with(|c| c.replace((0, 0)));
    let was = ON.with(|o| o.replace(true));
    let r = f();
    ON.with(|o| o.set(was));
    let (n, b) = BAL.with(|c| c.replace(old));
    (r, n, b)
}

/// Leaves a byte pattern on the part of the stack that the next call will use.
#[inline(never)]
pub fn smear(b: u8) {
    let mut a = [0u8; 24 << 10];
    for i in 0..a.len() {
        unsafe { std::ptr::write_volatile(a.as_mut_ptr().add(i), b) };
    }
    std::hint::black_box(&mut a);
}
