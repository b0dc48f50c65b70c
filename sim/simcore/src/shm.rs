//! Memory shared between a worker and the run it forks, so that a run which dies can still be
//! described and replayed.
use std::sync::atomic::{AtomicU32, AtomicU64};

pub const TAPE_CAP: usize = 1 << 16;
pub const MSG_CAP: usize = 1 << 21;
pub const LABEL_CAP: usize = 256;

#[repr(C)]
pub struct Shared {
    /// 0 running, 1 finished, 2 violation, 3 harness error
    pub status: AtomicU32,
    pub tape_len: AtomicU32,
    pub ev_hash: AtomicU64,
    pub events: AtomicU64,
    pub steps: AtomicU64,
    pub switches: AtomicU64,
    pub sched_hash: AtomicU64,
    pub label_len: AtomicU32,
    pub msg_len: AtomicU32,
    pub label: [u8; LABEL_CAP],
    pub tape: [u64; TAPE_CAP],
    pub msg: [u8; MSG_CAP],
}

pub unsafe fn map<T>() -> *mut T {
    map_bytes(std::mem::size_of::<T>()) as *mut T
}

pub unsafe fn map_bytes(len: usize) -> *mut u8 {
    let p = libc::mmap(
        std::ptr::null_mut(),
        len,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        eprintln!("simcore: mmap failed");
        std::process::exit(2);
    }
    p as *mut u8
}
