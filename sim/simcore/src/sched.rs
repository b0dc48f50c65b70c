//! Simulated clients: real threads released one at a time; the tape decides who runs and for how
//! many preemption points.
use crate::sim::{callback, choose, choose_nz, ctx, in_sut, mix, violation, TID};
use crate::shm::Shared;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static GAP: AtomicU64 = AtomicU64::new(u64::MAX);
static CURRENT: AtomicUsize = AtomicUsize::new(usize::MAX);
static STEPS: AtomicU64 = AtomicU64::new(0);
static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());
static SCALE: AtomicUsize = AtomicUsize::new(0);
/// Basic blocks of the code under test entered since a call into it last began.
static EDGES: AtomicU64 = AtomicU64::new(0);
/// A call that enters more is not going to return.
pub const EDGE_BUDGET: u64 = 400_000_000;

pub fn new_call() { EDGES.store(0, Relaxed) }

#[cold]
fn endless() {
    EDGES.store(0, Relaxed);
    let label = crate::sim::label();
    violation(
        &format!("no progress in {}", label),
        format!("one call entered {} basic blocks without returning, inside {}", EDGE_BUDGET, label),
    );
}

struct St {
    done: Vec<bool>,
    blocked: Vec<bool>,
    os_tid: Vec<i32>,
    started: usize,
}
static ST: Mutex<St> = Mutex::new(St { done: vec![], blocked: vec![], os_tid: vec![], started: 0 });
static CV: Condvar = Condvar::new();
static PARK: [Condvar; 16] = [const { Condvar::new() }; 16];

// --- coverage ------------------------------------------------------------------------------

pub const COV: usize = 1 << 17;
static COVMAP: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static NGUARD: AtomicUsize = AtomicUsize::new(0);

pub fn init_cov() { COVMAP.store(unsafe { crate::shm::map_bytes(COV) }, Relaxed); }
pub fn cov_counts() -> (usize, usize) {
    let p = COVMAP.load(Relaxed);
    let n = NGUARD.load(Relaxed).min(COV - 1);
    let hit = (1..=n).filter(|i| unsafe { *p.add(*i) } != 0).count();
    (hit, n)
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    unsafe {
        let mut p = a;
        while p < b {
            if *p == 0 {
                *p = NGUARD.fetch_add(1, Relaxed) as u32 + 1;
            }
            p = p.add(1);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if in_sut() {
        let id = unsafe { *g } as usize;
        let n = EDGES.load(Relaxed) + 1;
        EDGES.store(n, Relaxed);
        if n > EDGE_BUDGET {
            callback(endless);
        }
        let m = COVMAP.load(Relaxed);
        if !m.is_null() && id < COV {
            unsafe { *m.add(id) = 1 };
        }
        if ACTIVE.load(Relaxed) {
            callback(|| yield_point(id as u64));
        }
    }
}

// --- scheduling ----------------------------------------------------------------------------

pub fn bind(shared: *mut Shared) { SHARED.store(shared, Relaxed); }

/// A point at which the scheduler may hand over to another client.
#[inline]
pub fn yield_point(label: u64) {
    let n = STEPS.load(Relaxed) + 1;
    STEPS.store(n, Relaxed);
    if !ACTIVE.load(Relaxed) {
        return;
    }
    let me = TID.with(|t| t.get());
    if me == usize::MAX {
        return;
    }
    if CURRENT.load(Relaxed) != me {
        wait_turn(me);
        return;
    }
    let g = GAP.load(Relaxed);
    if g > 1 {
        GAP.store(g - 1, Relaxed);
        return;
    }
    switch(me, label);
}

fn new_gap() {
    let s = SCALE.load(Relaxed);
    let g = if s == 0 { 0 } else { choose_nz(2 * s) as u64 };
    GAP.store(if g == 0 { u64::MAX } else { g }, Relaxed);
}

fn lock() -> std::sync::MutexGuard<'static, St> {
    match ST.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

fn wait_turn(me: usize) {
    let mut st = lock();
    st.blocked[me] = false;
    // if whoever held the baton is finished or stuck, someone must take it
    let cur = CURRENT.load(Relaxed);
    if cur >= st.done.len() || st.done[cur] {
        CURRENT.store(me, Relaxed);
    }
    while CURRENT.load(Relaxed) != me {
        st = PARK[me].wait(st).unwrap_or_else(|p| p.into_inner());
    }
}

fn hand_to(t: usize, label: u64) {
    crate::sim::trace_only(|| format!("-> client{} at step {} (point {:#x})", t, STEPS.load(Relaxed), label));
    CURRENT.store(t, Relaxed);
    let s = SHARED.load(Relaxed);
    if !s.is_null() {
        unsafe {
            let s = &*s;
            s.switches.store(s.switches.load(Relaxed) + 1, Relaxed);
            s.sched_hash.store(mix(s.sched_hash.load(Relaxed), mix(label, t as u64)), Relaxed);
        }
    }
    PARK[t].notify_all();
}

fn switch(me: usize, label: u64) {
    let others: Vec<usize> = {
        let st = lock();
        (0..st.done.len()).filter(|&t| t != me && !st.done[t] && !st.blocked[t]).collect()
    };
    if others.is_empty() {
        GAP.store(u64::MAX, Relaxed);
        return;
    }
    let t = others[choose(others.len())];
    new_gap();
    let mut st = lock();
    hand_to(t, label);
    while CURRENT.load(Relaxed) != me {
        st = PARK[me].wait(st).unwrap_or_else(|p| p.into_inner());
    }
}

fn finish_client(me: usize) {
    if CURRENT.load(Relaxed) != me {
        wait_turn(me);
    }
    let others: Vec<usize> = {
        let st = lock();
        (0..st.done.len()).filter(|&t| t != me && !st.done[t] && !st.blocked[t]).collect()
    };
    if others.is_empty() {
        let mut st = lock();
        st.done[me] = true;
        let b = (0..st.done.len()).find(|&t| !st.done[t]);
        if let Some(t) = b {
            hand_to(t, 2);
        }
        drop(st);
    } else {
        let t = others[choose(others.len())];
        new_gap();
        let mut st = lock();
        st.done[me] = true;
        hand_to(t, 1);
    }
    CV.notify_all();
}

/// How finely the clients of this run are interleaved (decided by the tape).
pub fn any_scale() -> usize { [0, 2, 6, 25, 120, 800][choose(6)] }

/// Run the clients to completion under the scheduler.
pub fn run_clients(scale: usize, clients: Vec<Box<dyn FnOnce() + Send>>) {
    let n = clients.len();
    assert!(n <= 16);
    if n == 0 {
        return;
    }
    SCALE.store(scale, Relaxed);
    {
        let mut st = lock();
        *st = St { done: vec![false; n], blocked: vec![false; n], os_tid: vec![0; n], started: 0 };
    }
    CURRENT.store(usize::MAX - 1, Relaxed);
    let mut handles = vec![];
    for (i, f) in clients.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                TID.with(|t| t.set(i));
                {
                    let mut st = lock();
                    st.os_tid[i] = unsafe { libc::syscall(libc::SYS_gettid) as i32 };
                    st.started += 1;
                    CV.notify_all();
                    while CURRENT.load(Relaxed) != i {
                        st = PARK[i].wait(st).unwrap_or_else(|p| p.into_inner());
                    }
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                if let Err(p) = r {
                    let c = crate::sim::describe(p);
                    crate::sim::harness_error(format!("client {} panicked in the harness: {:?}", i, c));
                }
                finish_client(i);
            })
            .expect("spawn");
        handles.push(h);
    }
    let mut st = lock();
    while st.started < n {
        st = CV.wait(st).unwrap_or_else(|p| p.into_inner());
    }
    drop(st);
    ACTIVE.store(true, SeqCst);
    let first = choose(n);
    new_gap();
    {
        let _st = lock();
        hand_to(first, 0);
    }
    // watchdog: a client stuck on a lock of its own gives up the baton
    let mut dead = 0;
    let mut last = (u64::MAX, 0usize);
    let mut pause = Duration::from_millis(1);
    loop {
        let st = lock();
        if st.done.iter().all(|d| *d) {
            break;
        }
        let (st, _) = CV.wait_timeout(st, pause).unwrap_or_else(|p| p.into_inner());
        if st.done.iter().all(|d| *d) {
            break;
        }
        let now = (STEPS.load(Relaxed), CURRENT.load(Relaxed));
        let tids: Vec<i32> = (0..n).filter(|&t| !st.done[t]).map(|t| st.os_tid[t]).collect();
        drop(st);
        if now != last {
            last = now;
            dead = 0;
            pause = (pause * 2).min(Duration::from_millis(20));
            continue;
        }
        pause = Duration::from_millis(1);
        // Stuck only if every client sleeps, repeatedly, without a step in between: a client that
        // was handed the baton or a lock is runnable.
        let asleep = || {
            std::thread::sleep(Duration::from_micros(200));
            (STEPS.load(Relaxed), CURRENT.load(Relaxed)) == now && tids.iter().all(|&t| sleeping(t))
        };
        if !(asleep() && asleep() && asleep()) {
            dead = 0;
            continue;
        }
        let mut st = lock();
        let cur = now.1;
        if (STEPS.load(Relaxed), CURRENT.load(Relaxed)) != now || cur >= n || st.done[cur] {
            continue;
        }
        st.blocked[cur] = true;
        let next = (0..n).find(|&t| !st.done[t] && !st.blocked[t]);
        match next {
            Some(t) => {
                dead = 0;
                hand_to(t, 3);
            },
            None => {
                dead += 1;
                if dead > 100 {
                    drop(st);
                    violation("deadlock", "all simulated clients are blocked in the code under test".into());
                    std::process::exit(1);
                }
            },
        }
    }
    ACTIVE.store(false, SeqCst);
    for h in handles {
        let _ = h.join();
    }
    flush();
}

fn sleeping(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid))
        .ok()
        .and_then(|s| s.rsplit(')').next().map(|r| r.trim_start().starts_with('S')))
        .unwrap_or(false)
}

/// Publish the step counter (logical simulated time).
pub fn flush() {
    let s = SHARED.load(Relaxed);
    if !s.is_null() {
        unsafe { (*s).steps.store(STEPS.load(Relaxed), Relaxed) };
    }
}

pub fn steps() -> u64 { STEPS.load(Relaxed) }
pub fn reset() {
    STEPS.store(0, Relaxed);
    let _ = ctx;
}
