//! What scenarios use: choices, log, faults, probes, checks, entry into the code under test.
use crate::shm::{Shared, LABEL_CAP, MSG_CAP};
use crate::tape::{Echo, Tape};
use serde_json::{json, Value};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Mutex, MutexGuard};

pub struct Ctx {
    pub tape: Tape,
    pub shared: *mut Shared,
    pub counters: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub known: Vec<(String, String)>,
    pub known_hits: BTreeMap<String, String>,
    pub trace: Option<Vec<String>>,
    pub property: String,
    pub evals: u64,
    pub subruns: u64,
}
unsafe impl Send for Ctx {}

static CTX: Mutex<Option<Ctx>> = Mutex::new(None);

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    pub static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// The payload of an injected crash.
pub struct SimCrash(pub u64);

#[derive(Debug, Clone, PartialEq)]
pub enum Caught {
    Crash(u64),
    Panic(String),
}

#[inline]
pub fn in_sut() -> bool { IN_SUT.with(|c| c.get()) }

struct Flag(bool);
impl Drop for Flag {
    fn drop(&mut self) { IN_SUT.with(|c| c.set(self.0)) }
}
fn set_flag(v: bool) -> Flag { Flag(IN_SUT.with(|c| c.replace(v))) }

/// Harness code called back from the code under test: no preemption inside.
#[inline]
pub fn callback<T>(f: impl FnOnce() -> T) -> T {
    let _g = set_flag(false);
    f()
}

pub fn install(ctx: Ctx) { *CTX.lock().unwrap() = Some(ctx); }

pub fn ctx() -> MutexGuard<'static, Option<Ctx>> {
    match CTX.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> T { f(ctx().as_mut().expect("no simulation context")) }

// --- choices -------------------------------------------------------------------------------

/// A choice in `[0, n)`; 0 is the simplest.
pub fn choose(n: usize) -> usize { with(|c| c.tape.draw_from(0, n as u64)) as usize }
pub fn choose_nz(n: usize) -> usize { with(|c| c.tape.draw_from(1, n as u64 + 1)) as usize }
pub fn range(lo: i64, hi: i64) -> i64 { lo + choose((hi - lo + 1) as usize) as i64 }
/// True with probability num/den (false is the simple case).
pub fn chance(num: usize, den: usize) -> bool {
    let v = with(|c| c.tape.draw_from(0, den as u64)) as usize;
    v >= den - num
}
pub fn bulk_seed() -> u64 { with(|c| c.tape.draw_from(0, 1 << 62)) }
/// A number in [0,1] with 2^-32 resolution.
pub fn unit() -> f64 { with(|c| c.tape.draw_from(0, (1 << 32) + 1)) as f64 / (1u64 << 32) as f64 }
pub fn uniform(lo: f64, hi: f64) -> f64 { lo + (hi - lo) * unit() }
pub fn log_uniform(lo: f64, hi: f64) -> f64 { (lo.ln() + (hi.ln() - lo.ln()) * unit()).exp() }
pub fn pick<'a, T>(xs: &'a [T]) -> &'a T { &xs[choose(xs.len())] }
pub fn shuffle<T>(xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
        let j = i - choose(i + 1);
        xs.swap(i, j);
    }
}

/// Makes something, noting the choices that went into it.
pub fn noted<T>(f: impl FnOnce() -> T) -> (T, Vec<u64>) {
    with(|c| c.tape.trail = Some(vec![]));
    let x = f();
    (x, with(|c| c.tape.trail.take()).unwrap_or_default())
}
/// Makes it again with the same choices.
pub fn same<T>(trail: &[u64], f: impl FnOnce() -> T) -> T {
    with(|c| c.tape.echo = Some((trail.iter().map(|v| Echo::Same(*v)).collect(), 0)));
    let x = f();
    with(|c| c.tape.echo = None);
    x
}
/// Makes it again with all but one or two of the choices the same, the others slightly or wholly different.
pub fn near<T>(trail: &[u64], f: impl FnOnce() -> T) -> T {
    let mut e: Vec<Echo> = trail.iter().map(|v| Echo::Same(*v)).collect();
    if !e.is_empty() {
        for _ in 0..1 + choose(2) {
            let k = choose(e.len());
            e[k] = if chance(2, 3) { Echo::Beside(trail[k], *pick(&[1, 1, 3, 40])) } else { Echo::Fresh };
        }
    }
    with(|c| c.tape.echo = Some((e, 0)));
    let x = f();
    with(|c| c.tape.echo = None);
    x
}

// --- log -----------------------------------------------------------------------------------

pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = h.rotate_left(5) ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 32)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = b.len() as u64 + 0x51ed;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(w));
    }
    h
}

pub fn shared() -> &'static Shared {
    with(|c| unsafe { &*(c.shared as *const Shared) })
}

fn bump(c: &mut Ctx, v: u64) {
    let s = unsafe { &*c.shared };
    s.ev_hash.store(mix(s.ev_hash.load(Relaxed), v), Relaxed);
    s.events.store(s.events.load(Relaxed) + 1, Relaxed);
}

/// Mix a value into the event log's hash without a trace line.
pub fn note(v: u64) { with(|c| bump(c, v)) }

pub fn log_line(s: String) {
    let t = TID.with(|t| t.get());
    with(|c| {
        bump(c, hash_bytes(s.as_bytes()) ^ t as u64);
        if let Some(tr) = &mut c.trace {
            if tr.len() < 2000 {
                let who = if t == usize::MAX { "main".to_string() } else { format!("client{}", t) };
                tr.push(format!("[{}] {}", who, s));
            }
        }
    })
}

/// A trace line that is not part of the event log.
pub fn trace_only(f: impl FnOnce() -> String) {
    with(|c| {
        if let Some(tr) = &mut c.trace {
            if tr.len() < 4000 {
                tr.push(f());
            }
        }
    })
}

#[macro_export]
macro_rules! log {
    ($($a:tt)*) => { $crate::log_line(format!($($a)*)) };
}

pub fn count(name: &str, n: u64) {
    with(|c| *c.counters.entry(name.to_string()).or_insert(0) += n)
}
/// A fault that actually fired.
pub fn fault(kind: &str) { count(&format!("fault:{}", kind), 1) }
/// A rare condition that was reached.
pub fn probe(name: &str) { count(&format!("probe:{}", name), 1) }
/// One evaluation of an oracle.
pub fn evals(n: u64) { with(|c| c.evals += n) }
pub fn subrun() { with(|c| c.subruns += 1) }
/// A distinct state, case or configuration reached.
pub fn state(h: u64) {
    with(|c| {
        if c.states.len() < 20_000 {
            c.states.insert(h);
        }
    })
}
pub fn sample(s: String) {
    with(|c| {
        if c.samples.len() < 3 {
            c.samples.push(s)
        }
    })
}

// --- verdicts ------------------------------------------------------------------------------

pub fn finish(status: u32, extra: Value) -> ! {
    let mut g = ctx();
    let c = g.as_mut().unwrap();
    let s = c.shared;
    let states: Vec<u64> = c.states.iter().copied().collect();
    let v = json!({
        "extra": extra,
        "counters": c.counters,
        "states": states,
        "samples": c.samples,
        "known": c.known_hits,
        "evals": c.evals,
        "subruns": c.subruns,
        "trace": c.trace,
    });
    let text = serde_json::to_string(&v).unwrap();
    unsafe {
        let b = text.as_bytes();
        let n = if b.len() <= MSG_CAP { b.len() } else { 0 };
        let m = &mut (*s).msg;
        m[..n].copy_from_slice(&b[..n]);
        (*s).msg_len.store(n as u32, Relaxed);
        (*s).status.store(status, Relaxed);
        libc::_exit(0)
    }
}

/// Report a violation of the property under check. Returns only if it is a listed finding.
pub fn violation(class: &str, msg: String) {
    let listed = with(|c| {
        let hit = c.known.iter().any(|(p, k)| *p == c.property && k == class);
        if hit {
            c.known_hits.entry(class.to_string()).or_insert_with(|| msg.clone());
        }
        hit
    });
    if listed {
        log!("known finding {}: {}", class, msg);
        return;
    }
    log!("VIOLATION {}: {}", class, msg);
    finish(2, json!({"class": class, "msg": msg}))
}

/// One oracle evaluation. Returns whether it held.
pub fn check(ok: bool, class: impl FnOnce() -> String, msg: impl FnOnce() -> String) -> bool {
    evals(1);
    if !ok {
        violation(&class(), msg());
    }
    ok
}

pub fn harness_error(msg: String) -> ! {
    finish(3, json!({"class": "harness", "msg": msg}))
}

// --- the code under test -------------------------------------------------------------------

pub fn set_label(label: &str) {
    with(|c| unsafe {
        let b = label.as_bytes();
        let n = b.len().min(LABEL_CAP);
        let dst = &mut (*c.shared).label;
        dst[..n].copy_from_slice(&b[..n]);
        (*c.shared).label_len.store(n as u32, Relaxed);
    })
}

pub fn label() -> String {
    with(|c| unsafe {
        let s = &*c.shared;
        String::from_utf8_lossy(&s.label[..s.label_len.load(Relaxed) as usize]).to_string()
    })
}

/// As `set_label("{a}: {b}")`, without building the text.
pub fn set_label_parts(a: &str, b: &str) {
    with(|c| unsafe {
        let dst = &mut (*c.shared).label;
        let mut n = 0;
        for part in [a.as_bytes(), b": ", b.as_bytes()] {
            let k = part.len().min(LABEL_CAP - n);
            dst[n..n + k].copy_from_slice(&part[..k]);
            n += k;
        }
        (*c.shared).label_len.store(n as u32, Relaxed);
    })
}

pub fn describe(p: Box<dyn Any + Send>) -> Caught {
    match p.downcast::<SimCrash>() {
        Ok(c) => Caught::Crash(c.0),
        Err(p) => {
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            Caught::Panic(format!("{} ({})", m, loc))
        },
    }
}

/// Enter the code under test: preemptible, panics caught.
pub fn sut<T>(label: &str, f: impl FnOnce() -> T) -> Result<T, Caught> {
    set_label(label);
    sut_quiet(f)
}

/// As `sut`, without touching the label (for hot loops).
pub fn sut_quiet<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    crate::sched::new_call();
    let r = {
        let _g = set_flag(true);
        catch_unwind(AssertUnwindSafe(f))
    };
    r.map_err(describe)
}

/// Throw an injected crash into the code under test.
pub fn crash_now(k: u64) -> ! { resume_unwind(Box::new(SimCrash(k))) }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = loc);
    }));
}

/// Where a panic happened, without the line (stable under unrelated edits).
pub fn panic_site(c: &Caught) -> String {
    match c {
        Caught::Crash(_) => "injected".into(),
        Caught::Panic(m) => {
            let loc = m.rsplit('(').next().unwrap_or("");
            loc.split(':').next().unwrap_or("").to_string()
        },
    }
}

/// Run `f` in a process forked off right here and return its bytes (None if it died).
/// Must be called while no simulated client is running.
pub fn fresh_process(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    subrun();
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            harness_error("pipe failed".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            harness_error("fork failed".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            let out = catch_unwind(AssertUnwindSafe(f));
            let code = match out {
                Ok(bytes) => {
                    let mut b = &bytes[..];
                    while !b.is_empty() {
                        let n = libc::write(fds[1], b.as_ptr() as *const _, b.len());
                        if n <= 0 {
                            libc::_exit(9);
                        }
                        b = &b[n as usize..];
                    }
                    0
                },
                Err(_) => 8,
            };
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n < 0 && *libc::__errno_location() == libc::EINTR {
                continue;
            }
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Some(out)
        } else {
            None
        }
    }
}
