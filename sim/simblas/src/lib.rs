//! Simulated BLAS/LAPACK backends behind the Fortran symbols rstat links to. Each obeys the
//! reference contract; they differ in summation order, rounding, blocking, what they leave in
//! output storage meanwhile, and they are preemptible inside every call.
#![allow(clippy::missing_safety_doc)]
use libc::{c_char, c_int};
use simcore::sched::yield_point;
use simcore::sim::{callback, choose, count, violation};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub const KINDS: usize = 7;
pub const OPENBLAS: usize = 6;
/// The backend in use; `KINDS` means "the tape picks one per call".
static KIND: AtomicUsize = AtomicUsize::new(0);
pub static CALLS: AtomicUsize = AtomicUsize::new(0);

pub fn set_backend(k: usize) { KIND.store(k, Relaxed); }
pub fn any_backend() -> usize {
    let k = choose(KINDS + 1);
    set_backend(k);
    k
}
pub fn name(k: usize) -> &'static str {
    ["forward", "reverse", "fma", "pairwise", "interleaved", "double-double", "openblas", "per-call"][k]
}

fn enter(call: &str) -> usize {
    CALLS.store(CALLS.load(Relaxed) + 1, Relaxed);
    let k = KIND.load(Relaxed);
    let k = if k >= KINDS { choose(KINDS) } else { k };
    count(&format!("backend:{}:{}", name(k), call), 1);
    yield_point(0x3001);
    k
}

fn bad(call: &str, what: &str) {
    violation(
        &format!("backend contract {}", call),
        format!("{} called with {}; the reference implementation stops the program", call, what),
    );
}

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let t = s - a;
    (s, (a - (s - t)) + (b - t))
}

/// start + sum of products, in the order and precision of backend `k`.
fn dot(k: usize, start: f64, n: usize, f: &dyn Fn(usize) -> (f64, f64)) -> f64 {
    yield_point(0x3002);
    match k {
        0 => (0..n).fold(start, |s, i| { let (a, b) = f(i); s + a * b }),
        1 => (0..n).rev().fold(0.0, |s, i| { let (a, b) = f(i); s + a * b }) + start,
        2 => (0..n).fold(start, |s, i| { let (a, b) = f(i); a.mul_add(b, s) }),
        3 => {
            fn go(f: &dyn Fn(usize) -> (f64, f64), lo: usize, hi: usize) -> f64 {
                match hi - lo {
                    0 => 0.0,
                    1 => { let (a, b) = f(lo); a * b },
                    n => go(f, lo, lo + n / 2) + go(f, lo + n / 2, hi),
                }
            }
            start + go(f, 0, n)
        },
        4 => {
            let e: f64 = (0..n).step_by(2).map(|i| { let (a, b) = f(i); a * b }).sum();
            let o: f64 = (1..n).step_by(2).map(|i| { let (a, b) = f(i); a * b }).sum();
            (start + o) + e
        },
        _ => {
            let (mut s, mut c) = (start, 0.0);
            for i in 0..n {
                let (a, b) = f(i);
                let p = a * b;
                let e = a.mul_add(b, -p);
                let (t, d) = two_sum(s, p);
                s = t;
                c += d + e;
            }
            s + c
        },
    }
}

static LIB: std::sync::atomic::AtomicPtr<libc::c_void> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// Load OpenBLAS once, before any run is forked.
pub fn init() {
    std::env::set_var("OPENBLAS_NUM_THREADS", "1");
    for n in [&b"libopenblas.so.0\0"[..], &b"libopenblas.so\0"[..]] {
        let h = unsafe { libc::dlopen(n.as_ptr() as *const c_char, libc::RTLD_NOW | libc::RTLD_LOCAL) };
        if !h.is_null() {
            LIB.store(h, Relaxed);
            return;
        }
    }
}

unsafe fn real(sym: &[u8]) -> *mut libc::c_void {
    let h = LIB.load(Relaxed);
    let p = if h.is_null() { h } else { libc::dlsym(h, sym.as_ptr() as *const c_char) };
    if p.is_null() {
        simcore::sim::harness_error("OpenBLAS symbol missing".into());
    }
    p
}

fn up(c: c_char) -> u8 { (c as u8).to_ascii_uppercase() }

#[no_mangle]
pub unsafe extern "C" fn dpotrf_(uplo: *const c_char, n: *const c_int, a: *mut f64, lda: *const c_int, info: *mut c_int) {
    callback(|| {
        let k = enter("dpotrf");
        let (u, n, lda) = (up(*uplo), *n, *lda);
        if !(u == b'U' || u == b'L') || n < 0 || lda < n.max(1) {
            bad("dpotrf", &format!("uplo={} n={} lda={}", u as char, n, lda));
            *info = if n < 0 { -2 } else { -4 };
            return;
        }
        if k == OPENBLAS {
            let f: unsafe extern "C" fn(*const c_char, *const c_int, *mut f64, *const c_int, *mut c_int) =
                std::mem::transmute(real(b"dpotrf_\0"));
            return f(uplo, &n, a, &lda, info);
        }
        let (n, ld) = (n as usize, lda as usize);
        *info = 0;
        // element (i,j), i <= j, of the upper factor U (A = U^T U); for 'L' use the mirror image
        let at = |i: usize, j: usize| if u == b'U' { a.add(i + j * ld) } else { a.add(j + i * ld) };
        for j in 0..n {
            for i in 0..=j {
                let s = dot(k, *at(i, j), i, &|t| (-*at(t, i), *at(t, j)));
                if i == j {
                    if !(s > 0.0) {
                        *at(j, j) = s;
                        *info = j as c_int + 1;
                        return;
                    }
                    *at(j, j) = s.sqrt();
                } else {
                    *at(i, j) = s / *at(i, i);
                }
            }
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn dtrtri_(uplo: *const c_char, diag: *const c_char, n: *const c_int, a: *mut f64, lda: *const c_int, info: *mut c_int) {
    callback(|| {
        let k = enter("dtrtri");
        let (u, d, n, lda) = (up(*uplo), up(*diag), *n, *lda);
        if !(u == b'U' || u == b'L') || !(d == b'N' || d == b'U') || n < 0 || lda < n.max(1) {
            bad("dtrtri", &format!("uplo={} diag={} n={} lda={}", u as char, d as char, n, lda));
            *info = -5;
            return;
        }
        if k == OPENBLAS {
            let f: unsafe extern "C" fn(*const c_char, *const c_char, *const c_int, *mut f64, *const c_int, *mut c_int) =
                std::mem::transmute(real(b"dtrtri_\0"));
            return f(uplo, diag, &n, a, &lda, info);
        }
        let (n, ld) = (n as usize, lda as usize);
        *info = 0;
        let at = |i: usize, j: usize| if u == b'U' { a.add(i + j * ld) } else { a.add(j + i * ld) };
        if d == b'N' {
            for j in 0..n {
                if *at(j, j) == 0.0 {
                    *info = j as c_int + 1;
                    return;
                }
            }
        }
        // X = U^-1 column by column, into scratch storage first
        let mut x = vec![f64::NAN; n * n];
        for j in 0..n {
            let dj = if d == b'N' { *at(j, j) } else { 1.0 };
            x[j + j * n] = 1.0 / dj;
            for i in (0..j).rev() {
                let di = if d == b'N' { *at(i, i) } else { 1.0 };
                let s = dot(k, 0.0, j - i, &|t| (-*at(i, i + 1 + t), x[(i + 1 + t) + j * n]));
                x[i + j * n] = s / di;
            }
        }
        for j in 0..n {
            for i in 0..=j {
                if i < j || d == b'N' {
                    *at(i, j) = x[i + j * n];
                }
            }
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn dgemm_(
    ta: *const c_char, tb: *const c_char, m: *const c_int, n: *const c_int, kk: *const c_int,
    alpha: *const f64, a: *const f64, lda: *const c_int, b: *const f64, ldb: *const c_int,
    beta: *const f64, c: *mut f64, ldc: *const c_int,
) {
    callback(|| {
        let k = enter("dgemm");
        let (ta_, tb_) = (up(*ta), up(*tb));
        let (m_, n_, k_, la, lb, lc) = (*m, *n, *kk, *lda, *ldb, *ldc);
        let nota = ta_ == b'N';
        let notb = tb_ == b'N';
        let ra = if nota { m_ } else { k_ };
        let rb = if notb { k_ } else { n_ };
        if !b"NTC".contains(&ta_) || !b"NTC".contains(&tb_) || m_ < 0 || n_ < 0 || k_ < 0
            || la < ra.max(1) || lb < rb.max(1) || lc < m_.max(1)
        {
            bad("dgemm", &format!("{}{} m={} n={} k={} lda={} ldb={} ldc={}", ta_ as char, tb_ as char, m_, n_, k_, la, lb, lc));
            return;
        }
        if k == OPENBLAS {
            type F = unsafe extern "C" fn(
                *const c_char, *const c_char, *const c_int, *const c_int, *const c_int, *const f64,
                *const f64, *const c_int, *const f64, *const c_int, *const f64, *mut f64, *const c_int,
            );
            let f: F = std::mem::transmute(real(b"dgemm_\0"));
            return f(ta, tb, &m_, &n_, &k_, alpha, a, &la, b, &lb, beta, c, &lc);
        }
        let (m_, n_, k_, la, lb, lc) = (m_ as usize, n_ as usize, k_ as usize, la as usize, lb as usize, lc as usize);
        let av = |i: usize, t: usize| if nota { *a.add(i + t * la) } else { *a.add(t + i * la) };
        let bv = |t: usize, j: usize| if notb { *b.add(t + j * lb) } else { *b.add(j + t * lb) };
        let mut out = vec![0.0; m_ * n_];
        for j in 0..n_ {
            for i in 0..m_ {
                let s = dot(k, 0.0, k_, &|t| (av(i, t), bv(t, j)));
                let old = if *beta == 0.0 { 0.0 } else { *beta * *c.add(i + j * lc) };
                out[i + j * m_] = *alpha * s + old;
            }
        }
        // output storage is scratch until the call returns
        for j in 0..n_ {
            for i in 0..m_ {
                *c.add(i + j * lc) = f64::NAN;
            }
        }
        yield_point(0x3003);
        for j in 0..n_ {
            for i in 0..m_ {
                *c.add(i + j * lc) = out[i + j * m_];
            }
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn dtrmv_(
    uplo: *const c_char, trans: *const c_char, diag: *const c_char, n: *const c_int,
    a: *const f64, lda: *const c_int, x: *mut f64, incx: *const c_int,
) {
    callback(|| {
        let k = enter("dtrmv");
        let (u, t, d, n_, la, inc) = (up(*uplo), up(*trans), up(*diag), *n, *lda, *incx);
        if !b"UL".contains(&u) || !b"NTC".contains(&t) || !b"NU".contains(&d) || n_ < 0 || la < n_.max(1) || inc == 0 {
            bad("dtrmv", &format!("uplo={} trans={} diag={} n={} lda={} incx={}", u as char, t as char, d as char, n_, la, inc));
            return;
        }
        if k == OPENBLAS {
            type F = unsafe extern "C" fn(
                *const c_char, *const c_char, *const c_char, *const c_int, *const f64, *const c_int, *mut f64, *const c_int,
            );
            let f: F = std::mem::transmute(real(b"dtrmv_\0"));
            return f(uplo, trans, diag, &n_, a, &la, x, &inc);
        }
        let (n, la) = (n_ as usize, la as usize);
        let ix = |i: usize| -> *mut f64 {
            if inc > 0 { x.add(i * inc as usize) } else { x.add((n - 1 - i) * (-inc) as usize) }
        };
        let xs: Vec<f64> = (0..n).map(|i| *ix(i)).collect();
        let el = |i: usize, j: usize| -> f64 {
            // op(A)(i,j), only the stored triangle referenced
            let (r, c) = if t == b'N' { (i, j) } else { (j, i) };
            if r == c {
                if d == b'U' { 1.0 } else { *a.add(r + c * la) }
            } else if (u == b'U') == (r < c) {
                *a.add(r + c * la)
            } else {
                0.0
            }
        };
        let upper = (u == b'U') == (t == b'N');
        let mut out = vec![0.0; n];
        for i in 0..n {
            let (lo, hi) = if upper { (i, n) } else { (0, i + 1) };
            out[i] = dot(k, 0.0, hi - lo, &|s| (el(i, lo + s), xs[lo + s]));
        }
        for i in 0..n {
            *ix(i) = f64::NAN;
        }
        yield_point(0x3004);
        for i in 0..n {
            *ix(i) = out[i];
        }
    })
}
