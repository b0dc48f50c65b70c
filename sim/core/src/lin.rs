//! C16: the linear algebra helpers over simulated backends.
use rcore::door;
use simblas::{any_backend, name};
use simcore::sched::{any_scale, run_clients};
use simcore::tape::Xo;
use simcore::*;

fn gauss(x: &mut Xo) -> f64 {
    let u = ((x.next() >> 11) as f64 + 0.5) / (1u64 << 53) as f64;
    let v = ((x.next() >> 11) as f64 + 0.5) / (1u64 << 53) as f64;
    (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
}

/// A symmetric positive-definite matrix of one of several kinds, with a bound on its condition.
pub fn spd<const N: usize>() -> ([[f64; N]; N], f64, String) {
    let kind = choose(8);
    let mut x = Xo::new(bulk_seed());
    let mut a = [[0.0; N]; N];
    let mut what = format!("kind {}", kind);
    match kind {
        0 => {
            for i in 0..N {
                a[i][i] = 1.0 + i as f64;
            }
        },
        1 => {
            // integers: M M^T + I
            let mut m = [[0.0; N]; N];
            for r in m.iter_mut() {
                for v in r.iter_mut() {
                    *v = (x.below(7) as f64) - 3.0;
                }
            }
            for i in 0..N {
                for j in 0..N {
                    a[i][j] = (0..N).map(|k| m[i][k] * m[j][k]).sum::<f64>() + if i == j { 1.0 } else { 0.0 };
                }
            }
        },
        2 => {
            // equicorrelated with scales
            let r = uniform(-0.9 / (N.max(2) - 1) as f64, 0.95);
            let s: Vec<f64> = (0..N).map(|_| (gauss(&mut x) * 2.0).exp()).collect();
            for i in 0..N {
                for j in 0..N {
                    a[i][j] = if i == j { s[i] * s[i] } else { r * s[i] * s[j] };
                }
            }
            what = format!("equicorrelated {}", r);
        },
        3 => {
            // AR(1)
            let r = uniform(-0.95, 0.95);
            for i in 0..N {
                for j in 0..N {
                    a[i][j] = f64::powi(r, (i as i32 - j as i32).abs());
                }
            }
            what = format!("AR(1) {}", r);
        },
        4 => {
            // tridiagonal
            for i in 0..N {
                a[i][i] = 2.5;
                if i + 1 < N {
                    a[i][i + 1] = -1.0;
                    a[i + 1][i] = -1.0;
                }
            }
        },
        _ => {
            // L L^T with a generic L, scaled
            let mut l = [[0.0; N]; N];
            for i in 0..N {
                for j in 0..i {
                    l[i][j] = gauss(&mut x);
                }
                l[i][i] = 0.2 + gauss(&mut x).abs();
            }
            let sc = [1.0, 1e-8, 1e8, 1e-100, 1e100][choose(5)];
            for i in 0..N {
                for j in 0..N {
                    let (lo, hi) = if i < j { (i, j) } else { (j, i) };
                    a[i][j] = sc * (0..=lo).map(|k| l[lo][k] * l[hi][k]).sum::<f64>();
                }
            }
            what = format!("generic x {:e}", sc);
        },
    }
    (a, x.next() as f64, what)
}

fn norm<const N: usize>(a: &[[f64; N]; N]) -> f64 { a.iter().flatten().fold(0.0, |m, v| m.max(v.abs())) }
fn frob<const N: usize>(a: &[[f64; N]; N]) -> f64 { a.iter().flatten().map(|v| v * v).sum::<f64>().sqrt() }
fn mat<const N: usize>(f: impl Fn(usize, usize) -> f64) -> [[f64; N]; N] { std::array::from_fn(|i| std::array::from_fn(|j| f(i, j))) }

fn finite<const N: usize>(a: &[[f64; N]; N]) -> bool { a.iter().flatten().all(|v| v.is_finite()) }

pub fn one<const N: usize>() {
    let eps = f64::EPSILON;
    let nn = (N.max(1) * N.max(1)) as f64;
    let (a, _, what) = spd::<N>();
    let scale = norm(&a).max(f64::MIN_POSITIVE);
    log!("order {} {}", N, what);
    state(mix(N as u64, hash_bytes(what.split(' ').next().unwrap().as_bytes())));
    let bad = |op: &str, c: Caught| violation(&format!("{}: panicked", op), format!("order {} {}: {:?}", N, what, c));

    let l = match sut("cholesky", || door::cholesky(a)) {
        Ok(l) => l,
        Err(c) => return bad("cholesky", c),
    };
    for i in 0..N {
        for j in i + 1..N {
            check(l[i][j] == 0.0, || "cholesky: nonzero above the diagonal".into(), || format!("order {} {}: L[{}][{}] = {}", N, what, i, j, l[i][j]));
        }
        check(l[i][i] > 0.0, || "cholesky: diagonal not positive".into(), || format!("order {} {}: L[{}][{}] = {}", N, what, i, i, l[i][i]));
    }
    let mut worst = 0.0f64;
    for i in 0..N {
        for j in 0..N {
            let s: f64 = (0..N).map(|k| l[i][k] * l[j][k]).sum();
            worst = worst.max((s - a[i][j]).abs() / scale);
        }
    }
    check(worst <= 40.0 * nn * eps, || "cholesky: L L^T is not the matrix".into(), || format!("order {} {}: relative error {:e}; A = {:?}, L = {:?}", N, what, worst, a, l));

    let x = match sut("inverse_lt", || door::inverse_lt(l)) {
        Ok(x) => x,
        Err(c) => return bad("inverse_lt", c),
    };
    check(finite(&x), || "inverse_lt: not finite".into(), || format!("order {} {}: {:?}", N, what, x));
    let kappa = (frob(&l) * frob(&x)).max(1.0);
    for i in 0..N {
        for j in 0..N {
            let s: f64 = (0..N).map(|k| l[i][k] * x[k][j]).sum();
            let t: f64 = (0..N).map(|k| x[i][k] * l[k][j]).sum();
            let e = if i == j { 1.0 } else { 0.0 };
            let tol = 200.0 * nn * eps * kappa;
            check((s - e).abs() <= tol && (t - e).abs() <= tol, || "inverse_lt: not the inverse".into(), || format!("order {} {}: entry [{}][{}] of L X is {}, of X L {}; L = {:?}, X = {:?}", N, what, i, j, s, t, l, x));
        }
    }
    for i in 0..N {
        for j in i + 1..N {
            check(x[i][j] == 0.0, || "inverse_lt: nonzero above the diagonal".into(), || format!("order {} {}", N, what));
        }
    }

    let g = match sut("mm_square", || door::mm_square(&x)) {
        Ok(g) => g,
        Err(c) => return bad("mm_square", c),
    };
    // the Gram matrix of the columns of X, i.e. X^T X, which is the inverse of A
    let want = mat::<N>(|i, j| (0..N).map(|k| x[k][i] * x[k][j]).sum());
    let gs = frob(&x) * frob(&x);
    for i in 0..N {
        for j in 0..N {
            check((g[i][j] - want[i][j]).abs() <= 40.0 * nn * eps * gs, || "mm_square: not the Gram matrix".into(), || format!("order {} {}: [{}][{}] is {} instead of {}", N, what, i, j, g[i][j], want[i][j]));
            check((g[i][j] - g[j][i]).abs() <= 40.0 * nn * eps * gs, || "mm_square: not symmetric".into(), || format!("order {} {}", N, what));
        }
    }
    let ka = frob(&a) * frob(&g);
    for i in 0..N {
        for j in 0..N {
            let s: f64 = (0..N).map(|k| a[i][k] * g[k][j]).sum();
            let e = if i == j { 1.0 } else { 0.0 };
            check((s - e).abs() <= 400.0 * nn * nn * eps * ka.max(1.0), || "mm_square: not the precision matrix".into(), || format!("order {} {}: A P [{}][{}] = {} (condition {:e})", N, what, i, j, s, ka));
        }
    }
    // squaring an arbitrary lower triangular matrix
    let mut r = Xo::new(bulk_seed());
    let b = mat::<N>(|i, j| if j <= i { gauss_at(&mut Xo::new(r_seed(i, j, what.len()))) } else { 0.0 });
    match sut("mm_square", || door::mm_square(&b)) {
        Ok(g) => {
            for i in 0..N {
                for j in 0..N {
                    let w: f64 = (0..N).map(|k| b[k][i] * b[k][j]).sum();
                    check((g[i][j] - w).abs() <= 40.0 * nn * eps * (frob(&b) * frob(&b)).max(1e-30), || "mm_square: not the Gram matrix".into(), || format!("order {}: [{}][{}] is {} instead of {}", N, i, j, g[i][j], w));
                }
            }
        },
        Err(c) => bad("mm_square", c),
    }

    let z: [f64; N] = std::array::from_fn(|_| gauss(&mut r) * [1.0, 0.0, 1e6, -1e-6][(r.below(8) as usize).min(3)]);
    match sut("mv_mult", || door::mv_mult(&l, z)) {
        Ok(v) => {
            for i in 0..N {
                let w: f64 = (0..=i).map(|k| l[i][k] * z[k]).sum();
                let m: f64 = (0..=i).map(|k| (l[i][k] * z[k]).abs()).sum();
                check((v[i] - w).abs() <= 40.0 * nn * eps * m, || "mv_mult: not L z".into(), || format!("order {} {}: entry {} is {} instead of {}; z = {:?}, L = {:?}", N, what, i, v[i], w, z, l));
            }
        },
        Err(c) => bad("mv_mult", c),
    }
    // the inputs of by-reference helpers stay as they were
    note(l.iter().flatten().fold(0, |h, v| mix(h, v.to_bits())));
}

fn r_seed(i: usize, j: usize, s: usize) -> u64 { (i * 131 + j * 17 + s) as u64 }
fn gauss_at(x: &mut Xo) -> f64 { gauss(x) }

pub fn any_order() {
    match choose(12) {
        0 => one::<1>(),
        1 => one::<2>(),
        2 => one::<3>(),
        3 => one::<4>(),
        4 => one::<5>(),
        5 => one::<6>(),
        6 => one::<7>(),
        7 => one::<8>(),
        8 => one::<0>(),
        9 => one::<3>(),
        10 => one::<12>(),
        _ => one::<17>(),
    }
}

pub fn c16_single() {
    let b = any_backend();
    let n = 1 + choose(6);
    for _ in 0..n {
        any_order();
    }
    sample(format!("{} matrices on backend {}", n, name(b)));
}

pub fn c16_clients() {
    let b = any_backend();
    let k = 2 + choose(3);
    let scale = any_scale();
    let mut cl: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..k {
        let n = 1 + choose(3);
        cl.push(Box::new(move || {
            for _ in 0..n {
                any_order();
            }
        }));
    }
    run_clients(scale, cl);
    sample(format!("{} clients, gap scale {}, backend {}", k, scale, name(b)));
}
