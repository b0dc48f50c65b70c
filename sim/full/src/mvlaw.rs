//! C08: draws in several dimensions against reported mean, covariance, correlation and density.
use crate::law::*;
use crate::stat::*;
use crate::zoo::*;
use simcore::rng::SimRng;
use simcore::*;
use simblas::{any_backend, name as backend};
use std::sync::Arc;

fn close(a: f64, b: f64, t: f64) -> bool { a == b || (a - b).abs() <= t * a.abs().max(b.abs()) }

pub fn c08_moments() {
    let b = any_backend();
    let fam = any(drawn_mv);
    let o = Arc::new((fam.gen)(wide()));
    log!("{} over {}", o.name, backend(b));
    let d = o.dim;
    let (Some(mean), Some(var), Some(cov), Some(cor)) =
        (o.vec("mean", Arg::None), o.vec("variance", Arg::None), o.vec("covariance", Arg::None), o.vec("correlation", Arg::None))
    else {
        return;
    };
    let shape = mean.len() == d && var.len() == d && cov.len() == d * d && cor.len() == d * d;
    if !check(shape, || format!("{}: moments of the wrong dimension", o.fam), || format!("{}: {} {} {} {}", o.name, mean.len(), var.len(), cov.len(), cor.len())) {
        return;
    }
    if let Some(k) = o.num("dimensionality", Arg::None) {
        check(k == d as f64, || format!("{}: dimensionality is wrong", o.fam), || format!("{}: {:?}", o.name, k));
    }
    for i in 0..d {
        check(close(var[i], cov[i * d + i], 1e-9), || format!("{}: variance is not the diagonal of covariance", o.fam), || format!("{}: {:?} {:?}", o.name, var, cov));
        for j in 0..d {
            check(close(cov[i * d + j], cov[j * d + i], 1e-9), || format!("{}: covariance is not symmetric", o.fam), || format!("{}: {:?}", o.name, cov));
            let e = cov[i * d + j] / (var[i] * var[j]).sqrt();
            check((cor[i * d + j] - e).abs() <= 1e-9, || format!("{}: correlation is not the scaled covariance", o.fam), || format!("{}: {:?} of {:?}", o.name, cor, cov));
        }
    }
    let h = history(&o, depth().min(200_000));
    let n = h.len() / d;
    apart(&o, &h, &mean, &var);
    for i in 0..d {
        let m = mean_of(h.chunks(d).map(|x| x[i]));
        check(m.agrees(mean[i], 1e-9, 1e-9 * m.se * m.n.sqrt()), || format!("{}: mean disagrees with draws", o.fam), || {
            format!("{} over {}: coordinate {}: {:?}, {} draws average {:?} +- {:?}", o.name, backend(b), i, mean[i], n, m.mean, m.se)
        });
    }
    for i in 0..d {
        for j in 0..=i {
            let c = mean_of(h.chunks(d).map(|x| (x[i] - mean[i]) * (x[j] - mean[j])));
            let what = if i == j { "variance" } else { "covariance" };
            check(c.agrees(cov[i * d + j], 1e-9, 1e-9 * (var[i] * var[j]).sqrt()), || format!("{}: {} disagrees with draws", o.fam, what), || {
                format!("{} over {}: entry {} {}: {:?}, {} draws give {:?} +- {:?}", o.name, backend(b), i, j, cov[i * d + j], n, c.mean, c.se)
            });
        }
    }
}

/// One draw says nothing about another: no coordinate goes with any coordinate of a draw nearby.
fn apart(o: &Obj, h: &[f64], mean: &[f64], var: &[f64]) {
    let (d, n) = (o.dim, h.len() / o.dim);
    let (i, j, lag) = (choose(d), choose(d), choose_nz(3));
    if n < 1000 {
        return;
    }
    let c = mean_of((0..n - lag).map(|t| (h[t * d + i] - mean[i]) * (h[(t + lag) * d + j] - mean[j])));
    check(c.agrees(0.0, 0.0, 1e-9 * (var[i] * var[j]).sqrt()), || format!("{}: successive draws are dependent", o.fam), || {
        format!("{}: coordinate {} and, {} later, coordinate {}: {:?} +- {:?}", o.name, i, lag, j, c.mean, c.se)
    });
    if o.fam != "Dirichlet" {
        let mut v: Vec<f64> = h.chunks(d).map(|x| x[i]).collect();
        v.sort_unstable_by(f64::total_cmp);
        repeats(o, &v);
    }
}

/// Gauss-Legendre nodes and weights on [-1, 1].
fn gauss(n: usize) -> Vec<(f64, f64)> {
    (0..n).map(|i| {
        let mut x = (std::f64::consts::PI * (i as f64 + 0.75) / (n as f64 + 0.5)).cos();
        let mut dp = 1.0;
        for _ in 0..60 {
            let (mut p0, mut p1) = (1.0, x);
            for k in 2..=n {
                let p2 = ((2 * k - 1) as f64 * x * p1 - (k - 1) as f64 * p0) / k as f64;
                p0 = p1;
                p1 = p2;
            }
            dp = n as f64 * (x * p1 - p0) / (x * x - 1.0);
            let dx = p1 / dp;
            x -= dx;
            if dx.abs() < 1e-16 {
                break;
            }
        }
        (x, 2.0 / ((1.0 - x * x) * dp * dp))
    }).collect()
}

/// A factor of a positive definite matrix; None if it is not one.
fn factor(c: &[f64], k: usize) -> Option<Vec<f64>> {
    let mut l = vec![0.0; k * k];
    for i in 0..k {
        for j in 0..=i {
            let s: f64 = (0..j).map(|m| l[i * k + m] * l[j * k + m]).sum();
            if i == j {
                let v = c[i * k + i] - s;
                if !(v > 1e-12 * c[i * k + i].abs()) {
                    return None;
                }
                l[i * k + i] = v.sqrt();
            } else {
                l[i * k + j] = (c[i * k + j] - s) / l[j * k + j];
            }
        }
    }
    Some(l)
}

pub fn c08_density() {
    let b = any_backend();
    let fam = any(drawn_mv);
    let o = Arc::new((fam.gen)(wide()));
    log!("{} over {}", o.name, backend(b));
    let d = o.dim;
    // a point on the simplex has one coordinate less
    let simplex = o.fam == "Dirichlet";
    let k = if simplex { d - 1 } else { d };
    if k == 0 {
        return;
    }
    let h = history(&o, *pick(&[10_000usize, 20_000, 60_000]));
    let n = h.len() / d;
    // coordinates in which the draws are spread evenly
    let mu: Vec<f64> = (0..k).map(|i| h.chunks(d).map(|x| x[i]).sum::<f64>() / n as f64).collect();
    let mut c = vec![0.0; k * k];
    for x in h.chunks(d).take(4000) {
        for i in 0..k {
            for j in 0..k {
                c[i * k + j] += (x[i] - mu[i]) * (x[j] - mu[j]) / 4000.0f64.min(n as f64);
            }
        }
    }
    let Some(l) = factor(&c, k) else {
        probe("degenerate-history");
        return;
    };
    let det: f64 = (0..k).map(|i| l[i * k + i]).product();
    let full = |x: &[f64]| -> Vec<f64> {
        let mut v = x.to_vec();
        if simplex {
            v.push(1.0 - x.iter().sum::<f64>());
        }
        v
    };
    let pdf = |x: &[f64]| o.num("pdf", Arg::X(x));
    balance(&o, &h);
    if k > 5 {
        distance(&o, &h[..d]);
        return;
    }
    for _ in 0..3 {
        let at = choose(n);
        let centre = &h[at * d..at * d + k];
        let mut half: Vec<f64> = (0..k).map(|_| uniform(0.3, 0.9)).collect();
        let place = |z: &[f64], half: &[f64]| -> Vec<f64> {
            (0..k).map(|i| centre[i] + (0..=i).map(|j| l[i * k + j] * half[j] * z[j]).sum::<f64>()).collect()
        };
        // the box stays well inside the support
        let mut ok = false;
        for _ in 0..8 {
            ok = (0..1usize << k).all(|m| {
                let z: Vec<f64> = (0..k).map(|i| if m >> i & 1 == 1 { 1.25 } else { -1.25 }).collect();
                let x = full(&place(&z, &half));
                o.contains(&x) && (!simplex || x.iter().zip(full(centre)).all(|(x, c)| *x > 0.3 * c))
            });
            if ok {
                break;
            }
            half.iter_mut().for_each(|h| *h *= 0.5);
        }
        if !ok {
            probe("box-leaves-support");
            continue;
        }
        let vol: f64 = det * half.iter().product::<f64>();
        let orders = if k >= 4 { [5, 6] } else { [8, 10] };
        let mut sums = [0.0; 2];
        for (s, q) in sums.iter_mut().zip(orders) {
            let g = gauss(q);
            let mut idx = vec![0; k];
            'all: loop {
                let z: Vec<f64> = idx.iter().map(|i: &usize| g[*i].0).collect();
                let w: f64 = idx.iter().map(|i| g[*i].1).product();
                let Some(v) = pdf(&full(&place(&z, &half))) else { return };
                *s += w * v * vol;
                for i in 0..k {
                    idx[i] += 1;
                    if idx[i] < q {
                        continue 'all;
                    }
                    idx[i] = 0;
                }
                break;
            }
        }
        if !((sums[0] - sums[1]).abs() <= 1e-4 * sums[1].abs().max(1e-6)) && sums.iter().all(|s| s.is_finite()) {
            probe("integral-not-settled");
            continue;
        }
        // how many draws are inside: solve for the box coordinates
        let inside = h.chunks(d).enumerate().filter(|(i, x)| {
            if *i == at {
                return false;
            }
            let mut z = vec![0.0; k];
            for i in 0..k {
                let s: f64 = (0..i).map(|j| l[i * k + j] * z[j]).sum();
                z[i] = (x[i] - centre[i] - s) / l[i * k + i];
            }
            z.iter().zip(&half).all(|(z, h)| z.abs() <= *h)
        }).count() as u64;
        let p = sums[1];
        check(plausible(inside, n as u64 - 1, p, 1e-6 + 1e-4 * p), || format!("{}: pdf disagrees with draws", o.fam), || {
            format!("{} over {}: {} of {} draws in a box around {:?} to which pdf gives {:?}", o.name, backend(b), inside, n, centre, p)
        });
        let x = full(centre);
        if let (Some(p), Some(lp)) = (pdf(&x), o.num("log_pdf", Arg::X(&x))) {
            if p > 1e-290 {
                check((lp - p.ln()).abs() <= 1e-8 * (1.0 + lp.abs()), || format!("{}: log_pdf differs from pdf", o.fam), || format!("{} at {:?}: {:?} {:?}", o.name, x, p, lp));
            }
        }
        distance(&o, &x);
    }
}

/// The Mahalanobis distance is the one in the density.
fn distance(o: &Obj, x: &[f64]) {
    if o.query("d_mahalanobis").is_none() {
        return;
    }
    let (Some(m), Some(d), Some(q)) = (o.vec("mean", Arg::None), o.num("d_mahalanobis", Arg::X(x)), o.num("d_mahalanobis_squared", Arg::X(x))) else { return };
    check((d * d - q).abs() <= 1e-9 * q.abs() + 1e-300, || format!("{}: d_mahalanobis is not the root of its square", o.fam), || format!("{} at {:?}: {:?} {:?}", o.name, x, d, q));
    let (Some(a), Some(b)) = (o.num("log_pdf", Arg::X(x)), o.num("log_pdf", Arg::X(&m))) else { return };
    check((2.0 * (b - a) - q).abs() <= 1e-7 * (1.0 + q + a.abs() + b.abs()), || format!("{}: d_mahalanobis disagrees with the density", o.fam), || {
        format!("{} at {:?}: squared {:?}, density falls by exp(-{:?} / 2)", o.name, x, q, 2.0 * (b - a))
    });
}

extern "C" {
    fn lgamma(x: f64) -> f64;
}
fn ln_gamma(x: f64) -> f64 { unsafe { lgamma(x) } }

/// The whole density at once: q / pdf averages to one over draws, for any density q inside.
fn balance(o: &Obj, h: &[f64]) {
    let d = o.dim;
    let n = h.len() / d;
    let log = o.fam.starts_with("mv LogNormal");
    let ratio: Vec<f64>;
    let most: f64;
    if o.fam == "Dirichlet" {
        let (Some(mean), Some(var)) = (o.vec("mean", Arg::None), o.vec("variance", Arg::None)) else { return };
        let a0 = mean[0] * (1.0 - mean[0]) / var[0] - 1.0;
        let a: Vec<f64> = mean.iter().map(|m| m * a0).collect();
        if a.iter().any(|v| !(*v > 1e-3 && *v < 1e6)) {
            return;
        }
        let b: Vec<f64> = a.iter().map(|v| 1.3 * v).collect();
        let norm = |a: &[f64]| ln_gamma(a.iter().sum()) - a.iter().map(|v| ln_gamma(*v)).sum::<f64>();
        let c = norm(&b);
        most = (c - norm(&a)).exp();
        let r: Option<Vec<f64>> = h.chunks(d).map(|x| {
            let q = c + x.iter().zip(&b).map(|(x, b)| (b - 1.0) * x.ln()).sum::<f64>();
            let p = o.num("log_pdf", Arg::X(x))?;
            Some(if q == f64::NEG_INFINITY { 0.0 } else { (q - p).exp() })
        }).collect();
        let Some(r) = r else { return };
        ratio = r;
    } else {
        let y: Vec<f64> = if log { h.iter().map(|x| x.ln()).collect() } else { h.to_vec() };
        let m = 4000.min(n / 2);
        let mu: Vec<f64> = (0..d).map(|i| y.chunks(d).take(m).map(|x| x[i]).sum::<f64>() / m as f64).collect();
        let mut c = vec![0.0; d * d];
        for x in y.chunks(d).take(m) {
            for i in 0..d {
                for j in 0..d {
                    c[i * d + j] += 0.6 * (x[i] - mu[i]) * (x[j] - mu[j]) / m as f64;
                }
            }
        }
        let Some(l) = factor(&c, d) else { return };
        let norm = -(0..d).map(|i| l[i * d + i].ln()).sum::<f64>() - 0.5 * d as f64 * (2.0 * std::f64::consts::PI).ln();
        most = 0.5f64.powf(-0.5 * d as f64);
        let r: Option<Vec<f64>> = h.chunks(d).zip(y.chunks(d)).skip(m).map(|(x, y)| {
            let mut z = vec![0.0; d];
            for i in 0..d {
                let s: f64 = (0..i).map(|j| l[i * d + j] * z[j]).sum();
                z[i] = (y[i] - mu[i] - s) / l[i * d + i];
            }
            let jac: f64 = if log { y.iter().sum() } else { 0.0 };
            let q = norm - 0.5 * z.iter().map(|z| z * z).sum::<f64>() - jac;
            let p = o.num("log_pdf", Arg::X(x))?;
            Some((q - p).exp())
        }).collect();
        let Some(r) = r else { return };
        ratio = r;
    }
    if !(most < 0.01 * ratio.len() as f64) {
        probe("density-too-uneven");
        return;
    }
    let m = mean_of(ratio.iter().copied());
    check(m.agrees(1.0, 1e-6, 0.0), || format!("{}: the density does not balance against the draws", o.fam), || {
        format!("{}: a density inside its own averages to {:?} +- {:?} of it over {} draws", o.name, m.mean, m.se, ratio.len())
    });
}

/// Means and covariances over draws with stratified words.
pub fn c08_sharp() {
    let b = any_backend();
    let fam = any(drawn_mv);
    let o = (fam.gen)(wide());
    log!("{} over {}", o.name, backend(b));
    let d = o.dim;
    let (Some(mean), Some(cov)) = (o.vec("mean", Arg::None), o.vec("covariance", Arg::None)) else { return };
    if mean.len() != d || cov.len() != d * d {
        return;
    }
    const REPS: usize = 24;
    const CELLS: u32 = 10;
    let n = 1usize << CELLS;
    let mut reps = vec![];
    for _ in 0..REPS {
        let mut rng = SimRng::stratified(bulk_seed(), CELLS, d);
        let mut v = Vec::with_capacity(n * d);
        for _ in 0..n {
            rng.next_draw();
            if let Err(e) = o.draw(0, &mut rng, 1, &mut v) {
                return violation(&format!("{}: draw panicked", o.fam), format!("{}: {:?}", o.name, e));
            }
        }
        if v.iter().any(|x| x.is_nan()) {
            return;
        }
        reps.push(v);
    }
    count("draws", (REPS * n) as u64);
    state(hash_bytes(o.name.as_bytes()));
    note(reps[0].iter().take(64).fold(0, |h, x| mix(h, x.to_bits())));
    let over = |g: &dyn Fn(&[f64]) -> f64| -> Mean {
        let means: Vec<f64> = reps.iter().map(|r| r.chunks(d).map(g).sum::<f64>() / n as f64).collect();
        mean_of(means.iter().copied())
    };
    for i in 0..d {
        let m = over(&|x| x[i]);
        check((m.mean - mean[i]).abs() <= 13.0 * m.se + 1e-9 * (mean[i].abs() + cov[i * d + i].sqrt()), || format!("{}: mean disagrees with draws", o.fam), || {
            format!("{} over {}: coordinate {}: {:?}, stratified draws average {:?} +- {:?}", o.name, backend(b), i, mean[i], m.mean, m.se)
        });
    }
    for i in 0..d {
        for j in 0..=i {
            let c = over(&|x| (x[i] - mean[i]) * (x[j] - mean[j]));
            let s = (cov[i * d + i] * cov[j * d + j]).sqrt();
            let what = if i == j { "variance" } else { "covariance" };
            check((c.mean - cov[i * d + j]).abs() <= 13.0 * c.se + 1e-8 * s, || format!("{}: {} disagrees with draws", o.fam, what), || {
                format!("{} over {}: entry {} {}: {:?}, stratified draws give {:?} +- {:?}", o.name, backend(b), i, j, cov[i * d + j], c.mean, c.se)
            });
        }
    }
}
