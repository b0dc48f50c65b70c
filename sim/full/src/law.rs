//! Histories of draws against the declared law and statistics of the same object.
use crate::stat::*;
use crate::zoo::{self, any, drawn, drawn1, Ans, Arg, Obj, Reg, DOORS};
use simcore::rng::SimRng;
use simcore::sched::{any_scale, run_clients};
use simcore::*;
use std::sync::{Arc, Mutex};

pub fn describe(o: &Obj) -> String { o.name.clone() }

/// A history of n draws of `o` with a fair generator, through mixed doors and copies, with
/// queries, crashed draws and other clients in between.
pub fn history(o: &Arc<Obj>, n: usize) -> Vec<f64> {
    let mut out = Vec::with_capacity(n * o.dim);
    let segments = if chance(1, 4) { 1 } else { 1 + choose(8) };
    let mut rng = SimRng::fair(bulk_seed());
    let mut copy = o.clone();
    for s in 0..segments {
        let left = n - out.len() / o.dim;
        let m = if s + 1 == segments { left } else { left / 2 };
        match choose(8) {
            0 => rng = SimRng::fair(bulk_seed()),
            1 => {
                // a draw whose generator fails part-way
                let mut bad = SimRng::fair(bulk_seed()).loud();
                bad.crash_at = Some(choose(6) as u64);
                let mut sink = vec![];
                let _ = copy.draw(choose(3), &mut bad, 1 + choose(4), &mut sink);
            },
            2 => {
                for q in &copy.queries {
                    if q.takes == zoo::Takes::Nothing {
                        let _ = copy.ask_q(q, &Arg::None);
                    }
                }
            },
            3 | 4 => match copy.again(chance(1, 2)) {
                Ok(c) => copy = Arc::new(c),
                Err(c) => violation(&format!("{}: cannot be copied", o.fam), format!("{}: {:?}", describe(o), c)),
            },
            _ => {},
        }
        let door = choose(3);
        let at = out.len();
        if choose(12) == 11 && m > 600 {
            // several clients draw from the shared object at once
            let k = 2 + choose(3);
            let each = (m / k).min(300);
            let bins: Arc<Mutex<Vec<Vec<f64>>>> = Arc::new(Mutex::new(vec![vec![]; k]));
            let mut clients: Vec<Box<dyn FnOnce() + Send>> = vec![];
            let fail = Arc::new(Mutex::new(None));
            for i in 0..k {
                let (c, bins, fail) = (copy.clone(), bins.clone(), fail.clone());
                let mut r = SimRng::fair(bulk_seed());
                r.yields = true;
                clients.push(Box::new(move || {
                    let mut mine = vec![];
                    if let Err(e) = c.draw(door, &mut r, each, &mut mine) {
                        *fail.lock().unwrap() = Some(e);
                    }
                    bins.lock().unwrap()[i] = mine;
                }));
            }
            run_clients(any_scale(), clients);
            fault("client-interleaving");
            if let Some(e) = fail.lock().unwrap().take() {
                violation(&format!("{}: draw panicked", o.fam), format!("{} {}: {:?}", describe(o), DOORS[door], e));
            }
            for b in bins.lock().unwrap().iter() {
                out.extend_from_slice(b);
            }
        }
        let m = m.saturating_sub((out.len() - at) / o.dim);
        if let Err(e) = copy.draw(door, &mut rng, m, &mut out) {
            violation(&format!("{}: draw panicked", o.fam), format!("{} {}: {:?}", describe(o), DOORS[door], e));
        }
    }
    count("draws", (out.len() / o.dim) as u64);
    state(hash_bytes(o.name.as_bytes()));
    note(out.iter().take(64).fold(out.len() as u64, |h, x| mix(h, x.to_bits())));
    out
}

/// Parameters at which statistics of draws are meaningful; sometimes from far away.
pub fn wide() -> Reg {
    if chance(1, 3) {
        zoo::FAR.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    Reg::Tame
}

/// How many draws a history has.
pub fn depth() -> usize { if chance(1, 16) { 600_000 } else { *pick(&[10_000, 20_000, 60_000, 60_000, 200_000]) } }
pub fn light_depth() -> usize { *pick(&[2_000, 10_000, 30_000]) }

/// Sorted, without NaN.
pub fn sorted(xs: &[f64], o: &Obj) -> Vec<f64> {
    let mut v = xs.to_vec();
    if v.iter().any(|x| x.is_nan()) {
        violation(&format!("{}: a draw is NaN", o.fam), describe(o));
        v.retain(|x| !x.is_nan());
    }
    v.sort_unstable_by(f64::total_cmp);
    v
}
pub fn upto(v: &[f64], x: f64) -> u64 { v.partition_point(|y| *y <= x) as u64 }
pub fn below(v: &[f64], x: f64) -> u64 { v.partition_point(|y| *y < x) as u64 }

/// Points at which laws are compared, independent of the history they are compared on.
pub fn pilot(o: &Obj, k: usize) -> Vec<f64> {
    let mut rng = SimRng::fair(bulk_seed());
    let mut v = vec![];
    if o.draw(0, &mut rng, 2000, &mut v).is_err() {
        return vec![];
    }
    v.retain(|x| x.is_finite());
    v.sort_unstable_by(f64::total_cmp);
    if v.is_empty() {
        return v;
    }
    let mut out: Vec<f64> = (0..k).map(|_| {
        let i = choose(v.len());
        if o.disc || chance(2, 3) { v[i] } else { 0.5 * (v[i] + v[(i + 1).min(v.len() - 1)]) }
    }).collect();
    if chance(1, 2) {
        out.push(v[0]);
        out.push(v[v.len() - 1]);
    }
    out.sort_unstable_by(f64::total_cmp);
    out.dedup();
    out
}

/// Points between which the density of `o` is smooth enough to integrate.
pub fn breaks(o: &Obj) -> Vec<f64> {
    let mut out: Vec<f64> = [o.bounds.0, o.bounds.1].into_iter().flatten().collect();
    if let Some(Ans::Val(m)) = o.ask("modes", Arg::None) {
        out.extend(m);
    }
    for (i, p) in o.parts.iter().enumerate() {
        if o.weights.get(i).map_or(true, |w| *w > 0.0) {
            out.extend(breaks(p));
            let mut v = vec![];
            let mut rng = SimRng::fair(0x5eed);
            if p.draw(0, &mut rng, 200, &mut v).is_ok() {
                v.sort_unstable_by(f64::total_cmp);
                out.extend([0, 10, 50, 100, 150, 190, 199].map(|i| v[i]));
                // and into its tails
                for k in [0.3, 1.0, 3.0, 9.0] {
                    out.push(v[199] + k * (v[199] - v[100]));
                    out.push(v[0] - k * (v[100] - v[0]));
                }
            }
        }
    }
    out.retain(|x| x.is_finite());
    out
}

/// A probability as answered, checked to be one.
pub fn prob(o: &Obj, name: &str, x: f64) -> Option<f64> {
    let p = o.num(name, Arg::X(&[x]))?;
    check((-1e-12..=1.0 + 1e-12).contains(&p), || format!("{}: {} is no probability", o.fam, name), || format!("{} {}({:?}) = {:?}", describe(o), name, x, p));
    Some(p)
}

fn logs(o: &Obj, x: f64) {
    let near = |a: f64, b: f64, t: f64| a == b || (a - b).abs() <= t;
    if let Some(p) = prob(o, "cdf", x) {
        if let Some(c) = prob(o, "ccdf", x) {
            check(near(c, 1.0 - p, 1e-9), || format!("{}: ccdf differs from 1-cdf", o.fam), || format!("{} at {:?}: cdf {:?} ccdf {:?}", describe(o), x, p, c));
            if let Some(l) = o.num("log_ccdf", Arg::X(&[x])) {
                // a sum of shares may exceed one by rounding
                let ok = (c <= 0.0 && l.is_nan()) || near(l.exp(), c, 1e-9) && (c < 1e-4 || near(l, c.ln(), 1e-6));
                check(ok, || format!("{}: log_ccdf differs from ccdf", o.fam), || format!("{} at {:?}: {:?} log {:?}", describe(o), x, c, l));
            }
        }
        if let Some(l) = o.num("log_cdf", Arg::X(&[x])) {
            let ok = (p <= 0.0 && l.is_nan()) || near(l.exp(), p, 1e-9) && (p < 1e-4 || near(l, p.ln(), 1e-6));
            check(ok, || format!("{}: log_cdf differs from cdf", o.fam), || format!("{} at {:?}: {:?} log {:?}", describe(o), x, p, l));
        }
    }
    let (f, lf) = if o.disc { ("pmf", "log_pmf") } else { ("pdf", "log_pdf") };
    if let Some(d) = o.num(f, Arg::X(&[x])) {
        check(d > 0.0, || format!("{}: {} not positive at a draw", o.fam, f), || format!("{} {}({:?}) = {:?}", describe(o), f, x, d));
        if o.disc {
            check(d <= 1.0 + 1e-12, || format!("{}: pmf above one", o.fam), || format!("{} {}({:?}) = {:?}", describe(o), f, x, d));
        }
        if let Some(l) = o.num(lf, Arg::X(&[x])) {
            if d > 1e-290 && d < 1e290 {
                let e = d.ln();
                check(near(l, e, 1e-8 * (1.0 + e.abs())), || format!("{}: {} differs from {}", o.fam, lf, f), || format!("{} at {:?}: {:?} log {:?}", describe(o), x, d, l));
            }
        }
    }
}

/// C04: one history against cdf, pmf or pdf of the same object.
pub fn c04_law() {
    let fam = any(drawn1);
    let o = Arc::new((fam.gen)(wide()));
    log!("{}", o.name);
    law_of(&o, depth(), 16);
}

/// No draw is ever beyond the ends of the support: the law has to say the same.
fn outside(o: &Obj) {
    let step = |b: f64| *pick(&[1e-3, 0.1, 1.0, 7.0, 1e3]) * if b == 0.0 || o.disc { 1.0 } else { b.abs() };
    let dens = if o.disc { "pmf" } else { "pdf" };
    for (end, side, share) in [(o.bounds.0, -1.0, 0.0), (o.bounds.1, 1.0, 1.0)] {
        let Some(b) = end else { continue };
        let mut x = b + side * step(b);
        if chance(1, 4) {
            x = b + side * *pick(&[1e6, 1e9]);
        }
        if o.disc {
            x = x.round();
        }
        if x == b || (x < 0.0 && o.unsigned) {
            continue;
        }
        if let Some(p) = prob(o, "cdf", x) {
            check((p - share).abs() <= 1e-12, || format!("{}: cdf beyond the support", o.fam), || format!("{} cdf({:?}) = {:?}", describe(o), x, p));
        }
        if let Some(d) = o.num(dens, Arg::X(&[x])) {
            check(d == 0.0, || format!("{}: {} beyond the support", o.fam, dens), || format!("{} {}({:?}) = {:?}", describe(o), dens, x, d));
        }
    }
}

/// A continuous law never gives the same value twice, to the resolution of its arithmetic.
pub fn repeats(o: &Obj, v: &[f64]) {
    // values far from the origin are coarser
    let coarse = v.len() > 8 && (v[v.len() * 3 / 4] - v[v.len() / 4]) < 1e-6 * v[0].abs().max(v[v.len() - 1].abs()).min(1e300);
    if o.disc || o.fam.starts_with("Degenerate") || (coarse && o.finite > 4.0) {
        return;
    }
    let edge = |x: f64| [o.bounds.0, o.bounds.1].into_iter().flatten().any(|b| (x - b).abs() <= 1e-9 * b.abs());
    let again: Vec<f64> = v.windows(2).filter(|w| w[0] == w[1] && w[0].is_finite() && !edge(w[0])).map(|w| w[0]).collect();
    check(again.len() <= 25, || format!("{}: draws repeat", o.fam), || format!("{}: {} of {} draws are values drawn before, such as {:?}", describe(o), again.len(), v.len(), &again[..4.min(again.len())]));
}

pub fn law_of(o: &Arc<Obj>, n: usize, k: usize) {
    let h = history(o, n);
    let n = h.len() as u64;
    let v = sorted(&h, o);
    repeats(o, &v);
    let mut xs = pilot(o, k);
    // and a point of the tails the draws of a pilot do not reach
    if o.query("quantile").is_some() {
        if let Some(Ans::Val(q)) = o.ask("quantile", Arg::P(*pick(&[1e-4, 1e-3, 0.999, 0.9999]))) {
            if q[0].is_finite() && o.contains(&q) && o.top.map_or(true, |t| q[0] <= t) {
                xs.push(q[0]);
                xs.sort_unstable_by(f64::total_cmp);
                xs.dedup();
            }
        }
    }
    // cdf at points, and its shape
    let mut last = 0.0;
    let mut cs = vec![];
    let has_cdf = xs.first().map_or(false, |x| prob(o, "cdf", *x).is_some());
    if has_cdf {
        for &x in &xs {
            let Some(p) = prob(o, "cdf", x) else { return };
            cs.push(p);
            let c = upto(&v, x);
            check(plausible(c, n, p, 1e-7), || format!("{}: cdf disagrees with draws", o.fam), || format!("{}: {} of {} draws are <= {:?}, cdf says {:?}", describe(o), c, n, x, p));
            check(p >= last - 1e-12, || format!("{}: cdf decreases", o.fam), || format!("{}: at {:?} {:?} after {:?}", describe(o), x, p, last));
            last = p;
        }
        // beyond all draws
        for _ in 0..2 {
            let i = choose(v.len());
            logs(o, v[i]);
        }
    } else {
        for _ in 0..2 {
            let i = choose(v.len());
            logs(o, v[i]);
        }
    }
    for x in [v[0], v[v.len() - 1]] {
        if x.is_finite() {
            logs(o, x);
        }
    }
    outside(o);
    if o.disc {
        if o.query("pmf").is_some() {
            let mut total = 0.0;
            xs.dedup();
            for (i, &x) in xs.iter().enumerate() {
                let Some(p) = o.num("pmf", Arg::X(&[x])) else { break };
                let c = upto(&v, x) - below(&v, x);
                check(plausible(c, n, p, 1e-9), || format!("{}: pmf disagrees with draws", o.fam), || format!("{}: {} of {} draws are {:?}, pmf says {:?}", describe(o), c, n, x, p));
                total += p;
                if has_cdf && x >= 1.0 && o.fam != "Categorical" && o.fam != "Bernoulli" {
                    if let Some(q) = prob(o, "cdf", x - 1.0) {
                        check((cs[i] - q - p).abs() <= 1e-7, || format!("{}: pmf is not the step of cdf", o.fam), || format!("{} at {:?}: cdf {:?} after {:?}, pmf {:?}", describe(o), x, cs[i], q, p));
                    }
                }
            }
            check(total <= 1.0 + 1e-9, || format!("{}: pmf adds up to more than one", o.fam), || format!("{} over {:?}: {:?}", describe(o), xs, total));
        }
    } else if o.query("pdf").is_some() && xs.len() >= 2 {
        let at = breaks(o);
        for _ in 0..4 {
            let (mut i, mut j) = (choose(xs.len()), choose(xs.len()));
            if i == j {
                continue;
            }
            if i > j {
                std::mem::swap(&mut i, &mut j);
            }
            let (a, b) = (xs[i], xs[j]);
            // too near an end for the arithmetic of a singular density
            if [o.bounds.0, o.bounds.1].into_iter().flatten().any(|e| e != 0.0 && ((a - e).abs() < 1e-11 * e.abs() || (b - e).abs() < 1e-11 * e.abs())) {
                continue;
            }
            let mut bad = false;
            let mut f = |x: f64| match o.ask("pdf", Arg::X(&[x])) {
                Some(Ans::Val(v)) => v[0],
                _ => {
                    bad = true;
                    f64::NAN
                },
            };
            let r = integrate_at(&mut f, a, b, 1e-7, &at);
            if bad {
                let _ = o.num("pdf", Arg::X(&[a]));
                break;
            }
            let Some(r) = r else {
                probe("integral-not-settled");
                continue;
            };
            let c = upto(&v, b) - upto(&v, a);
            check(plausible(c, n, r, 1e-5), || format!("{}: pdf disagrees with draws", o.fam), || format!("{}: {} of {} draws lie in ({:?}, {:?}], pdf integrates to {:?}", describe(o), c, n, a, b, r));
            if has_cdf {
                let d = cs[j] - cs[i];
                check((d - r).abs() <= 1e-5, || format!("{}: pdf disagrees with cdf", o.fam), || format!("{}: between {:?} and {:?} cdf grows by {:?}, pdf integrates to {:?}", describe(o), a, b, d, r));
            }
        }
    }
}

/// C04: successive draws do not depend on each other.
pub fn c04_pairs() {
    let fam = any(drawn);
    let o = Arc::new((fam.gen)(Reg::Tame));
    log!("{}", o.name);
    let mut rng = SimRng::fair(bulk_seed());
    let door = choose(3);
    let n = depth();
    let mut h = vec![];
    if o.draw(door, &mut rng, n, &mut h).is_err() {
        violation(&format!("{}: draw panicked", o.fam), describe(&o));
        return;
    }
    count("draws", n as u64);
    let (i, d) = (choose(o.dim), o.dim);
    let h: Vec<f64> = h.chunks(d).map(|x| x[i]).collect();
    let lag = 1 + choose(3);
    // any threshold will do
    let mut v = h[..h.len().min(501)].to_vec();
    v.sort_unstable_by(f64::total_cmp);
    let q = v[choose(v.len())];
    let low: Vec<bool> = h.iter().map(|x| *x <= q).collect();
    let p = low.iter().filter(|b| **b).count() as f64 / n as f64;
    // blocks of lag+1 draws: first and last of each
    let m = n / (lag + 1);
    let both = (0..m).filter(|i| low[i * (lag + 1)] && low[i * (lag + 1) + lag]).count() as u64;
    // p is estimated on the same draws: allow for its error
    let eps = 2.0 * p * 9.0 * (p * (1.0 - p) / n as f64).sqrt() + 1e-6;
    check(plausible(both, m as u64, p * p, eps), || format!("{}: successive draws are dependent", o.fam), || {
        format!("{}: {} of {} pairs at distance {} are both <= {:?}, single draws with frequency {:?}", describe(&o), both, m, lag, q, p)
    });
}

/// C05: statistics reported by an object against its draws.
pub fn c05_moments() {
    let fam = any(drawn1);
    let o = Arc::new((fam.gen)(wide()));
    log!("{}", o.name);
    moments_of(&o, depth());
}

fn declared(o: &Obj, name: &str, exists: bool) -> Option<f64> {
    match o.ask(name, Arg::None)? {
        Ans::Val(v) => Some(v[0]),
        Ans::Missing => None,
        Ans::Undefined => {
            if exists {
                violation(&format!("{}: {} reported as undefined", o.fam, name), describe(o));
            }
            None
        },
        Ans::Panic(c) => {
            if exists {
                violation(&format!("{}: {} panicked", o.fam, name), format!("{}: {:?}", describe(o), c));
            }
            None
        },
    }
}

pub fn moments_of(o: &Arc<Obj>, n: usize) {
    let h = history(o, n);
    let far = zoo::FAR.load(std::sync::atomic::Ordering::Relaxed);
    // extreme shapes leave higher moments to draws too rare to be seen
    let order = if far { o.order().min(2) } else { o.order() };
    let unseen = if far && o.disc { 40.0 / n as f64 } else { 0.0 };
    let dis = |name: &str| format!("{}: {} disagrees with draws", o.fam, name);
    let near = |a: f64, b: f64, t: f64| a == b || (a - b).abs() <= t * (1.0 + a.abs().max(b.abs()));
    // relations between reported values
    let sd = declared(o, "standard_deviation", o.finite > 2.0);
    let var = declared(o, "variance", o.finite > 2.0);
    if let (Some(s), Some(v)) = (sd, var) {
        if o.finite > 2.0 {
            check((s * s - v).abs() <= 1e-9 * v.abs() + 1e-300, || format!("{}: standard_deviation is not the root of variance", o.fam), || format!("{}: {:?} and {:?}", describe(o), s, v));
        }
    }
    // a point mass has no standardised moments
    let scaled = o.fam.find("Degenerate").is_none();
    let ku = declared(o, "kurtosis", scaled && o.finite > 4.0);
    let ex = declared(o, "excess_kurtosis", scaled && o.finite > 4.0);
    if let (Some(k), Some(e)) = (ku, ex) {
        if o.finite > 4.0 && !(k.is_nan() && e.is_nan()) {
            check(near(k, e + 3.0, 1e-9), || format!("{}: kurtosis is not excess_kurtosis + 3", o.fam), || format!("{}: kurtosis {:?}, excess {:?}", describe(o), k, e));
        }
    }
    let mean = declared(o, "mean", o.finite > 1.0);
    // other names for the same things
    if let (Some(p), Some(v)) = (declared(o, "precision", true), var) {
        check(near(p * v, 1.0, 1e-9), || format!("{}: precision is not the inverse of variance", o.fam), || format!("{}: {:?} and {:?}", describe(o), p, v));
        if let (Some(mu), Some(z)) = (mean, o.num("z", Arg::X(&h[..1]))) {
            check(near(mu + z * v.sqrt(), h[0], 1e-9), || format!("{}: z is not the standardised value", o.fam), || format!("{} z({:?}) = {:?}", describe(o), h[0], z));
        }
    }
    if let (Some(w), Some(m)) = (declared(o, "fwhm", true), o.num("median", Arg::None)) {
        if let (Some(a), Some(b), Some(c)) = (o.num("pdf", Arg::X(&[m - w / 2.0])), o.num("pdf", Arg::X(&[m])), o.num("pdf", Arg::X(&[m + w / 2.0]))) {
            let room = 1e-6 + 1e-12 * m.abs() / w;
            check((a / b - 0.5).abs() <= room && (c / b - 0.5).abs() <= room, || format!("{}: fwhm is not where the density is half its maximum", o.fam), || format!("{}: {:?}; {:?} {:?} {:?}", describe(o), w, a, b, c));
        }
    }
    if let (Some(k), Some(p)) = (declared(o, "span", true), o.num("pmf", Arg::X(&h[..1]))) {
        check(near(k * p, 1.0, 1e-9), || format!("{}: span is not the number of values", o.fam), || format!("{}: {:?}, each of mass {:?}", describe(o), k, p));
    }
    if order == 0 {
        return;
    }
    let m1 = mean_of(h.iter().copied());
    let spread = m1.se * m1.n.sqrt();
    if let Some(mean) = mean {
        check(m1.agrees(mean, 1e-9, 1e-9 * spread + unseen), || dis("mean"), || format!("{}: {:?}, {} draws average {:?} +- {:?}", describe(o), mean, n, m1.mean, m1.se));
    }
    if order < 2 {
        return;
    }
    let mu = mean.unwrap_or(m1.mean);
    let m2 = mean_of(h.iter().map(|x| (x - mu) * (x - mu)));
    if let Some(v) = var {
        check(m2.agrees(v, 1e-9, unseen), || dis("variance"), || format!("{}: {:?}, {} draws give {:?} +- {:?}", describe(o), v, n, m2.mean, m2.se));
    }
    if order < 3 || spread == 0.0 || var == Some(0.0) {
        return;
    }
    let s = var.unwrap_or(m2.mean).sqrt();
    if let Some(k) = declared(o, "skewness", true) {
        let m3 = mean_of(h.iter().map(|x| ((x - mu) / s).powi(3)));
        check(m3.agrees(k, 1e-4, 1e-9), || dis("skewness"), || format!("{}: {:?}, {} draws give {:?} +- {:?}", describe(o), k, n, m3.mean, m3.se));
    }
    if order < 4 {
        return;
    }
    let m4 = mean_of(h.iter().map(|x| ((x - mu) / s).powi(4)));
    if let Some(k) = ku {
        check(m4.agrees(k, 1e-4, 1e-9), || dis("kurtosis"), || format!("{}: {:?}, {} draws give {:?} +- {:?}", describe(o), k, n, m4.mean, m4.se));
    }
    if let Some(e) = ex {
        check(m4.agrees(e + 3.0, 1e-4, 1e-9), || dis("excess_kurtosis"), || format!("{}: {:?}, {} draws give {:?} +- {:?}", describe(o), e, n, m4.mean - 3.0, m4.se));
    }
}

pub fn c05_order() {
    let fam = any(drawn1);
    let o = Arc::new((fam.gen)(wide()));
    log!("{}", o.name);
    let n = depth();
    let h = history(&o, n);
    let v = sorted(&h, &o);
    let n = v.len() as u64;
    let splits = |name: &str, q: f64, p: f64| {
        let (lo, hi) = (below(&v, q), upto(&v, q));
        check(at_most(lo, n, p, 1e-9) && at_least(hi, n, p, 1e-9), || format!("{}: {} does not split the draws", o.fam, name), || {
            format!("{}: {} is {:?} for {:?}, but {} of {} draws are below and {} at or below it", describe(&o), name, q, p, lo, n, hi)
        });
    };
    let mut mono: Vec<(f64, f64)> = vec![];
    if o.query("quantile").is_some() {
        for _ in 0..6 {
            let p = match choose(4) {
                0 => *pick(&[0.5, 0.25, 0.75, 0.1, 0.9, 0.999]),
                _ => uniform(0.001, 0.999),
            };
            let Some(q) = o.num("quantile", Arg::P(p)) else { break };
            splits("quantile", q, p);
            mono.push((p, q));
            if let Some(c) = o.num("cquantile", Arg::P(p)) {
                splits("cquantile", c, 1.0 - p);
            }
        }
        mono.sort_by(|a, b| a.0.total_cmp(&b.0));
        for w in mono.windows(2) {
            check(w[0].1 <= w[1].1, || format!("{}: quantile decreases", o.fam), || format!("{}: {:?}", describe(&o), w));
        }
        if let Some(l) = o.num("lower_quartile", Arg::None) {
            splits("lower_quartile", l, 0.25);
            if let Some(u) = o.num("upper_quartile", Arg::None) {
                splits("upper_quartile", u, 0.75);
                let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (u.abs() + l.abs());
                let i = u - l;
                for (name, e) in [("iqr", i), ("lower_fence", l - 1.5 * i), ("upper_fence", u + 1.5 * i)] {
                    if let Some(x) = o.num(name, Arg::None) {
                        check(near(x, e), || format!("{}: {} differs from the quartiles", o.fam, name), || format!("{}: {:?}, quartiles {:?} {:?}", describe(&o), x, l, u));
                    }
                }
            }
        }
    }
    if o.query("median").is_some() {
        if let Some(m) = o.num("median", Arg::None) {
            splits("median", m, 0.5);
        }
    }
}

pub fn c05_modes() {
    let fam = any(drawn);
    let o = Arc::new((fam.gen)(wide()));
    log!("{}", o.name);
    if o.query("modes").is_none() {
        return;
    }
    let Some(ms) = o.vec("modes", Arg::None) else { return };
    let h = history(&o, light_depth());
    let f = if o.disc { "pmf" } else { "pdf" };
    if o.query(f).is_none() {
        return;
    }
    if ms.is_empty() && o.dim == 1 && o.parts.is_empty() {
        // a summit strictly between the ends of the history has to be reported
        let v = sorted(&h, &o);
        let at = |x: f64| o.num(f, Arg::X(&[x]));
        let (Some(a), Some(b)) = (at(v[0]), at(v[v.len() - 1])) else { return };
        let best = (1..40).filter_map(|i| at(v[v.len() * i / 40])).fold(0.0, f64::max);
        check(!(best > 2.0 * a && best > 2.0 * b), || format!("{}: no mode is reported", o.fam), || format!("{}: {} is {:?} inside, {:?} at {:?} and {:?} at {:?}", describe(&o), f, best, a, v[0], b, v[v.len() - 1]));
    }
    for m in ms.chunks(o.dim) {
        let Some(top) = o.num(f, Arg::X(m)) else { return };
        // the draws, and points around the reported mode
        let mut cand: Vec<Vec<f64>> = h.chunks(o.dim).map(|x| x.to_vec()).collect();
        if !o.disc {
            for k in [0.9, 0.99, 0.999, 1.001, 1.01, 1.1] {
                for i in 0..o.dim {
                    let mut x = m.to_vec();
                    x[i] *= k;
                    if o.fam != "Dirichlet" && o.contains(&x) {
                        cand.push(x);
                    }
                }
            }
        }
        for x in cand {
            let Some(d) = o.num(f, Arg::X(&x)) else { return };
            if !check(d <= top * (1.0 + 1e-9), || format!("{}: a reported mode is not one", o.fam), || format!("{}: {} is {:?} at the mode {:?} but {:?} at {:?}", describe(&o), f, top, m, d, x)) {
                return;
            }
        }
    }
}

const REPS: usize = 32;
const CELLS: u32 = 11;

/// Averages over draws whose words are stratified: far steadier than those of a plain history
/// where a draw depends mostly on its first few words. Judged by the spread between replications.
struct Steady {
    reps: Vec<Vec<f64>>,
    /// Jumps as a function of the words.
    disc: bool,
}

impl Steady {
    fn of(o: &Obj) -> Option<Steady> {
        let mut reps = vec![];
        for _ in 0..REPS {
            let mut rng = SimRng::stratified(bulk_seed(), CELLS, 3);
            let mut v = Vec::with_capacity(1 << CELLS);
            for _ in 0..1 << CELLS {
                rng.next_draw();
                if let Err(e) = o.draw(0, &mut rng, 1, &mut v) {
                    violation(&format!("{}: draw panicked", o.fam), format!("{}: {:?}", describe(o), e));
                    return None;
                }
            }
            if v.iter().any(|x| x.is_nan()) {
                return None;
            }
            reps.push(v);
        }
        count("draws", (REPS << CELLS) as u64);
        state(hash_bytes(o.name.as_bytes()));
        note(reps[0].iter().take(64).fold(0, |h, x| mix(h, x.to_bits())));
        Some(Steady { reps, disc: o.disc || !o.parts.is_empty() })
    }
    /// Mean, error and resolution of the average of g.
    fn average(&self, g: impl Fn(f64) -> f64) -> (f64, f64, f64) {
        let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
        let means: Vec<f64> = self
            .reps
            .iter()
            .map(|r| {
                let mut s = 0.0;
                for x in r {
                    let y = g(*x);
                    lo = lo.min(y);
                    hi = hi.max(y);
                    s += y;
                }
                s / r.len() as f64
            })
            .collect();
        let m = mean_of(means.iter().copied());
        (m.mean, m.se, (hi - lo) / (1u64 << CELLS) as f64)
    }
    fn agrees(&self, g: impl Fn(f64) -> f64, steps: bool, declared: f64, slack: f64) -> Result<(), String> {
        let (m, se, mut res) = self.average(g);
        // an average of a step function moves by whole cells
        if !steps && !self.disc {
            res = 0.0;
        }
        if (m - declared).abs() <= 13.0 * se + 1.5 * res + slack * declared.abs() {
            Ok(())
        } else {
            Err(format!("{} stratified draws give {:?} +- {:?} (resolution {:?})", REPS << CELLS, m, se, res))
        }
    }
    /// Is a share of at most `p` below q and at least `p` at or below it?
    fn splits(&self, q: f64, p: f64) -> Result<(), String> {
        let (b, sb, rb) = self.average(|x| (x < q) as u8 as f64);
        let (u, su, ru) = self.average(|x| (x <= q) as u8 as f64);
        // a share of exactly none or all has no resolution of its own
        let (rb, ru) = (rb.max(0.5f64.powi(CELLS as i32)), ru.max(0.5f64.powi(CELLS as i32)));
        if b <= p + 13.0 * sb + 1.5 * rb && u >= p - 13.0 * su - 1.5 * ru {
            Ok(())
        } else {
            Err(format!("of {} stratified draws a share of {:?} +- {:?} is below and {:?} +- {:?} at or below", REPS << CELLS, b, sb, u, su))
        }
    }
}

/// C04: the cumulative law at many points, sharply.
pub fn c04_sharp() {
    let fam = any(drawn1);
    let o = (fam.gen)(wide());
    log!("{}", o.name);
    let at = pilot(&o, 24);
    let Some(s) = Steady::of(&o) else { return };
    let cell = 0.5f64.powi(CELLS as i32);
    if !o.disc && o.query("cdf").is_some() {
        // everything lies between the ends of the line
        for (x, e) in [(f64::NEG_INFINITY, 0.0), (f64::INFINITY, 1.0)] {
            if let Some(p) = o.num("cdf", Arg::X(&[x])) {
                check((p - e).abs() <= 1e-9, || format!("{}: cdf is wrong at an infinity", o.fam), || format!("{} cdf({:?}) = {:?}", describe(&o), x, p));
            }
        }
    }
    for x in at {
        if let Some(p) = prob(&o, "cdf", x) {
            let r = s.agrees(|y| (y <= x) as u8 as f64, true, p, 0.0).or_else(|e| if p <= cell || p >= 1.0 - cell { Ok(()) } else { Err(e) });
            check(r.is_ok(), || format!("{}: cdf disagrees with draws", o.fam), || format!("{} cdf({:?}) = {:?}; {}", describe(&o), x, p, r.clone().unwrap_err()));
        }
        if o.disc {
            if let Some(p) = o.num("pmf", Arg::X(&[x])) {
                let r = s.agrees(|y| (y == x) as u8 as f64, true, p, 0.0).or_else(|e| if p <= cell { Ok(()) } else { Err(e) });
                check(r.is_ok(), || format!("{}: pmf disagrees with draws", o.fam), || format!("{} pmf({:?}) = {:?}; {}", describe(&o), x, p, r.clone().unwrap_err()));
            }
        }
    }
}

/// Where the cumulative law is known, order statistics are known to its precision.
fn at_cdf(o: &Obj, name: &str, q: f64, p: f64) {
    let c = |x: f64| if o.query("cdf").is_some() { o.num("cdf", Arg::X(&[x])) } else { None };
    let ok = if o.disc {
        if q < 0.0 && o.unsigned {
            return;
        }
        let Some(u) = c(q) else { return };
        let b = if q >= 1.0 || !o.unsigned { c(q - 1.0).unwrap_or(0.0) } else { 0.0 };
        u >= p - 1e-6 && b <= p + 1e-6
    } else {
        let Some(u) = c(q) else { return };
        // next to one another there may be no better number
        let (lo, hi) = (c(q - 4.0 * f64::EPSILON * q.abs() - 1e-300).unwrap_or(u), c(q + 4.0 * f64::EPSILON * q.abs() + 1e-300).unwrap_or(u));
        lo <= p + 1e-6 && hi >= p - 1e-6
    };
    check(ok, || format!("{}: {} is not where cdf has it", o.fam, name), || format!("{}: {:?} for {:?}, cdf there {:?}", describe(o), q, p, c(q)));
}

/// C05: moments, medians and quantiles, sharply.
pub fn c05_sharp() {
    let fam = any(drawn1);
    let o = (fam.gen)(wide());
    log!("{}", o.name);
    let Some(s) = Steady::of(&o) else { return };
    let far = zoo::FAR.load(std::sync::atomic::Ordering::Relaxed);
    let order = if far { o.order().min(2) } else { o.order() };
    let dis = |name: &str| format!("{}: {} disagrees with draws", o.fam, name);
    let tell = |name: &str, v: f64, e: &str| format!("{}: {} {:?}; {}", describe(&o), name, v, e);
    for (name, p) in [("median", 0.5), ("lower_quartile", 0.25), ("upper_quartile", 0.75)] {
        if o.query(name).is_some() {
            if let Some(q) = o.num(name, Arg::None) {
                let r = s.splits(q, p);
                at_cdf(&o, name, q, p);
                check(r.is_ok(), || format!("{}: {} does not split the draws", o.fam, name), || tell(name, q, r.as_ref().unwrap_err()));
            }
        }
    }
    if o.query("quantile").is_some() {
        for _ in 0..6 {
            let p = uniform(0.003, 0.997);
            let Some(q) = o.num("quantile", Arg::P(p)) else { break };
            let r = s.splits(q, p);
            at_cdf(&o, "quantile", q, p);
            check(r.is_ok(), || format!("{}: quantile does not split the draws", o.fam), || tell(&format!("quantile({:?})", p), q, r.as_ref().unwrap_err()));
        }
    }
    if far && o.disc || order == 0 {
        return;
    }
    let scaled = !o.fam.starts_with("Degenerate");
    let Some(mu) = declared(&o, "mean", o.finite > 1.0) else { return };
    let r = s.agrees(|x| x, false, mu, 1e-9);
    check(r.is_ok(), || dis("mean"), || tell("mean", mu, r.as_ref().unwrap_err()));
    if order < 2 || r.is_err() {
        return;
    }
    let Some(var) = declared(&o, "variance", o.finite > 2.0) else { return };
    let r = s.agrees(|x| (x - mu) * (x - mu), false, var, 1e-9);
    check(r.is_ok(), || dis("variance"), || tell("variance", var, r.as_ref().unwrap_err()));
    if order < 3 || var <= 0.0 || !scaled || r.is_err() {
        return;
    }
    let sd = var.sqrt();
    if let Some(k) = declared(&o, "skewness", true) {
        let r = s.agrees(|x| ((x - mu) / sd).powi(3), false, k, 1e-6);
        check(r.is_ok(), || dis("skewness"), || tell("skewness", k, r.as_ref().unwrap_err()));
    }
    if order < 4 {
        return;
    }
    for (name, add) in [("kurtosis", 0.0), ("excess_kurtosis", 3.0)] {
        if let Some(k) = declared(&o, name, scaled && o.finite > 4.0) {
            let r = s.agrees(|x| ((x - mu) / sd).powi(4), false, k + add, 1e-6);
            check(r.is_ok(), || dis(name), || tell(name, k, r.as_ref().unwrap_err()));
        }
    }
}

// --- the law that the draws follow, in closed form ------------------------------------------

/// The declared law as measure: integrals over powers of (x - m) / s.
struct Measure {
    m: f64,
    s: f64,
    sums: Vec<f64>,
}

/// Integrate the declared density over everything, in pieces taken from a history.
fn measure(o: &Obj, v: &[f64], order: usize) -> Option<Measure> {
    let n = v.len();
    let m = v[n / 2];
    if o.disc {
        if o.query("pmf").is_none() {
            return None;
        }
        let sd = mean_of(v.iter().copied());
        let sd = sd.se * sd.n.sqrt();
        let s = sd.max(1.0);
        let lo = if o.unsigned || o.top.is_some() { 0.0 } else { o.bounds.0? };
        let hi = o.top.or(o.bounds.1);
        let span = (60.0 * sd + 60.0).ceil();
        let (a, b) = ((m - span).max(lo), hi.map_or(m + span, |h| h.min(m + span)));
        if !(b - a <= 20_000.0) || !o.parts.is_empty() && (a > lo || hi.map_or(true, |h| b < h)) {
            return None;
        }
        let mut sums = vec![0.0; order + 1];
        let mut x = a;
        let mut last = 0.0;
        while x <= b {
            last = o.num("pmf", Arg::X(&[x]))?;
            let y = (x - m) / s;
            let mut t = last;
            for k in sums.iter_mut() {
                *k += t;
                t *= y;
            }
            x += 1.0;
        }
        // what is left out has to be nothing
        if hi.map_or(true, |h| b < h) && last * (span / s).powi(order as i32) * span > 1e-9 {
            return None;
        }
        return Some(Measure { m, s, sums });
    }
    o.query("pdf")?;
    let s = v[n * 3 / 4] - v[n / 4];
    if !(s > 1e-12 * m.abs() && s > 0.0 && s.is_finite()) {
        return None;
    }
    let fail = std::cell::Cell::new(false);
    let f = |x: f64| -> f64 {
        match o.num("pdf", Arg::X(&[x])) {
            Some(d) if d.is_finite() => d,
            _ => {
                fail.set(true);
                0.0
            },
        }
    };
    let mut at = breaks(o);
    at.extend([1, 2, 5, 10, 20, 30, 40].map(|i| v[n * i / 41]));
    let (lo, hi) = (v[0], v[n - 1]);
    if !(hi > lo) {
        return None;
    }
    let mut sums = vec![];
    for k in 0..=order as i32 {
        let size = v.iter().map(|x| ((x - m) / s).powi(k).abs()).sum::<f64>() / n as f64;
        let tol = 2e-9 * (1.0 + size);
        let g = |x: f64| {
            let d = f(x);
            if d == 0.0 { 0.0 } else { d * ((x - m) / s).powi(k) }
        };
        let mut total = integrate_at(&mut |x| g(x), lo, hi, tol, &at)?;
        // towards either end
        for (end, from, side) in [(o.bounds.0, lo, -1.0), (o.bounds.1, hi, 1.0)] {
            let near = (from - v[if side < 0.0 { n / 10 } else { n - 1 - n / 10 }]).abs().max(1e-9 * s);
            let mut cuts: Vec<f64> = (-3..9).flat_map(|k| [from + side * near * 10f64.powi(k), from + side * s * 10f64.powi(k)]).collect();
            cuts.extend(&at);
            cuts.retain(|x| (x - from) * side > 0.0);
            total += match end.filter(|e| e.is_finite()) {
                Some(e) => {
                    let w = (e - from).abs();
                    if !(w > 0.0) {
                        continue;
                    }
                    cuts.retain(|x| (e - x) * side > 0.0);
                    let cuts: Vec<f64> = cuts.iter().map(|x| ((e - x).abs() / w).powf(1.0 / 6.0)).collect();
                    integrate_at(&mut |t| g(e - side * w * t.powi(6)) * 6.0 * t.powi(5) * w, 0.0, 1.0, tol, &cuts)?
                },
                None => {
                    let cuts: Vec<f64> = cuts.iter().map(|x| ((x - from).abs() / s + 1.0).powf(-0.25)).collect();
                    integrate_at(&mut |u| {
                        let x = from + side * s * (u.powi(-4) - 1.0);
                        if x.is_finite() { g(x) * 4.0 * u.powi(-5) * s } else { 0.0 }
                    }, 0.0, 1.0, tol, &cuts)?
                },
            };
        }
        if !total.is_finite() {
            return None;
        }
        sums.push(total);
    }
    if fail.get() {
        probe("density-not-finite");
        return None;
    }
    Some(Measure { m, s, sums })
}

/// C05: the moments of the law which the draws follow.
pub fn c05_law() {
    let fam = any(drawn1);
    let o = Arc::new((fam.gen)(wide()));
    log!("{}", o.name);
    if o.fam.starts_with("Degenerate") {
        return;
    }
    let h = history(&o, 3000);
    let v = sorted(&h, &o);
    if v.is_empty() || v.iter().any(|x| x.is_infinite()) {
        return;
    }
    state(hash_bytes(o.name.as_bytes()));
    let order = (0..=4).rev().find(|k| *k == 0 || o.finite > *k as f64 + 0.3).unwrap();
    let Some(l) = measure(&o, &v, order) else {
        probe("law-not-settled");
        return;
    };
    let (s, m) = (l.s, l.m);
    probe("law-settled");
    note(l.sums.iter().fold(0, |h, x| mix(h, (x * 1e6).round() as i64 as u64)));
    let is = |name: &str, e: f64, t: f64| {
        if let Some(d) = declared(&o, name, true) {
            check((d - e).abs() <= t, || format!("{}: {} is not that of its law", o.fam, name), || format!("{}: {:?}, by the law {:?} +- {:?}", describe(&o), d, e, t));
        }
    };
    let dens = if o.disc { "pmf" } else { "pdf" };
    if !check((l.sums[0] - 1.0).abs() <= 1e-6, || format!("{}: {} does not sum to one", o.fam, dens), || format!("{}: {:?}", describe(&o), l.sums[0])) || order < 1 {
        return;
    }
    let m1 = l.sums[1];
    is("mean", m + s * m1, 1e-6 * s * (1.0 + m1.abs()) + 1e-12 * m.abs());
    if order < 2 {
        return;
    }
    let m2 = l.sums[2];
    let var = m2 - m1 * m1;
    is("variance", s * s * var, 1e-6 * s * s * (1.0 + m2));
    is("standard_deviation", s * var.sqrt(), 1e-6 * s * (1.0 + m2) / var.sqrt().min(1.0));
    if order < 3 || !(var > 1e-3 * m2) {
        return;
    }
    let sd = var.sqrt();
    let c3 = l.sums[3] - 3.0 * m1 * m2 + 2.0 * m1.powi(3);
    let big3 = 1.0 + l.sums[3].abs() + m1.abs() * m2 * 3.0;
    is("skewness", c3 / sd.powi(3), 1e-5 * big3 / sd.powi(3));
    if order < 4 {
        return;
    }
    let c4 = l.sums[4] - 4.0 * m1 * l.sums[3] + 6.0 * m1 * m1 * m2 - 3.0 * m1.powi(4);
    let big4 = 1.0 + l.sums[4] + 6.0 * m1 * m1 * m2;
    is("kurtosis", c4 / sd.powi(4), 1e-5 * big4 / sd.powi(4));
    is("excess_kurtosis", c4 / sd.powi(4) - 3.0, 1e-5 * big4 / sd.powi(4));
}

/// C04: density and cumulative law are one law.
pub fn c04_one() {
    let fam = any(drawn1);
    let o = Arc::new((fam.gen)(wide()));
    log!("{}", o.name);
    if o.fam.starts_with("Degenerate") || o.query("cdf").is_none() {
        return;
    }
    let h = history(&o, 3000);
    let mut v = sorted(&h, &o);
    v.retain(|x| x.is_finite());
    if v.len() < 100 || !(v[v.len() - 1] > v[0]) {
        return;
    }
    state(hash_bytes(o.name.as_bytes()));
    let at = breaks(&o);
    for _ in 0..8 {
        let (i, j) = (choose(v.len()), choose(v.len()));
        let (a, b) = (v[i.min(j)], v[i.max(j)]);
        if !(b > a) {
            continue;
        }
        let (Some(ca), Some(cb)) = (prob(&o, "cdf", a), prob(&o, "cdf", b)) else { return };
        let mass = if o.disc {
            if b - a > 3000.0 || o.query("pmf").is_none() {
                continue;
            }
            let mut t = 0.0;
            let mut x = a + 1.0;
            while x <= b {
                let Some(p) = o.num("pmf", Arg::X(&[x])) else { return };
                t += p;
                x += 1.0;
            }
            t
        } else {
            let mut fail = false;
            let mut all = at.clone();
            all.extend((1..8).map(|k| v[i.min(j) + (i.max(j) - i.min(j)) * k / 8]));
            let t = integrate_at(&mut |x| o.num("pdf", Arg::X(&[x])).filter(|d| d.is_finite()).unwrap_or_else(|| { fail = true; 0.0 }), a, b, 1e-9, &all);
            if fail {
                probe("density-not-finite");
                continue;
            }
            let Some(t) = t else {
                probe("density-not-settled");
                continue;
            };
            t
        };
        probe("mass-settled");
        note((mass * 1e6).round() as u64);
        // the law between neighbouring numbers is not resolved
        let grain: f64 = if o.disc { 0.0 } else { [a, b].iter().map(|x| 16.0 * f64::EPSILON * x.abs() * o.num("pdf", Arg::X(&[*x])).unwrap_or(f64::INFINITY)).sum() };
        check((cb - ca - mass).abs() <= 1e-6 + grain, || format!("{}: {} is not the density of cdf", o.fam, if o.disc { "pmf" } else { "pdf" }), || {
            format!("{} between {:?} and {:?}: cdf {:?} to {:?}, density adds up to {:?}", describe(&o), a, b, ca, cb, mass)
        });
    }
}
