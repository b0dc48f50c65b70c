//! C07: points of the simplex and weighted choices.
use crate::stat::*;
use crate::zoo::{dyadic_simplex, simplex, Reg};
use rstat::{Distribution, SimplexVector};
use simcore::rng::SimRng;
use simcore::sched::{any_scale, run_clients};
use simcore::*;
use std::sync::{Arc, Mutex};

macro_rules! any_k {
    ($f:ident) => {
        match choose(9) {
            0 => $f::<1>(),
            1 | 2 => $f::<2>(),
            3 => $f::<3>(),
            4 => $f::<4>(),
            5 => $f::<5>(),
            6 => $f::<6>(),
            7 => $f::<17>(),
            _ => $f::<70>(),
        }
    };
}

fn valid<const K: usize>(v: &[f64]) -> bool { v.len() == K && v.iter().all(|x| (0.0..=1.0).contains(x)) && (v.iter().sum::<f64>() - 1.0).abs() <= 1e-9 }

fn point<const K: usize>(rng: &mut SimRng) -> Option<[f64; K]> {
    match sut_quiet(|| SimplexVector::<K>::sample(rng)) {
        Ok(s) => Some(s.unwrap()),
        Err(Caught::Crash(_)) => None,
        Err(c) => {
            violation("SimplexVector::sample panicked", format!("K={}: {:?} after {:?}", K, c, rng.plan));
            None
        },
    }
}

/// Points under hostile generators and with other clients.
pub fn c07_points() { any_k!(points) }
fn points<const K: usize>() {
    log!("K={}", K);
    set_label("SimplexVector::sample");
    if chance(1, 5) {
        let all: Arc<Mutex<Vec<[f64; K]>>> = Arc::default();
        let mut work: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for _ in 0..2 + choose(3) {
            let all = all.clone();
            let mut rng = SimRng::faulty(3, 30, 40);
            rng.yields = true;
            rng.budget = rng.last_fault() + 100_000;
            work.push(Box::new(move || {
                for _ in 0..4 {
                    if let Some(p) = point::<K>(&mut rng) {
                        all.lock().unwrap().push(p);
                    }
                }
            }));
        }
        run_clients(any_scale(), work);
        fault("client-interleaving");
        for p in all.lock().unwrap().iter() {
            judge::<K>(p);
        }
        return;
    }
    let mut rng = SimRng::faulty(5, 8 * K.max(4), 3 * K);
    rng.budget = rng.last_fault() + 100_000;
    for _ in 0..12 {
        let Some(p) = point::<K>(&mut rng) else {
            if rng.pos >= rng.budget {
                violation("SimplexVector::sample: no progress", format!("K={}: {:?}", K, rng.plan));
            }
            return;
        };
        state(p.iter().fold(K as u64, |h, x| mix(h, x.to_bits())));
        if !judge::<K>(&p) {
            return;
        }
    }
}
fn judge<const K: usize>(p: &[f64; K]) -> bool {
    note(p.iter().fold(0, |h, x| mix(h, x.to_bits())));
    check(valid::<K>(p), || "SimplexVector::sample: not a point of the simplex".into(), || format!("K={}: {:?}", K, p))
        && check(SimplexVector::new(*p).is_ok(), || "SimplexVector::sample: a point its own constructor refuses".into(), || format!("K={}: {:?}", K, p))
}

/// Uniformity: tail boxes {x_i > c_i for all i} have probability (1 - sum c)^(K-1).
pub fn c07_uniform() { any_k!(uniform_points) }
fn uniform_points<const K: usize>() {
    log!("K={}", K);
    set_label("SimplexVector::sample");
    let n = *pick(&[4000usize, 20_000, 60_000]);
    let mut rng = SimRng::fair(bulk_seed());
    let mut ps: Vec<[f64; K]> = Vec::with_capacity(n);
    for _ in 0..n {
        if chance(1, 3000) {
            let mut r = SimRng::fair(bulk_seed());
            r.crash_at = Some(choose(K + 1) as u64);
            let _ = point::<K>(&mut r);
        }
        let Some(p) = point::<K>(&mut rng) else { return };
        ps.push(p);
    }
    count("draws", n as u64);
    state(bulk_seed());
    note(ps.iter().take(20).flatten().fold(n as u64, |h, x| mix(h, x.to_bits())));
    for _ in 0..12 {
        let mut c = [0.0; K];
        let total = unit();
        match choose(3) {
            0 => c[choose(K)] = total * if K > 2 { 0.6 } else { 1.0 },
            1 => {
                let (i, j) = (choose(K), choose(K));
                c[i] += 0.3 * total;
                c[j] += 0.2 * total;
            },
            _ => (0..K).for_each(|i| c[i] = total * unit() / K as f64),
        }
        let s: f64 = c.iter().sum();
        let p = if K == 1 { if s < 1.0 { 1.0 } else { continue } } else { (1.0 - s).max(0.0).powi(K as i32 - 1) };
        let k = ps.iter().filter(|x| x.iter().zip(&c).all(|(x, c)| x > c || (*c == 0.0))).count() as u64;
        check(plausible(k, n as u64, p, 1e-9), || "SimplexVector::sample: not uniform".into(), || format!("K={}: {} of {} points beyond {:?}, expected a share of {:?}", K, k, n, c, p));
    }
    // successive points are independent
    if K > 1 {
        let t = 1.0 - 0.5f64.powf(1.0 / (K as f64 - 1.0));
        let (i, j) = (choose(K), choose(K));
        let m = n as u64 / 2;
        let both = ps.chunks(2).filter(|w| w.len() == 2 && w[0][i] > t && w[1][j] > t).count() as u64;
        check(plausible(both, m, 0.25, 1e-9), || "SimplexVector::sample: successive points are dependent".into(), || format!("K={}: {} of {} pairs", K, both, m));
    }
}

/// Uniformity and weights over stratified generators.
pub fn c07_sharp() { any_k!(sharp) }
fn sharp<const K: usize>() {
    log!("K={}", K);
    const REPS: usize = 24;
    const CELLS: u32 = 10;
    let n = 1usize << CELLS;
    let mut rngs: Vec<SimRng> = (0..REPS).map(|_| SimRng::stratified(bulk_seed(), CELLS, K.min(8))).collect();
    count("draws", (REPS * n) as u64);
    state(bulk_seed());
    let off = |shares: &[f64], p: f64| {
        let m = mean_of(shares.iter().copied());
        let ok = (m.mean - p).abs() <= 13.0 * m.se + 1.5 / n as f64;
        if ok { None } else { Some(format!("a share of {:?} +- {:?} of {} stratified draws instead of {:?}", m.mean, m.se, REPS * n, p)) }
    };
    if chance(1, 2) {
        set_label("SimplexVector::sample");
        let mut reps: Vec<Vec<[f64; K]>> = vec![];
        for r in rngs.iter_mut() {
            let mut v = Vec::with_capacity(n);
            for _ in 0..n {
                r.next_draw();
                let Some(p) = point::<K>(r) else { return };
                v.push(p);
            }
            reps.push(v);
        }
        note(reps[0].iter().take(20).flatten().fold(n as u64, |h, x| mix(h, x.to_bits())));
        for _ in 0..12 {
            let i = choose(K);
            let p: f64 = if K == 1 { 1.0 } else { uniform(0.02, 0.98) };
            let c = if K == 1 { 0.5 } else { 1.0 - p.powf(1.0 / (K as f64 - 1.0)) };
            let shares: Vec<f64> = reps.iter().map(|v| v.iter().filter(|x| x[i] > c).count() as f64 / n as f64).collect();
            let e = off(&shares, p);
            check(e.is_none(), || "SimplexVector::sample: not uniform".into(), || format!("K={}: coordinate {} beyond {:?}: {}", K, i, c, e.clone().unwrap()));
        }
        return;
    }
    let w = weights::<K>();
    log!("weights {:?}", w);
    let Ok(Ok(s)) = sut("SimplexVector::new", || SimplexVector::new(w)) else { return };
    let mut hits = vec![[0u32; K]; REPS];
    for (r, h) in rngs.iter_mut().zip(&mut hits) {
        for _ in 0..n {
            r.next_draw();
            match sut_quiet(|| s.sample_index(r)) {
                Ok(i) if i < K => h[i] += 1,
                x => return violation("SimplexVector::sample_index: index without weight", format!("{:?} of {:?}", x, w)),
            }
        }
    }
    note(hits[0].iter().fold(0, |h, x| mix(h, *x as u64)));
    for i in 0..K {
        let shares: Vec<f64> = hits.iter().map(|h| h[i] as f64 / n as f64).collect();
        let e = off(&shares, w[i]);
        check(e.is_none(), || "SimplexVector::sample_index: not chosen by weight".into(), || format!("index {} of {:?}: {}", i, w, e.clone().unwrap()));
    }
}

/// Weights: exact points, points with zero entries, and points off by less than the tolerance.
fn weights<const K: usize>() -> [f64; K] {
    let mut w = match choose(4) {
        0 => dyadic_simplex::<K>(),
        1 => simplex::<K>(Reg::Tame),
        _ => simplex::<K>(Reg::Wild),
    };
    if chance(1, 4) {
        let d = *pick(&[1e-6, -1e-6, 5e-7, -3e-7]);
        if let Some(i) = (0..K).find(|i| w[*i] > 0.01 && w[*i] + d <= 1.0) {
            w[i] += d;
            probe("weights-off-by-tolerance");
        }
    }
    w
}

/// Choices by weight, fair and hostile.
pub fn c07_index() { any_k!(index) }
fn index<const K: usize>() {
    let w = weights::<K>();
    log!("weights {:?}", w);
    state(w.iter().fold(K as u64, |h, x| mix(h, x.to_bits())));
    let s = match sut("SimplexVector::new", || SimplexVector::new(w)) {
        Ok(Ok(s)) => Arc::new(s),
        Ok(Err(e)) => return violation("SimplexVector::new: refused a point of the simplex", format!("{:?}: {:?}", w, e)),
        Err(c) => return violation("SimplexVector::new panicked", format!("{:?}: {:?}", w, c)),
    };
    // one special word at a time, then bursts
    use simcore::rng::{any_word, WordFault};
    let good = |i: usize| check(i < K && w[i] > 0.0, || "SimplexVector::sample_index: index without weight".into(), || format!("{} of {:?}", i, w));
    for _ in 0..24 {
        let mut rng = SimRng::fair(bulk_seed());
        rng.plan.push(WordFault { at: choose(2) as u64, len: 1 + choose(3) as u64, word: any_word() });
        rng.budget = 100_000;
        match sut("SimplexVector::sample_index", || s.sample_index(&mut rng)) {
            Ok(i) => {
                note(i as u64);
                if !good(i) {
                    return;
                }
            },
            Err(c) => return violation("SimplexVector::sample_index panicked", format!("{:?}: {:?}", w, c)),
        }
    }
    let n = *pick(&[3000usize, 20_000, 60_000]);
    let mut hits = vec![0u64; K];
    let mut rng = SimRng::fair(bulk_seed());
    let mut seq = Vec::with_capacity(n);
    if chance(1, 6) {
        let all: Arc<Mutex<Vec<usize>>> = Arc::default();
        let mut work: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for _ in 0..3 {
            let (all, s) = (all.clone(), s.clone());
            let mut r = SimRng::fair(bulk_seed());
            r.yields = true;
            work.push(Box::new(move || {
                let v = sut_quiet(|| (0..200).map(|_| s.sample_index(&mut r)).collect::<Vec<_>>()).unwrap_or_default();
                all.lock().unwrap().extend(v);
            }));
        }
        run_clients(any_scale(), work);
        fault("client-interleaving");
        seq.extend(all.lock().unwrap().iter().copied());
    } else {
        for _ in 0..n {
            match sut_quiet(|| s.sample_index(&mut rng)) {
                Ok(i) => seq.push(i),
                Err(c) => return violation("SimplexVector::sample_index panicked", format!("{:?}: {:?}", w, c)),
            }
        }
    }
    for &i in &seq {
        if !good(i) {
            return;
        }
        hits[i] += 1;
    }
    let n = seq.len() as u64;
    count("draws", n);
    for i in 0..K {
        check(plausible(hits[i], n, w[i], 2e-6), || "SimplexVector::sample_index: not chosen by weight".into(), || format!("index {} chosen {} of {} times, weights {:?}", i, hits[i], n, w));
    }
    // neighbours in the sequence
    let (a, b) = (choose(K), choose(K));
    let m = n / 2;
    let both = seq.chunks(2).filter(|p| p.len() == 2 && p[0] == a && p[1] == b).count() as u64;
    check(plausible(both, m, w[a] * w[b], 4e-6), || "SimplexVector::sample_index: successive choices are dependent".into(), || format!("{} then {}: {} of {} pairs, weights {:?}", a, b, both, m, w));
    // the same weights serve Categorical
    if chance(1, 3) {
        let c = rstat::univariate::categorical::Categorical::new(w);
        match c {
            Ok(c) => {
                let mut r = SimRng::faulty(3, 60, 60);
                r.budget = 100_000;
                if let Ok(v) = sut("Categorical: draw", || c.sample_n(&mut r, 50)) {
                    for i in v {
                        check(i < K && w[i] > 0.0, || "Categorical: index without weight".into(), || format!("{} of {:?}", i, w));
                    }
                }
            },
            Err(e) => violation("Categorical: refused a point of the simplex", format!("{:?}: {:?}", w, e)),
        }
    }
}

/// What the constructor admits, after any history of refusals.
pub fn c07_admission() { any_k!(admission) }
fn admission<const K: usize>() {
    for _ in 0..20 {
        let mut w = weights::<K>();
        let mut must = Some(true);
        match choose(9) {
            0 => {
                w[choose(K)] = *pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, 2.0, -0.25, 1.5, 1e300]);
                must = Some(false);
            },
            1 if K > 1 => {
                // a negative entry made up for elsewhere
                let i = choose(K);
                let j = (i + 1 + choose(K - 1)) % K;
                let d = *pick(&[1e-3, 0.1, 1.0, 1e-6, 1e-9]);
                let s = w[i] + w[j];
                w[i] = -d;
                w[j] = s + d;
                must = Some(false);
            },
            2 => {
                let d = *pick(&[1e-4, -1e-4, 1e-3, -1e-3, 0.1, -0.1, 0.5]);
                let i = choose(K);
                w[i] += 1.02 * d;
                must = Some(false);
            },
            3 => {
                // around the tolerance
                let d = uniform(-5e-5, 5e-5);
                w[choose(K)] += d;
                must = None;
            },
            4 => {
                w = [0.0; K];
                must = Some(false);
            },
            5 if K > 1 => {
                w = [1.0; K];
                must = Some(false);
            },
            _ => {},
        }
        let v = w;
        let out = match sut("SimplexVector::new", || SimplexVector::new(v)) {
            Ok(r) => r,
            Err(c) => return violation("SimplexVector::new panicked", format!("{:?}: {:?}", w, c)),
        };
        note(out.is_ok() as u64);
        if let Some(m) = must {
            check(out.is_ok() == m, || if m { "SimplexVector::new: refused a point of the simplex".into() } else { "SimplexVector::new: admitted a point off the simplex".into() }, || format!("{:?}", w));
        }
        if let Ok(s) = out {
            let bits = |x: &[f64]| x.iter().map(|v| v.to_bits()).collect::<Vec<_>>();
            check(bits(&s[..]) == bits(&w), || "SimplexVector::new: changed the entries".into(), || format!("{:?} became {:?}", w, s));
            check(bits(&s.unwrap()) == bits(&w), || "SimplexVector::unwrap: changed the entries".into(), || format!("{:?}", w));
        } else {
            fault("refused-weights");
        }
    }
    let c = SimplexVector::<K>::centre();
    check(valid::<K>(&c[..]) && c.iter().all(|x| *x == c[0]), || "SimplexVector::centre: not the centre".into(), || format!("{:?}", c));
}
