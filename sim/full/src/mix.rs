//! C06: mixtures against their parts, convolutions against sums of draws.
use crate::law::*;
use crate::stat::*;
use crate::zoo::*;
use rstat::univariate as uv;
use rstat::{Convolution, Distribution, Mixture, Probability};
use simcore::rng::SimRng;
use simcore::sched::{any_scale, run_clients};
use simcore::*;
use std::sync::{Arc, Mutex};

fn is_mix(f: &Family) -> bool { f.name.starts_with("Mixture") }

fn rel(a: f64, b: f64, t: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= t * a.abs().max(b.abs()) }

/// Weighted sum of an answer of the parts; None if a part with weight does not give one.
fn of_parts(o: &Obj, f: impl Fn(&Obj) -> Option<f64>) -> Option<(f64, f64)> {
    let (mut s, mut m) = (0.0, 0.0f64);
    for (w, p) in o.weights.iter().zip(&o.parts) {
        if *w > 0.0 {
            let v = f(p).filter(|v| v.is_finite())?;
            s += w * v;
            m = m.max((w * v).abs());
        } else {
            // a part without weight that is infinite or unknown may spoil the sum
            f(p).filter(|v| v.is_finite())?;
        }
    }
    Some((s, m))
}

/// A mixture answers as the weighted sum of its parts, and draws from them.
pub fn c06_parts() {
    let fam = any(is_mix);
    let o = Arc::new((fam.gen)(if chance(1, 4) { Reg::Wild } else { Reg::Tame }));
    log!("{}", o.name);
    state(hash_bytes(o.name.as_bytes()));
    let mut xs = vec![];
    for p in &o.parts {
        let mut r = SimRng::faulty(2, 24, 12);
        r.budget = r.last_fault() + 400_000;
        let mut v = vec![];
        let _ = p.draw(choose(3), &mut r, 6, &mut v);
        for &x in &v {
            check(!p.contains(&[x]) || o.contains(&[x]), || format!("{}: support misses a component's draw", o.fam), || format!("{}: {:?} of {}", o.name, x, p.name));
        }
        xs.extend(v);
    }
    xs.retain(|x| x.is_finite());
    if let (Some(&a), Some(&b)) = (xs.iter().min_by(|a, b| a.total_cmp(b)), xs.iter().max_by(|a, b| a.total_cmp(b))) {
        if !o.disc {
            xs.push(0.5 * a + 0.5 * b);
        }
        xs.push(b + 1.0 + b.abs().floor());
        if a >= 0.0 || !o.disc {
            xs.push(a - if o.disc { a } else { 1.0 + a.abs() });
        }
    }
    for &x in &xs {
        if o.disc && x < 0.0 {
            continue;
        }
        for name in ["cdf", "pdf"] {
            let Some(v) = o.num(name, Arg::X(&[x])) else { continue };
            let Some((e, m)) = of_parts(&o, |p| p.num(name, Arg::X(&[x]))) else { continue };
            check((v - e).abs() <= 1e-9 * m + if name == "cdf" { 1e-12 } else { 0.0 } || v == e || (e.is_nan() && v.is_nan()), || format!("{}: {} is not the weighted sum of its components'", o.fam, name), || {
                format!("{} at {:?}: {:?}, components add up to {:?}", o.name, x, v, e)
            });
        }
    }
    if o.parts.iter().all(|p| p.finite > 2.0) {
        let mean = of_parts(&o, |p| p.num("mean", Arg::None));
        if let (Some(v), Some((e, m))) = (o.num("mean", Arg::None), mean) {
            check((v - e).abs() <= 1e-9 * m, || format!("{}: mean is not the weighted sum of its components'", o.fam), || format!("{}: {:?} against {:?}", o.name, v, e));
            if let Some((var, big)) = of_parts(&o, |p| {
                let (m, s) = (p.num("mean", Arg::None)?, p.num("variance", Arg::None)?);
                Some(s + (m - e) * (m - e))
            }) {
                if let Some(v) = o.num("variance", Arg::None) {
                    // room for cancellation against the squared mean
                    let room = 1e-9 * big + 1e-12 * of_parts(&o, |p| p.num("mean", Arg::None).map(|m| m * m)).map_or(0.0, |x| x.0);
                    check((v - var).abs() <= room, || format!("{}: variance is not that of the mixture", o.fam), || format!("{}: {:?} against {:?}", o.name, v, var));
                    if let Some(s) = o.num("standard_deviation", Arg::None) {
                        check(rel(s * s, v, 1e-9) || v <= 0.0, || format!("{}: standard_deviation is not the root of variance", o.fam), || format!("{}: {:?} against {:?}", o.name, s, v));
                    }
                }
            }
        }
    }
    // under a hostile generator, draws still come from parts with weight
    let mut rng = SimRng::faulty(4, 40, 60);
    rng.budget = rng.last_fault() + 400_000;
    let mut v = vec![];
    let _ = o.draw(choose(3), &mut rng, 40, &mut v);
    for &x in &v {
        let home = o.weights.iter().zip(&o.parts).any(|(w, p)| *w > 0.0 && (crate::draws::member(p, &[x]) || x.is_infinite()));
        check(home, || format!("{}: a draw belongs to no component with weight", o.fam), || format!("{}: {:?}", o.name, x));
    }
}

/// Components that can be told apart: chosen with the given weights, independently.
pub fn c06_choice() {
    match choose(5) {
        0 => choice::<1>(),
        1 => choice::<2>(),
        2 => choice::<3>(),
        3 => choice::<4>(),
        _ => choice::<9>(),
    }
}
fn choice<const N: usize>() {
    let w = if chance(1, 2) { dyadic_simplex::<N>() } else { simplex::<N>(Reg::Wild) };
    let mut places: Vec<usize> = (0..N).collect();
    shuffle(&mut places);
    let comps: [uv::uniform::Uniform<f64>; N] = std::array::from_fn(|i| uv::uniform::Uniform::<f64>::new_unchecked(4.0 * places[i] as f64 - 10.0, uniform(0.5, 3.0)));
    log!("weights {:?} of {:?}", w, comps);
    state(w.iter().fold(N as u64, |h, x| mix(h, x.to_bits())));
    let k = comps.clone();
    let m = match sut("Mixture::new", move || Mixture::<N, _>::new(w, k)) {
        Ok(Ok(m)) => Arc::new(m),
        Ok(Err(e)) => return violation("Mixture: refused valid weights", format!("{:?}: {:?}", w, e)),
        Err(c) => return violation("Mixture: construction panicked", format!("{:?}: {:?}", w, c)),
    };
    let which = |x: f64| (0..N).find(|&i| callback(|| spaces::Space::contains(&comps[i].support(), &x)));
    let n = *pick(&[3000usize, 20_000, 60_000]);
    let mut picks: Vec<usize> = vec![];
    let mut rng = SimRng::fair(bulk_seed());
    let faulty = chance(1, 3);
    if faulty {
        // hostile words hit some choices; they may not reach a component without weight
        rng.plan = SimRng::faulty(4, 60, 200).plan;
    }
    let clients = if chance(1, 6) { 3 } else { 1 };
    let got: Vec<Vec<f64>> = if clients == 1 {
        let mut v = vec![];
        let mut bad = None;
        for _ in 0..n {
            match sut_quiet(|| m.sample(&mut rng)) {
                Ok(x) => v.push(x),
                Err(c) => {
                    bad = Some(c);
                    break;
                },
            }
            if chance(1, 2000) {
                let mut r = SimRng::fair(bulk_seed());
                r.crash_at = Some(choose(3) as u64);
                let _ = sut_quiet(|| m.sample(&mut r));
            }
        }
        if let Some(c) = bad {
            return violation("Mixture<Uniform>: draw panicked", format!("{:?}: {:?}", m, c));
        }
        vec![v]
    } else {
        let bins: Arc<Mutex<Vec<Vec<f64>>>> = Arc::new(Mutex::new(vec![vec![]; clients]));
        let mut work: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for i in 0..clients {
            let (m, bins) = (m.clone(), bins.clone());
            let mut r = SimRng::fair(bulk_seed());
            r.yields = true;
            work.push(Box::new(move || {
                let v = sut_quiet(|| m.sample_n(&mut r, 300)).unwrap_or_default();
                bins.lock().unwrap()[i] = v;
            }));
        }
        run_clients(any_scale(), work);
        fault("client-interleaving");
        let v = bins.lock().unwrap().clone();
        v
    };
    for x in got.iter().flatten() {
        match which(*x) {
            Some(i) if w[i] > 0.0 => picks.push(i),
            _ => {
                violation("Mixture<Uniform>: a draw belongs to no component with weight", format!("{:?}: {:?}", m, x));
            },
        }
    }
    count("draws", picks.len() as u64);
    note(picks.iter().take(200).fold(picks.len() as u64, |h, x| mix(h, *x as u64)));
    if faulty || picks.is_empty() {
        return;
    }
    let n = picks.len() as u64;
    for i in 0..N {
        let c = picks.iter().filter(|p| **p == i).count() as u64;
        check(plausible(c, n, w[i], 1e-9), || "Mixture: components are not chosen by their weights".into(), || format!("component {} with weight {:?} chosen {} of {} times ({:?})", i, w[i], c, n, w));
    }
    // successive choices are independent
    let (i, j) = (choose(N), choose(N));
    let pairs = picks.chunks(2).filter(|p| p.len() == 2).count() as u64;
    let both = picks.chunks(2).filter(|p| p.len() == 2 && p[0] == i && p[1] == j).count() as u64;
    check(plausible(both, pairs, w[i] * w[j], 1e-9), || "Mixture: successive choices are dependent".into(), || format!("components {} then {} in {} of {} pairs, weights {:?}", i, j, both, pairs, w));
}

// --- convolutions --------------------------------------------------------------------------

/// Draws of `sum` against sums of draws of the operands, and its own answers.
fn same_law(fam: &'static str, what: &str, sum: Obj, ops: &[Arc<Obj>]) {
    let sum = Arc::new(sum);
    let args = || format!("{} gives {}", ops.iter().map(|o| o.name.clone()).collect::<Vec<_>>().join(" + "), sum.name);
    let n = *pick(&[5_000usize, 20_000, 60_000]);
    let h = history(&sum, n);
    let mut s = vec![0.0; n];
    for o in ops {
        let d = history(o, n);
        s.iter_mut().zip(&d).for_each(|(a, b)| *a += b);
    }
    count("draws", (n * (1 + ops.len())) as u64);
    let v = sorted(&h, &sum);
    let mut u = s.clone();
    u.retain(|x| !x.is_nan());
    u.sort_unstable_by(f64::total_cmp);
    if v.is_empty() || u.is_empty() {
        return;
    }
    // thresholds from one history each, compared on both by a bound that allows for it
    let (a, b) = (v.len() as u64, u.len() as u64);
    let mut at: Vec<f64> = pilot(&sum, 10);
    let k = u.len();
    at.extend([0, k / 50, k / 4, k / 2, 3 * k / 4, k - 1 - k / 50, k - 1].map(|i| u[i]));
    for x in at {
        let (i, j) = (upto(&v, x), upto(&u, x));
        check(alike(i, a, j, b), || format!("{}: {} does not have the law of the sum", fam, what), || format!("{}: {} of {} draws are <= {:?}, of the sums {} of {}", args(), i, a, x, j, b));
        // sums are not exact in floating point: only points away from rounding are compared
        if sum.disc || x != x.round() {
            if let Some(p) = prob(&sum, "cdf", x) {
                check(plausible(j, b, p, 1e-6), || format!("{}: cdf of {} disagrees with the sum", fam, what), || format!("{}: {} of {} sums are <= {:?}, cdf says {:?}", args(), j, b, x, p));
            }
        }
    }
    if ops.iter().all(|o| o.finite > 2.0) {
        for q in ["mean", "variance"] {
            let mut e = 0.0;
            let mut m: f64 = 0.0;
            for o in ops {
                match o.num(q, Arg::None) {
                    Some(v) => {
                        e += v;
                        m = m.max(v.abs());
                    },
                    None => return,
                }
            }
            if let Some(v) = sum.num(q, Arg::None) {
                check((v - e).abs() <= 1e-9 * m, || format!("{}: {} of {} is not the sum", fam, q, what), || format!("{}: {:?} against {:?}", args(), v, e));
            }
        }
    }
}

type Made<D> = (D, Obj);

/// One pair or list of operands; `fits` says whether the sum is in the family.
fn conv<A, B, R>(fam: &'static str, a: Made<A>, bs: Vec<Made<B>>, fits: bool, rebuild: impl Fn(R) -> Obj)
where
    A: Convolution<B, Output = R> + Clone + Distribution + 'static,
    B: Clone + Distribution + 'static,
    R: Convolution<B, Output = R> + Distribution + 'static,
{
    let mut ops = vec![Arc::new(a.1)];
    let mut rest = vec![];
    for (b, o) in bs {
        ops.push(Arc::new(o));
        rest.push(b);
    }
    let names = ops.iter().map(|o| o.name.clone()).collect::<Vec<_>>().join(" + ");
    log!("{}", names);
    state(hash_bytes(names.as_bytes()));
    let style = if rest.len() == 1 && chance(3, 4) { 0 } else { 1 + choose(2) };
    let what = ["convolve", "convolve_many", "repeated convolve"][style];
    let (x, r) = (a.0, rest.clone());
    let out = sut(&format!("{}: {}", fam, what), move || match style {
        0 => x.convolve(r.into_iter().next().unwrap()),
        1 => x.convolve_many(r),
        _ => {
            let mut it = r.into_iter();
            let mut acc = x.convolve(it.next().unwrap());
            for b in it {
                acc = acc.and_then(|d| d.convolve(b));
            }
            acc
        },
    });
    match out {
        Err(c) => violation(&format!("{}: {} panicked", fam, what), format!("{}: {:?}", names, c)),
        Ok(Err(e)) => {
            note(1);
            // convolve_many insists on two operands
            let excused = style == 1 && rest.len() < 2;
            check(!fits || excused, || format!("{}: {} refused operands whose sum is in the family", fam, what), || format!("{}: {}", names, e));
            fault("refused-operands");
        },
        Ok(Ok(r)) => {
            note(2);
            if !check(fits, || format!("{}: {} accepted operands whose sum is not in the family", fam, what), || names.clone()) {
                return;
            }
            let o = rebuild(r);
            same_law(fam, what, o, &ops);
        },
    }
}

fn near_miss(p: f64) -> f64 {
    // another probability: somewhere else, or only a little off
    let q = match choose(3) {
        0 => p + *pick(&[1e-6, -1e-6, 1e-4, -1e-4, 0.01, -0.01]),
        1 => 1.0 - p,
        _ => unit(),
    };
    if (q - p).abs() < 1e-7 || !(0.0..=1.0).contains(&q) { if p < 0.5 { p + 0.125 } else { p - 0.125 } } else { q }
}
fn off(b: f64) -> f64 { b * *pick(&[1.000001, 0.999999, 1.001, 0.5, 2.0, 1.1]) }

pub fn c06_convolve() {
    let n = if chance(1, 2) { 1 } else { 2 + choose(4) };
    // which operand, if any, does not fit
    let odd = if chance(1, 3) { Some(choose(n)) } else { None };
    let t = Reg::Tame;
    let tame_count = || 1 + choose(40);
    match choose(9) {
        0 => {
            let bs = (0..n).map(|_| { let (m, s) = (loc(t), scale(t)); (uv::normal::Normal::new_unchecked(m, s), normal_obj(m, s)) }).collect();
            let (m, s) = (loc(t), scale(t));
            conv("Normal + Normal", (uv::normal::Normal::new_unchecked(m, s), normal_obj(m, s)), bs, true, |r: uv::normal::Normal| {
                let p = r.params();
                normal_obj(p.mu.0, p.Sigma.0)
            })
        },
        1 => {
            let bs = (0..n).map(|_| { let (m, s) = (loc(t), scale(t)); (uv::cauchy::Cauchy::new_unchecked(m, s), cauchy_obj(m, s)) }).collect();
            let (m, s) = (loc(t), scale(t));
            conv("Cauchy + Cauchy", (uv::cauchy::Cauchy::new_unchecked(m, s), cauchy_obj(m, s)), bs, true, |r: uv::cauchy::Cauchy| {
                let p = r.params();
                cauchy_obj(p.x0.0, p.gamma.0)
            })
        },
        2 => {
            let bs = (0..n).map(|_| { let k = dof(t); (uv::chi_sq::ChiSq::new_unchecked(k), chisq_obj(k)) }).collect();
            let k = dof(t);
            conv("ChiSq + ChiSq", (uv::chi_sq::ChiSq::new_unchecked(k), chisq_obj(k)), bs, true, |r: uv::chi_sq::ChiSq| chisq_obj(r.params().k.0))
        },
        3 => {
            let l = || *pick(&[0.3, 1.0, 2.5, 7.0, 11.5, 12.0, 40.0]);
            let bs = (0..n).map(|_| { let l = l(); (uv::poisson::Poisson::new_unchecked(l), poisson_obj(l)) }).collect();
            let l = l();
            conv("Poisson + Poisson", (uv::poisson::Poisson::new_unchecked(l), poisson_obj(l)), bs, true, |r: uv::poisson::Poisson| poisson_obj(r.params().lambda.0))
        },
        4 => {
            let b = scale(t);
            let bs = (0..n).map(|i| { let (a, b) = (shape(t), if odd == Some(i) { off(b) } else { b }); (uv::gamma::Gamma::new_unchecked(a, b), gamma_obj(a, b)) }).collect();
            let a = shape(t);
            conv("Gamma + Gamma", (uv::gamma::Gamma::new_unchecked(a, b), gamma_obj(a, b)), bs, odd.is_none(), |r: uv::gamma::Gamma| {
                let p = r.params();
                gamma_obj(p.alpha.0, p.beta.0)
            })
        },
        5 => {
            let b = scale(t);
            let bs = (0..n).map(|i| { let b = if odd == Some(i) { off(b) } else { b }; (uv::exponential::Exponential::new_unchecked(b), exponential_obj(b)) }).collect();
            let a = shape(t);
            conv("Gamma + Exponential", (uv::gamma::Gamma::new_unchecked(a, b), gamma_obj(a, b)), bs, odd.is_none(), |r: uv::gamma::Gamma| {
                let p = r.params();
                gamma_obj(p.alpha.0, p.beta.0)
            })
        },
        k => {
            let p = chance_of(t);
            let q = near_miss(p);
            let at = |i: usize| if odd == Some(i) { q } else { p };
            let pr = Probability::new_unchecked;
            let bern = |i: usize| { let p = at(i); (uv::bernoulli::Bernoulli::new_unchecked(p), bernoulli_obj(p)) };
            let bin = |i: usize| { let (c, p) = (tame_count(), at(i)); (uv::binomial::Binomial::new_unchecked(c, pr(p)), binomial_obj(c, p)) };
            let back = |r: uv::binomial::Binomial| {
                let p = r.params();
                binomial_obj(p.n.0, p.p.unwrap())
            };
            match k {
                6 => conv("Bernoulli + Bernoulli", (uv::bernoulli::Bernoulli::new_unchecked(p), bernoulli_obj(p)), (0..n).map(bern).collect(), odd.is_none(), back),
                7 => {
                    let c = tame_count();
                    conv("Binomial + Bernoulli", (uv::binomial::Binomial::new_unchecked(c, pr(p)), binomial_obj(c, p)), (0..n).map(bern).collect(), odd.is_none(), back)
                },
                _ => {
                    let c = tame_count();
                    conv("Binomial + Binomial", (uv::binomial::Binomial::new_unchecked(c, pr(p)), binomial_obj(c, p)), (0..n).map(bin).collect(), odd.is_none(), back)
                },
            }
        },
    }
}
