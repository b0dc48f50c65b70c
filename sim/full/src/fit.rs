//! C17: likelihood, score and fitted parameters against draw histories.
use crate::law::history;
use crate::zoo::*;
use rstat::fitting::MLE;
use rstat::univariate as uv;
use rstat::Distribution;
use simcore::sched::{any_scale, run_clients};
use simcore::*;
use std::sync::{Arc, Mutex};

/// A family with a likelihood, as a function of its parameters.
struct Model {
    name: &'static str,
    make: fn(&[f64]) -> Obj,
    any: fn() -> Vec<f64>,
    /// standard deviation of one observation's score
    info: fn(&[f64]) -> Vec<f64>,
    /// how far each parameter may move
    step: fn(&[f64]) -> Vec<f64>,
    score: bool,
}
fn pos(p: &[f64]) -> Vec<f64> { p.to_vec() }
static MODELS: &[Model] = &[
    Model {
        name: "Normal",
        make: |p| normal_obj(p[0], p[1]),
        any: || {
            if chance(1, 3) {
                // a small spread far from the origin
                let mu = uniform(-1.0, 1.0) * *pick(&[1e3, 1e6, 1e-3]);
                let sd = mu.abs().max(1e-9) * log_uniform(3e-6, 1e-2);
                return vec![mu, sd * sd];
            }
            vec![loc(Reg::Tame), scale(Reg::Tame)]
        },
        info: |p| vec![1.0 / p[1].sqrt(), 1.0 / p[1] / 2f64.sqrt()],
        step: |p| vec![p[1].sqrt(), p[1]],
        score: true,
    },
    Model {
        name: "PairedNormal",
        make: |p| paired_obj([p[0], p[1]], [p[2], p[3]]),
        any: || vec![loc(Reg::Tame), loc(Reg::Tame), scale(Reg::Tame), scale(Reg::Tame)],
        info: |p| vec![1.0 / p[2].sqrt(), 1.0 / p[3].sqrt(), 1.0 / p[2], 1.0 / p[3]],
        step: |p| vec![p[2].sqrt(), p[3].sqrt(), p[2], p[3]],
        score: true,
    },
    Model {
        name: "Bernoulli",
        make: |p| bernoulli_obj(p[0]),
        any: || vec![uniform(0.02, 0.98)],
        info: |p| vec![1.0 / (p[0] * (1.0 - p[0])).sqrt()],
        step: |p| vec![p[0].min(1.0 - p[0])],
        score: true,
    },
    Model {
        name: "Poisson",
        make: |p| poisson_obj(p[0]),
        any: || vec![*pick(&[0.2, 0.7, 1.0, 2.5, 6.0, 11.9, 12.0, 30.0, 150.0])],
        info: |p| vec![1.0 / p[0].sqrt()],
        step: pos,
        score: true,
    },
    Model {
        name: "Beta",
        make: |p| beta_obj(p[0], p[1]),
        any: || vec![log_uniform(0.5, 20.0), log_uniform(0.5, 20.0)],
        info: |p| vec![1.0 / p[0].max(1.0), 1.0 / p[1].max(1.0)],
        step: pos,
        score: true,
    },
    Model {
        name: "Gamma",
        make: |p| gamma_obj(p[0], p[1]),
        any: || vec![log_uniform(0.5, 20.0), scale(Reg::Tame)],
        info: |p| vec![1.0 / p[0].max(1.0), p[0].sqrt() / p[1]],
        step: pos,
        score: true,
    },
];

fn data(o: &Arc<Obj>, n: usize) -> Vec<Vec<f64>> { history(o, n).chunks(o.dim).map(|x| x.to_vec()).collect() }

/// Densities below this distance from a boundary are deliberately clamped in Beta and Gamma.
fn clamped(m: &Model, x: &[f64]) -> bool { (m.name == "Beta" || m.name == "Gamma") && x[0] < 1e-8 || m.name == "Beta" && x[0] > 1.0 - 1e-8 }

fn ll(o: &Obj, xs: &[Vec<f64>]) -> Option<f64> { o.num("log_likelihood", Arg::Data(xs)) }

pub fn c17_likelihood() {
    let m = &MODELS[choose(MODELS.len())];
    let p = (m.any)();
    let o = Arc::new((m.make)(&p));
    // observations of the same or of another member of the family
    let src = if chance(1, 3) { Arc::new((m.make)(&(m.any)())) } else { o.clone() };
    log!("{} on draws of {}", o.name, src.name);
    state(hash_bytes(o.name.as_bytes()));
    let n = *pick(&[0usize, 1, 2, 3, 10, 40, 200, 1500]);
    let mut xs = data(&src, n.max(1));
    xs.truncate(n);
    xs.retain(|x| !clamped(m, x));
    let n = xs.len();
    let Some(l) = ll(&o, &xs) else { return };
    let f = if o.disc { "log_pmf" } else { "log_pdf" };
    let mut sum = 0.0;
    let mut mag = 0.0;
    for x in &xs {
        let Some(v) = o.num(f, Arg::X(x)) else { return };
        sum += v;
        mag += v.abs();
    }
    let fam = m.name;
    let tol = 1e-8 * (mag + n as f64);
    // where the density underflows its logarithm carries no digits
    let deep = xs.iter().any(|x| o.num(f, Arg::X(x)).map_or(true, |v| v < -700.0));
    check(deep || l == sum || (l - sum).abs() <= tol, || format!("{}: log_likelihood is not the sum of the log density", fam), || format!("{}: {:?} against {:?} over {} draws", o.name, l, sum, n));
    let Some(e) = o.num("likelihood", Arg::Data(&xs)) else { return };
    check(e == l.exp() || (e - l.exp()).abs() <= 1e-9 * (1.0 + l.abs()) * l.exp(), || format!("{}: likelihood is not exp(log_likelihood)", fam), || format!("{}: {:?} and {:?}", o.name, e, l));
    // order and grouping of the observations
    if n > 1 {
        let mut ys = xs.clone();
        shuffle(&mut ys);
        let k = choose(n + 1);
        let (Some(a), Some(b), Some(c)) = (ll(&o, &ys), ll(&o, &xs[..k]), ll(&o, &xs[k..])) else { return };
        check((a - l).abs() <= tol || a == l, || format!("{}: log_likelihood depends on the order of observations", fam), || format!("{}: {:?} and {:?}", o.name, l, a));
        check((b + c - l).abs() <= tol || b + c == l, || format!("{}: log_likelihood of a split history does not add up", fam), || format!("{}: {:?} + {:?} against {:?}, {} of {}", o.name, b, c, l, k, n));
    }
    // gradient
    if m.score {
        let Some(g) = o.vec("score", Arg::Data(&xs)) else { return };
        if !check(g.len() == p.len(), || format!("{}: score has the wrong dimension", fam), || format!("{:?}", g)) {
            return;
        }
        if fam == "Normal" {
            // a step along the gradient
            use rstat::fitting::Score;
            let k = uniform(-2.0, 2.0);
            let v: Vec<f64> = xs.iter().map(|x| x[0]).collect();
            if let Ok(Some(a)) = sut("Normal: score", || uv::normal::Normal::new(p[0], p[1]).ok().map(|d| d.score(&v) * k)) {
                let ok = [a.mu, a.Sigma].iter().zip(&g).all(|(a, g)| (a - g * k).abs() <= 1e-9 * (g * k).abs() + 1e-300);
                check(ok, || "Normal: a scaled score is not proportional to the score".into(), || format!("{}: {:?} of {:?} times {:?}", o.name, [a.mu, a.Sigma], g, k));
            }
        }
        let steps = (m.step)(&p);
        let info = (m.info)(&p);
        for i in 0..p.len() {
            let h = 1e-3 * steps[i];
            let at = |t: f64| {
                let mut q = p.clone();
                q[i] += t * h;
                ll(&(m.make)(&q), &xs)
            };
            let (Some(a), Some(b), Some(c), Some(d)) = (at(1.0), at(-1.0), at(2.0), at(-2.0)) else { return };
            let e = (8.0 * (a - b) - (c - d)) / (12.0 * h);
            let size = l.abs().max(a.abs()).max(d.abs());
            let room = 1e-5 * (e.abs() + (n as f64 + 1.0) * info[i]) + 1e-13 * size / h * 10.0 + 1e-9 * g[i].abs();
            check((g[i] - e).abs() <= room || !e.is_finite(), || format!("{}: score is not the gradient of log_likelihood", fam), || {
                format!("{}: component {} is {:?}, log_likelihood changes at a rate of {:?} ({} draws)", o.name, i, g[i], e, n)
            });
        }
        if n > 1 {
            let k = choose(n + 1);
            let (Some(a), Some(b)) = (o.vec("score", Arg::Data(&xs[..k])), o.vec("score", Arg::Data(&xs[k..]))) else { return };
            for i in 0..p.len() {
                let big = a[i].abs() + b[i].abs() + (n as f64) * info[i];
                check((a[i] + b[i] - g[i]).abs() <= 1e-8 * big, || format!("{}: score of a split history does not add up", fam), || format!("{}: {:?} + {:?} against {:?}", o.name, a, b, g));
            }
        }
    }
}

/// Fitting: typed, because it builds distributions.
trait Fit: MLE + Clone + Send + Sync + 'static
where
    rstat::Sample<Self>: Val,
{
    const NAME: &'static str;
    fn model() -> &'static Model { MODELS.iter().find(|m| m.name == Self::NAME).unwrap() }
    fn values(&self) -> Vec<f64>;
}
impl Fit for uv::normal::Normal {
    const NAME: &'static str = "Normal";
    fn values(&self) -> Vec<f64> { vec![self.params().mu.0, self.params().Sigma.0] }
}
impl Fit for uv::bernoulli::Bernoulli {
    const NAME: &'static str = "Bernoulli";
    fn values(&self) -> Vec<f64> { vec![self.params().p.unwrap()] }
}
impl Fit for uv::poisson::Poisson {
    const NAME: &'static str = "Poisson";
    fn values(&self) -> Vec<f64> { vec![self.params().lambda.0] }
}

fn fit<D: Fit>(xs: &[Vec<f64>]) -> Option<Result<Vec<f64>, String>>
where
    rstat::Sample<D>: Val + Sync,
{
    let v: Vec<rstat::Sample<D>> = xs.iter().map(|x| Val::get(x)).collect();
    match sut(&format!("{}: fit_mle", D::NAME), || D::fit_mle(&v)) {
        Ok(Ok(d)) => Some(Ok(d.values())),
        Ok(Err(e)) => Some(Err(e.to_string())),
        Err(c) => {
            violation(&format!("{}: fit_mle panicked", D::NAME), format!("{} observations: {:?}", xs.len(), c));
            None
        },
    }
}

pub fn c17_fit() {
    match choose(3) {
        0 => fitted::<uv::normal::Normal>(),
        1 => fitted::<uv::bernoulli::Bernoulli>(),
        _ => fitted::<uv::poisson::Poisson>(),
    }
}
fn fitted<D: Fit>()
where
    rstat::Sample<D>: Val + Sync,
{
    let m = D::model();
    let p = (m.any)();
    let o = Arc::new((m.make)(&p));
    log!("{}", o.name);
    state(hash_bytes(o.name.as_bytes()));
    let n = *pick(&[2usize, 3, 10, 100, 1000, 20_000, 100_000]);
    let xs = data(&o, n);
    count("observations", n as u64);
    let fam = m.name;
    let same = xs.iter().all(|x| x == &xs[0]);
    let q = match fit::<D>(&xs) {
        None => return,
        Some(Err(e)) => {
            check(same, || format!("{}: fit_mle refused a draw history", fam), || format!("{}: {} draws: {}", o.name, n, e));
            return;
        },
        Some(Ok(q)) => q,
    };
    note(q.iter().fold(0, |h, x| mix(h, x.to_bits())));
    let info = (m.info)(&p);
    // converges to the parameters of the source
    if n >= 100 {
        for i in 0..p.len() {
            let sd = 1.0 / info[i] / (n as f64).sqrt();
            // sub-exponential tails at small n
            let room = 9.0 * sd * (1.0 + 3.0 / (n as f64).sqrt() * if fam == "Normal" { 1.0 } else { 1.0 / p[0].sqrt().min(1.0) });
            check((q[i] - p[i]).abs() <= room, || format!("{}: fit_mle does not converge to the parameters of the draws", fam), || format!("{}: {} draws give {:?}", o.name, n, q));
        }
    }
    // order of arrival
    let mut ys = xs.clone();
    match choose(3) {
        0 => ys.reverse(),
        1 => ys.sort_by(|a, b| a[0].total_cmp(&b[0])),
        _ => shuffle(&mut ys),
    }
    match fit::<D>(&ys) {
        Some(Ok(r)) => {
            let far = (0..p.len()).any(|i| (r[i] - q[i]).abs() > 1e-9 * (q[i].abs() + 1.0 / info[i]));
            check(!far, || format!("{}: fit_mle depends on the order of observations", fam), || format!("{}: {:?} and {:?}", o.name, q, r));
        },
        Some(Err(e)) => violation(&format!("{}: fit_mle depends on the order of observations", fam), format!("{}: {:?} and {}", o.name, q, e)),
        None => return,
    }
    // several clients fit the same history at once
    if n <= 1000 && chance(1, 3) {
        let out: Arc<Mutex<Vec<Option<Result<Vec<f64>, String>>>>> = Arc::default();
        let shared = Arc::new(xs.clone());
        let mut work: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for _ in 0..2 + choose(2) {
            let (out, xs) = (out.clone(), shared.clone());
            work.push(Box::new(move || {
                let r = fit::<D>(&xs);
                out.lock().unwrap().push(r);
            }));
        }
        run_clients(any_scale(), work);
        fault("client-interleaving");
        for r in out.lock().unwrap().iter().flatten() {
            check(r.as_ref().map_or(false, |r| r.iter().map(|x| x.to_bits()).eq(q.iter().map(|x| x.to_bits()))), || format!("{}: fit_mle answers differently among clients", fam), || format!("{}: {:?} and {:?}", o.name, q, r));
        }
    }
    if same {
        return;
    }
    let interior = match fam {
        "Bernoulli" => q[0] > 0.0 && q[0] < 1.0,
        "Poisson" => q[0] > 0.0,
        _ => true,
    };
    if !interior {
        return;
    }
    // the score vanishes, the likelihood is highest
    let best = (m.make)(&q);
    let Some(g) = best.vec("score", Arg::Data(&xs)) else { return };
    let at = (m.info)(&q);
    for i in 0..q.len() {
        let mut room = 1e-5 * at[i] * (n as f64).sqrt();
        if fam == "Normal" {
            // rounding of the mean
            let r = 4.0 * f64::EPSILON * q[0].abs() * (n as f64).sqrt() * n as f64;
            room += if i == 0 { r / q[1] } else { r * r / n as f64 / q[1] / q[1] };
        }
        check(g[i].abs() <= room, || format!("{}: score does not vanish at the fitted parameters", fam), || format!("{}: {} draws give {:?}, score {:?}", o.name, n, q, g));
    }
    let Some(top) = ll(&best, &xs) else { return };
    let steps = (m.step)(&q);
    for i in 0..q.len() {
        for k in [-0.2, -0.05, -0.01, -1e-3, 1e-3, 0.01, 0.05, 0.2] {
            let mut r = q.clone();
            r[i] += k * steps[i];
            let Some(v) = ll(&(m.make)(&r), &xs) else { return };
            check(v <= top + 1e-10 * top.abs() + 1e-10, || format!("{}: likelihood is higher next to the fitted parameters", fam), || format!("{}: {:?} at {:?}, {:?} at {:?}", o.name, top, q, v, r));
        }
    }
}

/// Without observations there is nothing to fit.
pub fn c17_empty() {
    fn none<D: Fit>()
    where
        rstat::Sample<D>: Val + Sync,
    {
        match fit::<D>(&[]) {
            Some(Ok(q)) => {
                // whatever it answers must be a valid parameter set
                let ok = q.iter().all(|x| x.is_finite());
                check(ok, || format!("{}: fit_mle of nothing gives invalid parameters", D::NAME), || format!("{:?}", q));
            },
            _ => fault("refused-empty-history"),
        }
    }
    none::<uv::normal::Normal>();
    none::<uv::bernoulli::Bernoulli>();
    none::<uv::poisson::Poisson>();
    let m = &MODELS[choose(MODELS.len())];
    let o = (m.make)(&(m.any)());
    if let Some(l) = ll(&o, &[]) {
        check(l == 0.0, || format!("{}: log_likelihood of nothing is not 0", m.name), || format!("{}: {:?}", o.name, l));
    }
}
