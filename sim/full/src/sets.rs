//! Parameter sets and checked constructors of the whole crate: admission (C11), storage (C13, C14).
use crate::zoo::Val;
use rstat::params::constraints::UnsatisfiedConstraintError;
use rstat::params::{Concentrations, Param};
use rstat::univariate as uv;
use rstat::{bivariate, multivariate as mv, normal, Distribution, Mixture, Probability, Sample, SimplexVector};
use serde::de::DeserializeOwned;
use serde::Serialize;
use simcore::kit::*;
use simcore::rng::SimRng;
use simcore::sched::{any_scale, run_clients};
use simcore::*;
use std::fmt::{Debug, Display};
use std::sync::{Arc, Mutex};

/// What a constructor argument must satisfy.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Any,
    Pos,
    Prob,
    Corr,
    /// usize, anything
    Nat,
    /// usize above 0
    NatPos,
    /// i64, anything
    Int,
    /// width of an integer interval
    Width,
    /// an entry of a weight vector
    Weight,
    /// an entry of a covariance matrix
    Cov,
}
use K::*;

pub trait Report: Display + Debug + Send + Sync {}
impl<T: Display + Debug + Send + Sync> Report for T {}
pub type Built = Result<Vec<f64>, Box<dyn Report>>;

/// What to do with a set of parameters.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Store,
    Damage,
    Text,
}

pub struct Set {
    pub name: &'static str,
    pub kinds: &'static [K],
    pub params: fn(&[f64]) -> Built,
    pub dist: fn(&[f64]) -> Built,
    pub store: fn(&[f64], Mode),
}

const EDGES: [f64; 18] = [
    1.0, 0.0, -1.0, -0.0, 0.5, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324, -5e-324, 1.0000000000000002, 0.9999999999999999, -1.0000000000000002,
    1.7976931348623157e308, -1.7976931348623157e308, 1e-12, -1e-12,
];

fn raw(k: K) -> f64 {
    match k {
        Nat | NatPos => *pick(&[0.0, 1.0, 2.0, 3.0, 7.0, 100.0, 1e6, 9007199254740992.0]),
        Int => *pick(&[0.0, 1.0, -1.0, 5.0, -7.0, 1e6, -1e12]),
        Width => *pick(&[0.0, 1.0, 2.0, 17.0, 1e6, 1e12]),
        _ if chance(1, 2) => *pick(&EDGES),
        _ => uniform(-3.0, 3.0),
    }
}
/// An argument the constructor must take.
fn good(k: K, mild: bool) -> f64 {
    match k {
        Nat => *pick(&[0.0, 1.0, 2.0, 5.0, 20.0]),
        NatPos => *pick(&[1.0, 2.0, 3.0, 5.0, 20.0]),
        Int => *pick(&[0.0, 1.0, -1.0, 5.0, -700.0]),
        Width => *pick(&[1.0, 2.0, 17.0, 1000.0]),
        Any | Cov if mild => *pick(&[0.0, 1.0, -1.0, 0.5, -12.25, 3.7]),
        Any | Cov => *pick(&[0.0, -0.0, 1.0, -1e300, 1e300, 5e-324, 0.1, f64::INFINITY, f64::NEG_INFINITY]),
        Pos if mild => match choose(2) { 0 => *pick(&[1.0, 0.5, 2.0, 3.0, 0.7]), _ => log_uniform(0.3, 10.0) },
        Pos => *pick(&[1.0, 5e-324, 1e300, 0.1, 1.7976931348623157e308, f64::INFINITY]),
        Prob | Weight => *pick(&[0.0, 1.0, 0.5, 0.1, 5e-324, 0.9999999999999999]),
        Corr => *pick(&[0.0, 1.0, -1.0, 0.3, -0.9999999999999999, 5e-324]),
    }
}

/// Does the k-th argument alone meet its constraint?
pub fn meets(k: K, x: f64) -> bool {
    match k {
        Any | Nat | Int | Cov => true,
        Pos | NatPos | Width => x > 0.0,
        Prob | Weight => x >= 0.0 && x <= 1.0,
        Corr => x >= -1.0 && x <= 1.0,
    }
}

pub fn side(kinds: &[K]) -> usize { (kinds.iter().filter(|k| **k == Cov).count() as f64).sqrt() as usize }

/// None: close enough to a tolerance that either answer will do.
pub fn admits(kinds: &[K], a: &[f64]) -> Option<bool> {
    if !kinds.iter().zip(a).all(|(k, x)| meets(*k, *x)) {
        return Some(false);
    }
    let n = side(kinds);
    if n > 0 {
        let at = kinds.iter().position(|k| *k == Cov).unwrap();
        let m = &a[at..at + n * n];
        if m.iter().any(|x| !x.is_finite()) || (0..n).any(|i| m[i * n + i] < 0.0) {
            return Some(false);
        }
        return if definite(kinds, a) { Some(true) } else { None };
    }
    let w: Vec<f64> = kinds.iter().zip(a).filter(|(k, _)| **k == Weight).map(|(_, x)| *x).collect();
    if !w.is_empty() {
        let s: f64 = w.iter().sum();
        let d = (s - 1.0).abs();
        return if d < 1e-9 { Some(true) } else if d > 1e-3 { Some(false) } else { None };
    }
    Some(true)
}

fn fill(kinds: &[K], one: impl Fn(K) -> f64) -> Vec<f64> { kinds.iter().map(|k| one(*k)).collect() }
/// Arguments that are admissible together.
pub fn valid(kinds: &[K], mild: bool) -> Vec<f64> {
    let mut a = fill(kinds, |k| good(k, mild));
    fix_jointly(kinds, &mut a, mild);
    a
}
fn fix_jointly(kinds: &[K], a: &mut [f64], mild: bool) {
    let ws: Vec<usize> = (0..a.len()).filter(|i| kinds[*i] == Weight).collect();
    if !ws.is_empty() {
        let mut left = 64;
        let n = ws.len();
        for (j, i) in ws.iter().enumerate() {
            let k = if j + 1 == n { left } else { choose(left + 1) };
            left -= k;
            a[*i] = k as f64 / 64.0;
        }
    }
    let n = side(kinds);
    if n > 0 {
        let at = kinds.iter().position(|k| *k == Cov).unwrap();
        for i in 0..n {
            for j in 0..=i {
                let x = if i == j { if mild { uniform(1.0, 4.0) } else { *pick(&[1.0, 1e300, 2.0, 7.0]) } } else { *pick(&[0.0, 0.3, -0.4]) };
                a[at + i * n + j] = x;
                a[at + j * n + i] = x;
            }
        }
    }
}
pub fn any_args(kinds: &[K]) -> Vec<f64> {
    match choose(4) {
        0 => valid(kinds, chance(1, 2)),
        1 => fill(kinds, raw),
        _ => {
            // one argument out of line
            let mut a = valid(kinds, chance(1, 2));
            if !a.is_empty() {
                let i = choose(a.len());
                a[i] = raw(kinds[i]);
            }
            if chance(1, 6) {
                fix_jointly(kinds, &mut a, true);
            }
            a
        },
    }
}

// --- the table -----------------------------------------------------------------------------

trait Nums {
    fn nums(&self, out: &mut Vec<f64>);
}
macro_rules! nums {
    ($($t:ty)*) => {$(impl Nums for $t { fn nums(&self, out: &mut Vec<f64>) { out.push(*self as f64) } })*}
}
nums!(f64 usize i64);
impl<T: Nums, const N: usize> Nums for [T; N] {
    fn nums(&self, out: &mut Vec<f64>) { self.iter().for_each(|x| x.nums(out)) }
}
impl<T: Nums> Nums for Vec<T> {
    fn nums(&self, out: &mut Vec<f64>) { self.iter().for_each(|x| x.nums(out)) }
}
impl<A: Nums, B: Nums> Nums for (A, B) {
    fn nums(&self, out: &mut Vec<f64>) {
        self.0.nums(out);
        self.1.nums(out);
    }
}
fn bits(x: &[f64]) -> Vec<u64> { x.iter().map(|v| v.to_bits()).collect() }

fn seen<D: Distribution>(d: &D, seed: u64, xs: &mut Vec<Sample<D>>) -> Vec<u64>
where
    Sample<D>: Val,
{
    let mut out = vec![];
    let mut rng = SimRng::fair(seed);
    rng.budget = 20_000;
    let known = !xs.is_empty();
    for i in 0..4 {
        let r = sut_quiet(|| d.sample(&mut rng));
        match r {
            Ok(x) => {
                let mut v = vec![];
                x.put(&mut v);
                out.extend(bits(&v));
                if !known {
                    xs.push(x);
                }
            },
            Err(c) => out.push(hash_bytes(panic_site(&c).as_bytes())),
        }
        if let Some(x) = xs.get(i) {
            match sut_quiet(|| d.cdf(x)) {
                Ok(p) => out.push(p.unwrap().to_bits()),
                Err(c) => out.push(hash_bytes(panic_site(&c).as_bytes())),
            }
        }
    }
    out
}

fn stored_set<P, D>(name: &'static str, kinds: &'static [K], x: P, a: &[f64], nums: fn(&P) -> Vec<f64>, remake: fn(&[f64]) -> Built, mode: Mode)
where
    P: Serialize + DeserializeOwned + Clone + Debug + Send + Sync + 'static,
    D: Distribution<Params = P>,
    D::Support: Debug,
    Sample<D>: Val,
{
    let finite = a.iter().all(|v| v.is_finite());
    let matrix = side(kinds) > 0;
    let admit = |y: &P| {
        let b = nums(y);
        if b.len() != kinds.len() {
            return Err(format!("{} numbers: {:?}", b.len(), y));
        }
        if admits(kinds, &b) == Some(false) || remake(&b).is_err() {
            return Err(format!("{:?}", y));
        }
        // and it must be usable (support() of a count of 2^64 - 1 may overflow)
        if !matrix && b.iter().all(|v| v.abs() < 1e15) {
            if let Err(c) = sut(name, || D::from(y.clone()).support()) {
                return Err(format!("{:?} which panics when used: {:?}", y, c));
            }
        }
        Ok(())
    };
    set_label(name);
    if mode == Mode::Text {
        let want = bits(&nums(&x));
        let x = Arc::new(x);
        let y = x.clone();
        let t = failing_sinks(&format!("{} Debug", name), &(Arc::new(move |w: &mut dyn std::fmt::Write| write!(w, "{:?}", y)) as Render));
        let y = x.clone();
        failing_sinks(&format!("{} Debug#", name), &(Arc::new(move |w: &mut dyn std::fmt::Write| write!(w, "{:#?}", y)) as Render));
        for v in nums(&x) {
            let shown = [format!("{:?}", v), format!("{}", v), format!("{}", v as i64)];
            check(shown.iter().any(|s| t.contains(s)), || format!("{}: Debug does not name a value", name), || format!("{:?} lacks {:?}", t, v));
        }
        check(bits(&nums(&x)) == want, || format!("{}: changed by formatting", name), || t.clone());
        return;
    }
    if mode == Mode::Damage {
        if chance(1, 4) {
            wrong_length(name, &x);
        } else {
            damaged(name, &x, finite, &admit);
        }
        return;
    }
    let want = bits(&nums(&x));
    let y = roundtrip(name, &x, finite, &|y: &P| if bits(&nums(y)) == want { Ok(()) } else { Err(format!("wrote {:?}, read {:?}", x, y)) });
    let Some(y) = y else { return };
    let mild = a.iter().all(|v| v.abs() < 1e4 && (*v == 0.0 || v.abs() > 1e-3));
    if !mild {
        return;
    }
    // a distribution rebuilt from what was restored behaves as the original
    let seed = bulk_seed();
    let (p, q) = (x.clone(), y);
    let (Ok(d), Ok(e)) = (sut(name, || D::from(p)), sut(name, || D::from(q))) else {
        return violation(&format!("{}: cannot be rebuilt", name), format!("{:?}", x));
    };
    let mut xs = vec![];
    let u = seen(&d, seed, &mut xs);
    let v = seen(&e, seed, &mut xs);
    check(u == v, || format!("{}: rebuilt distribution behaves differently", name), || format!("{:?}", x));
    match (sut(name, || d.params()), sut(name, || e.params()), sut(name, || format!("{:?}", d.support())), sut(name, || format!("{:?}", e.support()))) {
        (Ok(p), Ok(q), Ok(s), Ok(t)) => {
            let ok = bits(&nums(&p)) == want && bits(&nums(&q)) == want && s == t;
            check(ok, || format!("{}: rebuilt distribution has other parameters", name), || format!("{:?}: {:?} {:?} {} {}", x, p, q, s, t));
        },
        r => violation(&format!("{}: rebuilt distribution cannot be used", name), format!("{:?}: {:?}", x, r)),
    }
}

fn boxed<T, E: Report + 'static>(r: Result<T, E>) -> Result<T, Box<dyn Report>> { r.map_err(|e| Box::new(e) as Box<dyn Report>) }

macro_rules! set {
    ($name:literal, [$($k:ident)*], $P:ty, $D:ty, |$a:ident| $pnew:expr, $punch:expr, $dnew:expr, |$p:ident| ($($f:expr),*)) => {{
        fn nums($p: &$P) -> Vec<f64> {
            let mut out = vec![];
            $($f.nums(&mut out);)*
            out
        }
        fn params($a: &[f64]) -> Built { boxed($pnew).map(|p: $P| callback(|| nums(&p))) }
        fn dist($a: &[f64]) -> Built { boxed($dnew).map(|d: $D| { let p = d.params(); callback(|| nums(&p)) }) }
        const KINDS: &[K] = &[$($k),*];
        Set {
            name: $name,
            kinds: KINDS,
            params,
            dist,
            store: |$a, mode| stored_set::<$P, $D>($name, KINDS, $punch, $a, nums, params, mode),
        }
    }};
}
/// Sets made by the `params!` family: the constructor takes the values in order.
macro_rules! plain {
    ($name:literal, $m:path, $D:ident, [$($k:ident)*], |$a:ident| ($($v:expr),*), |$p:ident| ($($f:expr),*)) => {{
        use $m as m;
        set!($name, [$($k)*], m::Params, m::$D, |$a| m::Params::new($($v),*), m::Params::new_unchecked($($v),*), m::$D::new($($v),*), |$p| ($($f),*))
    }};
}
fn a2(a: &[f64], i: usize) -> [f64; 2] { [a[i], a[i + 1]] }
fn a3(a: &[f64], i: usize) -> [f64; 3] { [a[i], a[i + 1], a[i + 2]] }
fn m2(a: &[f64], i: usize) -> [[f64; 2]; 2] { [a2(a, i), a2(a, i + 2)] }
fn m3(a: &[f64], i: usize) -> [[f64; 3]; 3] { [a3(a, i), a3(a, i + 3), a3(a, i + 6)] }

type MixE = Mixture<2, uv::exponential::Exponential>;
type MixN = Mixture<3, uv::normal::Normal>;
type PMixE = <MixE as Distribution>::Params;
type PMixN = <MixN as Distribution>::Params;
fn mix_e(a: &[f64]) -> Result<MixE, failure::Error> {
    let c = [uv::exponential::Exponential::new(a[2])?, uv::exponential::Exponential::new(a[3])?];
    Mixture::new(a2(a, 0), c)
}
fn mix_n(a: &[f64]) -> Result<MixN, failure::Error> {
    let c = [uv::normal::Normal::new(a[3], a[4])?, uv::normal::Normal::new(a[5], a[6])?, uv::normal::Normal::new(a[7], a[8])?];
    Mixture::new(a3(a, 0), c)
}
type Ln2 = mv::lognormal::LogNormal<2, [[f64; 2]; 2]>;
type LnD = mv::lognormal::LogNormal<3, [f64; 3]>;
type LnI = mv::lognormal::LogNormal<3, f64>;
fn np<M, S>(m: M, s: S) -> normal::Params<M, S> { normal::Params { mu: rstat::params::Loc(m), Sigma: normal::Covariance(s) } }
fn loc_of<T: Debug>(x: T) -> Result<rstat::params::Loc<T>, failure::Error>
where
    UnsatisfiedConstraintError<T>: failure::Fail,
{
    Ok(rstat::params::Loc::new(x)?)
}

pub fn sets() -> Vec<Set> {
    vec![
        plain!("Arcsine", uv::arcsine, Arcsine, [Any Pos], |a| (a[0], a[1]), |p| (p.a.0, p.w.0)),
        plain!("Bernoulli", uv::bernoulli, Bernoulli, [Prob], |a| (a[0]), |p| (p.p.unwrap())),
        plain!("Beta", uv::beta, Beta, [Pos Pos], |a| (a[0], a[1]), |p| (p.alpha.0, p.beta.0)),
        plain!("BetaBinomial", uv::beta_binomial, BetaBinomial, [Nat Pos Pos], |a| (a[0] as usize, a[1], a[2]), |p| (p.n.0, p.alpha.0, p.beta.0)),
        plain!("BetaPrime", uv::beta_prime, BetaPrime, [Pos Pos], |a| (a[0], a[1]), |p| (p.alpha.0, p.beta.0)),
        {
            use uv::binomial::{Binomial, Params};
            set!("Binomial", [Nat Prob], Params, Binomial,
                |a| Params::new(a[0] as usize, a[1]), Params::new_unchecked(a[0] as usize, a[1]),
                match Probability::new(a[1]) { Ok(p) => Binomial::new(a[0] as usize, p), Err(e) => Err(e.into()) },
                |p| (p.n.0, p.p.unwrap()))
        },
        {
            use uv::categorical::{Categorical, Params};
            set!("Categorical", [Weight Weight Weight], Params<3>, Categorical<3>,
                |a| Params::new(a3(a, 0)), Params::new_unchecked(a3(a, 0)), Categorical::new(a3(a, 0)), |p| ((*p.ps)))
        },
        plain!("Cauchy", uv::cauchy, Cauchy, [Any Pos], |a| (a[0], a[1]), |p| (p.x0.0, p.gamma.0)),
        plain!("Chi", uv::chi, Chi, [NatPos], |a| (a[0] as usize), |p| (p.k.0)),
        plain!("ChiSq", uv::chi_sq, ChiSq, [NatPos], |a| (a[0] as usize), |p| (p.k.0)),
        plain!("Cosine", uv::cosine, Cosine, [Any Pos], |a| (a[0], a[1]), |p| (p.mu.0, p.s.0)),
        plain!("Erlang", uv::erlang, Erlang, [NatPos Pos], |a| (a[0] as usize, a[1]), |p| (p.k.0, p.lambda.0)),
        plain!("Exponential", uv::exponential, Exponential, [Pos], |a| (a[0]), |p| (p.lambda.0)),
        plain!("FDist", uv::f_dist, FDist, [NatPos NatPos], |a| (a[0] as usize, a[1] as usize), |p| (p.d1.0, p.d2.0)),
        plain!("FoldedNormal", uv::folded_normal, FoldedNormal, [Any Pos], |a| (a[0], a[1]), |p| (p.mu.0, p.sigma.0)),
        plain!("Frechet", uv::frechet, Frechet, [Pos], |a| (a[0]), |p| (p.alpha.0)),
        plain!("Gamma", uv::gamma, Gamma, [Pos Pos], |a| (a[0], a[1]), |p| (p.alpha.0, p.beta.0)),
        plain!("Geometric", uv::geometric, Geometric, [Prob], |a| (a[0]), |p| (p.p.unwrap())),
        plain!("GEV", uv::gev, GeneralisedExtremeValue, [Any Pos Pos], |a| (a[0], a[1], a[2]), |p| (p.mu.0, p.sigma.0, p.zeta.0)),
        plain!("GPD", uv::gpd, GeneralisedPareto, [Any Pos Pos], |a| (a[0], a[1], a[2]), |p| (p.mu.0, p.sigma.0, p.zeta.0)),
        plain!("Gumbel", uv::gumbel, Gumbel, [Any Pos], |a| (a[0], a[1]), |p| (p.mu.0, p.beta.0)),
        plain!("InvGamma", uv::inverse_gamma, InvGamma, [Pos Pos], |a| (a[0], a[1]), |p| (p.alpha.0, p.beta.0)),
        plain!("InvNormal", uv::inverse_normal, InvNormal, [Pos Pos], |a| (a[0], a[1]), |p| (p.mu.0, p.lambda.0)),
        {
            use uv::kumaraswamy::{Kumaraswamy, Params};
            set!("Kumaraswamy", [Pos Pos], Params, Kumaraswamy, |a| Params::new(a[0], a[1]), Params::new_unchecked(a[0], a[1]), Params::new(a[0], a[1]).map(Kumaraswamy::from), |p| (p.a.0, p.b.0))
        },
        plain!("Laplace", uv::laplace, Laplace, [Any Pos], |a| (a[0], a[1]), |p| (p.mu.0, p.b.0)),
        plain!("Levy", uv::levy, Levy, [Any Pos], |a| (a[0], a[1]), |p| (p.mu.0, p.c.0)),
        plain!("Logistic", uv::logistic, Logistic, [Any Pos], |a| (a[0], a[1]), |p| (p.mu.0, p.s.0)),
        plain!("Pareto", uv::pareto, Pareto, [Pos Pos], |a| (a[0], a[1]), |p| (p.x_m.0, p.alpha.0)),
        plain!("Poisson", uv::poisson, Poisson, [Pos], |a| (a[0]), |p| (p.lambda.0)),
        plain!("Rayleigh", uv::rayleigh, Rayleigh, [Pos], |a| (a[0]), |p| (p.sigma.0)),
        plain!("StudentT", uv::student_t, StudentT, [Pos], |a| (a[0]), |p| (p.nu.0)),
        plain!("Triangular", uv::triangular, Triangular, [Any Pos Pos], |a| (a[0], a[1], a[2]), |p| (p.a.0, p.a2c.0, p.c2b.0)),
        {
            use uv::weibull::{Weibull, Params};
            set!("Weibull", [Pos Pos], Params, Weibull, |a| Params::new(a[0], a[1]), Params::new_unchecked(a[0], a[1]), Params::new(a[0], a[1]).map(Weibull::from), |p| (p.lambda.0, p.k.0))
        },
        {
            use uv::uniform::{Params, Uniform};
            set!("Uniform<f64>", [Any Pos], Params<f64>, Uniform<f64>, |a| Params::<f64>::new(a[0], a[1]), Params::new_unchecked(a[0], a[1]),
                Uniform::<f64>::new(a[0], a[1]), |p| (p.lb.0, p.width.0))
        },
        {
            use uv::uniform::{Params, Uniform};
            set!("Uniform<i64>", [Int Width], Params<i64>, Uniform<i64>, |a| Params::<i64>::new(a[0] as i64, a[1] as i64), Params::new_unchecked(a[0] as i64, a[1] as i64),
                Uniform::<i64>::new(a[0] as i64, a[1] as u64), |p| (p.lb.0, p.width.0))
        },
        {
            use uv::normal::{Normal, Params};
            set!("Normal", [Any Pos], Params, Normal, |a| Params::new(a[0], a[1]), np(a[0], a[1]), Normal::new(a[0], a[1]), |p| (p.mu.0, p.Sigma.0))
        },
        {
            use uv::lognormal::{LogNormal, Params};
            set!("LogNormal", [Any Pos], Params, LogNormal, |a| Params::new(a[0], a[1]), np(a[0], a[1]), LogNormal::new(a[0], a[1]), |p| (p.mu.0, p.Sigma.0))
        },
        {
            use normal::{PairedNormal, PairedNormalParams as Params};
            set!("PairedNormal", [Any Any Pos Pos], Params, PairedNormal, |a| Params::paired(a2(a, 0), a2(a, 2)), np(a2(a, 0), a2(a, 2)),
                PairedNormal::new(a2(a, 0), a2(a, 2)), |p| (p.mu.0, p.Sigma.0))
        },
        {
            use bivariate::normal::{Normal, Params};
            set!("BvNormal", [Any Any Pos Pos Corr], Params, Normal, |a| Params::bivariate(a2(a, 0), a2(a, 2), a[4]), np(a2(a, 0), (a2(a, 2), a[4])),
                Normal::new(a2(a, 0), a2(a, 2), a[4]), |p| (p.mu.0, p.Sigma.0))
        },
        {
            use mv::normal::{Normal, Params};
            set!("MvNormal<2>", [Any Any Cov Cov Cov Cov], Params<2>, Normal<2>, |a| Params::<2>::multivariate(a2(a, 0), m2(a, 2)), np(a2(a, 0), m2(a, 2)),
                Normal::<2>::new(a2(a, 0), m2(a, 2)), |p| (p.mu.0, p.Sigma.0))
        },
        {
            use mv::normal::{Normal, Params};
            set!("MvNormal<3>", [Any Any Any Cov Cov Cov Cov Cov Cov Cov Cov Cov], Params<3>, Normal<3>, |a| Params::<3>::multivariate(a3(a, 0), m3(a, 3)), np(a3(a, 0), m3(a, 3)),
                Normal::<3>::new(a3(a, 0), m3(a, 3)), |p| (p.mu.0, p.Sigma.0))
        },
        {
            use mv::normal::{DiagonalNormal, DiagonalNormalParams as Params};
            set!("DiagonalNormal", [Any Any Any Pos Pos Pos], Params<3>, DiagonalNormal<3>, |a| Params::<3>::diagonal(a3(a, 0), a3(a, 3)), np(a3(a, 0), a3(a, 3)),
                DiagonalNormal::<3>::diagonal(a3(a, 0), a3(a, 3)), |p| (p.mu.0, p.Sigma.0))
        },
        {
            use mv::normal::{IsotropicNormal, IsotropicNormalParams as Params};
            set!("IsotropicNormal", [Any Any Any Pos], Params<3>, IsotropicNormal<3>, |a| Params::<3>::isotropic(a3(a, 0), a[3]), np(a3(a, 0), a[3]),
                IsotropicNormal::<3>::isotropic(a3(a, 0), a[3]), |p| (p.mu.0, p.Sigma.0))
        },
        {
            use mv::normal::{IsotropicNormal, IsotropicNormalParams as Params};
            set!("IsotropicNormal homogeneous", [Any Pos], Params<1>, IsotropicNormal<1>, |a| Params::<1>::homogeneous(a[0], a[1]), np([a[0]], a[1]),
                IsotropicNormal::<1>::homogeneous(a[0], a[1]), |p| (p.mu.0, p.Sigma.0))
        },
        set!("mv LogNormal dense", [Any Any Cov Cov Cov Cov], mv::normal::Params<2>, Ln2, |a| mv::normal::Params::<2>::multivariate(a2(a, 0), m2(a, 2)), np(a2(a, 0), m2(a, 2)),
            Ln2::new(a2(a, 0), m2(a, 2)), |p| (p.mu.0, p.Sigma.0)),
        set!("mv LogNormal diagonal", [Any Any Any Pos Pos Pos], mv::normal::DiagonalNormalParams<3>, LnD, |a| mv::normal::DiagonalNormalParams::<3>::diagonal(a3(a, 0), a3(a, 3)),
            np(a3(a, 0), a3(a, 3)), LnD::diagonal(a3(a, 0), a3(a, 3)), |p| (p.mu.0, p.Sigma.0)),
        set!("mv LogNormal isotropic", [Any Any Any Pos], mv::normal::IsotropicNormalParams<3>, LnI, |a| mv::normal::IsotropicNormalParams::<3>::isotropic(a3(a, 0), a[3]),
            np(a3(a, 0), a[3]), LnI::isotropic(a3(a, 0), a[3]), |p| (p.mu.0, p.Sigma.0)),
        set!("Dirichlet", [Pos Pos Pos], Concentrations<3>, mv::dirichlet::Dirichlet<3>, |a| Concentrations::new(a3(a, 0)), Concentrations(a3(a, 0)),
            mv::dirichlet::Dirichlet::new(a3(a, 0)), |p| (p.0)),
        {
            use mv::multinomial::{Multinomial, Params};
            set!("Multinomial", [Nat Weight Weight Weight], Params<3>, Multinomial<3>, |a| Params::new(a[0] as usize, a3(a, 1)), Params::new_unchecked(a[0] as usize, a3(a, 1)),
                Multinomial::new(a[0] as usize, a3(a, 1)), |p| (p.n.0, (*p.ps)))
        },
        {
            use uv::degenerate::Degenerate;
            set!("Degenerate<f64>", [Any], rstat::params::Loc<f64>, Degenerate<f64>, |a| loc_of(a[0]), rstat::params::Loc(a[0]),
                Ok::<_, failure::Error>(Degenerate::<f64>::new(a[0])), |p| (p.0))
        },
        set!("Mixture<Exponential>", [Weight Weight Pos Pos], PMixE, MixE, |a| mix_e(a).map(|m| m.params()), mix_e(a).unwrap().params(), mix_e(a),
            |p| ((*p.ps), p.component_params.iter().map(|c| c.lambda.0).collect::<Vec<f64>>())),
        set!("Mixture<Normal>", [Weight Weight Weight Any Pos Any Pos Any Pos], PMixN, MixN, |a| mix_n(a).map(|m| m.params()), mix_n(a).unwrap().params(), mix_n(a),
            |p| ((*p.ps), p.component_params.iter().map(|c| (c.mu.0, c.Sigma.0)).collect::<Vec<(f64, f64)>>())),
    ]
}

// --- C11 -----------------------------------------------------------------------------------

/// A decision and what is wrong with it.
fn decide(s: &Set, a: &[f64], door: usize) -> Option<bool> {
    let f = if door == 0 { s.params } else { s.dist };
    let how = if door == 0 { "parameter set" } else { "distribution" };
    let must = admits(s.kinds, a);
    // a matrix is only factored when it can be
    set_label(s.name);
    match sut(s.name, || f(a)) {
        Ok(Ok(got)) => {
            check(must != Some(false), || format!("{}: {} admitted invalid arguments", s.name, how), || format!("{:?}", a));
            check(bits(&got) == bits(a), || format!("{}: {} holds other values", s.name, how), || format!("{:?} became {:?}", a, got));
            Some(true)
        },
        Ok(Err(e)) => {
            check(must != Some(true), || format!("{}: {} refused valid arguments", s.name, how), || format!("{:?}: {}", a, e));
            fault("refused-arguments");
            Some(false)
        },
        Err(c) => {
            violation(&format!("{}: {} constructor panicked", s.name, how), format!("{:?}: {:?}", a, c));
            None
        },
    }
}

/// One of the sets.
pub fn any_set() -> Set {
    let mut all = sets();
    let i = choose(all.len());
    all.swap_remove(i)
}

/// Decisions in sequence, against the documented constraints.
pub fn c11_sets() {
    simblas::set_backend(choose(simblas::KINDS));
    let all = sets();
    let mut past: Vec<(usize, Vec<f64>, usize, bool)> = vec![];
    for _ in 0..12 {
        let i = choose(all.len());
        let s = &all[i];
        let a = any_args(s.kinds);
        let matrix = side(s.kinds) > 0;
        // dense distributions factor what they are given: their own definiteness is C16's business
        let door = if matrix && !definite(s.kinds, &a) { 0 } else { choose(2) };
        log!("{} {:?} door {}", s.name, a, door);
        state(mix(hash_bytes(s.name.as_bytes()), door as u64));
        let Some(d) = decide(s, &a, door) else { continue };
        note(d as u64);
        past.push((i, a, door, d));
        if chance(1, 2) {
            // the same question again, through either door
            let (i, a, door, d) = past[choose(past.len())].clone();
            let other = if side(all[i].kinds) > 0 { door } else { choose(2) };
            if let Some(e) = decide(&all[i], &a, other) {
                check(d == e, || format!("{}: decided differently later", all[i].name), || format!("{:?}: {} then {}", a, d, e));
            }
        }
    }
}
pub fn definite(kinds: &[K], a: &[f64]) -> bool {
    let n = side(kinds);
    let at = kinds.iter().position(|k| *k == Cov).unwrap();
    let m = &a[at..at + n * n];
    m.iter().all(|x| x.is_finite()) && (0..n).all(|i| (0..n).all(|j| m[i * n + j] == m[j * n + i])) && (0..n).all(|i| m[i * n + i] > (0..n).filter(|j| *j != i).map(|j| m[i * n + j].abs()).sum::<f64>())
}

/// Several clients decide at once.
pub fn c11_clients() {
    let all = Arc::new(sets());
    let questions: Arc<Vec<(usize, Vec<f64>, usize)>> = Arc::new(
        (0..6)
            .map(|_| {
                let i = choose(all.len());
                let a = any_args(all[i].kinds);
                let door = if side(all[i].kinds) > 0 { 0 } else { choose(2) };
                (i, a, door)
            })
            .collect(),
    );
    let out: Arc<Mutex<Vec<(usize, bool)>>> = Arc::default();
    let mut work: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..2 + choose(3) {
        let (all, questions, out) = (all.clone(), questions.clone(), out.clone());
        let order: Vec<usize> = (0..4 + choose(6)).map(|_| choose(questions.len())).collect();
        work.push(Box::new(move || {
            for q in order {
                let (i, a, door) = &questions[q];
                if let Some(d) = decide(&all[*i], a, *door) {
                    out.lock().unwrap().push((q, d));
                }
            }
        }));
    }
    run_clients(any_scale(), work);
    fault("client-interleaving");
    let mut first = vec![None; questions.len()];
    for (q, d) in out.lock().unwrap().iter() {
        let f = first[*q].get_or_insert(*d);
        check(f == d, || format!("{}: decided differently among clients", all[questions[*q].0].name), || format!("{:?}", questions[*q].1));
    }
}

/// The list of constraints decides as the constructor does.
fn agree<P, E: Debug>(name: &str, v: P::Value, new: impl FnOnce(P::Value) -> Result<P, E>)
where
    P: Param,
    P::Value: Clone + Debug,
{
    set_label(name);
    let w = v.clone();
    let (Ok(list), Ok(direct)) = (sut(name, || P::constraints().iter().map(|c| c.is_satisfied_by(&w)).collect::<Vec<bool>>()), sut(name, || new(v.clone()).is_ok())) else {
        return violation(&format!("{}: deciding panicked", name), format!("{:?}", v));
    };
    check(list.iter().all(|x| *x) == direct, || format!("{}: constraints() and the constructor disagree", name), || format!("{:?}: {:?} and {}", v, list, direct));
    note(direct as u64);
}
fn edge() -> f64 { if chance(1, 2) { *pick(&EDGES) } else { uniform(-2.0, 2.0) } }
fn pos_or_edge() -> f64 { if chance(3, 4) { log_uniform(1e-3, 1e3) } else { edge() } }

pub fn c11_lists() {
    use normal::Covariance;
    use rstat::params::*;
    for _ in 0..12 {
        match choose(16) {
            0 => agree("Probability", edge(), Probability::new),
            1 => agree("Corr", edge(), rstat::params::Corr::new),
            2 => agree::<Covariance<f64>, _>("Covariance::isotropic", pos_or_edge(), Covariance::isotropic),
            3 => agree::<Covariance<[f64; 3]>, _>("Covariance::diagonal", [pos_or_edge(), pos_or_edge(), pos_or_edge()], Covariance::<[f64; 3]>::diagonal),
            4 => agree::<Covariance<[f64; 2]>, _>("Covariance::paired", [pos_or_edge(), pos_or_edge()], Covariance::paired),
            5 => agree::<Covariance<([f64; 2], f64)>, _>("Covariance::bivariate", ([pos_or_edge(), pos_or_edge()], edge()), |v| Covariance::bivariate(v.0, v.1)),
            6 => {
                let mut m = [[0.0; 2]; 2];
                m.iter_mut().flatten().for_each(|x| *x = pos_or_edge());
                agree::<Covariance<[[f64; 2]; 2]>, _>("Covariance::matrix", m, Covariance::<[[f64; 2]; 2]>::matrix)
            },
            7 | 8 => {
                let mut w = crate::zoo::dyadic_simplex::<3>();
                match choose(4) {
                    0 => w[choose(3)] += uniform(-3e-5, 3e-5),
                    1 => w[choose(3)] = edge(),
                    2 => {
                        let d = *pick(&[1e-9, 0.5, 1e-3, 2.0]);
                        w[0] += d;
                        w[1] -= d;
                    },
                    _ => {},
                }
                agree("SimplexVector", w, SimplexVector::new)
            },
            9 => agree("Concentrations", [pos_or_edge(), pos_or_edge(), pos_or_edge()], Concentrations::new),
            10 => agree("Scale", pos_or_edge(), Scale::new),
            11 => agree("Rate", pos_or_edge(), Rate::new),
            12 => agree("Shape", vec![pos_or_edge(); choose(4)], Shape::new),
            13 => agree("DOF", choose(3), DOF::new),
            14 => agree("Count", edge(), Count::new),
            _ => agree("Loc", edge(), Loc::new),
        }
    }
    // a covariance matrix must be positive semi-definite
    let r = *pick(&[1.0 + 1e-6, 1.5, 2.0, 100.0]);
    let (m, class) = if chance(1, 2) {
        ([[1.0, r], [r, 1.0]], "Covariance::matrix: admitted an indefinite matrix")
    } else {
        ([[1.0, 0.0], [0.5, 1.0]], "Covariance::matrix: admitted an asymmetric matrix")
    };
    let out = sut("Covariance::matrix", || Covariance::<[[f64; 2]; 2]>::matrix(m).is_ok());
    check(out == Ok(false), || class.into(), || format!("{:?}", m));
}

// --- C13, C14 ------------------------------------------------------------------------------

fn one_stored_set(all: &[Set], damage: bool) {
    let s = &all[choose(all.len())];
    // a mixture is built from distributions: all of its arguments have to be usable
    let mild = s.name.starts_with("Mixture") || side(s.kinds) > 0 || chance(2, 3);
    let a = valid(s.kinds, mild);
    log!("{} {:?}", s.name, a);
    state(mix(hash_bytes(s.name.as_bytes()), damage as u64));
    (s.store)(&a, if damage { Mode::Damage } else { Mode::Store });
}
fn one_value(damage: bool) {
    fn vec_bits<T: AsRef<[f64]>>(x: &T) -> Vec<u64> { bits(x.as_ref()) }
    fn go<T: Serialize + DeserializeOwned + Debug>(name: &str, x: T, key: &dyn Fn(&T) -> Vec<u64>, admit: &dyn Fn(&T) -> Result<(), String>, fixed: bool, damage: bool) {
        set_label(name);
        log!("{} {:?}", name, x);
        state(mix(hash_bytes(name.as_bytes()), damage as u64));
        if damage {
            if fixed && chance(1, 4) {
                wrong_length(name, &x);
            } else {
                damaged(name, &x, true, admit);
            }
        } else {
            let want = key(&x);
            roundtrip(name, &x, true, &|y: &T| if key(y) == want { Ok(()) } else { Err(format!("wrote {:?}, read {:?}", x, y)) });
        }
    }
    fn bad(b: bool, y: &dyn Debug) -> Result<(), String> {
        if b { Ok(()) } else { Err(format!("{:?}", y)) }
    }
    macro_rules! simplex {
        ($n:literal) => {
            go(
                concat!("SimplexVector<", $n, ">"),
                SimplexVector::<$n>::new_unchecked(crate::zoo::dyadic_simplex::<$n>()),
                &|x| bits(&x[..]),
                &|y: &SimplexVector<$n>| bad(y.iter().all(|p| (0.0..=1.0).contains(p)) && (y.iter().sum::<f64>() - 1.0).abs() < 1e-3 && SimplexVector::new(y.clone().unwrap()).is_ok(), y),
                true,
                damage,
            )
        };
    }
    use normal::Covariance;
    let p = |mild| good(Pos, mild);
    match choose(12) {
        0 | 1 => go("Probability", Probability::new_unchecked(good(Prob, true)), &|x| bits(&[x.unwrap()]), &|y| bad((0.0..=1.0).contains(&y.unwrap()), y), false, damage),
        2 => simplex!(1),
        3 => simplex!(2),
        4 => simplex!(5),
        5 => simplex!(33),
        6 => go("Covariance<f64>", Covariance(p(true)), &|x: &Covariance<f64>| bits(&[x.0]), &|y| bad(y.0 > 0.0, y), false, damage),
        7 => go("Covariance<[f64; 3]>", Covariance([p(true), p(true), p(true)]), &|x: &Covariance<[f64; 3]>| vec_bits(&x.0), &|y| bad(y.0.iter().all(|v| *v > 0.0), y), true, damage),
        8 => go(
            "Covariance<([f64; 2], f64)>",
            Covariance(([p(true), p(true)], good(Corr, true))),
            &|x: &Covariance<([f64; 2], f64)>| bits(&[x.0 .0[0], x.0 .0[1], x.0 .1]),
            &|y| bad(y.0 .0.iter().all(|v| *v > 0.0) && (-1.0..=1.0).contains(&y.0 .1), y),
            true,
            damage,
        ),
        9 => go(
            "Covariance<[[f64; 2]; 2]>",
            Covariance([[p(true), 0.25], [0.25, p(true)]]),
            &|x: &Covariance<[[f64; 2]; 2]>| x.0.iter().flat_map(|r| bits(r)).collect(),
            &|y| bad(y.0.iter().flatten().all(|v| v.is_finite()) && y.0[0][0] >= 0.0 && y.0[1][1] >= 0.0, y),
            true,
            damage,
        ),
        10 => go("normal::Grad", normal::Grad { mu: [good(Any, true), 1.5], Sigma: [[0.5, -1.0], [0.0, good(Any, true)]] }, &|x: &normal::Grad<[f64; 2], [[f64; 2]; 2]>| x.mu.iter().chain(x.Sigma.iter().flatten()).map(|v| v.to_bits()).collect(), &|_| Ok(()), true, damage),
        _ => go("Concentrations<33>", Concentrations::<33>(std::array::from_fn(|_| p(true))), &|x| vec_bits(&x.0), &|y| bad(y.0.iter().all(|v| *v > 0.0), y), true, damage),
    }
}
fn many(damage: bool) {
    simblas::set_backend(choose(simblas::KINDS));
    let all = sets();
    for _ in 0..4 {
        if chance(1, 4) {
            one_value(damage);
        } else {
            one_stored_set(&all, damage);
        }
    }
}
pub fn c13_sets() { many(false) }
pub fn c14_sets() { many(true) }

fn clients(damage: bool) {
    let mut work: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..2 + choose(2) {
        work.push(Box::new(move || {
            let all = callback(sets);
            for _ in 0..2 {
                if chance(1, 3) {
                    one_value(damage);
                } else {
                    one_stored_set(&all, damage);
                }
            }
        }));
    }
    run_clients(any_scale(), work);
    fault("client-interleaving");
}
pub fn c13_clients() { clients(false) }
pub fn c14_clients() { clients(true) }
