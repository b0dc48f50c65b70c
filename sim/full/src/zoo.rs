//! Every distribution of the crate behind one object-safe face, with swarmed parameters.
use rand::RngCore;
use rstat::statistics::{FisherInformation, Modes, MvMoments, Quantiles, ShannonEntropy, UvMoments};
use rstat::univariate as uv;
use rstat::{
    bivariate, fitting, multivariate as mv, normal, ContinuousDistribution, DiscreteDistribution, Distribution, Mixture, Probability,
    Sample, SimplexVector,
};
use simcore::kit::Render;
use simcore::rng::SimRng;
use simcore::*;
use spaces::Space;
use std::fmt::{self, Debug, Display};
use std::sync::Arc;

/// Values drawn from distributions, seen as lists of numbers.
pub trait Val: Clone + Debug + 'static {
    const UNSIGNED: bool;
    fn put(&self, out: &mut Vec<f64>);
    fn get(x: &[f64]) -> Self;
}
impl Val for f64 {
    const UNSIGNED: bool = false;
    fn put(&self, out: &mut Vec<f64>) { out.push(*self) }
    fn get(x: &[f64]) -> f64 { x[0] }
}
impl Val for bool {
    const UNSIGNED: bool = true;
    fn put(&self, out: &mut Vec<f64>) { out.push(*self as u8 as f64) }
    fn get(x: &[f64]) -> bool { x[0] != 0.0 }
}
macro_rules! int_val {
    ($($t:ty)*) => {$(impl Val for $t {
        const UNSIGNED: bool = <$t>::MIN == 0;
        fn put(&self, out: &mut Vec<f64>) { out.push(*self as f64) }
        fn get(x: &[f64]) -> $t { x[0] as $t }
    })*}
}
int_val!(i64 u64 usize);
impl<T: Val, const N: usize> Val for [T; N] {
    const UNSIGNED: bool = T::UNSIGNED;
    fn put(&self, out: &mut Vec<f64>) { self.iter().for_each(|v| v.put(out)) }
    fn get(x: &[f64]) -> [T; N] {
        let k = x.len() / N.max(1);
        std::array::from_fn(|i| T::get(&x[i * k..(i + 1) * k]))
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Arg<'a> {
    None,
    X(&'a [f64]),
    P(f64),
    Data(&'a [Vec<f64>]),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Takes {
    Nothing,
    Point,
    Prob,
    Data,
}
pub struct Query {
    pub name: &'static str,
    pub takes: Takes,
    f: Box<dyn Fn(&Arg) -> Vec<f64> + Send + Sync>,
}

/// What a query answered.
#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Val(Vec<f64>),
    /// documented: the quantity does not exist
    Undefined,
    /// not written yet
    Missing,
    Panic(Caught),
}
impl Ans {
    pub fn bits(&self) -> Vec<u64> {
        match self {
            Ans::Val(v) => v.iter().map(|x| x.to_bits()).collect(),
            Ans::Undefined => vec![1, 1],
            Ans::Missing => vec![1, 2],
            Ans::Panic(c) => vec![1, 3, hash_bytes(panic_site(c).as_bytes())],
        }
    }
}

pub struct Obj {
    pub fam: &'static str,
    pub name: String,
    pub dim: usize,
    pub disc: bool,
    /// values are of an unsigned type
    pub unsigned: bool,
    /// E|X|^k is finite for k below this
    pub finite: f64,
    /// highest moment whose estimate from a history is reliable
    pub light: u32,
    pub sampler: bool,
    pub weights: Vec<f64>,
    pub parts: Vec<Arc<Obj>>,
    pub queries: Vec<Query>,
    pub texts: Vec<(&'static str, Render)>,
    pub bounds: (Option<f64>, Option<f64>),
    /// largest value with any weight, where that is below the end of the declared support
    pub top: Option<f64>,
    draw: Box<dyn Fn(&mut SimRng, usize, &mut Vec<f64>) + Send + Sync>,
    draw_n: Box<dyn Fn(&mut SimRng, usize, &mut Vec<f64>) -> usize + Send + Sync>,
    draw_iter: Box<dyn Fn(&mut SimRng, usize, &mut Vec<f64>) + Send + Sync>,
    contains: Box<dyn Fn(&[f64]) -> bool + Send + Sync>,
    again: Box<dyn Fn(bool) -> Obj + Send + Sync>,
}

pub trait Dist: Distribution + Clone + Debug + Send + Sync + 'static {}
impl<D: Distribution + Clone + Debug + Send + Sync + 'static> Dist for D {}

fn add<D: Dist>(o: &mut Obj, d: &Arc<D>, name: &'static str, takes: Takes, f: impl Fn(&D, &Arg) -> Vec<f64> + Send + Sync + 'static) {
    let d = d.clone();
    o.queries.push(Query { name, takes, f: Box::new(move |a| f(&d, a)) });
}

fn x_of<V: Val>(a: &Arg) -> V {
    match a {
        Arg::X(x) => callback(|| V::get(x)),
        _ => unreachable!(),
    }
}
fn p_of(a: &Arg) -> Probability {
    match a {
        Arg::P(p) => Probability::new_unchecked(*p),
        _ => unreachable!(),
    }
}
fn data_of<V: Val>(a: &Arg) -> Vec<V> {
    match a {
        Arg::Data(xs) => callback(|| xs.iter().map(|x| V::get(x)).collect()),
        _ => unreachable!(),
    }
}

/// Fits a text into a hash, without allocation tracking of the code under test.
fn text_hash(t: &dyn Debug) -> Vec<f64> {
    struct H(u64);
    impl fmt::Write for H {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            for b in s.bytes() {
                self.0 = (self.0 ^ b as u64).wrapping_mul(0x100_0000_01b3);
            }
            Ok(())
        }
    }
    let mut h = H(0xcbf2_9ce4_8422_2325);
    let _ = fmt::write(&mut h, format_args!("{:?}", t));
    vec![(h.0 >> 12) as f64]
}

pub fn build<D: Dist>(fam: &'static str, d: D, caps: fn(&mut Obj, &Arc<D>)) -> Obj
where
    Sample<D>: Val,
    D::Params: Debug,
    D::Support: Debug,
{
    let d = Arc::new(d);
    let (a, b, c, e, g) = (d.clone(), d.clone(), d.clone(), d.clone(), d.clone());
    let mut o = Obj {
        fam,
        name: format!("{:?}", d),
        dim: 1,
        disc: false,
        unsigned: <Sample<D> as Val>::UNSIGNED,
        finite: f64::INFINITY,
        light: 4,
        sampler: true,
        weights: vec![],
        parts: vec![],
        top: None,
        queries: vec![],
        texts: vec![],
        bounds: (None, None),
        draw: Box::new(move |rng, n, out| {
            for _ in 0..n {
                let x = a.sample(rng);
                callback(|| x.put(out));
            }
        }),
        draw_n: Box::new(move |rng, n, out| {
            let xs = b.sample_n(rng, n);
            callback(|| xs.iter().for_each(|x| x.put(out)));
            xs.len()
        }),
        draw_iter: Box::new(move |rng, n, out| {
            for x in c.sample_iter(rng).take(n) {
                callback(|| x.put(out));
            }
        }),
        contains: Box::new(move |x| e.support().contains(&Val::get(x))),
        again: Box::new(move |rebuild| {
            let copy: D = if rebuild { D::from(g.params()) } else { (*g).clone() };
            callback(|| build(fam, copy, caps))
        }),
    };
    add(&mut o, &d, "params", Takes::Nothing, |d, _| text_hash(&d.params()));
    add(&mut o, &d, "support", Takes::Nothing, |d, _| text_hash(&d.support()));
    add(&mut o, &d, "cdf", Takes::Point, |d, a| vec![d.cdf(&x_of(a)).unwrap()]);
    add(&mut o, &d, "ccdf", Takes::Point, |d, a| vec![d.ccdf(&x_of(a)).unwrap()]);
    add(&mut o, &d, "log_cdf", Takes::Point, |d, a| vec![d.log_cdf(&x_of(a))]);
    add(&mut o, &d, "log_ccdf", Takes::Point, |d, a| vec![d.log_ccdf(&x_of(a))]);
    let t = d.clone();
    o.texts.push(("Debug", Arc::new(move |w: &mut dyn fmt::Write| write!(w, "{:?}", t))));
    caps(&mut o, &d);
    o
}

pub fn cont<D: Dist + ContinuousDistribution>(o: &mut Obj, d: &Arc<D>)
where
    Sample<D>: Val,
{
    add(o, d, "pdf", Takes::Point, |d, a| vec![d.pdf(&x_of(a))]);
    add(o, d, "log_pdf", Takes::Point, |d, a| vec![d.log_pdf(&x_of(a))]);
}
pub fn disc<D: Dist + DiscreteDistribution>(o: &mut Obj, d: &Arc<D>)
where
    Sample<D>: Val,
{
    o.disc = true;
    add(o, d, "pmf", Takes::Point, |d, a| vec![d.pmf(&x_of(a)).unwrap()]);
    add(o, d, "log_pmf", Takes::Point, |d, a| vec![d.log_pmf(&x_of(a))]);
}
pub fn moments<D: Dist + UvMoments>(o: &mut Obj, d: &Arc<D>) {
    add(o, d, "mean", Takes::Nothing, |d, _| vec![d.mean()]);
    add(o, d, "variance", Takes::Nothing, |d, _| vec![d.variance()]);
    add(o, d, "standard_deviation", Takes::Nothing, |d, _| vec![d.standard_deviation()]);
    add(o, d, "skewness", Takes::Nothing, |d, _| vec![d.skewness()]);
    add(o, d, "kurtosis", Takes::Nothing, |d, _| vec![d.kurtosis()]);
    add(o, d, "excess_kurtosis", Takes::Nothing, |d, _| vec![d.excess_kurtosis()]);
}
pub fn quantiles<D: Dist + Quantiles>(o: &mut Obj, d: &Arc<D>) {
    add(o, d, "quantile", Takes::Prob, |d, a| vec![d.quantile(p_of(a))]);
    add(o, d, "cquantile", Takes::Prob, |d, a| vec![d.cquantile(p_of(a))]);
    add(o, d, "lower_quartile", Takes::Nothing, |d, _| vec![d.lower_quartile()]);
    add(o, d, "median", Takes::Nothing, |d, _| vec![d.median()]);
    add(o, d, "upper_quartile", Takes::Nothing, |d, _| vec![d.upper_quartile()]);
    add(o, d, "iqr", Takes::Nothing, |d, _| vec![d.iqr()]);
    add(o, d, "lower_fence", Takes::Nothing, |d, _| vec![d.lower_fence()]);
    add(o, d, "upper_fence", Takes::Nothing, |d, _| vec![d.upper_fence()]);
}
pub fn modes<D: Dist + Modes>(o: &mut Obj, d: &Arc<D>)
where
    Sample<D>: Val,
{
    add(o, d, "modes", Takes::Nothing, |d, _| {
        let m = d.modes();
        callback(|| {
            let mut out = vec![];
            m.iter().for_each(|x| x.put(&mut out));
            out
        })
    });
}
pub fn entropy<D: Dist + ShannonEntropy>(o: &mut Obj, d: &Arc<D>) {
    add(o, d, "shannon_entropy", Takes::Nothing, |d, _| vec![d.shannon_entropy()]);
}
pub fn fisher<D: Dist + FisherInformation<N>, const N: usize>(o: &mut Obj, d: &Arc<D>) {
    add(o, d, "fisher_information", Takes::Nothing, |d, _| d.fisher_information().iter().flatten().copied().collect());
}
pub fn mvm<D: Dist + MvMoments<N>, const N: usize>(o: &mut Obj, d: &Arc<D>) {
    o.dim = N;
    add(o, d, "mean", Takes::Nothing, |d, _| d.mean().to_vec());
    add(o, d, "variance", Takes::Nothing, |d, _| d.variance().to_vec());
    add(o, d, "covariance", Takes::Nothing, |d, _| d.covariance().iter().flatten().copied().collect());
    add(o, d, "correlation", Takes::Nothing, |d, _| d.correlation().iter().flatten().copied().collect());
    add(o, d, "dimensionality", Takes::Nothing, |d, _| vec![d.dimensionality() as f64]);
}
pub fn likelihood<D: Dist + fitting::Likelihood>(o: &mut Obj, d: &Arc<D>)
where
    Sample<D>: Val,
{
    add(o, d, "likelihood", Takes::Data, |d, a| vec![d.likelihood(&data_of::<Sample<D>>(a))]);
    add(o, d, "log_likelihood", Takes::Data, |d, a| vec![d.log_likelihood(&data_of::<Sample<D>>(a))]);
}
pub trait Flat {
    fn flat(&self) -> Vec<f64>;
}
impl Flat for uv::normal::Grad {
    fn flat(&self) -> Vec<f64> { vec![self.mu, self.Sigma] }
}
impl Flat for normal::PairedNormalGrad {
    fn flat(&self) -> Vec<f64> { vec![self.mu[0], self.mu[1], self.Sigma[0], self.Sigma[1]] }
}
impl Flat for uv::bernoulli::Grad {
    fn flat(&self) -> Vec<f64> { vec![self.p] }
}
impl Flat for uv::poisson::Grad {
    fn flat(&self) -> Vec<f64> { vec![self.lambda] }
}
impl Flat for uv::beta::Grad {
    fn flat(&self) -> Vec<f64> { vec![self.alpha, self.beta] }
}
impl Flat for uv::gamma::Grad {
    fn flat(&self) -> Vec<f64> { vec![self.alpha, self.beta] }
}
pub fn score<D: Dist + fitting::Score>(o: &mut Obj, d: &Arc<D>)
where
    Sample<D>: Val,
    D::Grad: Flat,
{
    add(o, d, "score", Takes::Data, |d, a| d.score(&data_of::<Sample<D>>(a)).flat());
}
pub fn display<D: Dist + Display>(o: &mut Obj, d: &Arc<D>) {
    let (a, b) = (d.clone(), d.clone());
    o.texts.push(("Display", Arc::new(move |w: &mut dyn fmt::Write| write!(w, "{}", a))));
    o.texts.push(("Display#", Arc::new(move |w: &mut dyn fmt::Write| write!(w, "{:#}", b))));
}
pub fn bounds<D: Dist, T: Into<f64>>(o: &mut Obj, d: &Arc<D>)
where
    D::Support: spaces::OrderedSpace<Value = T>,
{
    use spaces::OrderedSpace;
    let s = d.support();
    o.bounds = (s.inf().map(|x| x.into()), s.sup().map(|x| x.into()));
}

impl Obj {
    pub fn query(&self, name: &str) -> Option<&Query> { self.queries.iter().find(|q| q.name == name) }
    pub fn ask_q(&self, q: &Query, a: &Arg) -> Ans {
        set_label_parts(self.fam, q.name);
        match sut_quiet(|| (q.f)(a)) {
            Ok(v) => Ans::Val(v),
            Err(c) => match &c {
                Caught::Panic(m) if m.starts_with("not implemented") || m.starts_with("not yet implemented") => Ans::Missing,
                Caught::Panic(m) if m.starts_with("quantity undefined") => Ans::Undefined,
                _ => Ans::Panic(c),
            },
        }
    }
    /// None: no such query, or not written.
    pub fn ask(&self, name: &str, a: Arg) -> Option<Ans> {
        let q = self.query(name)?;
        match self.ask_q(q, &a) {
            Ans::Missing => None,
            x => Some(x),
        }
    }
    /// A number, if the query exists and gave one; reports a panic as a violation.
    pub fn num(&self, name: &str, a: Arg) -> Option<f64> {
        match self.ask(name, a)? {
            Ans::Val(v) => Some(v[0]),
            Ans::Undefined | Ans::Missing => None,
            Ans::Panic(c) => {
                violation(&format!("{}: {} panicked", self.fam, name), format!("{} at {:?}: {:?}", self.name, a, c));
                None
            },
        }
    }
    pub fn vec(&self, name: &str, a: Arg) -> Option<Vec<f64>> {
        match self.ask(name, a)? {
            Ans::Val(v) => Some(v),
            Ans::Undefined | Ans::Missing => None,
            Ans::Panic(c) => {
                violation(&format!("{}: {} panicked", self.fam, name), format!("{} at {:?}: {:?}", self.name, a, c));
                None
            },
        }
    }
    pub fn contains(&self, x: &[f64]) -> bool { (self.contains)(x) }
    /// Draw n values through one of the doors: 0 sample, 1 sample_n, 2 sample_iter.
    pub fn draw(&self, door: usize, rng: &mut SimRng, n: usize, out: &mut Vec<f64>) -> Result<usize, Caught> {
        set_label_parts(self.fam, "draw");
        sut_quiet(|| match door {
            0 => {
                (self.draw)(rng, n, out);
                n
            },
            1 => (self.draw_n)(rng, n, out),
            _ => {
                (self.draw_iter)(rng, n, out);
                n
            },
        })
    }
    /// A copy: by clone or by rebuilding it from its parameters.
    pub fn again(&self, rebuild: bool) -> Result<Obj, Caught> {
        sut_quiet(|| (self.again)(rebuild)).map(|mut o| {
            o.finite = self.finite;
            o.light = self.light;
            o.sampler = self.sampler;
            o.weights = self.weights.clone();
            o.top = self.top;
            o.parts = self.parts.clone();
            o
        })
    }
    pub fn facts(mut self, finite: f64, light: u32) -> Obj {
        self.finite = finite;
        self.light = light;
        self
    }
    fn stub(mut self) -> Obj {
        self.sampler = false;
        self
    }
    /// The highest moment order that can be estimated.
    pub fn order(&self) -> u32 {
        let mut k = 0;
        while k < self.light && self.finite > 4.0 * (k + 1) as f64 {
            k += 1;
        }
        k
    }
}

pub const DOORS: [&str; 3] = ["sample", "sample_n", "sample_iter"];

// --- parameters ----------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reg {
    /// moderate: statistics of draws are meaningful
    Tame,
    /// anything the constructors admit
    Wild,
}
use Reg::*;

/// Moderate parameters are wanted from a wider range.
pub static FAR: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn far(r: Reg) -> bool { r == Tame && FAR.load(std::sync::atomic::Ordering::Relaxed) && chance(2, 3) }

pub fn shape(r: Reg) -> f64 {
    match r {
        Tame if far(r) => log_uniform(0.1, 2000.0),
        Tame => match choose(5) {
            0 => *pick(&[1.0, 2.0, 0.5, 3.0, 1.5]),
            1 => uniform(0.3, 1.0),
            2 => uniform(1.0, 3.0),
            _ => log_uniform(0.3, 40.0),
        },
        Wild => match choose(4) {
            0 => *pick(&[1.0, 2.0, 0.5, 1e-2, 100.0, 1.0 + 1e-12, 1.0 - 1e-12]),
            1 => log_uniform(1e-2, 1.0),
            _ => log_uniform(0.05, 1e4),
        },
    }
}
pub fn scale(r: Reg) -> f64 {
    match r {
        Tame if far(r) => log_uniform(1e-2, 1e6),
        Tame => {
            if chance(1, 3) {
                1.0
            } else {
                log_uniform(0.05, 50.0)
            }
        },
        Wild => match choose(4) {
            0 => *pick(&[1.0, 1e-300, 1e150, 1e-8, 1e8]),
            _ => log_uniform(1e-6, 1e6),
        },
    }
}
pub fn loc(r: Reg) -> f64 {
    match r {
        Tame if far(r) => uniform(-1e3, 1e3),
        Tame => {
            if chance(1, 3) {
                0.0
            } else {
                uniform(-20.0, 20.0)
            }
        },
        Wild => match choose(4) {
            0 => *pick(&[0.0, -0.0, 1e12, -1e12, 1e150, -1e150, 1.0]),
            _ => uniform(-1e6, 1e6),
        },
    }
}
pub fn chance_of(r: Reg) -> f64 {
    match r {
        Tame if far(r) => {
            let p = log_uniform(1e-4, 0.5);
            if chance(1, 2) { p } else { 1.0 - p }
        },
        Tame => match choose(5) {
            0 => *pick(&[0.5, 0.25, 0.75, 0.1, 0.9]),
            1 => 0.5 + log_uniform(1e-3, 0.1) * *pick(&[-1.0, 1.0]),
            _ => uniform(0.01, 0.99),
        },
        Wild => match choose(3) {
            0 => *pick(&[0.0, 1.0, 0.5, 1e-12, 1.0 - 1e-12, 1e-300, f64::EPSILON]),
            _ => unit(),
        },
    }
}
pub fn dof(r: Reg) -> usize {
    match r {
        Tame if far(r) => log_uniform(1.0, 5000.0) as usize,
        Tame => match choose(3) {
            0 => 1 + choose(4),
            1 => 1 + choose(12),
            _ => 1 + choose(60),
        },
        Wild => match choose(3) {
            0 => *pick(&[1, 2, 3, 4, 1000, 100_000]),
            _ => 1 + choose(500),
        },
    }
}
pub fn trials(r: Reg) -> usize {
    match r {
        Tame if far(r) => log_uniform(1.0, 1e6) as usize,
        Tame => match choose(4) {
            0 => 1 + choose(5),
            1 => 1 + choose(30),
            2 => 1 + choose(300),
            _ => 1 + log_uniform(1.0, 2000.0) as usize,
        },
        Wild => match choose(4) {
            0 => *pick(&[0, 1, 2, 1_000_000, 5000]),
            _ => choose(3000),
        },
    }
}
/// Weights that miss one by the tolerance of the constructor are wanted too.
pub static LOOSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// A point of the simplex.
pub fn simplex<const K: usize>(r: Reg) -> [f64; K] {
    let style = choose(4);
    let mut w: [f64; K] = std::array::from_fn(|_| match (style, r) {
        (0, _) => 1.0,
        (1, Wild) => *pick(&[0.0, 1.0, 1e-9, 0.3]),
        (1, Tame) => *pick(&[1.0, 2.0, 0.5, 0.0]),
        _ => uniform(0.05, 1.0),
    });
    let s: f64 = w.iter().sum();
    if s <= 0.0 {
        w[0] = 1.0;
    }
    if K > 0 && chance(1, 8) {
        let k = choose(K);
        w = std::array::from_fn(|i| if i == k { 1.0 } else { 0.0 });
    }
    let s: f64 = w.iter().sum();
    let w = w.map(|x| x / s);
    if r == Wild && LOOSE.load(std::sync::atomic::Ordering::Relaxed) && chance(1, 3) {
        // a little off, if that much is admitted
        let f = 1.0 + *pick(&[-9e-6, -1e-6, -1e-9, 9e-6, 1e-7]);
        let v = w.map(|x| x * f);
        if let Ok(Ok(_)) = sut_quiet(|| rstat::SimplexVector::new(v)) {
            return v;
        }
    }
    w
}
/// Unrounded weights: exact multiples of 1/64.
pub fn dyadic_simplex<const K: usize>() -> [f64; K] {
    let mut left = 64;
    let mut out = [0.0; K];
    for i in 0..K {
        let k = if i + 1 == K { left } else { choose(left + 1) };
        left -= k;
        out[i] = k as f64 / 64.0;
    }
    out
}
/// A positive definite matrix.
pub fn spd<const N: usize>(r: Reg) -> [[f64; N]; N] {
    let mut l = [[0.0; N]; N];
    let s = if r == Tame { 1.0 } else { log_uniform(1e-3, 1e3) };
    for i in 0..N {
        for j in 0..=i {
            l[i][j] = if i == j { uniform(0.3, 2.0) } else if N > 5 { uniform(-0.4, 0.4) } else { uniform(-1.5, 1.5) };
        }
    }
    let mut m = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            m[i][j] = s * (0..N).map(|k| l[i][k] * l[j][k]).sum::<f64>();
        }
    }
    m
}

// --- families ------------------------------------------------------------------------------

pub struct Family {
    pub name: &'static str,
    pub dim: usize,
    pub sampler: bool,
    pub gen: fn(Reg) -> Obj,
}

macro_rules! caps {
    ($d:ty: $($cap:ident)*) => {{
        let f: fn(&mut Obj, &Arc<$d>) = |o, d| { $($cap(o, d);)* };
        f
    }};
}
pub(crate) use caps;

fn must<T>(fam: &str, args: String, r: Result<T, impl Debug>) -> T {
    match r {
        Ok(x) => x,
        Err(e) => {
            violation(&format!("{}: refused valid parameters", fam), format!("{}: {:?}", args, e));
            harness_error(format!("{} refused {}", fam, args))
        },
    }
}
fn mk<T, E: Debug>(fam: &str, args: String, f: impl FnOnce() -> Result<T, E>) -> T {
    match sut("construct", f) {
        Ok(r) => must(fam, args, r),
        Err(c) => {
            violation(&format!("{}: construction panicked", fam), format!("{}: {:?}", args, c));
            harness_error(format!("cannot build {} {}", fam, args))
        },
    }
}
/// Which of the equivalent ways of construction `make!` takes.
pub static ROUTE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

macro_rules! make {
    (@call ($f:expr) ($($v:ident),*)) => { ($f)($($v),*) };
    (@go $fam:expr, $args:expr, $ctor:expr, $v:tt $(; or $alt:expr)*) => {
        mk($fam, $args, move || {
            let ways = 1 $(+ { let _ = stringify!($alt); 1 })*;
            let way = ROUTE.load(std::sync::atomic::Ordering::Relaxed) % ways;
            let mut _i = 0;
            $(
                _i += 1;
                if way == _i {
                    return Ok(make!(@call ($alt) $v));
                }
            )*
            make!(@call ($ctor) $v).map_err(|e| format!("{:?}", e))
        })
    };
    ($fam:expr, $ctor:expr; $a:expr $(; or $alt:expr)*) => {{
        let a = $a;
        make!(@go $fam, format!("{:?}", (&a,)), $ctor, (a) $(; or $alt)*)
    }};
    ($fam:expr, $ctor:expr; $a:expr, $b:expr $(; or $alt:expr)*) => {{
        let (a, b) = ($a, $b);
        make!(@go $fam, format!("{:?}", (&a, &b)), $ctor, (a, b) $(; or $alt)*)
    }};
    ($fam:expr, $ctor:expr; $a:expr, $b:expr, $c:expr $(; or $alt:expr)*) => {{
        let (a, b, c) = ($a, $b, $c);
        make!(@go $fam, format!("{:?}", (&a, &b, &c)), $ctor, (a, b, c) $(; or $alt)*)
    }};
}

fn extra_normal(o: &mut Obj, d: &Arc<uv::normal::Normal>) {
    add(o, d, "precision", Takes::Nothing, |d, _| vec![d.precision()]);
    add(o, d, "z", Takes::Point, |d, a| vec![d.z(x_of::<f64>(a))]);
}
fn extra_cauchy(o: &mut Obj, d: &Arc<uv::cauchy::Cauchy>) { add(o, d, "fwhm", Takes::Nothing, |d, _| vec![d.fwhm()]); }
fn extra_span(o: &mut Obj, d: &Arc<uv::uniform::Uniform<i64>>) { add(o, d, "span", Takes::Nothing, |d, _| vec![d.span() as f64]); }

pub fn normal_obj(mu: f64, s2: f64) -> Obj {
    let d = make!("Normal", uv::normal::Normal::new; mu, s2; or uv::normal::Normal::new_unchecked; or |a, b| uv::normal::Normal::from(uv::normal::Params::new(a, b).unwrap()); or |a, b| if a == 0.0 && b == 1.0 { uv::normal::Normal::standard() } else { uv::normal::Normal::new_unchecked(a, b) });
    build("Normal", d, caps!(uv::normal::Normal: extra_normal cont moments quantiles modes entropy fisher2 likelihood score display bounds))
}
fn fisher1<D: Dist + FisherInformation<1>>(o: &mut Obj, d: &Arc<D>) { fisher::<D, 1>(o, d) }
fn fisher2<D: Dist + FisherInformation<2>>(o: &mut Obj, d: &Arc<D>) { fisher::<D, 2>(o, d) }

/// Ends of an integer support.
fn ends<D: Dist, T: Val>(o: &mut Obj, d: &Arc<D>)
where
    D::Support: spaces::OrderedSpace<Value = T>,
{
    use spaces::OrderedSpace;
    let s = d.support();
    let f = |x: T| {
        let mut v = vec![];
        x.put(&mut v);
        v[0]
    };
    o.bounds = (s.inf().map(f), s.sup().map(f));
}
pub fn uniform_obj(lb: f64, w: f64) -> Obj {
    let d = make!("Uniform<f64>", uv::uniform::Uniform::<f64>::new; lb, w; or uv::uniform::Uniform::<f64>::new_unchecked; or |a, b| uv::uniform::Uniform::<f64>::from(uv::uniform::Params::<f64>::new(a, b).unwrap()); or |a, b| uv::uniform::Params::<f64>::new_unchecked(a, b).into());
    build("Uniform<f64>", d, caps!(uv::uniform::Uniform<f64>: cont moments quantiles entropy display bounds))
}
pub fn exponential_obj(l: f64) -> Obj {
    let d = make!("Exponential", uv::exponential::Exponential::new; l; or uv::exponential::Exponential::new_unchecked; or |a| uv::exponential::Exponential::from(uv::exponential::Params::new(a).unwrap()); or |a| uv::exponential::Params::new_unchecked(a).into());
    build("Exponential", d, caps!(uv::exponential::Exponential: cont moments quantiles modes entropy fisher1 display bounds))
}
pub fn gamma_obj(a: f64, b: f64) -> Obj {
    let d = make!("Gamma", uv::gamma::Gamma::new; a, b; or uv::gamma::Gamma::new_unchecked; or |a, b| uv::gamma::Gamma::from(uv::gamma::Params::new(a, b).unwrap()); or |a, b| uv::gamma::Params::new_unchecked(a, b).into());
    build("Gamma", d, caps!(uv::gamma::Gamma: cont moments modes entropy likelihood score display bounds))
}
pub fn binomial_obj(n: usize, p: f64) -> Obj {
    let d = make!("Binomial", uv::binomial::Binomial::new; n, Probability::new_unchecked(p); or uv::binomial::Binomial::new_unchecked; or |a, b: Probability| uv::binomial::Binomial::from(uv::binomial::Params::new(a, b.unwrap()).unwrap()); or |a, b: Probability| uv::binomial::Params::new_unchecked(a, b.unwrap()).into());
    let mut o = build("Binomial", d, caps!(uv::binomial::Binomial: disc moments quantiles modes entropy fisher1 display ends));
    o.top = Some(n as f64);
    o
}
pub fn bernoulli_obj(p: f64) -> Obj {
    let d = make!("Bernoulli", uv::bernoulli::Bernoulli::new; p; or uv::bernoulli::Bernoulli::new_unchecked; or |a| uv::bernoulli::Bernoulli::from(uv::bernoulli::Params::new(a).unwrap()); or |a| uv::bernoulli::Params::new_unchecked(a).into());
    build("Bernoulli", d, caps!(uv::bernoulli::Bernoulli: disc moments quantiles modes entropy fisher1 likelihood score display))
}
pub fn poisson_obj(l: f64) -> Obj {
    let d = make!("Poisson", uv::poisson::Poisson::new; l; or uv::poisson::Poisson::new_unchecked; or |a| uv::poisson::Poisson::from(uv::poisson::Params::new(a).unwrap()); or |a| uv::poisson::Params::new_unchecked(a).into());
    build("Poisson", d, caps!(uv::poisson::Poisson: disc moments quantiles modes entropy fisher1 likelihood score display))
}
pub fn cauchy_obj(x0: f64, g: f64) -> Obj {
    let d = make!("Cauchy", uv::cauchy::Cauchy::new; x0, g; or uv::cauchy::Cauchy::new_unchecked; or |a, b| uv::cauchy::Cauchy::from(uv::cauchy::Params::new(a, b).unwrap()); or |a, b| uv::cauchy::Params::new_unchecked(a, b).into());
    build("Cauchy", d, caps!(uv::cauchy::Cauchy: extra_cauchy cont quantiles modes entropy display bounds)).facts(1.0, 0)
}
pub fn chisq_obj(k: usize) -> Obj {
    let d = make!("ChiSq", uv::chi_sq::ChiSq::new; k; or uv::chi_sq::ChiSq::new_unchecked; or |a| uv::chi_sq::ChiSq::from(uv::chi_sq::Params::new(a).unwrap()); or |a| uv::chi_sq::Params::new_unchecked(a).into());
    build("ChiSq", d, caps!(uv::chi_sq::ChiSq: cont moments quantiles modes entropy display bounds))
}
pub fn beta_obj(a: f64, b: f64) -> Obj {
    let d = make!("Beta", uv::beta::Beta::new; a, b; or uv::beta::Beta::new_unchecked; or |a, b| uv::beta::Beta::from(uv::beta::Params::new(a, b).unwrap()); or |a, b| uv::beta::Params::new_unchecked(a, b).into());
    build("Beta", d, caps!(uv::beta::Beta: cont moments quantiles modes entropy likelihood score display bounds))
}

fn g_uniform(r: Reg) -> Obj { uniform_obj(loc(r), scale(r)) }
fn g_uniform_i(r: Reg) -> Obj {
    let (lb, w) = match r {
        Tame if far(r) => (range(-1_000_000, 1_000_000), log_uniform(1.0, 1e9) as u64),
        Tame => (range(-30, 30), match choose(3) { 0 => choose_nz(4) as u64, 1 => choose_nz(40) as u64, _ => choose_nz(1000) as u64 }),
        Wild => (range(-(1 << 40), 1 << 40), *pick(&[1, 2, 255, 65_536, (1 << 40) - 1, 1 << 40])),
    };
    let d = make!("Uniform<i64>", uv::uniform::Uniform::<i64>::new; lb, w; or uv::uniform::Uniform::<i64>::new_unchecked; or |a, b| uv::uniform::Uniform::<i64>::from(uv::uniform::Params::<i64>::new(a, b as i64).unwrap()); or |a, b| uv::uniform::Params::<i64>::new_unchecked(a, b as i64).into());
    build("Uniform<i64>", d, caps!(uv::uniform::Uniform<i64>: extra_span disc moments quantiles entropy display ends))
}
fn g_degenerate(r: Reg) -> Obj {
    build("Degenerate<f64>", uv::degenerate::Degenerate::<f64>::new(loc(r)), caps!(uv::degenerate::Degenerate<f64>: cont moments quantiles modes entropy display))
}
fn g_degenerate_i(_: Reg) -> Obj {
    build("Degenerate<i64>", uv::degenerate::Degenerate::<i64>::new(range(-1000, 1000)), caps!(uv::degenerate::Degenerate<i64>: disc moments quantiles modes entropy display))
}
fn g_beta(r: Reg) -> Obj {
    if chance(1, 5) {
        return beta_obj(*pick(&[1.0, 2.0, 3.0, 0.5]), *pick(&[1.0, 2.0, 3.0, 0.5]));
    }
    beta_obj(shape(r), shape(r))
}
fn g_binomial(r: Reg) -> Obj { binomial_obj(trials(r), chance_of(r)) }
fn g_bernoulli(r: Reg) -> Obj { bernoulli_obj(chance_of(r)) }
fn g_cauchy(r: Reg) -> Obj { cauchy_obj(loc(r), scale(r)) }
pub fn categorical_obj<const K: usize>(ps: [f64; K]) -> Obj {
    let d = make!("Categorical", uv::categorical::Categorical::new; ps; or uv::categorical::Categorical::new_unchecked; or |a| uv::categorical::Categorical::from(uv::categorical::Params::new(a).unwrap()); or |a| uv::categorical::Params::new_unchecked(a).into());
    let mut o = build("Categorical", d, caps!(uv::categorical::Categorical<K>: disc modes display));
    o.weights = ps.to_vec();
    o.top = Some(K as f64 - 1.0);
    o
}
fn g_categorical(r: Reg) -> Obj {
    match choose(6) {
        0 => categorical_obj::<1>(simplex(r)),
        1 => categorical_obj::<2>(simplex(r)),
        2 => categorical_obj::<3>(simplex(r)),
        3 => categorical_obj::<5>(simplex(r)),
        4 => categorical_obj::<12>(simplex(r)),
        _ => categorical_obj::<70>(simplex(r)),
    }
}
fn g_chisq(r: Reg) -> Obj { chisq_obj(dof(r)) }
fn g_exponential(r: Reg) -> Obj { exponential_obj(scale(r)) }
fn g_fdist(r: Reg) -> Obj {
    let (d1, d2) = (dof(r), dof(r));
    let d = make!("FDist", uv::f_dist::FDist::new; d1, d2; or uv::f_dist::FDist::new_unchecked; or |a, b| uv::f_dist::FDist::from(uv::f_dist::Params::new(a, b).unwrap()); or |a, b| uv::f_dist::Params::new_unchecked(a, b).into());
    build("FDist", d, caps!(uv::f_dist::FDist: cont moments modes entropy display bounds)).facts(d2 as f64 / 2.0, 4)
}
fn g_folded(r: Reg) -> Obj {
    let (mu, s) = match r {
        // |mu| of at most a few scales: the fold matters
        Tame => {
            let s = scale(r);
            let k = if far(r) { log_uniform(1e-3, 60.0) * *pick(&[1.0, -1.0]) } else { *pick(&[0.0, 0.5, -0.5, 1.0, -1.5, 2.0, 3.0, -4.0, 8.0]) };
            (s * k, s)
        },
        Wild => (loc(r), scale(r)),
    };
    let (mu, s) = match choose(10) { 0 => (0.0, 1.0), 1 | 2 => (0.0, s), _ => (mu, s) };
    let d = make!("FoldedNormal", uv::folded_normal::FoldedNormal::new; mu, s; or uv::folded_normal::FoldedNormal::new_unchecked; or |a, b| uv::folded_normal::FoldedNormal::from(uv::folded_normal::Params::new(a, b).unwrap()); or |a, b| uv::folded_normal::Params::new_unchecked(a, b).into(); or |a, b| match (a == 0.0, b == 1.0) {
        (true, true) => uv::folded_normal::FoldedNormal::standard(),
        (true, false) => uv::folded_normal::FoldedNormal::half_normal(rstat::params::Scale(b)),
        _ => uv::folded_normal::FoldedNormal::new_unchecked(a, b),
    });
    build("FoldedNormal", d, caps!(uv::folded_normal::FoldedNormal: cont moments modes display bounds))
}
fn g_frechet(r: Reg) -> Obj {
    let a = match r {
        Tame if far(r) => log_uniform(0.4, 400.0),
        Tame => *pick(&[0.8, 1.5, 2.5, 3.5, 4.5, 5.0, 9.0, 13.0, 17.0, 20.0, 30.0]),
        Wild => log_uniform(0.05, 1e3),
    };
    let d = make!("Frechet", uv::frechet::Frechet::new; a; or uv::frechet::Frechet::new_unchecked; or |a| uv::frechet::Frechet::from(uv::frechet::Params::new(a).unwrap()); or |a| uv::frechet::Params::new_unchecked(a).into());
    build("Frechet", d, caps!(uv::frechet::Frechet: cont moments quantiles modes entropy display bounds)).facts(a, 4)
}
fn g_gamma(r: Reg) -> Obj { gamma_obj(shape(r), scale(r)) }
fn g_geometric(r: Reg) -> Obj {
    let p = match r {
        Tame => chance_of(r),
        Wild => *pick(&[1.0, 0.5, 1e-3, 1e-6, 1.0 - 1e-12, 0.999]),
    };
    let d = make!("Geometric", uv::geometric::Geometric::new; p; or uv::geometric::Geometric::new_unchecked; or |a| uv::geometric::Geometric::from(uv::geometric::Params::new(a).unwrap()); or |a| uv::geometric::Params::new_unchecked(a).into());
    build("Geometric", d, caps!(uv::geometric::Geometric: disc moments quantiles modes entropy display))
}
fn g_invnormal(r: Reg) -> Obj {
    let (mu, l) = match r {
        Tame => {
            let mu = scale(r);
            (mu, mu * if far(r) { log_uniform(0.05, 5e3) } else { log_uniform(0.5, 40.0) })
        },
        Wild => (log_uniform(1e-3, 1e3), log_uniform(1e-3, 1e3)),
    };
    let d = make!("InvNormal", uv::inverse_normal::InvNormal::new; mu, l; or uv::inverse_normal::InvNormal::new_unchecked; or |a, b| uv::inverse_normal::InvNormal::from(uv::inverse_normal::Params::new(a, b).unwrap()); or |a, b| uv::inverse_normal::Params::new_unchecked(a, b).into());
    build("InvNormal", d, caps!(uv::inverse_normal::InvNormal: cont moments modes entropy display bounds)).facts(f64::INFINITY, if l / mu > 4.0 { 4 } else if l / mu >= 0.5 { 2 } else { 0 })
}
fn g_kumaraswamy(r: Reg) -> Obj {
    use uv::kumaraswamy::*;
    let (a, b) = (shape(r).min(200.0), shape(r).min(200.0));
    let d: Kumaraswamy = make!("Kumaraswamy", Params::new; a, b).into();
    // many small draws and rare large ones when a is small
    let light = if a >= 1.0 || b <= 3.0 { 4 } else if a >= 0.6 { 2 } else if a >= 0.3 { 1 } else { 0 };
    build("Kumaraswamy", d, caps!(Kumaraswamy: cont moments quantiles modes entropy display bounds)).facts(f64::INFINITY, light)
}
fn g_laplace(r: Reg) -> Obj {
    let d = make!("Laplace", uv::laplace::Laplace::new; loc(r), scale(r); or uv::laplace::Laplace::new_unchecked; or |a, b| uv::laplace::Laplace::from(uv::laplace::Params::new(a, b).unwrap()); or |a, b| uv::laplace::Params::new_unchecked(a, b).into());
    build("Laplace", d, caps!(uv::laplace::Laplace: cont moments quantiles modes entropy display bounds))
}
fn g_lognormal(r: Reg) -> Obj {
    let (mu, s2) = match r {
        Tame if far(r) => (uniform(-30.0, 30.0), log_uniform(1e-5, 3.0)),
        Tame => (uniform(-2.0, 2.0), *pick(&[0.02, 0.05, 0.1, 0.25, 0.5, 1.0, 2.0])),
        Wild => (uniform(-100.0, 100.0), log_uniform(1e-4, 1e2)),
    };
    let d = make!("LogNormal", uv::lognormal::LogNormal::new; mu, s2; or uv::lognormal::LogNormal::new_unchecked; or |a, b| uv::lognormal::LogNormal::from(uv::lognormal::Params::new(a, b).unwrap()); or |a, b| uv::normal::Normal::new_unchecked(a, b).into());
    let light = if s2 <= 0.051 { 4 } else if s2 <= 0.11 { 3 } else if s2 <= 0.26 { 2 } else { 1 };
    build("LogNormal", d, caps!(uv::lognormal::LogNormal: cont moments quantiles modes entropy fisher2 display bounds)).facts(f64::INFINITY, light)
}
fn standard() -> bool { chance(1, 10) }
fn g_normal(r: Reg) -> Obj {
    if standard() {
        return normal_obj(0.0, 1.0);
    }
    normal_obj(loc(r), scale(r))
}
fn g_pareto(r: Reg) -> Obj {
    let xm = scale(r);
    let a = match r {
        Tame if far(r) => log_uniform(0.4, 400.0),
        Tame => *pick(&[0.7, 1.5, 2.5, 3.5, 4.5, 5.0, 9.0, 13.0, 17.5, 25.0]),
        Wild => log_uniform(0.05, 1e3),
    };
    let d = make!("Pareto", uv::pareto::Pareto::new; xm, a; or uv::pareto::Pareto::new_unchecked; or |a, b| uv::pareto::Pareto::from(uv::pareto::Params::new(a, b).unwrap()); or |a, b| uv::pareto::Params::new_unchecked(a, b).into());
    build("Pareto", d, caps!(uv::pareto::Pareto: cont moments quantiles modes entropy fisher2 display bounds)).facts(a, 4)
}
fn g_poisson(r: Reg) -> Obj {
    poisson_obj(match r {
        Tame if far(r) => log_uniform(1e-3, 1e5),
        Tame => match choose(4) { 0 => uniform(0.05, 1.0), 1 => uniform(1.0, 11.9), 2 => uniform(12.0, 60.0), _ => *pick(&[1.0, 3.0, 12.0, 0.5, 100.0, 400.0]) },
        Wild => log_uniform(1e-6, 1e6),
    })
}
fn g_student(r: Reg) -> Obj {
    let nu = match r {
        Tame if far(r) => log_uniform(0.3, 1e4),
        Tame => match choose(3) { 0 => *pick(&[0.8, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0]), 1 => uniform(1.0, 12.0), _ => uniform(12.0, 40.0) },
        Wild => log_uniform(0.05, 1e4),
    };
    let d = make!("StudentT", uv::student_t::StudentT::new; nu; or uv::student_t::StudentT::new_unchecked; or |a| uv::student_t::StudentT::from(uv::student_t::Params::new(a).unwrap()); or |a| uv::student_t::Params::new_unchecked(a).into());
    build("StudentT", d, caps!(uv::student_t::StudentT: cont moments quantiles modes entropy display bounds)).facts(nu, 4)
}
fn g_triangular(r: Reg) -> Obj {
    let d = make!("Triangular", uv::triangular::Triangular::new; loc(r), scale(r), scale(r); or uv::triangular::Triangular::new_unchecked; or |a, b, c| uv::triangular::Triangular::from(uv::triangular::Params::new(a, b, c).unwrap()); or |a, b, c| uv::triangular::Params::new_unchecked(a, b, c).into());
    build("Triangular", d, caps!(uv::triangular::Triangular: cont moments quantiles modes entropy display bounds))
}
fn g_weibull(r: Reg) -> Obj {
    use uv::weibull::*;
    let (l, k) = (scale(r), match r { Tame if far(r) => log_uniform(0.3, 100.0), Tame => *pick(&[0.6, 0.9, 1.0, 1.3, 2.0, 3.0, 3.6, 5.0, 10.0]), Wild => log_uniform(0.05, 200.0) });
    let d: Weibull = make!("Weibull", Params::new; l, k).into();
    let light = if k >= 1.0 { 4 } else if k >= 0.6 { 2 } else { 0 };
    build("Weibull", d, caps!(Weibull: cont moments quantiles modes entropy display bounds)).facts(f64::INFINITY, light)
}

// distributions without a sampler
macro_rules! stub {
    ($f:ident, $fam:literal, $t:ty, $ctor:expr, $($cap:ident)*) => {
        fn $f(r: Reg) -> Obj {
            let d = $ctor(r);
            build($fam, d, caps!($t: $($cap)*)).stub()
        }
    };
}
stub!(g_arcsine, "Arcsine", uv::arcsine::Arcsine, |r| make!("Arcsine", uv::arcsine::Arcsine::new; loc(r), scale(r); or uv::arcsine::Arcsine::new_unchecked; or |a, b| uv::arcsine::Arcsine::from(uv::arcsine::Params::new(a, b).unwrap()); or |a, b| uv::arcsine::Params::new_unchecked(a, b).into()), cont moments quantiles modes entropy display bounds);
stub!(g_betabinomial, "BetaBinomial", uv::beta_binomial::BetaBinomial, |r| make!("BetaBinomial", uv::beta_binomial::BetaBinomial::new; choose(60), shape(r), shape(r); or uv::beta_binomial::BetaBinomial::new_unchecked; or |a, b, c| uv::beta_binomial::BetaBinomial::from(uv::beta_binomial::Params::new(a, b, c).unwrap()); or |a, b, c| uv::beta_binomial::Params::new_unchecked(a, b, c).into()), disc moments display);
stub!(g_betaprime, "BetaPrime", uv::beta_prime::BetaPrime, |r| make!("BetaPrime", uv::beta_prime::BetaPrime::new; shape(r), shape(r); or uv::beta_prime::BetaPrime::new_unchecked; or |a, b| uv::beta_prime::BetaPrime::from(uv::beta_prime::Params::new(a, b).unwrap()); or |a, b| uv::beta_prime::Params::new_unchecked(a, b).into()), cont moments modes entropy display bounds);
stub!(g_chi, "Chi", uv::chi::Chi, |r| make!("Chi", uv::chi::Chi::new; dof(r); or uv::chi::Chi::new_unchecked; or |a| uv::chi::Chi::from(uv::chi::Params::new(a).unwrap()); or |a| uv::chi::Params::new_unchecked(a).into()), cont moments quantiles modes entropy display bounds);
stub!(g_cosine, "Cosine", uv::cosine::Cosine, |r| make!("Cosine", uv::cosine::Cosine::new; loc(r), scale(r); or uv::cosine::Cosine::new_unchecked; or |a, b| uv::cosine::Cosine::from(uv::cosine::Params::new(a, b).unwrap()); or |a, b| uv::cosine::Params::new_unchecked(a, b).into()), cont moments quantiles modes display bounds);
stub!(g_erlang, "Erlang", uv::erlang::Erlang, |r| make!("Erlang", uv::erlang::Erlang::new; dof(r), scale(r); or uv::erlang::Erlang::new_unchecked; or |a, b| uv::erlang::Erlang::from(uv::erlang::Params::new(a, b).unwrap()); or |a, b| uv::erlang::Params::new_unchecked(a, b).into()), cont moments modes display bounds);
stub!(g_gev, "GEV", uv::gev::GeneralisedExtremeValue, |r| make!("GEV", uv::gev::GeneralisedExtremeValue::new; loc(r), scale(r), shape(r); or uv::gev::GeneralisedExtremeValue::new_unchecked; or |a, b, c| uv::gev::GeneralisedExtremeValue::from(uv::gev::Params::new(a, b, c).unwrap()); or |a, b, c| uv::gev::Params::new_unchecked(a, b, c).into()), cont moments quantiles modes entropy display bounds);
stub!(g_gpd, "GPD", uv::gpd::GeneralisedPareto, |r| make!("GPD", uv::gpd::GeneralisedPareto::new; loc(r), scale(r), shape(r); or uv::gpd::GeneralisedPareto::new_unchecked; or |a, b, c| uv::gpd::GeneralisedPareto::from(uv::gpd::Params::new(a, b, c).unwrap()); or |a, b, c| uv::gpd::Params::new_unchecked(a, b, c).into()), cont moments quantiles entropy display bounds);
stub!(g_gumbel, "Gumbel", uv::gumbel::Gumbel, |r| make!("Gumbel", uv::gumbel::Gumbel::new; loc(r), scale(r); or uv::gumbel::Gumbel::new_unchecked; or |a, b| uv::gumbel::Gumbel::from(uv::gumbel::Params::new(a, b).unwrap()); or |a, b| uv::gumbel::Params::new_unchecked(a, b).into()), cont moments quantiles modes entropy display bounds);
stub!(g_invgamma, "InvGamma", uv::inverse_gamma::InvGamma, |r| make!("InvGamma", uv::inverse_gamma::InvGamma::new; shape(r), shape(r); or uv::inverse_gamma::InvGamma::new_unchecked; or |a, b| uv::inverse_gamma::InvGamma::from(uv::inverse_gamma::Params::new(a, b).unwrap()); or |a, b| uv::inverse_gamma::Params::new_unchecked(a, b).into()), cont moments modes entropy display bounds);
stub!(g_levy, "Levy", uv::levy::Levy, |r| make!("Levy", uv::levy::Levy::new; loc(r), scale(r); or uv::levy::Levy::new_unchecked; or |a, b| uv::levy::Levy::from(uv::levy::Params::new(a, b).unwrap()); or |a, b| uv::levy::Params::new_unchecked(a, b).into()), cont moments quantiles modes entropy display bounds);
stub!(g_logistic, "Logistic", uv::logistic::Logistic, |r| make!("Logistic", uv::logistic::Logistic::new; loc(r), scale(r); or uv::logistic::Logistic::new_unchecked; or |a, b| uv::logistic::Logistic::from(uv::logistic::Params::new(a, b).unwrap()); or |a, b| uv::logistic::Params::new_unchecked(a, b).into()), cont moments quantiles modes entropy display bounds);
stub!(g_rayleigh, "Rayleigh", uv::rayleigh::Rayleigh, |r| make!("Rayleigh", uv::rayleigh::Rayleigh::new; scale(r); or uv::rayleigh::Rayleigh::new_unchecked; or |a| uv::rayleigh::Rayleigh::from(uv::rayleigh::Params::new(a).unwrap()); or |a| uv::rayleigh::Params::new_unchecked(a).into()), cont moments quantiles modes entropy display bounds);
fn mvm_multinomial(o: &mut Obj, d: &Arc<mv::multinomial::Multinomial<3>>) { mvm::<_, 3>(o, d) }
fn g_multinomial(r: Reg) -> Obj {
    let d = make!("Multinomial", mv::multinomial::Multinomial::<3>::new; choose(30), simplex::<3>(r); or mv::multinomial::Multinomial::<3>::new_unchecked);
    build("Multinomial", d, caps!(mv::multinomial::Multinomial<3>: disc mvm_multinomial)).stub()
}

// --- several dimensions --------------------------------------------------------------------

fn mvm2<D: Dist + MvMoments<2>>(o: &mut Obj, d: &Arc<D>) { mvm::<D, 2>(o, d) }

fn g_bv(r: Reg) -> Obj {
    let rho = match choose(4) { 0 => 0.0, 1 => *pick(&[0.5, -0.5, 0.9, -0.95]), _ => uniform(-0.97, 0.97) };
    if standard() {
        let d = make!("BvNormal", bivariate::normal::Normal::new; [0.0; 2], [1.0; 2], 0.0; or |_, _, _| bivariate::normal::Normal::standard(); or |_, _, _| bivariate::normal::Normal::default(); or |a, b, _| bivariate::normal::Normal::independent(a, b).unwrap());
        return build("BvNormal", d, caps!(bivariate::normal::Normal: cont mvm2 modes entropy));
    }
    let d = match choose(4) {
        0 => make!("BvNormal", bivariate::normal::Normal::independent; [loc(r), loc(r)], [scale(r), scale(r)]; or bivariate::normal::Normal::independent_unchecked; or |a, b| bivariate::normal::Normal::new_unchecked(a, b, 0.0); or |a, b| bivariate::normal::Normal::new(a, b, 0.0).unwrap()),
        1 => make!("BvNormal", bivariate::normal::Normal::isotropic; [loc(r), loc(r)], scale(r); or bivariate::normal::Normal::isotropic_unchecked; or |a, b| bivariate::normal::Normal::new_unchecked(a, [b; 2], 0.0); or |a, b| bivariate::normal::Normal::independent(a, [b; 2]).unwrap()),
        _ => make!("BvNormal", bivariate::normal::Normal::new; [loc(r), loc(r)], [scale(r), scale(r)], rho; or bivariate::normal::Normal::new_unchecked; or |a, b, c| bivariate::normal::Normal::from(bivariate::normal::Params::bivariate(a, b, c).unwrap())),
    };
    build("BvNormal", d, caps!(bivariate::normal::Normal: cont mvm2 modes entropy))
}
pub fn paired_obj(mu: [f64; 2], s2: [f64; 2]) -> Obj {
    let d = make!("PairedNormal", normal::PairedNormal::new; mu, s2; or normal::PairedNormal::new_unchecked; or |a, b| normal::PairedNormal::from(normal::PairedNormalParams::paired(a, b).unwrap()));
    build("PairedNormal", d, caps!(normal::PairedNormal: cont mvm2 modes entropy likelihood score))
}
fn g_paired(r: Reg) -> Obj {
    if standard() {
        let d = make!("PairedNormal", normal::PairedNormal::new; [0.0; 2], [1.0; 2]; or |_, _| normal::PairedNormal::standard(); or |_, _| normal::PairedNormal::default(); or |a, _| normal::PairedNormal::isotropic(a, 1.0).unwrap());
        return build("PairedNormal", d, caps!(normal::PairedNormal: cont mvm2 modes entropy likelihood score));
    }
    if chance(1, 4) {
        let d = make!("PairedNormal", normal::PairedNormal::isotropic; [loc(r), loc(r)], scale(r); or normal::PairedNormal::isotropic_unchecked; or |a, b| normal::PairedNormal::new_unchecked(a, [b; 2]); or |a, b| normal::PairedNormal::new(a, [b; 2]).unwrap());
        return build("PairedNormal", d, caps!(normal::PairedNormal: cont mvm2 modes entropy likelihood score));
    }
    paired_obj([loc(r), loc(r)], [scale(r), scale(r)])
}

fn maha<D: Dist + rstat::distance::Mahalanobis>(o: &mut Obj, d: &Arc<D>)
where
    Sample<D>: Val,
{
    add(o, d, "d_mahalanobis", Takes::Point, |d, a| vec![d.d_mahalanobis(&x_of::<Sample<D>>(a))]);
    add(o, d, "d_mahalanobis_squared", Takes::Point, |d, a| vec![d.d_mahalanobis_squared(&x_of::<Sample<D>>(a))]);
}

macro_rules! mv_family {
    ($dense:ident, $diag:ident, $iso:ident, $ldense:ident, $ldiag:ident, $liso:ident, $dir:ident, $n:literal) => {
        fn $dense(r: Reg) -> Obj {
            fn mm(o: &mut Obj, d: &Arc<mv::normal::Normal<$n>>) { mvm::<_, $n>(o, d) }
            let mu: [f64; $n] = std::array::from_fn(|_| loc(r));
            let d = make!("MvNormal", mv::normal::Normal::<$n>::new; mu, spd::<$n>(r); or mv::normal::Normal::<$n>::new_unchecked; or |a, b| mv::normal::Normal::<$n>::from(mv::normal::Params::multivariate(a, b).unwrap()));
            build("MvNormal", d, caps!(mv::normal::Normal<$n>: cont mm modes entropy maha))
        }
        fn $diag(r: Reg) -> Obj {
            fn mm(o: &mut Obj, d: &Arc<mv::normal::DiagonalNormal<$n>>) { mvm::<_, $n>(o, d) }
            let mu: [f64; $n] = std::array::from_fn(|_| loc(r));
            let s: [f64; $n] = std::array::from_fn(|_| scale(r));
            let d = make!("DiagonalNormal", mv::normal::DiagonalNormal::<$n>::diagonal; mu, s; or mv::normal::DiagonalNormal::<$n>::diagonal_unchecked; or |a, b| mv::normal::DiagonalNormal::<$n>::from(mv::normal::DiagonalNormalParams::<$n>::diagonal(a, b).unwrap()));
            build("DiagonalNormal", d, caps!(mv::normal::DiagonalNormal<$n>: cont mm modes entropy maha))
        }
        fn $iso(r: Reg) -> Obj {
            fn mm(o: &mut Obj, d: &Arc<mv::normal::IsotropicNormal<$n>>) { mvm::<_, $n>(o, d) }
            let mu: [f64; $n] = std::array::from_fn(|_| loc(r));
            let d = if standard() {
                make!("IsotropicNormal", mv::normal::IsotropicNormal::<$n>::isotropic; [0.0; $n], 1.0; or |_, _| mv::normal::IsotropicNormal::<$n>::standard().unwrap(); or |_, _| mv::normal::IsotropicNormal::<$n>::standard_unchecked(); or |a: [f64; $n], b| mv::normal::IsotropicNormal::<$n>::homogeneous(a[0], b).unwrap())
            } else if chance(1, 3) {
                make!("IsotropicNormal", mv::normal::IsotropicNormal::<$n>::homogeneous; loc(r), scale(r); or mv::normal::IsotropicNormal::<$n>::homogeneous_unchecked; or |a, b| mv::normal::IsotropicNormal::<$n>::isotropic([a; $n], b).unwrap(); or |a, b| mv::normal::IsotropicNormal::<$n>::from(mv::normal::IsotropicNormalParams::<$n>::homogeneous(a, b).unwrap()))
            } else {
                make!("IsotropicNormal", mv::normal::IsotropicNormal::<$n>::isotropic; mu, scale(r); or mv::normal::IsotropicNormal::<$n>::isotropic_unchecked; or |a, b| mv::normal::IsotropicNormal::<$n>::from(mv::normal::IsotropicNormalParams::<$n>::isotropic(a, b).unwrap()))
            };
            build("IsotropicNormal", d, caps!(mv::normal::IsotropicNormal<$n>: cont mm modes entropy maha))
        }
        fn $ldense(r: Reg) -> Obj {
            type T = mv::lognormal::LogNormal<$n, [[f64; $n]; $n]>;
            fn mm(o: &mut Obj, d: &Arc<T>) { mvm::<_, $n>(o, d) }
            let mu: [f64; $n] = std::array::from_fn(|_| uniform(-1.0, 1.0));
            let mut s = spd::<$n>(Tame);
            let f = if r == Tame { 0.25 } else { 4.0 } / (0..$n).map(|i| s[i][i]).fold(0.0, f64::max);
            s = s.map(|v| v.map(|x| x * f * 0.8));
            let d = make!("mv LogNormal dense", T::new; mu, s; or T::new_unchecked; or |a, b| T::from(mv::normal::Normal::<$n>::new(a, b).unwrap()));
            build("mv LogNormal dense", d, caps!(T: cont mm)).facts(f64::INFINITY, 2)
        }
        fn $ldiag(r: Reg) -> Obj {
            type T = mv::lognormal::LogNormal<$n, [f64; $n]>;
            fn mm(o: &mut Obj, d: &Arc<T>) { mvm::<_, $n>(o, d) }
            let mu: [f64; $n] = std::array::from_fn(|_| uniform(-1.0, 1.0));
            let s: [f64; $n] = std::array::from_fn(|_| if r == Tame { uniform(0.02, 0.3) } else { log_uniform(1e-4, 10.0) });
            let d = make!("mv LogNormal diagonal", T::diagonal; mu, s; or T::diagonal_unchecked; or |a, b| T::from(mv::normal::DiagonalNormal::<$n>::diagonal(a, b).unwrap()));
            build("mv LogNormal diagonal", d, caps!(T: cont mm)).facts(f64::INFINITY, 2)
        }
        fn $liso(r: Reg) -> Obj {
            type T = mv::lognormal::LogNormal<$n, f64>;
            fn mm(o: &mut Obj, d: &Arc<T>) { mvm::<_, $n>(o, d) }
            let mu: [f64; $n] = std::array::from_fn(|_| uniform(-1.0, 1.0));
            let s = if r == Tame { uniform(0.02, 0.3) } else { log_uniform(1e-4, 10.0) };
            let d = make!("mv LogNormal isotropic", T::isotropic; mu, s; or T::isotropic_unchecked; or |a, b| T::from(mv::normal::IsotropicNormal::<$n>::isotropic(a, b).unwrap()));
            build("mv LogNormal isotropic", d, caps!(T: cont mm)).facts(f64::INFINITY, 2)
        }
        fn $dir(r: Reg) -> Obj {
            type T = mv::dirichlet::Dirichlet<$n>;
            fn mm(o: &mut Obj, d: &Arc<T>) { mvm::<_, $n>(o, d) }
            let a: [f64; $n] = std::array::from_fn(|_| shape(r));
            let d = make!("Dirichlet", T::new; a; or T::new_unchecked; or |a| T::from(rstat::params::Concentrations::new(a).unwrap()));
            build("Dirichlet", d, caps!(T: cont mm modes))
        }
    };
}
mv_family!(g_mv1, g_dg1, g_is1, g_ld1, g_lg1, g_li1, g_dir1, 1);
mv_family!(g_mv2, g_dg2, g_is2, g_ld2, g_lg2, g_li2, g_dir2, 2);
mv_family!(g_mv3, g_dg3, g_is3, g_ld3, g_lg3, g_li3, g_dir3, 3);
mv_family!(g_mv5, g_dg5, g_is5, g_ld5, g_lg5, g_li5, g_dir5, 5);
mv_family!(g_mv12, g_dg12, g_is12, g_ld12, g_lg12, g_li12, g_dir12, 12);
macro_rules! by_dim {
    ($f:ident: $a:ident $b:ident $c:ident $d:ident $e:ident) => {
        fn $f(r: Reg) -> Obj {
            match choose(12) {
                0 | 1 => $a(r),
                2..=5 => $b(r),
                6..=8 => $c(r),
                9 | 10 => $d(r),
                _ => $e(r),
            }
        }
    };
}
by_dim!(g_mv: g_mv1 g_mv2 g_mv3 g_mv5 g_mv12);
by_dim!(g_dg: g_dg1 g_dg2 g_dg3 g_dg5 g_dg12);
by_dim!(g_is: g_is1 g_is2 g_is3 g_is5 g_is12);
by_dim!(g_ld: g_ld1 g_ld2 g_ld3 g_ld5 g_ld12);
by_dim!(g_lg: g_lg1 g_lg2 g_lg3 g_lg5 g_lg12);
by_dim!(g_li: g_li1 g_li2 g_li3 g_li5 g_li12);
fn g_dir(r: Reg) -> Obj {
    match choose(10) {
        0..=2 => g_dir2(r),
        3..=5 => g_dir3(r),
        6..=8 => g_dir5(r),
        _ => g_dir12(r),
    }
}

// --- mixtures ------------------------------------------------------------------------------

macro_rules! mixture {
    ($f:ident, $fam:literal, $c:ty, $part:expr, $($cap:ident)*) => {
        pub fn $f<const N: usize>(r: Reg) -> Obj {
            let mut parts = vec![];
            let comps: [$c; N] = std::array::from_fn(|_| {
                let (d, o) = $part(r);
                parts.push(Arc::new(o));
                d
            });
            let w = simplex::<N>(r);
            let c2 = comps.clone();
            let m = match sut(concat!("construct ", $fam), move || Mixture::<N, $c>::new(w, c2)) {
                Ok(m) => must($fam, format!("{:?}", (w, &comps)), m),
                Err(c) => {
                    violation(concat!($fam, ": construction panicked"), format!("{:?}: {:?}", (w, &comps), c));
                    harness_error(format!("cannot build {:?}", w))
                },
            };
            let mut o = build($fam, m, caps!(Mixture<N, $c>: $($cap)*));
            o.weights = w.to_vec();
            o.parts = parts;
            o.light = 2;
            o.finite = o.parts.iter().map(|p| p.finite).fold(f64::INFINITY, f64::min);
            o
        }
    };
}
mixture!(mix_normal, "Mixture<Normal>", uv::normal::Normal, |r| {
    let (m, s) = (loc(r), scale(r));
    (uv::normal::Normal::new_unchecked(m, s), normal_obj(m, s))
}, cont moments bounds);
mixture!(mix_uniform, "Mixture<Uniform>", uv::uniform::Uniform<f64>, |r| {
    let (m, s) = (loc(r), scale(r));
    (uv::uniform::Uniform::<f64>::new_unchecked(m, s), uniform_obj(m, s))
}, cont moments bounds);
mixture!(mix_exponential, "Mixture<Exponential>", uv::exponential::Exponential, |r| {
    let s = scale(r);
    (uv::exponential::Exponential::new_unchecked(s), exponential_obj(s))
}, cont moments bounds);
mixture!(mix_gamma, "Mixture<Gamma>", uv::gamma::Gamma, |r| {
    let (a, b) = (shape(r), scale(r));
    (uv::gamma::Gamma::new_unchecked(a, b), gamma_obj(a, b))
}, cont moments bounds);
mixture!(mix_binomial, "Mixture<Binomial>", uv::binomial::Binomial, |r| {
    let (n, p) = (trials(r), chance_of(r));
    (uv::binomial::Binomial::new_unchecked(n, Probability::new_unchecked(p)), binomial_obj(n, p))
}, moments discrete_law);
fn discrete_law<D: Dist>(o: &mut Obj, _: &Arc<D>) { o.disc = true; }

macro_rules! g_mixture {
    ($g:ident, $f:ident) => {
        fn $g(r: Reg) -> Obj {
            match choose(4) {
                0 => $f::<1>(r),
                1 => $f::<2>(r),
                2 => $f::<3>(r),
                _ => $f::<6>(r),
            }
        }
    };
}
g_mixture!(g_mix_normal, mix_normal);
g_mixture!(g_mix_uniform, mix_uniform);
g_mixture!(g_mix_exponential, mix_exponential);
g_mixture!(g_mix_gamma, mix_gamma);
g_mixture!(g_mix_binomial, mix_binomial);

pub static FAMILIES: &[Family] = &[
    Family { name: "Uniform<f64>", dim: 1, sampler: true, gen: g_uniform },
    Family { name: "Uniform<i64>", dim: 1, sampler: true, gen: g_uniform_i },
    Family { name: "Degenerate<f64>", dim: 1, sampler: true, gen: g_degenerate },
    Family { name: "Degenerate<i64>", dim: 1, sampler: true, gen: g_degenerate_i },
    Family { name: "Beta", dim: 1, sampler: true, gen: g_beta },
    Family { name: "Binomial", dim: 1, sampler: true, gen: g_binomial },
    Family { name: "Bernoulli", dim: 1, sampler: true, gen: g_bernoulli },
    Family { name: "Cauchy", dim: 1, sampler: true, gen: g_cauchy },
    Family { name: "Categorical", dim: 1, sampler: true, gen: g_categorical },
    Family { name: "ChiSq", dim: 1, sampler: true, gen: g_chisq },
    Family { name: "Exponential", dim: 1, sampler: true, gen: g_exponential },
    Family { name: "FDist", dim: 1, sampler: true, gen: g_fdist },
    Family { name: "FoldedNormal", dim: 1, sampler: true, gen: g_folded },
    Family { name: "Frechet", dim: 1, sampler: true, gen: g_frechet },
    Family { name: "Gamma", dim: 1, sampler: true, gen: g_gamma },
    Family { name: "Geometric", dim: 1, sampler: true, gen: g_geometric },
    Family { name: "InvNormal", dim: 1, sampler: true, gen: g_invnormal },
    Family { name: "Kumaraswamy", dim: 1, sampler: true, gen: g_kumaraswamy },
    Family { name: "Laplace", dim: 1, sampler: true, gen: g_laplace },
    Family { name: "LogNormal", dim: 1, sampler: true, gen: g_lognormal },
    Family { name: "Normal", dim: 1, sampler: true, gen: g_normal },
    Family { name: "Pareto", dim: 1, sampler: true, gen: g_pareto },
    Family { name: "Poisson", dim: 1, sampler: true, gen: g_poisson },
    Family { name: "StudentT", dim: 1, sampler: true, gen: g_student },
    Family { name: "Triangular", dim: 1, sampler: true, gen: g_triangular },
    Family { name: "Weibull", dim: 1, sampler: true, gen: g_weibull },
    Family { name: "Mixture<Normal>", dim: 1, sampler: true, gen: g_mix_normal },
    Family { name: "Mixture<Uniform>", dim: 1, sampler: true, gen: g_mix_uniform },
    Family { name: "Mixture<Exponential>", dim: 1, sampler: true, gen: g_mix_exponential },
    Family { name: "Mixture<Gamma>", dim: 1, sampler: true, gen: g_mix_gamma },
    Family { name: "Mixture<Binomial>", dim: 1, sampler: true, gen: g_mix_binomial },
    Family { name: "BvNormal", dim: 2, sampler: true, gen: g_bv },
    Family { name: "PairedNormal", dim: 2, sampler: true, gen: g_paired },
    Family { name: "MvNormal", dim: 2, sampler: true, gen: g_mv },
    Family { name: "DiagonalNormal", dim: 2, sampler: true, gen: g_dg },
    Family { name: "IsotropicNormal", dim: 2, sampler: true, gen: g_is },
    Family { name: "mv LogNormal dense", dim: 2, sampler: true, gen: g_ld },
    Family { name: "mv LogNormal diagonal", dim: 2, sampler: true, gen: g_lg },
    Family { name: "mv LogNormal isotropic", dim: 2, sampler: true, gen: g_li },
    Family { name: "Dirichlet", dim: 2, sampler: true, gen: g_dir },
    Family { name: "Arcsine", dim: 1, sampler: false, gen: g_arcsine },
    Family { name: "BetaBinomial", dim: 1, sampler: false, gen: g_betabinomial },
    Family { name: "BetaPrime", dim: 1, sampler: false, gen: g_betaprime },
    Family { name: "Chi", dim: 1, sampler: false, gen: g_chi },
    Family { name: "Cosine", dim: 1, sampler: false, gen: g_cosine },
    Family { name: "Erlang", dim: 1, sampler: false, gen: g_erlang },
    Family { name: "GEV", dim: 1, sampler: false, gen: g_gev },
    Family { name: "GPD", dim: 1, sampler: false, gen: g_gpd },
    Family { name: "Gumbel", dim: 1, sampler: false, gen: g_gumbel },
    Family { name: "InvGamma", dim: 1, sampler: false, gen: g_invgamma },
    Family { name: "Levy", dim: 1, sampler: false, gen: g_levy },
    Family { name: "Logistic", dim: 1, sampler: false, gen: g_logistic },
    Family { name: "Rayleigh", dim: 1, sampler: false, gen: g_rayleigh },
    Family { name: "Multinomial", dim: 3, sampler: false, gen: g_multinomial },
];

pub fn any(dims: fn(&Family) -> bool) -> &'static Family {
    let fs: Vec<&'static Family> = FAMILIES.iter().filter(|f| dims(f)).collect();
    let f = fs[choose(fs.len())];
    // now and then by another way of construction
    ROUTE.store(if chance(1, 4) { 1 + choose(5) } else { 0 }, std::sync::atomic::Ordering::Relaxed);
    f
}
/// An object and another of its family, often almost the same one.
pub fn pair(fam: &Family, r: Reg) -> (Obj, Obj) {
    let (o, trail) = noted(|| (fam.gen)(r));
    let other = if chance(2, 3) { near(&trail, || (fam.gen)(r)) } else { (fam.gen)(r) };
    (o, other)
}
pub fn drawn(f: &Family) -> bool { f.sampler }
pub fn drawn1(f: &Family) -> bool { f.sampler && f.dim == 1 }
pub fn drawn_mv(f: &Family) -> bool { f.sampler && f.dim > 1 }
pub fn everything(_: &Family) -> bool { true }
