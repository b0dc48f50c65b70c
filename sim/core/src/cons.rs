//! C10 (values come back intact), C11 (admission), C09 (crashes in predicates).
use crate::vals::*;
use rcore::params::constraints::*;
use rcore::params::{Concentrations, Corr, Count, Loc, Param, Rate, Scale, Shape as ShapeParam, DOF};
use simcore::sched::{any_scale, run_clients};
use simcore::tracked;
use simcore::*;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

pub const KEYS: [f64; 14] = [
    1.0, 0.0, -1.5, 2.0, 0.5, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324, -5e-324, 1.7976931348623157e308, -1.0, 3.0,
];

pub fn any_key() -> f64 {
    let k = choose(KEYS.len() + 3);
    if k < KEYS.len() { KEYS[k] } else { uniform(-3.0, 3.0) }
}

/// Values as the caller owns them, with the identities they contain.
pub trait Owned: Val {
    fn fresh() -> Self;
    fn ids(&self) -> Vec<u64>;
    fn intact(&self) -> bool;
    fn bits(&self) -> Vec<u64>;
}
impl Owned for Num {
    fn fresh() -> Num { Num::new(any_key()) }
    fn ids(&self) -> Vec<u64> { vec![self.0.id] }
    fn intact(&self) -> bool { self.0.intact() }
    fn bits(&self) -> Vec<u64> { vec![self.key().to_bits()] }
}
impl Owned for f64 {
    fn fresh() -> f64 { any_key() }
    fn ids(&self) -> Vec<u64> { vec![] }
    fn intact(&self) -> bool { true }
    fn bits(&self) -> Vec<u64> { vec![self.to_bits()] }
}
impl Owned for i64 {
    fn fresh() -> i64 { [1, 0, -1, 2, 3, -2, i64::MAX, i64::MIN][choose(8)] }
    fn ids(&self) -> Vec<u64> { vec![] }
    fn intact(&self) -> bool { true }
    fn bits(&self) -> Vec<u64> { vec![*self as u64] }
}
impl Owned for usize {
    fn fresh() -> usize { [1, 0, 2, 3, usize::MAX >> 12][choose(5)] }
    fn ids(&self) -> Vec<u64> { vec![] }
    fn intact(&self) -> bool { true }
    fn bits(&self) -> Vec<u64> { vec![*self as u64] }
}
impl<T: Owned> Owned for Vec<T> {
    fn fresh() -> Vec<T> {
        let n = if chance(1, 12) { 20 + choose(60) } else { choose(7) };
        (0..n).map(|_| T::fresh()).collect()
    }
    fn ids(&self) -> Vec<u64> { self.iter().flat_map(|v| v.ids()).collect() }
    fn intact(&self) -> bool { self.iter().all(|v| v.intact()) }
    fn bits(&self) -> Vec<u64> { self.iter().flat_map(|v| v.bits()).collect() }
}
impl<T: Owned, const N: usize> Owned for [T; N] {
    fn fresh() -> [T; N] { std::array::from_fn(|_| T::fresh()) }
    fn ids(&self) -> Vec<u64> { self.iter().flat_map(|v| v.ids()).collect() }
    fn intact(&self) -> bool { self.iter().all(|v| v.intact()) }
    fn bits(&self) -> Vec<u64> { self.iter().flat_map(|v| v.bits()).collect() }
}

/// Bias: make all elements admissible often, so that both answers occur.
fn tame<T: Owned>(p: &Pred<T>) -> T {
    let mut v = T::fresh();
    for _ in 0..choose(3) {
        if p(&v) {
            break;
        }
        v = T::fresh();
    }
    v
}

fn class(op: &str, what: &str) -> String { format!("{}: {}", op, what) }

/// One `check` call on an owned value, with or without a crash in a user callback.
fn one_check<T: Owned, S: Shape<T>>(shape: &str, crash: bool) {
    let op = "check";
    let (c, p) = S::make(2);
    let v = tame::<T>(&p);
    let expect = p(&v);
    let (ids, bits) = (v.ids(), v.bits());
    let arm_at = if crash { choose(6) as i64 } else { -1 };
    log!("check {} on {:?} ids {:?} crash {}", shape, v.keys(), ids, arm_at);
    state(mix(hash_bytes(shape.as_bytes()), mix(expect as u64, (arm_at + 1) as u64)));
    arm(arm_at);
    let before = calls();
    let r = sut(op, move || c.check(v));
    arm(-1);
    log!("-> {} callbacks", calls() - before);
    match r {
        Ok(Ok(v)) => {
            check(v.bits() == bits && v.ids() == ids, || class(op, "Ok value differs"), || format!("{}: gave ids {:?} bits {:x?}, got ids {:?} bits {:x?}", shape, ids, bits, v.ids(), v.bits()));
            check(v.intact(), || class(op, "Ok value damaged"), || format!("{}: value in Ok is not live and whole", shape));
            check(expect, || class(op, "admitted a refused value"), || format!("{} admitted {:?}", shape, v.keys()));
            probe("admitted");
        },
        Ok(Err(e)) => {
            check(e.value.bits() == bits && e.value.ids() == ids, || class(op, "error value differs"), || format!("{}: gave ids {:?} bits {:x?}, error holds ids {:?} bits {:x?}", shape, ids, bits, e.value.ids(), e.value.bits()));
            check(e.value.intact(), || class(op, "error value damaged"), || format!("{}: value in the error is not live and whole", shape));
            check(!expect, || class(op, "refused an admissible value"), || format!("{} refused {:?}", shape, e.value.keys()));
            let again = sut("error.constraint", || e.constraint.is_satisfied_by(&e.value));
            check(again == Ok(false), || class(op, "error names a constraint the value satisfies"), || format!("{}: the constraint in the error answers {:?} on the value in the error", shape, again));
            check(e.target.is_none(), || class(op, "error has a target nobody set"), || format!("{}", shape));
            let e2 = sut("with_target", move || e.with_target("tgt"));
            match e2 {
                Ok(e2) => {
                    check(e2.value.bits() == bits && e2.value.ids() == ids && e2.value.intact(), || class("with_target", "error value differs"), || format!("{}: {:?}", shape, e2.value.ids()));
                    check(e2.target.as_deref() == Some("tgt"), || class("with_target", "target lost"), || format!("{:?}", e2.target));
                    let again = sut("error.constraint", || e2.constraint.is_satisfied_by(&e2.value));
                    check(again == Ok(false), || class("with_target", "constraint changed"), || format!("{}", shape));
                },
                Err(c) => violation(&class("with_target", "panicked"), format!("{:?}", c)),
            }
            probe("refused");
        },
        Err(Caught::Crash(_)) => probe("crashed"),
        Err(c) => violation(&class(op, "panicked"), format!("{} on {:?}: {:?}", shape, bits, c)),
    }
}

/// A parameter constructor on an owned value.
fn one_ctor<T, P>(name: &str, new: fn(T) -> Result<P, UnsatisfiedConstraintError<T>>, admit: fn(f64) -> bool)
where
    T: Owned,
    P: Param<Value = T>,
{
    let v = T::fresh();
    let (ids, bits, keys) = (v.ids(), v.bits(), v.keys());
    let expect = keys.iter().all(|k| admit(*k));
    let crash = if chance(1, 4) { choose(6) as i64 } else { -1 };
    log!("{}::new {:?} ids {:?} crash {}", name, keys, ids, crash);
    arm(crash);
    let r = sut(name, move || new(v));
    arm(-1);
    let op = format!("{}::new", name);
    match r {
        Ok(Ok(p)) => {
            check(p.value().bits() == bits && p.value().ids() == ids, || class(&op, "value() differs"), || format!("gave {:x?} {:?} got {:x?} {:?}", bits, ids, p.value().bits(), p.value().ids()));
            check(p.value().intact(), || class(&op, "value damaged"), || format!("{:?}", ids));
            check(expect, || class(&op, "admitted a refused value"), || format!("{:?}", keys));
            match sut("into_value", move || p.into_value()) {
                Ok(v) => {
                    check(v.bits() == bits && v.ids() == ids && v.intact(), || class(&op, "into_value differs"), || format!("gave {:x?} {:?} got {:x?} {:?}", bits, ids, v.bits(), v.ids()));
                },
                Err(c) => violation(&class(&op, "into_value panicked"), format!("{:?}", c)),
            }
        },
        Ok(Err(e)) => {
            check(e.value.bits() == bits && e.value.ids() == ids && e.value.intact(), || class(&op, "error value differs"), || format!("gave {:x?} {:?} got {:x?} {:?}", bits, ids, e.value.bits(), e.value.ids()));
            check(!expect, || class(&op, "refused an admissible value"), || format!("{:?}", keys));
        },
        Err(Caught::Crash(_)) => probe("crashed"),
        Err(c) => violation(&class(&op, "panicked"), format!("{:?}: {:?}", keys, c)),
    }
}

macro_rules! shapes {
    ($t:ty; $crash:expr; $($s:ty),* $(,)?) => {{
        let names = [$(stringify!($s)),*];
        let k = choose(names.len());
        let mut i = 0;
        $( if k == i { return one_check::<$t, $s>(names[i], $crash); } i += 1; )*
        let _ = i;
    }};
}

fn check_num(crash: bool) {
    shapes!(Num; crash;
        Leaf, Not<Leaf>, And<Leaf, Leaf>, Or<Leaf, Leaf>, Positive, NonNegative, Negative, NonPositive,
        LessThan<Num>, Equal<Num>, GreaterThan<Num>, LessThanOrEqual<Num>, GreaterThanOrEqual<Num>, Interval<Num>,
        Dyn<Num>, Not<Dyn<Num>>, And<Dyn<Num>, Dyn<Num>>, Or<Dyn<Num>, Dyn<Num>>, Not<Not<Leaf>>,
        And<Or<Leaf, Leaf>, Not<Leaf>>, Or<And<Leaf, Leaf>, And<Leaf, Not<Leaf>>>, Not<And<Leaf, Or<Leaf, Leaf>>>,
        And<And<Leaf, Leaf>, Leaf>, And<Leaf, And<Leaf, Leaf>>, Or<Or<Leaf, Leaf>, Leaf>, Or<Leaf, Or<Leaf, Leaf>>,
        Or<Not<Leaf>, And<Dyn<Num>, Leaf>>, Or<And<Leaf, Leaf>, Or<Leaf, Leaf>>, And<Or<Leaf, Leaf>, Or<Leaf, Leaf>>,
        Not<Or<Not<Leaf>, Not<Leaf>>>, And<Interval<Num>, Not<Equal<Num>>>, Or<LessThan<Num>, GreaterThanOrEqual<Num>>,
        And<Positive, LessThanOrEqual<Num>>
    )
}
fn check_vec(crash: bool) {
    shapes!(Vec<Num>; crash;
        All<Leaf>, All<Positive>, All<Not<Leaf>>, All<And<Leaf, Leaf>>, All<Or<Leaf, Leaf>>, Empty, Not<Empty>, Leaf,
        And<All<Leaf>, Not<Empty>>, Or<All<Leaf>, All<Leaf>>, Not<All<Leaf>>, Dyn<Vec<Num>>, All<Dyn<Num>>,
        And<All<Positive>, Leaf>, Or<Empty, All<Interval<Num>>>, And<Not<Empty>, And<All<Leaf>, All<Leaf>>>,
        All<Not<All0>>
    )
}
type All0 = Not<Positive>;

fn check_arr<const N: usize>(crash: bool) {
    shapes!([Num; N]; crash;
        All<Leaf>, All<Positive>, All<Not<Leaf>>, All<Or<Leaf, Leaf>>, All<And<Leaf, Leaf>>, Leaf, Empty, Not<Empty>,
        And<All<Leaf>, All<Leaf>>, Or<All<Leaf>, Leaf>, Not<All<Leaf>>, Dyn<[Num; N]>, All<Dyn<Num>>,
        And<All<Positive>, Not<Empty>>
    )
}
fn check_f64(crash: bool) {
    shapes!(f64; crash;
        Leaf, All<Leaf>, All<Positive>, All<Interval<f64>>, Not<All<Positive>>, And<All<Leaf>, Leaf>, Or<Positive, All<Leaf>>, Dyn<f64>,
        Positive, NonNegative, Negative, NonPositive, LessThan<f64>, Equal<f64>, GreaterThan<f64>, LessThanOrEqual<f64>, GreaterThanOrEqual<f64>, Interval<f64>
    )
}
fn check_i64(crash: bool) {
    shapes!(i64; crash; Leaf, All<Leaf>, All<Positive>, Not<All<NonNegative>>, Or<Negative, All<Leaf>>, Dyn<i64>, Positive, NonNegative, Negative, NonPositive, Interval<i64>, Equal<i64>)
}
fn check_usize(crash: bool) {
    shapes!(usize; crash; Leaf, All<Leaf>, All<Positive>, All<NonNegative>, And<NonNegative, All<Leaf>>, Dyn<usize>, Positive, NonNegative)
}
fn check_vvec(crash: bool) {
    shapes!(Vec<Vec<Num>>; crash; All<All<Leaf>>, All<Not<Empty>>, All<And<All<Leaf>, Not<Empty>>>, Not<All<All<Leaf>>>, All<Dyn<Vec<Num>>>)
}
fn check_va(crash: bool) {
    shapes!(Vec<[Num; 2]>; crash; All<All<Leaf>>, All<Empty>, All<Leaf>, All<Dyn<[Num; 2]>>)
}

pub fn some_check(crash: bool) {
    match choose(13) {
        0 | 1 | 2 => check_num(crash),
        3 | 4 => check_vec(crash),
        5 => check_arr::<0>(crash),
        6 => check_arr::<1>(crash),
        7 => check_arr::<3>(crash),
        8 => check_arr::<6>(crash),
        9 => check_f64(crash),
        10 => match choose(2) { 0 => check_i64(crash), _ => check_usize(crash) },
        11 => check_vvec(crash),
        _ => check_va(crash),
    }
}

pub fn pos(k: f64) -> bool { k > 0.0 }
pub fn nonneg(k: f64) -> bool { k >= 0.0 }
pub fn any(_: f64) -> bool { true }

fn some_ctor() {
    macro_rules! c {
        ($p:ident, $t:ty, $a:ident) => { one_ctor::<$t, $p<$t>>(concat!(stringify!($p), "<", stringify!($t), ">"), $p::<$t>::new, $a) };
    }
    match choose(24) {
        0 => c!(Loc, Num, any),
        1 => c!(Loc, Vec<Num>, any),
        2 => c!(Scale, Vec<Num>, pos),
        3 => c!(Rate, Vec<Num>, pos),
        4 => c!(ShapeParam, Vec<Num>, pos),
        5 => c!(DOF, Vec<Num>, pos),
        6 => c!(Count, Vec<Num>, nonneg),
        7 => one_ctor::<[Num; 3], Scale<[Num; 3]>>("Scale<[Num;3]>", Scale::new, pos),
        8 => one_ctor::<[Num; 0], Rate<[Num; 0]>>("Rate<[Num;0]>", Rate::new, pos),
        9 => one_ctor::<[Num; 1], ShapeParam<[Num; 1]>>("Shape<[Num;1]>", ShapeParam::new, pos),
        10 => one_ctor::<[Num; 5], DOF<[Num; 5]>>("DOF<[Num;5]>", DOF::new, pos),
        11 => one_ctor::<[Num; 2], Count<[Num; 2]>>("Count<[Num;2]>", Count::new, nonneg),
        12 => c!(Scale, f64, pos),
        13 => c!(Rate, f64, pos),
        14 => c!(ShapeParam, f64, pos),
        15 => c!(DOF, f64, pos),
        16 => c!(Count, f64, nonneg),
        17 => c!(Count, i64, nonneg),
        18 => c!(Count, usize, nonneg),
        19 => c!(DOF, usize, pos),
        20 => c!(Scale, i64, pos),
        21 => c!(Loc, f64, any),
        22 => one_ctor::<f64, Corr>("Corr", Corr::new, |k| k >= -1.0 && k <= 1.0),
        _ => one_ctor::<[f64; 3], Concentrations<3>>("Concentrations<3>", Concentrations::new, pos),
    }
}

/// Everything created since the start must be gone, and nothing dropped twice.
fn balance_sheet() {
    let live = tracked::live();
    check(live.is_empty(), || "leaked".into(), || format!("{} values never dropped: {:?}", live.len(), &live[..live.len().min(8)]));
    let errs = tracked::errors();
    check(errs.is_empty(), || "dropped wrongly".into(), || format!("{:?}", &errs[..errs.len().min(4)]));
}

/// C10: a single caller, with and without crashes.
pub fn c10_single() {
    let n = 1 + choose(10);
    let crashes = chance(1, 2);
    for _ in 0..n {
        if chance(1, 4) { some_ctor() } else { some_check(crashes && chance(1, 2)) }
    }
    balance_sheet();
    sample(format!("{} owned-value checks in sequence, crashing predicates: {}", n, crashes));
}

/// C10: several callers at once.
pub fn c10_clients() {
    let k = 2 + choose(3);
    let scale = any_scale();
    let crashes = chance(1, 2);
    let mut cl: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..k {
        let n = 1 + choose(5);
        cl.push(Box::new(move || {
            for _ in 0..n {
                if chance(1, 4) { some_ctor() } else { some_check(crashes && chance(1, 2)) }
            }
        }));
    }
    run_clients(scale, cl);
    balance_sheet();
    sample(format!("{} clients interleaved (gap scale {}), crashing predicates: {}", k, scale, crashes));
}

// --- C11 -----------------------------------------------------------------------------------

/// A decision to be made repeatedly, in different histories and interleavings.
pub struct Decision {
    pub name: String,
    pub expect: bool,
    pub eval: Arc<dyn Fn() -> Result<Vec<bool>, Caught> + Send + Sync>,
}

fn decision<T, S>(name: &str, vgen: fn() -> T) -> Decision
where
    T: Owned + Clone,
    S: Shape<T> + Clone + Copy,
{
    let (c, p) = S::make(0);
    let v = vgen();
    let expect = p(&v);
    let name = format!("{:?} {} on {:?}", c, name, v.bits());
    Decision {
        name,
        expect,
        eval: Arc::new(move || {
            let (v1, v2) = (v.clone(), v.clone());
            sut("constraint", move || {
                let a = c.is_satisfied_by(&v1);
                let b = c.check(v2).is_ok();
                let d: Dyn<T> = Box::new(c);
                let e = d.is_satisfied_by(&v1);
                let f = d.check(v1).is_ok();
                vec![a, b, e, f]
            })
        }),
    }
}

fn param_decision<T, P>(name: &str, v: T, new: fn(T) -> Option<P>, admit: impl Fn(&T) -> bool) -> Decision
where
    T: Owned + Clone,
    P: Param<Value = T> + 'static,
{
    let expect = admit(&v);
    Decision {
        name: format!("{}::new({:?})", name, v.keys()),
        expect,
        eval: Arc::new(move || {
            let (v1, v2) = (v.clone(), v.clone());
            sut("param", move || {
                let a = new(v1).is_some();
                let b = P::constraints().iter().all(|c| c.is_satisfied_by(&v2));
                let c = P::constraints().into_iter().all(|c| c.check(v2.clone()).is_ok());
                vec![a, b, c]
            })
        }),
    }
}

fn vf() -> Vec<f64> { Vec::<f64>::fresh() }
fn good(n: usize) -> Vec<f64> { (0..n).map(|_| [1.0, 0.5, 2.0, 1e-300, 7.0][choose(5)]).collect() }
/// Mostly admissible vectors with at most one bad entry anywhere.
fn almost(n: usize) -> Vec<f64> {
    let mut v = good(n);
    if n > 0 && chance(1, 2) {
        let i = choose(n);
        v[i] = any_key();
    }
    v
}
fn vec_any() -> Vec<f64> {
    match choose(3) {
        0 => vf(),
        1 => almost(choose(9)),
        _ => almost(choose(200)),
    }
}
fn arr_any<const N: usize>() -> [f64; N] {
    let v = almost(N);
    std::array::from_fn(|i| v[i])
}

pub fn any_decision() -> Decision {
    macro_rules! d {
        ($t:ty, $g:expr; $($s:ty),*) => {{
            let names = [$(stringify!($s)),*];
            let k = choose(names.len());
            let mut i = 0;
            $( if k == i { return decision::<$t, $s>(names[i], $g); } i += 1; )*
            let _ = i;
            unreachable!()
        }};
    }
    macro_rules! p {
        ($p:ident, $t:ty, $v:expr, $a:expr) => {
            return param_decision::<$t, $p<$t>>(stringify!($p), $v, |v| $p::<$t>::new(v).ok(), $a)
        };
    }
    let allpos = |v: &Vec<f64>| v.iter().all(|k| *k > 0.0);
    let allnn = |v: &Vec<f64>| v.iter().all(|k| *k >= 0.0);
    match choose(30) {
        0..=3 => d!(f64, f64::fresh; Positive, NonNegative, Negative, NonPositive, LessThan<f64>, Equal<f64>, GreaterThan<f64>,
            LessThanOrEqual<f64>, GreaterThanOrEqual<f64>, Interval<f64>, All<Positive>, All<NonNegative>, All<Interval<f64>>,
            Not<Positive>, Not<Interval<f64>>, And<Positive, LessThan<f64>>, Or<Negative, GreaterThan<f64>>,
            Or<And<Positive, LessThan<f64>>, Equal<f64>>, And<Or<Negative, Positive>, Not<Equal<f64>>>,
            Not<And<NonNegative, NonPositive>>, Not<Or<Negative, Positive>>, All<And<NonNegative, LessThanOrEqual<f64>>>,
            And<Not<Negative>, Not<Positive>>, Or<Not<NonNegative>, Not<NonPositive>>, Not<Not<Positive>>, And<All<Positive>, All<LessThan<f64>>>),
        4 | 5 => d!(i64, i64::fresh; Positive, NonNegative, Negative, NonPositive, LessThan<i64>, Equal<i64>, GreaterThan<i64>,
            LessThanOrEqual<i64>, GreaterThanOrEqual<i64>, Interval<i64>, All<Positive>, All<Interval<i64>>, Not<All<NonNegative>>,
            And<NonNegative, LessThan<i64>>, Or<Negative, Equal<i64>>),
        6 => d!(usize, usize::fresh; Positive, NonNegative, Negative, NonPositive, LessThan<usize>, Equal<usize>, GreaterThan<usize>,
            All<Positive>, All<NonNegative>, Not<Positive>, Or<Equal<usize>, GreaterThan<usize>>),
        7 => {
            // Natural is only for primitive integers
            let v = i64::fresh();
            return Decision {
                name: format!("Natural on {}", v),
                expect: v > 0,
                eval: Arc::new(move || sut("constraint", move || vec![Natural.is_satisfied_by(&v), Natural.check(v).is_ok()])),
            };
        },
        8 | 9 => d!(Vec<f64>, vec_any; All<Positive>, All<NonNegative>, All<Not<Negative>>, All<And<Positive, LessThan<f64>>>, All<Or<Negative, Positive>>,
            Empty, Not<Empty>, And<All<Positive>, Not<Empty>>, Or<Empty, All<Negative>>, Not<All<Positive>>, All<Interval<f64>>),
        10 => d!([f64; 0], arr_any::<0>; All<Positive>, Empty, Not<Empty>, And<All<Positive>, Not<Empty>>),
        11 => d!([f64; 1], arr_any::<1>; All<Positive>, Empty, Not<Empty>, And<All<Positive>, Not<Empty>>, Not<All<Positive>>),
        12 => d!([f64; 4], arr_any::<4>; All<Positive>, All<NonNegative>, Empty, Not<Empty>, And<All<Positive>, Not<Empty>>, Or<Empty, All<Negative>>, All<Interval<f64>>, All<Not<Equal<f64>>>),
        13 => d!([f64; 9], arr_any::<9>; All<Positive>, All<NonNegative>, Not<All<Positive>>, And<All<Positive>, All<LessThanOrEqual<f64>>>),
        14 => p!(Scale, f64, f64::fresh(), |v| *v > 0.0),
        15 => p!(Rate, f64, f64::fresh(), |v| *v > 0.0),
        16 => p!(ShapeParam, f64, f64::fresh(), |v| *v > 0.0),
        17 => p!(DOF, f64, f64::fresh(), |v| *v > 0.0),
        18 => match choose(3) {
            0 => p!(Count, f64, f64::fresh(), |v| *v >= 0.0),
            1 => p!(Count, usize, usize::fresh(), |_| true),
            _ => p!(Count, i64, i64::fresh(), |v| *v >= 0),
        },
        19 => match choose(3) {
            0 => p!(DOF, usize, usize::fresh(), |v| *v > 0),
            1 => p!(Scale, i64, i64::fresh(), |v| *v > 0),
            _ => p!(Loc, f64, f64::fresh(), |_| true),
        },
        20 => match choose(4) {
            0 => p!(Scale, Vec<f64>, vec_any(), allpos),
            1 => p!(Rate, Vec<f64>, vec_any(), allpos),
            2 => p!(ShapeParam, Vec<f64>, vec_any(), allpos),
            _ => p!(Count, Vec<f64>, vec_any(), allnn),
        },
        21 => p!(Scale, [f64; 4], arr_any::<4>(), |v| v.iter().all(|k| *k > 0.0)),
        22 => p!(Count, [f64; 7], arr_any::<7>(), |v| v.iter().all(|k| *k >= 0.0)),
        23 => p!(DOF, [f64; 0], [], |_| true),
        24 => param_decision::<f64, Corr>("Corr", [0.0, 1.0, -1.0, 0.5, -0.99, 1.0000000000000002, -1.0000000000000002, f64::NAN, f64::INFINITY, 2.0, -3.0][choose(11)], |v| Corr::new(v).ok(), |v| *v >= -1.0 && *v <= 1.0),
        25 => param_decision::<[f64; 0], Concentrations<0>>("Concentrations<0>", [], |v| Concentrations::new(v).ok(), |_| false),
        26 => param_decision::<[f64; 1], Concentrations<1>>("Concentrations<1>", arr_any(), |v| Concentrations::new(v).ok(), |v| v[0] > 0.0),
        27 => param_decision::<[f64; 5], Concentrations<5>>("Concentrations<5>", arr_any(), |v| Concentrations::new(v).ok(), |v| v.iter().all(|k| *k > 0.0)),
        28 => {
            // parameter sets decide as all of their parts
            let (n, l, nu, mu) = (usize::fresh(), f64::fresh(), f64::fresh(), f64::fresh());
            let (l, nu) = if chance(1, 2) { (l.abs(), nu.abs()) } else { (l, nu) };
            Decision {
                name: format!("params!({}, {}, {}, {})", n, l, nu, mu),
                expect: l > 0.0 && nu > 0.0,
                eval: Arc::new(move || {
                    sut("params", move || {
                        let r = rcore::sets::mix::Params::new(n, l, nu, mu);
                        if let Ok(p) = &r {
                            let same = *p.n.value() == n && p.lambda.value().to_bits() == l.to_bits() && p.nu.value().to_bits() == nu.to_bits() && p.mu.value().to_bits() == mu.to_bits();
                            if !same {
                                callback(|| violation("params!: parts differ from the arguments", format!("gave ({}, {}, {}, {})", n, l, nu, mu)));
                            }
                        }
                        vec![r.is_ok()]
                    })
                }),
            }
        },
        _ => {
            let (a, b) = (any_key(), any_key());
            let which = choose(3);
            Decision {
                name: format!("params set {} ({}, {})", which, a, b),
                expect: match which { 0 => b > 0.0, 1 => a > 0.0 && b > 0.0, _ => a > 0.0 },
                eval: Arc::new(move || {
                    sut("params", move || match which {
                        0 => {
                            let r = rcore::sets::ls::Params::new(a, b);
                            if let Ok(p) = &r {
                                if p.mu.value().to_bits() != a.to_bits() || p.sigma.value().to_bits() != b.to_bits() {
                                    callback(|| violation("params!: parts differ from the arguments", format!("gave ({}, {})", a, b)));
                                }
                            }
                            vec![r.is_ok()]
                        },
                        1 => {
                            let r = rcore::sets::sh::Params::new(a, b);
                            if let Ok(p) = &r {
                                if p.alpha.value().to_bits() != a.to_bits() || p.beta.value().to_bits() != b.to_bits() {
                                    callback(|| violation("params!: parts differ from the arguments", format!("gave ({}, {})", a, b)));
                                }
                            }
                            vec![r.is_ok()]
                        },
                        _ => vec![rcore::sets::vecs::Params::new(vec![1.0, a], vec![b, a]).is_ok()],
                    })
                }),
            }
        },
    }
}

fn short(n: &str) -> String {
    // class: constraint/constructor, without the concrete value
    n.split(" on ").next().unwrap().split('(').next().unwrap().split('{').next().unwrap().trim().to_string()
}

fn decide(d: &Decision, when: &str) {
    let r = (d.eval)();
    match r {
        Ok(v) => {
            note(hash_bytes(d.name.as_bytes()));
            note(v.iter().fold(0, |h, b| h * 2 + *b as u64));
            check(
                v.iter().all(|b| *b == d.expect),
                || format!("decision: {}", short(&d.name)),
                || format!("{}: expected {} every way of asking, got {:?} ({})", d.name, d.expect, v, when),
            );
        },
        Err(c) => violation(&format!("decision panicked: {}", short(&d.name)), format!("{}: {:?} ({})", d.name, c, when)),
    }
}

/// C11: decisions in arbitrary histories: earlier checks, refusals and crashes.
pub fn c11_history() {
    let n = 2 + choose(12);
    let ds: Vec<Decision> = (0..n).map(|_| any_decision()).collect();
    for d in &ds {
        decide(d, "first time asked");
        state(mix(hash_bytes(short(&d.name).as_bytes()), d.expect as u64));
    }
    let rounds = 1 + choose(3);
    for r in 0..rounds {
        match choose(4) {
            0 => {},
            1 => {
                // a burst of refusals or admissions
                let d = &ds[choose(n)];
                let k = [3, 40, 300, 3000][choose(4)];
                for _ in 0..k {
                    decide(d, "in a burst");
                }
                count("burst-decisions", k as u64);
                log!("burst of {} x {}", k, d.name);
            },
            2 => {
                some_check(true);
                log!("crashing check");
            },
            _ => some_ctor(),
        }
        for _ in 0..2 * n {
            let d = &ds[choose(n)];
            decide(d, if r == 0 { "after other checks" } else { "after a burst, refusal or crash" });
        }
    }
    let errs = tracked::errors();
    check(errs.is_empty(), || "dropped wrongly".into(), || format!("{:?}", errs));
    sample(format!("history over {} decisions, e.g. {}", n, ds[0].name));
}

/// C11: a very long history, so that counters and caches inside would wrap or fill.
pub fn c11_long() {
    let ds: Vec<Decision> = (0..6).map(|_| any_decision()).collect();
    let k = [300, 5000, 70_000][choose(3)];
    log!("{} decisions cycling over {}", k, ds.len());
    for i in 0..k {
        decide(&ds[i % ds.len()], "in a long history");
    }
    count("long-history-decisions", k as u64);
    sample(format!("{} decisions in one history, e.g. {}", k, ds[0].name));
}

/// C11: shared decisions asked by interleaved clients.
pub fn c11_clients() {
    let n = 2 + choose(6);
    let ds: Arc<Vec<Decision>> = Arc::new((0..n).map(|_| any_decision()).collect());
    let k = 2 + choose(3);
    let scale = any_scale();
    let seen = Arc::new(Mutex::new(BTreeSet::new()));
    let mut cl: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..k {
        let ds = ds.clone();
        let seen = seen.clone();
        let m = 2 + choose(10);
        cl.push(Box::new(move || {
            for _ in 0..m {
                let i = choose(n);
                decide(&ds[i], "while other clients check");
                if chance(1, 10) {
                    some_check(true);
                }
                seen.lock().unwrap().insert(i);
            }
        }));
    }
    run_clients(scale, cl);
    sample(format!("{} clients, gap scale {}, {} shared decisions, e.g. {}", k, scale, n, ds[0].name));
}

/// C09: crash inside a predicate, then go on; nothing may differ from a process that never crashed.
pub fn c09_predicates() {
    let n = 2 + choose(6);
    let ds: Vec<Decision> = (0..n).map(|_| any_decision()).collect();
    // reference: the same decisions, each in a fresh process without any crash
    let mut reference = vec![];
    for d in &ds {
        let e = d.eval.clone();
        reference.push(fresh_process(move || match e() {
            Ok(v) => v.iter().map(|b| *b as u8).collect(),
            Err(_) => vec![9],
        }));
    }
    let crashes = 1 + choose(4);
    for _ in 0..crashes {
        some_check(true);
        let i = choose(n);
        let now: Vec<u8> = match (ds[i].eval)() {
            Ok(v) => v.iter().map(|b| *b as u8).collect(),
            Err(_) => vec![9],
        };
        check(
            Some(&now) == reference[i].as_ref(),
            || format!("after a crash: {}", short(&ds[i].name)),
            || format!("{}: {:?} in a process that never crashed, {:?} after a crash in a predicate", ds[i].name, reference[i], now),
        );
    }
    balance_sheet();
    sample(format!("{} crashing checks against {} reference decisions", crashes, n));
}
