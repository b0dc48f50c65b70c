//! Owned, identified values and user-written predicates for the constraint scenarios.
use rcore::params::constraints::{
    All, And, Constraint, Empty, Equal, GreaterThan, GreaterThanOrEqual, Interval, LessThan, LessThanOrEqual, Negative,
    NonNegative, NonPositive, Not, Or, Positive,
};
use simcore::sched::yield_point;
use simcore::tracked::Tracked;
use simcore::*;
use std::cell::Cell;
use std::fmt;
use std::sync::Arc;

thread_local! {
    static CRASH_IN: Cell<i64> = const { Cell::new(-1) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

/// Arrange for the k-th user callback from now on this client to crash (negative: never).
pub fn arm(k: i64) { CRASH_IN.with(|c| c.set(k)) }
pub fn calls() -> u64 { CALLS.with(|c| c.get()) }

/// Every call from the code under test into user code passes here.
pub fn user_callback() {
    yield_point(0x4001);
    CALLS.with(|c| c.set(c.get() + 1));
    let k = CRASH_IN.with(|c| c.get());
    if k == 0 {
        CRASH_IN.with(|c| c.set(-1));
        fault("predicate-crash");
        crash_now(0);
    }
    if k > 0 {
        CRASH_IN.with(|c| c.set(k - 1));
    }
}

/// A number that owns heap memory and has an identity.
pub struct Num(pub Tracked);
impl Num {
    pub fn new(k: f64) -> Num { Num(Tracked::new(k)) }
    pub fn key(&self) -> f64 { self.0.key }
}
impl fmt::Debug for Num {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { callback(|| write!(f, "Num({:?})", self.0.key)) }
}
impl PartialEq for Num {
    fn eq(&self, o: &Num) -> bool {
        callback(|| {
            user_callback();
            self.key() == o.key()
        })
    }
}
impl PartialOrd for Num {
    fn partial_cmp(&self, o: &Num) -> Option<std::cmp::Ordering> {
        callback(|| {
            user_callback();
            self.key().partial_cmp(&o.key())
        })
    }
}
impl std::ops::Add for Num {
    type Output = Num;
    fn add(self, o: Num) -> Num { callback(|| Num::new(self.key() + o.key())) }
}
impl num::Zero for Num {
    fn zero() -> Num { callback(|| Num::new(0.0)) }
    fn is_zero(&self) -> bool { callback(|| self.key() == 0.0) }
}

/// What the predicates can see of a value.
pub trait Val: fmt::Debug + Send + Sync + Sized + 'static {
    fn keys(&self) -> Vec<f64>;
}
impl Val for Num {
    fn keys(&self) -> Vec<f64> { vec![self.key()] }
}
impl Val for f64 {
    fn keys(&self) -> Vec<f64> { vec![*self] }
}
impl Val for i64 {
    fn keys(&self) -> Vec<f64> { vec![*self as f64] }
}
impl Val for usize {
    fn keys(&self) -> Vec<f64> { vec![*self as f64] }
}
impl<T: Val> Val for Vec<T> {
    fn keys(&self) -> Vec<f64> { self.iter().flat_map(|v| v.keys()).collect() }
}
impl<T: Val, const N: usize> Val for [T; N] {
    fn keys(&self) -> Vec<f64> { self.iter().flat_map(|v| v.keys()).collect() }
}

pub type Pred<T> = Arc<dyn Fn(&T) -> bool + Send + Sync>;

pub const BOUNDS: [f64; 5] = [0.0, 1.0, -1.5, 2.0, 0.5];

/// A user-written constraint. It owns a tracked value, so constraint objects are counted too.
pub struct Leaf {
    pub kind: usize,
    pub bound: f64,
    pub own: Tracked,
}
impl Leaf {
    pub fn holds(kind: usize, bound: f64, ks: &[f64]) -> bool {
        match kind {
            0 => true,
            1 => false,
            2 => ks.iter().all(|k| *k > bound),
            3 => ks.iter().all(|k| *k <= bound),
            4 => ks.iter().any(|k| *k == bound),
            5 => ks.iter().any(|k| k.is_nan()),
            6 => ks.len() % 2 == 0,
            _ => ks.iter().sum::<f64>() > bound,
        }
    }
}
impl fmt::Debug for Leaf {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "Leaf{}<{:?}>", self.kind, self.bound) }
}
impl fmt::Display for Leaf {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "leaf{}<{:?}>", self.kind, self.bound) }
}
impl<T: Val> Constraint<T> for Leaf {
    fn is_satisfied_by(&self, v: &T) -> bool {
        callback(|| {
            user_callback();
            Leaf::holds(self.kind, self.bound, &v.keys())
        })
    }
}

/// A constraint expression with its reference meaning.
pub trait Shape<T: Val>: Constraint<T> + Sized + 'static {
    fn make(depth: usize) -> (Self, Pred<T>);
}

impl<T: Val> Shape<T> for Leaf {
    fn make(_: usize) -> (Leaf, Pred<T>) {
        let kind = choose(8);
        let bound = *pick(&BOUNDS);
        (
            Leaf { kind, bound, own: Tracked::new(bound) },
            Arc::new(move |v: &T| Leaf::holds(kind, bound, &v.keys())),
        )
    }
}
impl<T: Val, C: Shape<T>> Shape<T> for Not<C> {
    fn make(d: usize) -> (Self, Pred<T>) {
        let (c, p) = C::make(d);
        (Not(c), Arc::new(move |v| !p(v)))
    }
}
impl<T: Val, A: Shape<T>, B: Shape<T>> Shape<T> for And<A, B> {
    fn make(d: usize) -> (Self, Pred<T>) {
        let (a, p) = A::make(d);
        let (b, q) = B::make(d);
        (And((a, b)), Arc::new(move |v| { let x = p(v); let y = q(v); x && y }))
    }
}
impl<T: Val, A: Shape<T>, B: Shape<T>> Shape<T> for Or<A, B> {
    fn make(d: usize) -> (Self, Pred<T>) {
        let (a, p) = A::make(d);
        let (b, q) = B::make(d);
        (Or((a, b)), Arc::new(move |v| { let x = p(v); let y = q(v); x || y }))
    }
}
impl<T: Val, C: Shape<T>> Shape<Vec<T>> for All<C> {
    fn make(d: usize) -> (Self, Pred<Vec<T>>) {
        let (c, p) = C::make(d);
        (All(c), Arc::new(move |v: &Vec<T>| v.iter().all(|x| p(x))))
    }
}
impl<T: Val, C: Shape<T>, const N: usize> Shape<[T; N]> for All<C> {
    fn make(d: usize) -> (Self, Pred<[T; N]>) {
        let (c, p) = C::make(d);
        (All(c), Arc::new(move |v: &[T; N]| v.iter().all(|x| p(x))))
    }
}
macro_rules! all_scalar {
    ($($t:ty),*) => {$(
        impl<C: Shape<$t>> Shape<$t> for All<C> {
            fn make(d: usize) -> (Self, Pred<$t>) {
                let (c, p) = C::make(d);
                (All(c), p)
            }
        }
    )*};
}
all_scalar!(f64, i64, usize);

impl<T: Val> Shape<Vec<T>> for Empty {
    fn make(_: usize) -> (Self, Pred<Vec<T>>) { (Empty, Arc::new(|v: &Vec<T>| v.is_empty())) }
}
impl<T: Val, const N: usize> Shape<[T; N]> for Empty {
    fn make(_: usize) -> (Self, Pred<[T; N]>) { (Empty, Arc::new(|_: &[T; N]| N == 0)) }
}

/// Values ordered against a bound.
pub trait Ord1: Val + PartialOrd {
    fn of(k: f64) -> Self;
}
impl Ord1 for Num {
    fn of(k: f64) -> Num { Num::new(k) }
}
impl Ord1 for f64 {
    fn of(k: f64) -> f64 { k }
}
impl Ord1 for i64 {
    fn of(k: f64) -> i64 { k as i64 }
}
impl Ord1 for usize {
    fn of(k: f64) -> usize { k.abs() as usize }
}
macro_rules! bounded {
    ($($name:ident $op:tt;)*) => {$(
        impl<T: Ord1> Shape<T> for $name<T> {
            fn make(_: usize) -> (Self, Pred<T>) {
                let b = T::of(*pick(&BOUNDS));
                let k = b.keys()[0];
                ($name(b), Arc::new(move |v: &T| v.keys()[0] $op k))
            }
        }
    )*};
}
bounded! { Equal ==; LessThan <; LessThanOrEqual <=; GreaterThan >; GreaterThanOrEqual >=; }

impl<T: Ord1> Shape<T> for Interval<T> {
    fn make(_: usize) -> (Self, Pred<T>) {
        let (a, b) = (T::of(*pick(&BOUNDS)), T::of(*pick(&BOUNDS)));
        let (lo, hi) = (a.keys()[0], b.keys()[0]);
        (Interval { lb: a, ub: b }, Arc::new(move |v: &T| { let k = v.keys()[0]; k >= lo && k <= hi }))
    }
}
macro_rules! signed {
    ($($name:ident $op:tt;)*) => {$(
        impl<T: Ord1 + num::Zero> Shape<T> for $name {
            fn make(_: usize) -> (Self, Pred<T>) { ($name, Arc::new(|v: &T| v.keys()[0] $op 0.0)) }
        }
    )*};
}
signed! { Negative <; NonPositive <=; Positive >; NonNegative >=; }

pub type Dyn<T> = Box<dyn Constraint<T>>;
/// Boxed, dynamically chosen expressions.
pub trait Boxed: Val {
    fn boxed(depth: usize) -> (Dyn<Self>, Pred<Self>);
}
fn bx<T: Val, S: Shape<T>>(d: usize) -> (Dyn<T>, Pred<T>) {
    let (s, p) = S::make(d);
    (Box::new(s), p)
}
macro_rules! boxed_impl {
    ([$($g:tt)*] $t:ty; $($s:ty),*) => {
        impl<$($g)*> Boxed for $t {
            fn boxed(depth: usize) -> (Dyn<$t>, Pred<$t>) {
                let n = [$(stringify!($s)),*].len();
                let k = if depth == 0 { choose(n) } else { choose(n + 4) };
                let mut i = 0;
                $( if k == i { return bx::<$t, $s>(depth); } i += 1; )*
                let _ = i;
                match k - n {
                    0 => bx::<$t, Not<Dyn<$t>>>(depth - 1),
                    1 => bx::<$t, And<Dyn<$t>, Dyn<$t>>>(depth - 1),
                    2 => bx::<$t, Or<Dyn<$t>, Dyn<$t>>>(depth - 1),
                    _ => bx::<$t, Dyn<$t>>(depth - 1),
                }
            }
        }
    };
}
boxed_impl!([] Num; Leaf, LessThan<Num>, Equal<Num>, GreaterThan<Num>, LessThanOrEqual<Num>, GreaterThanOrEqual<Num>, Interval<Num>, Positive, Negative, NonNegative, NonPositive);
boxed_impl!([] f64; Leaf, LessThan<f64>, Equal<f64>, GreaterThan<f64>, LessThanOrEqual<f64>, GreaterThanOrEqual<f64>, Interval<f64>, Positive, Negative, NonNegative, NonPositive, All<Positive>, All<Not<NonNegative>>, All<And<Leaf, LessThan<f64>>>);
boxed_impl!([] i64; Leaf, LessThan<i64>, Equal<i64>, GreaterThan<i64>, LessThanOrEqual<i64>, GreaterThanOrEqual<i64>, Interval<i64>, Positive, Negative, NonNegative, NonPositive, All<NonNegative>, All<Or<Leaf, Negative>>);
boxed_impl!([] usize; Leaf, LessThan<usize>, Equal<usize>, GreaterThan<usize>, Positive, NonNegative, All<Positive>, All<Interval<usize>>);
boxed_impl!([T: Ord1 + num::Zero] Vec<T>; Leaf, All<Positive>, All<Not<LessThan<T>>>, All<And<Leaf, GreaterThan<T>>>, Empty, Not<Empty>, And<All<Leaf>, Not<Empty>>, All<Or<Leaf, Interval<T>>>);
boxed_impl!([T: Ord1 + num::Zero, const N: usize] [T; N]; Leaf, All<Positive>, All<Not<LessThan<T>>>, All<And<Leaf, GreaterThan<T>>>, And<All<Leaf>, All<NonNegative>>, All<Or<Leaf, Interval<T>>>, Empty, Not<Empty>);

impl<T: Boxed> Shape<T> for Dyn<T> {
    fn make(d: usize) -> (Self, Pred<T>) { T::boxed(d.min(3)) }
}
