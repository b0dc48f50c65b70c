//! Stand-in for the `spaces` crate (path dependency `../spaces` of rstat, absent here).
//! Only what the rstat sources use (and a little more) is modelled: interval-like sets
//! with explicit bounds, products of them, and union/closure.

#[cfg(feature = "serde")]
#[macro_use]
extern crate serde_crate;

/// Minimal membership/space trait.
pub trait Space {
    type Value;
    fn contains(&self, val: &Self::Value) -> bool;
}

pub trait OrderedSpace: Space {
    fn inf(&self) -> Option<Self::Value>;
    fn sup(&self) -> Option<Self::Value>;
    fn min(&self) -> Option<Self::Value> { self.inf() }
    fn max(&self) -> Option<Self::Value> { self.sup() }
}

pub trait FiniteSpace: OrderedSpace {}

impl<S: Space, const N: usize> Space for [S; N] {
    type Value = [S::Value; N];
    fn contains(&self, val: &[S::Value; N]) -> bool {
        self.iter().zip(val.iter()).all(|(s, v)| s.contains(v))
    }
}

pub mod ops {
    use super::Space;

    pub trait Closure {
        type Output: Space;
        fn closure(self) -> Self::Output;
    }

    pub trait Union<S> {
        type Output;
        fn union(self, other: S) -> Self::Output;
        fn union_closure(self, other: S) -> <Self::Output as Closure>::Output
        where
            Self: Sized,
            Self::Output: Closure,
        {
            self.union(other).closure()
        }
    }

    pub trait Intersection<S> {
        type Output;
        fn intersect(self, other: S) -> Self::Output;
    }
}

pub mod bounds {
    macro_rules! bound {
        ($name:ident) => {
            #[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
            #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(crate = "serde_crate"))]
            pub struct $name<T>(pub T);
        };
    }
    bound!(Closed);
    bound!(Open);

    #[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
    #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(crate = "serde_crate"))]
    pub struct NoBound<T>(pub std::marker::PhantomData<T>);

    pub trait Bound: Clone {
        type Value: PartialOrd + Copy;
        fn value(&self) -> Option<Self::Value>;
        fn below(&self, x: &Self::Value) -> bool;
        fn above(&self, x: &Self::Value) -> bool;
    }
    impl<T: PartialOrd + Copy> Bound for Closed<T> {
        type Value = T;
        fn value(&self) -> Option<T> { Some(self.0) }
        fn below(&self, x: &T) -> bool { self.0 <= *x }
        fn above(&self, x: &T) -> bool { self.0 >= *x }
    }
    impl<T: PartialOrd + Copy> Bound for Open<T> {
        type Value = T;
        fn value(&self) -> Option<T> { Some(self.0) }
        fn below(&self, x: &T) -> bool { self.0 < *x }
        fn above(&self, x: &T) -> bool { self.0 > *x }
    }
    impl<T: PartialOrd + Copy> Bound for NoBound<T> {
        type Value = T;
        fn value(&self) -> Option<T> { None }
        // rules NaN out, like a comparison with a real bound would
        fn below(&self, x: &T) -> bool { *x == *x }
        fn above(&self, x: &T) -> bool { *x == *x }
    }
}

pub mod intervals {
    use crate::bounds::{self, Bound, NoBound};
    use crate::ops::{Closure, Union};
    use crate::{OrderedSpace, Space};

    #[derive(Debug, Clone, Copy, PartialEq)]
    #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(crate = "serde_crate"))]
    pub struct Interval<L, R = L> {
        pub left: L,
        pub right: R,
    }

    pub type Closed<T> = Interval<bounds::Closed<T>, bounds::Closed<T>>;
    pub type Open<T> = Interval<bounds::Open<T>, bounds::Open<T>>;
    pub type LeftClosed<T> = Interval<bounds::Closed<T>, NoBound<T>>;
    pub type LeftOpen<T> = Interval<bounds::Open<T>, NoBound<T>>;
    pub type RightClosed<T> = Interval<NoBound<T>, bounds::Closed<T>>;
    pub type RightOpen<T> = Interval<NoBound<T>, bounds::Open<T>>;
    pub type Unbounded<T> = Interval<NoBound<T>, NoBound<T>>;

    fn nb<T>() -> NoBound<T> { NoBound(std::marker::PhantomData) }

    impl<L, R> Interval<L, R> {
        pub fn new(left: L, right: R) -> Self { Interval { left, right } }
    }

    impl<T: PartialOrd> Interval<bounds::Closed<T>, bounds::Closed<T>> {
        pub fn closed_unchecked(a: T, b: T) -> Self {
            Interval { left: bounds::Closed(a), right: bounds::Closed(b) }
        }
        pub fn closed(a: T, b: T) -> Self { Self::closed_unchecked(a, b) }
    }
    impl Interval<bounds::Closed<f64>, bounds::Closed<f64>> {
        pub fn unit() -> Self { Self::closed_unchecked(0.0, 1.0) }
    }
    impl<T: PartialOrd> Interval<bounds::Open<T>, bounds::Open<T>> {
        pub fn open_unchecked(a: T, b: T) -> Self {
            Interval { left: bounds::Open(a), right: bounds::Open(b) }
        }
        pub fn open(a: T, b: T) -> Self { Self::open_unchecked(a, b) }
    }
    impl<T> Interval<bounds::Closed<T>, NoBound<T>> {
        pub fn left_closed(a: T) -> Self { Interval { left: bounds::Closed(a), right: nb() } }
    }
    impl<T> Interval<bounds::Open<T>, NoBound<T>> {
        pub fn left_open(a: T) -> Self { Interval { left: bounds::Open(a), right: nb() } }
    }
    impl<T> Interval<NoBound<T>, bounds::Closed<T>> {
        pub fn right_closed(b: T) -> Self { Interval { left: nb(), right: bounds::Closed(b) } }
    }
    impl<T> Interval<NoBound<T>, bounds::Open<T>> {
        pub fn right_open(b: T) -> Self { Interval { left: nb(), right: bounds::Open(b) } }
    }
    impl<T> Interval<NoBound<T>, NoBound<T>> {
        pub fn unbounded() -> Self { Interval { left: nb(), right: nb() } }
    }

    impl<T, L, R> Space for Interval<L, R>
    where
        L: Bound<Value = T>,
        R: Bound<Value = T>,
    {
        type Value = T;
        fn contains(&self, x: &T) -> bool { self.left.below(x) && self.right.above(x) }
    }

    impl<T, L, R> OrderedSpace for Interval<L, R>
    where
        L: Bound<Value = T>,
        R: Bound<Value = T>,
    {
        fn inf(&self) -> Option<T> { self.left.value() }
        fn sup(&self) -> Option<T> { self.right.value() }
    }

    /// Two intervals of the same kind, seen as the union of both.
    #[derive(Debug, Clone, Copy)]
    pub struct Pair<L, R>(pub Interval<L, R>, pub Interval<L, R>);

    impl<T, L, R> Union<Interval<L, R>> for Interval<L, R>
    where
        L: Bound<Value = T>,
        R: Bound<Value = T>,
    {
        type Output = Pair<L, R>;
        fn union(self, other: Interval<L, R>) -> Pair<L, R> { Pair(self, other) }
    }

    impl<T, L, R> Closure for Pair<L, R>
    where
        T: PartialOrd + Copy,
        L: Bound<Value = T>,
        R: Bound<Value = T>,
    {
        type Output = Interval<L, R>;
        fn closure(self) -> Interval<L, R> {
            let left = match (self.0.left.value(), self.1.left.value()) {
                (Some(a), Some(b)) if b < a => self.1.left,
                _ => self.0.left,
            };
            let right = match (self.0.right.value(), self.1.right.value()) {
                (Some(a), Some(b)) if b > a => self.1.right,
                _ => self.0.right,
            };
            Interval { left, right }
        }
    }
}

impl<S, const N: usize> ops::Union<[S; N]> for [S; N]
where
    S: ops::Union<S> + Clone,
{
    type Output = [S::Output; N];
    fn union(self, other: [S; N]) -> Self::Output {
        let mut i = 0;
        self.map(|a| {
            let o = other[i].clone();
            i += 1;
            a.union(o)
        })
    }
}

impl<P, const N: usize> ops::Closure for [P; N]
where
    P: ops::Closure,
{
    type Output = [P::Output; N];
    fn closure(self) -> Self::Output { self.map(|p| p.closure()) }
}

pub mod real {
    use crate::intervals::{LeftClosed, LeftOpen, Unbounded};

    pub type Reals<T> = Unbounded<T>;
    pub type PositiveReals<T> = LeftOpen<T>;
    pub type NonNegativeReals<T> = LeftClosed<T>;

    pub fn reals<T>() -> Reals<T> { Reals::unbounded() }
    pub fn positive_reals<T: num_zero::Zero>() -> PositiveReals<T> { LeftOpen::left_open(T::ZERO) }
    pub fn non_negative_reals<T: num_zero::Zero>() -> NonNegativeReals<T> {
        LeftClosed::left_closed(T::ZERO)
    }

    pub mod num_zero {
        pub trait Zero {
            const ZERO: Self;
        }
        impl Zero for f64 {
            const ZERO: f64 = 0.0;
        }
        impl Zero for f32 {
            const ZERO: f32 = 0.0;
        }
        impl Zero for u64 {
            const ZERO: u64 = 0;
        }
        impl Zero for usize {
            const ZERO: usize = 0;
        }
        impl Zero for i64 {
            const ZERO: i64 = 0;
        }
    }
}

pub mod discrete {
    use crate::intervals::{LeftClosed, Unbounded};
    use crate::ops::{Closure, Union};
    use crate::real::num_zero::Zero;
    use crate::Space;

    pub type Integers<T> = Unbounded<T>;
    pub type NonNegativeIntegers<T> = LeftClosed<T>;
    /// Whether the real crate's naturals start at 0 or 1 is not known here: 0 is admitted.
    pub type Naturals<T> = LeftClosed<T>;

    pub fn integers<T>() -> Integers<T> { Integers::unbounded() }
    pub fn non_negative_integers<T: Zero>() -> NonNegativeIntegers<T> {
        LeftClosed::left_closed(T::ZERO)
    }
    pub fn naturals<T: Zero>() -> Naturals<T> { LeftClosed::left_closed(T::ZERO) }

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(crate = "serde_crate"))]
    pub struct Binary;

    pub fn binary() -> Binary { Binary }

    impl Space for Binary {
        type Value = bool;
        fn contains(&self, _: &bool) -> bool { true }
    }
    impl Union<Binary> for Binary {
        type Output = Binary;
        fn union(self, _: Binary) -> Binary { Binary }
    }
    impl Closure for Binary {
        type Output = Binary;
        fn closure(self) -> Binary { Binary }
    }
}
