#![allow(dead_code)]
#![allow(warnings)]

extern crate failure;

extern crate rand;
extern crate rand_distr;

extern crate num;
extern crate special_fun;

#[cfg_attr(feature = "serde", macro_use)]
#[cfg(feature = "serde")]
extern crate serde_crate;

macro_rules! undefined {
    () => (panic!("quantity undefined"));
    ($($arg:tt)+) => (panic!("quantity undefined: {}", std::format_args!($($arg)+)));
}

#[path = "/repo/src/consts.rs"]
mod consts;
#[path = "/repo/src/utils.rs"]
mod utils;

#[macro_use]
#[path = "/repo/src/params/mod.rs"]
pub mod params;

#[path = "/repo/src/normal"]
pub mod normal {
    #[path = "linalg.rs"]
    pub(crate) mod linalg;
}

/// Parameter sets built with the crate's own macros (they are not exported).
pub mod sets {
    pub mod ls {
        locscale_params! { #[derive(Copy)] Params { mu<f64>, sigma<f64> } }
    }
    pub mod sh {
        shape_params! { Params<f64> { alpha, beta } }
    }
    pub mod mix {
        pub use crate::params::{Count, Loc, Rate, DOF, Corr};
        params! { Params { n: Count<usize>, lambda: Rate<f64>, nu: DOF<f64>, mu: Loc<f64> } }
    }
    pub mod vecs {
        pub use crate::params::{Shape, Loc};
        type V = Vec<f64>;
        params! { Params { a: Shape<V>, b: Loc<V> } }
    }
}

/// Doors to the crate-private helpers.
pub mod door {
    pub fn cholesky<const N: usize>(m: [[f64; N]; N]) -> [[f64; N]; N] {
        #[allow(unused_unsafe)]
        unsafe { crate::normal::linalg::cholesky(m) }
    }
    pub fn inverse_lt<const N: usize>(m: [[f64; N]; N]) -> [[f64; N]; N] {
        #[allow(unused_unsafe)]
        unsafe { crate::normal::linalg::inverse_lt(m) }
    }
    pub fn mm_square<const N: usize>(m: &[[f64; N]; N]) -> [[f64; N]; N] {
        #[allow(unused_unsafe)]
        unsafe { crate::normal::linalg::mm_square(m) }
    }
    pub fn mv_mult<const N: usize>(m: &[[f64; N]; N], v: [f64; N]) -> [f64; N] {
        #[allow(unused_unsafe)]
        unsafe { crate::normal::linalg::mv_mult(m, v) }
    }

    /// An array stored with the crate's array helpers, over any element type.
    #[cfg(feature = "serde")]
    #[derive(Debug, Serialize, Deserialize)]
    #[serde(crate = "serde_crate")]
    #[serde(bound(
        serialize = "T: serde_crate::Serialize",
        deserialize = "T: serde_crate::de::DeserializeOwned"
    ))]
    pub struct Arr<T, const N: usize>(#[serde(with = "crate::utils::serde_arrays")] pub [T; N]);

    pub mod u {
        pub use crate::utils::{choose, factorial, factorial_exact, log_factorial_stirling};
    }
}
