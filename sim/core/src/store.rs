//! C13/C14 on the modules that build without `spaces`: parameters, sets and array storage.
use crate::cons::any_key;
use rcore::door::Arr;
use rcore::params::*;
use serde::de::{DeserializeOwned, Deserializer};
use serde::ser::Serializer;
use serde::{Deserialize, Serialize};
use simcore::kit::*;
use simcore::sched::{any_scale, run_clients, yield_point};
use simcore::tracked::{self, Tracked};
use simcore::*;
use std::cell::Cell;
use std::fmt::Debug;

thread_local! {
    static FAIL_AT: Cell<i64> = const { Cell::new(-1) };
    static CRASH_AT: Cell<i64> = const { Cell::new(-1) };
}

/// An element with identity whose (de)serialisation can fail or crash.
pub struct Elem(Tracked);
fn tick() -> bool {
    yield_point(0x5001);
    let c = CRASH_AT.with(|c| c.replace(c.get() - 1));
    if c == 0 {
        fault("element-crash");
        crash_now(0);
    }
    FAIL_AT.with(|c| c.replace(c.get() - 1)) == 0
}
impl Serialize for Elem {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if callback(tick) {
            fault("element-write-error");
            return Err(serde::ser::Error::custom("simulated element error"));
        }
        s.serialize_f64(self.0.key)
    }
}
impl<'de> Deserialize<'de> for Elem {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Elem, D::Error> {
        let k = f64::deserialize(d)?;
        if callback(tick) {
            fault("element-read-error");
            return Err(serde::de::Error::custom("simulated element error"));
        }
        Ok(callback(|| Elem(Tracked::new(k))))
    }
}
fn arm(fail: i64, crash: i64) {
    FAIL_AT.with(|c| c.set(fail));
    CRASH_AT.with(|c| c.set(crash));
}

fn keys<const N: usize>(a: &Arr<Elem, N>) -> Vec<u64> { a.0.iter().map(|e| e.0.key.to_bits()).collect() }
fn arr<const N: usize>() -> Arr<Elem, N> { Arr(std::array::from_fn(|_| Elem(Tracked::new(finite())))) }

fn finite() -> f64 {
    let k = any_key();
    if k.is_finite() { k } else { 1.5 }
}

/// Arrays of any size: exactly N elements out, exactly N in, in order.
fn arrays<const N: usize>() {
    let a = arr::<N>();
    let want = keys(&a);
    let name = "array storage";
    match choose(4) {
        0 => {
            // document form: N elements in order
            match sut(name, || serde_json::to_value(&a)) {
                Ok(Ok(v)) => {
                    let got: Vec<u64> = v.as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap_or(f64::NAN).to_bits()).collect()).unwrap_or_default();
                    check(v.is_array() && got == want, || "array storage: not exactly N elements".into(), || format!("N = {}: {}", N, v));
                },
                Ok(Err(e)) => violation("array storage: cannot be stored", e.to_string()),
                Err(c) => violation("array storage: storing panicked", format!("{:?}", c)),
            }
        },
        1 => {
            // an element that cannot be written: the whole write reports it
            let k = choose(N + 2) as i64;
            let crash = chance(1, 2);
            if crash { arm(-1, k) } else { arm(k, -1) }
            let r = sut(name, || serde_json::to_value(&a).is_ok());
            arm(-1, -1);
            match r {
                Ok(ok) => {
                    check(ok == (k >= N as i64), || "array storage: element failure".into(), || format!("N = {}, element {} {}: reported {}", N, k, if crash { "crashes" } else { "fails" }, ok));
                },
                Err(Caught::Crash(_)) => {
                    check(crash, || "array storage: crash".into(), || "crash that was not injected".into());
                },
                Err(c) => violation("array storage: storing panicked", format!("{:?}", c)),
            }
            check(keys(&a) == want && a.0.iter().all(|e| e.0.intact()), || "array storage: value changed by storing".into(), || format!("N = {}", N));
        },
        2 => {
            let y = roundtrip::<Arr<Elem, N>>(name, &a, true, &|y| {
                if keys(y) == want { Ok(()) } else { Err(format!("wrote {:x?}, read {:x?}", want, keys(y))) }
            });
            if let Some(y) = y {
                check(y.0.iter().all(|e| e.0.intact()), || "array storage: restored elements damaged".into(), || format!("N = {}", N));
            }
        },
        _ => release::<N>(),
    }
    drop(a);
    sheet("array storage");
}

/// C14: elements already read are released exactly once when restoring fails.
fn release<const N: usize>() {
    let name = "array storage";
    let m = match choose(4) { 0 => N, 1 => choose(N + 1), 2 => N + 1 + choose(3), _ => N };
    let doc: Vec<serde_json::Value> = (0..m).map(|i| (i as f64 + 0.5).into()).collect();
    let mut doc = serde_json::Value::Array(doc);
    let mut broken = None;
    if m > 0 && chance(1, 3) {
        let i = choose(m);
        doc[i] = serde_json::Value::String("x".into());
        broken = Some(i);
    }
    let (mut fail, mut crash) = (-1, -1);
    match choose(3) {
        0 => {},
        1 => fail = choose(N + 2) as i64,
        _ => crash = choose(N + 2) as i64,
    }
    let text = chance(1, 2);
    let before = tracked::live().len();
    arm(fail, crash);
    let r = if text {
        let bytes = serde_json::to_vec(&doc).unwrap();
        sut(name, move || serde_json::from_slice::<Arr<Elem, N>>(&bytes))
    } else {
        let d = doc.clone();
        sut(name, move || serde_json::from_value::<Arr<Elem, N>>(d))
    };
    arm(-1, -1);
    let upto = |k: i64| k >= 0 && (k as usize) < N.min(m);
    let must_fail = m != N || broken.map_or(false, |i| i < N) || upto(fail);
    match r {
        Ok(Ok(y)) => {
            check(!must_fail, || "array storage: restored from the wrong number of elements".into(), || format!("N = {}, {} elements, broken {:?}, failing {}", N, m, broken, fail));
            let want: Vec<u64> = (0..N).map(|i| (i as f64 + 0.5).to_bits()).collect();
            check(keys(&y) == want && y.0.iter().all(|e| e.0.intact()), || "array storage: restored differently".into(), || format!("N = {}: {:x?}", N, keys(&y)));
            probe("restored");
        },
        Ok(Err(_)) => {
            check(must_fail, || "array storage: cannot be restored".into(), || format!("N = {}, {} elements", N, m));
            probe("refused-part-way");
        },
        Err(Caught::Crash(_)) => probe("crashed-part-way"),
        Err(c) => violation("array storage: restoring panicked", format!("N = {}: {:?}", N, c)),
    }
    let live = tracked::live().len();
    check(live == before, || "array storage: elements leaked".into(), || format!("N = {}, {} elements, broken {:?}, failing {}, crashing {}: {} elements live after the failure, {} before", N, m, broken, fail, crash, live, before));
    sheet("array storage");
}

fn sheet(name: &str) {
    let errs = tracked::errors();
    check(errs.is_empty(), || format!("{}: dropped wrongly", name), || format!("{:?}", &errs[..errs.len().min(4)]));
}

fn any_arrays() {
    match choose(9) {
        0 => arrays::<1>(),
        1 => arrays::<0>(),
        2 => arrays::<2>(),
        3 => arrays::<3>(),
        4 => arrays::<5>(),
        5 => arrays::<8>(),
        6 => arrays::<17>(),
        7 => arrays::<33>(),
        _ => arrays::<40>(),
    }
}
fn any_release() {
    match choose(8) {
        0 => release::<1>(),
        1 => release::<0>(),
        2 => release::<2>(),
        3 => release::<3>(),
        4 => release::<5>(),
        5 => release::<8>(),
        6 => release::<17>(),
        _ => release::<33>(),
    }
}

/// What a scenario needs to know of a stored type.
pub trait Stored: Serialize + DeserializeOwned + Debug {
    fn bits(&self) -> Vec<u64>;
    fn bad(&self) -> Option<String>;
}
pub fn all(name: &str, v: &[f64], ok: fn(f64) -> bool) -> Option<String> {
    v.iter().find(|x| !ok(**x)).map(|x| format!("{} holding {:?}", name, x))
}
macro_rules! param_stored {
    ($($p:ident: $ok:expr;)*) => {$(
        impl Stored for $p<f64> {
            fn bits(&self) -> Vec<u64> { vec![self.0.to_bits()] }
            fn bad(&self) -> Option<String> { all(stringify!($p), &[self.0], $ok) }
        }
        impl Stored for $p<Vec<f64>> {
            fn bits(&self) -> Vec<u64> { self.0.iter().map(|x| x.to_bits()).collect() }
            fn bad(&self) -> Option<String> { all(stringify!($p), &self.0, $ok) }
        }
        impl Stored for $p<[f64; 3]> {
            fn bits(&self) -> Vec<u64> { self.0.iter().map(|x| x.to_bits()).collect() }
            fn bad(&self) -> Option<String> { all(stringify!($p), &self.0, $ok) }
        }
        impl Stored for $p<i64> {
            fn bits(&self) -> Vec<u64> { vec![self.0 as u64] }
            fn bad(&self) -> Option<String> { all(stringify!($p), &[self.0 as f64], $ok) }
        }
    )*};
}
param_stored! { Loc: |_| true; Scale: |x| x > 0.0; Rate: |x| x > 0.0; Shape: |x| x > 0.0; DOF: |x| x > 0.0; Count: |x| x >= 0.0; }
impl Stored for Count<usize> {
    fn bits(&self) -> Vec<u64> { vec![self.0 as u64] }
    fn bad(&self) -> Option<String> { None }
}
impl Stored for Corr {
    fn bits(&self) -> Vec<u64> { vec![self.0.to_bits()] }
    fn bad(&self) -> Option<String> { all("Corr", &[self.0], |x| x >= -1.0 && x <= 1.0) }
}
impl<const N: usize> Stored for Concentrations<N> {
    fn bits(&self) -> Vec<u64> { self.0.iter().map(|x| x.to_bits()).collect() }
    fn bad(&self) -> Option<String> { if N == 0 { Some("empty concentrations".into()) } else { all("Concentrations", &self.0, |x| x > 0.0) } }
}
impl Stored for rcore::sets::ls::Params {
    fn bits(&self) -> Vec<u64> { vec![self.mu.0.to_bits(), self.sigma.0.to_bits()] }
    fn bad(&self) -> Option<String> { self.sigma.bad() }
}
impl Stored for rcore::sets::sh::Params {
    fn bits(&self) -> Vec<u64> { vec![self.alpha.0.to_bits(), self.beta.0.to_bits()] }
    fn bad(&self) -> Option<String> { self.alpha.bad().or(self.beta.bad()) }
}
impl Stored for rcore::sets::mix::Params {
    fn bits(&self) -> Vec<u64> { vec![self.n.0 as u64, self.lambda.0.to_bits(), self.nu.0.to_bits(), self.mu.0.to_bits()] }
    fn bad(&self) -> Option<String> { self.lambda.bad().or(self.nu.bad()) }
}
impl Stored for rcore::sets::vecs::Params {
    fn bits(&self) -> Vec<u64> { self.a.0.iter().chain(self.b.0.iter()).map(|x| x.to_bits()).collect() }
    fn bad(&self) -> Option<String> { self.a.bad() }
}

/// Store and restore, or restore from damaged data.
pub fn one_stored<T: Stored>(name: &str, x: T, finite: bool, fixed: bool, damage: bool) {
    state(mix(hash_bytes(name.as_bytes()), damage as u64));
    log!("{} {:x?}", name, x.bits());
    if damage {
        let admit = |y: &T| match y.bad() { None => Ok(()), Some(b) => Err(b) };
        if fixed && chance(1, 4) {
            wrong_length(name, &x);
        } else {
            damaged(name, &x, finite, &admit);
        }
    } else {
        let want = x.bits();
        roundtrip(name, &x, finite, &|y: &T| if y.bits() == want { Ok(()) } else { Err(format!("wrote {:x?}, read {:x?}", want, y.bits())) });
    }
}

fn pos() -> f64 { [1.0, 0.5, 3.0, 5e-324, 1e300, 0.1, 123456.789][choose(7)] }

fn one(damage: bool) {
    macro_rules! p {
        ($p:ident, $v:expr) => {{
            let v = $v;
            one_stored(concat!(stringify!($p)), $p::new_unchecked(v), true, false, damage)
        }};
    }
    match choose(20) {
        0 => {
            let k = any_key();
            one_stored("Loc", Loc::new_unchecked(k), k.is_finite(), false, damage)
        },
        1 => p!(Scale, pos()),
        2 => p!(Rate, pos()),
        3 => p!(Shape, pos()),
        4 => p!(DOF, pos()),
        5 => p!(Count, pos()),
        6 => p!(Count, [0i64, 1, 5, i64::MAX][choose(4)]),
        7 => p!(Count, [0usize, 1, 5, 1 << 40][choose(4)]),
        8 => one_stored("Scale<Vec>", Scale::new_unchecked((0..choose(6)).map(|_| pos()).collect::<Vec<f64>>()), true, false, damage),
        9 => one_stored("Rate<[3]>", Rate::new_unchecked([pos(), pos(), pos()]), true, true, damage),
        10 => one_stored("Corr", Corr([0.0, 1.0, -1.0, 0.3][choose(4)]), true, false, damage),
        11 => one_stored("Concentrations<1>", Concentrations([pos()]), true, true, damage),
        12 => one_stored("Concentrations<4>", Concentrations([pos(), pos(), pos(), pos()]), true, true, damage),
        13 => one_stored("Concentrations<33>", Concentrations::<33>(std::array::from_fn(|_| pos())), true, true, damage),
        14 => one_stored("locscale_params", rcore::sets::ls::Params::new_unchecked(finite(), pos()), true, false, damage),
        15 => one_stored("shape_params", rcore::sets::sh::Params::new_unchecked(pos(), pos()), true, false, damage),
        16 => one_stored("params", rcore::sets::mix::Params::new_unchecked(choose(9), pos(), pos(), finite()), true, false, damage),
        17 => one_stored("params of vectors", rcore::sets::vecs::Params::new_unchecked(vec![pos(); choose(4)], vec![finite(); choose(4)]), true, false, damage),
        18 => p!(DOF, [1i64, 2, 100][choose(3)]),
        _ => if damage { any_release() } else { any_arrays() },
    }
}

fn many(damage: bool) {
    let n = 1 + choose(6);
    for _ in 0..n {
        one(damage);
    }
    let live = tracked::live();
    check(live.is_empty(), || "array storage: elements leaked".into(), || format!("{} values never dropped", live.len()));
    sample(format!("{} values {}", n, if damage { "restored from damaged data" } else { "stored and restored" }));
}
pub fn c13_core() { many(false) }
pub fn c14_core() { many(true) }

fn clients(damage: bool) {
    let k = 2 + choose(2);
    let scale = any_scale();
    let mut cl: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..k {
        let n = 1 + choose(3);
        cl.push(Box::new(move || {
            for _ in 0..n {
                one_client(damage);
            }
        }));
    }
    run_clients(scale, cl);
    let live = tracked::live();
    check(live.is_empty(), || "array storage: elements leaked".into(), || format!("{} values never dropped", live.len()));
    sample(format!("{} clients {}, gap scale {}", k, if damage { "restoring damaged data" } else { "storing and restoring" }, scale));
}
fn one_client(damage: bool) {
    match choose(5) {
        0 => one_stored("Scale", Scale::new_unchecked(pos()), true, false, damage),
        1 => one_stored("Concentrations<4>", Concentrations([pos(), pos(), pos(), pos()]), true, true, damage),
        2 => one_stored("params", rcore::sets::mix::Params::new_unchecked(choose(9), pos(), pos(), finite()), true, false, damage),
        3 => one_stored("Corr", Corr([0.0, 1.0, -1.0, 0.3][choose(4)]), true, false, damage),
        _ => one_stored("Scale<Vec>", Scale::new_unchecked(vec![pos(); choose(6)]), true, false, damage),
    }
}
pub fn c13_clients() { clients(false) }
pub fn c14_clients() { clients(true) }
