//! C12: what objects and errors of the whole crate write, into sinks that fail anywhere.
use crate::pure::*;
use crate::sets::{self, Mode, Report, K};
use crate::zoo::*;
use rstat::fitting::MLE;
use rstat::params::constraints::Positive;
use rstat::univariate as uv;
use rstat::{Probability, SimplexVector};
use simcore::io::TextSink;
use simcore::kit::*;
use simcore::sched::{any_scale, run_clients};
use simcore::*;
use std::fmt::{self, Write as _};
use std::sync::{Arc, Mutex};

fn text(name: &str, r: &Render) -> String {
    let mut s = String::new();
    match sut(name, || r(&mut s)) {
        Ok(Ok(())) => s,
        _ => String::new(),
    }
}

/// Every text of a distribution, and the distribution afterwards.
pub fn c12_objects() {
    let fam = any(everything);
    let o = (fam.gen)(if chance(1, 3) { Reg::Wild } else { Reg::Tame });
    log!("{}", o.name);
    state(hash_bytes(o.name.as_bytes()));
    let asks = questions(&o, 5);
    let base = baseline(&o, &asks);
    let copy = o.again(false).ok();
    let rebuilt = o.again(true).ok();
    for (i, (k, r)) in o.texts.iter().enumerate() {
        let t = failing_sinks(&format!("{} {}", fam.name, k), r);
        for c in copy.iter().chain(&rebuilt) {
            let u = text(fam.name, &c.texts[i].1);
            check(u == t, || format!("{}: {} of a copy differs", fam.name, k), || format!("{:?} and {:?}", t, u));
        }
        check(!t.is_empty(), || format!("{}: {} writes nothing", fam.name, k), || o.name.clone());
    }
    for i in 0..asks.len() {
        if !equal(&o, &asks, &base, i, answer(&o, &asks[i]), "after writing into failing sinks") {
            return;
        }
    }
}

/// What a refusal must say: one of the values at fault.
fn names_culprit(s: &sets::Set, a: &[f64], t: &str) -> bool {
    let shown = |x: f64| {
        let mut v = vec![format!("{:?}", x), format!("{}", x)];
        if x.fract() == 0.0 && x.abs() < 1e18 {
            v.push(format!("{}", x as i64));
        }
        v.iter().any(|w| t.contains(w.as_str()))
    };
    let mut bad: Vec<f64> = s.kinds.iter().zip(a).filter(|(k, x)| !sets::meets(**k, **x)).map(|(_, x)| *x).collect();
    if bad.is_empty() || sets::side(s.kinds) > 0 {
        // refused together: weights or a matrix
        bad = s.kinds.iter().zip(a).filter(|(k, _)| matches!(k, K::Weight | K::Cov)).map(|(_, x)| *x).collect();
    }
    bad.is_empty() || bad.iter().any(|x| shown(*x))
}

fn one_refusal(all: &[sets::Set]) {
    let s = &all[choose(all.len())];
    if chance(1, 4) {
        let a = sets::valid(s.kinds, chance(1, 2));
        log!("{} {:?}", s.name, a);
        (s.store)(&a, Mode::Text);
        return;
    }
    let a = sets::any_args(s.kinds);
    let matrix = sets::side(s.kinds) > 0;
    let door = if matrix && !sets::definite(s.kinds, &a) { 0 } else { choose(2) };
    log!("{} {:?} door {}", s.name, a, door);
    let f = if door == 0 { s.params } else { s.dist };
    set_label(s.name);
    let Ok(Err(e)) = sut(s.name, || f(&a)) else { return };
    fault("refused-arguments");
    state(mix(hash_bytes(s.name.as_bytes()), a.iter().fold(0, |h, x| mix(h, x.to_bits()))));
    let e: Arc<Box<dyn Report>> = Arc::new(e);
    for (k, r) in renders(e) {
        let t = failing_sinks(&format!("{} refusal {}", s.name, k), &r);
        check(names_culprit(s, &a, &t), || format!("{} refusal {}: does not name a value at fault", s.name, k), || format!("{:?} for {:?}", t, a));
        if k == "Display" && s.kinds.iter().zip(&a).all(|(k, x)| sets::meets(*k, *x) || matches!(k, K::Pos)) && s.kinds.iter().zip(&a).any(|(k, x)| !sets::meets(*k, *x)) {
            let want = Positive.to_string();
            check(t.contains(&want), || format!("{} refusal: does not name the constraint", s.name), || format!("{:?} for {:?}", t, a));
        }
    }
}

/// Refused constructors report value and constraint.
pub fn c12_refusals() {
    simblas::set_backend(choose(simblas::KINDS));
    let all = sets::sets();
    for _ in 0..2 {
        one_refusal(&all);
    }
}

fn same_as_value<T: fmt::Display>(name: &str, x: T, v: f64) {
    let (w, p) = (choose(24), choose(12));
    let (mut a, mut b) = (String::new(), String::new());
    let opt = choose(9);
    let one = |out: &mut dyn fmt::Write, x: &dyn fmt::Display| match opt {
        0 => write!(out, "{}", x),
        1 => write!(out, "{:w$}", x, w = w),
        2 => write!(out, "{:.p$}", x, p = p),
        3 => write!(out, "{:w$.p$}", x, w = w, p = p),
        4 => write!(out, "{:<w$.p$}|", x, w = w, p = p),
        5 => write!(out, "{:^w$}|", x, w = w),
        6 => write!(out, "{:+}", x),
        7 => write!(out, "{:0w$}", x, w = w),
        _ => write!(out, "{:*>w$.p$}", x, w = w, p = p),
    };
    match (sut(name, || one(&mut a, &x)), one(&mut b, &v)) {
        (Ok(Ok(())), Ok(())) => {
            check(a == b, || format!("{}: formats differently from its value", name), || format!("option {} width {} precision {}: {:?} instead of {:?}", opt, w, p, a, b));
        },
        r => violation(&format!("{}: cannot be formatted", name), format!("{:?}", r)),
    }
    let k = choose(b.len() + 1);
    let mut s = TextSink::new(Some(k));
    if let Ok(r) = sut(name, || one(&mut s, &x)) {
        check(r.is_err() == (k < b.len()), || format!("{}: sink failure not reported", name), || format!("{} of {:?}", k, b));
        check(b.starts_with(&s.buf), || format!("{}: not a prefix", name), || format!("{:?} of {:?}", s.buf, b));
    }
}

/// Probabilities, weight vectors and errors.
pub fn c12_values() {
    let p = *pick(&[0.0, 1.0, 0.5, 0.25, 0.1, 1e-300, 5e-324, 0.9999999999999999, 1.0 / 3.0]);
    match choose(6) {
        0 | 1 => {
            let x = Probability::new_unchecked(p);
            same_as_value("Probability", x, p);
            for (k, r) in renders(Arc::new(x)) {
                let t = failing_sinks(&format!("Probability {}", k), &r);
                check(t.contains(&format!("{:?}", p)) || t.contains(&format!("{}", p)), || format!("Probability {}: value not named", k), || format!("{:?} lacks {:?}", t, p));
            }
            check(x.unwrap().to_bits() == p.to_bits(), || "Probability: changed by formatting".into(), || format!("{:?}", p));
        },
        2 => {
            let bad = *pick(&[-1.0, 1.5, f64::NAN, f64::INFINITY, -5e-324, 1.0000000000000002]);
            if let Ok(Err(e)) = sut("Probability", || Probability::new(bad)) {
                fault("refused-arguments");
                for (k, r) in renders(Arc::new(e)) {
                    let t = failing_sinks(&format!("InvalidProbabilityError {}", k), &r);
                    check(t.contains(&format!("{:?}", bad)) || t.contains(&format!("{}", bad)), || format!("InvalidProbabilityError {}: value not named", k), || format!("{:?} lacks {:?}", t, bad));
                }
            } else {
                violation("Probability: admitted an invalid value", format!("{:?}", bad));
            }
        },
        3 => {
            let w = dyadic_simplex::<5>();
            let x = Arc::new(SimplexVector::new_unchecked(w));
            let y = x.clone();
            let r: Render = Arc::new(move |o: &mut dyn fmt::Write| write!(o, "{:?}", y));
            let t = failing_sinks("SimplexVector Debug", &r);
            check(w.iter().all(|v| t.contains(&format!("{:?}", v))), || "SimplexVector Debug: value not named".into(), || format!("{:?} lacks some of {:?}", t, w));
        },
        4 => {
            let w = match choose(3) {
                0 => [0.5, 0.75, 0.0],
                1 => [-0.5, 1.5, 0.0],
                _ => [f64::NAN, 0.5, 0.5],
            };
            match sut("SimplexVector", || SimplexVector::new(w)) {
                Ok(Err(e)) => {
                    fault("refused-arguments");
                    for (k, r) in renders(Arc::new(e)) {
                        let t = failing_sinks(&format!("SimplexVector refusal {}", k), &r);
                        check(w.iter().any(|v| *v != 0.0 && t.contains(&format!("{:?}", v))), || format!("SimplexVector refusal {}: no value named", k), || format!("{:?} for {:?}", t, w));
                    }
                },
                r => violation("SimplexVector: admitted an invalid value", format!("{:?} {:?}", w, r.map(|r| r.is_ok()))),
            }
        },
        _ => {
            // too few observations
            let e = match choose(3) {
                0 => sut("mle", || uv::normal::Normal::fit_mle(&[]).map(|_| ())),
                1 => sut("mle", || uv::bernoulli::Bernoulli::fit_mle(&[]).map(|_| ())),
                _ => sut("mle", || uv::poisson::Poisson::fit_mle(&[]).map(|_| ())),
            };
            if let Ok(Err(e)) = e {
                fault("refused-arguments");
                for (k, r) in renders(Arc::new(e)) {
                    failing_sinks(&format!("fitting error {}", k), &r);
                }
            }
        },
    }
}

/// Several clients write the same objects at once.
pub fn c12_clients() {
    let fam = any(everything);
    let o = Arc::new((fam.gen)(Reg::Tame));
    log!("{}", o.name);
    state(hash_bytes(o.name.as_bytes()));
    let want: Vec<String> = o.texts.iter().map(|(_, r)| text(fam.name, r)).collect();
    let want = Arc::new(want);
    let out: Arc<Mutex<Vec<(usize, Option<usize>, bool, String)>>> = Arc::default();
    let mut work: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let all = Arc::new(sets::sets());
    for _ in 0..2 + choose(3) {
        let (o, want, out, all) = (o.clone(), want.clone(), out.clone(), all.clone());
        let plan: Vec<(usize, Option<usize>)> = (0..4)
            .map(|_| {
                let i = choose(want.len());
                (i, if chance(1, 2) { Some(choose(want[i].len() + 1)) } else { None })
            })
            .collect();
        let other = chance(1, 3);
        work.push(Box::new(move || {
            let mut mine = vec![];
            for (i, mut k) in plan {
                if let Some(k) = &mut k {
                    while !want[i].is_char_boundary(*k) {
                        *k -= 1;
                    }
                }
                let mut s = TextSink::new(k);
                let r = sut(o.fam, || (o.texts[i].1)(&mut s));
                mine.push((i, k, r == Ok(Ok(())), s.buf));
                if other {
                    one_refusal(&all);
                }
            }
            out.lock().unwrap().extend(mine);
        }));
    }
    run_clients(any_scale(), work);
    fault("client-interleaving");
    for (i, k, ok, t) in out.lock().unwrap().iter() {
        let w = &want[*i];
        let n = k.unwrap_or(w.len()).min(w.len());
        check(*t == w[..n] && *ok == (n == w.len()), || format!("{} {}: text differs among other clients", fam.name, o.texts[*i].0), || format!("sink {:?}: {} {:?} of {:?}", k, ok, t, w));
    }
}
