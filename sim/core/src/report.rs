//! C12: reports into failing sinks, and what they say.
use crate::cons::*;
use crate::vals::*;
use rcore::params::constraints::*;
use rcore::params::*;
use rcore::params::Shape;
use simcore::io::TextSink;
use simcore::kit::{failing_sinks, renders, Render};
use simcore::sched::{any_scale, run_clients};
use simcore::*;
use std::fmt::{self, Debug, Display, Write as _};
use std::sync::Arc;

fn without(text: &str, parts: &[String]) -> String {
    let mut t = text.to_string();
    let mut ps = parts.to_vec();
    ps.sort_by_key(|p| std::cmp::Reverse(p.len()));
    for p in ps {
        if let Some(i) = t.find(&p) {
            t.replace_range(i..i + p.len(), "\u{1}");
        }
    }
    t
}

fn composite(name: &str, text: &str, parts: &[String], own: &[&str], foreign: &[&str]) {
    for p in parts {
        check(text.contains(p.as_str()), || format!("{}: part not named", name), || format!("{:?} does not contain its part {:?}", text, p));
    }
    let rest = without(text, parts);
    check(own.iter().any(|o| rest.contains(o)), || format!("{}: connective not named", name), || format!("{:?}", text));
    for f in foreign {
        check(!rest.contains(f), || format!("{}: names another connective", name), || format!("{:?} contains {:?}", text, f));
    }
}

fn leaf_c() -> (Dyn<f64>, String) {
    let (c, _) = f64::boxed(0);
    let t = c.to_string();
    (c, t)
}

const AND: [&str; 3] = ["And", "&&", "and"];
const OR: [&str; 3] = ["Or", "||", "or"];

/// One object with everything its texts must say.
pub fn one_text() {
    match choose(9) {
        0 => {
            let ((a, ta), (b, tb)) = (leaf_c(), leaf_c());
            let c = Arc::new(And((a, b)));
            for (k, r) in renders(c) {
                let t = failing_sinks(&format!("And {}", k), &r);
                if k == "Display" {
                    composite("And", &t, &[ta.clone(), tb.clone()], &AND, &OR[..2]);
                }
            }
        },
        1 => {
            let ((a, ta), (b, tb)) = (leaf_c(), leaf_c());
            let c = Arc::new(Or((a, b)));
            for (k, r) in renders(c) {
                let t = failing_sinks(&format!("Or {}", k), &r);
                if k == "Display" {
                    composite("Or", &t, &[ta.clone(), tb.clone()], &OR, &AND[..2]);
                }
            }
        },
        2 => {
            let (a, ta) = leaf_c();
            for (k, r) in renders(Arc::new(Not(a))) {
                let t = failing_sinks(&format!("Not {}", k), &r);
                if k == "Display" {
                    composite("Not", &t, &[ta.clone()], &["Not", "!", "not"], &["&&", "||", "All"]);
                }
            }
        },
        3 => {
            let (a, ta) = leaf_c();
            for (k, r) in renders(Arc::new(All(a))) {
                let t = failing_sinks(&format!("All {}", k), &r);
                if k == "Display" {
                    composite("All", &t, &[ta.clone()], &["All", "all"], &["&&", "||", "Not"]);
                }
            }
        },
        4 => {
            // nested expression: each level names its parts
            let ((a, ta), (b, tb), (c, tc)) = (leaf_c(), leaf_c(), leaf_c());
            let (e, inner, name) = match choose(4) {
                0 => (Box::new(And((Or((a, b)), c))) as Dyn<f64>, vec![ta, tb, tc], "And(Or)"),
                1 => (Box::new(Or((And((a, b)), Not(c)))) as Dyn<f64>, vec![ta, tb, tc], "Or(And,Not)"),
                2 => (Box::new(Not(And((a, Or((b, c)))))) as Dyn<f64>, vec![ta, tb, tc], "Not(And(Or))"),
                _ => (Box::new(All(And((Not(a), Or((b, c)))))) as Dyn<f64>, vec![ta, tb, tc], "All(And)"),
            };
            for (k, r) in renders(Arc::new(e)) {
                let t = failing_sinks(&format!("{} {}", name, k), &r);
                if k == "Display" {
                    for p in &inner {
                        check(t.contains(p.as_str()), || format!("{}: part not named", name), || format!("{:?} lacks {:?}", t, p));
                    }
                }
            }
        },
        5 => comparisons(),
        6 => error_report(),
        7 => param_text(),
        _ => {
            // Boxed constraints read like what they hold; user text that errors is passed on
            let (a, ta) = leaf_c();
            let b: Dyn<f64> = Box::new(a);
            for (k, r) in renders(Arc::new(b)) {
                let t = failing_sinks(&format!("Box {}", k), &r);
                if k == "Display" {
                    check(t == ta, || "Box: text differs".into(), || format!("{:?} vs {:?}", t, ta));
                }
            }
            broken_part();
        },
    }
}

/// A part whose own text fails must make the whole report fail, not vanish.
fn broken_part() {
    struct Broken;
    impl Display for Broken {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            callback(|| {
                f.write_str("brk")?;
                fault("part-text-failure");
                Err(fmt::Error)
            })
        }
    }
    impl Debug for Broken {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { Display::fmt(self, f) }
    }
    impl<T> Constraint<T> for Broken {
        fn is_satisfied_by(&self, _: &T) -> bool { false }
    }
    let (name, r): (&str, Render) = match choose(5) {
        0 => ("And", Arc::new(|w: &mut dyn fmt::Write| write!(w, "{}", And((Positive, Broken))))),
        1 => ("Or", Arc::new(|w: &mut dyn fmt::Write| write!(w, "{}", Or((Broken, Positive))))),
        2 => ("Not", Arc::new(|w: &mut dyn fmt::Write| write!(w, "{}", Not(Broken)))),
        3 => ("All", Arc::new(|w: &mut dyn fmt::Write| write!(w, "{}", All(Broken)))),
        _ => ("error", Arc::new(|w: &mut dyn fmt::Write| match Constraint::<f64>::check(Broken, 1.0) {
            Err(e) => write!(w, "{}", e),
            Ok(_) => Err(fmt::Error),
        })),
    };
    let mut s = TextSink::new(None);
    let res = sut(name, || r(&mut s));
    match res {
        Ok(res) => {
            check(res.is_err(), || format!("{}: failing part not reported", name), || format!("text so far {:?}", s.buf));
        },
        Err(c) => violation(&format!("{}: panicked on a failing part", name), format!("{:?}", c)),
    }
}

/// Simple constraints: the text names kind and bound, and kinds are told apart.
fn comparisons() {
    let b = *pick(&BOUNDS);
    let b2 = *pick(&[7.25, 9.0]);
    let all: Vec<(&str, Dyn<f64>, Vec<f64>)> = vec![
        ("Equal", Box::new(Equal(b)), vec![b]),
        ("LessThan", Box::new(LessThan(b)), vec![b]),
        ("LessThanOrEqual", Box::new(LessThanOrEqual(b)), vec![b]),
        ("GreaterThan", Box::new(GreaterThan(b)), vec![b]),
        ("GreaterThanOrEqual", Box::new(GreaterThanOrEqual(b)), vec![b]),
        ("Interval", Box::new(Interval { lb: b, ub: b2 }), vec![b, b2]),
        ("Positive", Box::new(Positive), vec![]),
        ("NonNegative", Box::new(NonNegative), vec![]),
        ("Negative", Box::new(Negative), vec![]),
        ("NonPositive", Box::new(NonPositive), vec![]),
    ];
    let mut texts: Vec<(String, String)> = vec![];
    for (n, c, bounds) in all {
        let c = Arc::new(c);
        for (k, r) in renders(c) {
            let t = failing_sinks(&format!("{} {}", n, k), &r);
            if k == "Display" {
                for b in &bounds {
                    check(t.contains(&format!("{:?}", b)), || format!("{}: bound not named", n), || format!("{:?} lacks {:?}", t, b));
                }
                texts.push((n.to_string(), t));
            }
        }
    }
    let v: Vec<f64> = vec![];
    for (n, c) in [("Empty", Box::new(Empty) as Dyn<Vec<f64>>), ("Empty", Box::new(Empty))] {
        check(sut("Empty", || c.is_satisfied_by(&v)) == Ok(true), || "Empty".into(), || "empty vector".into());
        texts.push((n.into(), c.to_string()));
    }
    for i in 0..texts.len() {
        for j in 0..i {
            if texts[i].0 != texts[j].0 {
                check(texts[i].1 != texts[j].1, || format!("{}: same text as {}", texts[i].0, texts[j].0), || texts[i].1.clone());
            }
        }
    }
}

/// An unsatisfied-constraint report names constraint, value and target.
fn error_report() {
    macro_rules! report {
        ($t:ty, $name:expr) => {{
            let (c, _) = <$t as Boxed>::boxed(1);
            let ctext = c.to_string();
            let v = <$t as Owned>::fresh();
            let vtext = format!("{:?}", v);
            let e = UnsatisfiedConstraintError::new(v, c);
            let target = if chance(1, 2) { Some(["n", "mu\"x", "Sigma'", ""][choose(4)]) } else { None };
            let e = match target {
                Some(t) => e.with_target(t),
                None => e,
            };
            for (k, r) in renders(Arc::new(e)) {
                let t = failing_sinks(&format!("error report {}", k), &r);
                check(t.contains(&vtext) || k == "Debug#", || format!("error report {}: value not named", k), || format!("{:?} lacks {:?}", t, vtext));
                if k == "Display" {
                    check(t.contains(&ctext), || "error report: constraint not named".into(), || format!("{:?} lacks {:?}", t, ctext));
                }
                if let Some(tg) = target {
                    let q = format!("{:?}", tg);
                    check(t.contains(&q) || t.contains(tg) && tg.len() > 1, || format!("error report {}: target not named", k), || format!("{:?} lacks {:?}", t, q));
                }
            }
        }};
    }
    match choose(4) {
        0 => report!(f64, "f64"),
        1 => report!(i64, "i64"),
        2 => report!(Vec<f64>, "Vec"),
        _ => report!([f64; 3], "[f64;3]"),
    }
    // through failure::Error, as the constructors return it
    let v = [-1.0, 0.0, f64::NAN, -5e-324][choose(4)];
    if let Ok(Err(e)) = sut("params", || rcore::sets::sh::Params::new(1.0, v)) {
        let t = e.to_string();
        check(t.contains(&format!("{:?}", v)) && t.contains("Positive"), || "params error: does not name constraint and value".into(), || t.clone());
        check(e.downcast_ref::<UnsatisfiedConstraintError<f64>>().map_or(false, |e| e.value.to_bits() == v.to_bits()), || "params error: value lost".into(), || t.clone());
    } else {
        violation("params error: no error", format!("{:?}", v));
    }
}

/// Parameters format as their values, whatever the formatter options.
fn param_text() {
    macro_rules! same {
        ($name:expr, $p:expr, $v:expr; $($f:literal),*) => {{
            let p = $p;
            let v = $v;
            $(
                let want = format!($f, v);
                match sut($name, || format!($f, p)) {
                    Ok(got) => { check(got == want, || format!("{}: formats differently from its value", $name), || format!("{} gives {:?}, the value {:?}", $f, got, want)); },
                    Err(c) => violation(&format!("{}: panicked", $name), format!("{:?}", c)),
                }
            )*
            let k = choose(want_len(&v) + 1);
            let mut s = TextSink::new(Some(k));
            let r = sut($name, || write!(s, "{}", p));
            let full = format!("{}", v);
            check(r == Ok(if k < full.len() { Err(fmt::Error) } else { Ok(()) }), || format!("{}: sink failure not reported", $name), || format!("{} of {:?}", k, full));
            check(full.starts_with(&s.buf), || format!("{}: not a prefix", $name), || format!("{:?} of {:?}", s.buf, full));
        }};
    }
    fn want_len<T: Display>(v: &T) -> usize { v.to_string().len() }
    macro_rules! opts {
        ($name:expr, $p:expr, $v:expr) => {
            same!($name, $p, $v; "{}", "{:>12}", "{:<12}", "{:^13}", "{:+}", "{:08}", "{:.0}", "{:.3}", "{:+010.4}", "{:*>15.1}", "{:#}", "{:-^20}", "{:1}", "{:.12}")
        };
    }
    let x = any_key();
    match choose(9) {
        0 => opts!("Loc", Loc::new_unchecked(x), x),
        1 => opts!("Scale", Scale::new_unchecked(x), x),
        2 => opts!("Rate", Rate::new_unchecked(x), x),
        3 => opts!("Shape", Shape::new_unchecked(x), x),
        4 => opts!("DOF", DOF::new_unchecked(x), x),
        5 => opts!("Count", Count::new_unchecked(x), x),
        6 => opts!("Count<i64>", Count::new_unchecked(x as i64), x as i64),
        7 => opts!("Loc<&str>", Loc::new_unchecked("text é"), "text é"),
        _ => {
            // debug text and dereferencing
            let p = Scale::new_unchecked(x);
            check(p.to_bits() == x.to_bits(), || "Scale: deref differs".into(), || format!("{}", x));
            for (k, r) in renders(Arc::new(p)) {
                failing_sinks(&format!("Scale {}", k), &r);
            }
            let q = rcore::sets::ls::Params::new_unchecked(x, 1.0);
            let r: Render = Arc::new(move |w: &mut dyn fmt::Write| write!(w, "{:?}", q));
            let t = failing_sinks("Params Debug", &r);
            check(t.contains(&format!("{:?}", x)), || "Params Debug: value not named".into(), || t.clone());
        },
    }
}

pub fn c12_core() {
    let n = 1 + choose(5);
    for _ in 0..n {
        one_text();
    }
    sample(format!("{} objects formatted into failing sinks", n));
}

pub fn c12_clients() {
    let k = 2 + choose(3);
    let scale = any_scale();
    let mut cl: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..k {
        let n = 1 + choose(2);
        cl.push(Box::new(move || {
            for _ in 0..n {
                one_text();
            }
        }));
    }
    run_clients(scale, cl);
    sample(format!("{} clients formatting, gap scale {}", k, scale));
}
