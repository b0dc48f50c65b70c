//! C15: the same question always gets the same answer.
use crate::zoo::*;
use rstat::Probability;
use simcore::rng::SimRng;
use simcore::sched::{any_scale, run_clients};
use simcore::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum Ask {
    Query(usize, Option<Vec<f64>>, f64, Vec<Vec<f64>>),
    Text(usize),
    /// door, seed, number
    Draw(usize, u64, usize),
}

/// The question put to `o`; a hash of the answer's bits.
pub fn answer(o: &Obj, a: &Ask) -> u64 {
    match a {
        Ask::Query(i, x, p, data) => {
            let q = &o.queries[*i];
            let arg = match q.takes {
                Takes::Nothing => Arg::None,
                Takes::Point => Arg::X(x.as_ref().unwrap()),
                Takes::Prob => Arg::P(*p),
                Takes::Data => Arg::Data(data),
            };
            o.ask_q(q, &arg).bits().into_iter().fold(7, mix)
        },
        Ask::Draw(door, seed, n) => {
            let mut rng = SimRng::fair(*seed);
            rng.budget = 2_000_000;
            let mut v = vec![];
            let end = match o.draw(*door, &mut rng, *n, &mut v) {
                Ok(_) => 1,
                Err(c) => hash_bytes(panic_site(&c).as_bytes()),
            };
            v.iter().fold(mix(end, rng.pos), |h, x| mix(h, x.to_bits()))
        },
        Ask::Text(i) => {
            let (_, r) = &o.texts[*i];
            let mut s = String::new();
            match sut_quiet(|| r(&mut s)) {
                Ok(r) => mix(hash_bytes(s.as_bytes()), r.is_ok() as u64),
                Err(c) => hash_bytes(panic_site(&c).as_bytes()),
            }
        },
    }
}
pub fn title(o: &Obj, a: &Ask) -> &'static str {
    match a {
        Ask::Query(i, ..) => o.queries[*i].name,
        Ask::Text(i) => o.texts[*i].0,
        Ask::Draw(door, ..) => DOORS[*door],
    }
}

fn points(o: &Obj) -> Vec<Vec<f64>> {
    let mut out = vec![];
    if o.sampler {
        let mut v = vec![];
        let mut r = SimRng::fair(bulk_seed());
        r.budget = 1_000_000;
        let _ = o.draw(0, &mut r, 4, &mut v);
        out.extend(v.chunks_exact(o.dim).map(|x| x.to_vec()));
    }
    let far = *pick(&[12, 12, 60, 400, 3000]);
    for _ in 0..3 {
        out.push((0..o.dim).map(|_| if o.disc { choose(far) as f64 } else { *pick(&[0.0, 0.25, 0.5, 1.0, 2.5, 7.0]) }).collect());
    }
    out
}

pub fn questions(o: &Obj, n: usize) -> Vec<Ask> {
    let pts = points(o);
    let mut out = vec![];
    for _ in 0..n {
        let k = choose(o.queries.len() + o.texts.len());
        if k >= o.queries.len() {
            out.push(Ask::Text(k - o.queries.len()));
            continue;
        }
        let x = pts[choose(pts.len())].clone();
        let data = if o.queries[k].takes == Takes::Data { (0..choose(4)).map(|_| pts[choose(pts.len())].clone()).collect() } else { vec![] };
        out.push(Ask::Query(k, Some(x), *pick(&[0.5, 0.25, 0.1, 0.9, 0.01, 0.77]), data));
    }
    out
}

/// Answers given by processes in which nothing else ever happened.
pub fn baseline(o: &Obj, asks: &[Ask]) -> Vec<u64> {
    let mut base = vec![0; asks.len()];
    let mut todo: Vec<usize> = (0..asks.len()).collect();
    // a few processes, each with its own order
    shuffle(&mut todo);
    for part in todo.chunks(if chance(1, 3) { 3 } else { 12 }) {
        let got = fresh_process(|| part.iter().flat_map(|i| answer(o, &asks[*i]).to_le_bytes()).collect());
        match got {
            Some(b) if b.len() == part.len() * 8 => {
                for (i, c) in part.iter().zip(b.chunks(8)) {
                    base[*i] = u64::from_le_bytes(c.try_into().unwrap());
                }
            },
            _ => {
                for i in part {
                    base[*i] = answer(o, &asks[*i]);
                }
                probe("no-fresh-process");
            },
        }
    }
    base
}

pub fn equal(o: &Obj, asks: &[Ask], base: &[u64], i: usize, got: u64, what: &str) -> bool {
    check(got == base[i], || format!("{}: {} answers differently {}", o.fam, title(o, &asks[i]), what), || format!("{}: {:?}", o.name, asks[i]))
}

/// Neighbouring points one after another, the way a table is printed.
fn walk(o: &Obj) {
    let at: Vec<usize> = (0..o.queries.len()).filter(|i| o.queries[*i].takes == Takes::Point).collect();
    if at.is_empty() {
        return;
    }
    let q = at[choose(at.len())];
    let mut x = points(o)[0].clone();
    let step = if o.disc { *pick(&[1.0, -1.0, 2.0]) } else { *pick(&[0.125, -0.125, 1e-9]) };
    if o.disc && chance(1, 2) {
        x[0] = 0.0;
    }
    for _ in 0..[6, 40, 400][choose(3)] {
        if x[0] < 0.0 && o.disc {
            break;
        }
        let _ = o.ask_q(&o.queries[q], &Arg::X(&x));
        for c in x.iter_mut() {
            *c += step;
        }
    }
}

pub fn disturb(o: &Obj, other: &Obj) {
    match choose(7) {
        6 => walk(if chance(1, 2) { o } else { other }),
        0 | 1 => {
            // the same kind of object with other parameters
            for _ in 0..1 + choose(4) {
                let q = questions(other, 1);
                let _ = answer(other, &q[0]);
            }
        },
        2 if o.sampler => {
            let mut r = SimRng::faulty(2, 20, 20);
            r.budget = r.last_fault() + 200_000;
            if chance(1, 2) {
                r.crash_at = Some(choose(8) as u64);
            }
            let mut v = vec![];
            let _ = o.draw(choose(3), &mut r, 1 + choose(5), &mut v);
        },
        3 if other.sampler => {
            let mut r = SimRng::fair(bulk_seed());
            r.budget = 400_000;
            let mut v = vec![];
            let _ = other.draw(choose(3), &mut r, 1 + choose(5), &mut v);
        },
        4 => {
            // an unrelated object comes and goes
            let x = (any(everything).gen)(Reg::Tame);
            let q = questions(&x, 2);
            q.iter().for_each(|q| {
                answer(&x, q);
            });
        },
        _ => {
            // an answer is refused by its reader
            if let Some((_, r)) = o.texts.first() {
                let mut s = simcore::io::TextSink::new(Some(choose(20)));
                let _ = sut_quiet(|| r(&mut s));
            }
        },
    }
}

pub fn c15_histories() {
    simblas::set_backend(choose(simblas::KINDS));
    let fam = any(everything);
    let reg = if chance(1, 3) { Reg::Wild } else { Reg::Tame };
    let (o, other) = pair(fam, reg);
    log!("{} beside {}", o.name, other.name);
    state(hash_bytes(o.name.as_bytes()));
    let asks = questions(&o, 6 + choose(18));
    let base = baseline(&o, &asks);
    let mut copy: Option<Obj> = None;
    for _ in 0..20 + choose(40) {
        if chance(1, 2) {
            disturb(&o, &other);
        }
        if chance(1, 10) {
            match copy.as_ref().unwrap_or(&o).again(false) {
                Ok(c) => copy = Some(c),
                Err(c) => return violation(&format!("{}: cannot be copied", o.fam), format!("{}: {:?}", o.name, c)),
            }
        }
        let subject = if chance(1, 3) { copy.as_ref().unwrap_or(&o) } else { &o };
        let i = choose(asks.len());
        let got = answer(subject, &asks[i]);
        note(got);
        if !equal(&o, &asks, &base, i, got, "after other work") {
            return;
        }
    }
}

pub fn c15_clients() {
    simblas::set_backend(choose(simblas::KINDS));
    let fam = any(everything);
    let reg = if chance(1, 4) { Reg::Wild } else { Reg::Tame };
    let (o, other) = pair(fam, reg);
    let (o, other) = (Arc::new(o), Arc::new(other));
    log!("{} beside {}", o.name, other.name);
    state(hash_bytes(o.name.as_bytes()));
    let asks = Arc::new(questions(&o, 4 + choose(10)));
    let base = baseline(&o, &asks);
    let theirs = Arc::new(questions(&other, 6));
    let out: Arc<Mutex<Vec<(usize, u64)>>> = Arc::default();
    let mut work: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..2 + choose(3) {
        let (o, other, asks, theirs, out) = (o.clone(), other.clone(), asks.clone(), theirs.clone(), out.clone());
        // what this client does, decided up front
        let plan: Vec<(usize, usize)> = (0..4 + choose(8)).map(|_| (choose(5), choose(asks.len()))).collect();
        let mut rng = SimRng::fair(bulk_seed());
        rng.yields = true;
        rng.budget = 400_000;
        work.push(Box::new(move || {
            let mut mine = vec![];
            for (kind, i) in plan {
                match kind {
                    0 => {
                        let _ = answer(&other, &theirs[i % theirs.len()]);
                    },
                    1 if o.sampler => {
                        let mut v = vec![];
                        let _ = o.draw(i % 3, &mut rng, 1 + i % 3, &mut v);
                    },
                    2 => {
                        if let Ok(c) = o.again(false) {
                            mine.push((i, answer(&c, &asks[i])));
                        }
                    },
                    _ => mine.push((i, answer(&o, &asks[i]))),
                }
            }
            out.lock().unwrap().extend(mine);
        }));
    }
    run_clients(any_scale(), work);
    fault("client-interleaving");
    for (i, got) in out.lock().unwrap().iter() {
        if !equal(&o, &asks, &base, *i, *got, "among other clients") {
            return;
        }
    }
}

/// A few questions of one kind, asked over and over by clients that are switched within them.
pub fn c15_duel() {
    simblas::set_backend(choose(simblas::KINDS));
    let fam = any(everything);
    let (o, other) = pair(fam, if chance(1, 4) { Reg::Wild } else { Reg::Tame });
    log!("{} beside {}", o.name, other.name);
    state(hash_bytes(o.name.as_bytes()));
    let k = choose(o.queries.len());
    // neighbouring places, so that all of them take the same way through the code
    let mut pts = points(&o);
    let first = pts.swap_remove(choose(pts.len()));
    let step = if o.disc { 1.0 } else { *pick(&[0.125, 1e-3, 1.0]) };
    let places: Vec<Vec<f64>> = (0..2 + choose(2)).map(|i| first.iter().map(|x| x + step * i as f64).collect()).collect();
    let kind = |o: &Obj| -> Vec<Ask> {
        places.iter().enumerate().map(|(i, x)| Ask::Query(k.min(o.queries.len() - 1), Some(x.clone()), [0.5, 0.25, 0.9][i], vec![x.clone(); 1 + i])).collect()
    };
    let two = chance(1, 2);
    let both = Arc::new([o, other]);
    let asks = Arc::new([kind(&both[0]), kind(&both[1])]);
    let base = [baseline(&both[0], &asks[0]), if two { baseline(&both[1], &asks[1]) } else { vec![] }];
    let out: Arc<Mutex<Vec<(usize, usize, u64)>>> = Arc::default();
    let mut work: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..2 + choose(2) {
        let (both, asks, out) = (both.clone(), asks.clone(), out.clone());
        let plan: Vec<(usize, usize)> = (0..8 + choose(24)).map(|_| (if two { choose(2) } else { 0 }, choose(asks[0].len()))).collect();
        work.push(Box::new(move || {
            let mine: Vec<(usize, usize, u64)> = plan.into_iter().map(|(w, i)| (w, i, answer(&both[w], &asks[w][i]))).collect();
            out.lock().unwrap().extend(mine);
        }));
    }
    run_clients([1, 2, 3, 6, 25][choose(5)], work);
    fault("client-interleaving");
    for (w, i, got) in out.lock().unwrap().iter() {
        note(*got);
        if !equal(&both[*w], &asks[*w], &base[*w], *i, *got, "among other clients") {
            return;
        }
    }
}

/// Arithmetic on probabilities, and constants of the crate.
pub fn c15_values() {
    let vals: Vec<f64> = (0..6).map(|_| *pick(&[0.0, 1.0, 0.5, 0.25, 1e-300, 0.1, 0.9, 1.0 - 1e-16, 0.3])).collect();
    let ops: Vec<(usize, usize, usize)> = (0..12).map(|_| (choose(11), choose(6), choose(6))).collect();
    let run = move |k: &(usize, usize, usize), vals: &[f64]| -> u64 {
        let (a, b) = (Probability::new_unchecked(vals[k.1]), Probability::new_unchecked(vals[k.2]));
        let r = sut_quiet(|| match k.0 {
            0 => (a * b).unwrap().to_bits(),
            1 => (!a).unwrap().to_bits(),
            2 => a.ln().to_bits(),
            3 => (a / b).map(|p| p.unwrap().to_bits()).unwrap_or(0),
            4 => (a + b).map(|p| p.unwrap().to_bits()).unwrap_or(0),
            5 => (a - b).map(|p| p.unwrap().to_bits()).unwrap_or(0),
            6 => (a * 3.5f64).to_bits(),
            7 => hash_bytes(format!("{} {:?} {:.2}", a, b, a).as_bytes()),
            8 => Probability::new(vals[k.1] * 2.0).is_ok() as u64,
            9 => (a < b) as u64 * 2 + (a == b) as u64,
            _ => rstat::SimplexVector::new([vals[k.1], 1.0 - vals[k.1]]).is_ok() as u64,
        });
        match r {
            Ok(v) => mix(1, v),
            Err(c) => mix(2, hash_bytes(panic_site(&c).as_bytes())),
        }
    };
    let b = fresh_process(|| ops.iter().flat_map(|k| run(k, &vals).to_le_bytes()).collect());
    let Some(b) = b.filter(|b| b.len() == 96) else { return };
    let base: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let out: Arc<Mutex<Vec<(usize, u64)>>> = Arc::default();
    let shared = Arc::new((vals, ops));
    let mut work: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..1 + choose(3) {
        let (s, out) = (shared.clone(), out.clone());
        let order: Vec<usize> = (0..24).map(|_| choose(12)).collect();
        work.push(Box::new(move || {
            for i in order {
                let v = run(&s.1[i], &s.0);
                out.lock().unwrap().push((i, v));
            }
        }));
    }
    run_clients(any_scale(), work);
    fault("client-interleaving");
    for (i, v) in out.lock().unwrap().iter() {
        check(*v == base[*i], || "Probability: arithmetic answers differently".into(), || format!("{:?} on {:?}", shared.1[*i], shared.0));
    }
}

fn alike(a: &Ans, b: &Ans) -> bool {
    let near = |x: f64, y: f64| x.to_bits() == y.to_bits() || x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 1e-9 * (1.0 + x.abs().min(y.abs()));
    match (a, b) {
        (Ans::Val(x), Ans::Val(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| near(*x, *y)),
        (Ans::Undefined, Ans::Undefined) | (Ans::Missing, Ans::Missing) => true,
        (Ans::Panic(_), Ans::Panic(_)) => true,
        _ => false,
    }
}

/// The same parameters, by whichever way of construction they came, make the same object.
pub fn c15_routes() {
    simblas::set_backend(0);
    let fam = any(everything);
    let reg = if chance(1, 4) { Reg::Wild } else { Reg::Tame };
    ROUTE.store(0, std::sync::atomic::Ordering::Relaxed);
    let (o, trail) = noted(|| (fam.gen)(reg));
    log!("{}", o.name);
    state(hash_bytes(o.name.as_bytes()));
    let way = 1 + choose(5);
    ROUTE.store(way, std::sync::atomic::Ordering::Relaxed);
    let p = same(&trail, || (fam.gen)(reg));
    let p = if chance(1, 2) { p.again(chance(1, 2)).unwrap_or(p) } else { p };
    for q in questions(&o, 30) {
        let Ask::Query(i, x, pr, data) = &q else { continue };
        let arg = match o.queries[*i].takes {
            Takes::Nothing => Arg::None,
            Takes::Point => Arg::X(x.as_ref().unwrap()),
            Takes::Prob => Arg::P(*pr),
            Takes::Data => Arg::Data(data),
        };
        let (a, b) = (o.ask_q(&o.queries[*i], &arg), p.ask_q(&p.queries[*i], &arg));
        note(a.bits().into_iter().fold(3, mix));
        if !check(alike(&a, &b), || format!("{}: {} depends on the way of construction", o.fam, o.queries[*i].name), || format!("{} {:?}: {:?}, but {:?} by way {}", o.name, arg, a, b, way)) {
            return;
        }
    }
    if o.sampler {
        let seed = bulk_seed();
        let mut v = [vec![], vec![]];
        for (o, v) in [&o, &p].into_iter().zip(&mut v) {
            let mut r = SimRng::fair(seed);
            r.budget = 1_000_000;
            let _ = o.draw(0, &mut r, 12, v);
        }
        let ok = alike(&Ans::Val(v[0].clone()), &Ans::Val(v[1].clone()));
        check(ok, || format!("{}: draws depend on the way of construction", o.fam), || format!("{}: {:?}, but {:?} by way {}", o.name, v[0], v[1], way));
    }
}
