//! Single draws under hostile generators: support, repeatability, progress.
use crate::zoo::{any, LOOSE, drawn, pair, Obj, Reg, Takes, Arg, DOORS};
use simcore::rng::{SimRng, CRASH_BUDGET};
use simcore::sched::{any_scale, run_clients};
use simcore::*;
use std::sync::{Arc, Mutex};

fn reg() -> Reg {
    LOOSE.store(true, std::sync::atomic::Ordering::Relaxed);
    if chance(1, 2) { Reg::Wild } else { Reg::Tame }
}

/// More words than any draw may take from a fair source.
const PATIENCE: u64 = 400_000;

pub fn member(o: &Obj, x: &[f64]) -> bool {
    if x.iter().any(|v| v.is_nan()) {
        return false;
    }
    if o.top.map_or(false, |t| x[0] > t) {
        return false;
    }
    if o.contains(x) {
        return true;
    }
    if o.dim == 1 {
        let x = x[0];
        let close = |b: f64| (x - b).abs() <= 8.0 * f64::EPSILON * b.abs().max(x.abs());
        return match o.bounds {
            _ if o.disc => false,
            (lo, hi) => {
                lo.map_or(x == f64::NEG_INFINITY && !o.disc, |b| x == b || (x > b && x == f64::INFINITY && hi.is_none()) || (x > b && hi.is_some() && close(b)) || close(b))
                    || hi.map_or(x == f64::INFINITY && !o.disc, |b| x == b || close(b))
            },
        };
    }
    // overflow to infinity in an unbounded coordinate
    x.iter().any(|v| v.is_infinite()) && o.fam != "Dirichlet"
}

fn verdict(o: &Obj, door: usize, r: Result<usize, Caught>, xs: &[f64]) -> bool {
    match r {
        Ok(_) => {},
        Err(Caught::Crash(CRASH_BUDGET)) => return false,
        Err(c) => {
            violation(&format!("{}: draw panicked", o.fam), format!("{} {}: {:?}", o.name, DOORS[door], c));
            return false;
        },
    }
    for x in xs.chunks(o.dim) {
        check(member(o, x), || format!("{}: draw outside the support", o.fam), || format!("{} {}: {:?}", o.name, DOORS[door], x));
    }
    true
}

pub fn c01_support() {
    let fam = any(drawn);
    let o = (fam.gen)(reg());
    log!("{}", o.name);
    state(hash_bytes(o.name.as_bytes()));
    let mut rng = SimRng::faulty(5, 48, 200);
    for _ in 0..1 + choose(4) {
        let door = choose(3);
        let n = [1, 3, 20, 150][choose(4)];
        rng.budget = rng.pos.max(rng.last_fault()) + PATIENCE;
        let mut xs = vec![];
        let r = o.draw(door, &mut rng, n, &mut xs);
        note(xs.iter().fold(xs.len() as u64, |h, x| mix(h, x.to_bits())));
        if !verdict(&o, door, r, &xs) {
            break;
        }
    }
}

/// One word at one position takes every special value in turn.
pub fn c01_sweep() {
    let fam = any(drawn);
    let o = (fam.gen)(reg());
    log!("{}", o.name);
    let seed = bulk_seed();
    let at = choose(4);
    let len = if chance(1, 3) { 1 + choose(8) } else { 1 };
    use simcore::rng::{Word, WordFault};
    let words = [
        Word::Zero, Word::Max, Word::One, Word::TopBit, Word::AllButTop, Word::AllButLow, Word::Alt5, Word::AltA, Word::Stuck, Word::Half,
        Word::Small(1), Word::Small(2), Word::Small(choose(4096) as u64), Word::LowBits(1 + choose(62) as u32), Word::LowBits(12), Word::LowBits(11),
        Word::HighBits(1 + choose(62) as u32), Word::HighBits(53), Word::HighBits(52), Word::HighBits(1),
    ];
    for w in words {
        let mut rng = SimRng::fair(seed).loud();
        rng.plan.push(WordFault { at: at as u64, len: len as u64, word: w });
        rng.budget = PATIENCE;
        let mut xs = vec![];
        let r = o.draw(0, &mut rng, 3, &mut xs);
        note(xs.iter().fold(xs.len() as u64, |h, x| mix(h, x.to_bits())));
        if !verdict(&o, 0, r, &xs) {
            break;
        }
    }
}

pub fn c01_clients() {
    let fam = any(drawn);
    let o = Arc::new((fam.gen)(reg()));
    log!("{}", o.name);
    let k = 2 + choose(3);
    let out: Arc<Mutex<Vec<(usize, Result<usize, Caught>, Vec<f64>)>>> = Arc::new(Mutex::new(vec![]));
    let mut clients: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..k {
        let (o, out) = (o.clone(), out.clone());
        let mut rng = SimRng::faulty(3, 24, 60);
        rng.yields = true;
        rng.budget = rng.last_fault() + PATIENCE;
        let (door, n) = (choose(3), 1 + choose(12));
        clients.push(Box::new(move || {
            let mut xs = vec![];
            let r = o.draw(door, &mut rng, n, &mut xs);
            out.lock().unwrap().push((door, r, xs));
        }));
    }
    run_clients(any_scale(), clients);
    fault("client-interleaving");
    for (door, r, xs) in out.lock().unwrap().drain(..) {
        verdict(&o, door, r, &xs);
    }
}

// --- C02 -----------------------------------------------------------------------------------

type Run = (Vec<u64>, Option<Caught>, (u64, u64));

fn draw_bits(o: &Obj, door: usize, mut rng: SimRng, n: usize) -> Run {
    let mut xs = vec![];
    let e = o.draw(door, &mut rng, n, &mut xs).err();
    (xs.iter().map(|x| x.to_bits()).collect(), e, rng.state())
}
fn same(o: &Obj, what: &str, a: &Run, b: &Run) {
    let e = |r: &Run| r.1.as_ref().map(|c| format!("{:?}", c));
    // a run that ends in a panic or out of words is judged by C01 and C03
    if a.1.is_some() || b.1.is_some() {
        check(a.1.is_some() == b.1.is_some(), || format!("{}: draws differ: {}", o.fam, what), || format!("{}: {:?} against {:?}", o.name, e(a), e(b)));
        return;
    }
    check(a.0 == b.0, || format!("{}: draws differ: {}", o.fam, what), || {
        let f = |r: &Run| r.0.iter().map(|x| f64::from_bits(*x)).take(12).collect::<Vec<_>>();
        format!("{}: {:?} against {:?}", o.name, f(a), f(b))
    });
    check(a.2 == b.2, || format!("{}: generator left in another state: {}", o.fam, what), || format!("{}: {:?} against {:?}", o.name, a.2, b.2));
}

fn word_source() -> SimRng {
    let mut r = if chance(1, 3) { SimRng::faulty(3, 30, 40) } else { SimRng::fair(bulk_seed()) };
    r.budget = r.last_fault() + PATIENCE;
    r
}

/// The draws of a process with no other history.
fn alone(o: &Obj, rng: &SimRng, n: usize) -> Run {
    let bytes = fresh_process(|| {
        let r = draw_bits(o, 0, rng.clone(), n);
        if r.1.is_some() {
            return vec![1];
        }
        let mut out = vec![0u8];
        out.extend(r.2 .0.to_le_bytes());
        out.extend(r.2 .1.to_le_bytes());
        r.0.iter().for_each(|x| out.extend(x.to_le_bytes()));
        out
    });
    match bytes {
        Some(b) if b.first() == Some(&0) => {
            let w: Vec<u64> = b[1..].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            (w[2..].to_vec(), None, (w[0], w[1]))
        },
        _ => draw_bits(o, 0, rng.clone(), n),
    }
}

pub fn c02_replay() {
    let fam = any(drawn);
    let (o, twin) = pair(fam, reg());
    log!("{} beside {}", o.name, twin.name);
    state(hash_bytes(o.name.as_bytes()));
    let rng = word_source();
    let n = if chance(1, 50) { 1000 + choose(8000) } else { 1 + choose(if chance(1, 3) { 200 } else { 12 }) };
    let base = if chance(1, 2) { alone(&o, &rng, n) } else { draw_bits(&o, 0, rng.clone(), n) };
    note(base.0.iter().fold(0, |h, x| mix(h, *x)));
    let mut copy: Option<Obj> = None;
    for _ in 0..2 + choose(6) {
        let subject = copy.as_ref().unwrap_or(&o);
        match choose(8) {
            0 => same(&o, "replayed", &base, &draw_bits(subject, 0, rng.clone(), n)),
            1 => same(&o, "sample_n", &base, &draw_bits(subject, 1, rng.clone(), n)),
            2 => same(&o, "sample_iter", &base, &draw_bits(subject, 2, rng.clone(), n)),
            3 | 4 => {
                let rebuild = chance(1, 2);
                match subject.again(rebuild) {
                    Ok(c) => {
                        same(&o, if rebuild { "rebuilt from its parameters" } else { "cloned" }, &base, &draw_bits(&c, choose(3), rng.clone(), n));
                        copy = Some(c);
                    },
                    Err(c) => violation(&format!("{}: cannot be copied", o.fam), format!("{}: {:?}", o.name, c)),
                }
            },
            5 => {
                // another draw in between, perhaps crashing
                let mut r = SimRng::faulty(2, 10, 10);
                r.budget = PATIENCE;
                if chance(1, 2) {
                    r.crash_at = Some(choose(8) as u64);
                }
                let _ = draw_bits(if chance(1, 2) { subject } else { &twin }, choose(3), r, 1 + choose(9));
            },
            6 => {
                for q in &subject.queries {
                    if q.takes == Takes::Nothing && chance(1, 2) {
                        let _ = subject.ask_q(q, &Arg::None);
                    }
                }
            },
            _ => {
                // two alternating users of one object
                let (mut r1, mut r2) = (rng.clone(), SimRng::fair(bulk_seed()));
                let mut xs = vec![];
                let mut other = vec![];
                let mut err = None;
                for _ in 0..n {
                    if let Err(e) = subject.draw(0, &mut r1, 1, &mut xs) {
                        err = Some(e);
                        break;
                    }
                    let _ = subject.draw(0, &mut r2, choose(3), &mut other);
                }
                same(&o, "alternating with another user", &base, &(xs.iter().map(|x| x.to_bits()).collect(), err, r1.state()));
            },
        }
    }
}

pub fn c02_clients() {
    let fam = any(drawn);
    let (o, twin) = pair(fam, reg());
    log!("{} beside {}", o.name, twin.name);
    let users = [Arc::new(o), Arc::new(twin)];
    let k = 2 + choose(3);
    let mut jobs = vec![];
    for _ in 0..k {
        let rng = word_source();
        let n = 1 + choose(10);
        let o = users[chance(1, 3) as usize].clone();
        let base = if chance(1, 2) { alone(&o, &rng, n) } else { draw_bits(&o, 0, rng.clone(), n) };
        jobs.push((rng, n, choose(3), chance(1, 3), base, o));
    }
    let out: Arc<Mutex<Vec<(usize, Run)>>> = Arc::new(Mutex::new(vec![]));
    let mut clients: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (i, (rng, n, door, clone, _, o)) in jobs.iter().enumerate() {
        let (o, out, mut rng, n, door, clone) = (o.clone(), out.clone(), rng.clone(), *n, *door, *clone);
        rng.yields = true;
        clients.push(Box::new(move || {
            let own = if clone { o.again(false).ok() } else { None };
            let r = draw_bits(own.as_ref().unwrap_or(&o), door, rng, n);
            out.lock().unwrap().push((i, r));
        }));
    }
    run_clients(any_scale(), clients);
    fault("client-interleaving");
    for (i, r) in out.lock().unwrap().iter() {
        same(&jobs[*i].5, "with other clients", &jobs[*i].4, r);
    }
}

// --- C03 -----------------------------------------------------------------------------------

pub fn c03_progress() {
    let fam = any(drawn);
    let o = (fam.gen)(reg());
    log!("{}", o.name);
    state(hash_bytes(o.name.as_bytes()));
    let mut rng = SimRng::faulty(4, 40, 4000);
    let door = choose(3);
    let n = if chance(1, 60) { 1000 + choose(8000) } else { [1, 2, 7, 40][choose(4)] };
    rng.budget = rng.last_fault() + PATIENCE + 200 * n as u64;
    let mut xs = vec![];
    let r = o.draw(door, &mut rng, n, &mut xs);
    note(rng.pos);
    progress(&o, door, n, &rng, r, &xs);
}

fn progress(o: &Obj, door: usize, n: usize, rng: &SimRng, r: Result<usize, Caught>, xs: &[f64]) {
    match r {
        Ok(k) => {
            check(k == n && xs.len() == n * o.dim, || format!("{}: {} returned the wrong number of draws", o.fam, DOORS[door]), || format!("{}: {} instead of {}", o.name, k, n));
        },
        Err(Caught::Crash(CRASH_BUDGET)) => {
            violation(&format!("{}: no progress", o.fam), format!("{} {}: {} of {} draws after {} fair words since the last of {:?}", o.name, DOORS[door], xs.len() / o.dim, n, PATIENCE, rng.plan));
        },
        Err(_) => {},
    }
}

/// The generator stays stuck for long, then recovers.
pub fn c03_stuck() {
    let fam = any(drawn);
    let o = (fam.gen)(reg());
    log!("{}", o.name);
    use simcore::rng::WordFault;
    let mut rng = SimRng::fair(bulk_seed()).loud();
    let at = choose(12) as u64;
    let len = [1, 16, 300, 20_000][choose(4)];
    rng.plan.push(WordFault { at, len, word: simcore::rng::any_word() });
    rng.budget = rng.last_fault() + PATIENCE;
    let n = 1 + choose(3);
    let mut xs = vec![];
    let door = choose(3);
    let r = o.draw(door, &mut rng, n, &mut xs);
    note(rng.pos);
    progress(&o, door, n, &rng, r, &xs);
}

pub fn c03_clients() {
    let fam = any(drawn);
    let o = Arc::new((fam.gen)(reg()));
    log!("{}", o.name);
    let k = 2 + choose(3);
    let out = Arc::new(Mutex::new(vec![]));
    let mut clients: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..k {
        let (o, out) = (o.clone(), out.clone());
        let mut rng = SimRng::faulty(3, 20, 300);
        rng.yields = true;
        rng.budget = rng.last_fault() + PATIENCE;
        let (door, n) = (choose(3), 1 + choose(6));
        clients.push(Box::new(move || {
            let mut xs = vec![];
            let r = o.draw(door, &mut rng, n, &mut xs);
            out.lock().unwrap().push((door, n, rng, r, xs));
        }));
    }
    run_clients(any_scale(), clients);
    fault("client-interleaving");
    for (door, n, rng, r, xs) in out.lock().unwrap().drain(..) {
        progress(&o, door, n, &rng, r, &xs);
    }
}
