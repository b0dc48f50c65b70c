//! C09: crashes in callbacks and refusals part-way leave everything as it was.
use crate::pure::*;
use crate::sets;
use crate::zoo::*;
use rand::RngCore;
use rstat::{ContinuousDistribution, Distribution, Mixture, Probability};
use rstat::statistics::UvMoments;
use simcore::rng::SimRng;
use simcore::sched::{any_scale, run_clients, yield_point};
use simcore::tracked::{self, Tracked};
use simcore::*;
use spaces::ops::{Closure, Union};
use spaces::Space;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

fn draws(o: &Obj, n: usize) -> Vec<Ask> {
    if !o.sampler {
        return vec![];
    }
    (0..n).map(|_| Ask::Draw(choose(3), bulk_seed(), 1 + choose(5))).collect()
}

/// The generator, `k` words later.
fn later(r: &SimRng, k: u64) -> SimRng {
    let mut q = r.clone();
    for _ in 0..k {
        q.next_u64();
    }
    q
}

/// The caller's generator crashes at word k, for many k.
pub fn c09_draws() {
    simblas::set_backend(choose(simblas::KINDS));
    let fam = any(drawn);
    let (o, twin) = pair(fam, if chance(1, 3) { Reg::Wild } else { Reg::Tame });
    log!("{} beside {}", o.name, twin.name);
    state(hash_bytes(o.name.as_bytes()));
    let mut asks = questions(&o, 8);
    asks.extend(draws(&o, 4));
    let base = baseline(&o, &asks);
    let rng = {
        let mut r = if chance(1, 2) { SimRng::fair(bulk_seed()) } else { SimRng::faulty(2, 20, 8) };
        r.budget = r.last_fault() + 200_000;
        r
    };
    let (door, n) = (choose(3), 1 + choose(6));
    // how many words the draw takes, in a process of its own
    let words = fresh_process(|| {
        let (mut r, mut v) = (rng.clone(), vec![]);
        let _ = o.draw(door, &mut r, n, &mut v);
        let mut b = r.pos.to_le_bytes().to_vec();
        v.iter().for_each(|x| b.extend(x.to_bits().to_le_bytes()));
        b
    });
    let Some(words) = words.filter(|w| w.len() >= 8) else { return };
    let w: Vec<u64> = words.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let (words, whole) = (w[0], &w[1..]);
    let points: Vec<u64> = if words <= 10 { (0..words).collect() } else { (0..8).map(|_| choose(words as usize) as u64).collect() };
    for &k in &points {
        subrun();
        let mut r = rng.clone().loud();
        r.crash_at = Some(k);
        let mut v = vec![];
        match o.draw(door, &mut r, n, &mut v) {
            Err(Caught::Crash(_)) => {},
            Ok(_) => probe("crash-not-reached"),
            Err(c) => violation(&format!("{}: a crash of the generator became another panic", o.fam), format!("{} at word {}: {:?}", o.name, k, c)),
        }
        let same = v.len() <= whole.len() && v.iter().zip(whole).all(|(a, b)| a.to_bits() == *b);
        check(same, || format!("{}: draws before the crash differ from those without it", o.fam), || format!("{} {} crash at word {} of {}: {:?}", o.name, DOORS[door], k, words, v));
        if chance(1, 3) {
            // go on with the same generator
            let mut clean = later(&rng, k);
            clean.budget = rng.budget + 200_000;
            let m = 1 + choose(4);
            let door = choose(3);
            let go = |mut r: SimRng| {
                let mut v = vec![];
                let e = o.draw(door, &mut r, m, &mut v).is_ok() as u64;
                let mut b = vec![e, r.pos];
                b.extend(v.iter().map(|x| x.to_bits()));
                b
            };
            let want = fresh_process(|| go(clean.clone()).iter().flat_map(|x| x.to_le_bytes()).collect());
            r.crash_at = None;
            r.budget = clean.budget;
            let got: Vec<u8> = go(r).iter().flat_map(|x| x.to_le_bytes()).collect();
            if let Some(want) = want {
                check(got == want, || format!("{}: draws after a crash differ from those without it", o.fam), || format!("{}: crash at word {}, then {} x{}", o.name, k, DOORS[door], m));
            }
        }
        if chance(1, 3) {
            disturb(&o, &twin);
        }
        let i = choose(asks.len());
        if !equal(&o, &asks, &base, i, answer(&o, &asks[i]), "after a crash of the generator") {
            return;
        }
    }
    for i in 0..asks.len() {
        if !equal(&o, &asks, &base, i, answer(&o, &asks[i]), "after a crash of the generator") {
            return;
        }
    }
    if let Ok(c) = o.again(chance(1, 2)) {
        let i = choose(asks.len());
        equal(&c, &asks, &base, i, answer(&c, &asks[i]), "from a copy made after a crash");
    }
    // nothing is left allocated by crashed draws
    if let Some(&k) = points.last() {
        let go = || {
            let mut r = rng.clone();
            r.crash_at = Some(k);
            let mut v = vec![];
            let _ = o.draw(door, &mut r, n, &mut v);
        };
        go();
        let (_, blocks, bytes) = alloc::balance(|| {
            go();
            go();
        });
        check(blocks <= 0 || bytes <= 0, || format!("{}: a crashed draw leaks", o.fam), || format!("{}: {} blocks of {} bytes, crash at word {}", o.name, blocks, bytes, k));
    }
}

/// Some clients crash, the others must not notice.
pub fn c09_clients() {
    let fam = any(drawn);
    let o = Arc::new((fam.gen)(if chance(1, 3) { Reg::Wild } else { Reg::Tame }));
    log!("{}", o.name);
    state(hash_bytes(o.name.as_bytes()));
    let mut asks = questions(&o, 6);
    asks.extend(draws(&o, 4));
    let base = baseline(&o, &asks);
    let asks = Arc::new(asks);
    let out: Arc<Mutex<Vec<(usize, u64)>>> = Arc::default();
    let mut work: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for c in 0..2 + choose(3) {
        let (o, asks, out) = (o.clone(), asks.clone(), out.clone());
        let plan: Vec<(bool, usize, u64)> = (0..6).map(|_| (c == 0 || chance(1, 3), choose(asks.len()), choose(12) as u64)).collect();
        let mut rng = SimRng::fair(bulk_seed()).loud();
        rng.yields = true;
        rng.budget = 300_000;
        work.push(Box::new(move || {
            let mut mine = vec![];
            for (crash, i, k) in plan {
                if crash {
                    rng.crash_at = Some(rng.pos + k);
                    let mut v = vec![];
                    let _ = o.draw(i % 3, &mut rng, 1 + i % 4, &mut v);
                    rng.crash_at = None;
                } else {
                    mine.push((i, answer(&o, &asks[i])));
                }
            }
            out.lock().unwrap().extend(mine);
        }));
    }
    run_clients(any_scale(), work);
    fault("client-interleaving");
    let mut got = out.lock().unwrap().clone();
    got.extend((0..asks.len()).map(|i| (i, answer(&o, &asks[i]))));
    for (i, got) in got {
        if !equal(&o, &asks, &base, i, got, "around crashes of other clients") {
            return;
        }
    }
}

/// Nothing depends on what memory held before.
pub fn c09_memory() {
    simblas::set_backend(choose(simblas::KINDS));
    let fam = any(everything);
    let o = (fam.gen)(if chance(1, 3) { Reg::Wild } else { Reg::Tame });
    log!("{}", o.name);
    state(hash_bytes(o.name.as_bytes()));
    let mut asks = questions(&o, 8);
    for (i, q) in o.queries.iter().enumerate() {
        if q.name == "support" || q.name == "params" {
            asks.push(Ask::Query(i, None, 0.5, vec![]));
        }
    }
    asks.extend(draws(&o, 3));
    let base = baseline(&o, &asks);
    for b in [0x00u8, 0xFF, 0x41, 0x7F] {
        alloc::set_fresh(b);
        alloc::smear(b);
        let c = if chance(1, 2) { o.again(chance(1, 2)).ok() } else { None };
        let o = c.as_ref().unwrap_or(&o);
        for i in 0..asks.len() {
            alloc::smear(b);
            let got = answer(o, &asks[i]);
            if !equal(o, &asks, &base, i, got, "by what memory held before") {
                alloc::set_fresh(0xA5);
                return;
            }
        }
        fault("memory-pattern");
    }
    alloc::set_fresh(0xA5);
}

/// Constructors that refuse part-way: nothing leaks, nothing else changes.
pub fn c09_refused() {
    let s = sets::any_set();
    let fam = any(everything);
    let o = (fam.gen)(Reg::Tame);
    log!("{} around refusals of {}", o.name, s.name);
    state(hash_bytes(s.name.as_bytes()) ^ hash_bytes(fam.name.as_bytes()));
    let asks = questions(&o, 4);
    let base = baseline(&o, &asks);
    for _ in 0..4 {
        let a = sets::any_args(s.kinds);
        for f in [s.params, s.dist] {
            set_label(s.name);
            let go = || sut_quiet(|| f(&a)).map_or(None, |r| Some(r.is_ok()));
            let first = go();
            if first == Some(false) {
                fault("refused-part-way");
            }
            let ((), blocks, bytes) = alloc::balance(|| {
                go();
                go();
            });
            check(blocks <= 0 || bytes <= 0, || format!("{}: leaks when {}", s.name, if first == Some(true) { "built and dropped" } else { "refused" }), || format!("{:?}: {} blocks of {} bytes", a, blocks, bytes));
        }
        let i = choose(asks.len());
        if !equal(&o, &asks, &base, i, answer(&o, &asks[i]), "after a refusal elsewhere") {
            return;
        }
    }
}

// --- mixtures of components the user wrote ---------------------------------------------------

/// Counts the calls made into user code and crashes in one of them.
#[derive(Debug, Default)]
struct Plan {
    calls: AtomicU64,
    crash_at: AtomicU64,
}
impl Plan {
    fn hit(&self) {
        callback(|| {
            yield_point(0x2002);
            let n = self.calls.fetch_add(1, Relaxed) + 1;
            if n == self.crash_at.load(Relaxed) {
                fault("component-crash");
                crash_now(n);
            }
        })
    }
    fn set(&self, at: u64) {
        self.calls.store(0, Relaxed);
        self.crash_at.store(at, Relaxed);
    }
}
fn held(t: &Tracked) -> Tracked { callback(|| Tracked::new(t.key)) }

struct PartParams {
    t: Tracked,
    plan: Arc<Plan>,
}
struct Part {
    t: Tracked,
    plan: Arc<Plan>,
}
impl std::fmt::Debug for Part {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Part({})", self.t.key) }
}
impl Clone for Part {
    fn clone(&self) -> Part {
        self.plan.hit();
        Part { t: held(&self.t), plan: self.plan.clone() }
    }
}
struct Pieces {
    t: Tracked,
    keys: Vec<f64>,
    plan: Arc<Plan>,
}
impl Clone for Pieces {
    fn clone(&self) -> Pieces {
        self.plan.hit();
        Pieces { t: held(&self.t), keys: self.keys.clone(), plan: self.plan.clone() }
    }
}
struct Piece(Tracked);
impl Space for Pieces {
    type Value = Piece;
    fn contains(&self, x: &Piece) -> bool { self.keys.contains(&x.0.key) }
}
struct Both(Pieces, Pieces);
impl Union<Pieces> for Pieces {
    type Output = Both;
    fn union(self, other: Pieces) -> Both {
        self.plan.hit();
        Both(self, other)
    }
}
impl Closure for Both {
    type Output = Pieces;
    fn closure(self) -> Pieces {
        self.0.plan.hit();
        let Both(mut a, b) = self;
        a.keys.extend(b.keys);
        a
    }
}
impl From<PartParams> for Part {
    fn from(p: PartParams) -> Part {
        p.plan.hit();
        Part { t: p.t, plan: p.plan }
    }
}
impl Distribution for Part {
    type Support = Pieces;
    type Params = PartParams;
    fn support(&self) -> Pieces {
        self.plan.hit();
        Pieces { t: held(&self.t), keys: vec![self.t.key], plan: self.plan.clone() }
    }
    fn params(&self) -> PartParams {
        self.plan.hit();
        PartParams { t: held(&self.t), plan: self.plan.clone() }
    }
    fn cdf(&self, x: &Piece) -> Probability {
        self.plan.hit();
        Probability::new_unchecked(if self.t.key <= x.0.key { 1.0 } else { 0.0 })
    }
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> Piece {
        self.plan.hit();
        let t = held(&self.t);
        let _ = rng.next_u32();
        Piece(t)
    }
}
impl ContinuousDistribution for Part {
    fn pdf(&self, x: &Piece) -> f64 {
        self.plan.hit();
        (self.t.key == x.0.key) as u8 as f64
    }
}
impl rstat::Univariate for Part {}
impl UvMoments for Part {
    fn mean(&self) -> f64 {
        self.plan.hit();
        self.t.key
    }
    fn variance(&self) -> f64 {
        self.plan.hit();
        1.0
    }
    fn skewness(&self) -> f64 { 0.0 }
    fn kurtosis(&self) -> f64 { 0.0 }
}

fn keep<const N: usize>(m: &Mixture<N, Part>, alive: &[u64], what: &str) -> bool {
    let sound = m.components.iter().all(|c| c.t.intact());
    let live: BTreeSet<u64> = tracked::live().into_iter().collect();
    let want: BTreeSet<u64> = alive.iter().copied().collect();
    let errors = tracked::errors();
    let cls = |s: &str| format!("Mixture of user components: {} {}", what, s);
    check(sound, || cls("damages a component"), || format!("{:?}", m.components))
        && check(errors.is_empty(), || cls("drops a value wrongly"), || format!("{:?}", errors))
        && check(want.is_subset(&live), || cls("loses a value"), || format!("live {:?}, expected {:?}", live, want))
        && check(live.is_subset(&want), || cls("leaks"), || format!("live {:?}, expected {:?}", live, want))
}

pub fn c09_owned() {
    match choose(5) {
        0 => owned::<1>(),
        1 => owned::<2>(),
        2 => owned::<3>(),
        3 => owned::<5>(),
        _ => owned::<9>(),
    }
}

fn owned<const N: usize>() {
    let plan = Arc::new(Plan::default());
    let parts = |plan: &Arc<Plan>| -> [Part; N] { std::array::from_fn(|i| Part { t: Tracked::new(i as f64 - 1.0), plan: plan.clone() }) };
    let class = |what: &str, s: &str| format!("Mixture of user components: {} {}", what, s);
    let ws = dyadic_simplex::<N>();
    let given = parts(&plan);
    let ids: Vec<u64> = given.iter().map(|c| c.t.id).collect();
    let before = tracked::live().len();
    let m = match sut("Mixture::new", || Mixture::new(ws, given)) {
        Ok(Ok(m)) => m,
        r => {
            violation(&class("new", "refuses valid weights"), format!("{:?}: {:?}", ws, r.map(|r| r.is_ok())));
            return;
        },
    };
    check(m.components.iter().map(|c| c.t.id).eq(ids.iter().copied()), || class("new", "does not keep its components"), || format!("{:?} given {:?}", m.components, ids));
    check(tracked::live().len() == before + 1, || class("new", "leaks"), || format!("{} values live, {} before", tracked::live().len(), before));
    let alive = tracked::live();
    let seeds: Vec<u64> = (0..3).map(|_| bulk_seed()).collect();
    let see = |m: &Mixture<N, Part>| -> Vec<u64> {
        let mut out = vec![];
        for s in &seeds {
            let mut r = SimRng::fair(*s);
            let x = sut_quiet(|| m.sample(&mut r));
            if let Ok(x) = &x {
                out.push(x.0.key.to_bits());
                out.push(r.pos);
                out.push(sut_quiet(|| m.cdf(x)).map_or(9, |p| p.unwrap().to_bits()));
                out.push(sut_quiet(|| m.pdf(x)).map_or(9, |p| p.to_bits()));
            }
        }
        out.push(sut_quiet(|| m.mean()).map_or(9, |p| p.to_bits()));
        out.push(sut_quiet(|| m.variance()).map_or(9, |p| p.to_bits()));
        out
    };
    plan.set(0);
    let base = match fresh_process(|| see(&m).iter().flat_map(|x| x.to_le_bytes()).collect()) {
        Some(b) => b,
        None => return,
    };
    let steps = 4 + choose(8);
    for _ in 0..steps {
        let ops = ["new", "new with bad weights", "new_unchecked", "params", "From<Params>", "From<Params> of wrong length", "clone", "sample", "sample_n", "sample_iter", "support", "into_params", "into_support", "cdf", "pdf", "mean", "variance"];
        let op = choose(ops.len());
        let what = ops[op];
        let at = if chance(1, 4) { 0 } else { 1 + choose(3 * N + 3) as u64 };
        log!("{} with a crash at call {}", what, at);
        note(mix(op as u64, at));
        let mut rng = SimRng::fair(bulk_seed()).loud();
        rng.yields = true;
        if chance(1, 3) {
            rng.crash_at = Some(choose(12) as u64);
        }
        // pieces to pass in are made before the plan is armed
        plan.set(0);
        let fresh = if op <= 2 { Some(parts(&plan)) } else { None };
        let fresh_ids: Vec<u64> = fresh.iter().flatten().map(|c| c.t.id).collect();
        let params = if op == 4 || op == 5 { Some(m.params()) } else { None };
        let copy = if op == 11 || op == 12 { Some(m.clone()) } else { None };
        let point = if op == 13 || op == 14 { Some(Piece(Tracked::new(0.0))) } else { None };
        plan.set(at);
        let in_order = |c: &[Part]| c.len() == N && c.iter().enumerate().all(|(i, p)| p.t.key == i as f64 - 1.0 && p.t.intact());
        let good = |x: &Piece| x.0.intact() && m.weights.iter().zip(&m.components).any(|(w, c)| *w > 0.0 && c.t.key == x.0.key);
        let ok: Result<bool, Caught> = match op {
            0 => sut(what, || Mixture::new(ws, fresh.unwrap())).map(|r| r.map_or(false, |m2| m2.components.iter().map(|c| c.t.id).eq(fresh_ids.iter().copied()))),
            1 => {
                let mut bad = ws;
                bad[choose(N)] = *pick(&[-0.5, 2.0, f64::NAN, f64::INFINITY]);
                sut(what, || Mixture::new(bad, fresh.unwrap())).map(|r| r.is_err())
            },
            2 => sut(what, || Mixture::new_unchecked(ws, fresh.unwrap())).map(|m2| m2.components.iter().map(|c| c.t.id).eq(fresh_ids.iter().copied())),
            3 => sut(what, || m.params()).map(|p| {
                p.component_params.len() == N && p.component_params.iter().enumerate().all(|(i, c)| c.t.key == i as f64 - 1.0 && c.t.intact()) && p.ps.iter().eq(m.weights.iter())
            }),
            4 => {
                let p = params.unwrap();
                let want: Vec<u64> = p.component_params.iter().map(|c| c.t.id).collect();
                sut(what, || Mixture::<N, Part>::from(p)).map(|m2| m2.components.iter().map(|c| c.t.id).eq(want.iter().copied()) && m2.weights.iter().eq(m.weights.iter()))
            },
            5 => {
                let mut p = params.unwrap();
                match choose(3) {
                    0 => p.component_params.truncate(choose(N)),
                    1 => {
                        let t = Tracked::new(77.0);
                        p.component_params.push(PartParams { t, plan: plan.clone() })
                    },
                    _ => {
                        let k = choose(N);
                        drop(p.component_params.remove(k));
                    },
                }
                match sut(what, || Mixture::<N, Part>::from(p)) {
                    // a lawful outcome is a panic, never an object
                    Ok(_) => Ok(false),
                    Err(Caught::Panic(_)) => Ok(true),
                    Err(c) => Err(c),
                }
            },
            6 => sut(what, || m.clone()).map(|m2| in_order(&m2.components) && m2.weights.iter().eq(m.weights.iter())),
            7 => sut(what, || m.sample(&mut rng)).map(|x| good(&x)),
            8 => {
                let n = choose(6);
                sut(what, || m.sample_n(&mut rng, n)).map(|x| x.len() == n && x.iter().all(good))
            },
            9 => {
                let n = choose(6);
                sut(what, || {
                    let mut all = true;
                    for x in m.sample_iter(&mut rng).take(n) {
                        all &= callback(|| good(&x));
                    }
                    all
                })
            },
            10 => sut(what, || m.support()).map(|s| s.t.intact() && s.keys.len() == N),
            11 => sut(what, || copy.unwrap().into_params()).map(|p| p.component_params.len() == N),
            12 => sut(what, || copy.unwrap().into_support()).map(|s| s.t.intact() && s.keys.len() == N),
            13 => {
                let x = point.unwrap();
                sut(what, || m.cdf(&x)).map(|p| p.unwrap() >= 0.0)
            },
            14 => {
                let x = point.unwrap();
                sut(what, || m.pdf(&x)).map(|p| p >= 0.0)
            },
            15 => sut(what, || m.mean()).map(|v| v.is_finite()),
            _ => sut(what, || m.variance()).map(|v| v.is_finite()),
        };
        plan.set(0);
        match ok {
            Ok(ok) => {
                check(ok, || class(what, "gives a wrong result"), || format!("{} components, weights {:?}, crash at {}", N, ws, at));
            },
            Err(Caught::Crash(_)) => {},
            Err(c) => violation(&class(what, "panicked"), format!("{} components: {:?}", N, c)),
        }
        if !keep(&m, &alive, what) {
            return;
        }
        subrun();
    }
    let now: Vec<u8> = see(&m).iter().flat_map(|x| x.to_le_bytes()).collect();
    check(now == base, || "Mixture of user components: answers differ after crashes".into(), || format!("{:?}, weights {:?}", m.components, ws));
    keep(&m, &alive, "any");
    drop(m);
    check(tracked::live().is_empty() && tracked::errors().is_empty(), || class("drop", "leaks"), || format!("{:?} {:?}", tracked::live(), tracked::errors()));
}
