//! Command line, worker processes, aggregation, shrinking, replay files and evidence.
use crate::sched;
use crate::shm::{self, Shared};
use crate::sim::{self, hash_bytes, install, Ctx};
use crate::tape::{splitmix, Mode, Tape, Xo};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub struct Scenario {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub cpu_s: u64,
    pub run: fn(),
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
    /// Two executions of one tape must log the same events, else the property itself is broken.
    pub determinism_is_property: bool,
    pub scenarios: Vec<Scenario>,
}

#[derive(Debug, Clone)]
struct Outcome {
    status: u32,
    class: String,
    msg: String,
    tape: Vec<u64>,
    ev_hash: u64,
    events: u64,
    steps: u64,
    switches: u64,
    sched_hash: u64,
    body: Value,
}

#[derive(Default, Clone)]
struct Agg {
    runs: u64,
    events: u64,
    steps: u64,
    switches: u64,
    evals: u64,
    subruns: u64,
    counters: BTreeMap<String, u64>,
    schedules: BTreeSet<u64>,
    traces: BTreeSet<u64>,
    states: BTreeSet<u64>,
    samples: Vec<String>,
    known: BTreeMap<String, String>,
    violations: Vec<(u64, usize, String, String, Vec<u64>, u64)>,
    errors: Vec<String>,
    rechecked: u64,
    diverged: Vec<(u64, usize)>,
    per: BTreeMap<usize, u64>,
    skipped: u64,
}

pub struct Env {
    known: Vec<(String, String)>,
    harness: &'static str,
    /// Wall-clock limit of the search, in seconds.
    wall: u64,
    all: bool,
}

fn run_seed(verif: u64, prop: &str, scen: &str, idx: u64) -> u64 {
    let mut s = verif ^ hash_bytes(prop.as_bytes()).rotate_left(17) ^ hash_bytes(scen.as_bytes()).rotate_left(31);
    let a = splitmix(&mut s);
    let mut t = a ^ idx.wrapping_mul(0xA24B_AED4_963E_E407);
    splitmix(&mut t)
}

/// Fork one run and wait for it.
fn run_once(env: &Env, prop: &Property, sc: &Scenario, shared: *mut Shared, mode: Mode, trace: bool) -> Outcome {
    unsafe {
        (*shared).status.store(0, Relaxed);
        (*shared).tape_len.store(0, Relaxed);
        for a in [&(*shared).ev_hash, &(*shared).events, &(*shared).steps, &(*shared).switches, &(*shared).sched_hash] {
            a.store(0, Relaxed);
        }
        (*shared).label_len.store(0, Relaxed);
        (*shared).msg_len.store(0, Relaxed);
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("simcore: fork failed");
            libc::_exit(2);
        }
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: sc.cpu_s, rlim_max: sc.cpu_s + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::alarm((sc.cpu_s * 15) as u32);
            // neither C libraries nor a dying run may write to the check's output
            let nul = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            if nul >= 0 {
                libc::dup2(nul, 1);
                if !trace {
                    libc::dup2(nul, 2);
                }
            }
            sched::bind(shared);
            sched::reset();
            install(Ctx {
                tape: Tape { mode, shared, trail: None, echo: None },
                shared,
                counters: BTreeMap::new(),
                states: BTreeSet::new(),
                samples: vec![],
                known: env.known.clone(),
                known_hits: BTreeMap::new(),
                trace: if trace { Some(vec![]) } else { None },
                property: prop.id.to_string(),
                evals: 0,
                subruns: 0,
            });
            sim::install_panic_hook();
            let r = std::panic::catch_unwind(sc.run);
            sched::flush();
            match r {
                Ok(()) => sim::finish(1, Value::Null),
                Err(p) => {
                    let c = sim::describe(p);
                    sim::harness_error(format!("scenario panicked: {:?}", c))
                },
            }
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        let s = &*shared;
        let n = s.msg_len.load(Relaxed) as usize;
        let m = &s.msg;
        let body: Value = if n > 0 { serde_json::from_slice(&m[..n]).unwrap_or(Value::Null) } else { Value::Null };
        let mut o = Outcome {
            status: s.status.load(Relaxed),
            class: String::new(),
            msg: String::new(),
            tape: Tape::recorded(shared),
            ev_hash: s.ev_hash.load(Relaxed),
            events: s.events.load(Relaxed),
            steps: s.steps.load(Relaxed),
            switches: s.switches.load(Relaxed),
            sched_hash: s.sched_hash.load(Relaxed),
            body,
        };
        if o.status == 0 {
            let l = &s.label;
            let label = String::from_utf8_lossy(&l[..s.label_len.load(Relaxed) as usize]).to_string();
            o.status = 2;
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                if sig == libc::SIGXCPU || sig == libc::SIGKILL || sig == libc::SIGALRM {
                    o.class = format!("hang in {}", label);
                    o.msg = format!("no progress: the run was stopped after {} s of CPU time inside {}", sc.cpu_s, label);
                } else {
                    o.class = format!("died in {}", label);
                    o.msg = format!("the process died of signal {} inside {}", sig, label);
                }
            } else {
                o.class = format!("exit in {}", label);
                o.msg = format!("the process exited inside {}", label);
            }
            if label.is_empty() {
                o.status = 3;
            }
            if env.known.iter().any(|(p, k)| p == prop.id && *k == o.class) {
                o.status = 1;
                o.body = json!({"known": {o.class.clone(): o.msg.clone()}});
            }
        } else if o.status >= 2 {
            o.class = o.body["extra"]["class"].as_str().unwrap_or("?").to_string();
            o.msg = o.body["extra"]["msg"].as_str().unwrap_or("?").to_string();
        }
        o
    }
}

fn absorb(a: &mut Agg, o: &Outcome) {
    a.runs += 1;
    a.events += o.events;
    a.steps += o.steps;
    a.switches += o.switches;
    a.schedules.insert(o.sched_hash);
    a.traces.insert(o.ev_hash);
    a.evals += o.body["evals"].as_u64().unwrap_or(0);
    a.subruns += o.body["subruns"].as_u64().unwrap_or(0);
    if let Some(m) = o.body["counters"].as_object() {
        for (k, v) in m {
            *a.counters.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
        }
    }
    if let Some(v) = o.body["states"].as_array() {
        a.states.extend(v.iter().filter_map(|x| x.as_u64()));
    }
    if let Some(v) = o.body["samples"].as_array() {
        for s in v {
            if a.samples.len() < 4 {
                a.samples.push(s.as_str().unwrap_or("").to_string());
            }
        }
    }
    if let Some(m) = o.body["known"].as_object() {
        for (k, v) in m {
            a.known.entry(k.clone()).or_insert_with(|| v.as_str().unwrap_or("").to_string());
        }
    }
}

fn agg_to_json(a: &Agg) -> Value {
    json!({
        "runs": a.runs, "events": a.events, "steps": a.steps, "switches": a.switches,
        "evals": a.evals, "subruns": a.subruns, "counters": a.counters,
        "schedules": a.schedules, "traces": a.traces, "states": a.states, "samples": a.samples,
        "known": a.known, "violations": a.violations, "errors": a.errors,
        "rechecked": a.rechecked, "diverged": a.diverged,
        "per": a.per.iter().collect::<Vec<_>>(), "skipped": a.skipped,
    })
}

fn merge_json(a: &mut Agg, v: &Value) {
    let u = |k: &str| v[k].as_u64().unwrap_or(0);
    a.runs += u("runs");
    a.events += u("events");
    a.steps += u("steps");
    a.switches += u("switches");
    a.evals += u("evals");
    a.subruns += u("subruns");
    a.rechecked += u("rechecked");
    a.skipped += u("skipped");
    for x in v["per"].as_array().cloned().unwrap_or_default() {
        *a.per.entry(x[0].as_u64().unwrap_or(0) as usize).or_insert(0) += x[1].as_u64().unwrap_or(0);
    }
    if let Some(m) = v["counters"].as_object() {
        for (k, x) in m {
            *a.counters.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
        }
    }
    let set = |k: &str| v[k].as_array().cloned().unwrap_or_default();
    a.schedules.extend(set("schedules").iter().filter_map(|x| x.as_u64()));
    a.traces.extend(set("traces").iter().filter_map(|x| x.as_u64()));
    a.states.extend(set("states").iter().filter_map(|x| x.as_u64()));
    for s in set("samples") {
        a.samples.push(s.as_str().unwrap_or("").to_string());
    }
    if let Some(m) = v["known"].as_object() {
        for (k, x) in m {
            a.known.entry(k.clone()).or_insert_with(|| x.as_str().unwrap_or("").to_string());
        }
    }
    for x in set("violations") {
        let t = x[4].as_array().cloned().unwrap_or_default().iter().filter_map(|y| y.as_u64()).collect();
        a.violations.push((
            x[0].as_u64().unwrap_or(0),
            x[1].as_u64().unwrap_or(0) as usize,
            x[2].as_str().unwrap_or("").into(),
            x[3].as_str().unwrap_or("").into(),
            t,
            x[5].as_u64().unwrap_or(0),
        ));
    }
    for e in set("errors") {
        a.errors.push(e.as_str().unwrap_or("").into());
    }
    for d in set("diverged") {
        a.diverged.push((d[0].as_u64().unwrap_or(0), d[1].as_u64().unwrap_or(0) as usize));
    }
}

/// Work through every run with index = w mod jobs.
fn worker(env: &Env, prop: &Property, plan: &[(usize, u64)], seed: u64, w: usize, jobs: usize, found_any: &AtomicBool) -> Agg {
    let shared: *mut Shared = unsafe { shm::map() };
    let mut a = Agg::default();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let start = Instant::now();
    let mut found: Option<Instant> = None;
    for (g, &(si, idx)) in plan.iter().enumerate() {
        if g % jobs != w {
            continue;
        }
        // out of time, or enough violations to report
        if found.is_none() && found_any.load(Relaxed) {
            found = Some(Instant::now() + Duration::from_secs(15));
        }
        if start.elapsed().as_secs() >= env.wall || (!env.all && found.map_or(false, |t| t.elapsed().as_secs() >= 5)) {
            a.skipped += 1;
            continue;
        }
        *a.per.entry(si).or_insert(0) += 1;
        let sc = &prop.scenarios[si];
        let s = run_seed(seed, prop.id, sc.name, idx);
        let o = run_once(env, prop, sc, shared, Mode::Gen(Xo::new(s)), false);
        absorb(&mut a, &o);
        match o.status {
            1 => {},
            2 => {
                let n = classes.entry(o.class.clone()).or_insert(0);
                *n += 1;
                found = found.or(Some(Instant::now()));
                found_any.store(true, Relaxed);
                if *n <= 3 {
                    a.violations.push((g as u64, si, o.class.clone(), o.msg.clone(), o.tape.clone(), o.ev_hash));
                }
            },
            _ => a.errors.push(format!("{} run {}: {}", sc.name, idx, o.msg)),
        }
        // determinism: repeat a sample of the runs
        if (g % 16 == (w * 5) % 16 || g < jobs) && !o.class.starts_with("hang") {
            let p = run_once(env, prop, sc, shared, Mode::Gen(Xo::new(s)), false);
            a.rechecked += 1;
            if (p.status, p.ev_hash, p.sched_hash, &p.tape) != (o.status, o.ev_hash, o.sched_hash, &o.tape) {
                a.diverged.push((g as u64, si));
            }
        }
    }
    a
}

fn shrink(env: &Env, prop: &Property, sc: &Scenario, class: &str, tape: Vec<u64>, limit: usize) -> (Outcome, usize) {
    let shared: *mut Shared = unsafe { shm::map() };
    let mut tries = 0;
    let start = Instant::now();
    let mut attempt = |t: &[u64], tries: &mut usize| -> Option<Outcome> {
        let wall = if class.starts_with("hang") || class.starts_with("no progress") { 30 } else { 60 };
        if *tries >= limit || start.elapsed().as_secs() > wall {
            return None;
        }
        *tries += 1;
        let o = run_once(env, prop, sc, shared, Mode::Replay(t.to_vec(), 0), false);
        if o.status == 2 && o.class == class { Some(o) } else { None }
    };
    let mut best = match attempt(&tape, &mut tries) {
        Some(o) => o,
        None => {
            // not reproducible from its tape: report as is
            let mut o = run_once(env, prop, sc, shared, Mode::Replay(tape.clone(), 0), false);
            o.tape = tape;
            return (o, tries);
        },
    };
    let key = |t: &[u64]| {
        let n = t.iter().rposition(|v| *v != 0).map_or(0, |i| i + 1);
        (n, t.iter().filter(|v| **v != 0).count(), t.iter().map(|v| *v as u128).sum::<u128>())
    };
    let mut improved = true;
    while improved && tries < limit {
        improved = false;
        let mut cur: Vec<u64> = best.tape.clone();
        while cur.last() == Some(&0) {
            cur.pop();
        }
        // truncate
        let mut k = cur.len() / 2;
        while k > 0 {
            if k < cur.len() {
                if let Some(o) = attempt(&cur[..cur.len() - k], &mut tries) {
                    if key(&o.tape) < key(&best.tape) {
                        best = o;
                        improved = true;
                        cur = best.tape.clone();
                        continue;
                    }
                }
            }
            k /= 2;
        }
        // delete and zero chunks
        let mut size = (cur.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < cur.len() {
                let end = (i + size).min(cur.len());
                let mut t = cur.clone();
                t.drain(i..end);
                let mut won = None;
                if let Some(o) = attempt(&t, &mut tries) {
                    if key(&o.tape) < key(&best.tape) {
                        won = Some(o);
                    }
                }
                if won.is_none() && cur[i..end].iter().any(|v| *v != 0) {
                    let mut t = cur.clone();
                    t[i..end].iter_mut().for_each(|v| *v = 0);
                    if let Some(o) = attempt(&t, &mut tries) {
                        if key(&o.tape) < key(&best.tape) {
                            won = Some(o);
                        }
                    }
                }
                if let Some(o) = won {
                    best = o;
                    cur = best.tape.clone();
                    improved = true;
                } else {
                    i = end;
                }
                if tries >= limit {
                    break;
                }
            }
            if size == 1 || tries >= limit {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < cur.len() && tries < limit {
            let mut step = cur[i] / 2;
            while step > 0 && i < cur.len() {
                let mut t = cur.clone();
                t[i] -= step.min(t[i]);
                match attempt(&t, &mut tries) {
                    Some(o) if key(&o.tape) < key(&best.tape) => {
                        best = o;
                        cur = best.tape.clone();
                        improved = true;
                        if i >= cur.len() {
                            break;
                        }
                        step = step.min(cur[i] / 2);
                    },
                    _ => step /= 2,
                }
                if cur.get(i).map_or(true, |v| *v > 1 << 20) && step < (1 << 12) {
                    break;
                }
            }
            i += 1;
        }
    }
    (best, tries)
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn load_known(path: Option<String>) -> Vec<(String, String)> {
    let Some(p) = path else { return vec![] };
    let Ok(t) = std::fs::read_to_string(&p) else { return vec![] };
    let v: Value = match serde_json::from_str(&t) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("known findings file does not parse: {}", e);
            std::process::exit(2)
        },
    };
    v["known"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|k| {
            (k["property"].as_str().unwrap_or("").to_string(), k["class"].as_str().unwrap_or("").to_string())
        })
        .collect()
}

pub fn main_with(harness: &'static str, props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    // `failure` would otherwise walk stacks (under a process-wide lock) for every error
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_FAILURE_BACKTRACE", "0");
    sched::init_cov();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let code = match cmd.as_str() {
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        },
        "check" => check_cmd(harness, &props, &args),
        "replay" => replay_cmd(harness, &props, &args),
        "diverge" => diverge_cmd(harness, &props, &args),
        _ => {
            eprintln!("usage: check PROP [--tier T] | replay FILE | list");
            2
        },
    };
    std::process::exit(code)
}

fn check_cmd(harness: &'static str, props: &[Property], args: &[String]) -> i32 {
    let start = Instant::now();
    let id = args.get(2).cloned().unwrap_or_default();
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("no such property in this harness: {}", id);
        return 2;
    };
    let tier = arg(args, "--tier").unwrap_or("quick".into());
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let jobs: usize = arg(args, "--jobs")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8));
    let scale: f64 = arg(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = arg(args, "--scenario");
    let all = args.iter().any(|a| a == "--all-classes");
    let wall = arg(args, "--wall").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 7200 } else { 240 });
    let env = Env { known: load_known(arg(args, "--known")), harness, wall, all };

    let mut plan: Vec<(usize, u64)> = vec![];
    for (si, sc) in prop.scenarios.iter().enumerate() {
        if only.as_deref().map_or(false, |o| o != sc.name) {
            continue;
        }
        let n = if tier == "thorough" { sc.thorough } else { sc.quick };
        let n = ((n as f64 * scale).ceil() as u64).max(1);
        for i in 0..n {
            plan.push((si, i));
        }
    }
    // spread the scenarios over the search, so that a limit cuts all of them alike
    let mut at = vec![0u64; prop.scenarios.len()];
    let mut order: Vec<(f64, usize)> = vec![];
    let total: Vec<u64> = (0..prop.scenarios.len()).map(|i| plan.iter().filter(|p| p.0 == i).count() as u64).collect();
    for (i, p) in plan.iter().enumerate() {
        order.push(((at[p.0] as f64 + 0.5) / total[p.0] as f64, i));
        at[p.0] += 1;
    }
    order.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let plan: Vec<(usize, u64)> = order.iter().map(|o| plan[o.1]).collect();
    println!("check {} [{}] tier={} VERIF_SEED={} runs={} workers={}", prop.id, harness, tier, seed, plan.len(), jobs);

    // set by the first worker to find a violation
    let found_any: &'static AtomicBool = unsafe { &*shm::map::<AtomicBool>() };
    let mut readers = vec![];
    for w in 0..jobs {
        unsafe {
            let mut fds = [0i32; 2];
            libc::pipe(fds.as_mut_ptr());
            let _ = std::io::stdout().flush();
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                let a = worker(&env, prop, &plan, seed, w, jobs, found_any);
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(serde_json::to_string(&agg_to_json(&a)).unwrap().as_bytes());
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            readers.push((pid, std::fs::File::from_raw_fd(fds[0])));
        }
    }
    let mut agg = Agg::default();
    for (pid, mut f) in readers {
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        match serde_json::from_str::<Value>(&s) {
            Ok(v) => merge_json(&mut agg, &v),
            Err(_) => agg.errors.push(format!("worker {} died", pid)),
        }
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
    }
    let run_s = start.elapsed().as_secs_f64();
    agg.violations.sort_by_key(|v| v.0);
    if !agg.diverged.is_empty() {
        agg.diverged.sort();
        let (g, si) = agg.diverged[0];
        let m = format!(
            "{} of {} repeated runs logged different events for the same seed (first: {} run {})",
            agg.diverged.len(), agg.rechecked, prop.scenarios[si].name, plan[g as usize].1
        );
        if prop.determinism_is_property {
            let s = run_seed(seed, prop.id, prop.scenarios[si].name, plan[g as usize].1);
            let shared: *mut Shared = unsafe { shm::map() };
            let o = run_once(&env, prop, &prop.scenarios[si], shared, Mode::Gen(Xo::new(s)), false);
            agg.violations.push((g, si, "nondeterminism".into(), m, o.tape, o.ev_hash));
        } else {
            println!("note: {}", m);
        }
    }

    let mut seen = BTreeSet::new();
    let mut reported = vec![];
    let mut rc = 0;
    for (g, si, class, msg, tape, ev) in agg.violations.clone() {
        if !seen.insert(class.clone()) {
            continue;
        }
        if !all && reported.len() >= 3 {
            println!("also: {} :: {}", class, msg);
            continue;
        }
        let sc = &prop.scenarios[si];
        let limit = if all { 0 } else { 500 };
        let (o, tries) = if class == "nondeterminism" || limit == 0 {
            (Outcome { status: 2, class: class.clone(), msg: msg.clone(), tape: tape.clone(), ev_hash: ev, events: 0, steps: 0, switches: 0, sched_hash: 0, body: Value::Null }, 0)
        } else {
            shrink(&env, prop, sc, &class, tape.clone(), limit)
        };
        let path = if all { "-".to_string() } else { write_replay(args, &env, prop, sc, &class, &o, &tape, seed, plan[g as usize].1, tries) };
        let m = if o.msg.is_empty() { &msg } else { &o.msg };
        println!("violation class: {}", class);
        println!("  {}", m);
        println!("  scenario {} run {} of seed {}; tape {} -> {} choices in {} shrink runs", sc.name, plan[g as usize].1, seed, tape.len(), o.tape.iter().rposition(|v| *v != 0).map_or(0, |i| i + 1), tries);
        println!("VIOLATION property={} replay={}", prop.id, path);
        reported.push(json!({"class": class, "msg": m, "replay": path}));
        rc = 1;
    }
    for (k, m) in &agg.known {
        println!("KNOWN-FINDING: property={} {}: {}", prop.id, k, m);
    }
    for e in agg.errors.iter().take(5) {
        eprintln!("harness error: {}", e);
    }
    if rc == 0 && !agg.errors.is_empty() {
        rc = 2;
    }

    // evidence
    let (hit, total) = sched::cov_counts();
    let mut faults = Map::new();
    let mut probes = Map::new();
    let mut counts = Map::new();
    for (k, v) in &agg.counters {
        if let Some(f) = k.strip_prefix("fault:") {
            faults.insert(f.into(), json!(v));
        } else if let Some(f) = k.strip_prefix("probe:") {
            probes.insert(f.into(), json!(v));
        } else {
            counts.insert(k.clone(), json!(v));
        }
    }
    let per_scen: Vec<Value> = prop
        .scenarios
        .iter()
        .enumerate()
        .map(|(i, s)| json!({"scenario": s.name, "runs": agg.per.get(&i).copied().unwrap_or(0)}))
        .collect();
    let part = json!({
        "harness": harness,
        "simulated_runs": agg.runs,
        "runs_per_hour": (agg.runs as f64 / run_s.max(1e-3) * 3600.0).round(),
        "seeds_per_hour": (agg.runs as f64 / run_s.max(1e-3) * 3600.0).round(),
        "extra_forked_reference_processes": agg.subruns,
        "simulated_time_steps": agg.steps,
        "logged_events": agg.events,
        "context_switches": agg.switches,
        "distinct_schedules": agg.schedules.len(),
        "distinct_event_histories": agg.traces.len(),
        "distinct_states": agg.states.len(),
        "oracle_evaluations": agg.evals,
        "edges_of_code_under_test_reached": hit,
        "edges_instrumented_including_harness": total,
        "faults_fired": faults,
        "probes": probes,
        "counts": counts,
        "scenarios": per_scen,
        "runs_skipped_for_time": agg.skipped,
        "determinism_reruns": agg.rechecked,
        "determinism_divergences": agg.diverged.len(),
        "workers": jobs,
        "run_wall_s": run_s,
        "ran_real_code": prop.real,
        "ran_stubs": prop.stubs,
    });
    if let Some(path) = arg(args, "--evidence") {
        let base: Value = arg(args, "--base")
            .and_then(|p| std::fs::read_to_string(p).ok())
            .and_then(|t| serde_json::from_str(&t).ok())
            .unwrap_or(Value::Null);
        let b = |k: &str| base["coverage"][k].as_u64().unwrap_or(0);
        let mut parts = base["coverage"]["parts"].as_array().cloned().unwrap_or_default();
        parts.push(part);
        let mut samples = base["coverage"]["samples"].as_array().cloned().unwrap_or_default();
        samples.extend(agg.samples.iter().take(4).map(|s| json!(s)));
        let mut assumptions = base["assumptions"].as_array().cloned().unwrap_or_default();
        for s in prop.assumptions {
            if !assumptions.contains(&json!(s)) {
                assumptions.push(json!(s));
            }
        }
        let rule = match base["coverage"]["rule"].as_str() {
            Some(r) if r != prop.rule => format!("{} || {}", r, prop.rule),
            _ => prop.rule.to_string(),
        };
        let mut known: Vec<Value> = base["coverage"]["known_findings_seen"].as_array().cloned().unwrap_or_default();
        known.extend(agg.known.keys().map(|k| json!(k)));
        let ev = json!({
            "property": prop.id,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": b("evaluations") + agg.evals,
                "distinct_nontrivial": b("distinct_nontrivial") + agg.traces.len() as u64,
                "rule": rule,
                "samples": samples,
                "parts": parts,
                "known_findings_seen": known,
                "violation_classes": reported,
                "exhaustive": false,
            },
            "assumptions": assumptions,
            "wall_s": base["wall_s"].as_f64().unwrap_or(0.0) + start.elapsed().as_secs_f64(),
            "violations": base["violations"].as_u64().unwrap_or(0) + reported.len() as u64,
        });
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
            eprintln!("cannot write evidence {}: {}", path, e);
            return 2;
        }
    }
    println!(
        "{} [{}]: {} runs, {} oracle evaluations, {} distinct histories, {} schedules, {} steps, {:.1} s, {} known findings, {}",
        prop.id, harness, agg.runs, agg.evals, agg.traces.len(), agg.schedules.len(), agg.steps, run_s, agg.known.len(),
        match rc { 0 => "held", 1 => "VIOLATED", _ => "harness error" }
    );
    rc
}

fn write_replay(args: &[String], env: &Env, prop: &Property, sc: &Scenario, class: &str, o: &Outcome, orig: &[u64], seed: u64, idx: u64, tries: usize) -> String {
    let dir = arg(args, "--replays").unwrap_or("/tmp".into());
    let _ = std::fs::create_dir_all(&dir);
    let mut tape = o.tape.clone();
    while tape.last() == Some(&0) {
        tape.pop();
    }
    let shared: *mut Shared = unsafe { shm::map() };
    let t = run_once(env, prop, sc, shared, Mode::Replay(tape.clone(), 0), true);
    let path = format!("{}/{}-{}-{}.json", dir, prop.id, sc.name, idx);
    let v = json!({
        "property": prop.id, "harness": env.harness, "scenario": sc.name, "class": class,
        "message": o.msg, "event_hash": o.ev_hash, "verif_seed": seed, "run": idx,
        "original_choices": orig.len(), "shrink_runs": tries, "tape": tape,
        "trace": t.body["trace"],
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n");
    path
}

fn replay_cmd(harness: &'static str, props: &[Property], args: &[String]) -> i32 {
    let path = args.get(2).cloned().unwrap_or_default();
    let v: Value = match std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        },
    };
    let id = v["property"].as_str().unwrap_or("");
    let Some(prop) = props.iter().find(|p| p.id == id) else { return 2 };
    let Some(sc) = prop.scenarios.iter().find(|s| Some(s.name) == v["scenario"].as_str()) else { return 2 };
    let env = Env { known: load_known(arg(args, "--known")), harness, wall: 7200, all: false };
    let tape: Vec<u64> = v["tape"].as_array().cloned().unwrap_or_default().iter().filter_map(|x| x.as_u64()).collect();
    let shared: *mut Shared = unsafe { shm::map() };
    let o = run_once(&env, prop, sc, shared, Mode::Replay(tape, 0), true);
    if let Some(t) = o.body["trace"].as_array() {
        for l in t {
            println!("{}", l.as_str().unwrap_or(""));
        }
    }
    match o.status {
        2 => {
            println!("violation class: {}", o.class);
            println!("  {}", o.msg);
            println!("VIOLATION property={} replay={}", prop.id, path);
            let same = Some(o.class.as_str()) == v["class"].as_str() && Some(o.ev_hash) == v["event_hash"].as_u64();
            println!("{}", if same { "reproduced exactly (class and event hash match)" } else { "reproduced, but class or event hash differ" });
            1
        },
        1 => {
            println!("no violation: the property held on this replay");
            0
        },
        _ => {
            eprintln!("harness error: {}", o.msg);
            2
        },
    }
}

/// Run one seed many times and show where two executions first differ (engine debugging).
fn diverge_cmd(harness: &'static str, props: &[Property], args: &[String]) -> i32 {
    let Some(prop) = props.iter().find(|p| Some(p.id) == args.get(2).map(|s| s.as_str())) else { return 2 };
    let Some(sc) = prop.scenarios.iter().find(|s| Some(s.name) == args.get(3).map(|s| s.as_str())) else { return 2 };
    let idx: u64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(0);
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let times: usize = arg(args, "--times").and_then(|s| s.parse().ok()).unwrap_or(200);
    let env = Env { known: vec![], harness, wall: 7200, all: false };
    let shared: *mut Shared = unsafe { shm::map() };
    let s = run_seed(seed, prop.id, sc.name, idx);
    let first = run_once(&env, prop, sc, shared, Mode::Gen(Xo::new(s)), true);
    for k in 0..times {
        let o = run_once(&env, prop, sc, shared, Mode::Gen(Xo::new(s)), true);
        if (o.ev_hash, o.sched_hash, &o.tape) != (first.ev_hash, first.sched_hash, &first.tape) {
            println!("differs at repetition {}: steps {} vs {}, switches {} vs {}", k, first.steps, o.steps, first.switches, o.switches);
            let i = first.tape.iter().zip(&o.tape).position(|(a, b)| a != b);
            println!("tapes: {} vs {} choices, first difference {:?}", first.tape.len(), o.tape.len(), i);
            let (a, b) = (first.body["trace"].as_array().cloned().unwrap_or_default(), o.body["trace"].as_array().cloned().unwrap_or_default());
            for (i, (x, y)) in a.iter().zip(&b).enumerate() {
                if x != y {
                    println!("line {}:\n  {}\n  {}", i, x, y);
                    break;
                }
            }
            return 1;
        }
    }
    println!("{} repetitions identical ({} choices, {} steps)", times, first.tape.len(), first.steps);
    0
}

