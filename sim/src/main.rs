//! Deterministic simulation of the minikalman filters: see /verif/DESIGN.md.

mod alloc;
mod exec;
mod gen;
mod minimise;
mod plan;
mod props;
mod reference;
mod rig;
mod rng;
mod scalar;
mod storage;

use exec::{Obs, Stop, Violation};
use plan::Plan;
use props::{Prop, Tier};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Tracking = alloc::Tracking;

enum Outcome {
    Held,
    Inconclusive(&'static str),
    Violated(Violation),
    Harness(String),
}

/// Executes one plan. Panics of the library outside a step are violations, panics of the harness
/// are errors of the harness.
fn execute(p: &Prop, plan: &Plan) -> (Outcome, Obs) {
    let mut obs = Obs::default();
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(plan, &mut obs)));
    scalar::disarm();
    alloc::disarm();
    let out = match r {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(Stop::Inconclusive(s))) => Outcome::Inconclusive(s),
        Ok(Err(Stop::Violation(v))) => Outcome::Violated(v),
        Err(_) => {
            let m = exec::last_panic();
            if m.contains("crates/minikalman") && !m.starts_with("harness") {
                Outcome::Violated(Violation { class: "panic-outside-step".into(), detail: m })
            } else {
                Outcome::Harness(m)
            }
        }
    };
    (out, obs)
}

fn make_plan(p: &Prop, seed: u64, index: u64) -> Plan {
    let id: u64 = p.id.bytes().fold(0, |h, b| h * 131 + b as u64);
    let s = rng::hash2(rng::hash2(seed, id), index);
    let mut r = rng::Rng::new(s);
    (p.gen)(&mut r, s)
}

#[derive(Default)]
struct Total {
    runs: u64,
    nontrivial: u64,
    inconclusive: BTreeMap<&'static str, u64>,
    obs: Obs,
    env: BTreeMap<String, u64>,
    modes: BTreeMap<&'static str, u64>,
    storage: BTreeMap<&'static str, u64>,
    configs: BTreeMap<usize, u64>,
    shapes: HashSet<u64>,
    rechecked: u64,
    digest: u64,
}

impl Total {
    fn merge(&mut self, o: Total) {
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.rechecked += o.rechecked;
        self.digest = self.digest.wrapping_add(o.digest);
        self.obs.merge(&o.obs);
        for (k, v) in o.inconclusive {
            *self.inconclusive.entry(k).or_default() += v;
        }
        for (k, v) in o.env {
            *self.env.entry(k).or_default() += v;
        }
        for (k, v) in o.modes {
            *self.modes.entry(k).or_default() += v;
        }
        for (k, v) in o.storage {
            *self.storage.entry(k).or_default() += v;
        }
        for (k, v) in o.configs {
            *self.configs.entry(k).or_default() += v;
        }
        self.shapes.extend(o.shapes);
    }
}

struct Args {
    tier: Tier,
    seed: u64,
    runs: Option<u64>,
    cap: u64,
    from: u64,
    /// The part of the tier's runs that is executed, in percent.
    share: (u64, u64),
    workers: usize,
    evidence: Option<String>,
    replays: String,
    label: String,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap<K: std::fmt::Display>(m: impl IntoIterator<Item = (K, u64)>) -> String {
    let v: Vec<String> = m.into_iter().map(|(k, v)| format!("{}: {v}", jstr(&k.to_string()))).collect();
    format!("{{{}}}", v.join(", "))
}

fn build_label() -> String {
    let mut f = vec![];
    for (on, n) in [
        (cfg!(feature = "std"), "std"),
        (cfg!(feature = "libm"), "libm"),
        (cfg!(feature = "micromath"), "micromath"),
        (cfg!(feature = "fixed"), "fixed"),
        (cfg!(feature = "no_assert"), "no_assert"),
        (cfg!(feature = "unsafe"), "unsafe"),
        (cfg!(feature = "nalgebra"), "nalgebra"),
    ] {
        if on {
            f.push(n);
        }
    }
    format!("{}{}", f.join("+"), if cfg!(debug_assertions) { "" } else { " (no debug assertions)" })
}

fn check(p: &Prop, a: &Args) -> i32 {
    let start = Instant::now();
    let tier = match a.tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    };
    let (lo, hi) = (tier * a.share.0 / 100, tier * a.share.1 / 100);
    let runs = a.runs.unwrap_or(hi.saturating_sub(lo));
    let next = AtomicU64::new(a.from);
    let end = a.from + runs;
    let stop_at = AtomicU64::new(u64::MAX); // lowest failing index so far
    let timed_out = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Plan, Violation)>> = Mutex::new(None);
    let harness: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let total = Mutex::new(Total::default());
    // what each worker is doing, for the watchdog
    let busy: Arc<Vec<Mutex<Option<(u64, Instant)>>>> = Arc::new((0..a.workers).map(|_| Mutex::new(None)).collect());
    let finished = AtomicU64::new(0);
    let progress = std::env::var("KALMAN_SIM_PROGRESS").ok().and_then(|p| std::fs::File::create(p).ok());
    let progress = &progress;
    std::thread::scope(|sc| {
        for w in 0..a.workers {
            let (next, stop_at, timed_out, found, harness, total, busy, finished) =
                (&next, &stop_at, &timed_out, &found, &harness, &total, busy.clone(), &finished);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut t = Total::default();
                    loop {
                        if start.elapsed().as_secs() >= a.cap {
                            timed_out.store(true, Ordering::SeqCst);
                            break;
                        }
                        let i0 = next.fetch_add(16, Ordering::SeqCst);
                        if i0 >= end {
                            break;
                        }
                        for i in i0..(i0 + 16).min(end) {
                            if i > stop_at.load(Ordering::SeqCst) {
                                break;
                            }
                            *busy[w].lock().unwrap() = Some((i, Instant::now()));
                            if let Some(f) = progress {
                                let _ = f.write_all_at(&(i + 1).to_le_bytes(), w as u64 * 8);
                            }
                            one(p, a, i, &mut t, stop_at, found, harness);
                            *busy[w].lock().unwrap() = None;
                        }
                        if i0 > stop_at.load(Ordering::SeqCst) {
                            break;
                        }
                    }
                    total.lock().unwrap().merge(t);
                    finished.fetch_add(1, Ordering::SeqCst);
                })
                .expect("harness: thread");
        }
        let (busy, finished) = (busy.clone(), &finished);
        sc.spawn(move || {
            while finished.load(Ordering::SeqCst) < a.workers as u64 {
                std::thread::sleep(Duration::from_millis(20));
                for b in busy.iter() {
                    if let Some((i, t)) = *b.lock().unwrap() {
                        if t.elapsed().as_secs() > 60 {
                            // a step that neither returns nor computes
                            let plan = make_plan(p, a.seed, i);
                            let v = Violation { class: "hang".into(), detail: format!("run {i} made no progress for 60 s") };
                            let path = save(p, a, &plan, &v, 0, "not minimised");
                            println!("{}: {}", v.class, v.detail);
                            println!("VIOLATION property={} replay={path}", p.id);
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
    });
    let total = total.into_inner().unwrap();
    if let Some((i, m)) = harness.into_inner().unwrap() {
        eprintln!("harness error in run {i} of {}: {m}", p.id);
        let _ = std::fs::write(format!("{}/{}-harness.plan", a.replays, p.id), make_plan(p, a.seed, i).text());
        return 3;
    }
    let mut code = 0;
    let mut violations = vec![];
    if let Some((i, plan, v)) = found.into_inner().unwrap() {
        let twice = v.class == differs().class;
        let test = |q: &Plan| match if twice { execute_twice(p, q) } else { execute(p, q).0 } {
            Outcome::Violated(v) => Some(v),
            _ => None,
        };
        let events: usize = plan.nodes.iter().map(|n| n.evs.len()).sum();
        // minimise on a large stack, like the workers
        let (best, viol, tried) = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut m = minimise::Min::new(&test, plan.clone(), v.clone(), 20_000, 30);
                    m.run();
                    (m.best, m.viol, m.tried)
                })
                .expect("harness: thread")
                .join()
                .unwrap_or((plan.clone(), v.clone(), 0))
        });
        let left: usize = best.nodes.iter().map(|n| n.evs.len()).sum();
        let mut note = format!("run {i}, seed {}; minimised from {events} to {left} events in {tried} executions", plan.seed);
        let mut path = save(p, a, &best, &viol, i, &note);
        let mut viol = viol;
        if !confirm(&path) {
            // not reproducible from the minimised plan alone: the full plan, or the plan after others
            note = format!("run {i}, seed {}; not minimised", plan.seed);
            viol = v.clone();
            path = save(p, a, &plan, &viol, i, &note);
            if !confirm(&path) {
                let mut n = 1;
                loop {
                    let from = i.saturating_sub(n);
                    let pre = format!("after {} {from} {i}\n# run {i}, seed {}; depends on state left behind by the {} runs before it", a.seed, plan.seed, i - from);
                    path = save(p, a, &plan, &viol, i, &pre);
                    if confirm(&path) {
                        note = pre.replace('\n', " ");
                        break;
                    }
                    if from == 0 || n > 100_000 {
                        note = format!("run {i}, seed {}; not reproduced in a single-threaded process: state shared between threads", plan.seed);
                        path = save(p, a, &plan, &viol, i, &note);
                        break;
                    }
                    n *= 8;
                }
            }
        }
        println!("{}: {}", viol.class, viol.detail);
        println!("{note}");
        println!("VIOLATION property={} replay={path}", p.id);
        violations.push(format!("{{\"run\": {i}, \"seed\": {}, \"class\": {}, \"detail\": {}, \"replay\": {}}}", plan.seed, jstr(&viol.class), jstr(&viol.detail), jstr(&path)));
        code = 1;
    }
    let wall = start.elapsed().as_secs_f64();
    let inconclusive: u64 = total.inconclusive.values().sum();
    println!(
        "{} [{}] runs={} non-trivial={} distinct={} inconclusive={} steps={} sim_s={:.0} rechecked={} digest={:016x} wall={:.1}s{}",
        p.id,
        build_label(),
        total.runs,
        total.nontrivial,
        total.shapes.len(),
        inconclusive,
        total.obs.steps,
        total.obs.sim_us as f64 / 1e6,
        total.rechecked,
        total.digest,
        wall,
        if timed_out.load(Ordering::SeqCst) { " (time cap reached)" } else { "" }
    );
    if code == 0 && total.nontrivial == 0 {
        eprintln!("harness error: no run of {} exercised the property", p.id);
        code = 3;
    }
    if let Some(path) = &a.evidence {
        let mut samples = vec![];
        for i in 0..3u64 {
            let pl = make_plan(p, a.seed, a.from + i);
            let n = &pl.nodes[0];
            let kinds: Vec<String> = n.evs.iter().take(12).map(|e| {
                let f = match &e.fault {
                    None => "",
                    Some(plan::Fault::Trap(_)) => "!trap ",
                    Some(plan::Fault::CbFail(_)) => "!cbfail ",
                    Some(plan::Fault::Extra) => "!extra ",
                    Some(plan::Fault::Undo(_)) => "!undo ",
                };
                format!("{}us {f}{}", e.t, exec::opname(&e.op))
            }).collect();
            samples.push(jstr(&format!(
                "run {} seed {}: {} node(s), {} cfg {} on {}; {} events: {}{}",
                a.from + i,
                pl.seed,
                pl.nodes.len(),
                n.mode.name(),
                n.cfg,
                n.rig.name(),
                n.evs.len(),
                kinds.join("; "),
                if n.evs.len() > 12 { "; ..." } else { "" }
            )));
        }
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n",
            jstr(p.id),
            jstr(match a.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" }),
            a.seed,
            total.runs,
            total.shapes.len(),
            jstr(p.rule),
            samples.join(", ")
        );
        let _ = write!(
            o,
            "  \"what\": {}, \"simulated_runs\": {}, \"nontrivial_runs\": {}, \"runs_per_hour\": {:.0}, \"seeds_per_hour\": {:.0},\n  \"simulated_seconds\": {:.3}, \"real_steps\": {}, \"scalar_operations\": {}, \"judgements\": {},\n",
            jstr(p.title),
            total.runs,
            total.nontrivial,
            total.runs as f64 / wall * 3600.0,
            total.runs as f64 / wall * 3600.0,
            total.obs.sim_us as f64 / 1e6,
            total.obs.steps,
            total.obs.ticks,
            total.obs.checks
        );
        let _ = write!(
            o,
            "  \"faults_fired\": {},\n  \"environment_events\": {},\n  \"number_systems\": {}, \"storage\": {}, \"configurations\": {},\n  \"inconclusive_runs\": {}, \"runs_repeated_for_determinism\": {}, \"digest\": \"{:016x}\", \"time_cap_reached\": {},\n  \"distinct_measure\": \"64-bit signature of configuration, event kinds in order, fault kinds and places, scheduling decisions of each non-trivial run\",\n  \"build\": {},\n  \"real_components\": [\"minikalman filters, observations, controls, matrix routines, storages, builders (unmodified, from /repo)\"],\n  \"stubbed_components\": [\"scalar type (simulator-controlled arithmetic)\", \"buffer memory for arena storage\", \"sensors, actuators, clock, network, user functions\"]\n }},\n",
            jmap(total.obs.faults.iter().map(|(k, v)| (*k, *v))),
            jmap(total.env.iter().map(|(k, v)| (k, *v))),
            jmap(total.modes.iter().map(|(k, v)| (*k, *v))),
            jmap(total.storage.iter().map(|(k, v)| (*k, *v))),
            jmap(total.configs.iter().map(|(k, v)| {
                let d = rig::CONFIGS[*k];
                (format!("{}x{:?}x{:?}", d.s, d.o, d.c), *v)
            })),
            jmap(total.inconclusive.iter().map(|(k, v)| (*k, *v))),
            total.rechecked,
            total.digest,
            timed_out.load(Ordering::SeqCst),
            jstr(&build_label())
        );
        let _ = write!(
            o,
            " \"assumptions\": [\"explored: seeded runs only, not all histories\", \"configurations limited to the listed dimensions\"],\n \"wall_s\": {:.1}, \"violations\": {}, \"violation_details\": [{}], \"label\": {}\n}}\n",
            wall,
            violations.len(),
            violations.join(", "),
            jstr(&a.label)
        );
        if let Err(e) = std::fs::write(path, o) {
            eprintln!("harness error: cannot write {path}: {e}");
            return 3;
        }
    }
    code
}

fn save(p: &Prop, a: &Args, plan: &Plan, v: &Violation, run: u64, note: &str) -> String {
    let _ = std::fs::create_dir_all(&a.replays);
    let path = format!("{}/{}-s{}-r{run}-{}.plan", a.replays, p.id, a.seed, if a.label.is_empty() { "std" } else { &a.label });
    let mut t = plan.text();
    let _ = write!(t, "# build {}\n# variant {}\n# violation {}\n# detail {}\n# {}\n", build_label(), if a.label.is_empty() { "std" } else { &a.label }, v.class, v.detail.replace('\n', " "), note);
    let _ = std::fs::write(&path, t);
    path
}

fn one(
    p: &Prop,
    a: &Args,
    i: u64,
    t: &mut Total,
    stop_at: &AtomicU64,
    found: &Mutex<Option<(u64, Plan, Violation)>>,
    harness: &Mutex<Option<(u64, String)>>,
) {
    let plan = match catch_unwind(AssertUnwindSafe(|| make_plan(p, a.seed, i))) {
        Ok(p) => p,
        Err(_) => {
            *harness.lock().unwrap() = Some((i, exec::last_panic()));
            stop_at.fetch_min(i, Ordering::SeqCst);
            return;
        }
    };
    let (out, mut obs) = execute(p, &plan);
    props::account(&plan, &mut obs);
    t.runs += 1;
    t.digest = t.digest.wrapping_add(rng::hash2(obs.digest, i));
    let replay = |t: &mut Total| {
        // the same seed again: must be the same execution; sampled also through the text form
        let q = if i % 128 == 0 { Plan::parse(&make_plan(p, a.seed, i).text()).expect("harness: plan text") } else { make_plan(p, a.seed, i) };
        let (_, mut o2) = execute(p, &q);
        props::account(&q, &mut o2);
        t.rechecked += 1;
        o2.digest == obs.digest && o2.ticks == obs.ticks && o2.shape == obs.shape
    };
    let mut out = out;
    if i % 64 == 0 && !replay(t) && !matches!(out, Outcome::Harness(_) | Outcome::Violated(_)) {
        out = Outcome::Violated(differs());
    }
    for n in &plan.nodes {
        *t.modes.entry(n.mode.name()).or_default() += 1;
        *t.storage.entry(n.rig.name()).or_default() += 1;
        *t.configs.entry(n.cfg).or_default() += 1;
    }
    for (k, v) in &plan.env {
        *t.env.entry(k.clone()).or_default() += v;
    }
    match out {
        Outcome::Held => {}
        Outcome::Inconclusive(s) => {
            *t.inconclusive.entry(s).or_default() += 1;
        }
        Outcome::Violated(v) => {
            stop_at.fetch_min(i, Ordering::SeqCst);
            let mut f = found.lock().unwrap();
            if f.as_ref().is_none_or(|f| i < f.0) {
                *f = Some((i, plan, v));
            }
        }
        Outcome::Harness(m) => {
            stop_at.fetch_min(i, Ordering::SeqCst);
            *harness.lock().unwrap() = Some((i, m));
            return;
        }
    }
    t.obs.merge(&obs);
    if (p.nontrivial)(&obs) {
        t.nontrivial += 1;
        t.shapes.insert(obs.shape);
    }
}

/// Everything a run depends on is in its plan: if two executions differ, the library keeps state
/// that is neither in a filter nor in its memory.
fn differs() -> Violation {
    Violation { class: "hidden-state".into(), detail: "two executions of the same history differ: something outside the filters and their memory influenced the result".into() }
}

fn execute_twice(p: &Prop, plan: &Plan) -> Outcome {
    let (a, mut oa) = execute(p, plan);
    props::account(plan, &mut oa);
    if matches!(a, Outcome::Violated(_) | Outcome::Harness(_)) {
        return a;
    }
    let (b, mut ob) = execute(p, plan);
    props::account(plan, &mut ob);
    if matches!(b, Outcome::Violated(_) | Outcome::Harness(_)) {
        return b;
    }
    if oa.digest != ob.digest || oa.ticks != ob.ticks || oa.shape != ob.shape {
        return Outcome::Violated(differs());
    }
    a
}

/// Replays a file in a fresh process.
fn confirm(path: &str) -> bool {
    let Ok(exe) = std::env::current_exe() else { return false };
    std::process::Command::new(exe)
        .args(["replay", path])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map(|s| s.code() == Some(1))
        .unwrap_or(false)
}

fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 3;
        }
    };
    let plan = match Plan::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 3;
        }
    };
    let all = props::all();
    let Some(p) = all.iter().find(|p| p.id == plan.property) else {
        eprintln!("{path}: unknown property {}", plan.property);
        return 3;
    };
    if let Some(b) = text.lines().find_map(|l| l.strip_prefix("# build ")) {
        if b != build_label() {
            eprintln!("note: recorded with build [{b}], replayed with [{}]", build_label());
        }
    }
    // runs that have to come first in the same process (only when the library keeps hidden state)
    let mut first: Vec<(u64, u64)> = vec![];
    for l in text.lines().filter_map(|l| l.strip_prefix("# after ")) {
        let w: Vec<u64> = l.split_whitespace().filter_map(|w| w.parse().ok()).collect();
        if let [seed, from, to] = w[..] {
            first.extend((from..to).map(|i| (seed, i)));
        }
    }
    let (id, file) = (p.id, path.to_string());
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(120));
        println!("hang: no end within 120 s");
        println!("VIOLATION property={id} replay={file}");
        std::process::exit(1);
    });
    let h = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || {
                for (seed, i) in first {
                    execute(p, &make_plan(p, seed, i));
                }
                (execute_twice(p, &plan), ())
            })
            .expect("harness: thread")
            .join()
    });
    match h {
        Ok((Outcome::Held, _)) => {
            println!("replay of {path}: property {} held", p.id);
            0
        }
        Ok((Outcome::Inconclusive(s), _)) => {
            println!("replay of {path}: inconclusive ({s})");
            0
        }
        Ok((Outcome::Violated(v), _)) => {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
        Ok((Outcome::Harness(m), _)) => {
            eprintln!("harness error: {m}");
            3
        }
        Err(_) => 3,
    }
}

fn main() {
    exec::install_panic_hook();
    let argv: Vec<String> = std::env::args().skip(1).collect();
    fn usage() -> ! {
        eprintln!("usage: kalman-sim check <ID> [--tier quick|thorough] [--seed N] [--runs N] [--from N] [--cap SECONDS] [--workers N] [--evidence FILE] [--replays DIR] [--label L]\n       kalman-sim replay <FILE>\n       kalman-sim show <ID> <SEED> <INDEX>\n       kalman-sim list");
        std::process::exit(3)
    }
    let code = match argv.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.title);
            }
            0
        }
        Some("replay") if argv.len() == 2 && std::env::var_os("KALMAN_SIM_CHILD").is_none() => match child(&argv, None, false) {
            Ok(c) => c,
            Err(sig) => {
                let id = std::fs::read_to_string(&argv[1]).ok().and_then(|t| Plan::parse(&t).ok()).map(|p| p.property).unwrap_or_default();
                println!("process-death: the process died with signal {sig}");
                println!("VIOLATION property={id} replay={}", argv[1]);
                1
            }
        },
        Some("replay") if argv.len() == 2 => replay(&argv[1]),
        Some("show") if argv.len() == 4 => {
            let all = props::all();
            let p = all.iter().find(|p| p.id == argv[1]).expect("harness: unknown property");
            print!("{}", make_plan(p, argv[2].parse().unwrap(), argv[3].parse().unwrap()).text());
            0
        }
        Some("check") if argv.len() >= 2 => {
            let mut a = Args {
                tier: Tier::Quick,
                seed: 1,
                runs: None,
                cap: 3600,
                from: 0,
                share: (0, 100),
                workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
                evidence: None,
                replays: "replays".into(),
                label: String::new(),
            };
            let mut i = 2;
            while i < argv.len() {
                let v = argv.get(i + 1).cloned().unwrap_or_else(|| usage());
                match argv[i].as_str() {
                    "--tier" => a.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
                    "--seed" => a.seed = v.parse().unwrap_or_else(|_| usage()),
                    "--runs" => a.runs = Some(v.parse().unwrap_or_else(|_| usage())),
                    "--from" => a.from = v.parse().unwrap_or_else(|_| usage()),
                    "--share" => {
                        let (lo, hi) = v.split_once('-').unwrap_or_else(|| usage());
                        a.share = (lo.parse().unwrap_or_else(|_| usage()), hi.parse().unwrap_or_else(|_| usage()));
                    }
                    "--cap" => a.cap = v.parse().unwrap_or_else(|_| usage()),
                    "--workers" => a.workers = v.parse().unwrap_or_else(|_| usage()),
                    "--evidence" => a.evidence = Some(v),
                    "--replays" => a.replays = v,
                    "--label" => a.label = v,
                    _ => usage(),
                }
                i += 2;
            }
            let all = props::all();
            match all.iter().find(|p| p.id == argv[1]) {
                Some(p) if std::env::var_os("KALMAN_SIM_CHILD").is_some() => {
                    if a.runs.is_none() {
                        a.from += match a.tier {
                            Tier::Quick => p.quick,
                            Tier::Thorough => p.thorough,
                        } * a.share.0
                            / 100;
                    }
                    check(p, &a)
                }
                Some(p) => {
                    let _ = std::fs::create_dir_all(&a.replays);
                    let progress = format!("{}/{}-{}.progress", a.replays, p.id, std::process::id());
                    let r = child(&argv, Some(&progress), false);
                    let code = match r {
                        Ok(c) => c,
                        Err(sig) => autopsy(p, &a, &progress, sig),
                    };
                    let _ = std::fs::remove_file(&progress);
                    code
                }
                None => usage(),
            }
        }
        _ => usage(),
    };
    std::process::exit(code);
}

/// Runs `argv` in a child process; Err(signal) if it died instead of ending.
fn child(argv: &[String], progress: Option<&str>, quiet: bool) -> Result<i32, i32> {
    let exe = std::env::current_exe().expect("harness: own path");
    let mut c = std::process::Command::new(exe);
    c.args(argv).env("KALMAN_SIM_CHILD", "1");
    if let Some(p) = progress {
        c.env("KALMAN_SIM_PROGRESS", p);
    }
    if quiet {
        c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    let s = c.status().expect("harness: child process");
    match s.signal() {
        // killed from outside (memory, operator) is not the library's doing
        Some(n) if [4, 6, 7, 8, 11].contains(&n) => Err(n),
        _ => Ok(s.code().unwrap_or(3)),
    }
}

/// The process died (segmentation fault, abort, ...) while these runs were under way: finds the one.
fn autopsy(p: &Prop, a: &Args, progress: &str, signal: i32) -> i32 {
    let data = std::fs::read(progress).unwrap_or_default();
    let mut idx: Vec<u64> = data.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|i| *i > 0).map(|i| i - 1).collect();
    idx.sort();
    let mut v = Violation { class: "process-death".into(), detail: format!("the process died with signal {signal} during this run") };
    let mut last = None;
    for &i in &idx {
        let plan = make_plan(p, a.seed, i);
        let path = save(p, a, &plan, &v, i, &format!("run {i}, seed {}", plan.seed));
        if child(&["replay".into(), path.clone()], None, true).is_err() {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={} replay={path}", p.id);
            return 1;
        }
        let _ = std::fs::remove_file(&path);
        last = Some(plan);
    }
    let Some(plan) = last else { return 3 };
    v.detail = format!("the process died with signal {signal}; not reproduced by any of the runs under way alone: {idx:?}");
    let path = save(p, a, &plan, &v, idx[idx.len() - 1], &format!("after {} {} {}", a.seed, idx[0].saturating_sub(64), idx[idx.len() - 1]));
    println!("{}: {}", v.class, v.detail);
    println!("VIOLATION property={} replay={path}", p.id);
    1
}
