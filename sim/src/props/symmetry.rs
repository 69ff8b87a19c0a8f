//! C24 coordinates and units, C25 superposition, C26 independent subsystems, C27 conservation of
//! memory: executions of transformed deployments that must mirror the original one.

use super::algebra::bits;
use super::*;
use crate::alloc;
use crate::gen::{self, Prof};
use crate::rig;
use crate::rng::hash2;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            title: "the choice of coordinates and units does not matter",
            gen: gen_c24,
            run: run_c24,
            quick: 200_000,
            thorough: 6_000_000,
            rule: "a run is one history executed in two coordinate systems in lockstep; non-trivial: at least 3 steps were compared",
            nontrivial: |o| o.probes >= 3,
        },
        Prop {
            id: "C25",
            title: "the estimate responds linearly to the data",
            gen: gen_c25,
            run: run_c25,
            quick: 200_000,
            thorough: 6_000_000,
            rule: "a run is one schedule executed on two sets of data and on their combination in lockstep; non-trivial: at least 3 steps were compared",
            nontrivial: |o| o.probes >= 3,
        },
        Prop {
            id: "C26",
            title: "independent subsystems do not influence each other",
            gen: gen_c26,
            run: run_c26,
            quick: 200_000,
            thorough: 6_000_000,
            rule: "a run is one history of two uncoupled subsystems in one filter, executed again with other data and delivery faults in one of them; non-trivial: at least one step of the disturbed subsystem differed and was compared",
            nontrivial: |o| o.probes >= 1,
        },
        Prop {
            id: "C27",
            title: "filters release exactly what building them acquired",
            gen: gen_c27,
            run: run_c27,
            quick: 200_000,
            thorough: 6_000_000,
            rule: "a run is one history in which filters are built, used, aborted and dropped; non-trivial: at least one filter that had allocated memory was dropped",
            nontrivial: |o| o.probes >= 1,
        },
    ]
}

/// Zero has no sign here.
fn unsign(m: Mode, b: u64) -> u64 {
    match m {
        Mode::F32 if b == 0x8000_0000 => 0,
        Mode::F64 if b == 1 << 63 => 0,
        _ => b,
    }
}

fn equal(what: &str, at: &str, m: Mode, name: &str, a: &[u64], b: &[u64]) -> Res<()> {
    for (i, (a, b)) in a.iter().zip(b).enumerate() {
        if unsign(m, *a) != unsign(m, *b) {
            return fail(
                format!("{what}-{name}"),
                format!("{what}: {name}[{i}] differs {at}: {} vs {}", show_vec(m, &[*a]), show_vec(m, &[*b])),
            );
        }
    }
    Ok(())
}

fn within(what: &str, at: &str, name: &str, a: &[u64], b: &[u64], scale: f64) -> Res<()> {
    let f = |v: &[u64]| v.iter().map(|b| to_f64(*b)).collect::<Vec<_>>();
    let (a, b) = (f(a), f(b));
    let mx = a.iter().chain(&b).map(|v| v.abs()).fold(scale, f64::max);
    if !(mx < 1e6) {
        return Err(Stop::Inconclusive("beyond range"));
    }
    let tol = 1e-7 * (1.0 + mx);
    for (i, (a, b)) in a.iter().zip(&b).enumerate() {
        calibrate(|| format!("{what} {name}"), (a - b).abs(), tol, mx);
        if !((a - b).abs() <= tol) {
            return fail(format!("{what}-{name}"), format!("{what}: {name}[{i}] differs {at}: {a:e} vs {b:e}"));
        }
    }
    Ok(())
}

/// Powers of two commute with rounding only as long as nothing leaves the normal range.
fn normal(m: Mode, v: &[u64]) -> Res<()> {
    let (lo, hi) = match m {
        Mode::GF => return Ok(()),
        _ if m == Mode::F32 || rf::root_err() > 0.0 => (exp2(-70), exp2(60)),
        _ => (exp2(-500), exp2(300)),
    };
    for b in v {
        let a = to_f64(*b).abs();
        if !(a == 0.0 || (a > lo && a < hi)) {
            return Err(Stop::Inconclusive("beyond range"));
        }
    }
    Ok(())
}

/// Would the reference apply this step? (Reports must have been loaded.)
fn usable(l: &mut Live, op: &Op) -> bool {
    if !op.is_correct() {
        return true;
    }
    let pre = l.xp();
    let mut rec = StepRec { end: End::Done, ticks: 0, calls: vec![], allocs: 0 };
    if let Op::CorrectNl(i, ..) = op {
        rec.calls.push((vec![], vec![0; l.dims.o[*i as usize]]));
    }
    if l.mode == Mode::GF {
        matches!(expect::<G>(l, &l.plain(Slot::X, &pre.0), &l.plain(Slot::P, &pre.1), op, &rec), Corr::Applied(_))
    } else {
        matches!(expect::<F>(l, &l.plain(Slot::X, &pre.0), &l.plain(Slot::P, &pre.1), op, &rec), Corr::Applied(_))
    }
}

fn payload(op: &Op) -> Option<Slot> {
    match op {
        Op::Control(j, _) => Some(Slot::U(*j)),
        Op::Correct(i, _) | Op::CorrectNl(i, ..) => Some(Slot::Z(*i)),
        _ => None,
    }
}

/// A step whose payload has already been written.
fn bare_step(l: &mut Live, op: &Op, o: StepOpt, obs: &mut Obs) -> StepRec {
    clear_flags();
    let r = l.step(op, o);
    obs.steps += 1;
    obs.ticks += r.ticks;
    r
}

/// Faults that precede a step and are recovered from: interrupted attempts, garbage in the scratch.
fn disturb(l: &mut Live, ev: &Ev, cb: Option<CbMap>, obs: &mut Obs) {
    let pre = l.xp();
    match ev.fault {
        Some(Fault::Trap(pm)) => {
            let n = measure_here(l, &ev.op);
            let at = (n * pm as u64 / 1000).max(1);
            l.step(&ev.op, StepOpt { trap_at: Some(at), cb, ..Default::default() });
            obs.fault("step_aborted_and_repeated");
        }
        Some(Fault::CbFail(pm)) if l.ext => {
            l.step(&ev.op, StepOpt { cb_fail: Some(pm), cb, ..Default::default() });
            obs.fault("callback_failure");
        }
        _ => return,
    }
    l.set_bits(Slot::X, &pre.0);
    l.set_bits(Slot::P, &pre.1);
}

fn measure_here(l: &mut Live, op: &Op) -> u64 {
    let mut c = Live::bare(l.mode, RigKind::Arena, cfg_of(l), l.ext, 0, 0, l.units);
    c.adopt(l);
    c.step(op, StepOpt::default()).ticks
}

fn add_faults(r: &mut Rng, n: &mut Node) {
    let cut = if r.chance(400) { r.below(150) } else { 0 };
    let cb = if n.ext && r.chance(400) { r.below(150) } else { 0 };
    for e in &mut n.evs {
        if !e.op.is_step() {
            continue;
        }
        if r.chance(cut) {
            e.fault = Some(Fault::Trap(r.below(1001) as u32));
        } else if r.chance(cb) {
            e.fault = Some(Fault::CbFail(r.below(1001) as u32));
        }
    }
    let rate = if r.chance(300) { r.below(150) } else { 0 };
    if rate > 0 {
        let mut out = vec![];
        for e in n.evs.drain(..) {
            if r.chance(rate) {
                out.push(Ev { t: e.t, op: Op::Scribble(r.below(5) as u8, r.below(1 << 32)), fault: Some(Fault::Extra) });
            }
            out.push(e);
        }
        n.evs = out;
    }
}

// ---------------------------------------------------------------------------------------- C24

const GENERAL: i64 = 0;
const SCALED: i64 = 1;
const RENUMBERED: i64 = 2;
const MIXED: i64 = 3;

fn gen_c24(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(450) { 1000 } else { 0 };
    let modes = vec![(4, Mode::GF), (3, Mode::F64), (3, Mode::F32)];
    let mut p = gen::simple(r, "C24", seed, &Prof { ext, modes, max_ev: 30, units: 0, ..Prof::default() });
    let n = &mut p.nodes[0];
    let style = match n.mode {
        Mode::GF => *r.pick(&[GENERAL, GENERAL, SCALED, RENUMBERED]),
        Mode::F64 => *r.pick(&[SCALED, SCALED, RENUMBERED, MIXED]),
        _ => SCALED,
    };
    add_faults(r, n);
    p.params.insert("style".into(), style);
    p.params.insert("map".into(), r.below(1 << 40) as i64);
    p
}

/// A change of coordinates of state, sensors and actuators.
struct Map<N> {
    t: M<N>,
    ti: M<N>,
    w: Vec<M<N>>,
    v: Vec<M<N>>,
    vi: Vec<M<N>>,
}

fn element<N: Num>(r: &mut Rng) -> N {
    if N::EXACT {
        N::int(r.range(1, P as i64 - 1))
    } else {
        N::int(r.range(-1000, 1000)).div(N::int(1000))
    }
}

fn pow2<N: Num>(k: i64) -> N {
    let f = N::int(1 << (k.unsigned_abs() % 62));
    if k < 0 { N::int(1).div(f) } else { f }
}

fn coords<N: Num>(r: &mut Rng, n: usize, style: i64, channel: bool) -> M<N> {
    let mut m = M::<N>::zero(n, n);
    match style {
        SCALED => {
            let lim = if !N::EXACT && mode() == Mode::F64 && rf::root_err() == 0.0 { 60 } else { 6 };
            let same = r.chance(300);
            let signs = r.chance(500);
            let mut k = r.range(-lim, lim);
            for i in 0..n {
                if !same {
                    k = r.range(-lim, lim);
                }
                let s = if signs && r.chance(500) { -1 } else { 1 };
                m.d[i * n + i] = N::int(s).mul(pow2(k));
            }
        }
        GENERAL if channel => {
            // leading principal minors keep vanishing or not
            for i in 0..n {
                for j in 0..=i {
                    m.d[i * n + j] = element(r);
                }
            }
        }
        GENERAL => {
            for i in 0..n {
                for j in 0..n {
                    m.d[i * n + j] = element(r);
                }
            }
        }
        _ => {
            let mut idx: Vec<usize> = (0..n).collect();
            r.shuffle(&mut idx);
            for (i, j) in idx.into_iter().enumerate() {
                m.d[i * n + j] = N::int(if r.chance(300) { -1 } else { 1 });
            }
            if style == MIXED {
                let mut e = M::<N>::eye(n);
                for v in &mut e.d {
                    *v = v.add(element::<N>(r).mul(N::int(4)).div(N::int(10 * n as i64)));
                }
                m = m.mul(&e);
            }
        }
    }
    m
}

impl<N: Num> Map<N> {
    fn new(seed: u64, style: i64, d: &rig::Dims) -> Option<Map<N>> {
        let mut r = Rng::new(seed);
        let r = &mut r;
        let mut t = coords::<N>(r, d.s, style, false);
        let mut ti = t.inv();
        for _ in 0..8 {
            if ti.is_some() {
                break;
            }
            t = coords(r, d.s, style, false);
            ti = t.inv();
        }
        let w = d.o.iter().map(|n| coords(r, *n, style, true)).collect();
        let v: Vec<M<N>> = d.c.iter().map(|n| coords(r, *n, style, true)).collect();
        let vi = v.iter().map(|v| v.inv()).collect::<Option<Vec<_>>>()?;
        Some(Map { t, ti: ti?, w, v, vi })
    }
    fn of(&self, s: Slot, b: &[u64]) -> Vec<u64> {
        let n = self.t.r;
        let (t, ti) = (&self.t, &self.ti);
        let out = match s {
            Slot::X => t.mul(&M::of(n, 1, b)),
            Slot::P | Slot::Q => t.mul(&M::of(n, n, b)).mul(&t.t()),
            Slot::A => t.mul(&M::of(n, n, b)).mul(ti),
            Slot::H(i) => {
                let w = &self.w[i as usize];
                w.mul(&M::of(w.r, n, b)).mul(ti)
            }
            Slot::R(i) => {
                let w = &self.w[i as usize];
                w.mul(&M::of(w.r, w.r, b)).mul(&w.t())
            }
            Slot::Z(i) => {
                let w = &self.w[i as usize];
                w.mul(&M::of(w.r, 1, b))
            }
            Slot::B(j) => {
                let vi = &self.vi[j as usize];
                t.mul(&M::of(n, vi.r, b)).mul(vi)
            }
            Slot::Qc(j) => {
                let v = &self.v[j as usize];
                v.mul(&M::of(v.r, v.r, b)).mul(&v.t())
            }
            Slot::U(j) => {
                let v = &self.v[j as usize];
                v.mul(&M::of(v.r, 1, b))
            }
        };
        bits(&out)
    }
    fn back(&self, x: &[u64]) -> Vec<u64> {
        bits(&self.ti.mul(&M::of(self.t.r, 1, x)))
    }
}

fn run_c24(plan: &Plan, obs: &mut Obs) -> Res<()> {
    well_formed(plan)?;
    let n = node0(plan)?;
    set_mode(n.mode);
    match n.mode {
        Mode::GF => twin_c24::<G>(plan, n, obs),
        Mode::F32 | Mode::F64 => twin_c24::<F>(plan, n, obs),
        _ => Err(Stop::Inconclusive("malformed plan")),
    }
}

fn twin_c24<N: Num + 'static>(plan: &Plan, n: &Node, obs: &mut Obs) -> Res<()> {
    let style = plan.params.get("style").copied().unwrap_or(SCALED);
    let seed = plan.params.get("map").copied().unwrap_or(0) as u64;
    let ok = match n.mode {
        Mode::GF => style != MIXED,
        Mode::F64 => style != GENERAL,
        _ => style == SCALED,
    };
    if !ok || n.units != Units::default() {
        return Err(Stop::Inconclusive("malformed plan"));
    }
    let exact = N::EXACT || style == SCALED;
    let mut l = Live::new(n);
    let mut m = Live::bare(n.mode, n.rig, n.cfg, n.ext, n.api, n.layout, n.units);
    let Some(map) = Map::<N>::new(seed, style, &l.dims) else {
        return Err(Stop::Inconclusive("no such coordinates"));
    };
    let map = Rc::new(map);
    for s in l.dims.slots(n.ext) {
        let v = l.get(s);
        m.set_bits(s, &map.of(s, &v));
    }
    obs.fault(match style {
        GENERAL => "other_coordinates",
        SCALED => "other_units",
        RENUMBERED => "states_and_channels_renumbered",
        _ => "other_coordinates_inexact",
    });
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        match &e.op {
            Op::Set(s, v) => {
                l.set(*s, v);
                let v = l.get(*s);
                m.set_bits(*s, &map.of(*s, &v));
            }
            Op::Scribble(k, s) => {
                m.scribble(*k, *s);
                obs.fault("scratch_overwritten");
            }
            op if op.is_step() => {
                l.load(op);
                let slot = payload(op);
                if let Some(s) = slot {
                    let v = l.input(s);
                    m.set_bits(s, &map.of(s, &v));
                }
                // what is rejected depends on the order of the channels
                if !(N::EXACT && style != RENUMBERED || style == SCALED) && !(usable(&mut l, op) && usable(&mut m, op)) {
                    continue;
                }
                let linear = matches!(op, Op::PredictNl(f) | Op::PredictTNl(_, f) | Op::CorrectNl(_, f, _) if f.kind == 2);
                let cb = || -> Option<CbMap> {
                    if linear {
                        return None;
                    }
                    let map = map.clone();
                    let s = slot.unwrap_or(Slot::X);
                    Some(Box::new(move |f, x| map.of(s, &f(&map.back(x)))))
                };
                let r = bare_step(&mut l, op, StepOpt::default(), obs);
                if r.end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
                disturb(&mut m, e, cb(), obs);
                let r = bare_step(&mut m, op, StepOpt { cb: cb(), ..Default::default() }, obs);
                if r.end != End::Done {
                    return fail("coordinates-panic", format!("{} in other coordinates ended with {:?}", opname(op), r.end));
                }
                obs.checks += 1;
                obs.probes += 1;
                let (a, b) = (l.xp(), m.xp());
                let (wx, wp) = (map.of(Slot::X, &a.0), map.of(Slot::P, &a.1));
                let at = format!("after {} between two coordinate systems", opname(op));
                if exact {
                    for v in [&a.0, &a.1, &b.0, &b.1] {
                        normal(n.mode, v)?;
                    }
                    equal("coordinates", &at, n.mode, "x", &b.0, &wx)?;
                    equal("coordinates", &at, n.mode, "P", &b.1, &wp)?;
                } else {
                    within("coordinates", &at, "x", &b.0, &wx, 0.0)?;
                    within("coordinates", &at, "P", &b.1, &wp, 0.0)?;
                    m.set_bits(Slot::X, &wx);
                    m.set_bits(Slot::P, &wp);
                }
                obs.see(&a.0);
                obs.see(&b.0);
                obs.see(&b.1);
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C25

fn gen_c25(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(400) { 1000 } else { 0 };
    let modes = vec![(4, Mode::GF), (4, Mode::F64), (2, Mode::F32)];
    let mut p = gen::simple(r, "C25", seed, &Prof { ext, modes, linear_cb: true, max_ev: 30, units: 0, asym: 200, ..Prof::default() });
    let n = &mut p.nodes[0];
    let sum = match n.mode {
        Mode::GF => r.chance(800),
        Mode::F64 => r.chance(500),
        _ => false,
    };
    add_faults(r, n);
    p.params.insert("sum".into(), sum as i64);
    p.params.insert("data".into(), r.below(1 << 40) as i64);
    p
}

fn run_c25(plan: &Plan, obs: &mut Obs) -> Res<()> {
    let n = node0(plan)?;
    set_mode(n.mode);
    match n.mode {
        Mode::GF => twin_c25::<G>(plan, n, obs),
        Mode::F32 | Mode::F64 => twin_c25::<F>(plan, n, obs),
        _ => Err(Stop::Inconclusive("malformed plan")),
    }
}

fn twin_c25<N: Num>(plan: &Plan, n: &Node, obs: &mut Obs) -> Res<()> {
    let sum = plan.params.get("sum") == Some(&1);
    let seed = plan.params.get("data").copied().unwrap_or(0) as u64;
    if n.units != Units::default() || (sum && n.mode == Mode::F32) {
        return Err(Stop::Inconclusive("malformed plan"));
    }
    let exact = N::EXACT || !sum;
    let mut r = Rng::new(seed);
    // the third filter sees alpha times the data of the first plus beta times those of the second
    let (alpha, beta) = if N::EXACT {
        (element::<N>(&mut r), if sum { element::<N>(&mut r) } else { N::int(0) })
    } else if sum {
        (N::int(1), N::int(if r.chance(500) { 1 } else { -1 }))
    } else {
        let lim = if n.mode == Mode::F64 && rf::root_err() == 0.0 { 200 } else { 20 };
        let k = if r.chance(300) { 0 } else { r.range(-lim, lim) };
        let f = (0..k.abs()).fold(N::int(1), |f, _| if k < 0 { f.div(N::int(2)) } else { f.mul(N::int(2)) });
        (f.mul(N::int(if r.chance(500) { -1 } else { 1 })), N::int(0))
    };
    let comb = |a: &[u64], b: &[u64]| -> Vec<u64> {
        let a = M::<N>::of(a.len(), 1, a).scale(alpha);
        if !sum {
            return bits(&a);
        }
        bits(&a.add(&M::<N>::of(b.len(), 1, b).scale(beta)))
    };
    let mut l = Live::new(n);
    let mut m = Live::new(n);
    let mut c = Live::new(n);
    let second = |t: u64, k: usize| -> Vec<V> { gen::vec(&mut Rng::new(hash2(seed, t)), n.mode, k) };
    let d = l.dims;
    m.set(Slot::X, &second(u64::MAX, d.s));
    let (a, b) = (l.x(), m.x());
    c.set_bits(Slot::X, &comb(&a, &b));
    obs.fault(if sum { "data_superposed" } else { "data_scaled" });
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        match &e.op {
            Op::Set(Slot::X, v) => {
                l.set(Slot::X, v);
                m.set(Slot::X, &second(e.t, d.s));
                let (a, b) = (l.x(), m.x());
                c.set_bits(Slot::X, &comb(&a, &b));
            }
            Op::Set(s, v) => {
                for f in [&mut l, &mut m, &mut c] {
                    f.set(*s, v);
                }
            }
            Op::Scribble(k, s) => {
                c.scribble(*k, *s);
                obs.fault("scratch_overwritten");
            }
            op if op.is_step() => {
                if matches!(op, Op::PredictNl(f) | Op::PredictTNl(_, f) | Op::CorrectNl(_, f, _) if f.kind != 2) {
                    return Err(Stop::Inconclusive("malformed plan"));
                }
                l.load(op);
                if let Some(s) = payload(op) {
                    m.set(s, &second(e.t, d.len(s)));
                    c.set_bits(s, &comb(&l.input(s), &m.input(s)));
                }
                let ends = [
                    bare_step(&mut l, op, StepOpt::default(), obs).end,
                    if sum { bare_step(&mut m, op, StepOpt::default(), obs).end } else { End::Done },
                ];
                if ends != [End::Done, End::Done] {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
                disturb(&mut c, e, None, obs);
                let r = bare_step(&mut c, op, StepOpt::default(), obs);
                if r.end != End::Done {
                    return fail("superposition-panic", format!("{} on combined data ended with {:?}", opname(op), r.end));
                }
                obs.checks += 1;
                obs.probes += 1;
                let (a, b, g) = (l.xp(), m.xp(), c.xp());
                let at = format!("after {} between combined data and combined estimates", opname(op));
                let want = comb(&a.0, &b.0);
                if exact {
                    for v in [&a.0, &a.1, &g.0] {
                        normal(n.mode, v)?;
                    }
                    equal("superposition", &at, n.mode, "x", &g.0, &want)?;
                } else {
                    let scale = a.0.iter().chain(&b.0).map(|v| to_f64(*v).abs()).fold(0.0, f64::max);
                    within("superposition", &at, "x", &g.0, &want, scale)?;
                    c.set_bits(Slot::X, &want);
                }
                let at = format!("after {} for different data", opname(op));
                equal("superposition", &at, n.mode, "P", &g.1, &a.1)?;
                if sum {
                    equal("superposition", &at, n.mode, "P", &b.1, &a.1)?;
                }
                obs.see(&a.0);
                obs.see(&g.0);
                obs.see(&g.1);
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C26

/// Which states (bit i), sensors (bit 40+i) and actuators (bit 50+j) belong to the second subsystem.
#[derive(Clone, Copy)]
struct Sides(u64);

impl Sides {
    fn state(self, i: usize) -> bool {
        self.0 >> i & 1 == 1
    }
    fn sensor(self, i: u8) -> bool {
        self.0 >> (40 + i) & 1 == 1
    }
    fn actuator(self, j: u8) -> bool {
        self.0 >> (50 + j) & 1 == 1
    }
    /// Is this entry one that would couple the subsystems?
    fn couples(self, d: &rig::Dims, s: Slot, k: usize) -> bool {
        match s {
            Slot::P | Slot::A | Slot::Q => self.state(k / d.s) != self.state(k % d.s),
            Slot::H(i) => self.state(k % d.s) != self.sensor(i),
            Slot::B(j) => self.state(k / d.c[j as usize]) != self.actuator(j),
            _ => false,
        }
    }
    /// Does this entry belong to the second subsystem alone?
    fn second(self, d: &rig::Dims, s: Slot, k: usize) -> bool {
        match s {
            Slot::X => self.state(k),
            Slot::P | Slot::A | Slot::Q => self.state(k / d.s) && self.state(k % d.s),
            Slot::H(i) => self.sensor(i) && self.state(k % d.s),
            Slot::R(i) | Slot::Z(i) => self.sensor(i),
            Slot::B(j) => self.actuator(j) && self.state(k / d.c[j as usize]),
            Slot::Qc(j) | Slot::U(j) => self.actuator(j),
        }
    }
    fn of_op(self, op: &Op) -> Option<bool> {
        match op {
            Op::Control(j, _) => Some(self.actuator(*j)),
            Op::Correct(i, _) | Op::CorrectNl(i, ..) => Some(self.sensor(*i)),
            _ => None,
        }
    }
}

fn gen_c26(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(400) { 1000 } else { 0 };
    let cfgs: Vec<usize> = (0..rig::CONFIGS.len()).filter(|c| (2..=33).contains(&rig::CONFIGS[*c].s)).collect();
    let mut p = gen::simple(r, "C26", seed, &Prof { ext, cfgs: Some(cfgs), max_ev: 30, units: 0, ..Prof::default() });
    let n = &mut p.nodes[0];
    let d = rig::CONFIGS[n.cfg];
    let mut mask = r.u64() & ((1 << d.s) - 1);
    if r.chance(400) {
        // contiguous
        mask = ((1 << d.s) - 1) >> (1 + r.idx(d.s - 1)) << if r.chance(500) { 0 } else { 1 };
        mask &= (1 << d.s) - 1;
    }
    if mask == 0 || mask == (1 << d.s) - 1 {
        mask = 1 << r.idx(d.s);
    }
    mask |= r.below(8) << 40 | r.below(4) << 50;
    let sd = Sides(mask);
    for (s, v) in &mut n.init {
        for (k, v) in v.iter_mut().enumerate() {
            if sd.couples(&d, *s, k) {
                *v = V(0);
            }
        }
    }
    for e in &mut n.evs {
        if let Op::Set(s, v) = &mut e.op {
            for (k, v) in v.iter_mut().enumerate() {
                if sd.couples(&d, *s, k) {
                    *v = V(0);
                }
            }
        }
    }
    add_faults(r, n);
    for (k, hi) in [("sides", mask), ("other", r.below(1 << 40)), ("loss", r.below(600)), ("repeat", r.below(400)), ("extreme", r.below(200))] {
        p.params.insert(k.into(), hi as i64);
    }
    p
}

fn run_c26(plan: &Plan, obs: &mut Obs) -> Res<()> {
    let n = node0(plan)?;
    set_mode(n.mode);
    let par = |k: &str| plan.params.get(k).copied().unwrap_or(0) as u64;
    let sd = Sides(par("sides"));
    let seed = par("other");
    let d = {
        let mut d = rig::CONFIGS[n.cfg];
        if n.ext {
            d.c = [0, 0];
        }
        d
    };
    let coupled = |s: Slot, v: &[V]| v.iter().enumerate().any(|(k, v)| v.0 != 0 && sd.couples(&d, s, k));
    if d.s > 36 || n.units != Units::default() || n.init.iter().any(|(s, v)| v.len() != d.len(*s) || coupled(*s, v)) {
        return Err(Stop::Inconclusive("malformed plan"));
    }
    // what the second subsystem holds instead, in the second execution
    let other = |t: u64, s: Slot, v: &[V]| -> Vec<V> {
        let mut r = Rng::new(hash2(seed ^ t, Op::Set(s, vec![]).code()));
        if r.chance(300) {
            return v.to_vec();
        }
        let w = gen::slot_value(&mut r, n.mode, &d, s, 0.1);
        v.iter()
            .zip(w)
            .enumerate()
            .map(|(k, (v, w))| if sd.second(&d, s, k) { w } else { *v })
            .collect()
    };
    let mut l = Live::new(n);
    let mut m = Live::new(n);
    for (s, v) in &n.init {
        m.set(*s, &other(0, *s, v));
    }
    let cb = |op: &Op| -> Option<CbMap> {
        if !l_ext(op) {
            return None;
        }
        let side = sd.of_op(op);
        let s = d.s;
        Some(Box::new(move |f, x| {
            let part = |b: bool| -> Vec<u64> { f(&(0..s).map(|i| if sd.state(i) == b { x[i] } else { 0 }).collect::<Vec<_>>()) };
            match side {
                Some(b) => part(b),
                None => {
                    let (p, q) = (part(false), part(true));
                    (0..s).map(|i| if sd.state(i) { q[i] } else { p[i] }).collect()
                }
            }
        }))
    };
    let pick = |v: &XP, b: bool| -> XP {
        let idx: Vec<usize> = (0..d.s).filter(|i| sd.state(*i) == b).collect();
        (
            idx.iter().map(|i| v.0[*i]).collect(),
            idx.iter().flat_map(|i| idx.iter().map(|j| v.1[*i * d.s + *j])).collect(),
        )
    };
    let apart = |v: &XP, at: &str| -> Res<()> {
        for k in 0..d.s * d.s {
            if sd.state(k / d.s) != sd.state(k % d.s) && unsign(n.mode, v.1[k]) != 0 {
                return fail("subsystems-coupled", format!("independent subsystems: P[{k}] became {} {at}", show_vec(n.mode, &v.1[k..k + 1])));
            }
        }
        Ok(())
    };
    let both = |what: &str, at: &str, a: &XP, b: &XP| -> Res<()> {
        equal(what, at, n.mode, "x", &a.0, &b.0)?;
        equal(what, at, n.mode, "P", &a.1, &b.1)
    };
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        let mut r = Rng::new(hash2(seed ^ 0x5EED, e.t));
        match &e.op {
            Op::Set(s, v) => {
                if coupled(*s, v) {
                    return Err(Stop::Inconclusive("malformed plan"));
                }
                l.set(*s, v);
                m.set(*s, &other(e.t, *s, v));
            }
            Op::Scribble(k, s) => {
                m.scribble(*k, *s);
                obs.fault("scratch_overwritten");
            }
            op if op.is_step() => {
                let side = sd.of_op(op);
                let pre = l.xp();
                l.load(op);
                let q = bare_step(&mut l, op, StepOpt { cb: cb(op), ..Default::default() }, obs);
                if q.end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
                let now = l.xp();
                let at = format!("after {}", opname(op));
                let finite = |v: &XP| !n.mode.is_float() || v.0.iter().chain(&v.1).all(|b| to_f64(*b).is_finite());
                if !finite(&now) {
                    return Err(Stop::Inconclusive("beyond range"));
                }
                apart(&now, &at)?;
                if let Some(b) = side {
                    both("subsystem-untouched", &format!("{at} of the other subsystem"), &pick(&now, !b), &pick(&pre, !b))?;
                }
                let mut times = 1;
                let mut op2 = op.clone();
                if side == Some(true) {
                    obs.probes += 1;
                    if let Op::Control(_, v) | Op::Correct(_, v) | Op::CorrectNl(_, _, v) = &mut op2 {
                        *v = gen::vec(&mut r, n.mode, v.len());
                        if n.mode.is_float() && !v.is_empty() && r.chance(par("extreme")) {
                            let k = r.idx(v.len());
                            v[k] = HUGE;
                            obs.fault("payload_corrupted_in_other_subsystem");
                        }
                    }
                    if r.chance(par("loss")) {
                        times = 0;
                        obs.fault("message_lost_in_other_subsystem");
                    } else if r.chance(par("repeat")) {
                        times = 2 + r.idx(2);
                        obs.fault("message_repeated_in_other_subsystem");
                    }
                }
                for k in 0..times {
                    m.load(&op2);
                    if k == 0 {
                        let ev = Ev { op: op2.clone(), ..e.clone() };
                        disturb(&mut m, &ev, cb(op), obs);
                    }
                    let before = m.xp();
                    let q = bare_step(&mut m, &op2, StepOpt { cb: cb(op), ..Default::default() }, obs);
                    if q.end != End::Done {
                        if n.mode.is_fx() {
                            return Err(Stop::Inconclusive("fixed-point overflow"));
                        }
                        return fail("subsystem-panic", format!("{} ended with {:?}", opname(op), q.end));
                    }
                    let after = m.xp();
                    if !finite(&after) {
                        return Err(Stop::Inconclusive("beyond range"));
                    }
                    apart(&after, &at)?;
                    if let Some(b) = side {
                        both("subsystem-untouched", &format!("{at} of the other subsystem"), &pick(&after, !b), &pick(&before, !b))?;
                    }
                }
                obs.checks += 1;
                let (a, b) = (l.xp(), m.xp());
                both("subsystem", &format!("{at} between undisturbed and disturbed surroundings"), &pick(&a, false), &pick(&b, false))?;
                obs.see(&a.0);
                obs.see(&b.0);
                obs.see(&b.1);
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}

fn l_ext(op: &Op) -> bool {
    matches!(op, Op::PredictNl(_) | Op::PredictTNl(..) | Op::CorrectNl(..))
}

// ---------------------------------------------------------------------------------------- C27

fn gen_c27(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(450) { 1000 } else { 0 };
    let mut p = gen::simple(r, "C27", seed, &Prof { ext, max_ev: 20, crash: true, ..Prof::default() });
    let n = &mut p.nodes[0];
    add_faults(r, n);
    // the fleet: which storage each filter is built on, and when it is replaced
    let kinds = rig::kinds(n.cfg);
    for _ in 0..1 + r.idx(6) {
        let k = if r.chance(700) && kinds.contains(&RigKind::Builder) { RigKind::Builder } else { *r.pick(&kinds) };
        let k = RigKind::ALL.iter().position(|x| *x == k).unwrap() as u64;
        p.sched.push(k | r.below(crate::rig::API_ALL as u64 + 1) << 8 | r.below(8) << 24 | r.below(4) << 32);
    }
    p
}

fn run_c27(plan: &Plan, obs: &mut Obs) -> Res<()> {
    let n = node0(plan)?;
    set_mode(n.mode);
    struct Member {
        l: Live,
        name: &'static str,
        got: (i64, i64),
    }
    let kinds = rig::kinds(n.cfg);
    let build = |code: u64| -> Res<Member> {
        let kind = RigKind::ALL[(code & 255) as usize % RigKind::ALL.len()];
        if !kinds.contains(&kind) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        let (api, layout) = ((code >> 8) as u32 & rig::API_ALL, (code >> 24) as u32 & 7);
        let a = alloc::live();
        let rig = rig::make(kind, n.cfg, n.ext, api, layout);
        let b = alloc::live();
        let mut l = Live::bare(n.mode, RigKind::Arena, n.cfg, n.ext, api, 0, n.units);
        l.rig = rig;
        for s in l.dims.slots(n.ext) {
            let v = vec![Dyn(0); l.dims.len(s)];
            l.rig.set(s, &v);
        }
        for (s, v) in &n.init {
            l.set(*s, v);
        }
        Ok(Member { l, name: kind.name(), got: (b.0 - a.0, b.1 - a.1) })
    };
    let discard = |m: Member, obs: &mut Obs| -> Res<()> {
        let Member { l, name, got } = m;
        let Live { rig, inputs, .. } = l;
        drop(inputs);
        let a = alloc::live();
        drop(rig);
        let b = alloc::live();
        obs.checks += 1;
        if got.1 > 0 {
            obs.probes += 1;
        }
        let freed = (a.0 - b.0, a.1 - b.1);
        if freed != got {
            return fail(
                "not-released",
                format!(
                    "building a filter ({name}) took {} blocks and {} bytes, dropping it released {} blocks and {} bytes",
                    got.0, got.1, freed.0, freed.1
                ),
            );
        }
        obs.see(&[got.0 as u64, got.1 as u64]);
        Ok(())
    };
    let codes = if plan.sched.is_empty() { vec![RigKind::ALL.iter().position(|k| *k == n.rig).unwrap() as u64] } else { plan.sched.clone() };
    let mut fleet: Vec<Member> = vec![];
    let mut sizes: std::collections::BTreeMap<u64, (i64, i64)> = Default::default();
    for c in &codes {
        let m = build(*c)?;
        sizes.insert(*c, m.got);
        fleet.push(m);
    }
    for (i, e) in n.evs.iter().enumerate() {
        let mut r = Rng::new(hash2(plan.seed, e.t));
        let k = r.idx(fleet.len());
        match &e.op {
            Op::Set(s, v) => {
                if !fleet[k].l.valid(&e.op) {
                    return Err(Stop::Inconclusive("malformed plan"));
                }
                fleet[k].l.set(*s, v);
            }
            Op::Scribble(..) => {}
            Op::Crash => {
                // this filter is lost and replaced by a new one
                let old = fleet.swap_remove(k);
                obs.fault("filter_dropped_and_rebuilt");
                discard(old, obs)?;
                let c = codes[i % codes.len()];
                let m = build(c)?;
                if sizes.get(&c).is_some_and(|s| *s != m.got) {
                    return fail("grows", format!("building the same filter ({}) again took {:?} blocks and bytes instead of {:?}", m.name, m.got, sizes[&c]));
                }
                fleet.push(m);
            }
            op if op.is_step() => {
                let m = &mut fleet[k].l;
                if !m.valid(op) {
                    return Err(Stop::Inconclusive("malformed plan"));
                }
                m.load(op);
                disturb(m, e, None, obs);
                let r = bare_step(m, op, StepOpt::default(), obs);
                if r.end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
        // sometimes a filter is dropped right after a step that failed
        if e.fault.is_some() && r.chance(300) && fleet.len() > 1 {
            let old = fleet.swap_remove(k);
            obs.fault("filter_dropped_after_aborted_step");
            discard(old, obs)?;
        }
    }
    let mut r = Rng::new(plan.seed);
    while !fleet.is_empty() {
        let k = r.idx(fleet.len());
        let old = fleet.swap_remove(k);
        discard(old, obs)?;
    }
    Ok(())
}
