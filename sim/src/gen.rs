//! The simulated deployment. A virtual clock drives sensors, actuators, the filter's own tick
//! timer and an unreliable network between them; what reaches the filter, and when, is recorded as
//! a concrete plan. All choices come from one seeded generator.

use crate::plan::*;
use crate::rig::{self, Dims};
use crate::rng::Rng;
use crate::scalar::Mode;
use crate::storage::*;
use std::collections::{BTreeMap, BinaryHeap};

pub struct Prof {
    pub modes: Vec<(u64, Mode)>,
    /// Permille of extended filters.
    pub ext: u64,
    pub max_ev: usize,
    pub cfgs: Option<Vec<usize>>,
    /// Only storage with direct memory access.
    pub arena_only: bool,
    pub reconf: bool,
    pub ckpt: bool,
    pub crash: bool,
    /// Linear callbacks only (kind 2).
    pub linear_cb: bool,
    /// Time-invariant A/Q except through reconfiguration.
    pub no_network_faults: bool,
    pub min_r: f64,
    /// Permille of deployments in other than plain units; 0 for never.
    pub units: u64,
    /// Also for fixed-point numbers.
    pub fx_units: bool,
    /// Permille of deployments with covariances that are not symmetric.
    pub asym: u64,
    /// Once in a while a history of more than 2^16 predictions.
    pub marathon: bool,
    /// Once in a while a filter of 67 or 257 states.
    pub huge: Huge,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Huge {
    Never,
    Any,
    /// In exact arithmetic only.
    Exact,
}

impl Default for Prof {
    fn default() -> Self {
        Prof {
            modes: vec![(5, Mode::GF), (2, Mode::F64), (2, Mode::F32), (1, Mode::FX32), (1, Mode::FX16)],
            ext: 0,
            max_ev: 40,
            cfgs: None,
            arena_only: false,
            reconf: true,
            ckpt: false,
            crash: false,
            linear_cb: false,
            no_network_faults: false,
            min_r: 0.1,
            units: 300,
            fx_units: true,
            asym: 0,
            marathon: false,
            huge: Huge::Never,
        }
    }
}

/// Small configurations are drawn more often, large ones still regularly.
/// In thousandths or so.
const CFG_WEIGHT: [u64; 18] = [80, 96, 112, 112, 96, 96, 80, 64, 48, 40, 80, 24, 24, 8, 8, 1, 0, 0];

pub fn weighted<'a, T>(rng: &mut Rng, v: &'a [(u64, T)]) -> &'a T {
    let tot: u64 = v.iter().map(|w| w.0).sum();
    let mut k = rng.below(tot);
    for (w, t) in v {
        if k < *w {
            return t;
        }
        k -= w;
    }
    &v[0].1
}

pub fn val(rng: &mut Rng, m: Mode) -> V {
    if m == Mode::GF {
        return match rng.below(20) {
            0..=2 => V(0),
            3..=4 => V(if rng.chance(500) { 1 << 20 } else { -(1 << 20) }),
            5..=14 => V(rng.range(-9, 9) << 20),
            _ => V(rng.range(-(1 << 40), 1 << 40)),
        };
    }
    let s = if m.is_fx() { 1.5 } else { 5.0 };
    match rng.below(20) {
        0 => V(0),
        1 => V::f(1.0),
        2 => V::f(-1.0),
        _ => V::f(rng.s() * s),
    }
}

pub fn vec(rng: &mut Rng, m: Mode, n: usize) -> Vec<V> {
    (0..n).map(|_| val(rng, m)).collect()
}

fn eye(n: usize, v: f64) -> Vec<V> {
    (0..n * n).map(|i| if i / n == i % n { V::f(v) } else { V(0) }).collect()
}

/// A symmetric matrix: a covariance for the ordered number systems, anything symmetric in GF.
pub fn sym(rng: &mut Rng, m: Mode, n: usize, lo: f64, hi: f64, may_vanish: bool) -> Vec<V> {
    if m == Mode::GF {
        match rng.below(20) {
            0 if may_vanish => return vec![V(0); n * n],
            1 => return eye(n, 1.0),
            2 => {
                let mut v = vec![V(0); n * n];
                for i in 0..n {
                    v[i * n + i] = val(rng, m);
                }
                return v;
            }
            _ => {}
        }
        let sparse = rng.chance(200);
        let mut v = vec![V(0); n * n];
        for i in 0..n {
            for j in 0..=i {
                if i == j || !sparse || rng.chance(300) {
                    let x = val(rng, m);
                    v[i * n + j] = x;
                    v[j * n + i] = x;
                }
            }
        }
        return v;
    }
    if may_vanish && rng.chance(120) {
        return vec![V(0); n * n];
    }
    let diag_only = rng.chance(250);
    let mut d: Vec<f64> = (0..n).map(|_| lo + (hi - lo) * rng.f() * rng.f()).collect();
    if n > 0 && may_vanish && rng.chance(200) {
        // rank-deficient
        let k = rng.idx(n);
        d[k] = 0.0;
    }
    let l: Vec<f64> = (0..n * n)
        .map(|i| {
            if i / n == i % n {
                1.0
            } else if i / n > i % n && !diag_only {
                rng.s() * 0.8 / (n as f64).sqrt()
            } else {
                0.0
            }
        })
        .collect();
    let mut v = vec![V(0); n * n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = 0.0;
            for k in 0..n {
                s += l[i * n + k] * d[k] * l[j * n + k];
            }
            if i == j && !may_vanish {
                s = s.max(lo);
            }
            let x = V::f(s);
            v[i * n + j] = x;
            v[j * n + i] = x;
        }
    }
    v
}

/// State transition for an elapsed time; stable for the ordered number systems.
pub fn trans(rng: &mut Rng, m: Mode, n: usize, dt: f64) -> Vec<V> {
    if m == Mode::GF {
        return match rng.below(12) {
            0 => eye(n, 1.0),
            1 => vec![V(0); n * n],
            2..=4 => (0..n * n)
                .map(|i| {
                    if i / n == i % n {
                        V::f(1.0)
                    } else if i / n + 1 == i % n {
                        V::f((dt * 16.0).round() / 16.0)
                    } else {
                        V(0)
                    }
                })
                .collect(),
            _ => vec(rng, m, n * n),
        };
    }
    let cap = if m.is_fx() { 0.93 } else { 1.0 };
    let mut a: Vec<f64> = match rng.below(16) {
        0 => {
            // each state mirrored, damped or reset
            (0..n * n).map(|i| if i / n == i % n && rng.chance(900) { *rng.pick(&[1.0, -1.0, 0.5, -0.5]) } else { 0.0 }).collect()
        }
        1 => {
            // states trade places
            let mut idx: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut idx);
            let mut a = vec![0.0; n * n];
            for (i, j) in idx.into_iter().enumerate() {
                a[i * n + j] = if rng.chance(500) { -1.0 } else { 1.0 };
            }
            a
        }
        2 | 3 => {
            let some = if rng.chance(500) { 1000 } else { 400 };
            (0..n * n).map(|_| if rng.chance(some) { rng.s() } else { 0.0 }).collect()
        }
        4..=7 => (0..n * n)
            .map(|i| {
                if i / n == i % n {
                    1.0
                } else if i / n + 1 == i % n {
                    dt.clamp(-1.0, 1.0)
                } else {
                    0.0
                }
            })
            .collect(),
        _ => (0..n * n)
            .map(|i| (if i / n == i % n { 0.8 } else { 0.0 }) + rng.s() * 0.5)
            .collect(),
    };
    for i in 0..n {
        let s: f64 = a[i * n..(i + 1) * n].iter().map(|v| v.abs()).sum();
        if s > cap {
            for v in &mut a[i * n..(i + 1) * n] {
                *v *= cap / s;
            }
        }
    }
    a.into_iter().map(V::f).collect()
}

/// Observation or control matrix.
pub fn rect(rng: &mut Rng, m: Mode, r: usize, c: usize) -> Vec<V> {
    if m == Mode::GF {
        return match rng.below(12) {
            0 => vec![V(0); r * c],
            1..=3 => (0..r * c).map(|_| if rng.chance(250) { val(rng, m) } else { V(0) }).collect(),
            _ => vec(rng, m, r * c),
        };
    }
    let select = rng.chance(400);
    let mut h: Vec<f64> = if select {
        let mut h = vec![0.0; r * c];
        for i in 0..r {
            if c > 0 {
                h[i * c + rng.idx(c)] = 1.0;
            }
        }
        h
    } else {
        (0..r * c).map(|_| rng.s() * 1.5).collect()
    };
    let cap = if m.is_fx() { 1.0 } else { 2.0 };
    for i in 0..r {
        let s: f64 = h[i * c..(i + 1) * c].iter().map(|v| v.abs()).sum();
        if s > cap {
            for v in &mut h[i * c..(i + 1) * c] {
                *v *= cap / s;
            }
        }
    }
    h.into_iter().map(V::f).collect()
}

pub fn lambda(rng: &mut Rng, m: Mode) -> V {
    match (m, rng.below(6)) {
        (_, 0) => V::f(1.0),
        (Mode::GF, _) => {
            let v = rng.range(-9, 9);
            V(if v == 0 { 3 } else { v } << 20)
        }
        (Mode::FX16 | Mode::FX32, _) => V::f(1.0 + rng.f() * 0.3),
        // now and then far from neutral, or negative: only its square matters
        _ if rng.chance(60) => {
            let v = 2f64.powf(rng.f() * 7.0 - 4.0);
            V::f(if rng.chance(300) { -v } else { v })
        }
        _ => V::f(0.85 + rng.f() * 0.45),
    }
}

pub fn slot_value(rng: &mut Rng, m: Mode, d: &Dims, s: Slot, min_r: f64) -> Vec<V> {
    let fx = m.is_fx();
    match s {
        Slot::X => vec(rng, m, d.s),
        Slot::P => sym(rng, m, d.s, 0.2, if fx { 1.0 } else { 4.0 }, false),
        Slot::A => trans(rng, m, d.s, 0.125),
        Slot::Q => sym(rng, m, d.s, 0.001, if fx { 0.08 } else { 0.4 }, true),
        Slot::H(i) => rect(rng, m, d.o[i as usize], d.s),
        Slot::R(i) => {
            let lo = if fx { 0.4 } else { min_r };
            sym(rng, m, d.o[i as usize], lo, lo + if fx { 0.6 } else { 2.0 }, false)
        }
        Slot::Z(i) => vec(rng, m, d.o[i as usize]),
        Slot::B(j) => rect(rng, m, d.s, d.c[j as usize]),
        Slot::Qc(j) => sym(rng, m, d.c[j as usize], 0.01, if fx { 0.06 } else { 0.2 }, true),
        Slot::U(j) => vec(rng, m, d.c[j as usize]),
    }
}

pub fn fspec(rng: &mut Rng, p: &Prof) -> FSpec {
    let seed = rng.u64() & 0xffff_ffff;
    let kind = if p.linear_cb {
        2
    } else {
        match rng.below(12) {
            0 => 1,
            1..=2 => 2,
            _ => 0,
        }
    };
    FSpec { seed, kind }
}

pub fn shell(rng: &mut Rng, p: &Prof) -> Node {
    let mut mode = *weighted(rng, &p.modes);
    let ext = rng.chance(p.ext);
    let cfgs: Vec<(u64, usize)> = (0..rig::CONFIGS.len())
        .filter(|c| p.cfgs.as_ref().is_none_or(|v| v.contains(c)))
        // fixed-point builds are only exercised on dimensions their range can carry
        .filter(|c| !mode.is_fx() || rig::CONFIGS[*c].s <= 8)
        .map(|c| (CFG_WEIGHT[c], c))
        .collect();
    let mut cfg = *weighted(rng, &cfgs);
    if p.huge != Huge::Never {
        cfg = match rng.below(50_000) {
            0..=1 => 17,
            2..=21 => 16,
            _ => cfg,
        };
        if cfg >= 16 && (p.huge == Huge::Exact || mode.is_fx()) {
            mode = Mode::GF;
        }
    }
    let mut rig = RigKind::Arena;
    let mut layout = 0;
    if !p.arena_only {
        rig = *rng.pick(&rig::kinds(cfg));
    }
    if matches!(rig, RigKind::Arena | RigKind::Slice | RigKind::Wrap) {
        if rng.chance(400) {
            layout |= L_OVERSIZE;
        }
        if rng.chance(200) {
            layout |= L_SHARE;
        }
        if rng.chance(300) {
            layout |= L_DIRTY;
        }
    }
    let api = if rng.chance(300) { 0 } else { rng.below(crate::rig::API_ALL as u64 + 1) as u32 };
    let d = rig::CONFIGS[cfg];
    let mut init = vec![];
    for s in d.slots(ext) {
        if matches!(s, Slot::Z(_) | Slot::U(_)) {
            continue;
        }
        init.push((s, slot_value(rng, mode, &d, s, p.min_r)));
    }
    let units = if rng.chance(p.units) { units(rng, mode, p.fx_units) } else { Units::default() };
    Node { mode, cfg, rig, ext, units, api, layout, init, evs: vec![] }
}

/// Units in which the numbers stay well inside the range of the number system (micromath computes
/// the roots of f64 numbers as f32).
pub fn units(rng: &mut Rng, m: Mode, fx: bool) -> Units {
    let mut any = |lo: i64, hi: i64| rng.range(lo, hi) as i32;
    let mut u = Units::default();
    let m = if m == Mode::F64 && crate::reference::root_err() > 0.0 { Mode::F32 } else { m };
    match m {
        Mode::F32 => {
            u.s = any(-20, 20);
            u.o = [0; 3].map(|_| any(-10, 10));
            u.c = [0; 2].map(|_| any(-10, 10));
        }
        Mode::F64 => {
            u.s = any(-150, 150);
            u.o = [0; 3].map(|_| any(-60, 60));
            u.c = [0; 2].map(|_| any(-60, 60));
        }
        Mode::FX32 if fx => {
            u.s = any(0, 10);
            u.o = [0; 3].map(|_| any(-3, 11 - u.s as i64));
            u.c = [0; 2].map(|_| any(0, u.s as i64));
        }
        Mode::FX16 if fx => {
            u.s = any(0, 4);
            u.o = [0; 3].map(|_| any(0, 4 - u.s as i64));
            u.c = [0; 2].map(|_| any(0, u.s as i64));
        }
        _ => {}
    }
    u
}

#[derive(Clone, PartialEq, Eq)]
enum W {
    Tick,
    Sample(usize),
    Deliver(usize, u64, Vec<V>),
    Command(usize),
    DeliverCmd(usize, Vec<V>),
    Outage,
    Heal,
    Jump,
    Reconf,
    Ckpt,
    Crash,
}

struct Link {
    latency: u64,
    jitter: u64,
    drop: u64,
    dup: u64,
    buffering: bool,
}

pub type Env = BTreeMap<String, u64>;

fn count(env: &mut Env, k: &str) {
    *env.entry(k.into()).or_default() += 1;
}

/// Simulates one deployment and appends what reaches the filter to `n.evs`.
pub fn world(rng: &mut Rng, n: &mut Node, p: &Prof, env: &mut Env) {
    let d = rig::CONFIGS[n.cfg];
    let m = n.mode;
    let mut heap: BinaryHeap<std::cmp::Reverse<(u64, u64, usize)>> = BinaryHeap::new();
    let mut items: Vec<W> = vec![];
    let mut seq = 0u64;
    macro_rules! at {
        ($t:expr, $w:expr) => {{
            items.push($w);
            seq += 1;
            heap.push(std::cmp::Reverse(($t, seq, items.len() - 1)));
        }};
    }
    // swarm: each kind of fault is either part of this world or not
    let marathon = p.marathon && d.s <= 2 && rng.below(1800) == 0;
    let tuned_rate = if marathon { *rng.pick(&[0, 0, 250, 1000]) } else { 250 };
    let quiet = p.no_network_faults || rng.chance(100);
    let on = |rng: &mut Rng, pm: u64| !quiet && rng.chance(pm);
    let f_drop = on(rng, 500);
    let f_dup = on(rng, 400);
    let f_reorder = on(rng, 500);
    let f_outage = on(rng, 350);
    let f_jump = on(rng, 250);
    let f_stall = on(rng, 250);
    let varying = rng.chance(350);
    let tick = 1000 + rng.below(20_000);
    let n_sensors = 1 + rng.idx(3);
    let mut sensors: Vec<u8> = vec![0, 1, 2];
    rng.shuffle(&mut sensors);
    sensors.truncate(n_sensors);
    let mut links = vec![];
    let mut periods = vec![];
    for i in 0..n_sensors {
        let period = match rng.below(4) {
            0 => tick,
            1 => tick * (2 + rng.below(4)),
            2 => tick / 2 + 1,
            _ => tick / 3 + rng.below(3 * tick),
        };
        periods.push(period);
        links.push(Link {
            latency: rng.below(tick),
            jitter: if f_reorder { rng.below(4 * period) } else { 0 },
            drop: if f_drop { 50 + rng.below(500) } else { 0 },
            dup: if f_dup { 50 + rng.below(300) } else { 0 },
            buffering: rng.chance(400),
        });
        at!(rng.below(period), W::Sample(i));
    }
    let n_ctl = if n.ext { 0 } else { rng.idx(3) };
    for j in 0..n_ctl {
        at!(rng.below(4 * tick), W::Command(j));
    }
    at!(rng.below(tick), W::Tick);
    if f_outage {
        at!(rng.below(20 * tick), W::Outage);
    }
    if f_jump {
        at!(rng.below(30 * tick), W::Jump);
    }
    if p.reconf {
        at!(rng.below(40 * tick), W::Reconf);
    }
    if p.ckpt {
        at!(rng.below(10 * tick), W::Ckpt);
    }
    if p.crash && rng.chance(600) && !(marathon && rng.chance(800)) {
        at!(rng.below(30 * tick), W::Crash);
    }
    let mut ticks = 0u64;
    let cap = match rng.below(40) {
        _ if marathon => 250_000,
        _ if d.s > 200 => 2 + rng.idx(3),
        _ if d.s > 20 => 3 + rng.idx(6),
        0 if d.s <= 5 && rng.chance(60) => 1000 + rng.idx(1500),
        0 => p.max_ev * 8,
        1..=4 => p.max_ev * 2,
        5..=14 => 4 + rng.idx(8),
        _ => 4 + rng.idx(p.max_ev),
    };
    let mut last_t = 0u64;
    let mut outage = false;
    let mut held: Vec<(usize, u64, Vec<V>)> = vec![];
    let mut skew: i64 = 0;
    let mut last_local: i64 = 0;
    let mut last_sampled = [0u64; 3];
    let f_stuck = rng.chance(250);
    let mut last_z: [Option<Vec<V>>; 3] = [None, None, None];
    let mut last_u: [Option<Vec<V>>; 2] = [None, None];
    while let Some(std::cmp::Reverse((t, _, k))) = heap.pop() {
        if n.evs.len() >= cap || ticks > 66_000 {
            break;
        }
        let mut push = |n: &mut Node, op: Op| {
            last_t = t.max(last_t + 1);
            n.evs.push(Ev { t: last_t, op, fault: None });
        };
        match items[k].clone() {
            W::Tick => {
                let local = t as i64 + skew;
                let dt = (local - last_local) as f64 / 1e5;
                last_local = local;
                if varying && rng.chance(500) {
                    push(n, Op::Set(Slot::A, trans(rng, m, d.s, dt)));
                    if rng.chance(300) {
                        push(n, Op::Set(Slot::Q, slot_value(rng, m, &d, Slot::Q, p.min_r)));
                    }
                }
                let tuned = rng.chance(tuned_rate);
                ticks += 1;
                let op = match (n.ext, tuned) {
                    (false, false) => Op::Predict,
                    (false, true) => Op::PredictT(lambda(rng, m)),
                    (true, false) => Op::PredictNl(fspec(rng, p)),
                    (true, true) => Op::PredictTNl(lambda(rng, m), fspec(rng, p)),
                };
                push(n, op);
                let mut nt = t + tick;
                if f_stall && rng.chance(80) {
                    count(env, "filter_stall");
                    nt += tick * (1 + rng.below(10));
                } else if rng.chance(300) {
                    nt += rng.below(tick / 2);
                }
                at!(nt, W::Tick);
            }
            W::Sample(i) => {
                let z = match &last_z[i] {
                    Some(z) if f_stuck && rng.chance(350) => {
                        count(env, "sensor_stuck");
                        z.clone()
                    }
                    _ => vec(rng, m, d.o[sensors[i] as usize]),
                };
                if f_stuck {
                    last_z[i] = Some(z.clone());
                }
                let l = &links[i];
                count(env, "messages");
                if rng.chance(l.drop) {
                    count(env, "message_lost");
                } else {
                    let mut copies = 1;
                    if rng.chance(l.dup) {
                        copies = 2 + rng.idx(2);
                        count(env, "message_duplicated");
                    }
                    for _ in 0..copies {
                        let dl = l.latency + if l.jitter > 0 { rng.below(l.jitter) } else { 0 };
                        if l.jitter > 0 && dl > l.latency + periods[i] {
                            count(env, "message_delayed");
                        }
                        at!(t + dl, W::Deliver(i, t, z.clone()));
                    }
                }
                at!(t + periods[i], W::Sample(i));
            }
            W::Deliver(i, sampled, z) => {
                if outage {
                    if links[i].buffering {
                        count(env, "message_held_in_partition");
                        held.push((i, sampled, z));
                    } else {
                        count(env, "message_lost_in_partition");
                    }
                } else {
                    let s = sensors[i];
                    if sampled < last_sampled[i] {
                        count(env, "message_reordered");
                    }
                    last_sampled[i] = last_sampled[i].max(sampled);
                    let op = if n.ext {
                        Op::CorrectNl(s, fspec(rng, p), z)
                    } else {
                        Op::Correct(s, z)
                    };
                    push(n, op);
                }
            }
            W::Command(j) => {
                let u = match &last_u[j] {
                    Some(u) if f_stuck && rng.chance(350) => {
                        count(env, "command_repeated");
                        u.clone()
                    }
                    _ => vec(rng, m, d.c[j]),
                };
                if f_stuck {
                    last_u[j] = Some(u.clone());
                }
                if f_drop && rng.chance(150) {
                    count(env, "message_lost");
                } else {
                    at!(t + rng.below(tick), W::DeliverCmd(j, u.clone()));
                    if f_dup && rng.chance(150) {
                        count(env, "message_duplicated");
                        at!(t + rng.below(3 * tick), W::DeliverCmd(j, u));
                    }
                }
                at!(t + tick + rng.below(6 * tick), W::Command(j));
            }
            W::DeliverCmd(j, u) => push(n, Op::Control(j as u8, u)),
            W::Outage => {
                outage = true;
                count(env, "partition");
                at!(t + tick * (1 + rng.below(15)), W::Heal);
            }
            W::Heal => {
                outage = false;
                count(env, "heal");
                for (i, s, z) in std::mem::take(&mut held) {
                    at!(t + 1, W::Deliver(i, s, z));
                }
                at!(t + rng.below(40 * tick), W::Outage);
            }
            W::Jump => {
                skew += rng.range(-20, 20) * tick as i64;
                count(env, "clock_jump");
                at!(t + rng.below(40 * tick), W::Jump);
            }
            W::Reconf => {
                let slots: Vec<Slot> = d
                    .slots(n.ext)
                    .into_iter()
                    .filter(|s| !matches!(s, Slot::Z(_) | Slot::U(_)))
                    .collect();
                let s = *rng.pick(&slots);
                count(env, "reconfiguration");
                push(n, Op::Set(s, slot_value(rng, m, &d, s, p.min_r)));
                at!(t + rng.below(40 * tick), W::Reconf);
            }
            W::Ckpt => {
                push(n, Op::Ckpt);
                at!(t + rng.below(20 * tick), W::Ckpt);
            }
            W::Crash => {
                push(n, Op::Crash);
                at!(t + rng.below(40 * tick), W::Crash);
            }
        }
    }
}

pub fn plan(property: &str, seed: u64) -> Plan {
    Plan {
        property: property.into(),
        seed,
        nodes: vec![],
        sched: vec![],
        params: BTreeMap::new(),
        env: BTreeMap::new(),
    }
}

/// A deployment of one filter.
pub fn simple(rng: &mut Rng, property: &str, seed: u64, p: &Prof) -> Plan {
    let mut pl = plan(property, seed);
    let mut n = shell(rng, p);
    world(rng, &mut n, p, &mut pl.env);
    if rng.chance(p.asym) {
        skew(rng, &mut n);
    }
    pl.nodes.push(n);
    pl
}

/// Covariances that are not quite symmetric, as users write them. Nothing in the properties that
/// compare executions with each other depends on symmetry.
pub fn skew(rng: &mut Rng, n: &mut Node) {
    let d = rig::CONFIGS[n.cfg];
    let m = n.mode;
    let all = rng.chance(500);
    let mut bend = |s: Slot, v: &mut Vec<V>| {
        let k = match s {
            Slot::P | Slot::Q => d.s,
            Slot::R(i) => d.o[i as usize],
            Slot::Qc(j) => d.c[j as usize],
            _ => return,
        };
        for i in 0..k {
            for j in 0..k {
                if i != j && (all || rng.chance(200)) {
                    let e = if m == Mode::GF { val(rng, m) } else { V::f(rng.s() * 0.05) };
                    let c = &mut v[i * k + j];
                    if !c.special() {
                        *c = V(c.0 + e.0);
                    }
                }
            }
        }
    };
    for (s, v) in &mut n.init {
        bend(*s, v);
    }
    for e in &mut n.evs {
        if let Op::Set(s, v) = &mut e.op {
            bend(*s, v);
        }
    }
}
