//! Executes single events of a plan on the real filters, with faults injected at the seams.

use crate::alloc;
use crate::plan::*;
use crate::reference::{M, Num};
use crate::rig::{self, Dims, Rig};
use crate::rng::{hash2, mix, Rng};
use crate::scalar::{self, *};
use crate::storage::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

/// A found violation. `class` is stable under minimisation, `detail` is for people.
#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub enum Stop {
    Violation(Violation),
    /// The run left the domain in which the oracle can judge (counted, not an alarm).
    Inconclusive(&'static str),
}

pub type Res<T> = Result<T, Stop>;

pub fn fail<T>(class: impl Into<String>, detail: impl Into<String>) -> Res<T> {
    Err(Stop::Violation(Violation { class: class.into(), detail: detail.into() }))
}

/// What happened in a run, for evidence and for the exact-replay comparison.
#[derive(Default, Clone)]
pub struct Obs {
    pub steps: u64,
    pub ticks: u64,
    pub sim_us: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: u64,
    /// Running hash of everything observed (bit-exact), for determinism checks.
    pub digest: u64,
    /// Running hash of the schedule and faults only.
    pub shape: u64,
    pub checks: u64,
}

impl Obs {
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_default() += 1;
        self.shape(hash2(0xFA, k.len() as u64 ^ (k.as_bytes()[0] as u64) << 8));
    }
    pub fn shape(&mut self, v: u64) {
        self.shape = hash2(self.shape, v);
    }
    pub fn see(&mut self, v: &[u64]) {
        for x in v {
            self.digest = mix(self.digest ^ *x).wrapping_add(0x51);
        }
    }
    pub fn merge(&mut self, o: &Obs) {
        self.steps += o.steps;
        self.ticks += o.ticks;
        self.sim_us += o.sim_us;
        self.probes += o.probes;
        self.checks += o.checks;
        for (k, v) in &o.faults {
            *self.faults.entry(k).or_default() += v;
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum End {
    Done,
    Trapped,
    CbFailed,
    WorkLimit,
    Panicked(String),
}

#[derive(Clone, Debug)]
pub struct StepRec {
    pub end: End,
    pub ticks: u64,
    /// Every invocation of the user callback: its argument and what it wrote.
    pub calls: Vec<(Vec<u64>, Vec<u64>)>,
    pub allocs: u64,
}

#[derive(Default)]
pub struct StepOpt {
    pub trap_at: Option<u64>,
    pub cb_fail: Option<u32>,
    pub limit: Option<u64>,
    /// Preemption: called at the given tick, returns the next one.
    pub preempt: Option<(u64, Hook)>,
    /// What the user function computes, in terms of the one its specification stands for.
    pub cb: Option<CbMap>,
}

pub type CbMap = Box<dyn Fn(&dyn Fn(&[u64]) -> Vec<u64>, &[u64]) -> Vec<u64>>;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let p = i.payload();
        if p.is::<TrapToken>() || p.is::<CallbackToken>() || p.is::<WorkLimitToken>() {
            return;
        }
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{m} at {loc}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

pub const BUDGET: u64 = 200_000_000;

/// One filter with its sensors and controls: the real objects plus what has been written to them.
pub struct Live {
    pub rig: Box<dyn Rig>,
    pub mode: Mode,
    pub ext: bool,
    pub dims: Dims,
    pub units: Units,
    /// Inputs as last written (the durable configuration).
    pub inputs: BTreeMap<Slot, Vec<Dyn>>,
    /// Write an input only if its value differs from what is already there.
    lazy: bool,
}

fn with_mode<T>(m: Mode, f: impl FnOnce() -> T) -> T {
    let old = mode();
    set_mode(m);
    let r = f();
    set_mode(old);
    r
}

impl Live {
    pub fn bare(mode: Mode, kind: RigKind, cfg: usize, ext: bool, api: u32, layout: u32, units: Units) -> Live {
        let old = scalar::mode();
        set_mode(mode);
        let rig = rig::make(kind, cfg, ext, api, layout);
        let mut dims = rig.dims();
        if ext {
            dims.c = [0, 0];
        }
        let mut l = Live { rig, mode, ext, dims, units, inputs: BTreeMap::new(), lazy: api & rig::API_LAZY != 0 };
        if layout & L_DIRTY != 0 {
            l.scribble(5, layout as u64);
        }
        // Owned buffers start out as zeros; borrowed memory holds whatever it held.
        let owned = !matches!(kind, RigKind::Arena | RigKind::Slice | RigKind::Wrap);
        for s in dims.slots(ext) {
            let v = vec![Dyn(0); dims.len(s)];
            if !owned {
                l.rig.set(s, &v);
            }
            if !matches!(s, Slot::X | Slot::P) {
                l.inputs.insert(s, v);
            }
        }
        set_mode(old);
        l
    }
    pub fn new(n: &Node) -> Live {
        Live::with(n, n.rig, n.api, n.layout)
    }
    pub fn with(n: &Node, kind: RigKind, api: u32, layout: u32) -> Live {
        let mut l = Live::bare(n.mode, kind, n.cfg, n.ext, api, layout, n.units);
        for (s, v) in &n.init {
            l.set(*s, v);
        }
        l
    }
    fn holds(&self, s: Slot, v: &[Dyn]) -> bool {
        self.inputs.get(&s).is_some_and(|w| w.iter().map(|d| d.0).eq(v.iter().map(|d| d.0)))
    }
    pub fn has(&self, s: Slot) -> bool {
        self.dims.slots(self.ext).contains(&s)
    }
    pub fn set(&mut self, s: Slot, v: &[V]) {
        with_mode(self.mode, || {
            let d = self.scaled(s, v);
            if self.lazy && self.holds(s, &d) {
                return;
            }
            self.rig.set(s, &d);
            if !matches!(s, Slot::X | Slot::P) {
                self.inputs.insert(s, d);
            }
        })
    }
    /// Numbers of a plan in the units of this deployment.
    pub fn scaled(&self, s: Slot, v: &[V]) -> Vec<Dyn> {
        let k = if self.mode == Mode::GF { 0 } else { self.units.of(s) };
        v.iter()
            .map(|v| {
                let d = v.to_dyn();
                if k == 0 || v.special() { d } else { ldexp(d, k) }
            })
            .collect()
    }
    /// Exponent by which numbers of this slot are brought back to plain units for the reference.
    /// Fixed-point numbers are judged as they are: their rounding does not scale.
    pub fn shift(&self, s: Slot) -> i32 {
        if self.mode.is_float() { -self.units.of(s) } else { 0 }
    }
    /// A value of this filter in plain units.
    pub fn plain<N: Num>(&self, s: Slot, bits: &[u64]) -> M<N> {
        let (r, c) = self.shape(s);
        let k = self.shift(s);
        with_mode(self.mode, || {
            let mut m = M::<N>::of(r, c, bits);
            if k != 0 {
                for v in &mut m.d {
                    *v = v.ldexp(k);
                }
            }
            m
        })
    }
    /// An input in plain units.
    pub fn nmat<N: Num>(&self, s: Slot) -> M<N> {
        self.plain(s, &self.input(s))
    }
    pub fn set_bits(&mut self, s: Slot, v: &[u64]) {
        with_mode(self.mode, || {
            let d: Vec<Dyn> = v.iter().map(|b| Dyn(*b)).collect();
            if self.lazy && self.holds(s, &d) {
                return;
            }
            self.rig.set(s, &d);
            if !matches!(s, Slot::X | Slot::P) {
                self.inputs.insert(s, d);
            }
        })
    }
    pub fn get(&mut self, s: Slot) -> Vec<u64> {
        with_mode(self.mode, || self.rig.get(s))
    }
    pub fn x(&mut self) -> Vec<u64> {
        self.get(Slot::X)
    }
    pub fn p(&mut self) -> Vec<u64> {
        self.get(Slot::P)
    }
    pub fn xp(&mut self) -> (Vec<u64>, Vec<u64>) {
        (self.x(), self.p())
    }
    /// Copies estimate and configuration from another filter (of the same dimensions).
    pub fn adopt(&mut self, o: &mut Live) {
        let (x, p) = o.xp();
        self.set_bits(Slot::X, &x);
        self.set_bits(Slot::P, &p);
        for (s, v) in &o.inputs {
            let b: Vec<u64> = v.iter().map(|d| d.0).collect();
            self.set_bits(*s, &b);
        }
    }
    pub fn input(&self, s: Slot) -> Vec<u64> {
        self.inputs[&s].iter().map(|d| d.0).collect()
    }
    fn shape(&self, s: Slot) -> (usize, usize) {
        let d = &self.dims;
        match s {
            Slot::X => (d.s, 1),
            Slot::P | Slot::A | Slot::Q => (d.s, d.s),
            Slot::H(i) => (d.o[i as usize], d.s),
            Slot::R(i) => (d.o[i as usize], d.o[i as usize]),
            Slot::Z(i) => (d.o[i as usize], 1),
            Slot::B(j) => (d.s, d.c[j as usize]),
            Slot::Qc(j) => (d.c[j as usize], d.c[j as usize]),
            Slot::U(j) => (d.c[j as usize], 1),
        }
    }
    /// An input as the filter holds it.
    pub fn mat<N: Num>(&self, s: Slot) -> M<N> {
        let (r, c) = self.shape(s);
        with_mode(self.mode, || M::of(r, c, &self.input(s)))
    }
    pub fn scratch(&mut self) -> Vec<Region> {
        match self.rig.arena() {
            Some(a) => a.regions.iter().copied().filter(|r| r.name.scratch_of().is_some()).collect(),
            None => vec![],
        }
    }
    /// Overwrites scratch memory; false if this storage gives no access to it.
    pub fn scribble(&mut self, kind: u8, seed: u64) -> bool {
        let regions = self.scratch();
        if regions.is_empty() {
            return false;
        }
        let mut rng = Rng::new(seed);
        let m = self.mode;
        let one = with_mode(m, || from_f64(1.0).0);
        let mut val = |rng: &mut Rng| -> u64 {
            match kind {
                0 | 5 => match m {
                    Mode::GF => rng.below(P) | (rng.below(P) << 32),
                    Mode::F32 => {
                        let b = rng.u64() as u32;
                        if f32::from_bits(b).is_nan() { one } else { b as u64 }
                    }
                    Mode::F64 => {
                        let b = rng.u64();
                        if f64::from_bits(b).is_nan() { one } else { b }
                    }
                    Mode::FX16 => rng.u64() as u32 as u64,
                    Mode::FX32 => rng.u64(),
                },
                1 => match m {
                    Mode::F32 => f32::NAN.to_bits() as u64,
                    Mode::F64 => f64::NAN.to_bits(),
                    Mode::GF => (P - 1) | ((P - 1) << 32),
                    _ => u64::MAX >> 1 & if m == Mode::FX16 { 0x7fff_ffff } else { u64::MAX },
                },
                2 => match m {
                    Mode::F32 => f32::INFINITY.to_bits() as u64,
                    Mode::F64 => f64::INFINITY.to_bits(),
                    Mode::GF => 1 << 32,
                    Mode::FX16 => 0x8000_0000,
                    Mode::FX32 => 1 << 63,
                },
                3 => 0,
                _ => one,
            }
        };
        let a = self.rig.arena().unwrap();
        let mem = a.slice_mut();
        if kind == 4 {
            // a single flipped cell
            let r = regions[rng.idx(regions.len())];
            if r.total > 0 {
                let i = r.start + rng.idx(r.total);
                mem[i] = Dyn(match m {
                    Mode::GF => rng.below(P),
                    Mode::F32 | Mode::FX16 => mem[i].0 ^ (1 << rng.below(32)),
                    _ => mem[i].0 ^ (1 << rng.below(64)),
                });
            }
            return true;
        }
        for r in regions {
            for i in 0..r.total {
                mem[r.start + i] = Dyn(val(&mut rng));
            }
        }
        true
    }

    /// Writes the payload of a step (measurement, control input) the way a user would.
    pub fn load(&mut self, op: &Op) {
        match op {
            Op::Control(j, u) => self.set(Slot::U(*j), u),
            Op::Correct(i, z) | Op::CorrectNl(i, _, z) => self.set(Slot::Z(*i), z),
            _ => {}
        }
    }

    /// Is this operation well-formed for this filter?
    pub fn valid(&self, op: &Op) -> bool {
        let d = &self.dims;
        match op {
            Op::Set(s, v) => self.has(*s) && v.len() == d.len(*s),
            Op::Predict | Op::PredictT(_) => !self.ext,
            Op::PredictNl(_) | Op::PredictTNl(..) => self.ext,
            Op::Control(j, u) => !self.ext && *j < 2 && u.len() == d.c[*j as usize],
            Op::Correct(i, z) => !self.ext && *i < 3 && z.len() == d.o[*i as usize],
            Op::CorrectNl(i, _, z) => self.ext && *i < 3 && z.len() == d.o[*i as usize],
            _ => true,
        }
    }

    /// Runs one step of the real filter. The payload must have been loaded.
    pub fn step(&mut self, op: &Op, o: StepOpt) -> StepRec {
        let old = mode();
        set_mode(self.mode);
        let dims = self.dims;
        let mut calls: Vec<(Vec<u64>, Vec<u64>)> = Vec::with_capacity(4);
        let lin: Vec<u64> = match op {
            Op::PredictNl(f) | Op::PredictTNl(_, f) if f.kind == 2 => self.input(Slot::A),
            Op::CorrectNl(i, f, _) if f.kind == 2 => self.input(Slot::H(*i)),
            _ => vec![],
        };
        let lambda = match op {
            Op::PredictT(l) | Op::PredictTNl(l, _) => l.to_dyn(),
            _ => Dyn(0),
        };
        let nout = match op {
            Op::CorrectNl(i, ..) => dims.o[*i as usize],
            _ => dims.s,
        };
        let spec = match op {
            Op::PredictNl(f) | Op::PredictTNl(_, f) | Op::CorrectNl(_, f, _) => *f,
            _ => FSpec { seed: 0, kind: 0 },
        };
        let cb_fail = o.cb_fail;
        let cb_map = o.cb;
        let ein = if self.mode == Mode::GF { 0 } else { self.units.s };
        let eout = match op {
            Op::CorrectNl(i, ..) if self.mode != Mode::GF => self.units.of(Slot::Z(*i)),
            _ => ein,
        };
        let allocs_at_end = std::cell::Cell::new(None);
        let rig = &mut self.rig;
        let res = {
            let calls = &mut calls;
            let mut cb = |x: &[Dyn], w: &mut dyn FnMut(usize, Dyn)| {
                // user code: its arithmetic is not part of the step, but it does take time
                let st = save_ticks();
                set_mode(st_mode(&st));
                let arg: Vec<u64> = x.iter().map(|d| d.0).collect();
                let (mut out, mut order) = eval(spec, &arg, &lin, nout, ein, eout);
                if let Some(g) = &cb_map {
                    out = g(&|a| eval(spec, a, &lin, nout, ein, eout).0, &arg);
                    for (i, v) in &mut order {
                        *v = out[*i];
                    }
                }
                calls.push((arg, out.clone()));
                let fail_at = cb_fail.map(|p| order.len() * p as usize / 1000);
                restore_ticks(st);
                for (k, (i, v)) in order.iter().enumerate() {
                    if Some(k) == fail_at {
                        panic_any(CallbackToken);
                    }
                    w(*i, Dyn(*v));
                }
                if fail_at.is_some() {
                    panic_any(CallbackToken);
                }
            };
            let limit = o.limit;
            let trap = o.trap_at;
            let stop = [trap, limit, Some(BUDGET)].into_iter().flatten().min().unwrap();
            let (first, mut pre): (u64, Option<Hook>) = match o.preempt {
                Some((t, h)) => (t, Some(h)),
                None => (u64::MAX, None),
            };
            let mut next_pre = first;
            let hook: Hook = Box::new(move |n| {
                if n >= stop {
                    alloc::pause(|| {
                        if trap.is_some_and(|t| n >= t) {
                            panic_any(TrapToken);
                        }
                        panic_any(WorkLimitToken);
                    })
                }
                if n >= next_pre {
                    if let Some(h) = pre.as_mut() {
                        next_pre = alloc::pause(|| h(n));
                    }
                }
                stop.min(next_pre)
            });
            arm(stop.min(first), Some(hook));
            let r = catch_unwind(AssertUnwindSafe(|| {
                alloc::arm();
                match op {
                    Op::Predict => rig.predict(),
                    Op::PredictT(_) => rig.predict_tuned(lambda),
                    Op::Control(j, _) => rig.control(*j),
                    Op::Correct(i, _) => rig.correct(*i),
                    Op::PredictNl(_) => rig.predict_nl(&mut cb),
                    Op::PredictTNl(..) => rig.predict_tuned_nl(lambda, &mut cb),
                    Op::CorrectNl(i, ..) => rig.correct_nl(*i, &mut cb),
                    _ => unreachable!("harness: not a step"),
                }
                allocs_at_end.set(Some(alloc::disarm()));
            }));
            alloc::disarm();
            r
        };
        let n = disarm();
        set_mode(old);
        let end = match res {
            Ok(()) => End::Done,
            Err(p) if p.is::<TrapToken>() => End::Trapped,
            Err(p) if p.is::<CallbackToken>() => End::CbFailed,
            Err(p) if p.is::<WorkLimitToken>() => End::WorkLimit,
            Err(_) => {
                let m = last_panic();
                if m.starts_with("harness") {
                    panic!("{m}");
                }
                End::Panicked(m)
            }
        };
        StepRec { end, ticks: n, calls, allocs: allocs_at_end.get().unwrap_or(0) }
    }

    /// Convenience: load, run without faults, and require normal completion.
    pub fn run(&mut self, op: &Op, obs: &mut Obs) -> Res<StepRec> {
        self.load(op);
        let r = self.step(op, StepOpt::default());
        obs.steps += 1;
        obs.ticks += r.ticks;
        match &r.end {
            End::Done => Ok(r),
            e => fail("panic", format!("{:?} ended with {e:?}", opname(op))),
        }
    }
}

fn st_mode(_: &TickState) -> Mode {
    mode()
}

pub fn opname(op: &Op) -> String {
    match op {
        Op::Predict => "predict".into(),
        Op::PredictT(_) => "predict_tuned".into(),
        Op::PredictNl(_) => "predict_nonlinear".into(),
        Op::PredictTNl(..) => "predict_tuned_nonlinear".into(),
        Op::Control(j, _) => format!("control[{j}]"),
        Op::Correct(i, _) => format!("correct[{i}]"),
        Op::CorrectNl(i, ..) => format!("correct_nonlinear[{i}]"),
        Op::Set(s, _) => format!("set {}", s.text()),
        Op::Ckpt => "checkpoint".into(),
        Op::Crash => "crash".into(),
        Op::Scribble(..) => "scribble".into(),
        Op::Batch(..) => "batch".into(),
        Op::Split(..) => "split".into(),
    }
}

/// The user's nonlinear function: a pure function of (spec, x) [and of the matrix for kind 2].
/// Returns the output and the sequence of writes that produces it.
/// `ein` and `eout` are the units of argument and result.
pub fn eval(f: FSpec, x: &[u64], lin: &[u64], n: usize, ein: i32, eout: i32) -> (Vec<u64>, Vec<(usize, u64)>) {
    let mut out = Vec::with_capacity(n);
    let s = x.len();
    if f.kind == 2 {
        for i in 0..n {
            let mut t = Dyn(0);
            for j in 0..s {
                t = t + Dyn(lin[i * s + j]) * Dyn(x[j]);
            }
            out.push(t.0);
        }
    } else if mode() == Mode::GF {
        let x: Vec<u64> = x.iter().map(|v| v & 0xffff_ffff).collect();
        for i in 0..n {
            let mut r = Rng::new(hash2(f.seed, i as u64));
            if f.kind == 1 {
                out.push(if i < s { x[i] } else { 0 });
                continue;
            }
            let mut t = r.below(P);
            for v in &x {
                if r.chance(600) {
                    t = gf::add(t, gf::mul(r.below(P), *v));
                }
            }
            let (a, b) = (x[r.idx(s)], x[r.idx(s)]);
            t = gf::add(t, gf::mul(r.below(P), gf::mul(a, b)));
            out.push(t);
        }
    } else {
        let xf: Vec<f64> = x.iter().map(|v| to_f64(*v) * exp2(-ein)).collect();
        let so = exp2(eout);
        for i in 0..n {
            let mut r = Rng::new(hash2(f.seed, i as u64));
            let v = match f.kind {
                1 => xf.get(i).copied().unwrap_or(0.0),
                3 => match r.below(4) {
                    0 => f64::INFINITY,
                    1 => f64::NEG_INFINITY,
                    2 => r.s(),
                    _ => f64::NAN,
                },
                _ => {
                    let mut t = r.s();
                    for v in &xf {
                        if r.chance(600) {
                            t += r.s() * (v + r.s()).clamp(-20.0, 20.0) / (s as f64);
                        }
                    }
                    let (a, b) = (xf[r.idx(s)], xf[r.idx(s)]);
                    let q = a * b;
                    // rational, so that it is the same on every machine
                    t + r.s() * q / (1.0 + q.abs())
                }
            };
            let v = if f.kind != 3 && !v.is_finite() { f64::NAN } else { v * so };
            out.push(from_f64(if mode().is_fx() && !v.is_finite() { 0.0 } else { v }).0);
        }
    }
    // write in some order, sometimes revising an element
    let mut order: Vec<(usize, u64)> = vec![];
    let mut r = Rng::new(f.seed ^ 0x0DE5);
    let mut idx: Vec<usize> = (0..n).collect();
    if r.chance(500) {
        r.shuffle(&mut idx);
    }
    if r.chance(250) && n > 0 {
        let j = r.idx(n);
        order.push((j, from_f64(1.0).0));
    }
    order.extend(idx.into_iter().map(|i| (i, out[i])));
    (out, order)
}

pub fn show_vec(m: Mode, v: &[u64]) -> String {
    with_mode(m, || {
        let mut s: Vec<String> = v.iter().take(12).map(|b| show(*b)).collect();
        if v.len() > 12 {
            s.push("...".into());
        }
        format!("[{}]", s.join(", "))
    })
}

pub fn first_diff(a: &[u64], b: &[u64]) -> Option<usize> {
    (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i))
}

/// Requires bit-identical estimates.
pub fn same(
    what: &str,
    at: &str,
    m: Mode,
    a: &(Vec<u64>, Vec<u64>),
    b: &(Vec<u64>, Vec<u64>),
) -> Res<()> {
    for (n, a, b) in [("x", &a.0, &b.0), ("P", &a.1, &b.1)] {
        if let Some(i) = first_diff(a, b) {
            let (va, vb) = (a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0));
            return fail(
                format!("{what}-{n}"),
                format!(
                    "{what}: {n}[{i}] differs {at}: {} vs {}",
                    with_mode(m, || show(va)),
                    with_mode(m, || show(vb))
                ),
            );
        }
    }
    Ok(())
}
