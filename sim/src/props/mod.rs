//! One module per group of properties: how runs are generated and how they are judged.

use crate::exec::*;
use crate::plan::*;
use crate::reference::{self as rf, Corr, Num, Out, F, G, M};
use crate::rng::Rng;
use crate::scalar::*;

pub mod bitwise;
pub mod concur;
pub mod faults;
pub mod refine;
pub mod stable;
pub mod symmetry;
pub mod algebra;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub gen: fn(&mut Rng, u64) -> Plan,
    pub run: fn(&Plan, &mut Obs) -> Res<()>,
    /// Simulated runs per tier.
    pub quick: u64,
    pub thorough: u64,
    /// What counts as non-trivial.
    pub rule: &'static str,
    pub nontrivial: fn(&Obs) -> bool,
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(refine::props());
    v.extend(faults::props());
    v.extend(bitwise::props());
    v.extend(concur::props());
    v.extend(algebra::props());
    v.extend(stable::props());
    v.extend(symmetry::props());
    v.sort_by_key(|p| p.id);
    v
}

pub type XP = (Vec<u64>, Vec<u64>);

/// What the reference model says about a step that has just been executed.
pub fn expect<N: Num>(l: &Live, x: &M<N>, p: &M<N>, op: &Op, rec: &StepRec) -> Corr<N> {
    let slot = match op {
        Op::Correct(i, _) | Op::CorrectNl(i, ..) => Slot::Z(*i),
        _ => Slot::X,
    };
    let fx = rec.calls.last().map(|c| l.plain::<N>(slot, &c.1));
    let lam = |v: &V| N::of(v.to_dyn().0);
    match op {
        Op::Predict | Op::PredictNl(_) => {
            Corr::Applied(rf::predict(x, p, &l.nmat(Slot::A), &l.nmat(Slot::Q), None, fx.as_ref()))
        }
        Op::PredictT(v) | Op::PredictTNl(v, _) => Corr::Applied(rf::predict(
            x,
            p,
            &l.nmat(Slot::A),
            &l.nmat(Slot::Q),
            Some(lam(v)),
            fx.as_ref(),
        )),
        Op::Control(j, _) => Corr::Applied(rf::control(
            x,
            p,
            &l.nmat(Slot::B(*j)),
            &l.nmat(Slot::U(*j)),
            &l.nmat(Slot::Qc(*j)),
        )),
        Op::Correct(i, _) | Op::CorrectNl(i, ..) => rf::correct(
            x,
            p,
            &l.nmat(Slot::H(*i)),
            &l.nmat(Slot::R(*i)),
            &l.nmat(Slot::Z(*i)),
            fx.as_ref(),
        ),
        _ => unreachable!("harness: not a step"),
    }
}

/// Compares the real estimate with the reference's.
fn near<N: Num>(l: &Live, s: Slot, op: &Op, bits: &[u64], want: &M<N>, tol: f64) -> Res<()> {
    let what = s.text();
    let what = if s == Slot::X { "x" } else { what.as_str() };
    let got = l.plain::<N>(s, bits);
    for (i, (g, w)) in got.d.iter().zip(&want.d).enumerate() {
        if N::EXACT {
            if g != w {
                return fail(
                    format!("mismatch-{what}"),
                    format!("{}: {what}[{i}] is {} instead of {w:?}", opname(op), show(bits[i])),
                );
            }
        } else {
            let (g, w) = (g.val(), w.val());
            if !w.is_finite() || !tol.is_finite() || tol > 1e6 {
                return Err(Stop::Inconclusive("beyond range"));
            }
            calibrate(|| format!("{} {} {what}", l.mode.name(), opname(op)), (g - w).abs(), tol, want.max());
            if !((g - w).abs() <= tol) {
                return fail(
                    format!("mismatch-{what}"),
                    format!(
                        "{} ({}): {what}[{i}] is {g:e} instead of {w:e} (tolerance {tol:e})",
                        opname(op),
                        l.mode.name()
                    ),
                );
            }
        }
    }
    Ok(())
}

fn judge_n<N: Num>(l: &mut Live, pre: &XP, op: &Op, rec: &StepRec) -> Res<Verdict> {
    let x = l.plain::<N>(Slot::X, &pre.0);
    let p = l.plain::<N>(Slot::P, &pre.1);
    let e = expect(l, &x, &p, op, rec);
    match &rec.end {
        End::Done => {}
        e2 => {
            if matches!(e, Corr::Unclear) {
                return Err(Stop::Inconclusive("panic in ambiguous step"));
            }
            return fail("panic", format!("{} ended with {e2:?}", opname(op)));
        }
    }
    if l.mode.is_fx() && flags() & FLAG_OVERFLOW != 0 {
        return Err(Stop::Inconclusive("fixed-point overflow"));
    }
    match e {
        Corr::Applied(Out { x: wx, p: wp, ex, ep }) => {
            let (gx, gp) = l.xp();
            near(l, Slot::X, op, &gx, &wx, ex)?;
            near(l, Slot::P, op, &gp, &wp, ep)?;
            Ok(Verdict::Applied)
        }
        Corr::Rejected => {
            let post = l.xp();
            same("reject", &format!("after {}", opname(op)), l.mode, &post, pre)?;
            Ok(Verdict::Rejected)
        }
        Corr::Unclear => Ok(Verdict::Unclear),
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Verdict {
    Applied,
    Rejected,
    Unclear,
}

/// One-step refinement: was the transition from `pre` to the present estimate the one the
/// reference model prescribes?
pub fn judge(l: &mut Live, pre: &XP, op: &Op, rec: &StepRec, obs: &mut Obs) -> Res<Verdict> {
    set_mode(l.mode);
    obs.checks += 1;
    if l.mode == Mode::GF {
        judge_n::<G>(l, pre, op, rec)
    } else {
        judge_n::<F>(l, pre, op, rec)
    }
}

/// Number of scalar operations a step takes, measured on a throw-away copy.
pub fn measure(l: &mut Live, op: &Op) -> u64 {
    let mut c = Live::bare(l.mode, RigKind::Arena, cfg_of(l), l.ext, 0, 0, l.units);
    c.adopt(l);
    c.load(op);
    c.step(op, StepOpt::default()).ticks
}

pub fn cfg_of(l: &Live) -> usize {
    crate::rig::CONFIGS.iter().position(|d| d.s == l.dims.s && d.o == l.dims.o).expect("harness: configuration")
}

/// Executes a step without injected faults.
pub fn go(l: &mut Live, op: &Op, obs: &mut Obs) -> StepRec {
    l.load(op);
    clear_flags();
    let r = l.step(op, StepOpt::default());
    obs.steps += 1;
    obs.ticks += r.ticks;
    r
}

/// Makes a step and undoes it: estimate, covariance and payload are put back. With an odd `kind` the
/// step is made on another filter's estimate, as if the sensor were shared with that filter.
pub fn excursion(l: &mut Live, op: &Op, kind: u32, obs: &mut Obs) -> Res<()> {
    let (x, p) = l.xp();
    let payload = match op {
        Op::Control(j, _) => Some(Slot::U(*j)),
        Op::Correct(i, _) | Op::CorrectNl(i, ..) => Some(Slot::Z(*i)),
        _ => None,
    }
    .map(|s| (s, l.input(s)));
    if kind % 2 == 1 {
        let fx: Vec<u64> = x.iter().rev().copied().collect();
        l.set_bits(Slot::X, &fx);
        if l.mode.is_float() {
            let fp: Vec<u64> = p.iter().map(|b| ldexp(Dyn(*b), 1).0).collect();
            l.set_bits(Slot::P, &fp);
        }
        obs.fault("component_lent_to_other_filter");
    } else {
        obs.fault("speculative_step_undone");
    }
    let r = go(l, op, obs);
    if r.end != End::Done && !l.mode.is_fx() {
        return faults::panic_of(op, &r.end);
    }
    if let Some((s, v)) = payload {
        l.set_bits(s, &v);
    }
    l.set_bits(Slot::X, &x);
    l.set_bits(Slot::P, &p);
    Ok(())
}

/// Inserts steps that are undone again.
pub fn add_excursions(r: &mut Rng, n: &mut Node, rate: u64) {
    let mut out: Vec<Ev> = vec![];
    let steps: Vec<Op> = n.evs.iter().filter(|e| e.op.is_step()).map(|e| e.op.clone()).take(200).collect();
    for e in n.evs.drain(..) {
        if !steps.is_empty() && r.chance(rate) {
            // often the very step that follows, or one with the same payload
            let op = if e.op.is_step() && r.chance(500) { e.op.clone() } else { r.pick(&steps).clone() };
            out.push(Ev { t: e.t, op, fault: Some(Fault::Undo(r.below(2) as u32)) });
        }
        out.push(e);
    }
    n.evs = out;
}

/// Sets the simulated-time and schedule part of the observations.
pub fn account(plan: &Plan, obs: &mut Obs) {
    for n in &plan.nodes {
        obs.shape(n.mode as u64 | (n.cfg as u64) << 8 | (n.rig as u64) << 16 | (n.ext as u64) << 24 | (n.layout as u64) << 32);
        obs.shape(n.api as u64);
        for k in [n.units.s, n.units.o[0], n.units.o[1], n.units.o[2], n.units.c[0], n.units.c[1]] {
            obs.shape(k as u64);
        }
        for e in &n.evs {
            obs.shape(e.op.code());
            match &e.fault {
                None => {}
                Some(Fault::Trap(p)) => obs.shape(0x1000 + *p as u64),
                Some(Fault::CbFail(p)) => obs.shape(0x2000 + *p as u64),
                Some(Fault::Extra) => obs.shape(0x3000),
                Some(Fault::Undo(k)) => obs.shape(0x4000 + *k as u64),
            }
        }
        if let (Some(a), Some(b)) = (n.evs.first(), n.evs.last()) {
            obs.sim_us = obs.sim_us.max(b.t - a.t);
        }
    }
    for s in &plan.sched {
        obs.shape(*s);
    }
    for (k, v) in &plan.params {
        obs.shape(k.len() as u64 ^ (*v as u64) << 8);
    }
}

pub fn node0(plan: &Plan) -> Res<&Node> {
    plan.nodes.first().ok_or(Stop::Inconclusive("empty plan"))
}

/// Covariances in a plan must be symmetric: a minimised plan may not leave that domain.
pub fn well_formed(plan: &Plan) -> Res<()> {
    let ok = plan.nodes.iter().all(|n| {
        let d = crate::rig::CONFIGS[n.cfg];
        let sets = n.evs.iter().filter_map(|e| match &e.op {
            Op::Set(s, v) => Some((s, v)),
            _ => None,
        });
        n.init.iter().map(|(s, v)| (s, v)).chain(sets).all(|(s, v)| {
            let k = match s {
                Slot::P | Slot::Q => d.s,
                Slot::R(i) => d.o[*i as usize],
                Slot::Qc(j) => d.c[*j as usize],
                _ => return true,
            };
            v.len() == k * k && (0..k).all(|i| (0..i).all(|j| v[i * k + j] == v[j * k + i]))
        })
    });
    if ok {
        Ok(())
    } else {
        Err(Stop::Inconclusive("malformed plan"))
    }
}

/// Bit-exact comparison of the configuration in the filter's own buffers with what was written.
pub fn inputs_intact(l: &mut Live, after: &str) -> Res<()> {
    let slots: Vec<Slot> = l.inputs.keys().copied().collect();
    for s in slots {
        let have = l.get(s);
        let want = l.input(s);
        if let Some(i) = first_diff(&have, &want) {
            return fail(
                format!("input-modified-{}", &s.text()[..1]),
                format!(
                    "{}[{i}] changed from {} to {} {after}",
                    s.text(),
                    show_vec(l.mode, &want[i..i + 1]),
                    show_vec(l.mode, &have[i..i + 1])
                ),
            );
        }
    }
    Ok(())
}

/// With KALMAN_SIM_CAL set, records how much of each tolerance is used (for development only).
pub fn calibrate(what: impl Fn() -> String, err: f64, tol: f64, mag: f64) {
    use std::sync::{Mutex, OnceLock};
    static ON: OnceLock<bool> = OnceLock::new();
    static MAX: Mutex<std::collections::BTreeMap<String, (f64, f64, u64, f64)>> = Mutex::new(std::collections::BTreeMap::new());
    if !*ON.get_or_init(|| std::env::var_os("KALMAN_SIM_CAL").is_some()) {
        return;
    }
    let mut m = MAX.lock().unwrap();
    let e = m.entry(what()).or_insert((0.0, 0.0, 0, 0.0));
    e.2 += 1;
    // how blunt the check is: tolerance relative to the data
    e.3 += (tol / (1e-30 + mag)).min(1.0);
    let r = err / tol;
    if r > e.0 {
        *e = (r, err, e.2, e.3);
        eprintln!("cal {} used={r:.4} err={err:.2e} n={} blunt={:.1e}", what(), e.2, e.3 / e.2 as f64);
    }
}
