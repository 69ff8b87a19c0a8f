//! C01, C02, C16: step-by-step refinement of the textbook recursion over simulated histories.

use super::*;
use crate::gen::{self, Prof};
use crate::storage::L_DIRTY;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            title: "linear filter refines the textbook recursion",
            gen: |r, s| {
                let p = Prof { ckpt: true, crash: true, marathon: true, huge: gen::Huge::Exact, ..Prof::default() };
                {
                    let pl = gen::simple(r, "C01", s, &p);
                    with_traps(r, pl)
                }
            },
            run: run_refine,
            quick: 400_000,
            thorough: 12_000_000,
            rule: "a run is one simulated deployment history of one filter; non-trivial: at least 3 steps were judged against the reference",
            nontrivial: |o| o.checks >= 3,
        },
        Prop {
            id: "C02",
            title: "extended filter refines the textbook recursion",
            gen: |r, s| {
                let p = Prof { ext: 1000, marathon: true, huge: gen::Huge::Exact, ckpt: true, crash: true, ..Prof::default() };
                {
                    let pl = gen::simple(r, "C02", s, &p);
                    with_traps(r, pl)
                }
            },
            run: run_refine,
            quick: 400_000,
            thorough: 12_000_000,
            rule: "a run is one simulated deployment history of one extended filter; non-trivial: at least 3 steps were judged against the reference",
            nontrivial: |o| o.checks >= 3,
        },
        Prop {
            id: "C16",
            title: "every numeric backend tracks the recursion within its precision",
            gen: |r, s| {
                let mut modes = vec![(3, Mode::F32), (3, Mode::F64)];
                if cfg!(feature = "fixed") {
                    modes.extend([(2, Mode::FX32), (2, Mode::FX16)]);
                }
                let p = Prof { ext: 350, ckpt: true, crash: true, modes, ..Prof::default() };
                {
                    let pl = gen::simple(r, "C16", s, &p);
                    with_traps(r, pl)
                }
            },
            run: run_refine,
            quick: 100_000,
            thorough: 3_600_000,
            rule: "a run is one simulated deployment history of one filter in one numeric backend; non-trivial: at least 3 steps were judged against the reference",
            nontrivial: |o| o.checks >= 3,
        },
    ]
}

/// Power loss in the middle of some steps.
pub fn with_traps(r: &mut Rng, mut p: Plan) -> Plan {
    if r.chance(250) {
        for n in &mut p.nodes {
            for e in &mut n.evs {
                if e.op.is_step() && r.chance(60) {
                    e.fault = Some(Fault::Trap(r.below(1001) as u32));
                }
            }
        }
    }
    p
}

pub fn run_refine(plan: &Plan, obs: &mut Obs) -> Res<()> {
    well_formed(plan)?;
    for n in &plan.nodes {
        set_mode(n.mode);
        let mut l = Live::new(n);
        // the reference's own state: independent of the filter for the whole history in GF
        let mut model = l.xp();
        let mut ckpt = model.clone();
        let restart = |l: &mut Live, ckpt: &XP, t: u64| {
            let mut f = Live::bare(n.mode, n.rig, n.cfg, n.ext, n.api, n.layout | L_DIRTY, n.units);
            f.scribble((t % 4) as u8, t);
            let ins: Vec<Slot> = l.inputs.keys().copied().collect();
            for s in ins {
                f.set_bits(s, &l.input(s));
            }
            f.set_bits(Slot::X, &ckpt.0);
            f.set_bits(Slot::P, &ckpt.1);
            *l = f;
        };
        for e in &n.evs {
            if !l.valid(&e.op) {
                return Err(Stop::Inconclusive("malformed plan"));
            }
            match &e.op {
                Op::Set(s, v) => {
                    l.set(*s, v);
                    match s {
                        Slot::X => model.0 = l.x(),
                        Slot::P => model.1 = l.p(),
                        _ => {}
                    }
                }
                Op::Ckpt => ckpt = l.xp(),
                Op::Crash => {
                    obs.fault("crash_between_steps");
                    restart(&mut l, &ckpt, e.t);
                    model = ckpt.clone();
                }
                op if op.is_step() => {
                    if let Some(Fault::Trap(pm)) = e.fault {
                        let total = measure(&mut l, op);
                        l.load(op);
                        let at = (total * pm as u64 / 1000).max(1);
                        let r = l.step(op, StepOpt { trap_at: Some(at), ..Default::default() });
                        match r.end {
                            End::Trapped => {
                                obs.fault("crash_inside_step");
                                restart(&mut l, &ckpt, e.t);
                                model = ckpt.clone();
                                continue;
                            }
                            End::Done => {}
                            e2 => return fail("panic", format!("{} ended with {e2:?}", opname(op))),
                        }
                        judge(&mut l, &model, op, &r, obs)?;
                    } else {
                        let rec = go(&mut l, op, obs);
                        if n.ext {
                            once_on_prior(&rec, op, &model.0)?;
                        }
                        let v = judge(&mut l, &model, op, &rec, obs)?;
                        if v == Verdict::Rejected {
                            obs.fault("unusable_report_rejected");
                        }
                    }
                    let post = l.xp();
                    obs.see(&post.0);
                    obs.see(&post.1);
                    model = post;
                }
                _ => return Err(Stop::Inconclusive("malformed plan")),
            }
        }
    }
    Ok(())
}

/// The user's function is evaluated exactly once, on the estimate before the step.
pub fn once_on_prior(rec: &StepRec, op: &Op, pre_x: &[u64]) -> Res<()> {
    if rec.end != End::Done {
        return Ok(());
    }
    if rec.calls.len() != 1 {
        return fail(
            "callback-count",
            format!("{} evaluated the user function {} times", opname(op), rec.calls.len()),
        );
    }
    if first_diff(&rec.calls[0].0, pre_x).is_some() {
        return fail(
            "callback-argument",
            format!("{} evaluated the user function at a point other than the estimate before the step", opname(op)),
        );
    }
    Ok(())
}
