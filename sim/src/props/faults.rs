//! C03 callback failures, C04 crash/restart, C05 scratch garbage, C06 write containment,
//! C07 no heap, C12 unusable reports, C13 corrupted payloads, C18 bounded work.

use super::*;
use crate::gen::{self, Prof};
use crate::rig;
use crate::storage::*;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            title: "a failing user callback leaves the filter untouched",
            gen: gen_c03,
            run: run_c03,
            quick: 300_000,
            thorough: 9_000_000,
            rule: "a run is one simulated history of one extended filter with failing callbacks; non-trivial: at least one injected callback failure fired",
            nontrivial: |o| o.faults.contains_key("callback_failure"),
        },
        Prop {
            id: "C04",
            title: "estimate and covariance are the complete state",
            gen: gen_c04,
            run: run_c04,
            quick: 240_000,
            thorough: 7_200_000,
            rule: "a run is one history with crashes at arbitrary scalar operations, recovered from checkpoint and log; non-trivial: at least one crash fired and at least one step was replayed",
            nontrivial: |o| {
                (o.faults.contains_key("crash_inside_step") || o.faults.contains_key("crash_between_steps"))
                    && o.faults.contains_key("log_replayed_step")
            },
        },
        Prop {
            id: "C05",
            title: "scratch contents never matter",
            gen: gen_c05,
            run: run_c05,
            quick: 300_000,
            thorough: 9_000_000,
            rule: "a run is one history executed twice, on clean and on abused scratch memory; non-trivial: at least one corruption fired and at least one step was compared",
            nontrivial: |o| {
                o.checks > 0
                    && (o.faults.contains_key("scratch_overwritten")
                        || o.faults.contains_key("scratch_left_by_aborted_step")
                        || o.faults.contains_key("power_on_garbage")
                        || o.faults.contains_key("scratch_shared_between_components"))
            },
        },
        Prop {
            id: "C06",
            title: "steps write nothing but the estimate and their own scratch",
            gen: gen_c06,
            run: run_c06,
            quick: 280_000,
            thorough: 8_400_000,
            rule: "a run is one history of one filter, all memory outside the permitted regions compared after every (complete or aborted) step; non-trivial: at least 3 steps were checked",
            nontrivial: |o| o.checks >= 3,
        },
        Prop {
            id: "C07",
            title: "steps never touch the heap",
            gen: gen_c07,
            run: run_c07,
            quick: 600_000,
            thorough: 18_000_000,
            rule: "a run is one history of one filter with the allocator seam armed during every step; non-trivial: at least 3 steps were checked",
            nontrivial: |o| o.checks >= 3,
        },
        Prop {
            id: "C12",
            title: "unusable reports are rejected without effect",
            gen: gen_c12,
            run: run_c12,
            quick: 400_000,
            thorough: 12_000_000,
            rule: "a run is one history with degenerate sensors injected, executed with and without them; non-trivial: at least one report was one the reference model rejects",
            nontrivial: |o| o.faults.contains_key("degenerate_report"),
        },
        Prop {
            id: "C13",
            title: "corrupted payloads never reach the covariance",
            gen: gen_c13,
            run: run_c13,
            quick: 360_000,
            thorough: 10_800_000,
            rule: "a run is one history executed with clean and with corrupted payloads in lockstep; non-trivial: at least one corrupted payload was delivered",
            nontrivial: |o| o.faults.contains_key("corrupted_payload"),
        },
        Prop {
            id: "C18",
            title: "every step finishes within a bounded number of operations",
            gen: gen_c18,
            run: run_c18,
            quick: 700_000,
            thorough: 21_000_000,
            rule: "a run is one history over arbitrary, also non-numeric data; non-trivial: at least 3 steps ran under the work limit",
            nontrivial: |o| o.checks >= 3,
        },
    ]
}

pub fn panic_of<T>(op: &Op, e: &End) -> Res<T> {
    fail("panic", format!("{} ended with {e:?}", opname(op)))
}

// ---------------------------------------------------------------------------------------- C03

fn gen_c03(r: &mut Rng, seed: u64) -> Plan {
    let mut p = gen::simple(r, "C03", seed, &Prof { asym: 250, ext: 1000, ..Prof::default() });
    let n = &mut p.nodes[0];
    let rate = 100 + r.below(500);
    let mut out = vec![];
    for e in n.evs.drain(..) {
        if e.op.is_step() && r.chance(rate) {
            let tries = if r.chance(700) { 1 } else { 2 + r.idx(3) };
            for _ in 0..tries {
                let mut f = e.clone();
                // the failing evaluation is not always the one that is retried
                if r.chance(300) {
                    if let Op::PredictNl(s) | Op::PredictTNl(_, s) | Op::CorrectNl(_, s, _) = &mut f.op {
                        s.seed ^= r.below(1000);
                    }
                }
                f.fault = Some(Fault::CbFail(match r.below(4) {
                    0 => 0,
                    1 => 1000,
                    _ => r.below(1001) as u32,
                }));
                out.push(f);
            }
            if r.chance(150) {
                continue; // given up on
            }
        }
        out.push(e);
    }
    n.evs = out;
    p
}

fn run_c03(plan: &Plan, obs: &mut Obs) -> Res<()> {
    let n = node0(plan)?;
    set_mode(n.mode);
    let mut l = Live::new(n);
    let mut g = Live::new(n);
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        match (&e.op, &e.fault) {
            (Op::Set(s, v), _) => {
                l.set(*s, v);
                g.set(*s, v);
            }
            (op, Some(Fault::CbFail(pm))) if op.is_step() => {
                let pre = l.xp();
                l.load(op);
                let r = l.step(op, StepOpt { cb_fail: Some(*pm), ..Default::default() });
                obs.steps += 1;
                obs.ticks += r.ticks;
                match &r.end {
                    End::CbFailed => {}
                    End::Done if r.calls.is_empty() => {
                        return fail("callback-count", format!("{} never evaluated the user function", opname(op)))
                    }
                    End::Done => return fail("failure-swallowed", format!("{} hid the failure of the user function", opname(op))),
                    e => return panic_of(op, e),
                }
                obs.fault("callback_failure");
                obs.checks += 1;
                let at = format!("across {} whose user function failed", opname(op));
                same("atomicity", &at, n.mode, &l.xp(), &pre)?;
                inputs_intact(&mut l, &at)?;
                if r.calls.len() != 1 {
                    return fail("callback-count", format!("{} evaluated the failing user function {} times", opname(op), r.calls.len()));
                }
            }
            (op, _) if op.is_step() => {
                let r = go(&mut l, op, obs);
                let q = go(&mut g, op, obs);
                if r.end != q.end {
                    return fail("usability", format!("{} after failures ended with {:?}, without them with {:?}", opname(op), r.end, q.end));
                }
                if r.end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
                obs.checks += 1;
                let (a, b) = (l.xp(), g.xp());
                same("retry", &format!("after {} following earlier failures", opname(op)), n.mode, &a, &b)?;
                obs.see(&a.0);
                obs.see(&a.1);
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C04

fn gen_c04(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(450) { 1000 } else { 0 };
    let mut p = gen::simple(r, "C04", seed, &Prof { huge: gen::Huge::Any, marathon: true, asym: 250, ext, ckpt: true, ..Prof::default() });
    p.params.insert("restart".into(), r.below(3) as i64);
    p.params.insert("backend".into(), r.below(1 << 24) as i64);
    let n = &mut p.nodes[0];
    let spec = if n.evs.len() < 2000 && r.chance(300) { 1 + r.below(300) } else { 0 };
    let crashes = 1 + r.idx(4);
    let steps: Vec<usize> = (0..n.evs.len()).filter(|i| n.evs[*i].op.is_step()).collect();
    if steps.is_empty() {
        return p;
    }
    for _ in 0..crashes {
        let i = *r.pick(&steps);
        n.evs[i].fault = Some(match r.below(5) {
            0 => Fault::Extra, // power loss just before this step
            1 => Fault::Trap(1000),
            _ => Fault::Trap(r.below(1001) as u32),
        });
        // and sometimes again while recovering
        if r.chance(300) {
            let back = r.idx(6).min(i);
            p.sched.push(n.evs[i - back].t);
            p.sched.push(r.below(1001));
        }
    }
    if spec > 0 {
        add_excursions(r, n, spec);
    }
    p
}

fn run_c04(plan: &Plan, obs: &mut Obs) -> Res<()> {
    let n = node0(plan)?;
    set_mode(n.mode);
    let mut g = Live::new(n);
    let mut trace: Vec<XP> = vec![];
    let mut ticks: Vec<u64> = vec![];
    for e in &n.evs {
        if !g.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        let mut t = 0;
        match &e.op {
            _ if matches!(e.fault, Some(Fault::Undo(_))) => {}
            Op::Set(s, v) => g.set(*s, v),
            Op::Ckpt => {}
            op if op.is_step() => {
                let r = go(&mut g, op, obs);
                if r.end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
                t = r.ticks;
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
        trace.push(g.xp());
        ticks.push(t);
    }
    let restart = plan.params.get("restart").copied().unwrap_or(0);
    let backend = plan.params.get("backend").copied().unwrap_or(0) as u64;
    let mut l = Live::new(n);
    struct Ckpt {
        next: usize,
        xp: XP,
        inputs: BTreeMap<Slot, Vec<u64>>,
    }
    let snap = |l: &mut Live, next: usize| Ckpt {
        next,
        xp: l.xp(),
        inputs: l.inputs.iter().map(|(s, v)| (*s, v.iter().map(|d| d.0).collect())).collect(),
    };
    let mut ck = snap(&mut l, 0);
    let mut fired: BTreeMap<u64, u32> = BTreeMap::new();
    let mut high = 0;
    let mut i = 0;
    let mut restarts = 0u64;
    while i < n.evs.len() {
        let e = &n.evs[i];
        let mut crash = false;
        let mut done = false;
        if let Some(Fault::Undo(k)) = e.fault {
            excursion(&mut l, &e.op, k, obs)?;
            done = true;
        } else if e.op.is_step() {
            let k = fired.get(&e.t).copied().unwrap_or(0);
            let cut = match (&e.fault, k) {
                (Some(Fault::Trap(p)), 0) => Some(*p),
                (Some(Fault::Extra), 0) => {
                    crash = true;
                    None
                }
                _ if restarts > 0 && k < 3 => plan
                    .sched
                    .chunks(2)
                    .filter(|c| c.len() == 2 && c[0] == e.t)
                    .nth((k as usize).saturating_sub(e.fault.is_some() as usize))
                    .map(|c| c[1] as u32),
                _ => None,
            };
            if crash {
                obs.fault("crash_between_steps");
                *fired.entry(e.t).or_default() += 1;
            }
            if let Some(pm) = cut {
                *fired.entry(e.t).or_default() += 1;
                l.load(&e.op);
                let at = (ticks[i] * pm as u64 / 1000).max(1);
                let r = l.step(&e.op, StepOpt { trap_at: Some(at), ..Default::default() });
                match r.end {
                    End::Trapped => {
                        obs.fault(if i < high { "crash_while_recovering" } else { "crash_inside_step" });
                        crash = true;
                    }
                    End::Done => done = true,
                    e2 => return panic_of(&e.op, &e2),
                }
            }
        }
        if crash {
            restarts += 1;
            high = high.max(i);
            match restart {
                1 => {
                    // warm restart: same object, scratch as the crash left it
                    obs.fault("warm_restart");
                }
                2 => {
                    let kinds = rig::kinds(n.cfg);
                    let k = kinds[(backend + restarts) as usize % kinds.len()];
                    l = Live::bare(n.mode, k, n.cfg, n.ext, (backend >> 4) as u32 & rig::API_ALL, L_DIRTY | (backend as u32 & 3), n.units);
                    obs.fault("restart_on_other_backend");
                }
                _ => {
                    l = Live::bare(n.mode, n.rig, n.cfg, n.ext, n.api, n.layout | L_DIRTY, n.units);
                    l.scribble((restarts % 3) as u8, e.t);
                    obs.fault("cold_restart");
                }
            }
            for (s, v) in &ck.inputs {
                l.set_bits(*s, v);
            }
            l.set_bits(Slot::X, &ck.xp.0);
            l.set_bits(Slot::P, &ck.xp.1);
            i = ck.next;
            continue;
        }
        if !done {
            match &e.op {
                Op::Set(s, v) => l.set(*s, v),
                Op::Ckpt => ck = snap(&mut l, i + 1),
                op => {
                    let r = go(&mut l, op, obs);
                    if r.end != End::Done {
                        return fail("panic-after-restart", format!("{} after recovery ended with {:?}", opname(op), r.end));
                    }
                    if restarts > 0 && i <= high {
                        obs.fault("log_replayed_step");
                    }
                }
            }
        }
        obs.checks += 1;
        let a = l.xp();
        same("recovery", &format!("from the uninterrupted run after {} (event {})", opname(&e.op), e.t), n.mode, &a, &trace[i])?;
        obs.see(&a.0);
        i += 1;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C05

fn gen_c05(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(400) { 1000 } else { 0 };
    let mut p = gen::simple(r, "C05", seed, &Prof { huge: gen::Huge::Any, asym: 250, ext, arena_only: true, ..Prof::default() });
    let n = &mut p.nodes[0];
    if rig::kinds(n.cfg).contains(&RigKind::Slice) && r.chance(300) {
        n.rig = RigKind::Slice;
    }
    let rate = r.below(500);
    let cut = if r.chance(400) { r.below(300) } else { 0 };
    let mut out = vec![];
    for mut e in n.evs.drain(..) {
        if r.chance(rate) {
            out.push(Ev { t: e.t, op: Op::Scribble(r.below(5) as u8, r.below(1 << 32)), fault: Some(Fault::Extra) });
        }
        if e.op.is_step() && r.chance(cut) {
            e.fault = Some(Fault::Trap(r.below(1001) as u32));
        }
        out.push(e);
    }
    n.evs = out;
    if n.evs.len() < 2000 && r.chance(300) {
        let rate = 1 + r.below(300);
        add_excursions(r, n, rate);
    }
    p
}

fn run_c05(plan: &Plan, obs: &mut Obs) -> Res<()> {
    let n = node0(plan)?;
    set_mode(n.mode);
    let mut g = Live::with(n, n.rig, n.api, n.layout & !(L_DIRTY | L_SHARE));
    g.scribble(3, 0);
    let mut l = Live::new(n);
    if n.layout & L_DIRTY != 0 {
        obs.fault("power_on_garbage");
    }
    if n.layout & L_SHARE != 0 {
        obs.fault("scratch_shared_between_components");
    }
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        match &e.op {
            Op::Scribble(k, s) => {
                if l.scribble(*k, *s) {
                    obs.fault("scratch_overwritten");
                }
            }
            Op::Set(s, v) => {
                l.set(*s, v);
                g.set(*s, v);
            }
            op if op.is_step() && matches!(e.fault, Some(Fault::Undo(_))) => {
                let Some(Fault::Undo(k)) = e.fault else { unreachable!() };
                excursion(&mut l, op, k, obs)?;
            }
            op if op.is_step() => {
                let q = go(&mut g, op, obs);
                if q.end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
                if let Some(Fault::Trap(pm)) = e.fault {
                    let pre = l.xp();
                    l.load(op);
                    let at = (q.ticks * pm as u64 / 1000).max(1);
                    let r = l.step(op, StepOpt { trap_at: Some(at), ..Default::default() });
                    if let End::Panicked(_) = r.end {
                        return panic_of(op, &r.end);
                    }
                    obs.fault("scratch_left_by_aborted_step");
                    l.set_bits(Slot::X, &pre.0);
                    l.set_bits(Slot::P, &pre.1);
                }
                let r = go(&mut l, op, obs);
                if r.end != End::Done {
                    return fail("panic-on-garbage", format!("{} on used scratch ended with {:?}", opname(op), r.end));
                }
                obs.checks += 1;
                let (a, b) = (l.xp(), g.xp());
                same("scratch", &format!("between abused and clean scratch after {}", opname(op)), n.mode, &a, &b)?;
                obs.see(&a.0);
                obs.see(&a.1);
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C06

fn gen_c06(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(400) { 1000 } else { 0 };
    let mut p = gen::simple(r, "C06", seed, &Prof { huge: gen::Huge::Any, asym: 250, ext, ..Prof::default() });
    let n = &mut p.nodes[0];
    if r.chance(600) {
        n.rig = RigKind::Arena;
    }
    let cut = if r.chance(500) { r.below(400) } else { 0 };
    let cb = if r.chance(400) { r.below(300) } else { 0 };
    let bad = if r.chance(400) && !n.mode.is_fx() { r.below(300) } else { 0 };
    for e in &mut n.evs {
        if !e.op.is_step() {
            continue;
        }
        if r.chance(cut) {
            e.fault = Some(Fault::Trap(r.below(1001) as u32));
        } else if n.ext && r.chance(cb) {
            e.fault = Some(Fault::CbFail(r.below(1001) as u32));
        }
        if r.chance(bad) {
            corrupt(r, &mut e.op);
        }
    }
    degenerate(r, n, 60);
    p
}

struct Shot {
    mem: Vec<u64>,
    writable: Vec<bool>,
}

fn shoot(l: &mut Live, op: &Op) -> Option<Shot> {
    let a = l.rig.arena()?;
    let mem: Vec<u64> = a.slice().iter().map(|d| d.0).collect();
    let mut w = vec![false; mem.len()];
    let own = match op {
        Op::Control(j, _) => Comp::Ctl(*j),
        Op::Correct(i, _) | Op::CorrectNl(i, ..) => Comp::Obs(*i),
        _ => Comp::Filter,
    };
    for r in &a.regions {
        let n = match r.name {
            Name::X | Name::P => r.len,
            nm if nm.scratch_of() == Some(own) => r.total,
            _ => continue,
        };
        w[r.start..r.start + n].fill(true);
    }
    Some(Shot { mem, writable: w })
}

fn run_c06(plan: &Plan, obs: &mut Obs) -> Res<()> {
    let n = node0(plan)?;
    set_mode(n.mode);
    let mut l = Live::new(n);
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        match &e.op {
            Op::Set(s, v) => l.set(*s, v),
            op if op.is_step() => {
                let pre = l.xp();
                let mut o = StepOpt::default();
                if let Some(Fault::Trap(pm)) = e.fault {
                    let total = measure(&mut l, op);
                    o.trap_at = Some((total * pm as u64 / 1000).max(1));
                }
                if let Some(Fault::CbFail(pm)) = e.fault {
                    o.cb_fail = Some(pm);
                }
                l.load(op);
                let shot = shoot(&mut l, op);
                let r = l.step(op, o);
                obs.steps += 1;
                obs.ticks += r.ticks;
                let how = match &r.end {
                    End::Done => "by",
                    End::Trapped => {
                        obs.fault("crash_inside_step");
                        "by a cut short"
                    }
                    End::CbFailed => {
                        obs.fault("callback_failure");
                        "by a failed"
                    }
                    _ => "by a panicking",
                };
                obs.checks += 1;
                let what = format!("{how} {}", opname(op));
                inputs_intact(&mut l, &what)?;
                if let Some(s) = shot {
                    let a = l.rig.arena().unwrap();
                    if let Some(i) = (0..s.mem.len()).find(|i| !s.writable[*i] && a.slice()[*i].0 != s.mem[*i]) {
                        let place = a
                            .regions
                            .iter()
                            .find(|r| i >= r.start && i < r.start + r.total)
                            .map(|r| format!("{:?}+{} (declared size {})", r.name, i - r.start, r.len))
                            .unwrap_or("unowned memory".into());
                        return fail("stray-write", format!("{place} was modified {what}"));
                    }
                }
                match r.end {
                    End::Done => {
                        // corrupted data may have made the estimate useless; carry on with a reset one
                        let post = l.xp();
                        obs.see(&post.0);
                        if n.mode.is_float() && !(l.plain::<F>(Slot::X, &post.0).max().max(l.plain::<F>(Slot::P, &post.1).max()) < 1e12) {
                            l.set_bits(Slot::X, &pre.0);
                            l.set_bits(Slot::P, &pre.1);
                        }
                    }
                    End::Panicked(_) => return Err(Stop::Inconclusive("step panics on its own")),
                    _ => {
                        l.set_bits(Slot::X, &pre.0);
                        l.set_bits(Slot::P, &pre.1);
                    }
                }
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C07

fn gen_c07(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(400) { 1000 } else { 0 };
    let mut p = gen::simple(r, "C07", seed, &Prof { huge: gen::Huge::Any, asym: 250, ext, ..Prof::default() });
    let n = &mut p.nodes[0];
    let bad = if r.chance(400) && n.mode.is_float() { r.below(300) } else { 0 };
    for e in &mut n.evs {
        if e.op.is_step() && r.chance(bad) {
            corrupt(r, &mut e.op);
        }
    }
    degenerate(r, n, 80);
    if r.chance(200) && n.mode.is_float() {
        wild(r, n, 100);
    }
    p
}

fn run_c07(plan: &Plan, obs: &mut Obs) -> Res<()> {
    let n = node0(plan)?;
    set_mode(n.mode);
    let mut l = Live::new(n);
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        match &e.op {
            Op::Set(s, v) => l.set(*s, v),
            op if op.is_step() => {
                let r = go(&mut l, op, obs);
                if r.end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
                obs.checks += 1;
                obs.fault("allocator_withheld_during_step");
                if r.allocs != 0 {
                    return fail("heap", format!("{} made {} allocator calls", opname(op), r.allocs));
                }
                obs.see(&l.x());
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C12

/// Inserts, at some places, a sensor whose innovation covariance is not positive definite: the
/// noise (and possibly the observation) matrix is replaced, a report delivered, and the matrices
/// put back. All inserted events are marked `Extra`.
pub fn degenerate(r: &mut Rng, n: &mut Node, rate: u64) {
    let d = rig::CONFIGS[n.cfg];
    let m = n.mode;
    let mut cur: BTreeMap<Slot, Vec<V>> = n.init.iter().cloned().collect();
    let mut out: Vec<Ev> = vec![];
    let one: i64 = 1 << 20;
    for e in n.evs.drain(..) {
        if r.chance(rate) {
            let i = r.idx(3) as u8;
            let o = d.o[i as usize];
            let (h0, r0) = (cur[&Slot::H(i)].clone(), cur[&Slot::R(i)].clone());
            let (mut h, mut rr) = (h0.clone(), r0.clone());
            let k = r.idx(o);
            let k2 = r.idx(o);
            match r.below(8) {
                6 => {
                    // nearly noiseless, nearly insensitive channels
                    let (a, b) = (r.below(16) as u32, r.below(18) as u32);
                    for v in h.iter_mut() {
                        v.0 >>= a;
                    }
                    rr.fill(V(0));
                    for c in 0..o {
                        rr[c * o + c] = V((one >> b) + r.range(0, 3));
                    }
                }
                7 => {
                    // one nearly noiseless channel
                    let a = r.below(20) as u32;
                    for c in 0..o {
                        rr[k * o + c] = V(0);
                        rr[c * o + k] = V(0);
                    }
                    rr[k * o + k] = V(one >> a);
                }
                0 => {
                    // a dead channel: no sensitivity, no noise
                    for c in 0..d.s {
                        h[k * d.s + c] = V(0);
                    }
                    for c in 0..o {
                        rr[k * o + c] = V(0);
                        rr[c * o + k] = V(0);
                    }
                }
                1 => {
                    h.fill(V(0));
                    rr.fill(V(0));
                }
                2 if k != k2 => {
                    // two channels that are the same channel
                    for c in 0..d.s {
                        h[k * d.s + c] = h[k2 * d.s + c];
                    }
                    for c in 0..o {
                        rr[k * o + c] = rr[k2 * o + c];
                    }
                    for c in 0..o {
                        rr[c * o + k] = rr[c * o + k2];
                    }
                }
                3 if k != k2 => {
                    let v = V(one * r.range(10, if m.is_fx() { 20 } else { 60 }));
                    rr[k * o + k2] = v;
                    rr[k2 * o + k] = v;
                }
                4 => rr.fill(V(0)),
                _ => {
                    let cap = if m.is_fx() { 20 } else { 200 };
                    let v = if r.chance(700) { r.range(2, cap) } else { 0 };
                    rr[k * o + k] = V(-v * one - r.range(0, one));
                }
            }
            let t = e.t;
            let mut add = |op: Op| out.push(Ev { t, op, fault: Some(Fault::Extra) });
            if h != h0 {
                add(Op::Set(Slot::H(i), h));
            }
            add(Op::Set(Slot::R(i), rr));
            for _ in 0..1 + r.idx(2) {
                let z = gen::vec(r, m, o);
                add(if n.ext {
                    Op::CorrectNl(i, FSpec { seed: r.below(1 << 32), kind: r.below(2) as u8 }, z)
                } else {
                    Op::Correct(i, z)
                });
            }
            add(Op::Set(Slot::H(i), h0));
            add(Op::Set(Slot::R(i), r0));
        }
        if let Op::Set(s, v) = &e.op {
            cur.insert(*s, v.clone());
        }
        out.push(e);
    }
    n.evs = out;
}

fn gen_c12(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(450) { 1000 } else { 0 };
    let mut p = gen::simple(r, "C12", seed, &Prof { ext, max_ev: 25, ..Prof::default() });
    let rate = 60 + r.below(300);
    degenerate(r, &mut p.nodes[0], rate);
    p
}

fn run_c12(plan: &Plan, obs: &mut Obs) -> Res<()> {
    well_formed(plan)?;
    let n = node0(plan)?;
    set_mode(n.mode);
    let mut l = Live::new(n);
    let mut g = Live::new(n);
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        let extra = e.fault == Some(Fault::Extra);
        if !extra {
            // whatever was done to provoke a rejection has been put back
            let slots: Vec<Slot> = g.inputs.keys().copied().collect();
            for s in slots {
                if !matches!(s, Slot::Z(_) | Slot::U(_)) && l.input(s) != g.input(s) {
                    l.set_bits(s, &g.input(s));
                }
            }
        }
        match &e.op {
            Op::Set(s, v) => {
                l.set(*s, v);
                if !extra {
                    g.set(*s, v);
                }
            }
            op if op.is_step() && extra => {
                let pre = l.xp();
                let mut rec = StepRec { end: End::Done, ticks: 0, calls: vec![], allocs: 0 };
                if n.ext {
                    // the innovation covariance, hence the verdict, does not depend on the callback
                    let o = match op {
                        Op::CorrectNl(i, ..) => l.dims.o[*i as usize],
                        _ => return Err(Stop::Inconclusive("malformed plan")),
                    };
                    rec.calls.push((vec![], vec![0; o]));
                }
                l.load(op);
                let want = if n.mode == Mode::GF {
                    verdict::<G>(&l, &pre, op, &rec)
                } else {
                    verdict::<F>(&l, &pre, op, &rec)
                };
                if want == Verdict::Unclear {
                    obs.probes += 1;
                    continue;
                }
                let r = go(&mut l, op, obs);
                if l.mode.is_fx() && flags() & FLAG_OVERFLOW != 0 {
                    // out of the range of the number system
                    l.set_bits(Slot::X, &pre.0);
                    l.set_bits(Slot::P, &pre.1);
                    continue;
                }
                if want == Verdict::Rejected {
                    obs.fault("degenerate_report");
                    obs.checks += 1;
                    if r.end != End::Done {
                        return panic_of(op, &r.end);
                    }
                    same("degenerate", &format!("across {} of an unusable report", opname(op)), n.mode, &l.xp(), &pre)?;
                } else {
                    // usable after all: it has to be applied
                    obs.fault("marginal_report");
                    match judge(&mut l, &pre, op, &r, obs) {
                        Ok(_) | Err(Stop::Inconclusive(_)) => {}
                        Err(Stop::Violation(v)) => return fail(format!("usable-{}", v.class), format!("a usable report: {}", v.detail)),
                    }
                    l.set_bits(Slot::X, &pre.0);
                    l.set_bits(Slot::P, &pre.1);
                }
            }
            op if op.is_step() => {
                let q = go(&mut g, op, obs);
                if q.end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
                let pre = l.xp();
                let r = go(&mut l, op, obs);
                if r.end != End::Done {
                    return panic_of(op, &r.end);
                }
                if op.is_correct() {
                    match judge(&mut l, &pre, op, &r, obs) {
                        Ok(_) | Err(Stop::Inconclusive(_)) => {}
                        Err(Stop::Violation(v)) => return fail(format!("usable-{}", v.class), format!("a usable report: {}", v.detail)),
                    }
                }
                obs.checks += 1;
                let (a, b) = (l.xp(), g.xp());
                same("aftermath", &format!("after {} following unusable reports", opname(op)), n.mode, &a, &b)?;
                obs.see(&a.0);
                obs.see(&a.1);
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}

fn verdict<N: Num>(l: &Live, pre: &XP, op: &Op, rec: &StepRec) -> Verdict {
    match expect::<N>(l, &l.plain(Slot::X, &pre.0), &l.plain(Slot::P, &pre.1), op, rec) {
        Corr::Applied(_) => Verdict::Applied,
        Corr::Rejected => Verdict::Rejected,
        Corr::Unclear => Verdict::Unclear,
    }
}

// ---------------------------------------------------------------------------------------- C13

fn bad_value(r: &mut Rng) -> V {
    *r.pick(&[NAN, NAN, PINF, NINF, HUGE, TINY, V(1 << 42), V(-(1 << 41)), V(0)])
}

/// Replaces a payload by what a broken sensor or a corrupted message would carry.
pub fn corrupt(r: &mut Rng, op: &mut Op) {
    match op {
        Op::Control(_, v) | Op::Correct(_, v) => {
            if v.is_empty() {
                return;
            }
            if r.chance(500) {
                let k = r.idx(v.len());
                v[k] = bad_value(r);
            } else {
                for x in v {
                    *x = bad_value(r);
                }
            }
        }
        Op::CorrectNl(_, f, v) => {
            if r.chance(500) {
                f.kind = 3;
            }
            if r.chance(600) {
                let k = r.idx(v.len());
                v[k] = bad_value(r);
            }
        }
        Op::PredictNl(f) | Op::PredictTNl(_, f) => f.kind = 3,
        _ => {}
    }
}

fn gen_c13(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(450) { 1000 } else { 0 };
    let modes = vec![(3, Mode::GF), (4, Mode::F64), (4, Mode::F32), (1, Mode::FX32), (1, Mode::FX16)];
    let mut p = gen::simple(r, "C13", seed, &Prof { huge: gen::Huge::Any, marathon: true, asym: 250, ext, modes, ..Prof::default() });
    p.params.insert("lockstep".into(), 1);
    let mut n = p.nodes.remove(0);
    let d = rig::CONFIGS[n.cfg];
    // operator resets of the state vector
    let mut out = vec![];
    for e in n.evs.drain(..) {
        if r.chance(120) {
            out.push(Ev { t: e.t, op: Op::Set(Slot::X, gen::vec(r, n.mode, d.s)), fault: None });
        }
        out.push(e);
    }
    n.evs = out;
    let mut m = n.clone();
    let rate = 30 + r.below(300);
    for e in &mut m.evs {
        if r.chance(rate) {
            match &mut e.op {
                Op::Set(Slot::X, v) if r.chance(200) => {
                    let k = r.idx(v.len());
                    v[k] = bad_value(r);
                }
                op => corrupt(r, op),
            }
        }
    }
    p.nodes = vec![n, m];
    p
}

fn run_c13(plan: &Plan, obs: &mut Obs) -> Res<()> {
    if plan.nodes.len() != 2 || plan.nodes[0].evs.len() != plan.nodes[1].evs.len() {
        return Err(Stop::Inconclusive("malformed plan"));
    }
    let (n, m) = (&plan.nodes[0], &plan.nodes[1]);
    set_mode(n.mode);
    let mut g = Live::new(n);
    let mut l = Live::new(m);
    let mut tainted = n.init.iter().zip(&m.init).any(|(a, b)| a != b);
    for (e, f) in n.evs.iter().zip(&m.evs) {
        if !l.valid(&e.op) || !l.valid(&f.op) || e.op.code() != f.op.code() {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        let dirty = e.op != f.op;
        match (&e.op, &f.op) {
            (Op::Set(s, v), Op::Set(_, w)) => {
                g.set(*s, v);
                l.set(*s, w);
                if dirty && *s != Slot::X {
                    return Err(Stop::Inconclusive("malformed plan"));
                }
                if *s == Slot::X {
                    tainted = dirty;
                }
            }
            (op, op2) if op.is_step() => {
                let q = go(&mut g, op, obs);
                if q.end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
                let r = go(&mut l, op2, obs);
                if r.end != End::Done {
                    return fail("panic-on-payload", format!("{} with a corrupted payload ended with {:?}", opname(op), r.end));
                }
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
        if dirty {
            obs.fault("corrupted_payload");
            tainted = true;
            if matches!(&e.op, Op::Set(Slot::X, _)) {
                obs.fault("state_vector_corrupted");
            }
        }
        obs.checks += 1;
        let (mut a, mut b) = (l.xp(), g.xp());
        obs.see(&b.1);
        if tainted {
            a.0.clear();
            b.0.clear();
        } else {
            obs.probes += 1;
        }
        same("payload-leak", &format!("between corrupted and clean payloads after {}", opname(&e.op)), n.mode, &a, &b)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C18

/// Replaces whole matrices by garbage.
fn wild(r: &mut Rng, n: &mut Node, rate: u64) {
    let d = rig::CONFIGS[n.cfg];
    let slots: Vec<Slot> = d.slots(n.ext).into_iter().filter(|s| !matches!(s, Slot::Z(_) | Slot::U(_))).collect();
    let mut out = vec![];
    for e in n.evs.drain(..) {
        if r.chance(rate) {
            let s = *r.pick(&slots);
            let style = r.below(5);
            let v = (0..d.len(s))
                .map(|_| match style {
                    0 => NAN,
                    1 => bad_value(r),
                    2 => V(r.range(-(1 << 45), 1 << 45)),
                    3 => V(0),
                    _ => {
                        if r.chance(200) {
                            bad_value(r)
                        } else {
                            gen::val(r, n.mode)
                        }
                    }
                })
                .collect();
            out.push(Ev { t: e.t, op: Op::Set(s, v), fault: None });
        }
        out.push(e);
    }
    n.evs = out;
}

fn gen_c18(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(400) { 1000 } else { 0 };
    let modes = vec![(3, Mode::GF), (4, Mode::F64), (4, Mode::F32)];
    let mut p = gen::simple(r, "C18", seed, &Prof { huge: gen::Huge::Any, marathon: true, asym: 250, ext, modes, ..Prof::default() });
    let n = &mut p.nodes[0];
    let bad = r.below(300);
    for e in &mut n.evs {
        if e.op.is_step() && r.chance(bad) {
            corrupt(r, &mut e.op);
        }
        if let Op::PredictT(l) | Op::PredictTNl(l, _) = &mut e.op {
            if r.chance(100) {
                *l = bad_value(r);
            }
        }
    }
    degenerate(r, n, 60);
    let rate = 50 + r.below(300);
    wild(r, n, rate);
    p
}

fn run_c18(plan: &Plan, obs: &mut Obs) -> Res<()> {
    let n = node0(plan)?;
    set_mode(n.mode);
    let mut l = Live::new(n);
    let d = l.dims;
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        match &e.op {
            Op::Set(s, v) => {
                if v.iter().any(|v| v.special()) {
                    obs.fault("garbage_matrix");
                }
                l.set(*s, v)
            }
            op if op.is_step() => {
                let k = d.s as u64
                    + match op {
                        Op::Control(j, _) => d.c[*j as usize] as u64,
                        Op::Correct(i, _) | Op::CorrectNl(i, ..) => d.o[*i as usize] as u64,
                        _ => 0,
                    };
                let limit = 1000 + 16 * k * k * k;
                l.load(op);
                let r = l.step(op, StepOpt { limit: Some(limit), ..Default::default() });
                obs.steps += 1;
                obs.ticks += r.ticks;
                obs.checks += 1;
                match r.end {
                    End::Done => {}
                    End::WorkLimit => return fail("work-limit", format!("{} was still running after {limit} scalar operations", opname(op))),
                    e2 => return panic_of(op, &e2),
                }
                obs.see(&l.x());
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}
