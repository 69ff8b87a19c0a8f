//! C14 replica agreement, C17 documented scratch aliasing: executions that must agree bit for bit.

use super::*;
use crate::gen::{self, Prof};
use crate::rig;
use crate::storage::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            title: "replicas on different storage agree bit for bit",
            gen: gen_c14,
            run: run_c14,
            quick: 200_000,
            thorough: 6_000_000,
            rule: "a run is one message log delivered to 2 to 6 replicas on different storage and entry points; non-trivial: at least 3 comparisons between replicas of different storage",
            nontrivial: |o| o.probes >= 3,
        },
        Prop {
            id: "C17",
            title: "documented scratch aliasing does not change results",
            gen: gen_c17,
            run: run_c17,
            quick: 360_000,
            thorough: 10_800_000,
            rule: "a run is one history executed with separate and with aliased scratch; non-trivial: at least one step that uses aliased buffers was compared",
            nontrivial: |o| o.probes >= 1,
        },
    ]
}

fn gen_c14(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(450) { 1000 } else { 0 };
    // configurations with at least two storage families
    let cfgs: Vec<usize> = (0..rig::CONFIGS.len()).filter(|c| rig::kinds(*c).len() > 1).collect();
    let mut p = gen::simple(r, "C14", seed, &Prof { asym: 250, ext, ckpt: true, cfgs: Some(cfgs), max_ev: 30, ..Prof::default() });
    // what nobody writes is still zero, wherever it is stored
    if r.chance(250) {
        let drop = r.below(700);
        p.nodes[0].init.retain(|_| !r.chance(drop));
    }
    let base = p.nodes[0].clone();
    let mut kinds = rig::kinds(base.cfg);
    r.shuffle(&mut kinds);
    for k in kinds.into_iter().chain([base.rig]) {
        let mut n = base.clone();
        n.init.clear();
        n.evs.clear();
        n.rig = k;
        n.api = r.below(crate::rig::API_ALL as u64 + 1) as u32;
        n.layout = r.below(8) as u32;
        p.nodes.push(n);
    }
    // replicas that fail and catch up from their last checkpoint, possibly on other storage
    if !base.evs.is_empty() && r.chance(600) {
        for _ in 0..1 + r.idx(3) {
            let i = 1 + r.idx(p.nodes.len() - 1);
            let t = r.pick(&base.evs).t;
            p.sched.extend([i as u64, t, r.below(1 << 16)]);
        }
    }
    p
}

fn run_c14(plan: &Plan, obs: &mut Obs) -> Res<()> {
    let n = node0(plan)?;
    set_mode(n.mode);
    let mut g = Live::new(n);
    let mut trace: Vec<XP> = vec![];
    for e in &n.evs {
        if !g.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        match &e.op {
            Op::Set(s, v) => g.set(*s, v),
            Op::Ckpt => {}
            op if op.is_step() => {
                if go(&mut g, op, obs).end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
        let t = g.xp();
        obs.see(&t.0);
        obs.see(&t.1);
        trace.push(t);
    }
    for (k, rep) in plan.nodes.iter().enumerate().skip(1) {
        let mut l = Live::with(n, rep.rig, rep.api, rep.layout);
        let mut kind = rep.rig;
        let mut ck = (0usize, l.xp(), l.inputs.clone());
        let mut crashes: Vec<(u64, u64)> = plan
            .sched
            .chunks(3)
            .filter(|c| c.len() == 3 && c[0] == k as u64)
            .map(|c| (c[1], c[2]))
            .collect();
        let mut i = 0;
        while i < n.evs.len() {
            let e = &n.evs[i];
            if let Some(c) = crashes.iter().position(|c| c.0 == e.t) {
                let (_, how) = crashes.remove(c);
                let ks = rig::kinds(n.cfg);
                kind = ks[how as usize % ks.len()];
                obs.fault("replica_crash_and_catch_up");
                l = Live::bare(n.mode, kind, n.cfg, n.ext, (how >> 4) as u32 & rig::API_ALL, (how >> 20) as u32 & 7, n.units);
                for (s, v) in &ck.2 {
                    let b: Vec<u64> = v.iter().map(|d| d.0).collect();
                    l.set_bits(*s, &b);
                }
                l.set_bits(Slot::X, &ck.1 .0);
                l.set_bits(Slot::P, &ck.1 .1);
                i = ck.0;
                continue;
            }
            match &e.op {
                Op::Set(s, v) => l.set(*s, v),
                Op::Ckpt => ck = (i + 1, l.xp(), l.inputs.clone()),
                op => {
                    let r = go(&mut l, op, obs);
                    if r.end != End::Done {
                        return fail("replica-panic", format!("{} on {} ended with {:?}", opname(op), kind.name(), r.end));
                    }
                }
            }
            obs.checks += 1;
            if kind != n.rig {
                obs.probes += 1;
            }
            same("replica", &format!("between {} and {} after {}", kind.name(), n.rig.name(), opname(&e.op)), n.mode, &l.xp(), &trace[i])?;
            i += 1;
        }
    }
    Ok(())
}

fn gen_c17(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(450) { 1000 } else { 0 };
    let mut p = gen::simple(r, "C17", seed, &Prof { huge: gen::Huge::Any, asym: 250, ext, arena_only: true, ..Prof::default() });
    let n = &mut p.nodes[0];
    n.layout &= L_DIRTY;
    let v = if ext == 0 { 1 + r.below(7) } else { 1 + r.below(6) };
    p.params.insert("alias".into(), v as i64);
    let rate = if r.chance(400) { r.below(300) } else { 0 };
    let cut = if r.chance(300) { r.below(200) } else { 0 };
    let mut out = vec![];
    for mut e in n.evs.drain(..) {
        if r.chance(rate) {
            out.push(Ev { t: e.t, op: Op::Scribble(r.below(5) as u8, r.below(1 << 32)), fault: Some(Fault::Extra) });
        }
        if e.op.is_step() && r.chance(cut) {
            e.fault = Some(Fault::Trap(r.below(1001) as u32));
        }
        out.push(e);
    }
    n.evs = out;
    p
}

fn run_c17(plan: &Plan, obs: &mut Obs) -> Res<()> {
    let n = node0(plan)?;
    set_mode(n.mode);
    let v = plan.params.get("alias").copied().unwrap_or(1) as u32;
    if n.rig != RigKind::Arena {
        return Err(Stop::Inconclusive("malformed plan"));
    }
    let mut g = Live::with(n, n.rig, n.api, 0);
    let mut l = Live::with(n, n.rig, n.api, n.layout & L_DIRTY | v << L_ALIAS_SHIFT);
    if n.layout & L_DIRTY != 0 {
        obs.fault("power_on_garbage");
    }
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        match &e.op {
            Op::Set(s, v) => {
                l.set(*s, v);
                g.set(*s, v);
            }
            Op::Scribble(k, s) => {
                l.scribble(*k, *s);
                obs.fault("scratch_overwritten");
            }
            op if op.is_step() => {
                let q = go(&mut g, op, obs);
                if q.end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
                if let Some(Fault::Trap(pm)) = e.fault {
                    let pre = l.xp();
                    l.load(op);
                    let at = (q.ticks * pm as u64 / 1000).max(1);
                    l.step(op, StepOpt { trap_at: Some(at), ..Default::default() });
                    obs.fault("scratch_left_by_aborted_step");
                    l.set_bits(Slot::X, &pre.0);
                    l.set_bits(Slot::P, &pre.1);
                }
                let r = go(&mut l, op, obs);
                if r.end != End::Done {
                    return fail("alias-panic", format!("{} on aliased scratch ended with {:?}", opname(op), r.end));
                }
                obs.checks += 1;
                let uses = match op {
                    Op::Control(..) => v == 7,
                    o if o.is_correct() => v != 7,
                    _ => v == 7,
                };
                if uses {
                    obs.probes += 1;
                }
                let (a, b) = (l.xp(), g.xp());
                same("alias", &format!("between aliased (variant {v}) and separate scratch after {}", opname(op)), n.mode, &a, &b)?;
                obs.see(&a.0);
                obs.see(&a.1);
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}
