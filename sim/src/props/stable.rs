//! C10 covariance invariants along whole histories, C11 bounded recovery once faults stop.

use super::*;
use crate::reference::min_eig;
use crate::gen::{self, Prof};
use crate::rig;
use crate::storage::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            title: "covariance stays symmetric and positive, corrections never add variance",
            gen: gen_c10,
            run: run_c10,
            quick: 320_000,
            thorough: 9_600_000,
            rule: "a run is one history with faults of every kind, the covariance invariants evaluated after every step; non-trivial: at least 3 evaluations including one correction",
            nontrivial: |o| o.checks >= 3 && o.probes >= 1,
        },
        Prop {
            id: "C11",
            title: "bounded recovery once faults stop",
            gen: gen_c11,
            run: run_c11,
            quick: 100_000,
            thorough: 3_000_000,
            rule: "a run is one faulty history followed by a fault-free phase; non-trivial: the estimate was off when faults stopped and recovery was due within the bound",
            nontrivial: |o| o.probes >= 1,
        },
    ]
}

// ---------------------------------------------------------------------------------------- C10

fn gen_c10(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(400) { 1000 } else { 0 };
    let modes = vec![(4, Mode::GF), (4, Mode::F64), (3, Mode::F32), (1, Mode::FX32)];
    let mut p = gen::simple(r, "C10", seed, &Prof { marathon: true, ext, modes, ckpt: true, crash: true, max_ev: 50, fx_units: false, ..Prof::default() });
    let n = &mut p.nodes[0];
    let d = rig::CONFIGS[n.cfg];
    if n.mode.is_float() && r.chance(200) {
        // start-up without knowledge
        let big = if n.mode == Mode::F64 { 1e5 } else { 100.0 };
        for (s, v) in &mut n.init {
            if *s == Slot::P {
                *v = (0..d.s * d.s).map(|i| if i / d.s == i % d.s { V::f(big) } else { V(0) }).collect();
            }
        }
    }
    let bad = if r.chance(400) { r.below(200) } else { 0 };
    let scr = if r.chance(300) { r.below(150) } else { 0 };
    let cbf = if r.chance(300) { r.below(200) } else { 0 };
    let mut out = vec![];
    for mut e in n.evs.drain(..) {
        if r.chance(scr) {
            out.push(Ev { t: e.t, op: Op::Scribble(r.below(5) as u8, r.below(1 << 32)), fault: None });
        }
        if e.op.is_step() {
            if r.chance(bad) {
                faults::corrupt(r, &mut e.op);
            }
            if r.chance(cbf) && ext > 0 {
                e.fault = Some(Fault::CbFail(r.below(1001) as u32));
            }
        }
        out.push(e);
    }
    n.evs = out;
    if r.chance(250) {
        faults::degenerate(r, n, 80);
    }
    refine::with_traps(r, p)
}

fn norms(m: &M<F>) -> (f64, f64) {
    // largest absolute row sum, largest absolute column sum
    let row = |m: &M<F>| (0..m.r).map(|i| (0..m.c).map(|j| m.at(i, j).mag()).sum::<f64>()).fold(0.0, f64::max);
    (row(m), row(&m.t()))
}

/// Accumulated bounds on asymmetry and negativity, as rounding alone could have produced them.
struct Tol {
    asym: f64,
    neg: f64,
}

fn run_c10(plan: &Plan, obs: &mut Obs) -> Res<()> {
    well_formed(plan)?;
    let n = node0(plan)?;
    set_mode(n.mode);
    let dim = rig::CONFIGS[n.cfg].s;
    let mut l = Live::new(n);
    let (re, ab) = rf::eps();
    let fresh = |l: &mut Live| -> Tol {
        let p = l.p();
        let m = l.plain::<F>(Slot::P, &p).max();
        // written values are multiples of 2^-20, rounded to the number system
        let q = 1e-6 * dim as f64 + (m * re + ab) * dim as f64;
        Tol { asym: m * re + ab, neg: q }
    };
    let mut tol = fresh(&mut l);
    let first = l.xp();
    let mut ckpt = (l.xp(), Tol { ..tol });
    // symmetric data may be assumed only as long as the (minimised) plan supplies it
    let sym = |m: Mode, s: Slot, v: &[V], d: &rig::Dims| -> bool {
        let k = match s {
            Slot::P | Slot::Q => d.s,
            Slot::R(i) => d.o[i as usize],
            Slot::Qc(j) => d.c[j as usize],
            _ => return true,
        };
        let _ = m;
        (0..k).all(|i| (0..i).all(|j| v[i * k + j] == v[j * k + i])) && v.iter().all(|v| !v.special())
    };
    let d = l.dims;
    if !n.init.iter().all(|(s, v)| sym(n.mode, *s, v, &d)) {
        return Err(Stop::Inconclusive("malformed plan"));
    }
    if n.mode != Mode::GF {
        for s in d.slots(n.ext) {
            psd_input(&mut l, s)?;
        }
    }
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        let restart = |l: &mut Live, x: &XP| {
            let mut f = Live::bare(n.mode, n.rig, n.cfg, n.ext, n.api, n.layout | L_DIRTY, n.units);
            for s in l.inputs.keys().copied().collect::<Vec<_>>() {
                f.set_bits(s, &l.input(s));
            }
            f.set_bits(Slot::X, &x.0);
            f.set_bits(Slot::P, &x.1);
            *l = f;
        };
        match &e.op {
            Op::Set(s, v) => {
                if !sym(n.mode, *s, v, &d) {
                    return Err(Stop::Inconclusive("malformed plan"));
                }
                l.set(*s, v);
                if *s == Slot::P {
                    tol = fresh(&mut l);
                }
                // an injected unusable sensor has a noise matrix that is none; its reports are
                // judged (Rejected) before anything is concluded from the others
                if n.mode != Mode::GF && !matches!(s, Slot::R(_)) {
                    psd_input(&mut l, *s)?;
                }
            }
            Op::Ckpt => ckpt = (l.xp(), Tol { ..tol }),
            Op::Crash => {
                obs.fault("crash_between_steps");
                restart(&mut l, &ckpt.0);
                tol = Tol { ..ckpt.1 };
            }
            Op::Scribble(k, s) => {
                if l.scribble(*k, *s) {
                    obs.fault("scratch_overwritten");
                }
            }
            op if op.is_step() => {
                let pre = l.xp();
                l.load(op);
                let mut opt = StepOpt::default();
                match e.fault {
                    Some(Fault::Trap(pm)) => opt.trap_at = Some((measure(&mut l, op) * pm as u64 / 1000).max(1)),
                    Some(Fault::CbFail(pm)) if n.ext => opt.cb_fail = Some(pm),
                    _ => {}
                }
                clear_flags();
                let rec = l.step(op, opt);
                obs.steps += 1;
                obs.ticks += rec.ticks;
                match &rec.end {
                    End::Done => {}
                    End::Trapped => {
                        obs.fault("crash_inside_step");
                        restart(&mut l, &ckpt.0);
                        tol = Tol { ..ckpt.1 };
                        continue;
                    }
                    End::CbFailed => {
                        obs.fault("callback_failure");
                        same("atomicity", "across a failed user function", n.mode, &(vec![], l.p()), &(vec![], pre.1.clone()))?;
                        continue;
                    }
                    e2 => return fail("panic", format!("{} ended with {e2:?}", opname(op))),
                }
                if l.mode.is_fx() && flags() & FLAG_OVERFLOW != 0 {
                    return Err(Stop::Inconclusive("fixed-point overflow"));
                }
                obs.checks += 1;
                let post = l.p();
                obs.see(&post);
                if op.is_correct() {
                    obs.probes += 1;
                }
                if n.mode != Mode::GF {
                    if let Op::Correct(i, _) | Op::CorrectNl(i, ..) = op {
                        // a noise matrix that is none (injected): nothing follows from such a
                        // report unless it has to be rejected
                        let r: M<F> = l.nmat(Slot::R(*i));
                        if min_eig(&r) < -GRID * r.r as f64 && post != pre.1 {
                            l.set_bits(Slot::X, &pre.0);
                            l.set_bits(Slot::P, &pre.1);
                            continue;
                        }
                    }
                }
                if n.mode == Mode::GF {
                    for i in 0..dim {
                        for j in 0..i {
                            if post[i * dim + j] != post[j * dim + i] {
                                return fail("asymmetric", format!("P[{i},{j}] and P[{j},{i}] differ after {}", opname(op)));
                            }
                        }
                    }
                    continue;
                }
                match invariants(&l, &pre, &post, op, &mut tol) {
                    Err(Stop::Inconclusive(why)) if why == AMBIGUOUS => {
                        // either outcome is fine; go on as if the report had been lost
                        l.set_bits(Slot::X, &pre.0);
                        l.set_bits(Slot::P, &pre.1);
                    }
                    Err(Stop::Inconclusive(why)) if why == IMPRECISE => {
                        // nothing can be told any more: start over
                        restart(&mut l, &first);
                        tol = fresh(&mut l);
                        ckpt = (l.xp(), Tol { ..tol });
                    }
                    r => r?,
                }
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}

/// Written values are multiples of 2^-20; rounding to these moves an eigenvalue by less than this
/// for every row. The tolerances allow for about twice as much.
const GRID: f64 = 5.2e-7;

/// A noise or initial covariance that is none makes the rest meaningless (minimised plans only).
fn psd_input(l: &mut Live, s: Slot) -> Res<()> {
    if !matches!(s, Slot::P | Slot::Q | Slot::Qc(_)) {
        return Ok(());
    }
    let v = l.get(s);
    let m: M<F> = l.plain(s, &v);
    if m.r > 0 && min_eig(&m) < -(GRID + 1e-7 * m.max()) * m.r as f64 {
        return Err(Stop::Inconclusive("malformed plan"));
    }
    Ok(())
}

const AMBIGUOUS: &str = "ambiguous innovation covariance";
const IMPRECISE: &str = "beyond the precision of the number system";

fn invariants(l: &Live, pre: &XP, post: &[u64], op: &Op, tol: &mut Tol) -> Res<()> {
    let n = l.dims.s;
    // payload values do not enter the covariance; leave them out so that garbage in them is harmless
    let x = M::<F>::zero(n, 1);
    let p = l.plain::<F>(Slot::P, &pre.1);
    let q = l.plain::<F>(Slot::P, post);
    let nf = n as f64;
    // (what must not be negative, tolerance, kind, wording)
    let mut mono: Option<(M<F>, f64, &str, &str)> = None;
    match op {
        o if o.is_predict() => {
            let a: M<F> = l.nmat(Slot::A);
            let lam = match op {
                Op::PredictT(v) | Op::PredictTNl(v, _) => Some(F::of(v.to_dyn().0)),
                _ => None,
            };
            let f = lam.map(|l| 1.0 / (l.0 * l.0)).unwrap_or(1.0);
            let e = rf::predict(&x, &p, &a, &l.nmat(Slot::Q), lam, None);
            let (r, c) = norms(&a);
            let apa = a.mul(&p).mul(&a.t()).scale(F(f));
            mono = Some((q.sub(&apa), nf * e.ep + 1e-6 * nf + tol.asym * f * r * c, "prediction-loss", "left less than the propagated covariance"));
            tol.asym = tol.asym * f * r * r + 2.0 * e.ep;
            tol.neg = tol.neg * f * r * c + nf * e.ep + 1e-6 * nf;
        }
        Op::Control(j, _) => {
            let b: M<F> = l.nmat(Slot::B(*j));
            let u = M::<F>::zero(b.c, 1);
            let e = rf::control(&x, &p, &b, &u, &l.nmat(Slot::Qc(*j)));
            let (r, c) = norms(&b);
            mono = Some((q.sub(&p), nf * e.ep + 1e-6 * r * c * b.c as f64, "control-loss", "decreased a variance"));
            tol.asym += 2.0 * e.ep;
            tol.neg += nf * e.ep + 1e-6 * r * c * b.c as f64;
        }
        Op::Correct(i, _) | Op::CorrectNl(i, ..) => {
            let h: M<F> = l.nmat(Slot::H(*i));
            let r: M<F> = l.nmat(Slot::R(*i));
            let z = M::<F>::zero(h.r, 1);
            match rf::correct(&x, &p, &h, &r, &z, None) {
                Corr::Unclear => return Err(Stop::Inconclusive(AMBIGUOUS)),
                Corr::Rejected => {
                    if pre.1 != post {
                        return fail("reject-P", format!("P changed across {} of an unusable report", opname(op)));
                    }
                }
                Corr::Applied(e) => {
                    let s = h.mul(&p).mul(&h.t()).add(&r);
                    let Some(si) = s.inv() else { return Err(Stop::Inconclusive(AMBIGUOUS)) };
                    let k = p.mul(&h.t()).mul(&si);
                    let kh = k.mul(&h);
                    let ikh = M::<F>::eye(n).sub(&kh);
                    let (ir, ic) = norms(&ikh);
                    let (khr, khc) = norms(&kh);
                    // K S K' is positive as long as S is; rounding and asymmetry aside
                    let (kr, kc) = norms(&k);
                    let (hr, hc) = norms(&h);
                    let t = nf * (e.ep + tol.asym * (1.0 + kr * hr) * (1.0 + kc * hc) * 4.0);
                    mono = Some((p.sub(&q), t, "variance-increase", "increased a variance"));
                    // an antisymmetric part E becomes (I-KH)E(I-KH)' - KH E (KH)'
                    tol.asym = tol.asym * (ir * ic.max(ir) + khr * khc.max(khr)) * 1.01 + 2.0 * e.ep;
                    tol.neg = tol.neg * ir * ic * 1.01 + nf * e.ep + 1e-6 * kr * kc * h.r as f64;
                }
            }
        }
        _ => unreachable!("harness: not a step"),
    }
    let lim = 0.02 * (1.0 + p.max());
    if !(tol.asym < lim && tol.neg < lim && mono.as_ref().map_or(true, |m| m.1 < lim)) || !q.max().is_finite() {
        if q.max().is_finite() || !p.max().is_finite() || p.max() > 1e15 {
            return Err(Stop::Inconclusive(IMPRECISE));
        }
        return fail("not-finite", format!("P is not finite after {}", opname(op)));
    }
    for i in 0..n {
        for j in 0..i {
            let dif = (q.at(i, j).0 - q.at(j, i).0).abs();
            if pre.1 != post {
                calibrate(|| format!("asymmetric {:?}", l.mode), dif, tol.asym, p.max());
            }
            if dif > tol.asym {
                return fail("asymmetric", format!("P[{i},{j}] and P[{j},{i}] differ by {dif:e} after {} (rounding explains {:e})", opname(op), tol.asym));
            }
        }
    }
    let me = min_eig(&q);
    if pre.1 != post {
        calibrate(|| format!("negative {:?}", l.mode), -me, tol.neg, p.max());
    }
    if me < -tol.neg {
        return fail("negative", format!("P has eigenvalue {me:e} after {} (rounding explains {:e})", opname(op), -tol.neg));
    }
    // what is there is there: the next step starts from it
    let asym = (0..n)
        .flat_map(|i| (0..i).map(move |j| (i, j)))
        .map(|(i, j)| (q.at(i, j).0 - q.at(j, i).0).abs())
        .fold(0.0, f64::max);
    tol.asym = tol.asym.min(asym);
    tol.neg = tol.neg.min((-me).max(0.0) + 1e-9 * (1.0 + q.max()));
    if let Some((m, t, kind, what)) = mono {
        let t = t + 1e-14 * p.max() * nf;
        let me = min_eig(&m);
        calibrate(|| format!("{kind} {:?}", l.mode), -me, t, p.max());
        if me < -t {
            return fail(kind, format!("{} {what} by {:e} (rounding explains {t:e})", opname(op), -me));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C11

fn gen_c11(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(400) { 1000 } else { 0 };
    let modes = vec![(5, Mode::F64), (4, Mode::F32), (2, Mode::FX32)];
    let cfgs = (0..rig::CONFIGS.len()).filter(|c| rig::CONFIGS[*c].s <= 9).collect();
    let mut p = gen::simple(
        r,
        "C11",
        seed,
        &Prof { ext, modes, ckpt: true, crash: true, max_ev: 25, fx_units: false, cfgs: Some(cfgs), ..Prof::default() },
    );
    let n = &mut p.nodes[0];
    let m = n.mode;
    let wild = r.below(400);
    let scr = if r.chance(300) { r.below(150) } else { 0 };
    let cbf = if r.chance(300) { r.below(300) } else { 0 };
    let mut out = vec![];
    for mut e in n.evs.drain(..) {
        if r.chance(scr) {
            out.push(Ev { t: e.t, op: Op::Scribble(r.below(5) as u8, r.below(1 << 32)), fault: None });
        }
        if r.chance(wild) {
            // outliers: wrong by far, yet numbers
            let s = if m.is_fx() { 30.0 } else { 1000.0 };
            let mut hit = |v: &mut Vec<V>| {
                if !v.is_empty() {
                    let k = r.idx(v.len());
                    v[k] = V::f(r.s() * s);
                }
            };
            match &mut e.op {
                Op::Control(_, v) | Op::Correct(_, v) | Op::CorrectNl(_, _, v) => hit(v),
                _ => {}
            }
        }
        if e.op.is_step() && ext > 0 && r.chance(cbf) {
            e.fault = Some(Fault::CbFail(r.below(1001) as u32));
        }
        out.push(e);
    }
    n.evs = out;
    if r.chance(250) {
        faults::degenerate(r, n, 60);
    }
    // estimates reset to something far from the truth
    for _ in 0..r.below(3) {
        let far = match m {
            Mode::F64 => 10f64.powi(r.range(0, 6) as i32),
            Mode::F32 => 10f64.powi(r.range(0, 3) as i32),
            _ => 30.0,
        };
        let x = (0..rig::CONFIGS[n.cfg].s).map(|_| V::f(r.s() * far)).collect();
        let at = if r.chance(500) { n.evs.len() } else { r.idx(n.evs.len() + 1) };
        let t = n.evs.get(at.saturating_sub(1)).map_or(0, |e| e.t);
        n.evs.insert(at, Ev { t, op: Op::Set(Slot::X, x), fault: None });
    }
    p.params.insert("cycles".into(), 10 + r.below(60) as i64);
    p.params.insert("truth".into(), r.below(1 << 30) as i64);
    let mut p = refine::with_traps(r, p);
    // some of these deployments send commands and forget while they recover
    p.params.insert("style".into(), r.below(8) as i64);
    p
}

/// One cycle of the fault-free phase: the steps and how the true state moves.
fn cycle(n: &Node, l: &Live, truth: &mut Vec<u64>, r: &mut Rng, style: i64, k: i64, spec: FSpec) -> Vec<Op> {
    let d = l.dims;
    let mut ops = vec![];
    let mv = |a: &[u64], x: &[u64], rows: usize| -> Vec<u64> {
        eval(FSpec { seed: 0, kind: 2 }, x, a, rows, 0, 0).0
    };
    // predict
    let a = l.input(Slot::A);
    let tuned = style & 1 != 0 && !l.mode.is_fx();
    if n.ext {
        *truth = eval(spec, truth, &a, d.s, l.units.s, l.units.s).0;
        ops.push(if tuned { Op::PredictTNl(V::f(0.97), spec) } else { Op::PredictNl(spec) });
    } else {
        *truth = mv(&a, truth, d.s);
        ops.push(if tuned { Op::PredictT(V::f(0.97)) } else { Op::Predict });
        if style & 2 != 0 {
            for j in 0..2u8 {
                let c = d.c[j as usize];
                if c > 0 && r.chance(400) {
                    let u: Vec<V> = (0..c).map(|_| V::f(r.s())).collect();
                    let ub: Vec<u64> = l.scaled(Slot::U(j), &u).iter().map(|v| v.0).collect();
                    let b = mv(&l.input(Slot::B(j)), &ub, d.s);
                    for (t, b) in truth.iter_mut().zip(b) {
                        *t = (Dyn(*t) + Dyn(b)).0;
                    }
                    ops.push(Op::Control(j, u));
                }
            }
        }
    }
    for i in 0..3u8 {
        if style & 4 != 0 && (k + i as i64) % 2 == 0 {
            continue; // sensors take turns
        }
        let o = d.o[i as usize];
        // the report, rounded to what a plan can carry
        let z: Vec<u64> = mv(&l.input(Slot::H(i)), truth, o);
        let k = exp2(-l.units.of(Slot::Z(i)));
        let z: Vec<V> = z.iter().map(|v| V::f(to_f64(*v) * k)).collect();
        ops.push(if n.ext { Op::CorrectNl(i, FSpec { seed: 0, kind: 2 }, z) } else { Op::Correct(i, z) });
    }
    ops
}

fn dist(l: &Live, a: &[u64], b: &[u64]) -> f64 {
    let k = exp2(-l.units.s);
    k * a.iter().zip(b).map(|(a, b)| (to_f64(*a) - to_f64(*b)).abs()).fold(0.0, |m: f64, v| if v.is_nan() { f64::INFINITY } else { m.max(v) })
}

fn run_c11(plan: &Plan, obs: &mut Obs) -> Res<()> {
    well_formed(plan)?;
    let n = node0(plan)?;
    set_mode(n.mode);
    let mut l = Live::new(n);
    let mut ckpt = l.xp();
    // phase 1: everything that can go wrong
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        let restart = |l: &mut Live, x: &XP| {
            let mut f = Live::bare(n.mode, n.rig, n.cfg, n.ext, n.api, n.layout | L_DIRTY, n.units);
            for s in l.inputs.keys().copied().collect::<Vec<_>>() {
                f.set_bits(s, &l.input(s));
            }
            f.set_bits(Slot::X, &x.0);
            f.set_bits(Slot::P, &x.1);
            *l = f;
        };
        match &e.op {
            Op::Set(s, v) => l.set(*s, v),
            Op::Ckpt => ckpt = l.xp(),
            Op::Crash => {
                obs.fault("crash_between_steps");
                restart(&mut l, &ckpt);
            }
            Op::Scribble(k, s) => {
                if l.scribble(*k, *s) {
                    obs.fault("scratch_overwritten");
                }
            }
            op if op.is_step() => {
                let total = if e.fault.is_some() { measure(&mut l, op) } else { 0 };
                l.load(op);
                let mut opt = StepOpt::default();
                match e.fault {
                    Some(Fault::Trap(pm)) => opt.trap_at = Some((total * pm as u64 / 1000).max(1)),
                    Some(Fault::CbFail(pm)) if n.ext => opt.cb_fail = Some(pm),
                    _ => {}
                }
                clear_flags();
                let rec = l.step(op, opt);
                obs.steps += 1;
                obs.ticks += rec.ticks;
                match &rec.end {
                    End::Done => {}
                    End::Trapped => {
                        obs.fault("crash_inside_step");
                        restart(&mut l, &ckpt);
                    }
                    End::CbFailed => obs.fault("callback_failure"),
                    e2 => return fail("panic", format!("{} ended with {e2:?}", opname(op))),
                }
                if l.mode.is_fx() && flags() & FLAG_OVERFLOW != 0 {
                    return Err(Stop::Inconclusive("fixed-point overflow"));
                }
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    // phase 2: no more faults. A model filter starts from the same estimate.
    let dim = l.dims.s;
    let cycles = plan.params.get("cycles").copied().unwrap_or(10);
    let style = plan.params.get("style").copied().unwrap_or(0);
    let seed = plan.params.get("truth").copied().unwrap_or(0) as u64;
    let mut r = Rng::new(seed);
    let mut truth: Vec<u64> = (0..dim).map(|_| from_f64(r.s() * 3.0 * exp2(n.units.s)).0).collect();
    let start = l.xp();
    let (mx, mp) = (l.plain::<F>(Slot::X, &start.0), l.plain::<F>(Slot::P, &start.1));
    if !mx.max().is_finite() || !mp.max().is_finite() {
        return Err(Stop::Inconclusive("estimate not finite when faults stop"));
    }
    let off0 = dist(&l, &start.0, &truth);
    // the deployed process: A contracts (see gen::trans), or a nonlinear process of the same kind
    let spec = FSpec { seed: seed ^ 0x51, kind: if seed % 3 == 0 { 0 } else { 2 } };
    // a second model starts slightly off: how much of the start is left at the end?
    let nudge = 0.1 * (1.0 + mp.max());
    let mx2 = M { r: dim, c: 1, d: mx.d.iter().map(|v| F(v.0 + 0.1)).collect() };
    let mp2 = mp.add(&M::<F>::eye(dim).scale(F(nudge)));
    let mut models = [(mx, mp), (mx2, mp2)];
    let mut bound = 0.0f64;
    for k in 0..cycles {
        for op in cycle(n, &l, &mut truth, &mut r, style, k, spec) {
            if !l.valid(&op) {
                return Err(Stop::Inconclusive("malformed plan"));
            }
            let rec = go(&mut l, &op, obs);
            if rec.end != End::Done {
                return fail("panic", format!("{} ended with {:?}", opname(&op), rec.end));
            }
            if l.mode.is_fx() && flags() & FLAG_OVERFLOW != 0 {
                return Err(Stop::Inconclusive("fixed-point overflow"));
            }
            // the same step on the models, each with its own evaluation of the user's function
            for (mx, mp) in &mut models {
                let mut mrec = StepRec { end: End::Done, ticks: 0, calls: vec![], allocs: 0 };
                if n.ext {
                    let at: Vec<u64> = mx.d.iter().map(|v| from_f64(v.0 * exp2(n.units.s)).0).collect();
                    let (f, lin, rows, eo) = match &op {
                        Op::PredictNl(f) | Op::PredictTNl(_, f) => (*f, l.input(Slot::A), dim, n.units.s),
                        Op::CorrectNl(i, f, _) => (*f, l.input(Slot::H(*i)), l.dims.o[*i as usize], n.units.of(Slot::Z(*i))),
                        _ => return Err(Stop::Inconclusive("malformed plan")),
                    };
                    mrec.calls.push((vec![], eval(f, &at, &lin, rows, n.units.s, eo).0));
                }
                match expect::<F>(&l, mx, mp, &op, &mrec) {
                    Corr::Applied(o) => {
                        if !(o.ex.is_finite() && o.ep.is_finite()) {
                            return Err(Stop::Inconclusive("beyond the precision of the number system"));
                        }
                        bound = bound.max(o.ex).max(o.ep);
                        *mx = o.x;
                        *mp = o.p;
                    }
                    Corr::Rejected => {}
                    Corr::Unclear => return Err(Stop::Inconclusive("ambiguous innovation covariance")),
                }
            }
        }
    }
    if l.mode.is_fx() && flags() & FLAG_OVERFLOW != 0 {
        return Err(Stop::Inconclusive("fixed-point overflow"));
    }
    let truth: Vec<f64> = truth.iter().map(|v| to_f64(*v) * exp2(-n.units.s)).collect();
    let scale = 1.0 + truth.iter().map(|v| v.abs()).fold(0.0, f64::max);
    let [(mx, mp), (mx2, mp2)] = models;
    let off_model = mx.d.iter().zip(&truth).map(|(a, b)| (a.0 - b).abs()).fold(0.0, f64::max);
    obs.checks += 1;
    let left = mx.sub(&mx2).max().max(mp.sub(&mp2).max() / (1.0 + mp.max()));
    if !(left <= 1e-3) || !(off_model <= 0.02 * scale) || bound > 1e-3 || off0 < 0.3 * scale {
        // not observable well enough, too few cycles, or nothing to recover from
        return Ok(());
    }
    obs.probes += 1;
    let off = {
        let x = l.x();
        l.plain::<F>(Slot::X, &x).d.iter().zip(&truth).map(|(a, b)| (a.0 - b).abs()).fold(0.0, |m: f64, v| if v.is_nan() { f64::INFINITY } else { m.max(v) })
    };
    obs.see(&l.x());
    if !(off <= 0.06 * scale) {
        return fail(
            "no-recovery",
            format!("{cycles} fault-free cycles after faults stopped the estimate is still off by {off:e} (initially {off0:e}, the reference recovers to {off_model:e})"),
        );
    }
    // and the covariance forgets where it started
    let p = l.p();
    let worst = l.plain::<F>(Slot::P, &p).d.iter().zip(&mp.d).map(|(a, b)| (a.0 - b.0).abs()).fold(0.0, f64::max);
    if !(worst <= 0.06 * (1.0 + mp.max())) {
        return fail("no-recovery-P", format!("{cycles} fault-free cycles after faults stopped the covariance is off by {worst:e}"));
    }
    Ok(())
}
