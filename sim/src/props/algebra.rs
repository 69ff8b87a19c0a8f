//! C09 delivery order and batching, C15 tick coalescing and equivalent formulations: different
//! ways of delivering the same information must give the same estimate.

use super::*;
use crate::gen::{self, Prof};
use crate::rig;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            title: "order and batching of simultaneous reports do not matter",
            gen: gen_c09,
            run: run_c09,
            quick: 200_000,
            thorough: 6_000_000,
            rule: "a run is one history in which simultaneous reports are delivered in two different ways; non-trivial: at least one alternative delivery was compared",
            nontrivial: |o| o.probes >= 1,
        },
        Prop {
            id: "C15",
            title: "equivalent ways of expressing a tick agree",
            gen: gen_c15,
            run: run_c15,
            quick: 400_000,
            thorough: 12_000_000,
            rule: "a run is one history in which ticks are delivered in two equivalent forms; non-trivial: at least one pair of forms was compared",
            nontrivial: |o| o.probes >= 1,
        },
    ]
}

fn modes() -> Vec<(u64, Mode)> {
    vec![(7, Mode::GF), (3, Mode::F64)]
}

fn close(l: &mut Live, m: &mut Live, what: &str, at: &str) -> Res<()> {
    let (a, b) = (l.xp(), m.xp());
    if l.mode == Mode::GF {
        return same(what, at, l.mode, &a, &b);
    }
    for (nm, sl, a, b) in [("x", Slot::X, a.0, b.0), ("P", Slot::P, a.1, b.1)] {
        let k = exp2(l.shift(sl));
        let a: Vec<f64> = a.iter().map(|v| to_f64(*v) * k).collect();
        let b: Vec<f64> = b.iter().map(|v| to_f64(*v) * k).collect();
        let mx = a.iter().chain(&b).map(|v| v.abs()).fold(0.0, f64::max);
        if !(mx < 1e6) {
            return Err(Stop::Inconclusive("beyond range"));
        }
        let tol = 1e-7 * (1.0 + mx);
        for (i, (a, b)) in a.iter().zip(&b).enumerate() {
            if !((*a - *b).abs() <= tol) {
                return fail(format!("{what}-{nm}"), format!("{what}: {nm}[{i}] differs {at}: {a:e} vs {b:e}"));
            }
        }
    }
    Ok(())
}

/// Runs a step that must be one the reference applies (not rejects); otherwise the two ways of
/// delivering need not agree.
fn clean(l: &mut Live, op: &Op, obs: &mut Obs) -> Res<()> {
    if op.is_correct() {
        l.load(op);
        let pre = l.xp();
        let mut rec = StepRec { end: End::Done, ticks: 0, calls: vec![], allocs: 0 };
        if let Op::CorrectNl(i, ..) = op {
            rec.calls.push((vec![], vec![0; l.dims.o[*i as usize]]));
        }
        let ok = if l.mode == Mode::GF {
            matches!(expect::<G>(l, &l.plain(Slot::X, &pre.0), &l.plain(Slot::P, &pre.1), op, &rec), Corr::Applied(_))
        } else {
            matches!(expect::<F>(l, &l.plain(Slot::X, &pre.0), &l.plain(Slot::P, &pre.1), op, &rec), Corr::Applied(_))
        };
        if !ok {
            return Err(Stop::Inconclusive("unusable report"));
        }
    }
    let r = go(l, op, obs);
    match r.end {
        End::Done => Ok(()),
        e => fail("panic", format!("{} ended with {e:?}", opname(op))),
    }
}

/// The same step for a linear or an extended filter whose user function is the linear one.
fn lin(ext: bool, op: &Op) -> Op {
    let f = FSpec { seed: 7, kind: 2 };
    match (ext, op) {
        (true, Op::Predict) => Op::PredictNl(f),
        (true, Op::PredictT(l)) => Op::PredictTNl(*l, f),
        (true, Op::Correct(i, z)) => Op::CorrectNl(*i, f, z.clone()),
        (_, o) => o.clone(),
    }
}

// ---------------------------------------------------------------------------------------- C09

fn gen_c09(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(400) { 1000 } else { 0 };
    let mut p = gen::simple(r, "C09", seed, &Prof { ext, modes: modes(), linear_cb: true, max_ev: 20, ..Prof::default() });
    let n = &mut p.nodes[0];
    let d = rig::CONFIGS[n.cfg];
    // sensor 2 carries the stacked reports of the other two
    n.units.o = [n.units.o[0]; 3];
    let mut out = vec![];
    let rate = 150 + r.below(500);
    for e in n.evs.drain(..) {
        let t = e.t;
        out.push(e);
        if r.chance(rate) {
            let style = r.below(4) as u8;
            let reports: Vec<(u8, Vec<V>)> = match style {
                2 => vec![0u8, 1],
                3 => vec![r.idx(3) as u8],
                _ => (0..2 + r.idx(3)).map(|_| r.idx(3) as u8).collect(),
            }
            .into_iter()
            .map(|i| (i, gen::vec(r, n.mode, d.o[i as usize])))
            .collect();
            out.push(Ev { t, op: Op::Batch(style, reports), fault: None });
        }
    }
    n.evs = out;
    p
}

fn mul_bits(v: &[u64], num: i64, den: i64) -> Vec<u64> {
    v.iter()
        .map(|b| {
            if mode() == Mode::GF {
                gf::mul(gf::mul(*b, gf::from_i64(num)), gf::inv(gf::from_i64(den)))
            } else {
                from_f64(to_f64(*b) * num as f64 / den as f64).0
            }
        })
        .collect()
}

fn run_c09(plan: &Plan, obs: &mut Obs) -> Res<()> {
    well_formed(plan)?;
    let n = node0(plan)?;
    set_mode(n.mode);
    let mut l = Live::new(n);
    let mut m = Live::new(n);
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        match &e.op {
            Op::Set(s, v) => {
                l.set(*s, v);
                m.set(*s, v);
            }
            Op::Batch(style, reps) => {
                if reps.iter().any(|(i, z)| *i > 2 || z.len() != l.dims.o[*i as usize]) || reps.is_empty() {
                    return Err(Stop::Inconclusive("malformed plan"));
                }
                m.adopt(&mut l);
                let pre = l.xp();
                match batch(n, &mut l, &mut m, *style, reps, obs) {
                    Err(Stop::Inconclusive("unusable report")) => {
                        // out of this property's domain; the batch is withdrawn
                        l.set_bits(Slot::X, &pre.0);
                        l.set_bits(Slot::P, &pre.1);
                    }
                    r => r?,
                }
            }
            op if op.is_step() => {
                let r = go(&mut l, op, obs);
                if r.end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}

fn batch(n: &Node, l: &mut Live, m: &mut Live, style: u8, reps: &[(u8, Vec<V>)], obs: &mut Obs) -> Res<()> {
    let ops: Vec<Op> = reps.iter().map(|(i, z)| lin(n.ext, &Op::Correct(*i, z.clone()))).collect();
    let how = match style {
        2 => {
            if reps.len() != 2 || reps[0].0 != 0 || reps[1].0 != 1 {
                return Err(Stop::Inconclusive("malformed plan"));
            }
            // one stacked report on sensor 2
            let (s, o0, o1) = (l.dims.s, l.dims.o[0], l.dims.o[1]);
            let mut h = l.input(Slot::H(0));
            h.extend(l.input(Slot::H(1)));
            let (r0, r1) = (l.input(Slot::R(0)), l.input(Slot::R(1)));
            let o = o0 + o1;
            let mut r = vec![0u64; o * o];
            for i in 0..o0 {
                for j in 0..o0 {
                    r[i * o + j] = r0[i * o0 + j];
                }
            }
            for i in 0..o1 {
                for j in 0..o1 {
                    r[(o0 + i) * o + o0 + j] = r1[i * o1 + j];
                }
            }
            let _ = s;
            m.set_bits(Slot::H(2), &h);
            m.set_bits(Slot::R(2), &r);
            let z: Vec<V> = reps[0].1.iter().chain(&reps[1].1).copied().collect();
            for op in &ops {
                clean(l, op, obs)?;
            }
            clean(m, &lin(n.ext, &Op::Correct(2, z)), obs)?;
            obs.fault("reports_stacked");
            "one by one and stacked"
        }
        3 => {
            // the same report twice, or once with half the noise
            let i = reps[0].0;
            let half = mul_bits(&l.input(Slot::R(i)), 1, 2);
            m.set_bits(Slot::R(i), &half);
            clean(l, &ops[0], obs)?;
            clean(l, &ops[0], obs)?;
            clean(m, &ops[0], obs)?;
            obs.fault("report_duplicated");
            "twice and once with half the noise"
        }
        _ => {
            let mut alt = ops.clone();
            if style == 0 {
                alt.reverse();
            } else {
                alt.rotate_left(1);
            }
            for op in &ops {
                clean(l, op, obs)?;
            }
            for op in &alt {
                clean(m, op, obs)?;
            }
            obs.fault("reports_reordered");
            "in two orders"
        }
    };
    obs.checks += 1;
    obs.probes += 1;
    close(l, m, "delivery", &format!("when simultaneous reports arrive {how}"))?;
    let x = l.xp();
    obs.see(&x.0);
    obs.see(&x.1);
    Ok(())
}

// ---------------------------------------------------------------------------------------- C15

const STYLES: [&str; 10] = [
    "two ticks coalesced into one",
    "forgetting factor one",
    "two forgetting factors merged",
    "control deferred past the tick",
    "two commands merged",
    "command noise folded into the tick",
    "steps that carry no information",
    "forgetting applied to the covariance beforehand",
    "process noise split over two ticks",
    "extended filter with linear functions",
];

fn gen_c15(r: &mut Rng, seed: u64) -> Plan {
    let ext = if r.chance(350) { 1000 } else { 0 };
    let mut p = gen::simple(r, "C15", seed, &Prof { ext, modes: modes(), linear_cb: true, max_ev: 20, ..Prof::default() });
    let n = &mut p.nodes[0];
    let d = rig::CONFIGS[n.cfg];
    let m = n.mode;
    let mut out = vec![];
    let rate = 150 + r.below(500);
    for e in n.evs.drain(..) {
        let t = e.t;
        out.push(e);
        if r.chance(rate) {
            let st: u8 = if n.ext { *r.pick(&[0u8, 1, 2, 6, 7, 8]) } else { r.below(10) as u8 };
            let j = r.idx(2);
            let i = r.idx(3);
            let par = vec![
                vec![gen::lambda(r, m), gen::lambda(r, m)],
                vec![V(j as i64), V(i as i64), V(r.below(3) as i64)],
                gen::vec(r, m, if n.ext { 0 } else { d.c[j] }),
                gen::vec(r, m, if n.ext { 0 } else { d.c[j] }),
                gen::vec(r, m, d.o[i]),
                gen::sym(r, m, d.s, 0.01, 0.2, true),
            ];
            out.push(Ev { t, op: Op::Split(st, par), fault: None });
        }
    }
    n.evs = out;
    p
}

pub fn bits<N: Num>(m: &M<N>) -> Vec<u64> {
    m.d.iter()
        .map(|v| if N::EXACT { v.bits() } else { from_f64(v.val()).0 })
        .collect()
}

fn split<N: Num>(l: &mut Live, m: &mut Live, st: u8, par: &[Vec<V>], obs: &mut Obs) -> Res<()> {
    let ext = l.ext;
    let n = l.dims.s;
    let (l1, l2) = (par[0][0], par[0][1]);
    let j = par[1][0].0 as u8;
    let i = par[1][1].0 as u8;
    let which = par[1][2].0;
    let a: M<N> = l.mat(Slot::A);
    let q: M<N> = l.mat(Slot::Q);
    let eye = M::<N>::eye(n);
    let zero = M::<N>::zero(n, n);
    let predict = lin(ext, &Op::Predict);
    let tuned = |v: V| lin(ext, &Op::PredictT(v));
    macro_rules! run {
        ($w:expr, $op:expr) => {
            clean($w, &$op, obs)?
        };
    }
    macro_rules! put {
        ($w:expr, $s:expr, $v:expr) => {
            $w.set_bits($s, &bits(&$v))
        };
    }
    match st {
        0 => {
            run!(l, predict);
            run!(l, predict);
            put!(m, Slot::A, a.mul(&a));
            put!(m, Slot::Q, a.mul(&q).mul(&a.t()).add(&q));
            run!(m, predict);
        }
        1 => {
            run!(l, predict);
            run!(m, tuned(V(1 << 20)));
        }
        2 => {
            // without process noise
            put!(l, Slot::Q, zero);
            put!(m, Slot::Q, zero);
            run!(l, tuned(l1));
            run!(l, tuned(l2));
            put!(m, Slot::A, a.mul(&a));
            // λ1·λ2 has to be representable in a plan: apply it as a product of the two scalars
            let f = N::of(l1.to_dyn().0).mul(N::of(l2.to_dyn().0));
            let inv2 = N::int(1).div(f.mul(f));
            let p = M::<N>::of(n, n, &m.p()).scale(inv2);
            put!(m, Slot::P, p);
            run!(m, predict);
        }
        3 => {
            let u = par[2].clone();
            run!(l, Op::Control(j, u.clone()));
            run!(l, predict);
            let b: M<N> = l.mat(Slot::B(j));
            run!(m, predict);
            put!(m, Slot::B(j), a.mul(&b));
            run!(m, Op::Control(j, u));
        }
        4 => {
            run!(l, Op::Control(j, par[2].clone()));
            run!(l, Op::Control(j, par[3].clone()));
            let qc: M<N> = l.mat(Slot::Qc(j));
            put!(m, Slot::Qc(j), qc.scale(N::int(2)));
            let sum: Vec<V> = par[2].iter().zip(&par[3]).map(|(a, b)| V(a.0 + b.0)).collect();
            run!(m, Op::Control(j, sum));
        }
        5 => {
            run!(l, predict);
            run!(l, Op::Control(j, par[2].clone()));
            let b: M<N> = l.mat(Slot::B(j));
            let qc: M<N> = l.mat(Slot::Qc(j));
            put!(m, Slot::Q, q.add(&b.mul(&qc).mul(&b.t())));
            put!(m, Slot::Qc(j), qc.scale(N::int(0)));
            run!(m, predict);
            run!(m, Op::Control(j, par[2].clone()));
        }
        6 => match which {
            0 => {
                put!(l, Slot::A, eye);
                put!(l, Slot::Q, zero);
                run!(l, predict);
            }
            1 if !ext => {
                let qc: M<N> = l.mat(Slot::Qc(j));
                put!(l, Slot::Qc(j), qc.scale(N::int(0)));
                run!(l, Op::Control(j, vec![V(0); l.dims.c[j as usize]]));
            }
            _ => {
                let h: M<N> = l.mat(Slot::H(i));
                put!(l, Slot::H(i), h.scale(N::int(0)));
                let one = M::<N>::eye(l.dims.o[i as usize]);
                let k = if l.mode == Mode::GF { 0 } else { l.units.of(Slot::R(i)) };
                put!(l, Slot::R(i), M { d: one.d.iter().map(|v| v.ldexp(k)).collect(), ..one });
                run!(l, lin(ext, &Op::Correct(i, par[4].clone())));
            }
        },
        7 => {
            run!(l, tuned(l1));
            let f = N::of(l1.to_dyn().0);
            let p = M::<N>::of(n, n, &m.p()).scale(N::int(1).div(f.mul(f)));
            put!(m, Slot::P, p);
            run!(m, predict);
        }
        8 => {
            let extra = M::<N>::of(n, n, &l.scaled(Slot::Q, &par[5]).iter().map(|d| d.0).collect::<Vec<_>>());
            put!(l, Slot::Q, q.add(&extra));
            run!(l, predict);
            run!(m, predict);
            put!(m, Slot::A, eye);
            put!(m, Slot::Q, extra);
            run!(m, predict);
        }
        _ => {
            // the same history on an extended filter
            let mut e = Live::bare(l.mode, RigKind::Arena, cfg_of(l), true, which as u32 * 677 & rig::API_ALL, 0, l.units);
            let (x, p) = l.xp();
            e.set_bits(Slot::X, &x);
            e.set_bits(Slot::P, &p);
            for s in e.inputs.keys().copied().collect::<Vec<_>>() {
                e.set_bits(s, &l.input(s));
            }
            for op in [Op::Predict, Op::Correct(i, par[4].clone()), Op::PredictT(l1), Op::Correct(i, par[4].clone())] {
                run!(l, op);
                run!(&mut e, lin(true, &op));
            }
            return close(l, &mut e, "equivalence", &format!("({})", STYLES[9]));
        }
    }
    close(l, m, "equivalence", &format!("({})", STYLES[st as usize]))
}

fn run_c15(plan: &Plan, obs: &mut Obs) -> Res<()> {
    well_formed(plan)?;
    let n = node0(plan)?;
    set_mode(n.mode);
    let mut l = Live::new(n);
    let mut m = Live::new(n);
    for e in &n.evs {
        if !l.valid(&e.op) {
            return Err(Stop::Inconclusive("malformed plan"));
        }
        match &e.op {
            Op::Set(s, v) => l.set(*s, v),
            Op::Split(st, par) => {
                let (j, i) = match par.get(1) {
                    Some(v) if v.len() == 3 => (v[0].0 as usize, v[1].0 as usize),
                    _ => return Err(Stop::Inconclusive("malformed plan")),
                };
                let d = l.dims;
                let ok = par.len() == 6
                    && *st < 10
                    && j < 2
                    && i < 3
                    && par[0].len() == 2
                    && par[0].iter().all(|v| v.0 != 0)
                    && par[2].len() == d.c[j]
                    && par[3].len() == d.c[j]
                    && par[4].len() == d.o[i]
                    && par[5].len() == d.s * d.s
                    && !(n.ext && matches!(st, 3 | 4 | 5 | 9));
                if !ok {
                    return Err(Stop::Inconclusive("malformed plan"));
                }
                m.adopt(&mut l);
                let keep = l.inputs.clone();
                let pre = l.xp();
                let r = if n.mode == Mode::GF {
                    split::<G>(&mut l, &mut m, *st, par, obs)
                } else {
                    split::<F>(&mut l, &mut m, *st, par, obs)
                };
                for (s, v) in keep {
                    let b: Vec<u64> = v.iter().map(|d| d.0).collect();
                    l.set_bits(s, &b);
                }
                if let Err(Stop::Inconclusive("unusable report")) = r {
                    l.set_bits(Slot::X, &pre.0);
                    l.set_bits(Slot::P, &pre.1);
                    continue;
                }
                r?;
                obs.checks += 1;
                obs.probes += 1;
                obs.fault(match st {
                    0 => "tick_coalesced",
                    1 | 2 | 7 => "forgetting_rearranged",
                    3 => "command_delayed_past_tick",
                    4 => "commands_merged",
                    5 => "command_noise_folded",
                    6 => "empty_step_inserted",
                    8 => "tick_split",
                    _ => "filter_kind_exchanged",
                });
                let x = l.xp();
                obs.see(&x.0);
                obs.see(&x.1);
            }
            op if op.is_step() => {
                let r = go(&mut l, op, obs);
                if r.end != End::Done {
                    return Err(Stop::Inconclusive("step panics on its own"));
                }
            }
            _ => return Err(Stop::Inconclusive("malformed plan")),
        }
    }
    Ok(())
}
