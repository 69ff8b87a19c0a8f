//! C08: filters that preempt each other in the middle of steps, on one stack (interrupts) or on
//! real threads under a baton, with filters migrating between threads.

use super::*;
use crate::gen::{self, Prof};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::mpsc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C08",
        title: "filters are isolated from each other under preemption",
        gen: gen_c08,
        run: run_c08,
        quick: 80_000,
        thorough: 2_400_000,
        rule: "a run is several filters whose steps preempt each other at seeded scalar operations, compared with each filter alone; non-trivial: at least one preemption inside a step happened",
        nontrivial: |o| o.faults.contains_key("preempted_by_interrupt") || o.faults.contains_key("preempted_by_thread"),
    }]
}

fn gen_c08(r: &mut Rng, seed: u64) -> Plan {
    let mut p = gen::plan("C08", seed);
    let style = r.below(3).min(1);
    p.params.insert("threads".into(), if style == 1 && r.chance(500) { 2 + r.below(3) as i64 } else { 0 });
    let k = 2 + r.idx(3);
    let same = r.chance(600);
    for i in 0..k {
        let ext = if r.chance(400) { 1000 } else { 0 };
        let prof = Prof { ext, max_ev: 14, ..Prof::default() };
        let mut n;
        if i > 0 && same {
            // identical dimensions and storage: the case in which hidden sharing would show
            let b = p.nodes[0].clone();
            n = gen::shell(r, &Prof { cfgs: Some(vec![b.cfg]), ext: if b.ext { 1000 } else { 0 }, modes: vec![(1, b.mode)], ..prof });
            n.rig = b.rig;
            n.layout = b.layout;
        } else {
            n = gen::shell(r, &prof);
        }
        let prof = Prof { max_ev: 14, ..Prof::default() };
        gen::world(r, &mut n, &prof, &mut p.env);
        n.evs.truncate(40);
        if r.chance(250) {
            gen::skew(r, &mut n);
        }
        p.nodes.push(n);
    }
    let events: usize = p.nodes.iter().map(|n| n.evs.len()).sum();
    for _ in 0..events * (1 + r.idx(4)) {
        // how far to run, and who comes next
        let gap = match r.below(4) {
            0 => 1 + r.below(8),
            1 => 1 + r.below(60),
            _ => 1 + (1u64 << r.below(12)) + r.below(40),
        };
        p.sched.push(gap | r.below(1 << 12) << 16);
    }
    p
}

struct Sched {
    lives: Vec<Option<Live>>,
    evs: Vec<Vec<Ev>>,
    pos: Vec<usize>,
    trace: Vec<Vec<XP>>,
    dec: Vec<u64>,
    di: usize,
    depth: usize,
    err: Option<Stop>,
    faults: Vec<&'static str>,
    steps: u64,
    digest: Vec<u64>,
}

impl Sched {
    fn next(&mut self) -> Option<u64> {
        let d = self.dec.get(self.di).copied();
        self.di += 1;
        d
    }
    fn done(&mut self, i: usize, mut l: Live, end: Result<(), Stop>) {
        let at = self.pos[i];
        self.pos[i] += 1;
        self.steps += 1;
        let r = end.and_then(|_| {
            let xp = l.xp();
            self.digest.extend(&xp.0);
            same("isolation", &format!("between filter {i} preempted and alone after event {at} ({})", opname(&self.evs[i][at].op)), l.mode, &xp, &self.trace[i][at])?;
            inputs_intact(&mut l, &format!("in filter {i} during event {at} under preemption"))
        });
        if let (Err(e), None) = (r, &self.err) {
            self.err = Some(e);
        }
        self.lives[i] = Some(l);
    }
}

fn perform(l: &mut Live, e: &Ev, o: StepOpt) -> Result<(), Stop> {
    match &e.op {
        Op::Set(s, v) => l.set(*s, v),
        op => {
            l.load(op);
            let r = l.step(op, o);
            match r.end {
                End::Done => {}
                e2 => return fail("panic", format!("{} under preemption ended with {e2:?}", opname(op))),
            }
        }
    }
    Ok(())
}

fn run_event(s: &Rc<RefCell<Sched>>, i: usize) {
    let (mut live, ev, first) = {
        let mut b = s.borrow_mut();
        b.depth += 1;
        let live = b.lives[i].take().unwrap();
        let ev = b.evs[i][b.pos[i]].clone();
        let first = b.next().map(|d| d & 0xffff).unwrap_or(u64::MAX);
        (live, ev, first)
    };
    let s2 = s.clone();
    let hook: Hook = Box::new(move |n| {
        let pick = {
            let mut b = s2.borrow_mut();
            let Some(d) = b.next() else { return u64::MAX };
            let free: Vec<usize> = (0..b.lives.len())
                .filter(|j| b.lives[*j].is_some() && b.pos[*j] < b.evs[*j].len())
                .collect();
            if b.depth >= 4 || free.is_empty() {
                None
            } else {
                let k = if b.depth > 1 { "nested_preemption" } else { "preempted_by_interrupt" };
                b.faults.push(k);
                Some(free[(d >> 16) as usize % free.len()])
            }
        };
        if let Some(j) = pick {
            let t = save_ticks();
            run_event(&s2, j);
            restore_ticks(t);
        }
        match s2.borrow_mut().next() {
            Some(d) => n + (d & 0xffff).max(1),
            None => u64::MAX,
        }
    });
    let end = perform(&mut live, &ev, StepOpt { preempt: Some((first, hook)), ..Default::default() });
    let mut b = s.borrow_mut();
    b.done(i, live, end);
    b.depth -= 1;
}

fn run_nested(s: Sched) -> Sched {
    let s = Rc::new(RefCell::new(s));
    loop {
        let pick = {
            let mut b = s.borrow_mut();
            let left: Vec<usize> = (0..b.lives.len()).filter(|j| b.pos[*j] < b.evs[*j].len()).collect();
            if left.is_empty() || b.err.is_some() {
                break;
            }
            let d = b.next().unwrap_or(0);
            left[(d >> 16) as usize % left.len()]
        };
        run_event(&s, pick);
    }
    match Rc::try_unwrap(s) {
        Ok(s) => s.into_inner(),
        Err(_) => panic!("harness: scheduler still referenced"),
    }
}

enum Cmd {
    Run(usize, Box<Live>, Ev, u64),
    Resume(u64),
}
enum Rep {
    Paused,
    Finished(usize, Box<Live>, Result<(), Stop>),
}

fn run_threads(mut s: Sched, workers: usize) -> Sched {
    std::thread::scope(|scope| {
        let mut cmd = vec![];
        let mut rep = vec![];
        for _ in 0..workers {
            let (ct, cr) = mpsc::channel::<Cmd>();
            let (rt, rr) = mpsc::channel::<Rep>();
            cmd.push(ct);
            rep.push(rr);
            scope.spawn(move || {
                let cr = Rc::new(cr);
                while let Ok(Cmd::Run(i, mut live, ev, first)) = cr.recv() {
                    let (cr2, rt2) = (cr.clone(), rt.clone());
                    let hook: Hook = Box::new(move |n| {
                        if rt2.send(Rep::Paused).is_err() {
                            return u64::MAX;
                        }
                        match cr2.recv() {
                            Ok(Cmd::Resume(g)) => n.saturating_add(g.max(1)),
                            _ => u64::MAX,
                        }
                    });
                    let end = perform(&mut live, &ev, StepOpt { preempt: Some((first, hook)), ..Default::default() });
                    if rt.send(Rep::Finished(i, live, end)).is_err() {
                        break;
                    }
                }
            });
        }
        // Some(node) while a step of that node is suspended on this thread
        let mut busy: Vec<Option<usize>> = vec![None; workers];
        let mut home: Vec<Option<usize>> = vec![None; s.lives.len()];
        loop {
            let d = s.next();
            let gap = d.map(|d| d & 0xffff).unwrap_or(u64::MAX);
            let mut acts: Vec<(usize, Option<usize>)> = vec![];
            for (w, b) in busy.iter().enumerate() {
                if b.is_some() {
                    acts.push((w, None));
                } else if s.err.is_none() {
                    for j in 0..s.lives.len() {
                        if s.lives[j].is_some() && s.pos[j] < s.evs[j].len() {
                            acts.push((w, Some(j)));
                        }
                    }
                }
            }
            if acts.is_empty() {
                break;
            }
            let (w, job) = acts[(d.unwrap_or(0) >> 16) as usize % acts.len()];
            match job {
                Some(j) => {
                    if home[j].is_some_and(|h| h != w) {
                        s.faults.push("migrated_between_threads");
                    }
                    home[j] = Some(w);
                    let l = Box::new(s.lives[j].take().unwrap());
                    let e = s.evs[j][s.pos[j]].clone();
                    busy[w] = Some(j);
                    cmd[w].send(Cmd::Run(j, l, e, gap)).expect("harness: worker");
                }
                None => cmd[w].send(Cmd::Resume(gap)).expect("harness: worker"),
            }
            match rep[w].recv().expect("harness: worker") {
                Rep::Paused => s.faults.push("preempted_by_thread"),
                Rep::Finished(i, l, end) => {
                    busy[w] = None;
                    s.done(i, *l, end);
                }
            }
        }
        drop(cmd);
    });
    s
}

fn run_c08(plan: &Plan, obs: &mut Obs) -> Res<()> {
    let mut lives = vec![];
    let mut trace = vec![];
    for n in &plan.nodes {
        set_mode(n.mode);
        let mut g = Live::new(n);
        let mut tr = vec![];
        for e in &n.evs {
            if !g.valid(&e.op) || !(e.op.is_step() || matches!(e.op, Op::Set(..))) {
                return Err(Stop::Inconclusive("malformed plan"));
            }
            if perform(&mut g, e, StepOpt::default()).is_err() {
                return Err(Stop::Inconclusive("step panics on its own"));
            }
            tr.push(g.xp());
        }
        trace.push(tr);
        lives.push(Some(Live::new(n)));
    }
    let s = Sched {
        evs: plan.nodes.iter().map(|n| n.evs.clone()).collect(),
        pos: vec![0; lives.len()],
        lives,
        trace,
        dec: plan.sched.clone(),
        di: 0,
        depth: 0,
        err: None,
        faults: vec![],
        steps: 0,
        digest: vec![],
    };
    let w = plan.params.get("threads").copied().unwrap_or(0) as usize;
    let s = if w > 0 { run_threads(s, w.min(8)) } else { run_nested(s) };
    for f in &s.faults {
        obs.fault(f);
    }
    obs.steps += 2 * s.steps;
    obs.checks += s.steps;
    obs.see(&s.digest);
    match s.err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
