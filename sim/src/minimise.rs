//! Shrinks a failing plan while it keeps failing in the same way.

use crate::exec::Violation;
use crate::plan::*;
use std::time::{Duration, Instant};

pub struct Min<'a> {
    pub test: &'a dyn Fn(&Plan) -> Option<Violation>,
    pub class: String,
    pub best: Plan,
    pub viol: Violation,
    pub tried: u64,
    pub max: u64,
    pub until: Instant,
}

impl<'a> Min<'a> {
    pub fn new(test: &'a dyn Fn(&Plan) -> Option<Violation>, p: Plan, v: Violation, max: u64, secs: u64) -> Min<'a> {
        Min {
            test,
            class: v.class.clone(),
            best: p,
            viol: v,
            tried: 0,
            max,
            until: Instant::now() + Duration::from_secs(secs),
        }
    }
    fn left(&self) -> bool {
        self.tried < self.max && Instant::now() < self.until
    }
    fn attempt(&mut self, p: Plan) -> bool {
        if !self.left() || p == self.best {
            return false;
        }
        self.tried += 1;
        match (self.test)(&p) {
            Some(v) if v.class == self.class => {
                self.best = p;
                self.viol = v;
                true
            }
            _ => false,
        }
    }

    /// Delta debugging over one list.
    fn ddmin(&mut self, len: impl Fn(&Plan) -> usize, cut: impl Fn(&mut Plan, usize, usize)) {
        let mut chunk = len(&self.best).div_ceil(2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < len(&self.best) {
                if !self.left() {
                    return;
                }
                let n = chunk.min(len(&self.best) - i);
                let mut p = self.best.clone();
                cut(&mut p, i, n);
                if self.attempt(p) {
                    any = true;
                } else {
                    i += n;
                }
            }
            if chunk == 1 && !any {
                return;
            }
            if !any {
                chunk = (chunk / 2).max(1);
            }
        }
    }

    pub fn run(&mut self) {
        let lock = self.best.params.get("lockstep") == Some(&1);
        for round in 0..3 {
            let before = self.best.clone();
            // everything after the failing event is usually irrelevant: halves from the end first
            if lock {
                self.ddmin(
                    |p| p.nodes[0].evs.len(),
                    |p, i, n| {
                        for x in &mut p.nodes {
                            x.evs.drain(i..i + n);
                        }
                    },
                );
            } else {
                let mut k = self.best.nodes.len();
                while k > 1 {
                    k -= 1;
                    let mut p = self.best.clone();
                    p.nodes.remove(k);
                    self.attempt(p);
                }
                for k in 0..self.best.nodes.len() {
                    self.ddmin(
                        |p| p.nodes[k].evs.len(),
                        |p, i, n| {
                            p.nodes[k].evs.drain(i..i + n);
                        },
                    );
                }
            }
            self.ddmin(
                |p| p.sched.len(),
                |p, i, n| {
                    p.sched.drain(i..i + n);
                },
            );
            for k in 0..self.best.nodes.len() {
                for i in 0..self.best.nodes[k].evs.len() {
                    if !self.left() {
                        return;
                    }
                    if self.best.nodes[k].evs[i].fault.is_some() {
                        let mut p = self.best.clone();
                        p.nodes[k].evs[i].fault = None;
                        self.attempt(p);
                    }
                    // batches with fewer members
                    while let Op::Batch(s, b) = self.best.nodes[k].evs[i].op.clone() {
                        let mut hit = false;
                        for j in 0..b.len() {
                            let mut c = b.clone();
                            c.remove(j);
                            let mut p = self.best.clone();
                            p.nodes[k].evs[i].op = Op::Batch(s, c);
                            if self.attempt(p) {
                                hit = true;
                                break;
                            }
                        }
                        if !hit {
                            break;
                        }
                    }
                }
                for f in [
                    (|n: &mut Node| n.layout = 0) as fn(&mut Node),
                    |n| n.api = 0,
                    |n| n.rig = RigKind::Arena,
                    |n| n.units = Units::default(),
                    |n| n.units.o = [0; 3],
                    |n| n.units.c = [0; 2],
                ] {
                    let mut p = self.best.clone();
                    f(&mut p.nodes[k]);
                    self.attempt(p);
                }
            }
            if round == 0 {
                self.values(lock);
            }
            if self.best == before {
                break;
            }
        }
    }

    fn values(&mut self, lock: bool) {
        // whole vectors to zero, then single entries to small round numbers
        type Pick = fn(&mut Plan, usize, usize) -> Option<&mut Vec<V>>;
        let init: Pick = |p, k, i| p.nodes.get_mut(k)?.init.get_mut(i).map(|s| &mut s.1);
        let evs: Pick = |p, k, i| match &mut p.nodes.get_mut(k)?.evs.get_mut(i)?.op {
            Op::Set(_, v) | Op::Control(_, v) | Op::Correct(_, v) | Op::CorrectNl(_, _, v) => Some(v),
            _ => None,
        };
        let nodes = self.best.nodes.len();
        for pick in [init, evs] {
            for k in 0..if lock { 1 } else { nodes } {
                let mut i = 0;
                let mut probe = self.best.clone();
                loop {
                    if !self.left() {
                        return;
                    }
                    let n = match (pick(&mut probe, k, i), k) {
                        (Some(v), _) => v.len(),
                        (None, _) => {
                            let max = self.best.nodes[k].init.len().max(self.best.nodes[k].evs.len());
                            i += 1;
                            if i > max {
                                break;
                            }
                            continue;
                        }
                    };
                    let edit = |q: &mut Plan, f: &dyn Fn(&mut Vec<V>)| {
                        for kk in if lock { 0..nodes } else { k..k + 1 } {
                            if let Some(v) = pick(q, kk, i) {
                                f(v);
                            }
                        }
                    };
                    let mut q = self.best.clone();
                    edit(&mut q, &|v| v.fill(V(0)));
                    if !self.attempt(q) && n <= 64 {
                        for j in 0..n {
                            if !self.left() {
                                return;
                            }
                            let mut q = self.best.clone();
                            edit(&mut q, &|v| v[j] = V(0));
                            if self.attempt(q) {
                                continue;
                            }
                            let mut q = self.best.clone();
                            edit(&mut q, &|v| {
                                if !v[j].special() {
                                    let r = (v[j].0 + (1 << 19)) >> 20 << 20;
                                    v[j] = V(if r == 0 { 1 << 20 } else { r });
                                }
                            });
                            self.attempt(q);
                        }
                    }
                    i += 1;
                }
            }
        }
    }
}
