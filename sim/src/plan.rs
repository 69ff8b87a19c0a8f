//! A plan is one complete, concrete execution: every delivered message, every fault and every
//! scheduling decision is written down. Executing a plan involves no randomness beyond the seeds
//! printed in it, so a plan file is a replay file.

use crate::scalar::{from_f64, gf, mode, Dyn, Mode};
use std::collections::BTreeMap;
use std::fmt::Write as _;

/// A number as it appears in a plan: a multiple of 2^-20, or a special payload.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct V(pub i64);

pub const NAN: V = V(i64::MIN);
pub const PINF: V = V(i64::MIN + 1);
pub const NINF: V = V(i64::MIN + 2);
pub const HUGE: V = V(i64::MIN + 3);
pub const TINY: V = V(i64::MIN + 4);

impl V {
    pub fn f(x: f64) -> V {
        V((x * 1048576.0).round() as i64)
    }
    pub fn special(self) -> bool {
        self.0 < i64::MIN + 16
    }
    pub fn to_dyn(self) -> Dyn {
        match self {
            NAN => from_f64(f64::NAN),
            PINF => from_f64(f64::INFINITY),
            NINF => from_f64(f64::NEG_INFINITY),
            HUGE => from_f64(3.0e30),
            TINY => from_f64(1.0e-42),
            V(n) if mode() == Mode::GF => Dyn(gf::dyadic(n, 20)),
            V(n) => from_f64(n as f64 / 1048576.0),
        }
    }
    fn text(self) -> String {
        match self {
            NAN => "nan".into(),
            PINF => "inf".into(),
            NINF => "-inf".into(),
            HUGE => "huge".into(),
            TINY => "tiny".into(),
            V(n) => n.to_string(),
        }
    }
    fn parse(s: &str) -> Result<V, String> {
        Ok(match s {
            "nan" => NAN,
            "inf" => PINF,
            "-inf" => NINF,
            "huge" => HUGE,
            "tiny" => TINY,
            _ => V(s.parse().map_err(|_| format!("bad number {s}"))?),
        })
    }
}

pub fn dyns(v: &[V]) -> Vec<Dyn> {
    v.iter().map(|v| v.to_dyn()).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Slot {
    X,
    P,
    A,
    Q,
    H(u8),
    R(u8),
    Z(u8),
    B(u8),
    Qc(u8),
    U(u8),
}

impl Slot {
    pub fn text(self) -> String {
        match self {
            Slot::X => "X".into(),
            Slot::P => "P".into(),
            Slot::A => "A".into(),
            Slot::Q => "Q".into(),
            Slot::H(i) => format!("H{i}"),
            Slot::R(i) => format!("R{i}"),
            Slot::Z(i) => format!("Z{i}"),
            Slot::B(i) => format!("B{i}"),
            Slot::Qc(i) => format!("C{i}"),
            Slot::U(i) => format!("U{i}"),
        }
    }
    fn parse(s: &str) -> Result<Slot, String> {
        let (h, t) = s.split_at(1);
        let i = || t.parse::<u8>().map_err(|_| format!("bad slot {s}"));
        Ok(match h {
            "X" => Slot::X,
            "P" => Slot::P,
            "A" => Slot::A,
            "Q" => Slot::Q,
            "H" => Slot::H(i()?),
            "R" => Slot::R(i()?),
            "Z" => Slot::Z(i()?),
            "B" => Slot::B(i()?),
            "C" => Slot::Qc(i()?),
            "U" => Slot::U(i()?),
            _ => return Err(format!("bad slot {s}")),
        })
    }
}

/// A nonlinear function, given by a seed: the callback computes a fixed function of (seed, x).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct FSpec {
    pub seed: u64,
    /// 0: random nonlinear, 1: identity/zero-ish, 2: linear by the current A or H, 3: NaN output
    pub kind: u8,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Set(Slot, Vec<V>),
    Predict,
    PredictT(V),
    PredictNl(FSpec),
    PredictTNl(V, FSpec),
    Control(u8, Vec<V>),
    Correct(u8, Vec<V>),
    CorrectNl(u8, FSpec, Vec<V>),
    /// Durable checkpoint of (x, P).
    Ckpt,
    /// Power loss between steps.
    Crash,
    /// Scratch memory is overwritten with garbage (kind, seed).
    Scribble(u8, u64),
    /// Several reports become available at one instant: (sensor, z); `style` picks the alternative
    /// delivery compared against.
    Batch(u8, Vec<(u8, Vec<V>)>),
    /// One tick that can be delivered as one or as two (style, parameters).
    Split(u8, Vec<Vec<V>>),
}

impl Op {
    pub fn is_step(&self) -> bool {
        matches!(
            self,
            Op::Predict
                | Op::PredictT(_)
                | Op::PredictNl(_)
                | Op::PredictTNl(..)
                | Op::Control(..)
                | Op::Correct(..)
                | Op::CorrectNl(..)
        )
    }
    pub fn is_predict(&self) -> bool {
        matches!(
            self,
            Op::Predict | Op::PredictT(_) | Op::PredictNl(_) | Op::PredictTNl(..)
        )
    }
    pub fn is_correct(&self) -> bool {
        matches!(self, Op::Correct(..) | Op::CorrectNl(..))
    }
    pub fn code(&self) -> u64 {
        match self {
            Op::Set(s, _) => {
                0x100 + match s {
                    Slot::X => 0,
                    Slot::P => 1,
                    Slot::A => 2,
                    Slot::Q => 3,
                    Slot::H(i) => 0x10 + *i as u64,
                    Slot::R(i) => 0x20 + *i as u64,
                    Slot::Z(i) => 0x30 + *i as u64,
                    Slot::B(i) => 0x40 + *i as u64,
                    Slot::Qc(i) => 0x50 + *i as u64,
                    Slot::U(i) => 0x60 + *i as u64,
                }
            }
            Op::Predict => 1,
            Op::PredictT(_) => 2,
            Op::PredictNl(_) => 3,
            Op::PredictTNl(..) => 4,
            Op::Control(j, _) => 0x10 + *j as u64,
            Op::Correct(i, _) => 0x20 + *i as u64,
            Op::CorrectNl(i, ..) => 0x30 + *i as u64,
            Op::Ckpt => 5,
            Op::Crash => 6,
            Op::Scribble(k, _) => 0x40 + *k as u64,
            Op::Batch(s, b) => 0x80 + *s as u64 * 8 + b.len() as u64,
            Op::Split(s, _) => 0x60 + *s as u64,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Fault {
    /// The step is cut short (power loss, trap) after this share of its arithmetic (permille).
    Trap(u32),
    /// The user callback fails: permille of its writes done before failing.
    CbFail(u32),
    /// This event is visible only to the faulted execution (an injected extra event).
    Extra,
    /// The step is made and then undone: estimate and inputs are put back (a speculative step, or a
    /// sensor that served another filter in between when the kind is odd).
    Undo(u32),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Ev {
    pub t: u64,
    pub op: Op,
    pub fault: Option<Fault>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum RigKind {
    Arena,
    Boxed,
    Builder,
    Array,
    Slice,
    Macro,
    Wrap,
}
impl RigKind {
    pub const ALL: [RigKind; 7] = [
        RigKind::Arena,
        RigKind::Boxed,
        RigKind::Builder,
        RigKind::Array,
        RigKind::Slice,
        RigKind::Macro,
        RigKind::Wrap,
    ];
    pub fn name(self) -> &'static str {
        match self {
            RigKind::Arena => "arena",
            RigKind::Boxed => "boxed",
            RigKind::Builder => "builder",
            RigKind::Array => "array",
            RigKind::Slice => "slice",
            RigKind::Macro => "macro",
            RigKind::Wrap => "wrap",
        }
    }
}

/// The units a deployment measures in, as powers of two: of the state, of each sensor relative to
/// the state, of each actuator. Numbers in a plan are in plain units; what the filter is given is
/// scaled.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Units {
    pub s: i32,
    pub o: [i32; 3],
    pub c: [i32; 2],
}

impl Units {
    /// Binary exponent by which this slot's numbers are scaled.
    pub fn of(&self, s: Slot) -> i32 {
        match s {
            Slot::X => self.s,
            Slot::P | Slot::Q => 2 * self.s,
            Slot::A => 0,
            Slot::H(i) => self.o[i as usize],
            Slot::Z(i) => self.s + self.o[i as usize],
            Slot::R(i) => 2 * (self.s + self.o[i as usize]),
            Slot::B(j) => self.s - self.c[j as usize],
            Slot::Qc(j) => 2 * self.c[j as usize],
            Slot::U(j) => self.c[j as usize],
        }
    }
    fn text(&self) -> String {
        let v = [self.s, self.o[0], self.o[1], self.o[2], self.c[0], self.c[1]];
        v.map(|v| v.to_string()).join(",")
    }
    fn parse(s: &str) -> Result<Units, String> {
        let v: Vec<i32> = s
            .split(',')
            .map(|v| v.parse().map_err(|_| format!("bad units {s}")))
            .collect::<Result<_, _>>()?;
        match v[..] {
            [s, a, b, c, d, e] => Ok(Units { s, o: [a, b, c], c: [d, e] }),
            _ => Err(format!("bad units {s}")),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Node {
    pub mode: Mode,
    pub cfg: usize,
    pub rig: RigKind,
    pub ext: bool,
    pub units: Units,
    /// Which public entry points are used (bit set, see rig.rs).
    pub api: u32,
    /// Memory layout: bits, see storage.rs.
    pub layout: u32,
    pub init: Vec<(Slot, Vec<V>)>,
    pub evs: Vec<Ev>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Plan {
    pub property: String,
    pub seed: u64,
    pub nodes: Vec<Node>,
    /// Scheduling decisions, meaning depends on the property.
    pub sched: Vec<u64>,
    pub params: BTreeMap<String, i64>,
    /// What the simulated environment did to the message streams (already reflected in the events).
    pub env: BTreeMap<String, u64>,
}

fn vs(o: &mut String, v: &[V]) {
    for x in v {
        let _ = write!(o, " {}", x.text());
    }
}

impl Plan {
    pub fn text(&self) -> String {
        let mut o = String::new();
        let _ = writeln!(o, "kalman-sim-plan 1");
        let _ = writeln!(o, "property {}", self.property);
        let _ = writeln!(o, "seed {}", self.seed);
        for (k, v) in &self.params {
            let _ = writeln!(o, "param {k} {v}");
        }
        for (k, v) in &self.env {
            let _ = writeln!(o, "env {k} {v}");
        }
        if !self.sched.is_empty() {
            let _ = write!(o, "sched");
            for s in &self.sched {
                let _ = write!(o, " {s}");
            }
            o.push('\n');
        }
        for n in &self.nodes {
            let _ = writeln!(
                o,
                "node {} cfg={} rig={} ext={} api={} layout={}{}",
                n.mode.name(),
                n.cfg,
                n.rig.name(),
                n.ext as u8,
                n.api,
                n.layout,
                if n.units == Units::default() { String::new() } else { format!(" units={}", n.units.text()) }
            );
            for (s, v) in &n.init {
                let _ = write!(o, "init {}", s.text());
                vs(&mut o, v);
                o.push('\n');
            }
            for e in &n.evs {
                let _ = write!(o, "ev {}", e.t);
                match &e.fault {
                    None => {}
                    Some(Fault::Trap(p)) => {
                        let _ = write!(o, " !trap={p}");
                    }
                    Some(Fault::CbFail(p)) => {
                        let _ = write!(o, " !cbfail={p}");
                    }
                    Some(Fault::Extra) => o.push_str(" !extra"),
                    Some(Fault::Undo(k)) => {
                        let _ = write!(o, " !undo={k}");
                    }
                }
                match &e.op {
                    Op::Set(s, v) => {
                        let _ = write!(o, " set {}", s.text());
                        vs(&mut o, v);
                    }
                    Op::Predict => o.push_str(" predict"),
                    Op::PredictT(l) => {
                        let _ = write!(o, " predict_tuned {}", l.text());
                    }
                    Op::PredictNl(f) => {
                        let _ = write!(o, " predict_nl {} {}", f.seed, f.kind);
                    }
                    Op::PredictTNl(l, f) => {
                        let _ = write!(o, " predict_tuned_nl {} {} {}", l.text(), f.seed, f.kind);
                    }
                    Op::Control(j, u) => {
                        let _ = write!(o, " control {j}");
                        vs(&mut o, u);
                    }
                    Op::Correct(i, z) => {
                        let _ = write!(o, " correct {i}");
                        vs(&mut o, z);
                    }
                    Op::CorrectNl(i, f, z) => {
                        let _ = write!(o, " correct_nl {i} {} {}", f.seed, f.kind);
                        vs(&mut o, z);
                    }
                    Op::Ckpt => o.push_str(" checkpoint"),
                    Op::Crash => o.push_str(" crash"),
                    Op::Scribble(k, s) => {
                        let _ = write!(o, " scribble {k} {s}");
                    }
                    Op::Batch(st, b) => {
                        let _ = write!(o, " batch {st}");
                        for (i, z) in b {
                            let _ = write!(o, " / {i}");
                            vs(&mut o, z);
                        }
                    }
                    Op::Split(st, b) => {
                        let _ = write!(o, " split {st}");
                        for z in b {
                            o.push_str(" /");
                            vs(&mut o, z);
                        }
                    }
                }
                o.push('\n');
            }
        }
        o
    }

    pub fn parse(s: &str) -> Result<Plan, String> {
        let mut p = Plan {
            property: String::new(),
            seed: 0,
            nodes: vec![],
            sched: vec![],
            params: BTreeMap::new(),
            env: BTreeMap::new(),
        };
        let mut lines = s.lines();
        if lines.next() != Some("kalman-sim-plan 1") {
            return Err("not a plan file".into());
        }
        let num = |s: &str| s.parse::<i64>().map_err(|_| format!("bad number {s}"));
        let unum = |s: &str| s.parse::<u64>().map_err(|_| format!("bad number {s}"));
        let vals = |w: &[&str]| -> Result<Vec<V>, String> { w.iter().map(|s| V::parse(s)).collect() };
        for l in lines {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let w: Vec<&str> = l.split_whitespace().collect();
            match w[0] {
                "property" => p.property = w[1].into(),
                "seed" => p.seed = unum(w[1])?,
                "param" => {
                    p.params.insert(w[1].into(), num(w[2])?);
                }
                "env" => {
                    p.env.insert(w[1].into(), unum(w[2])?);
                }
                "sched" => {
                    p.sched = w[1..].iter().map(|s| unum(s)).collect::<Result<_, _>>()?;
                }
                "node" => {
                    let mut n = Node {
                        mode: Mode::parse(w[1]).ok_or("bad mode")?,
                        cfg: 0,
                        rig: RigKind::Arena,
                        ext: false,
                        units: Units::default(),
                        api: 0,
                        layout: 0,
                        init: vec![],
                        evs: vec![],
                    };
                    for kv in &w[2..] {
                        let (k, v) = kv.split_once('=').ok_or("bad node line")?;
                        match k {
                            "cfg" => n.cfg = num(v)? as usize,
                            "rig" => {
                                n.rig = *RigKind::ALL
                                    .iter()
                                    .find(|r| r.name() == v)
                                    .ok_or("bad rig")?
                            }
                            "ext" => n.ext = v == "1",
                            "units" => n.units = Units::parse(v)?,
                            "api" => n.api = num(v)? as u32,
                            "layout" => n.layout = num(v)? as u32,
                            _ => return Err("bad node line".into()),
                        }
                    }
                    p.nodes.push(n);
                }
                "init" => {
                    let n = p.nodes.last_mut().ok_or("init before node")?;
                    n.init.push((Slot::parse(w[1])?, vals(&w[2..])?));
                }
                "ev" => {
                    let n = p.nodes.last_mut().ok_or("ev before node")?;
                    let t = unum(w[1])?;
                    let mut i = 2;
                    let mut fault = None;
                    if w[i].starts_with('!') {
                        let f = &w[i][1..];
                        fault = Some(if let Some(x) = f.strip_prefix("trap=") {
                            Fault::Trap(num(x)? as u32)
                        } else if let Some(x) = f.strip_prefix("cbfail=") {
                            Fault::CbFail(num(x)? as u32)
                        } else if let Some(x) = f.strip_prefix("undo=") {
                            Fault::Undo(num(x)? as u32)
                        } else {
                            Fault::Extra
                        });
                        i += 1;
                    }
                    let a = &w[i + 1..];
                    let fs = |a: &[&str]| -> Result<FSpec, String> {
                        Ok(FSpec {
                            seed: unum(a[0])?,
                            kind: num(a[1])? as u8,
                        })
                    };
                    let groups = |a: &[&str]| -> Result<Vec<Vec<V>>, String> {
                        let mut out: Vec<Vec<V>> = vec![];
                        for s in a {
                            if *s == "/" {
                                out.push(vec![]);
                            } else {
                                out.last_mut().ok_or("bad group")?.push(V::parse(s)?);
                            }
                        }
                        Ok(out)
                    };
                    let op = match w[i] {
                        "set" => Op::Set(Slot::parse(a[0])?, vals(&a[1..])?),
                        "predict" => Op::Predict,
                        "predict_tuned" => Op::PredictT(V::parse(a[0])?),
                        "predict_nl" => Op::PredictNl(fs(a)?),
                        "predict_tuned_nl" => Op::PredictTNl(V::parse(a[0])?, fs(&a[1..])?),
                        "control" => Op::Control(num(a[0])? as u8, vals(&a[1..])?),
                        "correct" => Op::Correct(num(a[0])? as u8, vals(&a[1..])?),
                        "correct_nl" => {
                            Op::CorrectNl(num(a[0])? as u8, fs(&a[1..])?, vals(&a[3..])?)
                        }
                        "checkpoint" => Op::Ckpt,
                        "crash" => Op::Crash,
                        "scribble" => Op::Scribble(num(a[0])? as u8, unum(a[1])?),
                        "batch" => Op::Batch(
                            num(a[0])? as u8,
                            groups(&a[1..])?
                                .into_iter()
                                .map(|g| (g[0].0 as u8, g[1..].to_vec()))
                                .collect(),
                        ),
                        "split" => Op::Split(num(a[0])? as u8, groups(&a[1..])?),
                        o => return Err(format!("bad op {o}")),
                    };
                    n.evs.push(Ev { t, op, fault });
                }
                o => return Err(format!("bad line {o}")),
            }
        }
        Ok(p)
    }
}
