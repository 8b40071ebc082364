//! Stateful components behind one small interface, so one driver can run any of them over a faulty
//! link, beside a model written apart from the library.

use crate::core::*;

/// What one call answered.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    V(Vec<f64>),
    E(String),
    /// The model says nothing about this answer.
    Any,
}

pub fn v(x: f64) -> Out {
    Out::V(vec![x])
}
pub fn err<E: std::fmt::Debug>(e: E) -> Out {
    Out::E(format!("{e:?}"))
}
pub fn unit_or<E: std::fmt::Debug>(r: Result<(), E>) -> Out {
    match r {
        Ok(()) => Out::V(vec![]),
        Err(e) => err(e),
    }
}

/// Call numbers: 0 feed, 1 reset, 2.. other changes, 20.. configuration, 50.. reads.
pub const FEED: usize = 0;
pub const RESET: usize = 1;
pub fn is_config(op: usize) -> bool {
    (20..50).contains(&op)
}
pub fn is_read(op: usize) -> bool {
    op >= 50
}

pub trait Comp {
    fn op(&mut self, op: usize, a: &[f64]) -> Out;
    fn dup(&self) -> Box<dyn Comp>;
}

pub trait Model {
    /// `real` is what the library answered; a model may look at it only to break an exact tie.
    fn op(&mut self, op: usize, a: &[f64], real: &Out) -> Out;
    fn dup(&self) -> Box<dyn Model>;
}

pub type MadeReal = Result<Box<dyn Comp>, String>;
pub type MadeModel = Result<Box<dyn Model>, String>;

/// One kind of component.
#[derive(Clone)]
pub struct Kind {
    pub name: &'static str,
    /// Draws constructor arguments; `bad` asks for exactly one unusable argument.
    pub params: fn(&mut Rng, bool) -> Vec<f64>,
    pub real: fn(&[f64]) -> MadeReal,
    pub model: Option<fn(&[f64]) -> MadeModel>,
    /// Draws a call given the constructor arguments, the sample clock and whether the value goes bad.
    pub call: fn(&mut Rng, &[f64], f64, bool) -> (usize, Vec<f64>),
    /// How closely real and model must agree, relative to the largest value seen.
    pub tol: f64,
}

#[macro_export]
macro_rules! comp {
    ($t:ty, |$s:ident, $op:ident, $a:ident| $body:block) => {
        impl $crate::worlds::comps::Comp for $t {
            fn op(&mut self, $op: usize, $a: &[f64]) -> $crate::worlds::comps::Out {
                let $s = self;
                $body
            }
            fn dup(&self) -> Box<dyn $crate::worlds::comps::Comp> {
                Box::new(self.clone())
            }
        }
    };
}
#[macro_export]
macro_rules! model {
    ($t:ty, |$s:ident, $op:ident, $a:ident, $r:ident| $body:block) => {
        impl $crate::worlds::comps::Model for $t {
            fn op(
                &mut self,
                $op: usize,
                $a: &[f64],
                $r: &$crate::worlds::comps::Out,
            ) -> $crate::worlds::comps::Out {
                let $s = self;
                let _ = $r;
                $body
            }
            fn dup(&self) -> Box<dyn $crate::worlds::comps::Model> {
                Box::new(self.clone())
            }
        }
    };
}

pub fn boxed<T: Comp + 'static>(r: Result<T, String>) -> MadeReal {
    r.map(|x| Box::new(x) as Box<dyn Comp>)
}
pub fn modelled<T: Model + 'static>(r: Result<T, String>) -> MadeModel {
    r.map(|x| Box::new(x) as Box<dyn Model>)
}
pub fn say<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}"))
}

/// A signal sample: a slow wave, with steps, spikes, repeats of round values and, when `bad`, a
/// value that is not finite.
pub fn sample(r: &mut Rng, t: f64, bad: bool) -> f64 {
    if bad {
        return r.broken();
    }
    match r.below(12) {
        0 => 0.0,
        1 => *r.pick(&[1.0, -1.0, 0.5, -0.0, 2.0]),
        2 => r.normal() * 1e6,
        3 => r.normal() * 1e-9,
        4 => r.range(-10.0, 10.0),
        _ => 2.0 * (t * 7.0).sin() + 0.3 * r.normal(),
    }
}

// ----- The driver -----

struct Slot {
    kind: usize,
    params: Vec<f64>,
    real: Box<dyn Comp>,
    model: Option<Box<dyn Model>>,
    saved: Option<Saved>,
    scale: f64,
    /// Since when a value that is not finite went in.
    tainted: bool,
    /// Everything that changed this component, in order, with what it answered.
    history: Vec<(usize, Vec<f64>, Out)>,
    since_reset: Vec<(usize, Vec<f64>, Out)>,
    was_reset: bool,
}

struct Saved {
    real: Box<dyn Comp>,
    model: Option<Box<dyn Model>>,
    scale: f64,
    tainted: bool,
    history: Vec<(usize, Vec<f64>, Out)>,
    since_reset: Vec<(usize, Vec<f64>, Out)>,
    was_reset: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// Every answer against the model.
    Model,
    /// Every answer against the same component run alone, restarted from its history.
    Alone,
}

/// A group of components on one machine, each in a slot, calls to them interleaved.
pub struct Components {
    pub name: &'static str,
    pub kinds: fn() -> &'static [Kind],
    pub mode: Mode,
}

const FAULTS: [&str; 6] =
    ["", "repeated sample", "lost sample", "sample not finite", "late sample", "burst of samples"];

fn agree(real: &Out, model: &Out, tol: f64, scale: f64) -> bool {
    match (real, model) {
        (_, Out::Any) => true,
        (Out::E(a), Out::E(b)) => a == b,
        (Out::V(a), Out::V(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(x, y)| {
                    if !x.is_finite() || !y.is_finite() {
                        !x.is_finite() && !y.is_finite()
                    } else {
                        (x - y).abs() <= tol * scale.max(x.abs()).max(1e-300)
                    }
                })
        }
        _ => false,
    }
}

fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::V(x), Out::V(y)) => all_same(x, y),
        (Out::E(x), Out::E(y)) => x == y,
        _ => false,
    }
}

impl World for Components {
    fn name(&self) -> &'static str {
        self.name
    }

    fn generate(&self, r: &mut Rng) -> Trace {
        let kinds = (self.kinds)();
        let mut t = Trace::default();
        let slots = r.int(1, 4);
        let mut held: Vec<(usize, Vec<f64>)> = Vec::new();
        for s in 0..slots {
            let kind = r.below(kinds.len());
            let bad = r.chance(0.06);
            let params = (kinds[kind].params)(r, bad);
            let mut a = vec![s as f64, kind as f64];
            a.extend(&params);
            t.evs.push(ev("new", &a));
            held.push((kind, params));
        }
        let steps = r.int(8, 80);
        let mut clock = 0.0;
        let p_fault = *r.pick(&[0.0, 0.05, 0.2, 0.4]);
        let p_bad = *r.pick(&[0.0, 0.0, 0.02, 0.1]);
        let mut late: Vec<(usize, Vec<f64>)> = Vec::new();
        for i in 0..steps {
            clock += 0.01;
            let s = r.below(slots);
            match r.below(40) {
                0 => {
                    t.evs.push(ev("save", &[s as f64]));
                    continue;
                }
                1 => {
                    t.evs.push(ev("crash", &[s as f64]));
                    continue;
                }
                2 => {
                    let kind = r.below(kinds.len());
                    let bad = r.chance(0.3);
                    let params = (kinds[kind].params)(r, bad);
                    let mut a = vec![s as f64, kind as f64];
                    a.extend(&params);
                    t.evs.push(ev("new", &a));
                    held[s] = (kind, params);
                    continue;
                }
                3 => {
                    t.evs.push(ev("op", &[s as f64, 10.0 * held[s].0 as f64, RESET as f64]));
                    continue;
                }
                _ => {}
            }
            let (kind, params) = held[s].clone();
            let bad = r.chance(p_bad);
            let (op, args) = (kinds[kind].call)(r, &params, clock, bad);
            let mut fault = if bad { 3 } else { 0 };
            if r.chance(p_fault) && !is_read(op) {
                fault = *r.pick(&[1, 2, 4, 5]);
            }
            let make = |f: usize, args: &[f64]| {
                let mut a = vec![s as f64, f as f64 + 10.0 * kind as f64, op as f64];
                a.extend(args);
                ev("op", &a)
            };
            match fault {
                4 if op == FEED => {
                    late.push((i + r.int(2, 6), make(4, &args).a));
                }
                5 => {
                    for _ in 0..r.int(2, 6) {
                        let (op2, args2) = (kinds[kind].call)(r, &params, clock, false);
                        let mut a = vec![s as f64, 5.0 + 10.0 * kind as f64, op2 as f64];
                        a.extend(args2);
                        t.evs.push(ev("op", &a));
                    }
                }
                f => t.evs.push(make(if f == 4 { 0 } else { f }, &args)),
            }
            let (now, later): (Vec<_>, Vec<_>) = late.drain(..).partition(|(at, _)| *at <= i);
            for (_, a) in now {
                t.evs.push(ev("op", &a));
            }
            late = later;
        }
        t
    }

    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let kinds = (self.kinds)();
        let mut slots: Vec<Option<Slot>> = (0..4).map(|_| None).collect();
        for e in &t.evs {
            cx.step(e.k);
            let s = e.u(0);
            if s >= slots.len() {
                continue;
            }
            match e.k {
                "new" => {
                    if let Some(old) = slots[s].take() {
                        self.finish(&old, kinds)?;
                    }
                    let kind = e.u(1).min(kinds.len() - 1);
                    let params = e.a.get(2..).unwrap_or(&[]).to_vec();
                    let k = &kinds[kind];
                    let real = (k.real)(&params);
                    if let (Mode::Model, Some(m)) = (self.mode, k.model) {
                        let want = m(&params);
                        let (a, b) = (real.as_ref().err(), want.as_ref().err());
                        if a != b {
                            return Err(format!(
                                "{}: built or refused wrongly | args {params:?} real {a:?} model {b:?}",
                                k.name
                            ));
                        }
                        match (real, want) {
                            (Ok(real), Ok(model)) => {
                                cx.reach("component built");
                                slots[s] = Some(slot(kind, params, real, Some(model)));
                            }
                            _ => cx.reach("component refused its arguments"),
                        }
                    } else if let Ok(real) = real {
                        slots[s] = Some(slot(kind, params, real, None));
                    }
                }
                "save" => {
                    if let Some(x) = slots[s].as_mut() {
                        x.saved = Some(Saved {
                            real: x.real.dup(),
                            model: x.model.as_ref().map(|m| m.dup()),
                            scale: x.scale,
                            tainted: x.tainted,
                            history: x.history.clone(),
                            since_reset: x.since_reset.clone(),
                            was_reset: x.was_reset,
                        });
                        cx.reach("state saved");
                    }
                }
                "crash" => {
                    let Some(x) = slots[s].as_mut() else { continue };
                    self.finish(x, kinds)?;
                    cx.fault("crash and restart");
                    match x.saved.take() {
                        Some(k) => {
                            cx.reach("restarted from saved state");
                            x.real = k.real;
                            x.model = k.model;
                            x.scale = k.scale;
                            x.tainted = k.tainted;
                            x.history = k.history;
                            x.since_reset = k.since_reset;
                            x.was_reset = k.was_reset;
                        }
                        None => {
                            cx.reach("restarted from nothing");
                            let k = &kinds[x.kind];
                            let real = (k.real)(&x.params)?;
                            let model = match (self.mode, k.model) {
                                (Mode::Model, Some(m)) => Some(m(&x.params)?),
                                _ => None,
                            };
                            *x = slot(x.kind, x.params.clone(), real, model);
                        }
                    }
                }
                "op" => {
                    let Some(x) = slots[s].as_mut() else { continue };
                    if e.u(1) / 10 != x.kind {
                        // Sent to what used to be in this slot.
                        continue;
                    }
                    let fault = (e.u(1) % 10).min(5);
                    let op = e.u(2);
                    let args = e.a.get(3..).unwrap_or(&[]);
                    if fault != 0 {
                        cx.fault(FAULTS[fault]);
                    }
                    cx.sim_time += 0.01;
                    let times = match fault {
                        1 => 2,
                        2 => 0,
                        _ => 1,
                    };
                    for _ in 0..times {
                        self.call(x, kinds, op, args, cx)?;
                    }
                    cx.state(&[x.kind as i64, op as i64, x.tainted as i64, fault as i64, (x.history.len() / 4) as i64]);
                }
                _ => {}
            }
        }
        for x in slots.iter().flatten() {
            self.finish(x, kinds)?;
        }
        Ok(())
    }
}

fn slot(kind: usize, params: Vec<f64>, real: Box<dyn Comp>, model: Option<Box<dyn Model>>) -> Slot {
    Slot {
        kind,
        params,
        real,
        model,
        saved: None,
        scale: 0.0,
        tainted: false,
        history: Vec::new(),
        since_reset: Vec::new(),
        was_reset: false,
    }
}

impl Components {
    fn call(&self, x: &mut Slot, kinds: &[Kind], op: usize, args: &[f64], cx: &mut Cx) -> R {
        let k = &kinds[x.kind];
        let real = x.real.op(op, args);
        if let Out::V(vals) = &real {
            cx.logs(vals);
        }
        if op == RESET {
            x.scale = 0.0;
            x.tainted = false;
            cx.reach("reset");
        }
        if !is_read(op) {
            if args.iter().any(|v| !v.is_finite()) {
                x.tainted = true;
                cx.reach("component met a value that is not finite");
            }
        }
        for v in args {
            if v.is_finite() {
                x.scale = x.scale.max(v.abs());
            }
        }
        match self.mode {
            Mode::Model => {
                if let Some(m) = x.model.as_mut() {
                    let want = m.op(op, args, &real);
                    if let Out::V(vals) = &want {
                        for v in vals {
                            if v.is_finite() {
                                x.scale = x.scale.max(v.abs());
                            }
                        }
                    }
                    if !agree(&real, &want, k.tol, x.scale) {
                        return Err(format!(
                            "{}: call {op} does not answer as specified | args {args:?} built with {:?} real {real:?} model {want:?}",
                            k.name, x.params
                        ));
                    }
                }
            }
            Mode::Alone => {
                if !is_read(op) {
                    if op == RESET {
                        x.since_reset.retain(|(o, _, _)| is_config(*o));
                        x.was_reset = true;
                    }
                    x.history.push((op, args.to_vec(), real.clone()));
                    if op != RESET {
                        x.since_reset.push((op, args.to_vec(), real));
                    }
                }
            }
        }
        Ok(())
    }

    /// Runs the component again on its own, from its history, and from its last reset.
    fn finish(&self, x: &Slot, kinds: &[Kind]) -> R {
        if self.mode != Mode::Alone {
            return Ok(());
        }
        let k = &kinds[x.kind];
        let mut alone = (k.real)(&x.params)?;
        for (i, (op, args, out)) in x.history.iter().enumerate() {
            let again = alone.op(*op, args);
            if !same_out(&again, out) {
                return Err(format!(
                    "{}: answers differ from the same history run alone | call {i} op {op} args {args:?}: {out:?} alone {again:?}",
                    k.name
                ));
            }
        }
        if x.was_reset {
            let mut fresh = (k.real)(&x.params)?;
            fresh.op(RESET, &[]);
            let mut i = 0;
            for (op, args, out) in &x.since_reset {
                let again = fresh.op(*op, args);
                // Settings made before the reset answer for another state.
                if !is_config(*op) && !same_out(&again, out) {
                    return Err(format!(
                        "{}: answers after a reset differ from a fresh one | call {i} op {op} args {args:?}: {out:?} fresh {again:?}",
                        k.name
                    ));
                }
                i += 1;
            }
        }
        Ok(())
    }
}
