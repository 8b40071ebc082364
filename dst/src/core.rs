//! The simulator core: seeded randomness, traces, the run context, minimisation and replay files.
//!
//! A *world* is one simulated system. `generate` turns a seed into a trace: a configuration plus an
//! ordered list of events (operations, deliveries, faults). `run` executes a trace and nothing else:
//! it draws no randomness, reads no clock, and so the trace alone decides the execution.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;

/// xoshiro256++ seeded through splitmix64. Independent of the generator under test.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93).rotate_left(23);
    splitmix(&mut s);
    splitmix(&mut s)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3)
    })
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
        ])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let out = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        out
    }
    /// Uniform in [0, 1).
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// Uniform integer in [0, n).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n.max(1) as u128) >> 64) as usize
    }
    /// Uniform integer in [lo, hi].
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.unit();
        let v = self.unit();
        (-2.0 * u.ln()).sqrt() * (std::f64::consts::TAU * v).cos()
    }
    /// Log-uniform in [lo, hi].
    pub fn log_range(&mut self, lo: f64, hi: f64) -> f64 {
        (self.range(lo.ln(), hi.ln())).exp()
    }
    pub fn sign(&mut self) -> f64 {
        if self.chance(0.5) { 1.0 } else { -1.0 }
    }
    /// A value that is not finite.
    pub fn broken(&mut self) -> f64 {
        *self.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])
    }
}

/// One step of a schedule.
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub k: &'static str,
    pub a: Vec<f64>,
}

pub fn ev(k: &'static str, a: &[f64]) -> Ev {
    Ev { k, a: a.to_vec() }
}

impl Ev {
    pub fn n(&self, i: usize) -> f64 {
        self.a.get(i).copied().unwrap_or(0.0)
    }
    pub fn u(&self, i: usize) -> usize {
        let v = self.n(i);
        if v.is_finite() && v > 0.0 { v as usize } else { 0 }
    }
}

/// A complete, self-contained execution: configuration and schedule with its faults.
#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub cfg: Vec<f64>,
    pub evs: Vec<Ev>,
}

impl Trace {
    pub fn c(&self, i: usize) -> f64 {
        self.cfg.get(i).copied().unwrap_or(0.0)
    }
    pub fn cu(&self, i: usize) -> usize {
        let v = self.c(i);
        if v.is_finite() && v > 0.0 { v as usize } else { 0 }
    }
}

pub type R = Result<(), String>;

/// What one run reports while it goes.
pub struct Cx {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub log: u64,
    pub shape: u64,
    pub steps: u64,
    pub sim_time: f64,
    pub states: Vec<u64>,
}

impl Cx {
    pub fn new() -> Self {
        Cx {
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            log: 0x1234_5678,
            shape: 0,
            steps: 0,
            sim_time: 0.0,
            states: Vec::new(),
        }
    }
    /// A fault that really fired in this run.
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
        self.shape = mix(self.shape, hash_str(kind));
    }
    /// A state or branch that was reached.
    pub fn reach(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
        self.shape = mix(self.shape, hash_str(name) ^ 1);
    }
    /// Folds an observed value into the run's event log.
    pub fn log(&mut self, v: f64) {
        let bits = if v.is_nan() { 0x7ff8_0000_0000_0000 } else { v.to_bits() };
        self.log = mix(self.log, bits);
    }
    pub fn logs(&mut self, v: &[f64]) {
        for &x in v {
            self.log(x);
        }
    }
    pub fn logu(&mut self, v: u64) {
        self.log = mix(self.log, v);
    }
    pub fn step(&mut self, k: &'static str) {
        self.steps += 1;
        self.log = mix(self.log, hash_str(k));
    }
    /// Records a coarse abstract state, for the distinct-states measure.
    pub fn state(&mut self, parts: &[i64]) {
        let mut h = 77u64;
        for &p in parts {
            h = mix(h, p as u64);
        }
        if self.states.len() < 4096 {
            self.states.push(h);
        }
        self.shape = mix(self.shape, h);
    }
}

pub trait World: Sync + Send {
    fn name(&self) -> &'static str;
    fn generate(&self, r: &mut Rng) -> Trace;
    fn run(&self, t: &Trace, cx: &mut Cx) -> R;
    /// Whether the minimiser may drop events. Worlds whose events are positional say no.
    fn shrinkable(&self) -> bool {
        true
    }
}

// ----- Panics are violations, so they are caught and named -----

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| *q.borrow()) {
            let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
                (*s).to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let place = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{message} at {place}")));
        } else {
            default(info);
        }
    }));
}

/// Runs `f`, turning a panic into an error that starts with `panic:`.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.replace(was));
    match out {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panic: {}",
            LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "unknown".into())
        )),
    }
}

pub fn execute(world: &dyn World, trace: &Trace) -> (R, Cx) {
    let mut cx = Cx::new();
    let result = guarded(|| world.run(trace, &mut cx));
    (result, cx)
}

/// The part of a violation message that identifies what broke, with the numbers left out.
pub fn class_of(message: &str) -> String {
    let head = message.split(" | ").next().unwrap_or(message);
    head.to_string()
}

// ----- Minimisation -----

pub fn minimise(world: &dyn World, trace: &Trace, message: &str, budget_s: f64) -> (Trace, String) {
    let class = class_of(message);
    let start = std::time::Instant::now();
    let mut best = trace.clone();
    let mut best_message = message.to_string();
    let still = |t: &Trace| -> Option<String> {
        match execute(world, t).0 {
            Err(m) if class_of(&m) == class => Some(m),
            _ => None,
        }
    };
    if !world.shrinkable() {
        return (best, best_message);
    }
    let mut chunk = best.evs.len().div_ceil(2).max(1);
    loop {
        let mut changed = false;
        let mut at = 0;
        while at < best.evs.len() {
            if start.elapsed().as_secs_f64() > budget_s {
                return (best, best_message);
            }
            let mut cand = best.clone();
            let end = (at + chunk).min(cand.evs.len());
            cand.evs.drain(at..end);
            if let Some(m) = still(&cand) {
                best = cand;
                best_message = m;
                changed = true;
            } else {
                at += chunk;
            }
        }
        if chunk == 1 {
            if !changed {
                break;
            }
        } else {
            chunk = chunk.div_ceil(2).max(1);
        }
    }
    // Simplify the numbers that are left.
    for i in 0..best.evs.len() {
        for j in 0..best.evs[i].a.len() {
            let v = best.evs[i].a[j];
            for simple in [0.0, 1.0, v.round(), (v * 100.0).round() / 100.0] {
                if start.elapsed().as_secs_f64() > budget_s {
                    return (best, best_message);
                }
                if !v.is_finite() || v == v.trunc() || simple == v {
                    break;
                }
                let mut cand = best.clone();
                cand.evs[i].a[j] = simple;
                if let Some(m) = still(&cand) {
                    best = cand;
                    best_message = m;
                    break;
                }
            }
        }
    }
    (best, best_message)
}

// ----- Replay files -----

fn num(v: f64) -> String {
    format!("{:016x}={v:?}", v.to_bits())
}

pub fn render(property: &str, world: &str, seed: u64, t: &Trace, message: &str) -> String {
    let mut s = String::from("dst-replay 1\n");
    let _ = writeln!(s, "property {property}");
    let _ = writeln!(s, "world {world}");
    let _ = writeln!(s, "seed {seed}");
    let _ = write!(s, "cfg");
    for &v in &t.cfg {
        let _ = write!(s, " {}", num(v));
    }
    s.push('\n');
    for e in &t.evs {
        let _ = write!(s, "ev {}", e.k);
        for &v in &e.a {
            let _ = write!(s, " {}", num(v));
        }
        s.push('\n');
    }
    let _ = writeln!(s, "violation {}", message.replace('\n', " "));
    s
}

pub struct Replay {
    pub property: String,
    pub world: String,
    pub seed: u64,
    pub trace: Trace,
    pub message: String,
}

pub fn parse(text: &str) -> Result<Replay, String> {
    let mut out = Replay {
        property: String::new(),
        world: String::new(),
        seed: 0,
        trace: Trace::default(),
        message: String::new(),
    };
    let numbers = |words: &[&str]| -> Result<Vec<f64>, String> {
        words
            .iter()
            .map(|w| {
                let hex = w.split('=').next().unwrap_or("");
                u64::from_str_radix(hex, 16)
                    .map(f64::from_bits)
                    .map_err(|e| format!("{w}: {e}"))
            })
            .collect()
    };
    for line in text.lines() {
        let words: Vec<&str> = line.split_whitespace().collect();
        match words.first().copied() {
            Some("property") => out.property = words[1].into(),
            Some("world") => out.world = words[1].into(),
            Some("seed") => out.seed = words[1].parse().map_err(|e| format!("{e}"))?,
            Some("cfg") => out.trace.cfg = numbers(&words[1..])?,
            Some("ev") => out.trace.evs.push(Ev {
                k: Box::leak(words[1].to_string().into_boxed_str()),
                a: numbers(&words[2..])?,
            }),
            Some("violation") => out.message = line["violation".len()..].trim().into(),
            _ => {}
        }
    }
    Ok(out)
}

/// One line per event, shortened, for samples in the evidence file.
pub fn brief(t: &Trace) -> String {
    let mut s = String::new();
    let _ = write!(s, "cfg{:?}", t.cfg.iter().take(12).collect::<Vec<_>>());
    for e in t.evs.iter().take(40) {
        let _ = write!(s, " {}", e.k);
        if !e.a.is_empty() {
            s.push('(');
            for (i, v) in e.a.iter().take(4).enumerate() {
                if i > 0 {
                    s.push(',');
                }
                let _ = write!(s, "{v:.4}");
            }
            if e.a.len() > 4 {
                s.push_str(",..");
            }
            s.push(')');
        }
    }
    if t.evs.len() > 40 {
        let _ = write!(s, " .. {} events", t.evs.len());
    }
    s
}

// ----- Comparison helpers -----

pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

pub fn all_same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y))
}

/// Component-wise closeness scaled by the largest entry of either.
pub fn all_close(a: &[f64], b: &[f64], rel: f64, abs: f64) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let scale = a
        .iter()
        .chain(b)
        .fold(0.0f64, |m, v| if v.is_finite() { m.max(v.abs()) } else { m });
    a.iter().zip(b).all(|(x, y)| {
        if x.is_nan() || y.is_nan() {
            x.is_nan() && y.is_nan()
        } else if x.is_infinite() || y.is_infinite() {
            x == y
        } else {
            (x - y).abs() <= abs + rel * scale
        }
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}
