//! The seeded generator, and several of them interleaved, cloned at a crash and restarted.

use crate::core::*;
use crate::ensure;
use multicalc::random::{Pcg32, RandomSource};

/// The published PCG-XSH-RR 64/32 generator with the polar normal, written apart from the library.
#[derive(Clone)]
pub struct RefPcg {
    state: u64,
    inc: u64,
    spare: Option<f64>,
}

impl RefPcg {
    pub fn new(seed: u64) -> Self {
        Self::stream(seed, 0xda3e_39cb_94b9_5bdb)
    }
    pub fn stream(seed: u64, stream: u64) -> Self {
        let mut g = RefPcg { state: 0, inc: stream.wrapping_mul(2) | 1, spare: None };
        g.word();
        g.state = g.state.wrapping_add(seed);
        g.word();
        g
    }
    pub fn word(&mut self) -> u32 {
        let old = self.state;
        self.state = (old as u128 * 6_364_136_223_846_793_005u128 + self.inc as u128) as u64;
        let x = ((old ^ (old >> 18)) >> 27) as u32;
        let rot = (old >> 59) as u32;
        if rot == 0 { x } else { (x >> rot) | (x << (32 - rot)) }
    }
    pub fn long(&mut self) -> u64 {
        let hi = self.word() as u64;
        (hi << 32) + self.word() as u64
    }
    pub fn unit(&mut self) -> f64 {
        (self.long() >> 11) as f64 / 9_007_199_254_740_992.0
    }
    pub fn unit32(&mut self) -> f32 {
        (self.word() >> 8) as f32 / 16_777_216.0
    }
    pub fn normal(&mut self) -> f64 {
        if let Some(v) = self.spare.take() {
            return v;
        }
        loop {
            let x = 2.0 * self.unit() - 1.0;
            let y = 2.0 * self.unit() - 1.0;
            let s = x * x + y * y;
            if s > 0.0 && s < 1.0 {
                let k = (-2.0 * s.ln() / s).sqrt();
                self.spare = Some(y * k);
                return x * k;
            }
        }
    }
}

#[derive(Clone)]
struct Ref32 {
    g: RefPcg,
    spare: Option<f32>,
}

impl Ref32 {
    fn normal(&mut self) -> f32 {
        if let Some(v) = self.spare.take() {
            return v;
        }
        loop {
            let x = 2.0 * self.g.unit32() - 1.0;
            let y = 2.0 * self.g.unit32() - 1.0;
            let s = x * x + y * y;
            if s > 0.0 && s < 1.0 {
                let k = (-2.0 * s.ln() / s).sqrt();
                self.spare = Some(y * k);
                return x * k;
            }
        }
    }
}

pub struct Generators;

impl World for Generators {
    fn name(&self) -> &'static str {
        "generators"
    }
    /// cfg: per generator, seed and stream as two halves each, and whether the default stream is used
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        let n = r.int(1, 4);
        t.cfg.push(n as f64);
        let shared = r.chance(0.4);
        let first = [r.below(1 << 32), r.below(1 << 32), r.below(1 << 32), r.below(1 << 32)];
        for _ in 0..n {
            let mut w = if shared { first } else { [r.below(1 << 32), r.below(1 << 32), r.below(1 << 32), r.below(1 << 32)] };
            if r.chance(0.1) {
                w[0] = 0;
                w[1] = r.below(2);
            }
            if r.chance(0.1) {
                w[2] = *r.pick(&[0, 0xffff_ffff, 0x8000_0000]);
            }
            t.cfg.extend(w.iter().map(|v| *v as f64));
            t.cfg.push(f64::from(u8::from(r.chance(0.5))));
        }
        for _ in 0..r.int(5, 120) {
            let i = r.below(n) as f64;
            let k = *r.pick(&["word", "long", "unit", "normal", "normal", "fword", "funit", "fnormal", "dyn"]);
            t.evs.push(ev(k, &[i]));
            if r.chance(0.05) {
                t.evs.push(ev("save", &[i]));
            }
            if r.chance(0.05) {
                t.evs.push(ev("crash", &[i]));
            }
            if r.chance(0.02) {
                t.evs.push(ev("reseed", &[i]));
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let n = t.cu(0).max(1);
        struct Slot {
            a: Pcg32<f64>,
            b: Pcg32<f32>,
            ra: RefPcg,
            rb: Ref32,
        }
        let make = |i: usize| -> Slot {
            let c = |k: usize| t.c(1 + 5 * i + k) as u64;
            let (seed, stream) = ((c(0) << 32) | c(1), (c(2) << 32) | c(3));
            if c(4) == 1 {
                Slot {
                    a: Pcg32::new(seed),
                    b: Pcg32::new(seed),
                    ra: RefPcg::new(seed),
                    rb: Ref32 { g: RefPcg::new(seed), spare: None },
                }
            } else {
                Slot {
                    a: Pcg32::with_stream(seed, stream),
                    b: Pcg32::with_stream(seed, stream),
                    ra: RefPcg::stream(seed, stream),
                    rb: Ref32 { g: RefPcg::stream(seed, stream), spare: None },
                }
            }
        };
        let mut slots: Vec<Slot> = (0..n).map(make).collect();
        type Saved = (Pcg32<f64>, Pcg32<f32>, RefPcg, Ref32);
        let mut saved: Vec<Option<Saved>> = (0..n).map(|_| None).collect();
        for e in &t.evs {
            cx.step(e.k);
            let i = e.u(0) % n;
            let s = &mut slots[i];
            let (got, want, what) = match e.k {
                "word" => (f64::from(s.a.next_u32()), f64::from(s.ra.word()), "word"),
                "long" => {
                    let (g, w) = (s.a.next_u64(), s.ra.long());
                    ensure!(g == w, "generator: the stream of long words is not the published one | got {g:x} want {w:x}");
                    (0.0, 0.0, "long word")
                }
                "unit" => {
                    let g = s.a.next_unit();
                    ensure!((0.0..1.0).contains(&g), "generator: a unit draw left its interval | {g}");
                    (g, s.ra.unit(), "unit draw")
                }
                "normal" => {
                    cx.reach(if s.ra.spare.is_some() { "normal-from-cache" } else { "normal-fresh" });
                    (s.a.standard_normal(), s.ra.normal(), "normal draw")
                }
                "dyn" => {
                    let d: &mut dyn RandomSource<f64> = &mut s.a;
                    (d.next_unit(), s.ra.unit(), "unit draw")
                }
                "fword" => (f64::from(s.b.next_u32()), f64::from(s.rb.g.word()), "word"),
                "funit" => {
                    let g: f32 = s.b.next_unit();
                    ensure!((0.0..1.0).contains(&g), "generator: a unit draw left its interval | {g}");
                    (f64::from(g), f64::from(s.rb.g.unit32()), "unit draw in single precision")
                }
                "fnormal" => {
                    let g: f32 = s.b.standard_normal();
                    let w = s.rb.normal();
                    ensure!(
                        (g - w).abs() <= 1e-5 * (1.0 + w.abs()),
                        "generator: a single precision normal draw is not the polar one | got {g} want {w}"
                    );
                    (0.0, 0.0, "")
                }
                "save" => {
                    saved[i] = Some((s.a.clone(), s.b.clone(), s.ra.clone(), s.rb.clone()));
                    (0.0, 0.0, "")
                }
                "crash" => {
                    if let Some((a, b, ra, rb)) = saved[i].clone() {
                        cx.fault("crash-and-restart-from-checkpoint");
                        *s = Slot { a, b, ra, rb };
                    }
                    (0.0, 0.0, "")
                }
                _ => {
                    cx.fault("restart-from-seed");
                    *s = make(i);
                    (0.0, 0.0, "")
                }
            };
            cx.log(got);
            let ok = if what == "normal draw" { close(got, want, 1e-13, 1e-15) } else { same(got, want) };
            ensure!(ok, "generator: a {what} is not the published sequence's next one | generator {i} got {got} want {want}");
            cx.state(&[n as i64, i as i64, i64::from(s.ra.spare.is_some()), hash_str(e.k) as i64 & 0xff]);
        }
        Ok(())
    }
}

/// A caller's own source: words from a script (a stuck, patterned or centred entropy source), then from a seed.
#[derive(Clone)]
struct Script {
    words: Vec<u32>,
    at: usize,
    then: RefPcg,
    keeps: bool,
    spare: Option<f64>,
}

impl Script {
    fn word(&mut self) -> u32 {
        let i = self.at;
        self.at += 1;
        if i < self.words.len() { self.words[i] } else { self.then.word() }
    }
}

impl RandomSource<f64> for Script {
    fn next_u32(&mut self) -> u32 {
        self.word()
    }
    fn get_cache(&mut self) -> Option<f64> {
        self.spare.take()
    }
    fn set_cache(&mut self, v: f64) {
        self.spare = self.keeps.then_some(v);
    }
}

impl RandomSource<f32> for Script {
    fn next_u32(&mut self) -> u32 {
        self.word()
    }
    fn get_cache(&mut self) -> Option<f32> {
        self.spare.take().map(|v| v as f32)
    }
    fn set_cache(&mut self, v: f32) {
        self.spare = self.keeps.then_some(f64::from(v));
    }
}

/// The pair of normals the polar method makes of the next unit draws, refusing the centre and what lies outside the
/// circle, and how near a draw came to the circle.
fn polar(mut unit: impl FnMut() -> f64) -> (f64, f64, f64) {
    let mut edge = f64::INFINITY;
    loop {
        let x = 2.0 * unit() - 1.0;
        let y = 2.0 * unit() - 1.0;
        let s = x * x + y * y;
        edge = edge.min((s - 1.0).abs());
        if s > 0.0 && s < 1.0 {
            let k = (-2.0 * s.ln() / s).sqrt();
            return (x * k, y * k, edge);
        }
    }
}

pub struct OwnSource;

impl World for OwnSource {
    fn name(&self) -> &'static str {
        "own-source"
    }
    /// cfg: seed halves after the script, whether the source keeps the spare normal, then the words
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        t.cfg = vec![r.below(1 << 32) as f64, r.below(1 << 32) as f64, f64::from(u8::from(r.chance(0.7)))];
        for _ in 0..r.int(0, 12) {
            let w = match r.below(8) {
                0 => vec![0x8000_0000, 0, 0x8000_0000, 0],
                1 => vec![0; r.int(1, 6) as usize],
                2 => vec![0xffff_ffff; r.int(1, 6) as usize],
                3 => vec![0x8000_0000; r.int(1, 6) as usize],
                4 => vec![0x7fff_ffff, 0xffff_f800, 0x8000_0000, 0x0000_0800],
                5 => vec![r.below(1 << 32) as u32; r.int(1, 6) as usize],
                6 => vec![0xffff_ffff, 0xffff_ffff, 0x8000_0000, 0],
                _ => (0..r.int(1, 6)).map(|_| r.below(1 << 32) as u32).collect(),
            };
            t.cfg.extend(w.iter().map(|v| f64::from(*v)));
        }
        for _ in 0..r.int(3, 40) {
            t.evs.push(ev(*r.pick(&["word", "long", "unit", "normal", "normal", "normal", "dyn", "funit", "fnormal"]), &[]));
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let seed = ((t.c(0) as u64) << 32) | t.c(1) as u64;
        let words: Vec<u32> = t.cfg.iter().skip(3).map(|v| *v as u32).collect();
        let mut real = Script { words, at: 0, then: RefPcg::new(seed), keeps: t.c(2) == 1.0, spare: None };
        let mut mirror = real.clone();
        let mut spare: Option<(f64, bool)> = None;
        let mut rough = false;
        for e in &t.evs {
            cx.step(e.k);
            if mirror.at < mirror.words.len() {
                cx.fault("words from a stuck or patterned source");
            }
            let unit64 = |m: &mut Script| {
                let hi = u64::from(m.word());
                (((hi << 32) | u64::from(m.word())) >> 11) as f64 / 9_007_199_254_740_992.0
            };
            let unit32 = |m: &mut Script| f64::from((m.word() >> 8) as f32 / 16_777_216.0);
            let single = e.k.starts_with('f');
            let (got, want) = match e.k {
                "word" => (f64::from(RandomSource::<f64>::next_u32(&mut real)), f64::from(mirror.word())),
                "long" => {
                    let g = RandomSource::<f64>::next_u64(&mut real);
                    let hi = u64::from(mirror.word());
                    let w = (hi << 32) | u64::from(mirror.word());
                    ensure!(g == w, "own source: a long word is not the two words, high first | got {g:x} want {w:x}");
                    (0.0, 0.0)
                }
                "unit" => (RandomSource::<f64>::next_unit(&mut real), unit64(&mut mirror)),
                "dyn" => {
                    let d: &mut dyn RandomSource<f64> = &mut real;
                    (d.next_unit(), unit64(&mut mirror))
                }
                "funit" => (f64::from(RandomSource::<f32>::next_unit(&mut real)), unit32(&mut mirror)),
                _ => {
                    let g = if single { f64::from(RandomSource::<f32>::standard_normal(&mut real)) } else { RandomSource::<f64>::standard_normal(&mut real) };
                    let w = match spare.take() {
                        Some((v, s)) => {
                            cx.reach("the spare normal");
                            rough = single || s;
                            v
                        }
                        None => {
                            rough = single;
                            let from = mirror.at;
                            let (a, b, edge) = if single { polar(|| unit32(&mut mirror)) } else { polar(|| unit64(&mut mirror)) };
                            if single && edge < 1e-4 {
                                // Within rounding of the circle, where single precision may go either way.
                                return Ok(());
                            }
                            if mirror.at - from > if single { 2 } else { 4 } {
                                cx.reach("a pair refused");
                            }
                            if mirror.keeps {
                                spare = Some((b, single));
                            }
                            a
                        }
                    };
                    ensure!(g.is_finite(), "own source: a normal draw is not finite | {g}");
                    (g, w)
                }
            };
            cx.log(got);
            if e.k.ends_with("unit") || e.k == "dyn" {
                ensure!((0.0..1.0).contains(&got), "own source: a unit draw left its interval | {got}");
            }
            let ok = if e.k.ends_with("normal") && rough { (got - want).abs() <= 2e-5 * (1.0 + want.abs()) } else { close(got, want, 1e-12, 1e-14) };
            ensure!(ok, "own source: a {} draw is not the one its words make | got {got} want {want}", e.k);
            ensure!(real.at == mirror.at, "own source: a {} draw takes other words than the documented ones | {} against {}", e.k, real.at, mirror.at);
            cx.state(&[i64::from(spare.is_some()), mirror.at as i64, hash_str(e.k) as i64 & 0xff]);
        }
        Ok(())
    }
}
