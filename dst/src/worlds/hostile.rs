//! Every other world again, with numbers in its configuration and schedule replaced by the worst
//! there are. Only a panic out of the library, or a run that never ends, counts here.

use crate::core::*;

pub struct Hostile {
    pub inner: &'static dyn World,
    pub name: &'static str,
    /// Which numbers may be replaced; those that say how a file is put together may not.
    pub may: fn(&str, usize) -> bool,
}

impl Hostile {
    /// Over a world of model files: only the values written in them.
    pub fn values(inner: &'static dyn World) -> &'static Hostile {
        Hostile::only(inner, |k, i| i >= 3 && (k.ends_with("attr") || k == "cgeom" || k == "cjoint"))
    }
    pub fn over(inner: &'static dyn World) -> &'static Hostile {
        Hostile::only(inner, |_, _| true)
    }
    pub fn only(inner: &'static dyn World, may: fn(&str, usize) -> bool) -> &'static Hostile {
        let name = Box::leak(format!("hostile-{}", inner.name()).into_boxed_str());
        Box::leak(Box::new(Hostile { inner, name, may }))
    }
}

const WORST: [f64; 26] = [
    0.0,
    -0.0,
    f64::NAN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::MIN_POSITIVE,
    5e-324,
    -5e-324,
    1e-300,
    1e-160,
    1e160,
    1e300,
    f64::MAX,
    -f64::MAX,
    f64::EPSILON,
    1.0,
    -1.0,
    9007199254740992.0,
    9223372036854775808.0,
    18446744073709551616.0,
    4294967296.0,
    -2147483648.0,
    std::f64::consts::PI,
    -std::f64::consts::PI,
    std::f64::consts::FRAC_PI_2,
    1.0 - f64::EPSILON / 2.0,
];

/// A worse number in place of one. Whole numbers, which choose and count things, stay small ones.
pub fn worse(r: &mut Rng, was: f64, free: bool) -> f64 {
    if !free && was.is_finite() && was.fract() == 0.0 {
        return match r.below(4) {
            0 => 0.0,
            1 => r.below(8) as f64,
            2 => was + 1.0,
            _ => (was - 1.0).max(0.0),
        };
    }
    match r.below(8) {
        0 => -was,
        1 => was * 1e8,
        2 => was * 1e-8,
        3 => was * r.sign() * r.log_range(1e-3, 1e3),
        _ => *r.pick(&WORST),
    }
}

impl World for Hostile {
    fn name(&self) -> &'static str {
        self.name
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = self.inner.generate(r);
        let places = t.cfg.len() + t.evs.iter().map(|e| e.a.len()).sum::<usize>();
        if places == 0 {
            return t;
        }
        for _ in 0..*r.pick(&[0, 1, 1, 2, 4, 10]) {
            // Half of them in the configuration, where they meet every later call.
            let in_cfg = !t.cfg.is_empty() && (self.may)("cfg", 0) && (t.evs.is_empty() || r.chance(0.4));
            if in_cfg {
                let i = r.below(t.cfg.len());
                t.cfg[i] = worse(r, t.cfg[i], false);
            } else {
                if t.evs.is_empty() {
                    continue;
                }
                let i = r.below(t.evs.len());
                if !t.evs[i].a.is_empty() {
                    let j = r.below(t.evs[i].a.len());
                    if !(self.may)(t.evs[i].k, j) {
                        continue;
                    }
                    t.evs[i].a[j] = worse(r, t.evs[i].a[j], false);
                }
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let odd = t.cfg.iter().chain(t.evs.iter().flat_map(|e| &e.a)).any(|v| !v.is_finite() || v.abs() > 1e100 || (*v != 0.0 && v.abs() < 1e-100));
        if odd {
            cx.fault("number at the edge of what a number can be");
        }
        match guarded(|| self.inner.run(t, cx)) {
            Err(m) if m.starts_with("panic: ") => {
                // The simulator's own code, upset by its own numbers, says nothing about the library.
                if m.contains(" at src/") {
                    cx.reach("the simulator itself gave up");
                    Ok(())
                } else {
                    Err(format!("a call panicked: {}", &m["panic: ".len()..]))
                }
            }
            Err(_) => {
                cx.reach("another oracle spoke, ignored here");
                Ok(())
            }
            Ok(()) => Ok(()),
        }
    }
    fn shrinkable(&self) -> bool {
        self.inner.shrinkable()
    }
}
