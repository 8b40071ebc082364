//! A craft following smooth paths it plans as it goes: from where it is and how it moves, through
//! the places asked for, some of the requests unsound, on a clock that comes late, twice or backward.

use crate::core::*;
use crate::ensure;
use multicalc::error::MotionError as E;
use multicalc::linear_algebra::Vector;
use multicalc::motion::{durations_from_average_speed, BoundaryDerivatives, MinimumSnapPlanner};
use multicalc::{PiecewisePolynomial, Polynomial};

const SEGMENTS: usize = 6;
const AXES: usize = 3;
type Curve = PiecewisePolynomial<SEGMENTS, 8, AXES, f64>;
type Planner = MinimumSnapPlanner<SEGMENTS, 15, AXES, f64>;
type P = [f64; AXES];

pub struct Flight;

/// The same curve as plain numbers.
#[derive(Clone, Debug)]
struct Mine {
    pieces: Vec<[[f64; 8]; AXES]>,
    spans: Vec<f64>,
}

/// The `k`th derivative of a polynomial, and how large its terms are.
fn derive(c: &[f64; 8], k: usize, x: f64) -> (f64, f64) {
    let (mut v, mut size) = (0.0, 0.0);
    for i in (k..8).rev() {
        let ways = (0..k).fold(1.0, |w, j| w * (i - j) as f64);
        v = v * x + c[i] * ways;
        size += (c[i] * ways).abs();
    }
    (v, size)
}

/// The area under a polynomial up to `x`.
fn area(c: &[f64; 8], x: f64) -> f64 {
    (0..8).rev().fold(0.0, |v, i| v * x + c[i] / (i + 1) as f64) * x
}

impl Mine {
    fn of(c: &Curve) -> Result<Mine, String> {
        let mut m = Mine { pieces: Vec::new(), spans: Vec::new() };
        for i in 0..c.piece_count() {
            let mut p = [[0.0; 8]; AXES];
            for (a, slot) in p.iter_mut().enumerate() {
                *slot = *c.piece_polynomial(i, a).ok_or("a piece is missing")?.coefficients();
            }
            m.pieces.push(p);
            m.spans.push(c.span(i).ok_or("a span is missing")?);
        }
        Ok(m)
    }
    fn total(&self) -> f64 {
        self.spans.iter().fold(0.0, |a, b| a + b)
    }
    /// The piece at a time and how far along it.
    fn find(&self, t: f64) -> (usize, f64) {
        if t <= 0.0 {
            return (0, 0.0);
        }
        let mut behind = 0.0;
        for (i, s) in self.spans.iter().enumerate() {
            if t < behind + s {
                return (i, (t - behind) / s);
            }
            behind += s;
        }
        (self.spans.len() - 1, 1.0)
    }
    fn at(&self, t: f64, k: usize) -> (P, f64) {
        let (i, x) = self.find(t);
        let mut out = [0.0; AXES];
        let mut size = 0.0f64;
        for (a, o) in out.iter_mut().enumerate() {
            let (v, s) = derive(&self.pieces[i][a], k, x);
            let h = self.spans[i].powi(k as i32);
            *o = v / h;
            size = size.max(s / h);
        }
        (out, size)
    }
    fn area(&self, a: f64, b: f64) -> (P, f64) {
        let sign = if b < a { -1.0 } else { 1.0 };
        let total = self.total();
        let (lo, hi) = (a.min(b).clamp(0.0, total), a.max(b).clamp(0.0, total));
        let mut out = [0.0; AXES];
        let (mut behind, mut size) = (0.0, 0.0);
        for (p, s) in self.pieces.iter().zip(&self.spans) {
            let from = ((lo - behind) / s).clamp(0.0, 1.0);
            let to = ((hi - behind) / s).clamp(0.0, 1.0);
            behind += s;
            for (o, c) in out.iter_mut().zip(p) {
                *o += sign * s * (area(c, to) - area(c, from));
                size += s * c.iter().map(|v| v.abs()).sum::<f64>();
            }
        }
        (out, size)
    }
}

impl World for Flight {
    fn name(&self) -> &'static str {
        "flight"
    }

    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        for i in 0..r.int(3, 16) {
            match if i == 0 { 0 } else { r.below(10) } {
                0..=2 => t.evs.push(ev(
                    "plan",
                    &[
                        r.below(1 << 30) as f64,
                        r.int(1, SEGMENTS) as f64,
                        if r.chance(0.5) { 1.0 } else { r.log_range(1e-3, 1e3) },
                        if r.chance(0.5) { r.log_range(1.0, 3.0) } else { r.log_range(1.0, 30.0) },
                        r.below(3) as f64,
                        if r.chance(0.3) { r.int(1, 13) as f64 } else { 0.0 },
                        r.broken(),
                    ],
                )),
                3 => t.evs.push(ev("paced", &[r.below(1 << 30) as f64, r.int(0, 5) as f64, r.log_range(1e-3, 1e3), if r.chance(0.4) { r.int(1, 7) as f64 } else { 0.0 }, r.broken()])),
                4 => t.evs.push(ev("pieces", &[r.below(1 << 30) as f64, r.int(0, SEGMENTS + 1) as f64, if r.chance(0.4) { r.int(1, 4) as f64 } else { 0.0 }, r.broken()])),
                _ => t.evs.push(ev("fly", &[r.below(1 << 30) as f64, r.int(1, 12) as f64, r.below(5) as f64])),
            }
        }
        t
    }

    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let mut curve: Option<(Curve, Mine)> = None;
        let mut now = 0.0;
        for e in &t.evs {
            cx.step(e.k);
            match e.k {
                "plan" => self.plan(e, &mut curve, &mut now, cx)?,
                "paced" => self.paced(e, cx)?,
                "pieces" => self.pieces(e, &mut curve, &mut now, cx)?,
                _ => {
                    if let Some((c, m)) = &curve {
                        self.fly(e, c, m, &mut now, cx)?;
                    }
                }
            }
        }
        Ok(())
    }
}

fn point(r: &mut Rng, s: f64) -> P {
    std::array::from_fn(|_| s * r.normal())
}

impl Flight {
    fn plan(&self, e: &Ev, curve: &mut Option<(Curve, Mine)>, now: &mut f64, cx: &mut Cx) -> R {
        let mut r = Rng::new(e.u(0) as u64);
        let n = e.u(1).clamp(1, SEGMENTS);
        let scale = r.log_range(1e-2, 1e2);
        let mut spans: Vec<f64> = (0..n).map(|_| e.n(2).abs().max(1e-6) * r.log_range(1.0, e.n(3).max(1.0) + 1e-9)).collect();
        let mut points: Vec<P> = (0..=n).map(|_| point(&mut r, scale)).collect();
        if n > 1 && r.chance(0.1) {
            points[1] = points[0];
        }
        let mut ends = [[[0.0; AXES]; 3]; 2];
        if e.u(4) > 0 {
            for side in &mut ends {
                for (k, v) in side.iter_mut().enumerate() {
                    *v = point(&mut r, scale / e.n(2).abs().max(1e-6).powi(k as i32 + 1));
                }
            }
        }
        let from = *now;
        let carry = e.u(4) == 2 && curve.is_some();
        if let (true, Some((_, m))) = (carry, curve.as_ref()) {
            points[0] = m.at(from, 0).0;
            for (k, v) in ends[0].iter_mut().enumerate() {
                *v = m.at(from, k + 1).0;
            }
        }
        let mut want = None;
        let bad = e.n(6);
        match e.u(5) {
            1 => {
                points.truncate(r.below(2));
                want = Some(E::PathTooShort);
            }
            2 => {
                while points.len() < SEGMENTS + 2 {
                    points.push(point(&mut r, scale));
                    spans.push(1.0);
                }
                want = Some(E::CapacityExceeded);
            }
            3 => {
                spans.pop();
                want = Some(E::SegmentCountMismatch);
            }
            4 => {
                spans.push(1.0);
                want = Some(E::SegmentCountMismatch);
            }
            5 => {
                let i = r.below(n);
                spans[i] = *r.pick(&[0.0, -0.0, -1.0, -1e-12]);
                want = Some(E::DurationNotPositive);
            }
            6 => {
                let i = r.below(n);
                spans[i] = bad;
                want = Some(E::DurationNotPositive);
            }
            7 | 8 => {
                let i = r.below(n + 1);
                points[i][r.below(AXES)] = bad;
                want = Some(E::NonFinite);
            }
            9..=11 => {
                ends[r.below(2)][r.below(3)][r.below(AXES)] = bad;
                want = Some(E::NonFinite);
            }
            _ => {}
        }
        let side = |b: &[P; 3]| BoundaryDerivatives { velocity: Vector::new(b[0]), acceleration: Vector::new(b[1]), jerk: Vector::new(b[2]) };
        let way: Vec<Vector<AXES>> = points.iter().map(|p| Vector::new(*p)).collect();
        let planner = if e.u(4) == 0 && want.is_none() { Planner::new() } else { Planner::new().with_start(side(&ends[0])).with_end(side(&ends[1])) };
        let got = planner.plan(&way, &spans);
        let told = || format!("points {points:?} spans {spans:?} ends {ends:?}");
        if let Some(want) = want {
            cx.fault("unsound request");
            ensure!(got.as_ref().err() == Some(&want), "an unsound request was planned or misnamed | {:?} want {want:?} {}", got.map(|_| ()), told());
            cx.reach("request refused");
            return Ok(());
        }
        let small = MinimumSnapPlanner::<SEGMENTS, 6, AXES, f64>::new().plan(&way, &spans);
        ensure!(small.as_ref().err().is_some_and(|e| *e == E::WorkspaceTooSmall) == (n > 3), "a workspace too small or not | {n} {:?}", small.map(|_| ()));
        let c = got.map_err(|e| format!("a sound request was refused | {e:?} {}", told()))?;
        ensure!(c.piece_count() == n && !c.is_empty() && c.span(n).is_none() && c.piece_polynomial(n, 0).is_none() && c.piece_polynomial(0, AXES).is_none(), "another number of pieces | {}", c.piece_count());
        let m = Mine::of(&c)?;
        ensure!(all_same(&m.spans, &spans), "other durations | {:?} {}", m.spans, told());
        ensure!(close(c.total_span(), m.total(), 1e-14, 0.0), "another duration in all | {} {}", c.total_span(), told());
        self.smooth(&m, &points, &ends, cx).map_err(|w| format!("{w} {} {m:?}", told()))?;
        if e.u(4) == 0 && e.n(3) <= 3.0 && points.windows(2).all(|w| w[0] != w[1]) {
            // The same in short numbers: as sound a request as it is in long ones.
            let short: Vec<Vector<AXES, f32>> = points.iter().map(|p| Vector::new(p.map(|v| v as f32))).collect();
            let times: Vec<f32> = spans.iter().map(|s| *s as f32).collect();
            let c = MinimumSnapPlanner::<SEGMENTS, 15, AXES, f32>::new().plan(&short, &times).map_err(|e| format!("a sound request in short numbers was refused | {e:?} {}", told()))?;
            let size = m.pieces.iter().flatten().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
            for i in 0..n {
                for x in [0.0, 0.25, 0.5, 0.75, 1.0] {
                    for a in 0..AXES {
                        let Some(p) = c.piece_polynomial(i, a) else { return Err("a piece is missing".into()) };
                        let v = f64::from(p.evaluate(x as f32));
                        let w = derive(&m.pieces[i][a], 0, x).0;
                        ensure!(close(v, w, 0.0, 3e-2 * size), "a path in short numbers goes elsewhere | {i} axis {a} {v} want {w} {}", told());
                    }
                }
            }
            cx.reach("planned in short numbers");
        }
        if carry {
            // Taken over in flight: nothing jumps.
            let Some((_, was)) = curve.as_ref() else { return Ok(()) };
            for k in 0..4 {
                let (a, _) = was.at(from, k);
                let (b, _) = m.at(0.0, k);
                let size = m.pieces[0].iter().flatten().map(|c| c.abs()).sum::<f64>() * 210.0 / m.spans[0].powi(k as i32);
                ensure!((0..AXES).all(|i| close(a[i], b[i], 1e-9, 1e-12 * size)), "a jump where one path takes over from another | order {k} {a:?} {b:?} {}", told());
            }
            cx.reach("replanned in flight");
        }
        *now = 0.0;
        cx.state(&[n as i64, e.u(4) as i64]);
        *curve = Some((c, m));
        cx.reach("planned");
        Ok(())
    }

    /// Through every place, starting and ending as asked, and nothing up to the sixth derivative
    /// jumping at a join: that is what having the least snap comes to.
    fn smooth(&self, m: &Mine, points: &[P], ends: &[[P; 3]; 2], cx: &mut Cx) -> R {
        let n = m.spans.len();
        let wide = m.spans.iter().copied().fold(0.0, f64::max) / m.spans.iter().copied().fold(f64::INFINITY, f64::min);
        for a in 0..AXES {
            let side = |i: usize, x: f64, k: usize| {
                let (v, _) = derive(&m.pieces[i][a], k, x);
                let h = m.spans[i].powi(k as i32);
                // A piece is found from its ends: what rounding of the largest term does there.
                let s = m.pieces[i][a].iter().map(|c| c.abs()).sum::<f64>() * 210.0;
                (v / h, s / h)
            };
            for i in 0..n {
                for (x, j) in [(0.0, i), (1.0, i + 1)] {
                    let (v, s) = side(i, x, 0);
                    ensure!(close(v, points[j][a], 1e-9, 1e-13 * s), "passes beside a place it was sent through | {j} axis {a} {v} want {}", points[j][a]);
                }
            }
            for k in 1..4 {
                for (i, x, want) in [(0, 0.0, ends[0][k - 1][a]), (n - 1, 1.0, ends[1][k - 1][a])] {
                    let (v, s) = side(i, x, k);
                    ensure!(close(v, want, 1e-9, 1e-12 * s), "does not start or end as asked | order {k} axis {a} {v} want {want}");
                }
            }
            for i in 1..n {
                for k in 1..7 {
                    let ((u, su), (v, sv)) = (side(i - 1, 1.0, k), side(i, 0.0, k));
                    let blur = if k < 4 { 1e-12 * (su + sv) } else { 1e-11 * (su + sv) * (1.0 + wide).powi(3) };
                    ensure!(close(u, v, 0.0, blur), "{} at a join | join {i} order {k} axis {a} {u:e} {v:e} blur {blur:e}", if k < 4 { "jumps" } else { "is not the smoothest" });
                }
            }
        }
        if n > 1 {
            cx.reach("joins smooth");
        }
        Ok(())
    }

    fn paced(&self, e: &Ev, cx: &mut Cx) -> R {
        let mut r = Rng::new(e.u(0) as u64);
        let n = e.u(1);
        let mut points: Vec<P> = (0..=n).map(|_| point(&mut r, 1.0)).collect();
        let mut speed = e.n(2);
        let mut out = vec![0.0; n];
        let mut want = if n == 0 { Some(E::PathTooShort) } else { None };
        match e.u(3) {
            1 if n > 0 => {
                out.push(0.0);
                want = Some(E::SegmentCountMismatch);
            }
            2 if n > 0 => {
                out.pop();
                want = Some(E::SegmentCountMismatch);
            }
            3 if n > 0 => {
                speed = *r.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY]);
                want = Some(E::DurationNotPositive);
            }
            4 if n > 0 => {
                points[r.below(n + 1)][r.below(AXES)] = e.n(4);
                want = Some(E::NonFinite);
            }
            5 if n > 0 => {
                let i = r.below(n);
                points[i + 1] = points[i];
                want = Some(E::DurationNotPositive);
            }
            _ => {}
        }
        let way: Vec<Vector<AXES>> = points.iter().map(|p| Vector::new(*p)).collect();
        let got = durations_from_average_speed(&way, speed, &mut out);
        if let Some(want) = want {
            cx.fault("unsound pace");
            ensure!(got == Err(want), "an unsound pace was taken or misnamed | {got:?} want {want:?} {points:?} {speed}");
            return Ok(());
        }
        ensure!(got.is_ok(), "a sound pace was refused | {got:?}");
        for (i, d) in out.iter().enumerate() {
            let l = (0..AXES).map(|a| (points[i + 1][a] - points[i][a]).powi(2)).sum::<f64>().sqrt();
            ensure!(close(*d, l / speed, 1e-12, 0.0), "not the time that pace takes | {d} want {}", l / speed);
        }
        cx.reach("paced");
        Ok(())
    }

    /// A curve of any pieces, joined or not.
    fn pieces(&self, e: &Ev, curve: &mut Option<(Curve, Mine)>, now: &mut f64, cx: &mut Cx) -> R {
        use multicalc::error::PolynomialError as PE;
        let mut r = Rng::new(e.u(0) as u64);
        let n = e.u(1);
        let mut m = Mine { pieces: Vec::new(), spans: Vec::new() };
        for _ in 0..n {
            let s = r.log_range(1e-2, 1e2);
            m.pieces.push(std::array::from_fn(|_| std::array::from_fn(|_| if r.chance(0.2) { 0.0 } else { s * r.normal() })));
            m.spans.push(r.log_range(1e-3, 1e3));
        }
        let mut want = if n == 0 { Some(PE::Empty) } else if n > SEGMENTS { Some(PE::CapacityExceeded) } else { None };
        let mut spans = m.spans.clone();
        if (1..=SEGMENTS).contains(&n) {
            match e.u(2) {
                1 => {
                    spans.push(1.0);
                    want = Some(PE::CapacityExceeded);
                }
                2 => {
                    let i = r.below(n);
                    spans[i] = *r.pick(&[0.0, -1.0]);
                    want = Some(PE::SpanNotPositive);
                }
                3 => {
                    let i = r.below(n);
                    spans[i] = e.n(3);
                    want = Some(PE::SpanNotPositive);
                }
                _ => {}
            }
        }
        let pieces: Vec<[Polynomial<8>; AXES]> = m.pieces.iter().map(|p| p.map(Polynomial::new)).collect();
        let got = Curve::try_from_pieces(&pieces, &spans);
        if let Some(want) = want {
            cx.fault("unsound pieces");
            ensure!(got.as_ref().err() == Some(&want), "unsound pieces were laid or misnamed | {:?} want {want:?}", got.map(|_| ()));
            return Ok(());
        }
        *curve = Some((got.map_err(|e| format!("sound pieces were refused | {e:?}"))?, m));
        *now = 0.0;
        Ok(())
    }

    fn fly(&self, e: &Ev, c: &Curve, m: &Mine, now: &mut f64, cx: &mut Cx) -> R {
        let mut r = Rng::new(e.u(0) as u64);
        let total = m.total();
        let joins: Vec<f64> = m.spans.iter().scan(0.0, |a, s| {
            *a += s;
            Some(*a)
        }).collect();
        let begun = *now;
        let mut sum = [0.0; AXES];
        let mut room = 0.0;
        let slope = c.derivative();
        let order = r.int(0, 9);
        let nth = c.nth_derivative(order);
        for _ in 0..e.u(1) {
            let was = *now;
            *now = match e.u(2) {
                0 => was + total * r.range(0.0, 0.2),
                1 => {
                    cx.fault("clock jumps");
                    total * r.range(-0.5, 1.5)
                }
                2 => {
                    let j = *r.pick(&joins);
                    if r.chance(0.5) { j } else { j * (1.0 + r.sign() * r.log_range(1e-15, 1e-3)) }
                }
                3 => {
                    cx.fault("clock stuck or far off");
                    *r.pick(&[was, 0.0, -0.0, -1e300, 1e300, f64::INFINITY, f64::NEG_INFINITY, total, 5e-324])
                }
                _ => was - total * r.range(0.0, 0.2),
            };
            let t = *now;
            // Beside a join with a corner either side's answer will do only if it is this side's.
            let here = c.evaluate(t).map_err(|e| format!("no place | {e:?}"))?;
            let all: [Vector<AXES>; 10] = c.evaluate_with_derivatives(t).map_err(|e| format!("no motion | {e:?}"))?;
            for (k, v) in all.iter().enumerate() {
                let (w, s) = m.at(t, k);
                for a in 0..AXES {
                    ensure!(close(v[a], w[a], 0.0, 1e-12 * s), "is elsewhere or moves otherwise | order {k} axis {a} at {t:e} {} want {} {m:?}", v[a], w[a]);
                }
                if k == 0 {
                    ensure!((0..AXES).all(|a| close(here[a], w[a], 0.0, 1e-12 * s)), "is elsewhere | at {t:e} {here:?} want {w:?} {m:?}");
                }
                for (name, other, from) in [("slope", &slope, 1), ("higher slope", &nth, order)] {
                    if k >= from && k - from < 2 {
                        let o: [Vector<AXES>; 2] = other.evaluate_with_derivatives(t).map_err(|e| format!("no motion | {e:?}"))?;
                        ensure!((0..AXES).all(|a| close(o[k - from][a], w[a], 0.0, 1e-12 * s)), "the {name} as a curve says otherwise | {from} order {k} at {t:e} {:?} want {w:?} {m:?}", o[k - from]);
                    }
                }
            }
            let got = c.definite_integral(was, t).map_err(|e| format!("no area | {e:?}"))?;
            let (w, s) = m.area(was, t);
            for a in 0..AXES {
                ensure!(close(got[a], w[a], 0.0, 1e-11 * s), "another area | axis {a} {was:e} to {t:e} {} want {} {m:?}", got[a], w[a]);
                sum[a] += got[a];
            }
            room += 1e-11 * s;
        }
        let whole = c.definite_integral(begun, *now).map_err(|e| format!("no area | {e:?}"))?;
        ensure!((0..AXES).all(|a| close(whole[a], sum[a], 0.0, room + 1e-300)), "the areas between ticks do not add up | {whole:?} {sum:?} {begun:e} to {now:e} {m:?}");
        cx.logs(&sum);
        cx.reach("flown");
        if !now.is_finite() {
            *now = 0.0;
        }
        Ok(())
    }
}
