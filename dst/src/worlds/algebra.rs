//! One polynomial kept through a long history of edits and faults, asked for its values, its slopes,
//! its areas and its roots all along the way; and one in several variables beside it.

use crate::core::*;
use crate::ensure;
use crate::worlds::ledger::Width;
use multicalc::error::PolynomialError as E;
use multicalc::scalar::Jet;
use multicalc::{MultivariatePolynomial, MultivariateTerm, Polynomial};

pub struct Algebra;

fn bits<const N: usize, T: Width>(p: &Polynomial<N, T>) -> Vec<f64> {
    p.coefficients().iter().map(|v| v.f()).collect()
}
fn held<const N: usize, T: Width>(c: &[f64]) -> Polynomial<N, T> {
    Polynomial::new(std::array::from_fn(|i| T::of(c.get(i).copied().unwrap_or(0.0))))
}
fn shown(c: &[f64]) -> String {
    format!("{c:?}")
}
fn top(c: &[f64]) -> Option<usize> {
    c.iter().rposition(|v| *v != 0.0)
}
fn value(c: &[f64], x: f64) -> f64 {
    c.iter().rev().fold(0.0, |s, v| s * x + v)
}
/// The sum of the sizes of the terms.
fn size(c: &[f64], x: f64) -> f64 {
    c.iter().rev().fold(0.0, |s, v| s * x.abs() + v.abs())
}
fn slope(c: &[f64]) -> Vec<f64> {
    (1..c.len()).map(|k| c[k] * k as f64).collect()
}
fn ways(n: usize, k: usize) -> f64 {
    (0..k).map(|i| (n - i) as f64 / (i + 1) as f64).product()
}
fn product(a: &[f64], b: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let mut out = (vec![0.0; a.len() + b.len()], vec![0.0; a.len() + b.len()]);
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            out.0[i + j] += x * y;
            out.1[i + j] += (x * y).abs();
        }
    }
    out
}
/// The polynomial moved along its variable, and the sizes of what each coefficient is summed from.
fn moved(c: &[f64], by: f64) -> (Vec<f64>, Vec<f64>) {
    let mut out = (vec![0.0; c.len()], vec![0.0; c.len()]);
    for k in 0..c.len() {
        for j in k..c.len() {
            let term = ways(j, k) * c[j] * by.powi((j - k) as i32);
            out.0[k] += term;
            out.1[k] += term.abs();
        }
    }
    out
}
fn agree(got: &[f64], want: &[f64], size: &[f64], rel: f64, what: &str, of: &[f64]) -> R {
    for (k, g) in got.iter().enumerate() {
        let (w, s) = (want.get(k).copied().unwrap_or(0.0), size.get(k).copied().unwrap_or(0.0));
        ensure!((g - w).abs() <= rel * s + 1e-36, "{what} is wrong | coefficient {k} {g:e} want {w:e} of {}", shown(of));
    }
    Ok(())
}

/// Every real root by the turning points of the polynomial, each root once, and whether any turning
/// point comes so near to nothing that the number of roots there is rounding's to say.
fn roots_of(c: &[f64], far: f64, grey: f64) -> (Vec<f64>, bool) {
    let (found, flat) = turns_of(c, far, grey);
    (found, !flat.is_empty())
}
/// The roots, and the turning points that come near to being some.
fn turns_of(c: &[f64], far: f64, grey: f64) -> (Vec<f64>, Vec<f64>) {
    let n = match top(c) {
        None | Some(0) => return (vec![], vec![]),
        Some(n) => n,
    };
    if n == 1 {
        return (vec![-c[0] / c[1]], vec![]);
    }
    let (mut turns, flat) = turns_of(&slope(&c[..=n]), far, grey);
    turns.extend(flat);
    turns.sort_by(f64::total_cmp);
    let mut marks = vec![-far];
    marks.extend(turns.iter().copied().filter(|t| t.abs() < far));
    marks.push(far);
    let mut found = vec![];
    let near: Vec<f64> = turns.iter().copied().filter(|t| value(c, *t).abs() <= grey * size(c, far * 0.5)).collect();
    for w in marks.windows(2) {
        let (mut low, mut high) = (w[0], w[1]);
        let (a, b) = (value(c, low), value(c, high));
        if a == 0.0 && (found.last() != Some(&low)) {
            found.push(low);
            continue;
        }
        if a == 0.0 || (a > 0.0) == (b > 0.0) && b != 0.0 || b == 0.0 {
            continue;
        }
        for _ in 0..200 {
            let middle = 0.5 * (low + high);
            if middle <= low || middle >= high {
                break;
            }
            if (value(c, middle) > 0.0) == (a > 0.0) {
                low = middle;
            } else {
                high = middle;
            }
        }
        found.push(0.5 * (low + high));
    }
    (found, near)
}
/// A size no root is larger than, twice over.
fn reach_of(c: &[f64]) -> f64 {
    let n = top(c).unwrap_or(0);
    (0..n).map(|k| (c[k] / c[n]).abs().powf(1.0 / (n - k) as f64)).fold(0.0, f64::max)
}

/// A number in two halves, for telling a true nothing from rounding.
#[derive(Clone, Copy)]
struct Two(f64, f64);
impl Two {
    fn sum(a: f64, b: f64) -> Two {
        let s = a + b;
        let t = s - a;
        Two(s, (a - (s - t)) + (b - t))
    }
    fn add(self, o: Two) -> Two {
        let s = Two::sum(self.0, o.0);
        let t = Two::sum(self.1, o.1);
        let s = Two::sum(s.0, s.1 + t.0);
        Two::sum(s.0, s.1 + t.1)
    }
    fn mul(self, o: Two) -> Two {
        let p = self.0 * o.0;
        Two::sum(p, self.0.mul_add(o.0, -p) + self.0 * o.1 + self.1 * o.0)
    }
    fn minus(self) -> Two {
        Two(-self.0, -self.1)
    }
    fn over(self, o: Two) -> Two {
        let q = Two(self.0 / o.0, 0.0);
        let r = self.add(q.mul(o).minus());
        let r2 = Two(r.0 / o.0, 0.0);
        let rest = r.add(r2.mul(o).minus());
        q.add(r2).add(Two(rest.0 / o.0, 0.0))
    }
}

/// Whether dividing the polynomial and its slopes down leaves no highest power that is there but no
/// larger than rounding can be: only then is a count by signs more than rounding's to say.
fn plain(c: &[f64], eps: f64) -> bool {
    let n = top(c).unwrap_or(0);
    let (mut a, mut b): (Vec<Two>, Vec<Two>) = (
        c[..=n].iter().map(|v| Two(*v, 0.0)).collect(),
        (1..=n).map(|k| Two(c[k], 0.0).mul(Two(k as f64, 0.0))).collect(),
    );
    let most = |v: &[Two]| v.iter().fold(0.0f64, |m, v| m.max(v.0.abs()));
    while let Some(d) = b.iter().rposition(|v| v.0 != 0.0).filter(|d| *d > 0) {
        let mut big = most(&a);
        for p in (d..a.len()).rev() {
            let s = a[p].over(b[d]);
            big = big.max(s.0.abs() * most(&b));
            for k in 0..=d {
                a[p - d + k] = a[p - d + k].add(s.mul(b[k]).minus());
            }
            a[p] = Two(0.0, 0.0);
        }
        for v in &mut a {
            if v.0.abs() <= 1e-27 * big {
                *v = Two(0.0, 0.0);
            }
        }
        let Some(t) = a.iter().rposition(|v| v.0 != 0.0) else { return true };
        if a[t].0.abs() < 1e6 * eps * big {
            return false;
        }
        let s = 2f64.powi(most(&a).log2() as i32);
        let next: Vec<Two> = a.iter().map(|v| Two(-v.0 / s, -v.1 / s)).collect();
        a = std::mem::replace(&mut b, next);
    }
    true
}

fn closed<const N: usize, T: Width>(c: &[f64]) -> Option<Result<Vec<f64>, E>> {
    macro_rules! ask {
        ($n:literal) => {
            Some(held::<$n, T>(c).real_roots().map(|r| {
                let out: Vec<f64> = r.as_slice().iter().map(|v| v.f()).collect();
                assert!(r.len() == out.len() && r.is_empty() == out.is_empty());
                out
            }))
        };
    }
    match N {
        2 => ask!(2),
        3 => ask!(3),
        4 => ask!(4),
        5 => ask!(5),
        _ => None,
    }
}

fn roots<const N: usize, T: Width>(c: &[f64], e: &Ev, cx: &mut Cx) -> R {
    let p: Polynomial<N, T> = held(c);
    let eps = T::EPS;
    let (low, high, tolerance) = (T::of(e.n(24)), T::of(e.n(25)), T::of(e.n(26)));
    let steps = e.u(27);
    let bound = p.cauchy_root_bound();
    let counted = p.count_real_roots(low, high);
    let narrowed = p.real_roots_in(low, high, tolerance, steps);
    let exact = closed::<N, T>(c);
    let broken = c.iter().any(|v| !v.is_finite());
    if broken || top(c).is_none() {
        let want = if broken { E::NonFinite } else { E::LeadingCoefficientZero };
        ensure!(bound == Err(want), "a bound for no roots | {bound:?} of {}", shown(c));
        ensure!(counted == Err(want), "roots counted where there is nothing to count | {counted:?} of {}", shown(c));
        if let Some(r) = &exact {
            ensure!(*r == Err(want), "roots of nothing | {r:?} of {}", shown(c));
        }
    }
    let badly = if !low.is_finite() || !high.is_finite() || !tolerance.is_finite() {
        Some(E::NonFinite)
    } else if tolerance.f() <= 0.0 {
        Some(E::ToleranceNotPositive)
    } else if low.f() > high.f() {
        Some(E::RangeReversed)
    } else if broken {
        Some(E::NonFinite)
    } else if top(c).is_none() {
        Some(E::LeadingCoefficientZero)
    } else {
        None
    };
    if let Some(want) = badly {
        ensure!(narrowed == Err(want), "a search that cannot be made | {narrowed:?} want {want:?} of {}", shown(c));
        cx.reach("search refused");
    }
    let Some(n) = top(c).filter(|_| !broken) else {
        return Ok(());
    };
    if n + 1 < N {
        if let Some(r) = &exact {
            ensure!(*r == Err(E::LeadingCoefficientZero), "a highest coefficient of nothing has roots | {r:?} of {}", shown(c));
        }
    }
    let worst = (0..n).map(|k| (c[k] / c[n]).abs()).fold(0.0, f64::max);
    let far = reach_of(c);
    if worst > if T::EPS > 1e-10 { 1e6 } else { 1e12 } || (far > 300.0 && T::EPS > 1e-10) || (far < if T::EPS > 1e-10 { 0.03 } else { 1e-3 } && far != 0.0) {
        cx.reach("roots out of scale");
        return Ok(());
    }
    let Ok(b) = bound else { return Err(format!("a bound refused | {bound:?} of {}", shown(c))) };
    ensure!(close(b.f(), 1.0 + worst, 8.0 * eps, 0.0), "a bound on the roots is wrong | {:e} want {:e} of {}", b.f(), 1.0 + worst, shown(c));
    if far == 0.0 {
        if let (Some(r), true) = (&exact, n + 1 == N) {
            ensure!(matches!(r, Ok(r) if r.len() == n && r.iter().all(|v| *v == 0.0)), "a single power has other roots than nothing | {r:?} of {}", shown(c));
        }
        return Ok(());
    }
    // A turning point this close to nothing may hold two roots or none.
    let grey = if T::EPS > 1e-10 { 3e-3 } else { 1e-6 };
    let (want, unsure) = roots_of(c, 4.0 * far, grey);
    for x in &want {
        ensure!(x.abs() <= b.f() * (1.0 + 4.0 * eps), "a root lies past the bound | {x:e} bound {:e} of {}", b.f(), shown(c));
    }
    if let (Some(r), true) = (&exact, n + 1 == N) {
        let Ok(r) = r else { return Err(format!("roots refused | {r:?} of {}", shown(c))) };
        ensure!(r.windows(2).all(|w| w[0] <= w[1]), "roots out of order | {r:?} of {}", shown(c));
        ensure!(r.len() <= n, "more roots than powers | {r:?} of {}", shown(c));
        for x in r {
            ensure!(x.is_finite(), "a root that is no number | {r:?} of {}", shown(c));
            let off = value(c, *x).abs() / size(c, far);
            ensure!(off <= grey, "a root is none | {x:e} leaves {off:e} of {}", shown(c));
        }
        if !unsure {
            ensure!(r.len() == want.len(), "a number of roots is wrong | {r:?} want {want:?} of {}", shown(c));
            for (i, x) in r.iter().enumerate() {
                let near = want.iter().enumerate().filter(|(j, _)| *j != i).fold(4.0 * far, |m, (_, w)| m.min((w - want[i]).abs()));
                let slack = 4.0 * grey * size(c, far) / value(&slope(c), want[i]).abs();
                ensure!((x - want[i]).abs() <= (0.25 * near).min(slack), "a root is off | {r:?} want {want:?} of {}", shown(c));
            }
            cx.reach("roots apart");
        } else {
            cx.reach("roots close together");
        }
        cx.reach(if r.is_empty() { "no roots" } else { "roots" });
    }
    if unsure || badly.is_some() || !plain(c, eps) {
        return Ok(());
    }
    cx.reach("roots counted");
    let inside = |x: f64| want.iter().all(|w| (w - x).abs() > 1e-3 * far);
    if inside(low.f()) && inside(high.f()) && low.f() <= high.f() {
        let between: Vec<f64> = want.iter().copied().filter(|w| *w > low.f() && *w <= high.f()).collect();
        ensure!(counted == Ok(between.len()), "a count of roots is wrong | {counted:?} want {between:?} in {:e} to {:e} of {}", low.f(), high.f(), shown(c));
        match narrowed {
            Ok(r) => {
                let r: Vec<f64> = r.as_slice().iter().map(|v| v.f()).collect();
                ensure!(r.len() == between.len(), "a number of roots found is wrong | {r:?} want {between:?} of {}", shown(c));
                for (x, w) in r.iter().zip(&between) {
                    let slack = tolerance.f() + 1e3 * eps * size(c, far) / value(&slope(c), *w).abs();
                    ensure!((x - w).abs() <= slack, "a root found is off | {r:?} want {between:?} within {:e} of {}", tolerance.f(), shown(c));
                }
                cx.reach("roots narrowed");
            }
            Err(E::DidNotConverge { steps: done }) => {
                ensure!(done == steps, "a search gave up early | {done} of {steps} of {}", shown(c));
                let wide = high.f() - low.f();
                let apart = between.windows(2).map(|w| w[1] - w[0]).fold(wide, f64::min).min(tolerance.f());
                let need = (between.len().max(1) as f64) * 2.0 * ((wide / apart.max(f64::MIN_POSITIVE)).log2().max(0.0) + 3.0);
                let fine = tolerance.f() < 4.0 * eps * low.f().abs().max(high.f().abs());
                ensure!((steps as f64) < need || fine, "a search ran out of steps it did not need | {steps} of {need} within {:e} of {}", tolerance.f(), shown(c));
                cx.fault("search cut short");
            }
            Err(other) => return Err(format!("a sound search is refused | {other:?} of {}", shown(c))),
        }
    }
    Ok(())
}

fn questions<const N: usize, T: Width>(c: &[f64], e: &Ev, cx: &mut Cx) -> R {
    let p: Polynomial<N, T> = held(c);
    let eps = T::EPS;
    let n = N as f64;
    ensure!(p.degree() == top(c) && p.is_zero() == top(c).is_none() && p.is_finite() == c.iter().all(|v| v.is_finite()), "what a polynomial says of itself is wrong | {:?} of {}", p.degree(), shown(c));
    let lead = p.leading_coefficient().map(|v| v.f());
    ensure!(matches!((lead, top(c)), (None, None)) || matches!((lead, top(c)), (Some(l), Some(k)) if same(l, c[k])), "a leading coefficient is wrong | {lead:?} of {}", shown(c));
    ensure!((0..N + 2).all(|k| match (p.coefficient(k), c.get(k)) { (Some(a), Some(b)) => same(a.f(), *b), (a, b) => a.is_none() && b.is_none() }), "a coefficient is wrong | {}", shown(c));
    // Room for more or for less.
    let (wide, thin) = (p.try_resize::<11>(), p.try_resize::<3>());
    match wide {
        Some(w) => ensure!(all_same(&bits(&w)[..N], c) && bits(&w)[N..].iter().all(|v| *v == 0.0), "room for more changed it | {}", shown(c)),
        None => return Err(format!("room for more is refused | {}", shown(c))),
    }
    let fits = c.iter().skip(3).all(|v| *v == 0.0);
    ensure!(thin.is_some() == fits, "room for less is wrong | {:?} of {}", thin.map(|t| bits(&t)), shown(c));
    if let Some(t) = thin {
        ensure!((0..3).all(|k| same(bits(&t)[k], c.get(k).copied().unwrap_or(0.0))), "room for less changed it | {:?} of {}", bits(&t), shown(c));
    }
    roots::<N, T>(c, e, cx)?;
    if c.iter().any(|v| !v.is_finite()) {
        let x = T::of(e.n(20));
        ensure!(!p.evaluate(x).f().is_finite() || e.n(20) == 0.0, "a coefficient that is no number gave a value | {:e} of {}", p.evaluate(x).f(), shown(c));
        cx.reach("no number in");
        return Ok(());
    }
    let (x, y) = (T::of(e.n(20)), T::of(e.n(21)));
    for at in [x, y, T::ZERO] {
        let (got, want) = (p.evaluate(at).f(), value(c, at.f()));
        ensure!((got - want).abs() <= 2.0 * n * eps * size(c, at.f()) + 1e-36, "a value is wrong | {got:e} want {want:e} at {:e} of {}", at.f(), shown(c));
        let all = p.evaluate_with_derivatives::<6>(at);
        let (mut d, mut own) = (c.to_vec(), p);
        for (k, g) in all.iter().enumerate() {
            let want = value(&d, at.f());
            ensure!((g.f() - want).abs() <= 8.0 * n * eps * size(&d, at.f()) + 1e-30, "a derivative at a point is wrong | order {k} {:e} want {want:e} at {:e} of {}", g.f(), at.f(), shown(c));
            let shape = p.nth_derivative(k);
            let mut full = d.clone();
            full.resize(N, 0.0);
            let sizes: Vec<f64> = full.iter().map(|v| v.abs()).collect();
            agree(&bits(&shape), &full, &sizes, 8.0 * n * eps, "a derivative", c)?;
            ensure!(all_same(&bits(&own), &bits(&shape)), "derivatives one at a time and at once differ | {:?} {:?} of {}", bits(&own), bits(&shape), shown(c));
            own = own.derivative();
            d = slope(&d);
        }
        ensure!(p.evaluate_with_derivatives::<0>(at).is_empty() && same(p.evaluate_with_derivatives::<1>(at)[0].f(), p.evaluate(at).f()), "a value among its derivatives differs | {}", shown(c));
    }
    ensure!(p.nth_derivative(N).is_zero() && p.nth_derivative(usize::MAX).is_zero(), "a derivative past the last power is something | {}", shown(c));
    let area: Vec<f64> = std::iter::once(0.0).chain(c.iter().enumerate().map(|(k, v)| v / (k + 1) as f64)).collect();
    let (got, want) = (p.definite_integral(x, y).f(), value(&area, y.f()) - value(&area, x.f()));
    ensure!((got - want).abs() <= 4.0 * n * eps * (size(&area, x.f()) + size(&area, y.f())) + 1e-30, "an area is wrong | {got:e} want {want:e} from {:e} to {:e} of {}", x.f(), y.f(), shown(c));
    cx.reach("values");
    Ok(())
}

/// Products, compositions and quotients with another polynomial, of room enough and too little.
fn pairs<const N: usize, T: Width>(c: &[f64], e: &Ev, cx: &mut Cx) -> R {
    let p: Polynomial<N, T> = held(c);
    let (eps, n) = (T::EPS, N as f64);
    let other: Vec<f64> = (0..4).map(|k| if (e.u(3) >> k) & 1 == 1 { T::of(e.n(10 + k)).f() } else { 0.0 }).collect();
    let q: Polynomial<4, T> = held(&other);
    let (want, sizes) = product(c, &other);
    let over = |room: usize| (0..N).any(|i| (0..4).any(|j| i + j >= room && (T::of(c[i]) * T::of(other[j])).f() != 0.0));
    for (room, got) in [(12, p.multiply_into::<4, 12>(&q).map(|v| bits(&v))), (5, p.multiply_into::<4, 5>(&q).map(|v| bits(&v))), (2, p.multiply_into::<4, 2>(&q).map(|v| bits(&v)))] {
        match got {
            Ok(v) => {
                ensure!(!over(room), "a product that does not fit was cut | {v:?} of {} and {other:?}", shown(c));
                agree(&v, &want, &sizes, 2.0 * n * eps, "a product", c)?;
            }
            Err(x) => {
                ensure!(x == E::DegreeOverflow && over(room), "a product that fits is refused | {x:?} room {room} of {} and {other:?}", shown(c));
                cx.fault("product overflows");
            }
        }
    }
    // One inside the other, where that stays within bounds.
    let inner = &other[..3];
    let r: Polynomial<3, T> = held(inner);
    let degrees = top(c).unwrap_or(0) * top(inner).unwrap_or(0);
    let (mut want, mut sizes) = (vec![0.0], vec![0.0]);
    for v in c.iter().rev() {
        want = product(&want, inner).0;
        sizes = product(&sizes, &inner.iter().map(|v| v.abs()).collect::<Vec<_>>()).0;
        want[0] += v;
        sizes[0] += v.abs();
    }
    let tame = sizes.iter().all(|v| *v < 1e30) && c.iter().chain(inner).all(|v| *v == 0.0 || v.abs() > 1e-3);
    if tame {
        match p.compose_into::<3, 18>(&r) {
            Ok(v) => agree(&bits(&v), &want, &sizes, 16.0 * n * eps, "one inside another", c)?,
            Err(x) => return Err(format!("one inside another is refused | {x:?} of {} and {inner:?}", shown(c))),
        }
        match p.compose_into::<3, 4>(&r) {
            Ok(v) => {
                ensure!(degrees <= 3, "one inside another was cut | {:?} of {} and {inner:?}", bits(&v), shown(c));
                agree(&bits(&v), &want, &sizes, 16.0 * n * eps, "one inside another", c)?;
            }
            Err(x) => ensure!(x == E::DegreeOverflow && degrees > 3, "one inside another that fits is refused | {x:?} of {} and {inner:?}", shown(c)),
        }
    }
    // Long division: the quotient times the divisor and the remainder make it up again.
    let split = |room: usize, rest: usize, got: Result<(Vec<f64>, Vec<f64>), E>, cx: &mut Cx| -> R {
        let (up, down) = (top(c), top(&other));
        match got {
            Err(x) => {
                let want = match (up, down) {
                    (_, None) => E::LeadingCoefficientZero,
                    _ => E::DegreeOverflow,
                };
                let tight = matches!((up, down), (Some(u), Some(d)) if (u >= d && u - d >= room) || d.min(u + 1) > rest);
                ensure!(x == want && (down.is_none() || tight), "a division that fits is refused | {x:?} rooms {room} {rest} of {} by {other:?}", shown(c));
                cx.fault("division refused");
            }
            Ok((quotient, rest)) => {
                let Some(down) = down else { return Err(format!("a division by nothing | {quotient:?} of {}", shown(c))) };
                ensure!(up.is_none_or(|u| u < down || u - down < room), "a quotient was cut | {quotient:?} of {} by {other:?}", shown(c));
                ensure!(rest.iter().skip(down).all(|v| *v == 0.0), "a remainder reaches the divisor | {rest:?} of {} by {other:?}", shown(c));
                ensure!(up.is_none_or(|u| quotient.iter().skip((u + 1).saturating_sub(down)).all(|v| *v == 0.0)), "a quotient runs too high | {quotient:?} of {} by {other:?}", shown(c));
                let (again, weight) = product(&quotient, &other);
                for k in 0..again.len().max(N) {
                    let want = c.get(k).copied().unwrap_or(0.0);
                    let got = again.get(k).copied().unwrap_or(0.0) + rest.get(k).copied().unwrap_or(0.0);
                    let size = weight.get(k).copied().unwrap_or(0.0) + want.abs();
                    ensure!((got - want).abs() <= 4.0 * (n + 4.0) * eps * size + 1e-36, "a division does not multiply back | power {k} {got:e} want {want:e} of {} by {other:?}", shown(c));
                }
                cx.reach("divided");
            }
        }
        Ok(())
    };
    let lead = top(&other).map_or(1.0, |k| other[k].abs());
    if lead > 1e-3 {
        split(11, 9, p.divide::<4, 11, 9>(&q).map(|(a, b)| (bits(&a), bits(&b))), cx)?;
        split(3, 3, p.divide::<4, 3, 3>(&q).map(|(a, b)| (bits(&a), bits(&b))), cx)?;
        split(5, 1, p.divide::<4, 5, 1>(&q).map(|(a, b)| (bits(&a), bits(&b))), cx)?;
    }
    Ok(())
}

/// Polynomials made from roots, from points, from a series and from what happens at two ends.
fn made<const N: usize, T: Width>(e: &Ev, cx: &mut Cx) -> R {
    let (eps, n) = (T::EPS, N as f64);
    let given = |from: usize, k: usize| T::of(e.n(from + k % 8));
    let broken = e.n(7) > 0.5;
    let mut nodes: [T; N] = std::array::from_fn(|k| T::of(e.n(8) + e.n(9) * (k as f64 + 0.35 * e.n(10 + k))));
    // In any order.
    for k in 0..N {
        nodes.swap(k, (e.u(3) + 3 * k) % N);
    }
    let mut values: [T; N] = std::array::from_fn(|k| given(28, k));
    let twice = e.n(6) > 0.5 && N > 1;
    if twice {
        nodes[e.u(4) % N] = nodes[e.u(5) % N];
    }
    if broken {
        let bad = T::of(if e.u(4) % 2 == 0 { f64::NAN } else { f64::INFINITY });
        if e.u(5) % 2 == 0 { nodes[e.u(4) % N] = bad } else { values[e.u(4) % N] = bad }
        cx.fault("sample broken");
    }
    let at: Vec<f64> = nodes.iter().map(|v| v.f()).collect();
    let to: Vec<f64> = values.iter().map(|v| v.f()).collect();
    let same_place = (0..N).any(|i| (0..i).any(|j| at[i] == at[j]));
    let whole = at.iter().chain(&to).all(|v| v.is_finite());
    let (least, most) = at.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), v| (l.min(*v), h.max(*v)));
    let (centre, half) = ((least + most) * 0.5, ((most - least) * 0.5).max(1e-300));
    match Polynomial::<N, T>::from_points(&nodes, &values) {
        Err(x) => {
            let want = if !whole { E::NonFinite } else { E::DuplicateNode };
            ensure!(x == want && (!whole || (same_place && N > 1)), "points are refused | {x:?} at {at:?} {to:?}");
            cx.fault("points refused");
        }
        Ok(p) => {
            ensure!(whole && (!same_place || N == 1), "points at one place were fitted | {:?} at {at:?} {to:?}", bits(&p));
            let c = bits(&p);
            let gap = (0..N).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| (at[i] - at[j]).abs()).fold(f64::INFINITY, f64::min);
            if gap > 0.1 * half / n {
                let lift = moved(&c, 0.0).0.iter().enumerate().map(|(k, v)| v.abs() * (centre.abs() + half).powi(k as i32)).sum::<f64>();
                let steep = 4f64.powi(N as i32) * (1.0 + centre.abs() / half).powi(N as i32) * to.iter().fold(0.0f64, |m, v| m.max(v.abs()));
                for k in 0..N {
                    let got = value(&c, at[k]);
                    ensure!((got - to[k]).abs() <= 16.0 * n * eps * (lift + steep) , "a curve misses its point | {got:e} want {:e} at {:e} of {at:?} {to:?}", to[k], at[k]);
                }
                cx.reach("through points");
            }
        }
    }
    // More samples than coefficients.
    let nodes: [T; 12] = std::array::from_fn(|k| T::of(e.n(8) + e.n(9) * if twice { (k % 3) as f64 } else { k as f64 * 0.5 + 0.1 * e.n(10 + k) }));
    let mut values: [T; 12] = std::array::from_fn(|k| given(28, k));
    if broken {
        values[e.u(4) % 12] = T::of(f64::NAN);
    }
    let (at, to): (Vec<f64>, Vec<f64>) = (nodes.iter().map(|v| v.f()).collect(), values.iter().map(|v| v.f()).collect());
    let mut places = at.clone();
    places.sort_by(f64::total_cmp);
    places.dedup_by(|a, b| (*a - *b).abs() <= (1e8 * eps).min(1e-2) * e.n(9).abs());
    let (least, most) = (places[0], *places.last().unwrap_or(&0.0));
    let (centre, half) = ((least + most) * 0.5, (most - least) * 0.5);
    let whole = at.iter().chain(&to).all(|v| v.is_finite());
    match Polynomial::<N, T>::fit_least_squares(&nodes, &values) {
        Err(x) => {
            let sound = if !whole { x == E::NonFinite } else if half == 0.0 { x == E::DuplicateNode } else { places.len() < N };
            ensure!(sound, "a fit is refused | {x:?} at {at:?} {to:?} of {N}");
            cx.fault("fit refused");
        }
        Ok(p) => {
            ensure!(whole && half > 0.0, "samples at one place or broken were fitted | {:?} at {at:?} {to:?}", bits(&p));
            let c = bits(&p);
            if places.len() >= N && centre.abs() < 4.0 * half && c.iter().all(|v| v.is_finite()) {
                // What is left over is square to every power.
                let lift = c.iter().enumerate().map(|(k, v)| v.abs() * (centre.abs() + half).powi(k as i32)).sum::<f64>() + to.iter().fold(0.0f64, |m, v| m.max(v.abs()));
                for power in 0..N {
                    let pull: f64 = (0..12).map(|k| (value(&c, at[k]) - to[k]) * ((at[k] - centre) / half).powi(power as i32)).sum();
                    ensure!(pull.abs() <= 12.0 * 16.0 * n * eps * lift * (1.0 + centre.abs() / half).powi(N as i32), "a fit is not the closest | power {power} pull {pull:e} of {at:?} {to:?} got {c:?}");
                }
                cx.reach("closest fit");
            }
        }
    }
    ensure!(Polynomial::<N, T>::fit_least_squares::<0>(&[], &[]) == Err(E::TooFewSamples), "a fit to nothing");
    ensure!(N == 1 || matches!(Polynomial::<N, T>::fit_least_squares::<1>(&[nodes[0]], &[values[0]]), Err(E::TooFewSamples)), "a fit to too little");
    // From roots.
    let count = e.u(5) % (N + 2);
    let mut list: Vec<T> = (0..count).map(|k| given(28, k)).collect();
    if broken && count > 0 {
        list[e.u(4) % count] = T::of(f64::INFINITY);
    }
    match Polynomial::<N, T>::from_roots(&list) {
        Err(x) => ensure!(x == if broken && count > 0 { E::NonFinite } else { E::DegreeOverflow } && ((broken && count > 0) || count >= N), "roots are refused | {x:?} of {count} for {N}"),
        Ok(p) => {
            ensure!(count < N && !(broken && count > 0), "too many roots or broken ones were taken | {count} for {N}");
            let (mut want, mut sizes) = (vec![1.0], vec![1.0]);
            for r in &list {
                want = product(&want, &[-r.f(), 1.0]).0;
                sizes = product(&sizes, &[r.f().abs(), 1.0]).0;
            }
            agree(&bits(&p), &want, &sizes, 2.0 * n * eps, "a polynomial from its roots", &want)?;
            cx.reach("from roots");
        }
    }
    // From a series.
    let series = |k: usize| given(10, k);
    let short = Polynomial::<N, T>::from_jet(&Jet::<T, 3> { coeffs: std::array::from_fn(series) });
    let long = Polynomial::<N, T>::from_jet(&Jet::<T, 8> { coeffs: std::array::from_fn(series) });
    for (len, got) in [(3, short), (8, long)] {
        match got {
            Ok(p) => ensure!(len <= N && (0..N).all(|k| same(bits(&p)[k], if k < len { series(k).f() } else { 0.0 })), "a series is not what it was | {:?}", bits(&p)),
            Err(x) => ensure!(x == E::DegreeOverflow && len > N, "a series that fits is refused | {x:?} {len} for {N}"),
        }
    }
    // Places to sample at.
    let (from, to) = (T::of(e.n(8)), T::of(e.n(8) + e.n(9) * 3.0));
    let places = Polynomial::<N, T>::chebyshev_nodes(from, to);
    for (k, v) in places.iter().enumerate() {
        let want = (from.f() + to.f()) * 0.5 - (to.f() - from.f()) * 0.5 * ((2 * k + 1) as f64 * std::f64::consts::PI / (2.0 * n)).cos();
        ensure!((v.f() - want).abs() <= 8.0 * eps * (from.f().abs() + to.f().abs()), "a place to sample is wrong | {k} {:e} want {want:e} from {:e} to {:e}", v.f(), from.f(), to.f());
    }
    ends::<T>(e, cx)
}

/// A curve between two ends.
fn ends<T: Width>(e: &Ev, cx: &mut Cx) -> R {
    let eps = T::EPS;
    let mut w: [T; 8] = std::array::from_fn(|k| T::of(e.n(28 + k)));
    let span = T::of(e.n(36));
    if e.n(7) > 0.5 {
        w[e.u(4) % 8] = T::of(f64::NAN);
    }
    let wide = Polynomial::<8, T>::from_endpoint_derivatives(&[w[0], w[1], w[2], w[3]], &[w[4], w[5], w[6], w[7]], span);
    let thin = Polynomial::<4, T>::from_endpoint_derivatives(w[0], w[1], w[4], w[5], span);
    let judge = |c: Result<Vec<f64>, E>, orders: usize, used: &[usize]| -> R {
        let whole = used.iter().all(|k| w[*k].is_finite()) && span.is_finite();
        match c {
            Err(x) => ensure!(x == if whole { E::SpanNotPositive } else { E::NonFinite } && (!whole || span.f() <= 0.0), "ends are refused | {x:?} {:?} over {:e}", w.map(|v| v.f()), span.f()),
            Ok(c) => {
                ensure!(whole && span.f() > 0.0, "ends that are none were joined | {c:?} over {:e}", span.f());
                let s = span.f();
                let scale: f64 = (0..orders).map(|k| (w[k].f().abs() + w[4 + k].f().abs()) * s.powi(k as i32)).sum();
                let mut d = c.clone();
                for k in 0..orders {
                    for (x, want) in [(0.0, w[k].f()), (1.0, w[4 + k].f())] {
                        let got = value(&d, x) / s.powi(k as i32);
                        let allowed = 4e4 * eps * scale / s.powi(k as i32);
                        ensure!((got - want).abs() <= allowed, "a curve misses its end | order {k} at {x} {got:e} want {want:e} over {s:e} of {:?}", w.map(|v| v.f()));
                    }
                    d = slope(&d);
                }
            }
        }
        Ok(())
    };
    judge(wide.map(|p| bits(&p)), 4, &[0, 1, 2, 3, 4, 5, 6, 7])?;
    judge(thin.map(|p| bits(&p)), 2, &[0, 1, 4, 5])?;
    cx.reach("two ends");
    Ok(())
}

fn session<const N: usize, T: Width>(t: &Trace, cx: &mut Cx) -> R {
    let mut c = vec![0.0; N];
    let eps = T::EPS;
    let n = N as f64;
    for (when, e) in t.evs.iter().enumerate() {
        cx.step(e.k);
        let (j, v) = (e.u(0) % N, e.n(1));
        let p: Polynomial<N, T> = held(&c);
        let sizes: Vec<f64> = c.iter().map(|v| v.abs()).collect();
        let finite = c.iter().all(|v| v.is_finite());
        let beside: Vec<f64> = (0..N).map(|k| T::of(e.n(10 + k)).f()).collect();
        let mut after = None;
        match e.k {
            "all" => c = (0..N).map(|k| T::of(e.n(10 + k) * v).f()).collect(),
            "set" => c[j] = T::of(v).f(),
            "rooted" => {
                // Roots and pairs of none, multiplied out.
                let mut want = vec![1.0];
                let mut k = 0;
                while want.len() + 1 < N && k < 8 {
                    if (e.u(2) >> k) & 1 == 1 && want.len() + 2 <= N {
                        let (m, s) = (e.n(10 + k), e.n(20).abs() + 0.2);
                        want = product(&want, &[m * m + s, -2.0 * m, 1.0]).0;
                    } else {
                        want = product(&want, &[-e.n(10 + k), 1.0]).0;
                    }
                    want.truncate(top(&want).unwrap_or(0) + 1);
                    k += 1;
                }
                want.resize(N, 0.0);
                c = want.iter().map(|w| T::of(w * v).f()).collect();
            }
            "even" => {
                // Only even powers, moved along.
                let mut want: Vec<f64> = (0..N).map(|k| if k % 2 == 0 { e.n(10 + k) } else { 0.0 }).collect();
                if N % 2 == 1 {
                    want[N - 1] = v;
                }
                c = moved(&want, e.n(9)).0.iter().map(|w| T::of(*w).f()).collect();
            }
            "add" => after = Some((p + held(&beside), c.iter().zip(&beside).map(|(a, b)| a + b).collect(), c.iter().zip(&beside).map(|(a, b)| a.abs() + b.abs()).collect())),
            "take" => after = Some((p - held(&beside), c.iter().zip(&beside).map(|(a, b)| a - b).collect(), c.iter().zip(&beside).map(|(a, b)| a.abs() + b.abs()).collect())),
            "turn" => after = Some((-p, c.iter().map(|a| -a).collect(), sizes.clone())),
            "scale" => {
                let k = T::of(v);
                ensure!(all_same(&bits(&p.scale(k)), &bits(&(p * k))), "two ways to scale differ | {}", shown(&c));
                after = Some((p.scale(k), c.iter().map(|a| a * k.f()).collect(), sizes.iter().map(|a| a * k.f().abs()).collect()));
            }
            "share" if T::of(v).f() != 0.0 => {
                let k = T::of(v);
                after = Some((p / k, c.iter().map(|a| a / k.f()).collect(), sizes.iter().map(|a| a / k.f().abs()).collect()));
            }
            "move" => {
                let by = T::of(e.n(2));
                let (want, sizes) = moved(&c, by.f());
                after = Some((p.shift_argument(by), want, sizes));
            }
            "stretch" => {
                let by = T::of(e.n(2));
                let want: Vec<f64> = c.iter().enumerate().map(|(k, a)| a * by.f().powi(k as i32)).collect();
                after = Some((p.scale_argument(by), want.clone(), want.iter().map(|v| v.abs()).collect()));
            }
            "reverse" => after = Some((p.reverse(), c.iter().rev().copied().collect(), vec![0.0; N])),
            "slope" => {
                let mut want = slope(&c);
                want.push(0.0);
                after = Some((p.derivative(), want.clone(), want.iter().map(|v| v.abs()).collect()));
            }
            "drop" => {
                for slot in c.iter_mut().skip(j) {
                    *slot = 0.0;
                }
            }
            "break" => {
                c[j] = if v.is_finite() { f64::NAN } else { v };
                cx.fault("coefficient broken");
            }
            "mend" => c = c.iter().map(|a| if a.is_finite() { *a } else { T::of(v).f() }).collect(),
            _ => {}
        }
        if let Some((got, want, sizes)) = after {
            let got: Vec<f64> = bits(&got);
            if finite {
                agree(&got, &want, &sizes, 4.0 * n * eps, &format!("what \"{}\" makes", e.k), &c)?;
            }
            c = got;
        }
        // What the width cannot hold with room to spare is brought back.
        let (low, high) = if eps > 1e-10 { (1e-6, 1e4) } else { (1e-12, 1e8) };
        let most = c.iter().filter(|v| v.is_finite()).fold(0.0f64, |m, v| m.max(v.abs()));
        for slot in &mut c {
            if slot.is_finite() && most > high {
                *slot = T::of(*slot * (high / most)).f();
            }
            if slot.abs() < low {
                *slot = 0.0;
            }
        }
        questions::<N, T>(&c, e, cx)?;
        if c.iter().all(|v| v.is_finite()) {
            pairs::<N, T>(&c, e, cx)?;
        }
        made::<N, T>(e, cx)?;
        cx.state(&[N as i64, (eps > 1e-10) as i64, top(&c).map_or(-1, |k| k as i64), c.iter().map(|v| v.is_finite() as i64).sum::<i64>(), c.iter().filter(|v| **v > 0.0).count() as i64, (when as i64).min(4)]);
        cx.logs(&c);
    }
    Ok(())
}

// ----- Several variables -----

type Terms = Vec<(f64, [u32; 3])>;
type Several<T> = MultivariatePolynomial<3, 8, T>;

fn terms_of<const M: usize, T: Width>(p: &MultivariatePolynomial<3, M, T>) -> Terms {
    p.terms().iter().map(|t| (t.coefficient().f(), *t.exponents())).collect()
}
fn worth(terms: &Terms, at: &[f64; 3]) -> (f64, f64) {
    terms.iter().fold((0.0, 0.0), |(s, m), (c, x)| {
        let v = (0..3).fold(*c, |v, k| v * at[k].powi(x[k].min(2000) as i32));
        (s + v, m + v.abs())
    })
}
/// Terms of the same powers put together, in the order the powers first came, none left that is nothing.
fn gathered<T: Width>(terms: &Terms) -> Terms {
    let mut out: Terms = vec![];
    for (c, x) in terms {
        match out.iter_mut().find(|(_, y)| y == x) {
            Some((sum, _)) => *sum = (T::of(*sum) + T::of(*c)).f(),
            None => out.push((*c, *x)),
        }
    }
    out.retain(|(c, _)| *c != 0.0);
    out
}
fn alike(got: &Terms, want: &Terms) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.1 == b.1 && same(a.0, b.0))
}

fn several<T: Width>(t: &Trace, cx: &mut Cx) -> R {
    let eps = T::EPS;
    let mut p: Several<T> = MultivariatePolynomial::new();
    let mut own: Terms = vec![];
    for (when, e) in t.evs.iter().enumerate() {
        cx.step(e.k);
        let variable = e.u(0) % 4;
        let coefficient = T::of(e.n(1));
        let high = |k: usize| -> u32 {
            match e.u(k) % 40 {
                39 => u32::MAX,
                38 => u32::MAX / 2 + 1,
                v => v as u32 % 5,
            }
        };
        let x = [high(4), high(5), high(6)];
        // The other one, of up to four terms.
        let mut other: Terms = vec![];
        let mut q: MultivariatePolynomial<3, 4, T> = MultivariatePolynomial::default();
        for k in 0..e.u(3) % 5 {
            let term = (T::of(e.n(10 + k)).f(), [high(14 + k), high(15 + k), high(16 + k)]);
            other.push(term);
            ensure!(q.push(MultivariateTerm::new(T::of(term.0), term.1)).is_ok(), "a term that fits is refused");
        }
        let before = own.clone();
        let what = format!("{before:?} and {other:?}");
        match e.k {
            "all" | "set" | "break" => {
                let c = if e.k == "break" { T::of(if e.n(1).is_finite() { f64::NAN } else { e.n(1) }) } else { coefficient };
                let got = p.push(MultivariateTerm::new(c, x));
                let want = if !c.is_finite() { Err(E::NonFinite) } else if own.len() >= 8 { Err(E::CapacityExceeded) } else { Ok(()) };
                ensure!(got == want, "a term taken or refused wrongly | {got:?} want {want:?} of {what}");
                match got {
                    Ok(()) => own.push((c.f(), x)),
                    Err(_) => cx.fault("term refused"),
                }
            }
            "rooted" | "mend" => {
                p.collect_like_terms();
                own = gathered::<T>(&own);
            }
            "slope" | "even" => match p.partial_derivative(variable) {
                Err(x) => ensure!(x == E::VariableOutOfRange && variable >= 3, "a partial derivative is refused | {x:?} of {what}"),
                Ok(d) => {
                    ensure!(variable < 3, "a variable there is none of");
                    let want: Terms = own.iter().filter(|(_, x)| x[variable] > 0).map(|(c, x)| {
                        let mut y = *x;
                        y[variable] -= 1;
                        ((T::of(*c) * T::from_usize(x[variable] as usize)).f(), y)
                    }).collect();
                    let got = terms_of(&d);
                    ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.1 == b.1 && close(a.0, b.0, 4.0 * eps, 0.0)), "a partial derivative is wrong | {got:?} want {want:?} of {what}");
                    if e.n(2) > 0.0 && got.iter().all(|g| g.0.abs() < 1e4) {
                        p = d;
                        own = got;
                    }
                }
            },
            "stretch" | "share" => match p.partial_antiderivative(variable) {
                Err(x) => {
                    let over = variable < 3 && own.iter().any(|(_, x)| x[variable] == u32::MAX);
                    ensure!(x == if variable >= 3 { E::VariableOutOfRange } else { E::DegreeOverflow } && (variable >= 3 || over), "an antiderivative is refused | {x:?} of {what}");
                    cx.fault("power overflows");
                }
                Ok(d) => {
                    let got = terms_of(&d);
                    ensure!(variable < 3 && got.len() == own.len() && got.iter().zip(&own).all(|(a, b)| {
                        let mut y = b.1;
                        y[variable] = y[variable].wrapping_add(1);
                        a.1 == y && y[variable] != 0 && close(a.0, b.0 / y[variable] as f64, 4.0 * eps, 1e-36)
                    }), "an antiderivative is wrong | {got:?} of {what}");
                    if e.n(2) > 0.0 {
                        p = d;
                        own = got;
                    }
                }
            },
            "move" | "drop" => match p.substitute(variable, T::of(e.n(2))) {
                Err(x) => {
                    // A value raised past every number is no coefficient.
                    let over = variable < 3 && own.iter().any(|(c, x)| !(T::of(*c) * T::of(e.n(2)).powi(x[variable].min(i32::MAX as u32) as i32)).is_finite());
                    ensure!((x == E::VariableOutOfRange && variable >= 3) || (x == E::NonFinite && over), "fixing a variable is refused | {x:?} of {what}");
                    cx.fault("term refused");
                }
                Ok(d) => {
                    ensure!(variable < 3, "a variable there is none of");
                    let got = terms_of(&d);
                    ensure!(got.iter().all(|(c, x)| x[variable] == 0 && *c != 0.0), "a fixed variable is still there | {got:?} of {what}");
                    if own.iter().all(|(_, x)| x.iter().all(|v| *v < 100)) {
                        for at in [[0.7, -1.3, 0.9], [-1.1, 0.4, 1.2]] {
                            let mut fixed = at;
                            fixed[variable] = T::of(e.n(2)).f();
                            let ((g, _), (w, m)) = (worth(&got, &at), worth(&own, &fixed));
                            ensure!((g - w).abs() <= 40.0 * eps * m + 1e-30, "fixing a variable changed the rest | {g:e} want {w:e} {got:?} of {what}");
                        }
                    }
                    let distinct: Vec<_> = got.iter().map(|g| g.1).collect();
                    ensure!((0..distinct.len()).all(|i| !distinct[..i].contains(&distinct[i])), "terms alike are left apart | {got:?} of {what}");
                    if got.iter().all(|g| g.0.abs() < 1e4) && e.n(7) > 0.5 {
                        p = d;
                        own = got;
                    }
                }
            },
            "add" | "take" => {
                let joined: Terms = own.iter().chain(&other).copied().collect();
                match p.add_into::<4, 8>(&q) {
                    Ok(s) => {
                        ensure!(joined.len() <= 8, "a sum that does not fit was taken | {what}");
                        let (got, want) = (terms_of(&s), gathered::<T>(&joined));
                        ensure!(alike(&got, &want), "a sum is wrong | {got:?} want {want:?} of {what}");
                        p = s;
                        own = got;
                    }
                    Err(x) => {
                        ensure!(x == E::CapacityExceeded && joined.len() > 8, "a sum that fits is refused | {x:?} of {what}");
                        cx.fault("sum refused");
                    }
                }
            }
            "scale" | "reverse" | "turn" => {
                let mut pairs: Terms = vec![];
                let mut over = false;
                for (c, x) in &own {
                    for (d, y) in &other {
                        over |= (0..3).any(|k| x[k].checked_add(y[k]).is_none());
                        pairs.push(((T::of(*c) * T::of(*d)).f(), std::array::from_fn(|k| x[k].wrapping_add(y[k]))));
                    }
                }
                match p.multiply_into::<4, 8>(&q) {
                    Ok(s) => {
                        ensure!(!over && pairs.len() <= 8, "a product that does not fit was taken | {what}");
                        let (got, want) = (terms_of(&s), gathered::<T>(&pairs));
                        ensure!(alike(&got, &want), "a product is wrong | {got:?} want {want:?} of {what}");
                        if got.iter().all(|g| g.0.abs() < 1e4) {
                            p = s;
                            own = got;
                        }
                    }
                    Err(x) => {
                        ensure!((x == E::CapacityExceeded && pairs.len() > 8) || (x == E::DegreeOverflow && over), "a product that fits is refused | {x:?} of {what}");
                        cx.fault("product refused");
                    }
                }
            }
            _ => {}
        }
        let got = terms_of(&p);
        ensure!(alike(&got, &own) && p.len() == own.len() && p.is_empty() == own.is_empty() && p.is_finite(), "the terms are not what was put in | {got:?} want {own:?}");
        let again = Several::<T>::try_from_terms(p.terms());
        ensure!(matches!(&again, Ok(a) if *a == p), "the same terms are not equal | {again:?} of {got:?}");
        let total = own.iter().map(|(_, x)| x.iter().fold(0u32, |s, v| s.saturating_add(*v))).max();
        ensure!(p.total_degree() == total && (0..4).all(|k| p.degree_in(k) == own.iter().filter(|_| k < 3).map(|(_, x)| x[k.min(2)]).max()), "a degree is wrong | {:?} of {got:?}", p.total_degree());
        if own.iter().all(|(_, x)| x.iter().all(|v| *v < 100)) {
            let at: [T; 3] = std::array::from_fn(|k| T::of(e.n(20 + k).clamp(-1.5, 1.5)));
            let here = at.map(|v| v.f());
            let (want, weight) = worth(&own, &here);
            let (got, many) = (p.evaluate(&at).f(), own.len() as f64 + 16.0);
            ensure!((got - want).abs() <= 4.0 * many * eps * weight + 1e-30, "a value in several variables is wrong | {got:e} want {want:e} at {here:?} of {own:?}");
            let slopes = p.gradient_at(&at);
            for k in 0..3 {
                let d: Terms = own.iter().filter(|(_, x)| x[k] > 0).map(|(c, x)| {
                    let mut y = *x;
                    y[k] -= 1;
                    (c * x[k] as f64, y)
                }).collect();
                let (want, weight) = worth(&d, &here);
                ensure!((slopes[k].f() - want).abs() <= 4.0 * many * eps * weight + 1e-30, "a slope in several variables is wrong | {k} {:e} want {want:e} at {here:?} of {own:?}", slopes[k].f());
            }
            cx.reach("several variables");
        }
        // One variable, there and back.
        let one: Vec<MultivariateTerm<1, T>> = own.iter().map(|(c, x)| MultivariateTerm::new(T::of(*c), [x[0]])).collect();
        if let Ok(line) = MultivariatePolynomial::<1, 8, T>::try_from_terms(&one) {
            match line.to_univariate::<5>() {
                Err(x) => ensure!(x == E::DegreeOverflow && own.iter().any(|(_, x)| x[0] >= 5), "a power that fits is refused | {x:?} of {own:?}"),
                Ok(dense) => {
                    let c = bits(&dense);
                    ensure!(own.iter().all(|(_, x)| x[0] < 5), "a power that does not fit was taken | {c:?} of {own:?}");
                    for (k, v) in c.iter().enumerate() {
                        let mine = own.iter().filter(|(_, x)| x[0] as usize == k).fold(0.0, |s, (c, _)| (T::of(s) + T::of(*c)).f());
                        ensure!(same(*v, mine), "a coefficient of one variable is wrong | {k} {v:e} want {mine:e} of {own:?}");
                    }
                    let many = c.iter().filter(|v| **v != 0.0).count();
                    ensure!(matches!(MultivariatePolynomial::<1, 5, T>::from_univariate(&dense), Ok(b) if b.len() == many && b.to_univariate::<5>().is_ok_and(|d| bits(&d) == c)), "there and back is not the same | {c:?}");
                    ensure!(matches!(MultivariatePolynomial::<1, 2, T>::from_univariate(&dense), Err(E::CapacityExceeded)) == (many > 2), "two terms hold more or less than two | {c:?}");
                }
            }
        }
        cx.state(&[50, own.len() as i64, total.map_or(-1, |t| t.min(30) as i64), (when as i64).min(4)]);
        cx.logs(&own.iter().map(|t| t.0).collect::<Vec<_>>());
    }
    Ok(())
}

const NAMES: [&str; 16] = ["all", "set", "rooted", "even", "add", "take", "turn", "scale", "share", "move", "stretch", "reverse", "slope", "drop", "break", "mend"];

impl World for Algebra {
    fn name(&self) -> &'static str {
        "algebra"
    }
    fn generate(&self, r: &mut Rng) -> Trace {
        let mut t = Trace::default();
        t.cfg = vec![r.chance(0.4) as u8 as f64, r.int(1, 8) as f64, r.chance(0.25) as u8 as f64];
        let whole = r.chance(0.3);
        for n in 0..r.int(2, 12) {
            let mut a = vec![r.below(10) as f64, r.normal()];
            let name = if n == 0 { *r.pick(&["all", "rooted", "even"]) } else { *r.pick(&NAMES) };
            match name {
                "break" => a[1] = r.broken(),
                "scale" | "share" => a[1] = r.sign() * r.log_range(1e-2, 1e2),
                _ if whole => a[1] = r.int(1, 3) as f64,
                _ => {}
            }
            let span = r.log_range(0.05, 10.0);
            for i in a.len()..48 {
                a.push(match i {
                    2 if name == "rooted" => r.below(256) as f64,
                    2 => *r.pick(&[-2.0, -1.0, -0.5, 0.0, 0.3, 1.0, 1.7]),
                    3 => r.below(64) as f64,
                    4 | 5 => r.below(40) as f64,
                    6 => r.chance(0.15) as u8 as f64,
                    7 => r.chance(0.1) as u8 as f64,
                    8 => if r.chance(0.2) { 10.0 * r.normal() } else { r.normal() },
                    9 => r.log_range(0.1, 5.0),
                    14..=18 if r.chance(0.5) => r.below(40) as f64,
                    20 | 21 => 1.5 * r.normal(),
                    24 => if r.chance(0.05) { r.broken() } else { -r.log_range(0.1, 20.0) },
                    25 => if r.chance(0.05) { r.broken() } else { r.sign().max(-r.unit()) * r.log_range(0.1, 20.0) },
                    26 => if r.chance(0.06) { *r.pick(&[0.0, -1e-6, f64::NAN]) } else { r.log_range(1e-10, 1e-2) },
                    27 => *r.pick(&[0.0, 5.0, 30.0, 200.0, 2000.0]),
                    36 => if r.chance(0.06) { *r.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY]) } else { span },
                    _ if whole => r.int(0, 6) as f64 - 3.0,
                    _ => r.normal(),
                });
            }
            t.evs.push(ev(name, &a));
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        macro_rules! go {
            ($($n:literal),*) => {
                match (t.cu(1), t.cu(0), t.cu(2)) {
                    (_, 0, 1) => several::<f64>(t, cx),
                    (_, _, 1) => several::<f32>(t, cx),
                    $(($n, 0, _) => session::<$n, f64>(t, cx),
                    ($n, _, _) => session::<$n, f32>(t, cx),)*
                    _ => Ok(()),
                }
            };
        }
        go!(1, 2, 3, 4, 5, 6, 7, 8)
    }
}
