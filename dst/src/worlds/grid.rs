//! Occupancy maps under long histories of drawing, clearing, crashes, broken inputs and beams.

use crate::core::*;
use crate::ensure;
use multicalc::error::MappingError;
use multicalc::mapping::{DynamicOccupancyGrid, MutableOccupancyMap, OccupancyMap};

/// A map the caller stores: only the required methods, so the provided ones are the library's.
#[derive(Clone)]
struct Own {
    cols: usize,
    rows: usize,
    res: f64,
    origin: [f64; 2],
    cells: Vec<Vec<bool>>,
}

impl OccupancyMap for Own {
    fn columns(&self) -> usize {
        self.cols
    }
    fn rows(&self) -> usize {
        self.rows
    }
    fn resolution(&self) -> f64 {
        self.res
    }
    fn origin(&self) -> [f64; 2] {
        self.origin
    }
    fn is_occupied(&self, row: usize, column: usize) -> bool {
        self.cells.get(row).and_then(|r| r.get(column)).copied().unwrap_or(false)
    }
}

impl MutableOccupancyMap for Own {
    fn set_cell(&mut self, row: usize, column: usize, occupied: bool) {
        if let Some(c) = self.cells.get_mut(row).and_then(|r| r.get_mut(column)) {
            *c = occupied;
        }
    }
    fn clear(&mut self) {
        for r in &mut self.cells {
            r.fill(false);
        }
    }
}

#[derive(Clone)]
struct Model {
    cols: usize,
    rows: usize,
    res: f64,
    origin: [f64; 2],
    cells: Vec<bool>,
    /// Coordinates are exact multiples, so edges are decided exactly.
    exact: bool,
}

impl Model {
    fn at(&self, row: usize, col: usize) -> bool {
        row < self.rows && col < self.cols && self.cells[row * self.cols + col]
    }
    /// Every cell a point may belong to; `None` in the list when it may lie outside.
    fn cells_of(&self, p: [f64; 2]) -> Vec<Option<(usize, usize)>> {
        if !p[0].is_finite() || !p[1].is_finite() {
            return vec![None];
        }
        let axis = |v: f64, o: f64, n: usize| -> Vec<Option<usize>> {
            let q = (v - o) / self.res;
            let slack = 1e-9 * (1.0 + q.abs() + (v.abs() + o.abs()) / self.res);
            let mut opts: Vec<f64> = vec![q.floor()];
            if !self.exact {
                opts = vec![(q - slack).floor(), (q + slack).floor()];
                opts.dedup();
            }
            opts.into_iter()
                .map(|f| if f >= 0.0 && f < n as f64 { Some(f as usize) } else { None })
                .collect()
        };
        let cs = axis(p[0], self.origin[0], self.cols);
        let rs = axis(p[1], self.origin[1], self.rows);
        let mut out = Vec::new();
        for r in &rs {
            for c in &cs {
                out.push(match (r, c) {
                    (Some(r), Some(c)) => Some((*r, *c)),
                    _ => None,
                });
            }
        }
        out
    }
    fn corner(&self, row: usize, col: usize) -> [f64; 4] {
        let x = self.origin[0] + col as f64 * self.res;
        let y = self.origin[1] + row as f64 * self.res;
        [x, y, x + self.res, y + self.res]
    }
    /// How far along the ray the box grown by `g` is met.
    fn hit(b: [f64; 4], g: f64, p: [f64; 2], d: [f64; 2]) -> f64 {
        let (mut near, mut far) = (0.0f64, f64::INFINITY);
        for k in 0..2 {
            let (lo, hi) = (b[k] - g, b[k + 2] + g);
            if d[k].abs() < 1e-300 {
                if p[k] < lo || p[k] > hi {
                    return f64::INFINITY;
                }
            } else {
                let (a, c) = ((lo - p[k]) / d[k], (hi - p[k]) / d[k]);
                near = near.max(a.min(c));
                far = far.min(a.max(c));
            }
        }
        if near <= far { near } else { f64::INFINITY }
    }
    fn bounds(&self, p: [f64; 2], a: f64, eps: f64) -> (f64, f64) {
        let d = [a.cos(), a.sin()];
        let (mut low, mut high) = (f64::INFINITY, f64::INFINITY);
        for row in 0..self.rows {
            for col in 0..self.cols {
                if self.at(row, col) {
                    let b = self.corner(row, col);
                    low = low.min(Self::hit(b, eps, p, d));
                    high = high.min(Self::hit(b, -eps, p, d));
                }
            }
        }
        (low, high)
    }
    fn segment_touches(&self, row: usize, col: usize, a: [f64; 2], b: [f64; 2], eps: f64) -> bool {
        let d = [b[0] - a[0], b[1] - a[1]];
        Self::hit(self.corner(row, col), eps, a, d) <= 1.0
    }
}

/// Drawn cells along a curve must be gap free: `at(s)` is the point `s` along it.
fn gap_free(m: &Model, marked: &dyn Fn(usize, usize) -> bool, at: &dyn Fn(f64) -> [f64; 2], length: f64) -> R {
    let ds = m.res / 60.0;
    let mut last: Option<(usize, usize)> = None;
    let mut stay: Option<((usize, usize), f64)> = None;
    let mut s = 0.0;
    for _ in 0..200_000 {
        let p = at(s);
        if s >= length {
            break;
        }
        // A curve cannot reach the map sooner than the distance to it.
        let off = (0..2)
            .map(|k| {
                let n = [m.cols, m.rows][k] as f64;
                (m.origin[k] - p[k]).max(p[k] - m.origin[k] - n * m.res).max(0.0)
            })
            .fold(0.0, f64::hypot);
        let step = ds.max(off - m.res).max(length * 1e-15);
        s = (s + step).min(length);
        let opts = m.cells_of(p);
        if opts.len() > 1 {
            continue;
        }
        let Some((r, c)) = opts[0] else {
            last = None;
            stay = None;
            continue;
        };
        stay = match stay {
            Some((cell, s)) if cell == (r, c) => Some((cell, s + step)),
            _ => Some(((r, c), 0.0)),
        };
        if marked(r, c) {
            if let Some((lr, lc)) = last {
                ensure!(
                    lr.abs_diff(r) <= 1 && lc.abs_diff(c) <= 1,
                    "map: a drawn wall has a gap | between cell {lr},{lc} and {r},{c}"
                );
            }
            last = Some((r, c));
        } else if let Some((cell, s)) = stay {
            ensure!(
                s <= 0.75 * m.res,
                "map: a drawn wall skips a cell it runs through | cell {cell:?} for {s} of {}",
                m.res
            );
        }
    }
    Ok(())
}

pub struct Grid;

impl World for Grid {
    fn name(&self) -> &'static str {
        "occupancy-grid"
    }
    /// cfg: columns, rows, resolution, origin x, origin y, exact
    fn generate(&self, r: &mut Rng) -> Trace {
        let exact = r.chance(0.5);
        let (cols, rows) = (r.int(1, 16), r.int(1, 16));
        let res = if exact { *r.pick(&[0.125, 0.25, 0.5, 1.0, 2.0]) } else { r.log_range(0.02, 3.0) };
        let origin: [f64; 2] = if exact {
            [res * (r.int(0, 40) as f64 - 20.0) / 2.0, res * (r.int(0, 40) as f64 - 20.0) / 2.0]
        } else {
            [r.range(-10.0, 10.0), r.range(-10.0, 10.0)]
        };
        let mut t = Trace { cfg: vec![cols as f64, rows as f64, res, origin[0], origin[1], f64::from(u8::from(exact))], evs: vec![] };
        let point = |r: &mut Rng| -> [f64; 2] {
            let spread = if r.chance(0.8) { 0.1 } else { 1.0 };
            let mut p = [0.0; 2];
            for k in 0..2 {
                let n = [cols, rows][k] as f64;
                let q = if exact || r.chance(0.2) {
                    (r.range(-spread * n - 1.0, n * (1.0 + spread) + 1.0) * 4.0).round() / 4.0
                } else {
                    r.range(-spread * n, n * (1.0 + spread))
                };
                p[k] = origin[k] + q * res;
            }
            p
        };
        let calm = r.chance(0.1);
        let p: Vec<f64> = (0..6).map(|_| if calm || r.chance(0.4) { 0.0 } else { r.range(0.02, 0.2) }).collect();
        for _ in 0..r.int(4, 40) {
            match r.below(12) {
                0 => {
                    t.evs.push(ev("set", &[r.below(rows) as f64, r.below(cols) as f64, f64::from(u8::from(r.chance(0.7)))]));
                }
                1 | 2 => t.evs.push(ev("point", &point(r))),
                3 => {
                    let mut a = vec![f64::from(u8::from(r.chance(0.5)))];
                    for _ in 0..r.below(5) {
                        let mut p = point(r);
                        if r.chance(0.1) {
                            let (far, way) = (r.log_range(30.0, 1e7), r.range(0.0, 7.0));
                            p = [p[0] + res * (far * way.cos()).round(), p[1] + res * (far * way.sin()).round()];
                        }
                        a.extend(p);
                    }
                    t.evs.push(ev("line", &a));
                }
                4 => {
                    let mut c = point(r);
                    let mut rad = if r.chance(0.1) { 0.0 } else { r.log_range(0.05, 1.0) * res * cols.max(rows) as f64 };
                    if r.chance(0.3) {
                        // A rim so wide that the map holds only a short arc of it.
                        let (far, way) = (r.log_range(1.0, 1e6), r.range(0.0, 7.0));
                        rad *= far;
                        c = [c[0] - rad * way.cos(), c[1] - rad * way.sin()];
                    }
                    t.evs.push(ev("circle", &[c[0], c[1], rad]));
                }
                5 => {
                    if r.chance(0.15) {
                        t.evs.push(ev("clear", &[]));
                    } else {
                        t.evs.push(ev("cell", &point(r)));
                    }
                }
                _ => {
                    let s = point(r);
                    let a = if r.chance(0.3) {
                        f64::from(r.int(0, 16) as u32) * std::f64::consts::FRAC_PI_4 - std::f64::consts::TAU
                    } else {
                        r.range(-7.0, 7.0)
                    };
                    let far = *r.pick(&[0.5, 2.0, 10.0, 100.0, f64::INFINITY]) * res;
                    t.evs.push(ev("ray", &[s[0], s[1], a, far]));
                }
            }
            if r.chance(p[0]) {
                let big = *r.pick(&[0.0, 1.0, 2.0, 1e6, 1e18, 1.8446744073709552e19]);
                let (row, col) = (
                    rows as f64 + if r.chance(0.5) { big } else { -1.0 },
                    cols as f64 + if r.chance(0.5) { big } else { -1.0 },
                );
                if row >= rows as f64 || col >= cols as f64 {
                    t.evs.push(ev("off", &[row, col]));
                }
            }
            if r.chance(p[1]) {
                let mut s = point(r);
                s[r.below(2)] = r.broken();
                t.evs.push(ev("badpoint", &s));
            }
            if r.chance(p[2]) {
                let mut a = vec![f64::from(u8::from(r.chance(0.5)))];
                for _ in 0..r.int(1, 4) {
                    a.extend(point(r));
                }
                let k = r.int(1, a.len() - 1);
                a[k] = r.broken();
                t.evs.push(ev("line", &a));
            }
            if r.chance(p[3]) {
                let s = point(r);
                let mut a = [s[0], s[1], r.range(-3.0, 3.0), 10.0 * res];
                a[r.below(3)] = r.broken();
                t.evs.push(ev("badray", &a));
            }
            if r.chance(0.05) {
                t.evs.push(ev("save", &[]));
            }
            if r.chance(p[4]) {
                t.evs.push(ev("crash", &[]));
            }
            if r.chance(p[5]) {
                t.evs.push(ev("build", &[r.below(7) as f64]));
            }
        }
        t
    }
    fn run(&self, t: &Trace, cx: &mut Cx) -> R {
        let (cols, rows, res, origin) = (t.cu(0).max(1), t.cu(1).max(1), t.c(2), [t.c(3), t.c(4)]);
        let mut g: DynamicOccupancyGrid = DynamicOccupancyGrid::try_new(cols, rows, res, origin)
            .map_err(|e| format!("map: a sound size was refused | {e:?}"))?;
        let mut own = Own { cols, rows, res, origin, cells: vec![vec![false; cols]; rows] };
        let mut m = Model { cols, rows, res, origin, cells: vec![false; cols * rows], exact: t.c(5) == 1.0 };
        let extent = res * (cols + rows) as f64 + origin[0].abs() + origin[1].abs();
        let mut saved: Option<(DynamicOccupancyGrid, Own, Model)> = None;
        for e in &t.evs {
            cx.step(e.k);
            let before = m.cells.clone();
            let mut drew = false;
            match e.k {
                "set" => {
                    g.set_cell(e.u(0), e.u(1), e.n(2) == 1.0);
                    own.set_cell(e.u(0), e.u(1), e.n(2) == 1.0);
                    m.cells[e.u(0) * cols + e.u(1)] = e.n(2) == 1.0;
                }
                "off" => {
                    cx.fault("cell-off-the-map");
                    let (row, col) = (e.n(0) as usize, e.n(1) as usize);
                    g.set_cell(row, col, true);
                    ensure!(!g.is_occupied(row, col), "map: a cell off the map reads as blocked | {row} {col}");
                }
                "point" | "badpoint" => {
                    let p = [e.n(0), e.n(1)];
                    g.occupy_point(p);
                    own.occupy_point(p);
                    if e.k == "badpoint" {
                        cx.fault("point-not-finite");
                    }
                    let opts = m.cells_of(p);
                    let hit = opts.iter().any(|o| match o {
                        None => (0..cols * rows).all(|i| g.is_occupied(i / cols, i % cols) == before[i]),
                        Some((r, c)) => (0..cols * rows)
                            .all(|i| g.is_occupied(i / cols, i % cols) == (before[i] || i == r * cols + c)),
                    });
                    ensure!(hit, "map: blocking a point blocked something other than its own cell | {p:?} allowed {opts:?}");
                    drew = true;
                }
                "line" => {
                    let pts: Vec<[f64; 2]> = e.a[1..].chunks(2).filter(|c| c.len() == 2).map(|c| [c[0], c[1]]).collect();
                    let closed = e.n(0) == 1.0;
                    g.occupy_polyline(&pts, closed);
                    own.occupy_polyline(&pts, closed);
                    let n = pts.len();
                    let mut edges: Vec<([f64; 2], [f64; 2])> = pts.windows(2).map(|w| (w[0], w[1])).collect();
                    if closed && n > 0 {
                        edges.push((pts[n - 1], pts[0]));
                    }
                    let finite = |p: &[f64; 2]| p[0].is_finite() && p[1].is_finite();
                    if edges.iter().any(|(a, b)| !finite(a) || !finite(b)) {
                        cx.fault("edge-not-finite");
                    }
                    edges.retain(|(a, b)| finite(a) && finite(b));
                    let eps = 1e-9 * extent + 4e-16 * pts.iter().flatten().filter(|v| v.is_finite()).fold(0.0, |a: f64, v| a.max(v.abs()));
                    for i in 0..cols * rows {
                        let (r, c) = (i / cols, i % cols);
                        ensure!(!before[i] || g.is_occupied(r, c), "map: drawing freed a blocked cell | {r} {c}");
                        if !before[i] && g.is_occupied(r, c) {
                            ensure!(
                                edges.iter().any(|(a, b)| m.segment_touches(r, c, *a, *b, eps)),
                                "map: drawing an outline blocked a cell no edge touches | cell {r} {c}"
                            );
                        }
                    }
                    let marked = |r: usize, c: usize| g.is_occupied(r, c);
                    for (a, b) in &edges {
                        for p in [a, b] {
                            let opts = m.cells_of(*p);
                            ensure!(
                                opts.iter().any(|o| o.is_none_or(|(r, c)| marked(r, c))),
                                "map: the end of an edge is not drawn | {p:?}"
                            );
                        }
                        let len = (b[0] - a[0]).hypot(b[1] - a[1]);
                        gap_free(&m, &marked, &|s| [a[0] + s / len * (b[0] - a[0]), a[1] + s / len * (b[1] - a[1])], len)?;
                    }
                    cx.reach(if closed { "closed-outline" } else { "open-outline" });
                    drew = true;
                }
                "circle" => {
                    let (cx0, cy0, rad) = (e.n(0), e.n(1), e.n(2));
                    g.occupy_circle([cx0, cy0], rad);
                    own.occupy_circle([cx0, cy0], rad);
                    let eps = 1e-9 * extent + 1e-15 * (cx0.abs() + cy0.abs() + rad);
                    for i in 0..cols * rows {
                        let (r, c) = (i / cols, i % cols);
                        ensure!(!before[i] || g.is_occupied(r, c), "map: drawing freed a blocked cell | {r} {c}");
                        if !before[i] && g.is_occupied(r, c) {
                            let b = m.corner(r, c);
                            let dx = (b[0] - cx0).max(0.0).max(cx0 - b[2]);
                            let dy = (b[1] - cy0).max(0.0).max(cy0 - b[3]);
                            let fx = (b[0] - cx0).abs().max((b[2] - cx0).abs());
                            let fy = (b[1] - cy0).abs().max((b[3] - cy0).abs());
                            ensure!(
                                dx.hypot(dy) <= rad + eps && fx.hypot(fy) >= rad - eps,
                                "map: drawing a circle blocked a cell its rim does not cross | cell {r} {c}"
                            );
                        }
                    }
                    let marked = |r: usize, c: usize| g.is_occupied(r, c);
                    let turn = std::f64::consts::TAU;
                    gap_free(&m, &marked, &|s| [cx0 + rad * (s / rad).cos(), cy0 + rad * (s / rad).sin()], rad * turn)?;
                    if rad > 1000.0 * res {
                        cx.reach("rim wider than a thousand cells");
                    }
                    if rad == 0.0 {
                        let opts = m.cells_of([cx0, cy0]);
                        ensure!(
                            opts.iter().any(|o| o.is_none_or(|(r, c)| marked(r, c))),
                            "map: a circle of no size did not block its centre's cell | "
                        );
                    }
                    drew = true;
                    cx.reach("circle");
                }
                "clear" => {
                    g.clear();
                    own.clear();
                    m.cells.fill(false);
                    cx.reach("cleared");
                }
                "cell" => {
                    let p = [e.n(0), e.n(1)];
                    let got = g.cell_of(p);
                    let opts = m.cells_of(p);
                    ensure!(opts.contains(&got), "map: a point was placed in the wrong cell | {p:?} got {got:?} want {opts:?}");
                    ensure!(own.cell_of(p) == got, "map: two maps of one shape place a point differently | ");
                }
                "ray" => {
                    let (p, a, far) = ([e.n(0), e.n(1)], e.n(2), e.n(3));
                    let got = g.cast_ray(p, a, far);
                    ensure!(own.cast_ray(p, a, far) == got, "map: two maps with the same cells answer a beam differently | ");
                    let size = extent + p[0].abs() + p[1].abs();
                    let eps = 1e-10 * size;
                    let (low, high) = m.bounds(p, a, eps);
                    let tol = 1e-9 * size;
                    match got {
                        Some(d) => {
                            ensure!(
                                d >= low - tol && d <= high + tol && d <= far + tol,
                                "map: a beam stops where there is no blocked cell, or past the first | from {p:?} bearing {a} got {d} want {low}..{high} limit {far}"
                            );
                            cx.reach(if d == 0.0 { "beam-starts-blocked" } else { "beam-hit" });
                        }
                        None => {
                            ensure!(
                                high > far - tol || high.is_infinite(),
                                "map: a beam misses a blocked cell in its way | from {p:?} bearing {a} wall at {high} limit {far}"
                            );
                            cx.reach("beam-clear");
                        }
                    }
                    cx.log(got.unwrap_or(-1.0));
                }
                "badray" => {
                    cx.fault("beam-not-finite");
                    ensure!(
                        g.cast_ray([e.n(0), e.n(1)], e.n(2), e.n(3)).is_none(),
                        "map: a beam from nowhere, or pointing nowhere, met a wall | {:?}",
                        e.a
                    );
                }
                "save" => saved = Some((g.clone(), own.clone(), m.clone())),
                "crash" => {
                    if let Some((a, b, c)) = saved.clone() {
                        cx.fault("crash-and-restart-from-checkpoint");
                        g = a;
                        own = b;
                        m = c;
                    }
                }
                _ => {
                    cx.fault("impossible-map-requested");
                    let big = usize::MAX;
                    let (args, want) = match e.u(0) {
                        0 => ((0, rows, res, origin), MappingError::EmptyGrid),
                        1 => ((cols, 0, res, origin), MappingError::EmptyGrid),
                        2 => ((big, 2, res, origin), MappingError::GridTooLarge),
                        3 => ((big / 2 + 2, 1, res, origin), MappingError::GridTooLarge),
                        4 => ((cols, rows, f64::NAN, origin), MappingError::NonFinite),
                        5 => ((cols, rows, res, [0.0, f64::INFINITY]), MappingError::NonFinite),
                        _ => ((cols, rows, -res, origin), MappingError::NonPositiveResolution),
                    };
                    let got = DynamicOccupancyGrid::<f64>::try_new(args.0, args.1, args.2, args.3);
                    ensure!(
                        matches!(&got, Err(x) if *x == want),
                        "map: an impossible map was not refused for what is wrong with it | case {} got {:?}",
                        e.u(0),
                        got.map(|_| ())
                    );
                }
            }
            if drew {
                for i in 0..cols * rows {
                    m.cells[i] = g.is_occupied(i / cols, i % cols);
                }
            }
            for i in 0..cols * rows {
                let (r, c) = (i / cols, i % cols);
                ensure!(g.is_occupied(r, c) == m.cells[i], "map: a cell does not hold what was last written to it | {r} {c} after {}", e.k);
                ensure!(own.is_occupied(r, c) == m.cells[i], "map: two maps given the same calls differ | {r} {c} after {}", e.k);
            }
            ensure!(
                g.columns() == cols && g.rows() == rows && same(g.resolution(), res) && g.origin() == origin,
                "map: its shape changed | after {}",
                e.k
            );
            let full = m.cells.iter().filter(|c| **c).count();
            cx.logu(full as u64);
            cx.state(&[(cols / 4) as i64, (rows / 4) as i64, (8 * full / (cols * rows)) as i64]);
        }
        Ok(())
    }
}
