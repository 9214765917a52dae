//! The reference geometry: written independently of the code under test, and boring.

use kurbo::{CubicBez, ParamCurve, PathEl, Point, QuadBez};

#[derive(Clone, Copy, Debug)]
pub enum Seg {
    Line(Point, Point),
    Cubic(Point, Point, Point, Point),
}

impl Seg {
    pub fn start(&self) -> Point {
        match *self {
            Seg::Line(p, _) => p,
            Seg::Cubic(p, ..) => p,
        }
    }
    pub fn end(&self) -> Point {
        match *self {
            Seg::Line(_, p) => p,
            Seg::Cubic(_, _, _, p) => p,
        }
    }
    pub fn rev(&self) -> Seg {
        match *self {
            Seg::Line(p, q) => Seg::Line(q, p),
            Seg::Cubic(a, b, c, d) => Seg::Cubic(d, c, b, a),
        }
    }
    pub fn split(&self) -> (Seg, Seg) {
        match *self {
            Seg::Line(p, q) => {
                let m = p.midpoint(q);
                (Seg::Line(p, m), Seg::Line(m, q))
            }
            Seg::Cubic(a, b, c, d) => {
                let ab = a.midpoint(b);
                let bc = b.midpoint(c);
                let cd = c.midpoint(d);
                let abc = ab.midpoint(bc);
                let bcd = bc.midpoint(cd);
                let m = abc.midpoint(bcd);
                (Seg::Cubic(a, ab, abc, m), Seg::Cubic(m, bcd, cd, d))
            }
        }
    }
    pub fn eval(&self, t: f64) -> Point {
        match *self {
            Seg::Line(p, q) => p.lerp(q, t),
            Seg::Cubic(a, b, c, d) => CubicBez::new(a, b, c, d).eval(t),
        }
    }
    /// Bounding box of the control points: (x0, y0, x1, y1).
    pub fn bbox(&self) -> (f64, f64, f64, f64) {
        match *self {
            Seg::Line(p, q) => (p.x.min(q.x), p.y.min(q.y), p.x.max(q.x), p.y.max(q.y)),
            Seg::Cubic(a, b, c, d) => (
                a.x.min(b.x).min(c.x).min(d.x),
                a.y.min(b.y).min(c.y).min(d.y),
                a.x.max(b.x).max(c.x).max(d.x),
                a.y.max(b.y).max(c.y).max(d.y),
            ),
        }
    }
}

/// Splits a path into closed subpaths, each one a list of segments. Zero-length lines are kept out.
pub fn subpaths(els: &[PathEl]) -> Vec<Vec<Seg>> {
    let mut ret = vec![];
    let mut cur: Vec<Seg> = vec![];
    let mut start = Point::ORIGIN;
    let mut last = Point::ORIGIN;
    for e in els {
        match *e {
            PathEl::MoveTo(p) => {
                if !cur.is_empty() {
                    ret.push(std::mem::take(&mut cur));
                }
                start = p;
                last = p;
            }
            PathEl::LineTo(p) => {
                if p != last {
                    cur.push(Seg::Line(last, p));
                }
                last = p;
            }
            PathEl::QuadTo(p, q) => {
                let c = QuadBez::new(last, p, q).raise();
                cur.push(Seg::Cubic(c.p0, c.p1, c.p2, c.p3));
                last = q;
            }
            PathEl::CurveTo(p, q, r) => {
                cur.push(Seg::Cubic(last, p, q, r));
                last = r;
            }
            PathEl::ClosePath => {
                if last != start {
                    cur.push(Seg::Line(last, start));
                }
                last = start;
                if !cur.is_empty() {
                    ret.push(std::mem::take(&mut cur));
                }
            }
        }
    }
    if !cur.is_empty() {
        ret.push(cur);
    }
    ret
}

pub fn segs(els: &[PathEl]) -> Vec<Seg> {
    subpaths(els).into_iter().flatten().collect()
}

#[inline]
fn wind_line(a: Point, b: Point, p: Point) -> i32 {
    // Ray towards +x. Half-open rule in y.
    let up = a.y <= p.y;
    let dn = b.y <= p.y;
    if up == dn {
        return 0;
    }
    // sign of (b - a) x (p - a)
    let cr = (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x);
    if up {
        // going in direction +y; p strictly left of the crossing if cr > 0 ... (y down or up: a sign
        // convention only)
        if cr > 0.0 {
            1
        } else {
            0
        }
    } else if cr < 0.0 {
        -1
    } else {
        0
    }
}

/// Contribution of a segment to the winding number of `p`. `p` must not be on the segment.
pub fn wind_seg(s: &Seg, p: Point) -> i32 {
    match *s {
        Seg::Line(a, b) => wind_line(a, b, p),
        Seg::Cubic(a, b, c, d) => wind_cubic(a, b, c, d, p, 0),
    }
}

fn wind_cubic(a: Point, b: Point, c: Point, d: Point, p: Point, depth: u32) -> i32 {
    let s = Seg::Cubic(a, b, c, d);
    let (x0, y0, x1, y1) = s.bbox();
    // Entirely above or below, or entirely to the left: no crossing of the ray.
    if p.y < y0 || p.y > y1 || p.x > x1 {
        return 0;
    }
    // Entirely to the right, or flat enough: the chord decides.
    if p.x < x0 || depth > 60 {
        return wind_line(a, d, p);
    }
    let (l, r) = s.split();
    match (l, r) {
        (Seg::Cubic(a, b, c, d), Seg::Cubic(e, f, g, h)) => {
            wind_cubic(a, b, c, d, p, depth + 1) + wind_cubic(e, f, g, h, p, depth + 1)
        }
        _ => unreachable!(),
    }
}

pub fn winding(segs: &[Seg], p: Point) -> i32 {
    segs.iter().map(|s| wind_seg(s, p)).sum()
}

pub fn dist2_line(a: Point, b: Point, p: Point) -> f64 {
    let d = b - a;
    let l2 = d.hypot2();
    if l2 == 0.0 {
        return (p - a).hypot2();
    }
    let t = ((p - a).dot(d) / l2).clamp(0.0, 1.0);
    (p - (a + d * t)).hypot2()
}

/// Is `p` within `r` of the segment? Decided by branch and bound, to a relative precision of 1e-9.
pub fn within(s: &Seg, p: Point, r: f64) -> bool {
    match *s {
        Seg::Line(a, b) => dist2_line(a, b, p) <= r * r,
        Seg::Cubic(..) => within_cubic(s, p, r, 0),
    }
}

fn bbox_dist2(b: (f64, f64, f64, f64), p: Point) -> f64 {
    let dx = (b.0 - p.x).max(p.x - b.2).max(0.0);
    let dy = (b.1 - p.y).max(p.y - b.3).max(0.0);
    dx * dx + dy * dy
}

fn within_cubic(s: &Seg, p: Point, r: f64, depth: u32) -> bool {
    if bbox_dist2(s.bbox(), p) > r * r {
        return false;
    }
    if (s.start() - p).hypot2() <= r * r || (s.end() - p).hypot2() <= r * r {
        return true;
    }
    if let Seg::Cubic(a, b, c, d) = *s {
        let flat = dist2_line(a, d, b).max(dist2_line(a, d, c)).sqrt();
        if flat <= r * 1e-3 || depth > 50 {
            return dist2_line(a, d, p).sqrt() <= r + flat;
        }
    }
    let (l, rr) = s.split();
    within_cubic(&l, p, r, depth + 1) || within_cubic(&rr, p, r, depth + 1)
}

/// Distance from `p` to the nearest of `segs`, an estimate good to about 1e-3 relative precision.
pub fn near_any(segs: &[Seg], p: Point, r: f64) -> bool {
    segs.iter().any(|s| within(s, p, r))
}

/// Is the whole of `s` within `r` of the union of `segs`?
///
/// A line with both ends within `r` of the same straight segment lies within `r` of it, because the
/// tube around a line segment is convex. Otherwise we split, down to pieces shorter than `r / 64`.
///
/// Where curves are involved there's no convexity to use, and we look at 24 points of `s` instead.
pub fn tube(s: &Seg, segs: &[Seg], r: f64) -> Result<(), Point> {
    let straight = matches!(s, Seg::Line(..)) && segs.iter().all(|s| matches!(s, Seg::Line(..)));
    if straight {
        return tube_rec(s, segs, r, 0);
    }
    let n = 24;
    for i in 0..=n {
        let p = s.eval(i as f64 / n as f64);
        if !near_any(segs, p, r) {
            return Err(p);
        }
    }
    Ok(())
}

fn tube_rec(s: &Seg, segs: &[Seg], r: f64, depth: u32) -> Result<(), Point> {
    let a = s.start();
    let b = s.end();
    let ctrl: &[Point] = &match *s {
        Seg::Line(a, b) => [a, a, b, b],
        Seg::Cubic(a, b, c, d) => [a, b, c, d],
    };
    for t in segs {
        if let Seg::Line(p, q) = *t {
            if ctrl.iter().all(|x| dist2_line(p, q, *x) <= r * r) {
                return Ok(());
            }
        }
    }
    if !near_any(segs, a, r) {
        return Err(a);
    }
    if !near_any(segs, b, r) {
        return Err(b);
    }
    let (x0, y0, x1, y1) = s.bbox();
    if (x1 - x0).max(y1 - y0) <= r / 64.0 || depth > 40 {
        return Ok(());
    }
    let (l, rr) = s.split();
    tube_rec(&l, segs, r, depth + 1)?;
    tube_rec(&rr, segs, r, depth + 1)
}

/// At most this many slabs of an arrangement are sampled.
pub const MAX_SLABS: usize = 48;

/// One interior sample per trapezoid of the vertical decomposition (with horizontal slabs) of the
/// arrangement of straight segments, for slabs and gaps wide enough to be `margin` away from every
/// segment.
pub fn cell_samples(edges: &[(Point, Point)], margin: f64, out: &mut Vec<Point>) {
    let mut ys: Vec<f64> = vec![];
    for (a, b) in edges {
        ys.push(a.y);
        ys.push(b.y);
    }
    for i in 0..edges.len() {
        for j in 0..i {
            let (a, b) = edges[i];
            let (c, d) = edges[j];
            let r = b - a;
            let s = d - c;
            let den = r.x * s.y - r.y * s.x;
            if den == 0.0 {
                continue;
            }
            let w = c - a;
            let t = (w.x * s.y - w.y * s.x) / den;
            let u = (w.x * r.y - w.y * r.x) / den;
            if (-1e-9..=1.0 + 1e-9).contains(&t) && (-1e-9..=1.0 + 1e-9).contains(&u) {
                ys.push(a.y + t * r.y);
            }
        }
    }
    ys.sort_by(f64::total_cmp);
    let mut xs: Vec<f64> = vec![];
    // Big inputs: at most MAX_SLABS of the slabs, evenly spread.
    let wide = ys.windows(2).filter(|w| w[1] - w[0] > 2.0 * margin).count();
    let step = wide.div_ceil(MAX_SLABS).max(1);
    let mut k = 0;
    for w in ys.windows(2) {
        if w[1] - w[0] <= 2.0 * margin {
            continue;
        }
        k += 1;
        if (k - 1) % step != 0 {
            continue;
        }
        let y = 0.5 * (w[0] + w[1]);
        xs.clear();
        for (a, b) in edges {
            if (a.y < y) != (b.y < y) {
                xs.push(a.x + (y - a.y) * ((b.x - a.x) / (b.y - a.y)));
            }
        }
        if xs.is_empty() {
            continue;
        }
        xs.sort_by(f64::total_cmp);
        let m = margin.max(0.5);
        out.push(Point::new(xs[0] - m, y));
        out.push(Point::new(xs[xs.len() - 1] + m, y));
        for v in xs.windows(2) {
            if v[1] - v[0] > 2.0 * margin {
                out.push(Point::new(0.5 * (v[0] + v[1]), y));
            }
        }
    }
    out.retain(|p| {
        edges
            .iter()
            .all(|(a, b)| {
                // Cheap rejection first.
                p.y < a.y.min(b.y) - margin
                    || p.y > a.y.max(b.y) + margin
                    || dist2_line(*a, *b, *p) > margin * margin
            })
    });
}

/// Calls `f(i, j)` for every pair of segments whose bounding boxes meet.
pub fn box_pairs(segs: &[Seg], mut f: impl FnMut(usize, usize) -> Result<(), String>) -> Result<(), String> {
    let mut ord: Vec<(f64, usize)> = segs.iter().enumerate().map(|(i, s)| (s.bbox().1, i)).collect();
    ord.sort_by(|a, b| a.0.total_cmp(&b.0));
    for (k, &(_, i)) in ord.iter().enumerate() {
        let bi = segs[i].bbox();
        for &(y0, j) in &ord[k + 1..] {
            if y0 > bi.3 {
                break;
            }
            let bj = segs[j].bbox();
            if bj.0 > bi.2 || bi.0 > bj.2 {
                continue;
            }
            f(i.max(j), i.min(j))?;
        }
    }
    Ok(())
}

/// Sign of orientation of (a, b, c), exact: computed in floating point with an error bound, and with
/// exact expansions when that is not conclusive.
pub fn orient(a: Point, b: Point, c: Point) -> i32 {
    let l = (b.x - a.x) * (c.y - a.y);
    let r = (b.y - a.y) * (c.x - a.x);
    let det = l - r;
    let bound = (l.abs() + r.abs()) * 4.0 * f64::EPSILON;
    if det > bound {
        return 1;
    }
    if det < -bound {
        return -1;
    }
    exact_orient(a, b, c)
}

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}

fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, f64::mul_add(a, b, -p))
}

/// Adds `b` to the (nonoverlapping) expansion `e`.
fn grow(e: &mut Vec<f64>, b: f64) {
    let mut q = b;
    for x in e.iter_mut() {
        let (s, err) = two_sum(q, *x);
        *x = err;
        q = s;
    }
    e.push(q);
}

fn exact_orient(a: Point, b: Point, c: Point) -> i32 {
    // ax*by - ax*cy - cx*by - ay*bx + ay*cx + cy*bx   (expanded, all products exact)
    let mut e: Vec<f64> = Vec::with_capacity(16);
    for (x, y) in [
        (b.x, c.y),
        (-b.x, a.y),
        (-a.x, c.y),
        (-b.y, c.x),
        (b.y, a.x),
        (a.y, c.x),
    ] {
        let (p, r) = two_prod(x, y);
        grow(&mut e, r);
        grow(&mut e, p);
    }
    // The last non-zero component has the sign.
    for x in e.iter().rev() {
        if *x > 0.0 {
            return 1;
        }
        if *x < 0.0 {
            return -1;
        }
    }
    0
}

/// Do two closed straight segments properly cross (at a point interior to both)? Exact.
pub fn proper_cross(a: Point, b: Point, c: Point, d: Point) -> bool {
    let o1 = orient(a, b, c);
    let o2 = orient(a, b, d);
    let o3 = orient(c, d, a);
    let o4 = orient(c, d, b);
    o1 * o2 < 0 && o3 * o4 < 0
}

/// Do two closed straight segments share any point? Exact.
pub fn intersects(a: Point, b: Point, c: Point, d: Point) -> bool {
    let o1 = orient(a, b, c);
    let o2 = orient(a, b, d);
    let o3 = orient(c, d, a);
    let o4 = orient(c, d, b);
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    let on = |a: Point, b: Point, p: Point| {
        a.x.min(b.x) <= p.x && p.x <= a.x.max(b.x) && a.y.min(b.y) <= p.y && p.y <= a.y.max(b.y)
    };
    (o1 == 0 && on(a, b, c))
        || (o2 == 0 && on(a, b, d))
        || (o3 == 0 && on(c, d, a))
        || (o4 == 0 && on(c, d, b))
}

/// Twice the signed area of a closed polyline/curve path, by Green's theorem (exact up to rounding).
pub fn area2(segs: &[Seg]) -> f64 {
    use kurbo::ParamCurveArea;
    segs.iter()
        .map(|s| match *s {
            Seg::Line(p, q) => p.x * q.y - p.y * q.x,
            Seg::Cubic(a, b, c, d) => 2.0 * CubicBez::new(a, b, c, d).signed_area(),
        })
        .sum()
}

fn crossings(s: &Seg, y: f64, out: &mut Vec<f64>, depth: u32) {
    match *s {
        Seg::Line(a, b) => {
            if (a.y <= y) != (b.y <= y) {
                out.push(a.x + (y - a.y) * ((b.x - a.x) / (b.y - a.y)));
            }
        }
        Seg::Cubic(a, _, _, d) => {
            let (x0, y0, x1, y1) = s.bbox();
            if y < y0 || y > y1 {
                return;
            }
            if depth > 45 || (x1 - x0).max(y1 - y0) < 1e-10 {
                return crossings(&Seg::Line(a, d), y, out, depth);
            }
            let (l, r) = s.split();
            crossings(&l, y, out, depth + 1);
            crossings(&r, y, out, depth + 1);
        }
    }
}

/// Samples between consecutive crossings of the given scan lines.
pub fn scan_samples(segs: &[Seg], ys: &[f64], margin: f64, out: &mut Vec<Point>) {
    let mut xs = vec![];
    let from = out.len();
    for &y in ys {
        xs.clear();
        for s in segs {
            crossings(s, y, &mut xs, 0);
        }
        if xs.is_empty() {
            continue;
        }
        xs.sort_by(f64::total_cmp);
        let m = margin.max(0.5);
        out.push(Point::new(xs[0] - m, y));
        out.push(Point::new(xs[xs.len() - 1] + m, y));
        for v in xs.windows(2) {
            if v[1] - v[0] > 2.0 * margin {
                out.push(Point::new(0.5 * (v[0] + v[1]), y));
            }
        }
    }
    let mut i = from;
    while i < out.len() {
        if near_any(segs, out[i], margin) {
            out.swap_remove(i);
        } else {
            i += 1;
        }
    }
}

/// Generic scan lines for curved input: endpoints' ys, with `n` lines in each gap.
pub fn scan_ys(segs: &[Seg], n: usize) -> Vec<f64> {
    let mut ys: Vec<f64> = vec![];
    for s in segs {
        ys.push(s.start().y);
        ys.push(s.end().y);
        let b = s.bbox();
        ys.push(b.1);
        ys.push(b.3);
    }
    ys.sort_by(f64::total_cmp);
    ys.dedup();
    let mut out = vec![];
    for w in ys.windows(2) {
        // Not worth it, and nearly horizontal pieces would take for ever to subdivide.
        if w[1] - w[0] < 1e-6 {
            continue;
        }
        for k in 0..n {
            // Irregular fractions, so as not to hit symmetric crossings.
            let f = (k as f64 + 0.4871) / n as f64;
            out.push(w[0] + (w[1] - w[0]) * f);
        }
    }
    // Big inputs: at most MAX_SLABS gaps' worth of lines, evenly spread.
    let step = out.len().div_ceil(MAX_SLABS * n).max(1);
    out.into_iter().step_by(step).collect()
}

/// The heights of the local extrema (in y) of curved pieces, from a fine subdivision.
pub fn extrema_y(segs: &[Seg]) -> Vec<f64> {
    let mut out = vec![];
    for s in segs {
        if let Seg::Cubic(..) = s {
            let ys: Vec<f64> = (0..=64).map(|k| s.eval(k as f64 / 64.0).y).collect();
            for w in ys.windows(3) {
                if (w[1] - w[0]) * (w[2] - w[1]) <= 0.0 {
                    // The vertex of the parabola through the three.
                    let (d1, d2) = (0.5 * (w[2] - w[0]), w[2] - 2.0 * w[1] + w[0]);
                    out.push(if d2 == 0.0 { w[1] } else { w[1] - 0.5 * d1 * d1 / d2 });
                }
            }
        }
    }
    out
}
