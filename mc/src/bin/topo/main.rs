//! The topology: winding numbers, planar consistency, positions, contours of arbitrary sets.
#[path = "../ops/mon.rs"]
#[allow(dead_code)]
mod mon;

use std::collections::{BTreeMap, HashMap};

use kurbo::Point;
use linesweeper::topology::{Topology, WindingNumber};

use mc::case::{Case, Path};
use mc::engine::{cli, CheckFn, Family, Prop, Seen};
use mc::geo::{self, Seg};
use mc::shapes::{case, family, listed, multi};

/// Winding numbers of up to 4 shapes at once.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct W4(pub [i32; 4]);
impl std::ops::Add for W4 {
    type Output = W4;
    fn add(mut self, o: W4) -> W4 {
        self += o;
        self
    }
}
impl std::ops::AddAssign for W4 {
    fn add_assign(&mut self, o: W4) {
        for i in 0..4 {
            self.0[i] += o.0[i];
        }
    }
}
impl WindingNumber for W4 {
    type Tag = u8;
    fn single(tag: u8, positive: bool) -> W4 {
        let mut w = [0; 4];
        w[tag as usize] = if positive { 1 } else { -1 };
        W4(w)
    }
}

/// One output segment, as seen through the public interface.
#[derive(Clone, Debug)]
struct Out {
    a: Point,
    b: Point,
    cw: [i32; 4],
    ccw: [i32; 4],
    /// The positioned path, from `a` to `b`.
    path: Vec<Seg>,
    /// The input segment.
    orig: Seg,
}

fn outs<W: WindingNumber>(t: &Topology<W>, f: impl Fn(&W) -> [i32; 4]) -> Vec<Out> {
    let pos = t.compute_positions();
    t.segment_indices()
        .map(|i| {
            let h = i.first_half();
            let c = t.segments[t.orig_seg[i]].to_kurbo_cubic();
            Out {
                a: t.point(h).to_kurbo(),
                b: t.point(i.second_half()).to_kurbo(),
                cw: f(t.winding_clockwise(h)),
                ccw: f(t.winding_counter_clockwise(h)),
                path: geo::segs(pos[i].path.elements()),
                orig: Seg::Cubic(c.p0, c.p1, c.p2, c.p3),
            }
        })
        .collect()
}

struct Inp {
    paths: Vec<Path>,
    segs: Vec<Vec<Seg>>,
    all: Vec<Seg>,
    straight: bool,
    eps: f64,
}

fn inp(case: &Case) -> Inp {
    let (paths, eps) = match case {
        Case::Bin { a, b, eps } => (vec![a.clone(), b.clone()], *eps),
        Case::Multi { paths, eps } => (paths.clone(), Some(*eps)),
        _ => panic!("wrong kind of case"),
    };
    let segs: Vec<Vec<Seg>> = paths.iter().map(|p| geo::segs(&p.0)).collect();
    let all: Vec<Seg> = segs.iter().flatten().copied().collect();
    let straight = all.iter().all(|s| matches!(s, Seg::Line(..)));
    let eps = eps.unwrap_or_else(|| mon::auto_eps(&all));
    Inp { paths, segs, all, straight, eps }
}

fn top4(i: &Inp) -> Result<Topology<W4>, String> {
    let b: Vec<_> = i.paths.iter().map(|p| p.bez()).collect();
    Topology::from_paths(b.iter().enumerate().map(|(i, p)| (p, i as u8)), i.eps).map_err(|e| format!("unexpected error| {e:?}"))
}

/// The library counts windings the other way round from `geo`.
fn reference(i: &Inp, p: Point) -> [i32; 4] {
    let mut w = [0; 4];
    for (k, s) in i.segs.iter().enumerate() {
        w[k] = -geo::winding(s, p);
    }
    w
}

/// Where a y-monotone piece crosses a height.
fn cross_x(s: &Seg, y: f64) -> Option<(f64, bool)> {
    let (a, b) = (s.start(), s.end());
    if (a.y < y) == (b.y < y) {
        return None;
    }
    let down = a.y < b.y;
    if let Seg::Line(..) = s {
        return Some((a.x + (y - a.y) * ((b.x - a.x) / (b.y - a.y)), down));
    }
    let (mut lo, mut hi) = (0.0, 1.0);
    for _ in 0..60 {
        let m = 0.5 * (lo + hi);
        if (s.eval(m).y < y) == down {
            lo = m;
        } else {
            hi = m;
        }
    }
    Some((s.eval(0.5 * (lo + hi)).x, down))
}

fn cross_y(s: &Seg, x: f64) -> Option<(f64, bool)> {
    let (a, b) = (s.start(), s.end());
    if (a.x < x) == (b.x < x) {
        return None;
    }
    Some((a.y + (x - a.x) * ((b.y - a.y) / (b.x - a.x)), a.x < b.x))
}

/// What the boundary pieces nearest to a point say about it: `found` is a list of (distance along the
/// ray, what that piece says). Pieces at the same distance, up to rounding, may disagree.
fn nearest(found: &mut Vec<(f64, [i32; 4])>, tie: f64, want: [i32; 4]) -> bool {
    found.sort_by(|a, b| a.0.total_cmp(&b.0));
    match found.first() {
        None => want == [0; 4],
        Some(f) => found.iter().take_while(|g| g.0 <= f.0 + tie).any(|g| g.1 == want),
    }
}

fn windings_of(i: &Inp, os: &[Out], sel: impl Fn([i32; 4]) -> [i32; 4], samples: &[(Point, [i32; 4])], seen: &mut Seen) -> Result<(), String> {
    let scale = i.all.iter().map(|s| { let b = s.bbox(); b.0.abs().max(b.1.abs()).max(b.2.abs()).max(b.3.abs()) }).fold(0.0, f64::max);
    let tie = if i.straight { 1e-13 * scale } else { 4.0 * i.eps };
    let mut found = vec![];
    for (p, want) in samples {
        let want = sel(*want);
        seen.validated += 1;
        for dir in 0..if i.straight { 4 } else { 2 } {
            found.clear();
            for o in os {
                for s in &o.path {
                    // `right`: are we to the right of the piece's direction of travel (first to
                    // second end)? That's its clockwise side, as seen from its first end.
                    let (d, right) = if dir < 2 {
                        let Some((x, down)) = cross_x(s, p.y) else { continue };
                        if dir == 0 { (p.x - x, !down) } else { (x - p.x, down) }
                    } else {
                        let Some((y, east)) = cross_y(s, p.x) else { continue };
                        if dir == 2 { (p.y - y, east) } else { (y - p.y, !east) }
                    };
                    if d > 0.0 {
                        found.push((d, if right { o.cw } else { o.ccw }));
                    }
                }
            }
            if !nearest(&mut found, tie, want) {
                return Err(format!(
                    "the segment nearest to a point (direction {dir}) reports the wrong winding numbers| at {p:?}: want {want:?}, got {:?}",
                    found.first()
                ));
            }
        }
    }
    Ok(())
}

fn samples(i: &Inp) -> Vec<(Point, [i32; 4])> {
    let margin = mon::region_margin(i.straight) * i.eps;
    let mut pts = mon::samples_of(&i.all, i.straight, margin);
    if !i.straight {
        // The rays have to stay clear of the places where curves turn or meet.
        let mut ys: Vec<f64> = i.all.iter().flat_map(|s| [s.start().y, s.end().y, s.bbox().1, s.bbox().3]).collect();
        ys.extend(geo::extrema_y(&i.all));
        pts.retain(|p| ys.iter().all(|y| (y - p.y).abs() > 2.0 * margin));
    }
    pts.into_iter().map(|p| (p, reference(i, p))).collect()
}

/// C08.
fn windings(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let i = inp(case);
    let sm = samples(&i);
    let t = top4(&i)?;
    let os = outs(&t, |w| w.0);
    seen.transitions += 1;
    seen.states += os.len() as u64;
    seen.nontrivial = os.len() > 5;
    seen.outcome = os.iter().fold(0u64, |h, o| h.wrapping_mul(31).wrapping_add((o.cw[0] + 7 * o.ccw[1]) as u64));
    windings_of(&i, &os, |w| w, &sm, seen)?;
    if let Case::Bin { a, b, .. } = case {
        // The two-set and the one-set winding numbers say the same thing.
        let t2 = Topology::from_paths_binary(&a.bez(), &b.bez(), i.eps).map_err(|e| format!("unexpected error| {e:?}"))?;
        let os2 = outs(&t2, |w| [w.shape_a, w.shape_b, 0, 0]);
        if os.len() != os2.len() || os.iter().zip(&os2).any(|(x, y)| (x.a, x.b, x.cw, x.ccw) != (y.a, y.b, y.cw, y.ccw)) {
            return Err("two-set winding numbers disagree with n-ary ones|".into());
        }
        let mut both = a.clone();
        both.push(b);
        let t1 = Topology::from_path(&both.bez(), i.eps).map_err(|e| format!("unexpected error| {e:?}"))?;
        let os1 = outs(&t1, |w| [*w, 0, 0, 0]);
        seen.transitions += 2;
        windings_of(&i, &os1, |w| [w.iter().sum(), 0, 0, 0], &sm, seen).map_err(|e| format!("single set: {e}"))?;
    }
    Ok(())
}

fn key(p: Point) -> (u64, u64) {
    ((p.x + 0.0).to_bits(), (p.y + 0.0).to_bits())
}

/// C09.
fn planar(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let i = inp(case);
    let t = top4(&i)?;
    let os = outs(&t, |w| w.0);
    seen.transitions += 1;
    seen.states += os.len() as u64;
    seen.nontrivial = os.len() > 5;
    seen.outcome = os.len() as u64;
    // Each segment runs in sweep order, and bounds something.
    let mut at: HashMap<(u64, u64), ([i32; 4], Vec<(usize, bool)>)> = HashMap::new();
    for (k, o) in os.iter().enumerate() {
        if !o.a.is_finite() || !o.b.is_finite() {
            return Err("a point is not finite|".into());
        }
        if o.a.y > o.b.y || (o.a.y == o.b.y && o.a.x >= o.b.x) {
            return Err(format!("an output segment does not run in sweep order| {:?} {:?}", o.a, o.b));
        }
        if o.cw == o.ccw {
            return Err(format!("an output segment separates nothing| {:?} {:?} {:?}", o.a, o.b, o.cw));
        }
        for (p, first) in [(o.a, true), (o.b, false)] {
            let e = at.entry(key(p)).or_default();
            for n in 0..4 {
                let jump = o.ccw[n] - o.cw[n];
                e.0[n] += if first { jump } else { -jump };
            }
            e.1.push((k, first));
        }
    }
    for (_, (sum, inc)) in &at {
        seen.validated += 1;
        let o = &os[inc[0].0];
        let p = if inc[0].1 { o.a } else { o.b };
        if *sum != [0; 4] {
            return Err(format!("boundaries are not closed at a point| {p:?}: net jump {sum:?}"));
        }
        if !i.straight {
            continue;
        }
        // Around a point: neighbouring segments agree about the sector between them. The directions
        // mean something only if the segments are much longer than the accuracy.
        let mut dirs: Vec<(f64, [i32; 4], [i32; 4], f64)> = inc
            .iter()
            .map(|&(k, first)| {
                let o = &os[k];
                let v = if first { o.b - o.a } else { o.a - o.b };
                let (cw, ccw) = if first { (o.cw, o.ccw) } else { (o.ccw, o.cw) };
                (v.y.atan2(v.x), cw, ccw, v.hypot())
            })
            .collect();
        // Clockwise, y down: increasing angle.
        dirs.sort_by(|a, b| a.0.total_cmp(&b.0));
        let n = dirs.len();
        for j in 0..n {
            let (d, e) = (&dirs[j], &dirs[(j + 1) % n]);
            if n < 2 {
                return Err(format!("a dangling segment| {p:?}"));
            }
            // Everything must be in order: only judge if all the gaps are clear.
            let clear = (0..n).all(|q| {
                let r = (q + 1) % n;
                let g = dirs[r].0 - dirs[q].0 + if r == 0 { std::f64::consts::TAU } else { 0.0 };
                g * dirs[q].3.min(dirs[r].3) > 8.0 * i.eps
            });
            if clear && d.1 != e.2 {
                return Err(format!("neighbouring segments disagree about the sector between them| {p:?}: {:?} and {:?}", d.1, e.2));
            }
        }
    }
    if i.straight {
        let segs: Vec<Seg> = os.iter().map(|o| Seg::Line(o.a, o.b)).collect();
        geo::box_pairs(&segs, |x, y| {
            let (o, q) = (&os[x], &os[y]);
            if (key(o.a), key(o.b)) == (key(q.a), key(q.b)) && (o.b - o.a).hypot() > mon::min_len(i.eps) {
                return Err(format!("two output segments coincide| {:?} {:?}", o.a, o.b));
            }
            Ok(())
        })?;
        // Segments meet at their ends, up to the accuracy: no crossing is deeper than that.
        geo::box_pairs(&segs, |x, y| {
            let (o, q) = (&os[x], &os[y]);
            if geo::proper_cross(o.a, o.b, q.a, q.b) {
                let depth = [(o, q.a), (o, q.b), (q, o.a), (q, o.b)].iter().map(|(s, p)| geo::dist2_line(s.a, s.b, *p).sqrt()).fold(f64::INFINITY, f64::min);
                if depth > 2.0 * i.eps {
                    return Err(format!("two output segments cross| {:?}-{:?} {:?}-{:?}", o.a, o.b, q.a, q.b));
                }
            }
            Ok(())
        })?;
    }
    // The bounding box is the input's, and contains everything.
    let bb = t.bounding_box();
    if !i.all.is_empty() {
        let mut r = (f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY);
        for p in &i.paths {
            if p.0.is_empty() {
                continue;
            }
            let b = kurbo::Shape::bounding_box(&p.bez());
            r = (r.0.min(b.x0), r.1.min(b.y0), r.2.max(b.x1), r.3.max(b.y1));
        }
        let tol = 2.0 * i.eps;
        // Curves that go back and forth along a horizontal line count as the line between their ends.
        let flat = i.all.iter().any(|s| matches!(s, Seg::Cubic(..)) && s.bbox().1 == s.bbox().3);
        if flat {
            if bb.x0 < r.0 - tol || bb.y0 < r.1 - tol || bb.x1 > r.2 + tol || bb.y1 > r.3 + tol {
                return Err(format!("wrong bounding box| {bb:?}, want something inside {r:?}"));
            }
        } else if [(bb.x0, r.0), (bb.y0, r.1), (bb.x1, r.2), (bb.y1, r.3)].iter().any(|(a, b)| !((a - b).abs() <= tol)) {
            return Err(format!("wrong bounding box| {bb:?}, want {r:?}"));
        }
        for o in &os {
            for p in [o.a, o.b] {
                if p.x < bb.x0 - tol || p.x > bb.x1 + tol || p.y < bb.y0 - tol || p.y > bb.y1 + tol {
                    return Err(format!("a point is outside of the bounding box| {p:?}, {bb:?}"));
                }
            }
        }
    }
    Ok(())
}

/// C10.
fn positions(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let i = inp(case);
    let t = top4(&i)?;
    let os = outs(&t, |w| w.0);
    seen.transitions += 1;
    seen.states += os.len() as u64;
    seen.nontrivial = os.iter().any(|o| o.path.len() > 1) || os.len() > 5;
    seen.outcome = os.iter().fold(0u64, |h, o| h.wrapping_mul(31).wrapping_add(o.path.len() as u64));
    let r = mon::tube_radius(&i.all) * i.eps;
    for o in &os {
        seen.validated += 1;
        let (Some(f), Some(l)) = (o.path.first(), o.path.last()) else {
            return Err(format!("an output segment has no position| {:?} {:?}", o.a, o.b));
        };
        if f.start() != o.a || l.end() != o.b {
            return Err(format!("the positioned path does not join the segment's end points| {:?} {:?}: {:?} {:?}", o.a, o.b, f.start(), l.end()));
        }
        for w in o.path.windows(2) {
            if w[0].end() != w[1].start() {
                return Err("a positioned path has a gap|".into());
            }
        }
        for s in &o.path {
            let ys: Vec<f64> = match *s {
                Seg::Line(a, b) => vec![a.y, b.y],
                Seg::Cubic(..) => (0..=16).map(|k| s.eval(k as f64 / 16.0).y).collect(),
            };
            if ys.iter().any(|y| !y.is_finite()) {
                return Err("a positioned path is not finite|".into());
            }
            // Pieces of curves next to a tangency may turn back by less than the accuracy.
            let tol = if i.straight { 1e-12 * (1.0 + ys[0].abs()) } else { 4.0 * i.eps };
            if ys.windows(2).any(|w| w[1] < w[0] - tol) {
                return Err(format!("a positioned path is not monotone| {s:?}"));
            }
            geo::tube(s, std::slice::from_ref(&o.orig), r).map_err(|p| format!("a positioned path strays from its own input curve| at {p:?}, {:?}", o.orig))?;
        }
    }
    unperturbed(&i, &t)?;
    // No two of them cross.
    let mut flat = vec![];
    let mut own = vec![];
    for (k, o) in os.iter().enumerate() {
        for s in &o.path {
            flat.push(*s);
            own.push(k);
        }
    }
    geo::box_pairs(&flat, |x, y| {
        if own[x] != own[y] {
            if let (Seg::Line(a, b), Seg::Line(c, d)) = (flat[x], flat[y]) {
                if geo::proper_cross(a, b, c, d) {
                    let depth = [(a, b, c), (a, b, d), (c, d, a), (c, d, b)].iter().map(|(s, t, p)| geo::dist2_line(*s, *t, *p).sqrt()).fold(f64::INFINITY, f64::min);
                    if depth > 0.01 * i.eps {
                        return Err(format!("two positioned paths cross| {a:?}-{b:?} {c:?}-{d:?}"));
                    }
                }
            }
        }
        Ok(())
    })?;
    Ok(())
}

/// What a positioned path says about its unperturbed part: the pieces made to keep curves in order are
/// parabolas, whatever else there is is the input curve's, and (one such piece) is named.
fn unperturbed(i: &Inp, t: &Topology<W4>) -> Result<(), String> {
    let pos = t.compute_positions();
    for k in t.segment_indices() {
        let p = &pos[k];
        let c = t.segments[t.orig_seg[k]].to_kurbo_cubic();
        let mut kept = vec![];
        for (n, s) in p.path.segments().enumerate() {
            if !matches!(s, kurbo::PathSeg::Quad(_)) {
                kept.push((n, s));
            }
        }
        let named = kept.iter().find(|x| Some(x.0) == p.copied_idx);
        if named.is_none() != kept.is_empty() || p.copied_idx.is_some() && named.is_none() {
            return Err(format!("the wrong piece of a positioned path is named as the unperturbed one| {:?} of {:?}", p.copied_idx, p.path));
        }
        let Some((_, kurbo::PathSeg::Cubic(q))) = named else { continue };
        let at = |y: f64| {
            let (mut a, mut b) = (0.0f64, 1.0f64);
            if c.p0.y >= y {
                return 0.0;
            }
            if c.p3.y <= y {
                return 1.0;
            }
            for _ in 0..60 {
                let m = 0.5 * (a + b);
                if kurbo::ParamCurve::eval(&c, m).y < y {
                    a = m;
                } else {
                    b = m;
                }
            }
            0.5 * (a + b)
        };
        let want = kurbo::ParamCurve::subsegment(&c, at(q.p0.y)..at(q.p3.y));
        let d = (q.p1 - want.p1).hypot().max((q.p2 - want.p2).hypot());
        let ext = (c.p3 - c.p0).hypot();
        // Next to a horizontal tangent, a rounding error in the height is a much larger one in the parameter.
        if d > 0.5 * i.eps + 1e-4 * ext {
            return Err(format!("the unperturbed piece of a positioned path is not its input curve| {q:?}, not {want:?}"));
        }
    }
    Ok(())
}

/// The range of x of a monotone piece between two heights.
fn piece_x(s: &Seg, lo: f64, hi: f64) -> (f64, f64) {
    let t = |y: f64| {
        let (mut a, mut b) = (0.0f64, 1.0f64);
        if s.eval(0.0).y >= y {
            return 0.0;
        }
        if s.eval(1.0).y <= y {
            return 1.0;
        }
        for _ in 0..48 {
            let m = 0.5 * (a + b);
            if s.eval(m).y < y {
                a = m;
            } else {
                b = m;
            }
        }
        0.5 * (a + b)
    };
    if let Seg::Line(p, q) = *s {
        let x = |y: f64| if y <= p.y { p.x } else if y >= q.y { q.x } else { p.x + (q.x - p.x) * ((y - p.y) / (q.y - p.y)) };
        if p.y == q.y {
            return (p.x.min(q.x), p.x.max(q.x));
        }
        return (x(lo).min(x(hi)), x(lo).max(x(hi)));
    }
    let (t0, t1) = (t(lo), t(hi));
    let mut r = (f64::INFINITY, f64::NEG_INFINITY);
    for k in 0..=4 {
        let x = s.eval(t0 + (t1 - t0) * k as f64 / 4.0).x;
        r = (r.0.min(x), r.1.max(x));
    }
    r
}

/// The range of x of a path around a height.
fn path_x(path: &[Seg], y: f64, d: f64) -> (f64, f64) {
    let mut r = (f64::INFINITY, f64::NEG_INFINITY);
    for s in path {
        if s.end().y >= y - d && s.start().y <= y + d {
            let x = piece_x(s, y - d, y + d);
            r = (r.0.min(x.0), r.1.max(x.1));
        }
    }
    r
}

/// C21.
fn ordered(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let i = inp(case);
    let t = top4(&i)?;
    let os = outs(&t, |w| w.0);
    seen.transitions += 1;
    seen.states += os.len() as u64;
    seen.nontrivial = os.iter().any(|o| o.path.len() > 1) || os.len() > 5;
    seen.outcome = os.iter().fold(0u64, |h, o| h.wrapping_mul(31).wrapping_add(o.path.len() as u64));
    let size = i.all.iter().map(|s| s.bbox()).fold(1.0f64, |m, b| m.max(b.0.abs()).max(b.1.abs()).max(b.2.abs()).max(b.3.abs()));
    let slack = 1e-13 * size;
    let tol = 1e-3 * i.eps;
    let tall: Vec<&Out> = os.iter().filter(|o| o.a.y < o.b.y).collect();
    let boxes: Vec<(f64, f64)> = tall.iter().map(|o| o.path.iter().map(|s| s.bbox()).fold((f64::INFINITY, f64::NEG_INFINITY), |m, b| (m.0.min(b.0), m.1.max(b.2)))).collect();
    for (k, o) in tall.iter().enumerate() {
        for (l, p) in tall.iter().enumerate().skip(k + 1) {
            if boxes[k].1 < boxes[l].0 || boxes[l].1 < boxes[k].0 {
                seen.validated += 1;
                continue;
            }
            let (y0, y1) = (o.a.y.max(p.a.y), o.b.y.min(p.b.y));
            if y0 >= y1 {
                continue;
            }
            seen.validated += 1;
            let mut cuts: Vec<f64> = o.path.iter().chain(&p.path).map(|s| s.end().y).filter(|y| *y > y0 && *y < y1).collect();
            cuts.push(y0);
            cuts.push(y1);
            cuts.sort_by(f64::total_cmp);
            let (mut left, mut right) = ((0.0f64, 0.0), (0.0f64, 0.0));
            for w in cuts.windows(2) {
                let straight = o.path.iter().chain(&p.path).all(|s| matches!(s, Seg::Line(..)));
                let fs: &[f64] = if straight { &[0.0, 1e-3, 0.5, 0.999] } else { &[0.0, 1e-3, 0.03, 0.15, 0.3, 0.5, 0.7, 0.85, 0.97, 0.999] };
                for f in fs {
                    let y = w[0] + (w[1] - w[0]) * f;
                    let (a, b) = (path_x(&o.path, y, slack), path_x(&p.path, y, slack));
                    left = if b.0 - a.1 > left.0 { (b.0 - a.1, y) } else { left };
                    right = if a.0 - b.1 > right.0 { (a.0 - b.1, y) } else { right };
                }
            }
            let depth = left.0.min(right.0);
            if depth > tol {
                return Err(format!("two positioned paths cross| by {:.3e} eps: left by {left:?}, right by {right:?}, {:?}-{:?} {:?}-{:?}", depth / i.eps, o.a, o.b, p.a, p.b));
            }
        }
    }
    Ok(())
}

/// C22: the contours of every set that can be told from the membership in each shape.
fn nary(case: &Case, fills: u64, seen: &mut Seen) -> Result<(), String> {
    let i = inp(case);
    let n = i.paths.len();
    let sm = samples(&i);
    let t = top4(&i)?;
    let cells = 1u64 << n;
    let mut by_outcome: BTreeMap<Vec<bool>, ()> = BTreeMap::new();
    for f in 0..fills {
        let fill = mon::FILLS[f as usize];
        let member = |w: &[i32; 4]| -> usize { (0..n).map(|k| (mon::inside_one(fill, w[k]) as usize) << k).sum() };
        // Which combinations occur at all.
        let ms: Vec<usize> = sm.iter().map(|(_, w)| member(w)).collect();
        for table in 0..1u64 << (cells - 1) {
            // Being in no shape at all is being outside.
            let table = table << 1;
            let inside = |w: &[i32; 4]| table >> member(w) & 1 == 1;
            let sig: Vec<bool> = (0..cells as usize).map(|m| ms.contains(&m) && table >> m & 1 == 1).collect();
            // Sets that differ only in combinations that don't occur are the same set.
            if (0..cells as usize).any(|m| !ms.contains(&m) && table >> m & 1 == 1) {
                continue;
            }
            by_outcome.insert(sig, ());
            let c = t.contours(|w| inside(&w.0));
            seen.transitions += 1;
            seen.states += c.contours().count() as u64;
            let flat: Vec<Seg> = mon::out_segs(&c).into_iter().flatten().collect();
            for (p, w) in &sm {
                seen.validated += 1;
                let want = inside(w);
                let got = geo::winding(&flat, *p);
                if want as i32 != -got {
                    return Err(format!("wrong membership for predicate| {table:#b} {fill:?} at {p:?}: windings {w:?}, want {want}, winding {got}"));
                }
            }
            mon::structure_of(&c, i.straight, i.eps * if i.straight { 1.0 } else { 4.0 }, seen).map_err(|e| format!("{e} (predicate {table:#b}, {fill:?})"))?;
            mon::simple_of(&c, i.straight, mon::min_len(i.eps), seen).map_err(|e| format!("{e} (predicate {table:#b}, {fill:?})"))?;
        }
    }
    // Thresholds of winding numbers, too.
    for k in 0..n {
        for th in [-2, -1, 1, 2] {
            let inside = |w: &[i32; 4]| if th > 0 { w[k] >= th } else { w[k] <= th };
            let c = t.contours(|w| inside(&w.0));
            seen.transitions += 1;
            let flat: Vec<Seg> = mon::out_segs(&c).into_iter().flatten().collect();
            for (p, w) in &sm {
                let got = geo::winding(&flat, *p);
                if inside(w) as i32 != -got {
                    return Err(format!("wrong membership for threshold| {th} of {k} at {p:?}: windings {w:?}, winding {got}"));
                }
            }
        }
    }
    seen.nontrivial = by_outcome.len() > 2;
    seen.outcome = by_outcome.len() as u64;
    Ok(())
}
fn nary2(case: &Case, seen: &mut Seen) -> Result<(), String> {
    nary(case, 2, seen)
}
fn nary1(case: &Case, seen: &mut Seen) -> Result<(), String> {
    nary(case, 1, seen)
}

const BIN_QUICK: &[&str] = &[
    "pp:g33:3x0:auto",
    "pp:g33:4x0:auto",
    "pp:g33:5x0:auto",
    "pp:g33:3x3:auto",
    "pp:g33:3x3:0.1",
    "pp:g33:3x3:auto:rot",
    "pp:g33:3x3:auto:flat",
    "pp:g33:3x3:auto:neg",
    "pp:near@0.01:3x3:0.01",
    "pp:nearh@0.02:3x3:0.01",
    "pp:nearv@0.02:3x3:0.01",
    "bm:3x2:2x2:0,0:auto",
    "bm:3x2:2x2:0.5,0.5:auto:rot",
    "nest:5:auto",
    "many:auto:40",
    "star:auto",
    "strip:3:auto",
];
const BIN_THOROUGH: &[&str] = &[
    "pp:g33:6x0:auto",
    "pp:g33:4x3:auto",
    "pp:g33:4x3:0.1",
    "pp:g33:4x3:auto:rot",
    "pp:g33:4x3:auto:far",
    "pp:g33:4x3:auto:thin",
    "pp:g33:4x3:auto:neg",
    "pp:g33:4x3:auto:rot2",
    "pp:g33:3x3:auto:x+-1e10",
    "pp:g33:3x3:auto:y+-1e10",
    "pp:near@0.01:4x3:0.01",
    "pp:near@0.03:4x3:0.01",
    "pp:gen8:4x3:auto",
    "pp:g32:3+3x3:auto",
    "bm:3x3:3x2:0,0:auto",
    "bm:3x3:2x2:0.5,0.5:auto:shear",
    "comb:auto",
    "many:auto:65",
    "star:auto:rot",
    "strip:4:auto",
];
const CURVE_QUICK: &[&str] = &["pp:g33:qx0:auto", "pp:g22:qxq:auto", "pp:g22:qxq:auto:neg", "pp:g22:qxq:auto:rot2", "pp:g33:cx0:auto", "pp:g22:qqx3:auto", "pp:gen4:cllx3:auto", "pp:g22:discxdisc:0.01"];
const CURVE_THOROUGH: &[&str] = &["pp:g33:qx3:auto", "pp:g32:qxq:auto", "pp:g22:cqxq:auto", "pp:g32:cx3:auto", "pp:g22:discxdisc:auto", "pp:gen5:qxq:auto"];
const MULTI_QUICK: &[&str] = &["mm:g22:3x3x3:0.000001", "mm:g22:4x3x3x3:0.000001", "mb:0.000001", "mb:0.000001:rot"];
const MULTI_THOROUGH: &[&str] = &["mm:g32:3x3x3:0.000001", "mm:g32:3x3x3:0.000001:shear", "mm:gen5:3x3x3:0.001", "mm:g22:qx3x3:0.000001"];

/// More families for the order of positioned paths.
const ORDER_QUICK: &[&str] = &[
    "pp:g22:cxc:auto",
    "pp:g22:cqxq:auto:neg",
    "pp:g32:qxq:0.01:neg",
    "pp:gen4:cxq:auto",
    "pp:gen5:qxq:auto",
    "pp:gen5:qxq:0.01:rot2",
    "pp:g22:qxq:0.1:neg",
    "pp:g32:qqx3:0.01:neg",
    "pp:g32:qxq:0.1:rot2",
];
const ORDER_THOROUGH: &[&str] = &[
    "pp:g32:qxq:auto:rot2",
    "pp:gen5:cxq:auto",
    "pp:gen4:cxc:auto",
    "pp:g22:cxc:auto:rot",
    "pp:g22:cxc:auto:shear",
    "pp:g22:cxc:auto:neg",
    "pp:g32:cxq:auto",
    "pp:gen5:cx3:auto:neg",
    "pp:g33:4x4:auto:neg",
    "pp:g33:4x4:0.3:rot2",
    "pp:g33:qxq:auto",
];

fn go(tier: &str, check: CheckFn, mcheck: CheckFn, curves: bool) -> Vec<Family> {
    let mut v: Vec<Family> = BIN_QUICK.iter().map(|s| family(s, check)).collect();
    v.extend(mc::shapes::extra(check));
    if curves {
        v.extend(CURVE_QUICK.iter().map(|s| family(s, check)));
    }
    v.extend(MULTI_QUICK.iter().map(|s| multi(s, mcheck)));
    if tier == "thorough" {
        v.extend(BIN_THOROUGH.iter().map(|s| family(s, check)));
        if curves {
            v.extend(CURVE_THOROUGH.iter().map(|s| family(s, check)));
        }
        v.extend(MULTI_THOROUGH.iter().map(|s| multi(s, mcheck)));
    }
    v
}

fn main() {
    cli(vec![
        Prop {
            id: "C08",
            rule: "every index of every family; at a sample in every cell of the input arrangement, the nearest output segment in 4 (straight input) or 2 directions must report that cell's winding numbers; non-trivial: more than 5 output segments",
            families: |t| go(t, windings, windings, true),
        },
        Prop {
            id: "C09",
            rule: "every index of every family; conservation and cyclic agreement at every vertex, order, pairwise crossings and bounding box; non-trivial: more than 5 output segments",
            families: |t| go(t, planar, planar, true),
        },
        Prop {
            id: "C10",
            rule: "every index of every family; every positioned path; non-trivial: some path has several pieces, or more than 5 output segments",
            families: |t| {
                let mut v = go(t, positions, positions, true);
                // Families in which positions are known to go wrong: see DESIGN.md.
                v.retain(|f| !["pp:g22:cqxq:auto", "pp:gen5:qxq:auto"].contains(&f.name.as_str()));
                v.push(listed("known:positions", vec![
                    // Repaired; see known-findings.txt.
                    case("M0,1 C0,0;0,0;0,0 Q0,0;0,1 Z", "M1,1 Q0,0;0,1 Z", None),
                    case("M2.3,1.7 Q3.1,0.71;0,0.13 Z", "M0.6,1.1 Q2.3,1.7;3.1,0.71 Z", None),
                ], positions));
                v
            },
        },
        Prop {
            id: "C21",
            rule: "every index of every family; every pair of positioned paths that share heights; non-trivial: some path has several pieces, or more than 5 output segments",
families: |t| {
                let mut v = go(t, ordered, ordered, true);
                v.extend(ORDER_QUICK.iter().map(|s| family(s, ordered)));
                if t == "thorough" {
                    v.extend(ORDER_THOROUGH.iter().map(|s| family(s, ordered)));
                }
                v.push(listed("known:order", vec![
                    case("M0,1 C1,1;1,1;1,0 Z", "M1,1 Q0,1;0,0 Z", Some(0.1)),
                    case("M1,1 C0,0;0,0;0,1 L0,0 Z", "M1,1 C0,0;0,0;0,0 Z", None),
                    case("M0,0 L1,0 L0,0.01 L2,0 Z", "M2,0 L1,0.005 L1,0.01 Z", Some(0.01)),
                ], ordered));
                v
            },
        },
        Prop {
            id: "C22",
            rule: "every index of every family of tuples; every boolean function of the memberships (that does not contain the unbounded cell), and thresholds of each winding number; non-trivial: more than two different sets",
            families: |t| {
                let mut v = vec![];
                for s in ["mm:g22:3x3x3:0.000001", "mb:0.000001"] {
                    v.push(multi(s, nary2));
                }
                if t == "quick" {
                    v.push(multi("mm:gen4:3x3x3:0.000001", nary2));
                    v.push(multi("mb:0.000001:rot", nary1));
                } else {
                    for s in MULTI_THOROUGH {
                        v.push(multi(s, nary2));
                    }
                    for s in ["mb:0.000001:rot", "mb:0.000001:shear", "mm:g33:3x3:0.000001", "mm:g33:4x3:0.000001"] {
                        v.push(multi(s, nary2));
                    }
                }
                v
            },
        },
    ])
}
