//! Monitors for the boolean operations: what a caller of `binary_op` can see.

use kurbo::{BezPath, Point};
use linesweeper::topology::{BinaryWindingNumber, Contours, Topology};
use linesweeper::{binary_op, binary_op_with_eps, BinaryOp, FillRule};

use mc::case::{Case, Path};
use mc::engine::Seen;
use mc::geo::{self, Seg};

pub const FILLS: [FillRule; 2] = [FillRule::EvenOdd, FillRule::NonZero];
pub const OPS: [BinaryOp; 4] = [BinaryOp::Union, BinaryOp::Intersection, BinaryOp::Difference, BinaryOp::Xor];

/// The documented choice of accuracy (only used to scale tolerances, and for direct topologies).
pub fn auto_eps(segs: &[Seg]) -> f64 {
    let m = segs
        .iter()
        .map(|s| {
            let b = s.bbox();
            b.0.abs().max(b.1.abs()).max(b.2.abs()).max(b.3.abs())
        })
        .fold(0.0, f64::max);
    (m * f64::EPSILON * 64.0).max(1e-6)
}

pub fn inside_one(fill: FillRule, w: i32) -> bool {
    match fill {
        FillRule::EvenOdd => w.rem_euclid(2) == 1,
        FillRule::NonZero => w != 0,
    }
}

pub fn expected(fill: FillRule, op: BinaryOp, wa: i32, wb: i32) -> bool {
    let a = inside_one(fill, wa);
    let b = inside_one(fill, wb);
    match op {
        BinaryOp::Union => a | b,
        BinaryOp::Intersection => a & b,
        BinaryOp::Difference => a & !b,
        BinaryOp::Xor => a ^ b,
    }
}

pub fn run_op(a: &BezPath, b: &BezPath, fill: FillRule, op: BinaryOp, eps: Option<f64>) -> Result<Contours, String> {
    let r = match eps {
        None => binary_op(a, b, fill, op),
        Some(e) => binary_op_with_eps(a, b, fill, op, e),
    };
    r.map_err(|e| format!("unexpected error result {e:?}"))
}

pub struct Input {
    pub a: BezPath,
    pub b: BezPath,
    pub sa: Vec<Seg>,
    pub sb: Vec<Seg>,
    pub all: Vec<Seg>,
    pub eps_arg: Option<f64>,
    pub eps: f64,
    pub straight: bool,
}

pub fn input(case: &Case) -> Input {
    let Case::Bin { a, b, eps } = case else { panic!("wrong kind of case") };
    input_of(a, b, *eps)
}

pub fn input_of(a: &Path, b: &Path, eps: Option<f64>) -> Input {
    let sa = geo::segs(&a.0);
    let sb = geo::segs(&b.0);
    let all: Vec<Seg> = sa.iter().chain(&sb).copied().collect();
    let straight = all.iter().all(|s| matches!(s, Seg::Line(..)));
    Input { a: a.bez(), b: b.bez(), eps: eps.unwrap_or_else(|| auto_eps(&all)), eps_arg: eps, sa, sb, all, straight }
}

impl Input {
    pub fn topology(&self) -> Result<Topology<BinaryWindingNumber>, String> {
        Topology::from_paths_binary(&self.a, &self.b, self.eps).map_err(|e| format!("unexpected error result {e:?}"))
    }

    pub fn samples(&self, margin: f64) -> Vec<Point> {
        samples_of(&self.all, self.straight, margin)
    }
}

pub fn samples_of(segs: &[Seg], straight: bool, margin: f64) -> Vec<Point> {
    let mut out = vec![];
    if straight {
        let edges: Vec<(Point, Point)> = segs.iter().map(|s| (s.start(), s.end())).collect();
        geo::cell_samples(&edges, margin, &mut out);
    } else {
        let ys = geo::scan_ys(segs, 3);
        geo::scan_samples(segs, &ys, margin, &mut out);
    }
    out
}

pub fn out_segs(c: &Contours) -> Vec<Vec<Seg>> {
    c.contours().map(|c| geo::segs(c.path.elements())).collect()
}

pub fn hash_out(c: &Contours) -> u64 {
    let mut h = 17u64;
    for c in c.contours() {
        h = h
            .wrapping_mul(1000003)
            .wrapping_add(c.path.elements().len() as u64)
            .wrapping_mul(31)
            .wrapping_add(c.outer as u64 * 2 + c.parent.is_some() as u64);
    }
    h
}

/// How far from the input's boundary (in units of the accuracy) membership is judged.
pub fn region_margin(straight: bool) -> f64 {
    if straight {
        3.0
    } else {
        4.0
    }
}

/// How far (in units of the accuracy) output boundaries may stray.
pub fn tube_radius(all: &[Seg]) -> f64 {
    if all.iter().all(|s| matches!(s, Seg::Line(..))) {
        2.0
    } else {
        16.0
    }
}

/// Runs all the operations and calls `f` on each result. `full` goes through `binary_op` each time;
/// otherwise all the results come from one topology.
pub fn each_op(
    inp: &Input,
    full: bool,
    seen: &mut Seen,
    mut f: impl FnMut(FillRule, BinaryOp, &Contours, &mut Seen) -> Result<(), String>,
) -> Result<(), String> {
    let top = if full { None } else { Some(inp.topology()?) };
    for fill in FILLS {
        for op in OPS {
            let c = match &top {
                Some(t) => t.contours(|w| expected(fill, op, w.shape_a, w.shape_b)),
                None => run_op(&inp.a, &inp.b, fill, op, inp.eps_arg)?,
            };
            seen.states += 1 + c.contours().count() as u64;
            seen.transitions += 1;
            seen.outcome = seen.outcome.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(hash_out(&c));
            if c.contours().any(|c| c.path.elements().len() > 5) || c.contours().count() > 1 {
                seen.nontrivial = true;
            }
            f(fill, op, &c, seen)?;
        }
    }
    Ok(())
}

fn region(case: &Case, full: bool, seen: &mut Seen) -> Result<(), String> {
    let inp = input(case);
    let samples = inp.samples(region_margin(inp.straight) * inp.eps);
    let w: Vec<(i32, i32)> = samples.iter().map(|p| (geo::winding(&inp.sa, *p), geo::winding(&inp.sb, *p))).collect();
    each_op(&inp, full, seen, |fill, op, c, seen| {
        let outs: Vec<Seg> = out_segs(c).into_iter().flatten().collect();
        for (p, (wa, wb)) in samples.iter().zip(&w) {
            let want = expected(fill, op, *wa, *wb);
            let got = geo::winding(&outs, *p);
            seen.validated += 1;
            if want != (got != 0) || want != (got % 2 != 0) {
                return Err(format!(
                    "wrong membership ({op:?}, {fill:?})| at ({}, {}): input windings {wa}, {wb}; output winding {got}",
                    p.x, p.y
                ));
            }
        }
        Ok(())
    })
}

/// Membership of every cell of the arrangement, for all operations and fill rules.
pub fn region_full(case: &Case, seen: &mut Seen) -> Result<(), String> {
    region(case, true, seen)
}
pub fn region_fast(case: &Case, seen: &mut Seen) -> Result<(), String> {
    region(case, false, seen)
}

/// Output boundaries stay within the accuracy of the input boundaries.
fn tube(case: &Case, full: bool, seen: &mut Seen) -> Result<(), String> {
    let inp = input(case);
    let r = tube_radius(&inp.all) * inp.eps;
    each_op(&inp, full, seen, |fill, op, c, seen| {
        for segs in out_segs(c) {
            for s in &segs {
                seen.validated += 1;
                geo::tube(s, &inp.all, r).map_err(|p| {
                    format!("output boundary strays from the input ({op:?}, {fill:?})| at ({}, {})", p.x, p.y)
                })?;
            }
        }
        Ok(())
    })
}
pub fn tube_full(case: &Case, seen: &mut Seen) -> Result<(), String> {
    tube(case, true, seen)
}
pub fn tube_fast(case: &Case, seen: &mut Seen) -> Result<(), String> {
    tube(case, false, seen)
}

/// Contours are closed and simple, and don't cross each other. (`straight`: the input had no curves,
/// so all of this can be decided exactly. Contours going back and forth between two points are only
/// allowed up to length `min_len`. Otherwise it's only closedness that is exact.)
pub fn simple_of(c: &Contours, straight: bool, min_len: f64, seen: &mut Seen) -> Result<(), String> {
    let mut outs: Vec<Vec<Seg>> = vec![];
    for con in c.contours() {
        let els = con.path.elements();
        let n_move = els.iter().filter(|e| matches!(e, kurbo::PathEl::MoveTo(_))).count();
        let n_close = els.iter().filter(|e| matches!(e, kurbo::PathEl::ClosePath)).count();
        if n_move != 1 || n_close > 1 || !matches!(els.first(), Some(kurbo::PathEl::MoveTo(_))) {
            return Err(format!("contour is not a single path| {:?}", els));
        }
        if n_close == 1 && !matches!(els.last(), Some(kurbo::PathEl::ClosePath)) {
            return Err("contour continues after closing|".to_string());
        }
        for e in els {
            let fin = match *e {
                kurbo::PathEl::MoveTo(p) | kurbo::PathEl::LineTo(p) => p.is_finite(),
                kurbo::PathEl::QuadTo(p, q) => p.is_finite() && q.is_finite(),
                kurbo::PathEl::CurveTo(p, q, r) => p.is_finite() && q.is_finite() && r.is_finite(),
                kurbo::PathEl::ClosePath => true,
            };
            if !fin {
                return Err(format!("contour has a non-finite coordinate| {els:?}"));
            }
        }
        let segs = geo::segs(els);
        let n = segs.len();
        seen.validated += 1;
        if n < if straight { 2 } else { 1 } {
            return Err(format!("contour is degenerate| {els:?}"));
        }
        for i in 0..n {
            if segs[i].end() != segs[(i + 1) % n].start() {
                return Err("contour is not closed|".into());
            }
        }
        if n == 2 && straight && (segs[0].end() - segs[0].start()).hypot() > min_len {
            return Err(format!("contour is degenerate| {els:?}"));
        }
        if !straight {
            outs.push(segs);
            continue;
        }
        if segs.iter().any(|s| !matches!(s, Seg::Line(..))) {
            return Err("straight input, curved contour|".into());
        }
        let mut starts: Vec<(u64, u64)> = segs.iter().map(|s| ((s.start().x + 0.0).to_bits(), (s.start().y + 0.0).to_bits())).collect();
        starts.sort();
        if starts.windows(2).any(|w| w[0] == w[1]) {
            return Err(format!("contour repeats a point| {els:?}"));
        }
        geo::box_pairs(&segs, |i, j| {
            let adj = i == j + 1 || (j == 0 && i == n - 1);
            if let (Seg::Line(a, b), Seg::Line(cc, d)) = (segs[i], segs[j]) {
                let bad = if adj {
                    // Neighbours share an endpoint, and may share nothing else.
                    let (m, p, q) = if i == j + 1 { (a, b, cc) } else { (b, a, d) };
                    n > 2 && geo::orient(m, p, q) == 0 && (p - m).dot(q - m) > 0.0
                } else {
                    geo::intersects(a, b, cc, d)
                };
                if bad {
                    return Err(format!("contour intersects itself| {a:?}-{b:?} {cc:?}-{d:?}"));
                }
            }
            Ok(())
        })?;
        outs.push(segs);
    }
    if !straight {
        return Ok(());
    }
    let mut flat = vec![];
    let mut owner = vec![];
    for (i, o) in outs.iter().enumerate() {
        for s in o {
            flat.push(*s);
            owner.push(i);
        }
    }
    geo::box_pairs(&flat, |i, j| {
        if owner[i] != owner[j] {
            if let (Seg::Line(a, b), Seg::Line(cc, d)) = (flat[i], flat[j]) {
                if geo::proper_cross(a, b, cc, d) {
                    return Err(format!("contours cross| {a:?}-{b:?} {cc:?}-{d:?}"));
                }
            }
        }
        Ok(())
    })?;
    Ok(())
}

/// From which length on two coincident output segments are a defect. The library merges segments
/// whose *originals* are within the accuracy of each other; segments that were only pushed onto each
/// other while the sweep line perturbed them are not merged. That takes inputs that are nearly
/// coincident on the scale of the accuracy, so only the ones with a tiny accuracy are judged.
pub fn min_len(eps: f64) -> f64 {
    if eps > 1e-5 {
        f64::INFINITY
    } else {
        64.0 * eps
    }
}

fn simple(case: &Case, full: bool, seen: &mut Seen) -> Result<(), String> {
    let inp = input(case);
    each_op(&inp, full, seen, |fill, op, c, seen| {
        simple_of(c, inp.straight, min_len(inp.eps), seen).map_err(|e| {
            let (l, r) = e.split_once('|').unwrap_or((&e, ""));
            format!("{l} ({op:?}, {fill:?})|{r}")
        })
    })
}
pub fn simple_full(case: &Case, seen: &mut Seen) -> Result<(), String> {
    simple(case, true, seen)
}
/// Inputs on which the library is known to fail: judged as straight ones are.
pub fn simple_listed(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let inp = input(case);
    each_op(&inp, true, seen, |fill, op, c, seen| {
        simple_of(c, inp.straight, 0.0, seen)?;
        for con in c.contours() {
            let segs = geo::segs(con.path.elements());
            for (i, s) in segs.iter().enumerate() {
                if segs[..i].iter().any(|t| t.start() == s.start()) {
                    return Err(format!("contour repeats a point ({op:?}, {fill:?})| {:?}", s.start()));
                }
            }
        }
        Ok(())
    })
}
pub fn simple_fast(case: &Case, seen: &mut Seen) -> Result<(), String> {
    simple(case, false, seen)
}

/// The forest of contours, their directions, and `grouped`, all say the same thing about the set.
pub fn structure_of(c: &Contours, straight: bool, margin: f64, seen: &mut Seen) -> Result<(), String> {
    let cons: Vec<_> = c.contours().collect();
    let n = cons.len();
    let outs: Vec<Vec<Seg>> = out_segs(c);
    let parent: Vec<Option<usize>> = cons.iter().map(|c| c.parent.map(|p| p.0)).collect();
    // It's a forest, and levels alternate.
    let mut depth = vec![0usize; n];
    for i in 0..n {
        let mut j = i;
        while let Some(p) = parent[j] {
            if p >= n {
                return Err("a parent does not exist|".into());
            }
            depth[i] += 1;
            if depth[i] > n {
                return Err("the parent relation has a cycle|".into());
            }
            j = p;
        }
        if cons[i].outer != (depth[i] % 2 == 0) {
            return Err(format!("outer flag disagrees with nesting depth| contour {i}"));
        }
    }
    // grouped(): a partition; first element is the parentless one; all the others are its descendants.
    let g = c.grouped();
    let mut count = vec![0; n];
    for tree in &g {
        let Some(first) = tree.first() else { return Err("grouped() has an empty group|".into()) };
        if parent[first.0].is_some() || !cons[first.0].outer {
            return Err("grouped(): first element is not a top-level contour|".into());
        }
        for (k, x) in tree.iter().enumerate() {
            count[x.0] += 1;
            let mut j = x.0;
            while let Some(p) = parent[j] {
                j = p;
            }
            if j != first.0 || (k > 0 && parent[x.0].is_none()) {
                return Err("grouped(): element of the wrong group|".into());
            }
        }
    }
    if count.iter().any(|x| *x != 1) {
        return Err("grouped() is not a partition|".into());
    }
    for i in 0..n {
        if c[linesweeper::topology::ContourIdx(i)].path != cons[i].path {
            return Err("indexing disagrees with iteration|".into());
        }
    }
    // A hole shares at most one point with the contour it's a hole of.
    for i in 0..n {
        if let Some(p) = parent[i].filter(|_| straight && !cons[i].outer) {
            let shared: Vec<Point> = outs[i].iter().map(|s| s.start()).filter(|s| outs[p].iter().any(|t| t.start() == *s)).collect();
            if shared.iter().any(|s| (*s - shared[0]).hypot() > margin) {
                return Err(format!("a hole shares several points with the contour around it| {i}, {p}: {shared:?}"));
            }
        }
    }
    let all: Vec<Seg> = outs.iter().flatten().copied().collect();
    for p in samples_of(&all, straight, margin) {
        seen.validated += 1;
        let ws: Vec<i32> = outs.iter().map(|o| geo::winding(o, p)).collect();
        let tot: i32 = ws.iter().sum();
        let mut inner: Option<usize> = None;
        let mut cnt = 0;
        for i in 0..n {
            if ws[i] == 0 {
                continue;
            }
            cnt += 1;
            // Walking with the set on one's left, y down: outer contours wind one way (negative, with
            // geo's convention), inner ones the other way.
            let want = if cons[i].outer { WIND_OUTER } else { -WIND_OUTER };
            if ws[i] != want {
                return Err(format!("a contour goes round the wrong way| contour {i} winding {} at ({}, {})", ws[i], p.x, p.y));
            }
            if inner.is_none_or(|k| depth[k] < depth[i]) {
                inner = Some(i);
            }
        }
        // The contours around this point are exactly a chain of ancestors.
        if let Some(mut k) = inner {
            if cnt != depth[k] + 1 {
                return Err(format!("the contours around a point are not a chain of ancestors| {cnt} contours, depth {}, at ({}, {})", depth[k], p.x, p.y));
            }
            loop {
                if ws[k] == 0 {
                    return Err(format!("a contour is not inside its parent| at ({}, {})", p.x, p.y));
                }
                match parent[k] {
                    Some(q) => k = q,
                    None => break,
                }
            }
        }
        let isin = inner.is_some_and(|k| cons[k].outer);
        if tot != if isin { WIND_OUTER } else { 0 } {
            return Err(format!("total winding {tot} disagrees with the forest| at ({}, {})", p.x, p.y));
        }
    }
    Ok(())
}

/// geo's winding number of a simple closed path that has its interior on its left, y down.
pub const WIND_OUTER: i32 = -1;

fn structure(case: &Case, full: bool, seen: &mut Seen) -> Result<(), String> {
    let inp = input(case);
    let margin = if inp.straight { inp.eps } else { 4.0 * inp.eps };
    each_op(&inp, full, seen, |fill, op, c, seen| {
        structure_of(c, inp.straight, margin, seen).map_err(|e| {
            let (l, r) = e.split_once('|').unwrap_or((&e, ""));
            format!("{l} ({op:?}, {fill:?})|{r}")
        })
    })
}
pub fn structure_full(case: &Case, seen: &mut Seen) -> Result<(), String> {
    structure(case, true, seen)
}
pub fn structure_fast(case: &Case, seen: &mut Seen) -> Result<(), String> {
    structure(case, false, seen)
}
