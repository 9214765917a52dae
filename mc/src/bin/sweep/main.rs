//! The sweep itself: what it reports about every segment, and the order it keeps.

use std::collections::HashMap;

use kurbo::Point;
use linesweeper::sweep::{OutputEvent, SweepLineBuffers, SweepLineRangeBuffers, Sweeper};
use linesweeper::{SegIdx, Segments};

use mc::case::{Case, Path};
use mc::engine::{cli, CheckFn, Family, Prop, Seen};
use mc::geo::{self, Seg};
use mc::shapes::{self, family, multi, Dec};

struct Inp {
    segs: Segments,
    idx: Vec<SegIdx>,
    geo: Vec<Seg>,
    eps: f64,
    straight: bool,
}

fn auto(paths: &[Path]) -> f64 {
    let all: Vec<Seg> = paths.iter().flat_map(|p| geo::segs(&p.0)).collect();
    let mut m: f64 = 0.0;
    for s in &all {
        let b = s.bbox();
        m = m.max(b.0.abs()).max(b.1.abs()).max(b.2.abs()).max(b.3.abs());
    }
    (m * 2.0 * 64.0 * f64::EPSILON).max(1e-6)
}

/// Open paths of one straight segment each go in through `add_points`, everything else through
/// `add_bez_path` / `add_non_closed_bez_path`.
fn inp(case: &Case) -> Inp {
    let (paths, eps) = match case {
        Case::Bin { a, b, eps } => (vec![a.clone(), b.clone()], *eps),
        Case::Multi { paths, eps } => (paths.clone(), Some(*eps)),
        _ => panic!("wrong kind of case"),
    };
    let eps = eps.unwrap_or_else(|| auto(&paths));
    let mut segs = Segments::default();
    for p in &paths {
        use kurbo::PathEl::*;
        if let [MoveTo(a), LineTo(b)] = p.0[..] {
            segs.add_points([a, b]);
        } else if p.0.iter().any(|e| matches!(e, ClosePath)) || p.0.is_empty() {
            segs.add_bez_path(&p.bez()).expect("closed path");
        } else {
            segs.add_non_closed_bez_path(&p.bez()).expect("path");
        }
    }
    segs.check_invariants();
    let idx: Vec<SegIdx> = segs.indices().collect();
    let g: Vec<Seg> = idx
        .iter()
        .map(|i| {
            let s = &segs[*i];
            if s.is_line() {
                Seg::Line(s.start().to_kurbo(), s.end().to_kurbo())
            } else {
                let c = s.to_kurbo_cubic();
                Seg::Cubic(c.p0, c.p1, c.p2, c.p3)
            }
        })
        .collect();
    let straight = g.iter().all(|s| matches!(s, Seg::Line(..)));
    Inp { segs, idx, geo: g, eps, straight }
}

/// The horizontal extent of the part of a (y-monotone) segment with |height - y| <= r.
fn extent(s: &Seg, y: f64, r: f64) -> Option<(f64, f64)> {
    let (lo, hi) = (y - r, y + r);
    let (a, b) = (s.start(), s.end());
    if b.y < lo || a.y > hi {
        return None;
    }
    match s {
        Seg::Line(a, b) => {
            if a.y == b.y {
                return Some((a.x.min(b.x), a.x.max(b.x)));
            }
            let at = |y: f64| {
                let t = ((y - a.y) / (b.y - a.y)).clamp(0.0, 1.0);
                a.x + t * (b.x - a.x)
            };
            let (p, q) = (at(lo), at(hi));
            Some((p.min(q), p.max(q)))
        }
        _ => {
            let find = |y: f64| {
                if y <= a.y {
                    return 0.0;
                }
                if y >= b.y {
                    return 1.0;
                }
                let (mut l, mut h) = (0.0, 1.0);
                for _ in 0..50 {
                    let m = 0.5 * (l + h);
                    if s.eval(m).y < y {
                        l = m;
                    } else {
                        h = m;
                    }
                }
                0.5 * (l + h)
            };
            let (t0, t1) = (find(lo), find(hi));
            let mut r = (f64::INFINITY, f64::NEG_INFINITY);
            for k in 0..=32 {
                let x = s.eval(t0 + (t1 - t0) * k as f64 / 32.0).x;
                r = (r.0.min(x), r.1.max(x));
            }
            Some(r)
        }
    }
}

fn show(i: &Inp, k: usize) -> String {
    format!("{:?}", i.geo[k])
}

#[derive(Clone, Default)]
struct Track {
    /// Heights and fragments seen so far at the current height.
    y: f64,
    here: Vec<OutputEvent>,
    started: bool,
    /// Does it go on below the last reported height?
    open: bool,
}

/// The reports about one segment at one height must join up.
fn flush(i: &Inp, k: usize, t: &mut Track) -> Result<(), String> {
    if t.here.is_empty() {
        return Ok(());
    }
    let s = &i.geo[k];
    let y = t.y;
    let fail = |m: &str| Err(format!("{m}| at height {y}, segment {}: {:?}", show(i, k), t.here.iter().map(|e| (e.x0, e.connected_above, e.x1, e.connected_below)).collect::<Vec<_>>()));
    let ups = t.here.iter().filter(|e| e.connected_above).count();
    let downs = t.here.iter().filter(|e| e.connected_below).count();
    let hor = s.start().y == s.end().y;
    let first = !t.started;
    let last = y == s.end().y;
    if !t.started && y != s.start().y {
        return fail("first reported at another height than its start");
    }
    if t.started && !t.open {
        return fail("reported again after its end");
    }
    if y > s.end().y {
        return fail("reported below its end");
    }
    if ups != !first as usize {
        return fail("does not come from above exactly once");
    }
    if downs != (!last || (first && !hor)) as usize && !(hor && downs == 0) {
        return fail("does not go on below exactly once");
    }
    // From the piece it arrives on to the piece it leaves on.
    let mut f: Vec<&OutputEvent> = t.here.iter().collect();
    if f.iter().any(|e| e.x0 != e.x1) {
        let right = f.iter().find(|e| e.x0 != e.x1).map(|e| e.x1 > e.x0).unwrap();
        if !right {
            f.reverse();
        }
        for e in &f {
            if e.x0 != e.x1 && (e.x1 > e.x0) != right {
                return fail("goes back and forth");
            }
        }
    }
    for w in f.windows(2) {
        if w[0].x1 != w[1].x0 {
            return fail("pieces do not join up");
        }
    }
    if !first && !f[0].connected_above {
        return fail("does not start where it comes from");
    }
    if downs == 1 && !f[f.len() - 1].connected_below {
        return fail("does not end where it goes on");
    }
    let r = 3.0 * i.eps * if i.straight { 1.0 } else { 4.0 };
    let Some((lo, hi)) = extent(s, y, r) else { return fail("reported far from the segment") };
    for e in &f {
        if (e.smaller_x(), e.larger_x()) != (e.x0.min(e.x1), e.x0.max(e.x1)) {
            return fail("smaller_x or larger_x is wrong");
        }
        for x in [e.x0, e.x1, 0.5 * (e.x0 + e.x1), e.x0 - 1.0] {
            if e.connected_above_at(x) != (e.connected_above && x == e.x0) || e.connected_below_at(x) != (e.connected_below && x == e.x1) {
                return fail("connected_above_at or connected_below_at is wrong");
            }
        }
        if e.smaller_x() < lo - r || e.larger_x() > hi + r {
            return fail("reported far from the segment");
        }
    }
    if hor && ((f[0].x0 - s.start().x).abs() > r || (f[f.len() - 1].x1 - s.end().x).abs() > r) {
        return fail("a horizontal segment is not covered");
    }
    t.started = true;
    t.open = downs == 1;
    t.here.clear();
    Ok(())
}

/// C11: every segment is reported, once, from its start to its end.
fn reports(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let i = inp(case);
    let n = i.idx.len();
    let num: HashMap<SegIdx, usize> = i.idx.iter().enumerate().map(|(k, x)| (*x, k)).collect();
    let mut tr = vec![Track::default(); n];
    let mut err = None;
    let mut last_y = f64::NEG_INFINITY;
    let mut events = 0u64;
    let mut lines = 0u64;
    let mut frags = 0u64;
    let mut states: u64 = 0;
    linesweeper::sweep::sweep(&i.segs, i.eps, |y, ev| {
        if err.is_some() {
            return;
        }
        events += 1;
        if y != last_y {
            if y < last_y {
                err = Some(format!("heights are not in order| {y} after {last_y}"));
                return;
            }
            last_y = y;
            lines += 1;
        }
        states = states.wrapping_mul(31).wrapping_add(num[&ev.seg_idx] as u64 + 7 * ev.connected_above as u64 + 11 * ev.connected_below as u64);
        frags += (ev.x0 != ev.x1) as u64;
        let k = num[&ev.seg_idx];
        if tr[k].y != y {
            if let Err(e) = flush(&i, k, &mut tr[k]) {
                err = Some(e);
                return;
            }
            tr[k].y = y;
        }
        tr[k].here.push(ev);
    });
    if let Some(e) = err {
        return Err(e);
    }
    for k in 0..n {
        flush(&i, k, &mut tr[k])?;
        if !tr[k].started {
            return Err(format!("a segment is never reported| {}", show(&i, k)));
        }
        if tr[k].open {
            return Err(format!("a segment is not reported up to its end| {}", show(&i, k)));
        }
    }
    seen.states = lines;
    seen.transitions = events;
    seen.validated = n as u64;
    seen.nontrivial = frags > 0 || lines > 4;
    seen.outcome = states;
    Ok(())
}

/// Is `a` clearly to the right of `b` at height `y`, where both exist?
fn clearly_right(i: &Inp, a: usize, b: usize, y: f64) -> bool {
    let r = 3.0 * i.eps;
    match (extent(&i.geo[a], y, r), extent(&i.geo[b], y, r)) {
        (Some(x), Some(z)) => x.0 > z.1 + r,
        _ => false,
    }
}

/// C12: the sweep line holds exactly the segments that cross the height, in an order that is right
/// up to the accuracy, there and all the way to the next sweep line; and changes only where it says.
fn order(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let i = inp(case);
    let n = i.idx.len();
    let num: HashMap<SegIdx, usize> = i.idx.iter().enumerate().map(|(k, x)| (*x, k)).collect();
    let mut sw = Sweeper::new(&i.segs, i.eps);
    let mut lb = SweepLineBuffers::default();
    let mut rb = SweepLineRangeBuffers::default();
    let mut prev: Vec<usize> = vec![];
    let mut prev_y = f64::NEG_INFINITY;
    let mut out = 0u64;
    while let Some(mut line) = sw.next_line(&mut lb) {
        let y = line.y();
        if y <= prev_y {
            return Err(format!("heights are not in order| {y} after {prev_y}"));
        }
        let mut len = 0;
        while line.line_segment(len).is_some() {
            len += 1;
        }
        let cur: Vec<usize> = line.segment_range(0..len).map(|s| num[&s]).collect();
        // Exactly the segments that go on below this height.
        let mut got = cur.clone();
        got.sort();
        let want: Vec<usize> = (0..n).filter(|k| i.geo[*k].start().y <= y && i.geo[*k].end().y > y).collect();
        if got != want {
            return Err(format!("the sweep line holds the wrong segments| at height {y}: {got:?} and not {want:?}"));
        }
        // The old order was right down to here (it loses those segments that end here).
        for (k, a) in prev.iter().enumerate() {
            for b in &prev[k + 1..] {
                seen.validated += 1;
                // In between as well, for curves.
                let m = if i.straight { 1 } else { 4 };
                for s in 1..=m {
                    let yy = prev_y + (y - prev_y) * s as f64 / m as f64;
                    if clearly_right(&i, *a, *b, yy) {
                        return Err(format!("the order is wrong before the next sweep line| at height {yy}, after sweep line {prev_y}: {} before {}", show(&i, *a), show(&i, *b)));
                    }
                }
            }
        }
        for (k, a) in cur.iter().enumerate() {
            for b in &cur[k + 1..] {
                seen.validated += 1;
                if clearly_right(&i, *a, *b, y) {
                    return Err(format!("the order is wrong on the sweep line| at height {y}: {} before {}", show(&i, *a), show(&i, *b)));
                }
            }
        }
        // Nothing moves outside the ranges that are reported.
        let (mut olds, mut news) = (vec![], vec![]);
        while let Some(range) = line.next_range(&mut rb, &i.segs) {
            olds.extend(range.old_segment_range().map(|s| num[&s]));
            news.extend(range.segment_range().map(|s| num[&s]));
            seen.transitions += 1;
        }
        let rest = |all: &[usize], some: &[usize]| -> Option<Vec<usize>> {
            let mut it = some.iter().peekable();
            let mut r = vec![];
            for x in all {
                if it.peek() == Some(&x) {
                    it.next();
                } else {
                    r.push(*x);
                }
            }
            it.next().is_none().then_some(r)
        };
        let (Some(ro), Some(rn)) = (rest(&prev, &olds), rest(&cur, &news)) else {
            return Err(format!("the reported ranges are not part of the sweep lines| at height {y}: {olds:?} of {prev:?}, {news:?} of {cur:?}"));
        };
        if ro != rn {
            return Err(format!("the order changed outside the reported ranges| at height {y}: {prev:?} to {cur:?}, reported {olds:?} to {news:?}"));
        }
        seen.states += 1;
        seen.nontrivial |= cur.len() > 2 && cur != prev;
        out = cur.iter().fold(out.wrapping_mul(1_000_003), |h, x| h.wrapping_mul(31).wrapping_add(*x as u64 + 1));
        prev = cur;
        prev_y = y;
    }
    if !prev.is_empty() {
        return Err(format!("segments are left over at the end| {prev:?}"));
    }
    seen.outcome = out;
    Ok(())
}

/// Every set of `k` different straight segments over the points, none of them joined to another:
/// `open:PTS:K:EPS[:TRANSFORM]`.
fn open(name: &str, check: CheckFn) -> Family {
    let parts: Vec<&str> = name.split(':').collect();
    let pts = shapes::parse_pts(parts[1]);
    let k: usize = parts[2].parse().unwrap();
    let eps: f64 = parts[3].parse().unwrap();
    let tr = parts.get(4).copied().unwrap_or("id").to_string();
    let mut all = vec![];
    for a in 0..pts.len() {
        for b in a + 1..pts.len() {
            all.push((pts[a], pts[b]));
        }
    }
    let m = all.len() as u64;
    // Combinations, in the combinatorial number system.
    fn choose(n: u64, k: u64) -> u64 {
        (0..k).fold(1, |r, j| r * (n - j) / (j + 1))
    }
    let n = choose(m, k as u64);
    Family {
        name: name.into(),
        n,
        gen: Box::new(move |mut i| {
            let mut paths = vec![];
            let mut c = m;
            for j in (1..=k as u64).rev() {
                // The largest c with choose(c, j) <= i.
                c -= 1;
                while choose(c, j) > i {
                    c -= 1;
                }
                i -= choose(c, j);
                let (a, b) = all[c as usize];
                let f = |p: (f64, f64)| shapes::transform(&tr, Point::new(p.0, p.1));
                paths.push(Path(vec![kurbo::PathEl::MoveTo(f(a)), kurbo::PathEl::LineTo(f(b))]));
            }
            Some(Case::Multi { paths, eps })
        }),
        check,
        rule: "every set of that many different segments over the point set".into(),
    }
}

/// Open polylines and curves: `path:PTS:N:EPS`, every pair of an open polyline of N points and an open
/// curve and line.
fn open_paths(name: &str, check: CheckFn) -> Family {
    let parts: Vec<&str> = name.split(':').collect();
    let pts = shapes::parse_pts(parts[1]);
    let n: u64 = parts[2].parse().unwrap();
    let eps: f64 = parts[3].parse().unwrap();
    let np = pts.len() as u64;
    Family {
        name: name.into(),
        n: np.pow(n as u32) * np.pow(4),
        gen: Box::new(move |i| {
            let mut d = Dec(i);
            let mut p = || -> Point { pts[d.take(np) as usize].into() };
            let mut a = vec![kurbo::PathEl::MoveTo(p())];
            for _ in 1..n {
                a.push(kurbo::PathEl::LineTo(p()));
            }
            let b = vec![kurbo::PathEl::MoveTo(p()), kurbo::PathEl::QuadTo(p(), p()), kurbo::PathEl::LineTo(p())];
            Some(Case::Multi { paths: vec![Path(a), Path(b)], eps })
        }),
        check,
        rule: "every open polyline and every open quadratic with a line after it".into(),
    }
}

const BIN_QUICK: &[&str] = &[
    "pp:g33:3x3:auto",
    "pp:g33:3x3:0.1",
    "pp:g33:3x3:0.01:rot",
    "pp:g33:3x3:0.0001:flat",
    "pp:near@0.01:3x3:0.01",
    "pp:nearh@0.02:3x3:0.01",
    "pp:nearv@0.02:3x3:0.01",
    "pp:g33:5x0:0.1",
    "bm:3x2:2x2:0.5,0.5:0.01:rot",
    "star:0.01",
    "comb:0.001",
    "strip:3:auto",
    "pp:g33:4x3:auto",
    "pp:g33:4x3:0.03:rot",
    "pp:near@0.01:4x3:0.01",
    "pp:gen8:4x3:0.05",
];
const BIN_THOROUGH: &[&str] = &[
    "pp:g33:4x3:0.1",
    "pp:near@0.03:4x3:0.01",
    "pp:nearh@0.02:4x3:0.01",
    "pp:g33:6x0:0.1",
    "pp:g33:4x4:0.1",
    "pp:g33:4x4:0.01:rot",
    "star:auto:rot",
    "comb:auto:rot",
    "strip:4:0.01",
];
const CURVE_QUICK: &[&str] = &["pp:g22:qxq:0.01", "pp:g22:cx3:0.01", "pp:g22:qxq:auto", "pp:g33:qx3:0.01", "pp:g32:qxq:0.001", "pp:g22:discxdisc:0.01"];
const CURVE_THOROUGH: &[&str] = &["pp:g22:cxq:0.01", "pp:g33:qxq:0.01", "pp:g32:cx3:0.001", "pp:g22:cxc:0.01", "pp:gen5:cx3:0.01", "pp:g22:discxdisc:auto"];
const OPEN_QUICK: &[&str] = &["open:g33:3:0.01", "open:g33:3:0.1", "open:g43:3:0.01:rot", "open:g33:4:0.05", "open:near@0.02:4:0.01", "open:nearh@0.01:3:0.01", "open:g33:5:0.05:rot", "open:near@0.02:5:0.01", "open:gen8:5:0.1", "open:g44:3:0.01", "open:near4@0.02:4:0.01"];
const OPEN_THOROUGH: &[&str] = &["open:g44:3:0.1", "open:g44:3:0.01:rot", "open:g44:4:0.1", "open:g33:5:0.05", "open:nearh@0.02:5:0.01", "open:g33:6:0.1"];

fn go(tier: &str, check: CheckFn) -> Vec<Family> {
    let mut v: Vec<Family> = BIN_QUICK.iter().chain(CURVE_QUICK).map(|s| family(s, check)).collect();
    v.extend(OPEN_QUICK.iter().map(|s| open(s, check)));
    v.push(multi("mm:g22:3x3x3:0.01", check));
    v.push(open_paths("path:g22:4:0.01", check));
    if tier == "thorough" {
        v.extend(BIN_THOROUGH.iter().chain(CURVE_THOROUGH).map(|s| family(s, check)));
        v.extend(OPEN_THOROUGH.iter().map(|s| open(s, check)));
        v.push(multi("mm:g32:3x3x3:0.01", check));
        v.push(open_paths("path:g32:3:0.1", check));
    }
    v.extend(shapes::extra(check));
    v
}

fn main() {
    cli(vec![
        Prop {
            id: "C11",
            rule: "every index of every family; the reports about every segment, in order, must form one connected path from its start to its end within 3 eps of it; non-trivial: some report is a horizontal piece, or there are more than 4 sweep lines",
            families: |t| go(t, reports),
        },
        Prop {
            id: "C12",
            rule: "every index of every family; every sweep line: contents, pairwise order at its height and down to the next one, changes only in reported ranges; non-trivial: some sweep line changes the order of more than 2 segments",
            families: |t| go(t, order),
        },
    ])
}
