//! The segment arena: cutting paths into monotone segments, and the bookkeeping about them.

use kurbo::{BezPath, PathEl, Point};
use linesweeper::{SegIdx, Segments};

use mc::case::{Case, Path};
use mc::engine::{cli, CheckFn, Family, Prop, Seen};
use mc::geo::{self, Seg};
use mc::shapes::Dec;

fn piece(s: &Segments, i: SegIdx) -> Seg {
    let x = &s[i];
    let g = if x.is_line() {
        Seg::Line(x.start().to_kurbo(), x.end().to_kurbo())
    } else {
        let c = x.to_kurbo_cubic();
        Seg::Cubic(c.p0, c.p1, c.p2, c.p3)
    };
    if s.positively_oriented(i) {
        g
    } else {
        g.rev()
    }
}

fn less(a: Point, b: Point) -> bool {
    (a.y, a.x) <= (b.y, b.x)
}

/// What holds for every arena.
fn arena(s: &Segments, tol: f64, seen: &mut Seen) -> Result<(), String> {
    s.check_invariants();
    let all: Vec<SegIdx> = s.indices().collect();
    if all.len() != s.len() || s.segments().count() != s.len() {
        return Err("the number of segments is unclear|".into());
    }
    for &i in &all {
        let x = &s[i];
        let (a, b) = (x.start().to_kurbo(), x.end().to_kurbo());
        if !less(a, b) {
            return Err(format!("a segment runs upwards| {x:?}"));
        }
        let (p, q) = if s.positively_oriented(i) { (a, b) } else { (b, a) };
        if s.oriented_start(i).to_kurbo() != p || s.oriented_end(i).to_kurbo() != q {
            return Err(format!("oriented ends are wrong| {x:?}"));
        }
        if x.is_horizontal() != (a.y == b.y) || (x.is_horizontal() && !x.is_line()) {
            return Err(format!("wrong about being horizontal| {x:?}"));
        }
        let c = x.to_kurbo_cubic();
        if c.p0 != a || c.p3 != b {
            return Err(format!("the cubic has other ends| {x:?}"));
        }
        if let Some(n) = s.contour_next(i) {
            if s.contour_prev(n) != Some(i) || s.oriented_start(n) != s.oriented_end(i) {
                return Err(format!("next and previous do not agree| {x:?}"));
            }
        }
        if let Some(n) = s.contour_prev(i) {
            if s.contour_next(n) != Some(i) || s.oriented_end(n) != s.oriented_start(i) {
                return Err(format!("previous and next do not agree| {x:?}"));
            }
        }
        let g = if x.is_line() { Seg::Line(a, b) } else { Seg::Cubic(c.p0, c.p1, c.p2, c.p3) };
        let mut last = a.y;
        let n = 16;
        for k in 0..=n {
            let t = k as f64 / n as f64;
            let p = g.eval(t);
            if p.y < last - tol || p.y > b.y + tol {
                return Err(format!("a segment is not monotone| {x:?}"));
            }
            last = last.max(p.y);
            if p.x < x.min_x() - tol || p.x > x.max_x() + tol {
                return Err(format!("min_x or max_x is wrong| {x:?}"));
            }
            let y = p.y.clamp(a.y, b.y);
            if !x.is_horizontal() {
                let q = Point::new(x.at_y(y), y);
                if !geo::within(&g, q, 4.0 * tol) {
                    return Err(format!("at_y is not on the segment| {q:?} {x:?}"));
                }
            } else if x.at_y(y) != b.x {
                return Err(format!("at_y of a horizontal segment is not its largest x| {x:?}"));
            }
            // Every point of the segment that is near this height is between the bounds.
            for eps in [1e-6, 0.03, 0.7] {
                let (l, u) = (x.lower(y, eps), x.upper(y, eps));
                for m in 0..=n {
                    let r = g.eval(m as f64 / n as f64);
                    if (r.y - y).abs() <= eps - tol && (r.x < l + eps - tol || r.x > u - eps + tol) {
                        return Err(format!("lower or upper is no bound| {l} .. {u} at {y} with {eps}, but {r:?}: {x:?}"));
                    }
                }
                // And they are no further out than the hull allows.
                if l < x.min_x() - eps - tol || u > x.max_x() + eps + tol {
                    return Err(format!("lower or upper is too far out| {l} .. {u} at {y} with {eps}: {x:?}"));
                }
            }
            seen.validated += 3;
        }
    }
    let key = |v: &[(f64, SegIdx)]| {
        let mut k: Vec<(u64, usize)> = v.iter().map(|x| (x.0.to_bits(), all.iter().position(|i| *i == x.1).unwrap())).collect();
        k.sort();
        k
    };
    let want = |f: &dyn Fn(SegIdx) -> Option<f64>| {
        let mut k: Vec<(u64, usize)> = all.iter().enumerate().filter_map(|(n, i)| f(*i).map(|y| (y.to_bits(), n))).collect();
        k.sort();
        k
    };
    if s.entrances().windows(2).any(|w| w[0].0 > w[1].0) || s.exits().windows(2).any(|w| w[0].0 > w[1].0) {
        return Err("entrances or exits are not sorted|".into());
    }
    if key(s.entrances()) != want(&|i| Some(s[i].start().y)) {
        return Err(format!("entrances are not the starts of all segments| {:?}", s.entrances()));
    }
    if key(s.exits()) != want(&|i| (!s[i].is_horizontal()).then_some(s[i].end().y)) {
        return Err(format!("exits are not the ends of all non-horizontal segments| {:?}", s.exits()));
    }
    seen.states += all.len() as u64;
    Ok(())
}

/// The pieces of one contour, in its own direction, from the first one on.
fn chain(s: &Segments, first: SegIdx) -> Result<(Vec<SegIdx>, bool), String> {
    let mut v = vec![first];
    loop {
        match s.contour_next(*v.last().unwrap()) {
            None => return Ok((v, false)),
            Some(n) if n == first => return Ok((v, true)),
            Some(n) => v.push(n),
        }
        if v.len() > s.len() {
            return Err("a contour never ends|".into());
        }
    }
}

/// Which numbers of `pieces`, taken from the front, are the curve `want`?
fn traces(want: &Seg, s: &Segments, pieces: &[SegIdx], tol: f64) -> Result<Vec<usize>, String> {
    let mut ok = vec![];
    let mut at = want.start();
    for used in 0..=3.min(pieces.len()) {
        if used > 0 {
            let p = piece(s, pieces[used - 1]);
            if p.start() != at {
                break;
            }
            at = p.end();
            if let Some(q) = (0..=64).map(|k| p.eval(k as f64 / 64.0)).find(|q| !geo::within(want, *q, tol)) {
                if ok.is_empty() {
                    return Err(format!("a piece leaves the element| {q:?} of {p:?}, element {want:?}"));
                }
                break;
            }
        }
        if at == want.end() && t_done(want, s, &pieces[..used], tol) {
            ok.push(used);
        }
    }
    if ok.is_empty() {
        return Err(format!("the pieces do not make up the element| {want:?}"));
    }
    Ok(ok)
}

/// The element boundaries among the pieces of a subpath: every way of dividing them up.
fn divide(sub: &[Seg], s: &Segments, left: &[SegIdx], tol: f64) -> Result<Vec<usize>, String> {
    let Some((e, rest)) = sub.split_first() else { return Ok(vec![0]) };
    let first = match e {
        Seg::Line(a, b) if a == b => vec![0],
        Seg::Line(a, b) => {
            let Some(&k) = left.first() else { return Err("a line is missing|".into()) };
            if piece(s, k).start() != *a || piece(s, k).end() != *b || !s[k].is_line() {
                return Err(format!("a line has changed| {e:?} and {:?}", s[k]));
            }
            vec![1]
        }
        _ => traces(e, s, left, tol)?,
    };
    let mut all = vec![];
    let mut err = None;
    for n in first {
        match divide(rest, s, &left[n..], tol) {
            Ok(v) => all.extend(v.into_iter().map(|m| n + m)),
            Err(e) => err = Some(e),
        }
    }
    match err {
        Some(e) if all.is_empty() => Err(e),
        _ => Ok(all),
    }
}

/// Nothing of the element is left out (up to its horizontal parts, which may be shortened).
fn t_done(want: &Seg, s: &Segments, pieces: &[SegIdx], tol: f64) -> bool {
    let ps: Vec<Seg> = pieces.iter().map(|i| piece(s, *i)).collect();
    let b = want.bbox();
    let flat = b.3 - b.1 <= tol;
    let n = 48;
    (0..=n).all(|k| {
        let q = want.eval(k as f64 / n as f64);
        if flat {
            return true;
        }
        geo::near_any(&ps, q, 4.0 * tol)
    })
}

fn scale(p: &Path) -> f64 {
    geo::segs(&p.0).iter().map(|s| s.bbox()).fold(1.0, |a: f64, b| a.max(b.0.abs()).max(b.1.abs()).max(b.2.abs()).max(b.3.abs()))
}

/// One path with one or more subpaths.
fn cut(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Multi { paths, .. } = case else { panic!("wrong kind of case") };
    let p = &paths[0];
    let tol = 1e-9 * scale(p);
    let mut s = Segments::default();
    s.add_non_closed_bez_path(&p.bez()).map_err(|e| format!("refused| {e}"))?;
    arena(&s, tol, seen)?;
    let all: Vec<SegIdx> = s.indices().collect();
    // The elements, the way the path was written.
    let mut i = 0;
    let mut closed_all = true;
    let mut open: Option<(Point, Point)> = None;
    for sub in raw_subpaths(&p.0) {
        let begin = i;
        let counts = divide(&sub, &s, &all[i..], tol)?;
        // Where the subpath ends is for its links to say, if it can be divided in several ways.
        let linked = match all.get(i) {
            Some(k) => chain(&s, *k)?.0.len(),
            None => 0,
        };
        i += if counts.contains(&linked) { linked } else { counts[0] };
        seen.transitions += sub.len() as u64;
        if i > begin {
            let (c, closed) = chain(&s, all[begin])?;
            if c != all[begin..i] {
                return Err(format!("the contour is not made of its pieces| {} and {}", c.len(), i - begin));
            }
            let (a, b) = (sub[0].start(), sub[sub.len() - 1].end());
            if closed != (a == b) {
                return Err(format!("closed or not| {closed}"));
            }
            if !closed {
                closed_all = false;
                open.get_or_insert((a, b));
                if s.contour_prev(all[begin]).is_some() {
                    return Err("an open contour has something before it|".into());
                }
            }
        }
    }
    if i != all.len() {
        return Err(format!("segments left over| {i} of {}", all.len()));
    }
    // The strict version agrees, or says where the gap is.
    let mut s2 = Segments::default();
    match s2.add_bez_path(&p.bez()) {
        Ok(()) => {
            if !closed_all {
                return Err("an open path is taken for a closed one|".into());
            }
            if format!("{s2:?}") != format!("{s:?}") {
                return Err("the strict and the lenient way differ|".into());
            }
        }
        Err(e) => {
            if Some((e.start_point, e.end_point)) != open {
                return Err(format!("the reported gap is not there| {e} and {open:?}"));
            }
        }
    }
    seen.nontrivial = all.len() > geo::segs(&p.0).len();
    seen.outcome = all.iter().fold(all.len() as u64, |a, i| a * 4 + s.positively_oriented(*i) as u64 + 2 * s[*i].is_horizontal() as u64);
    Ok(())
}

/// Subpaths as written: every drawing element, without the closing line of an open one; elements
/// after a ClosePath start at the subpath's start, within the same subpath.
fn raw_subpaths(els: &[PathEl]) -> Vec<Vec<Seg>> {
    let mut out: Vec<Vec<Seg>> = vec![];
    let (mut start, mut last) = (Point::ZERO, Point::ZERO);
    for e in els {
        match *e {
            PathEl::MoveTo(p) => {
                out.push(vec![]);
                start = p;
                last = p;
                continue;
            }
            PathEl::LineTo(p) => out.last_mut().unwrap().push(Seg::Line(last, p)),
            PathEl::QuadTo(p, q) => out.last_mut().unwrap().push(Seg::Cubic(last, last + (2.0 / 3.0) * (p - last), q + (2.0 / 3.0) * (p - q), q)),
            PathEl::CurveTo(p, q, r) => out.last_mut().unwrap().push(Seg::Cubic(last, p, q, r)),
            PathEl::ClosePath => {
                if last != start {
                    out.last_mut().unwrap().push(Seg::Line(last, start));
                }
                last = start;
                continue;
            }
        }
        last = out.last().unwrap().last().unwrap().end();
    }
    out
}

const LINES: [&[(f64, f64)]; 8] = [
    &[],
    &[(1.0, 1.0)],
    &[(0.0, 0.0), (2.0, 1.0)],
    &[(0.0, 0.0), (2.0, 0.0), (1.0, 3.0)],
    &[(3.0, 3.0), (0.0, 3.0), (3.0, 0.0), (0.0, 0.0), (1.0, 1.5)],
    &[(1.0, 1.0), (1.0, 1.0), (4.0, 1.0)],
    &[(0.0, 2.0), (1.0, -1.0), (2.0, 2.0), (-1.0, 0.0)],
    &[(2.0, 2.0), (2.0, 2.0)],
];
const PATHS: [&str; 6] = ["", "M0,0 L3,0 L1,2 Z", "M0,0 C3,3;-2,3;1,0 Z", "M0,0 Q1,4;2,0 L0,0 M5,1 L5,2 L4,1 Z", "M1,1 C1,5;4,-3;4,1 L1,1 Z", "M0,1 L3,1 Z"];
const OPEN: [&str; 4] = ["M0,0 L3,0 L1,2", "M0,0 C3,3;-2,3;1,0.5 M7,7 L6,6", "M2,2", "M0,0 L1,1 L0,0 M0,3 L1,2"];
const NOPS: u64 = 8 + 8 + 6 + 4 + 2;

/// A history of additions: what was there stays as it is, and what is new is what it would have
/// been in an arena of its own.
fn history(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Ops { v, .. } = case else { panic!("wrong kind of case") };
    let apply = |s: &mut Segments, op: i64| -> Result<(), String> {
        match op {
            0..=7 => s.add_points(LINES[op as usize].iter().copied()),
            8..=15 => s.add_closed_polyline(LINES[op as usize - 8].iter().copied()),
            16..=21 => s.add_bez_path(&PATHS[op as usize - 16].parse::<Path>().unwrap().bez()).map_err(|e| e.to_string())?,
            22..=25 => s.add_non_closed_bez_path(&OPEN[op as usize - 22].parse::<Path>().unwrap().bez()).map_err(|e| e.to_string())?,
            26 => s.add_closed_polylines(LINES[3..7].iter().map(|l| l.iter().copied())),
            _ => s.add_closed_polylines(LINES[..2].iter().map(|l| l.iter().copied())),
        }
        Ok(())
    };
    type Row = (Seg, bool, Option<usize>, Option<usize>);
    let rows = |s: &Segments| -> Vec<Row> {
        let all: Vec<SegIdx> = s.indices().collect();
        let at = |i: Option<SegIdx>| i.map(|i| all.iter().position(|k| *k == i).expect("a neighbour that does not exist"));
        all.iter().map(|i| (piece(s, *i), s.positively_oriented(*i), at(s.contour_prev(*i)), at(s.contour_next(*i)))).collect()
    };
    let mut s = Segments::default();
    let mut model: Vec<Row> = vec![];
    for &op in v {
        let mut alone = Segments::default();
        apply(&mut alone, op)?;
        let k = model.len();
        model.extend(rows(&alone).into_iter().map(|r| (r.0, r.1, r.2.map(|x| x + k), r.3.map(|x| x + k))));
        apply(&mut s, op)?;
        let got = rows(&s);
        let same = got.len() == model.len()
            && got.iter().zip(&model).all(|(a, b)| format!("{:?}", a.0) == format!("{:?}", b.0) && (a.1, a.2, a.3) == (b.1, b.2, b.3));
        if !same {
            return Err(format!("the arena is not the sum of what was added| after {op}: {got:?} and not {model:?}"));
        }
        // Polylines, element by element.
        let l = match op {
            0..=7 => LINES[op as usize],
            8..=15 => LINES[op as usize - 8],
            _ => &[],
        };
        if l.len() > 1 {
            let mut want: Vec<(Point, Point)> = l.windows(2).map(|w| (w[0].into(), w[1].into())).collect();
            if op > 7 {
                want.push((l[l.len() - 1].into(), l[0].into()));
            }
            let have: Vec<(Point, Point)> = model[k..].iter().map(|r| (r.0.start(), r.0.end())).collect();
            if want != have {
                return Err(format!("a polyline has changed| {want:?} and {have:?}"));
            }
            let (f, e) = (&model[k], &model[model.len() - 1]);
            let ends = if op > 7 { (Some(model.len() - 1), Some(k)) } else { (None, None) };
            if (f.2, e.3) != ends {
                return Err(format!("the ends of a polyline are wrong| {:?}", (f.2, e.3)));
            }
        }
        arena(&s, 1e-9, seen)?;
        seen.transitions += 1;
        seen.validated += 1;
    }
    let c = s.clone();
    if format!("{c:?}") != format!("{s:?}") || c.entrances() != s.entrances() || c.exits() != s.exits() {
        return Err("a clone differs|".into());
    }
    seen.nontrivial = s.len() > 2;
    seen.outcome = s.len() as u64;
    Ok(())
}

/// `cut:ELEMENTS:XS:YS[:Z]`: all paths of these elements (L, Q, C) with all points from XS x YS.
fn cut_family(name: &str) -> Family {
    let p: Vec<String> = name.split(':').map(String::from).collect();
    let list = |s: &str| -> Vec<f64> { s.split(',').map(|x| x.parse().unwrap()).collect() };
    let (xs, ys) = (list(&p[2]), list(&p[3]));
    let pts: Vec<Point> = xs.iter().flat_map(|x| ys.iter().map(move |y| Point::new(*x, *y))).collect();
    let els = p[1].clone();
    let close = p.get(4).is_some();
    let k: u32 = 1 + els.chars().map(|c| match c {
        'L' => 1,
        'Q' => 2,
        'C' => 3,
        'M' => 1,
        _ => 0,
    }).sum::<u32>();
    let n = pts.len() as u64;
    Family {
        name: name.into(),
        n: n.pow(k),
        gen: Box::new(move |i| {
            let mut d = Dec(i);
            let mut q = || pts[d.take(n) as usize];
            let mut v = vec![PathEl::MoveTo(q())];
            for c in els.chars() {
                v.push(match c {
                    'L' => PathEl::LineTo(q()),
                    'Q' => PathEl::QuadTo(q(), q()),
                    'M' => PathEl::MoveTo(q()),
                    'Z' => PathEl::ClosePath,
                    _ => PathEl::CurveTo(q(), q(), q()),
                });
            }
            if close {
                v.push(PathEl::ClosePath);
            }
            let _ = BezPath::new();
            Some(Case::Multi { paths: vec![Path(v)], eps: 1.0 })
        }),
        check: cut as CheckFn,
        rule: "every path of these elements with all points from the product of the lists".into(),
    }
}

fn history_family(depth: u32) -> Family {
    Family {
        name: format!("history:{depth}"),
        n: NOPS.pow(depth),
        gen: Box::new(move |i| {
            let mut d = Dec(i);
            Some(Case::Ops { what: "additions".into(), v: (0..depth).map(|_| d.take(NOPS) as i64).collect() })
        }),
        check: history as CheckFn,
        rule: "every sequence of additions from a menu of 28: open and closed polylines (empty, single points, repeated points), lists of polylines, closed and open paths".into(),
    }
}

fn main() {
    cli(vec![Prop {
        id: "C15",
        rule: "every path over a point set, every history of additions; non-trivial: a curve that is cut into pieces, a history that adds more than two segments",
        families: |t| {
            let mut v: Vec<Family> = vec![history_family(1), history_family(2), history_family(3)];
            for s in [
                "cut:C:0,1,3:0,1,2,4",
                "cut:C:0,1:0,1e-6,0.5,1:Z",
                "cut:Q:0,1,3:0,1,2,4:Z",
                "cut:CL:0,2:0,1,3:Z",
                "cut:QQ:0,1:0,1,3:Z",
                "cut:LLL:0,1,2:0,1,2",
                "cut:LZL:0,1,2:0,1,2",
                "cut:LLML:0,1:0,1,2:Z",
                "cut:C:0,1,3,4:0,1,2,4",
                "cut:C:0,1,-1:0,0.1,0.7,1,1e-6,1e-4:Z",
                "cut:C:0,1:1000,1000.5,1001,1003,1002.9999,999:Z",
                "cut:CQ:0,1:0,1,3",
            ] {
                v.push(cut_family(s));
            }
            if t == "thorough" {
                v.push(history_family(4));
                for s in [
                    "cut:C:-1,0,1,2,3:0,1,2,3,5",
                    "cut:C:0,1,3:0,0.25,0.3,0.5,0.9,1,7,100:Z",
                    "cut:Q:-1,0,1,2,3:0,0.3,0.9,1,7,100,-3",
                    "cut:CC:0,1:0,1,3:Z",
                    "cut:CLMC:0,1:0,1",
                    "cut:LLLL:0,1,2:0,1,2:Z",
                    "cut:LZLZL:0,1,2:0,1,2",
                    "cut:QZQ:0,1,2:0,1:Z",
                ] {
                    v.push(cut_family(s));
                }
            }
            v
        },
    }])
}
