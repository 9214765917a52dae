//! Monitors for the rest of what a caller can rely on: totality, validation, invariance,
//! composition, determinism.

use kurbo::{BezPath, PathEl, Point};
use linesweeper::topology::{BinaryWindingNumber, Contours, Topology};
use linesweeper::{binary_op, binary_op_with_eps, BinaryOp, Error, FillRule};

use mc::case::{Case, Path};
use mc::engine::{CheckFn, Family, Seen};
use mc::geo::{self, Seg};
use mc::shapes::{self, Dec};

use crate::mon::{self, FILLS, OPS};

// ---------------------------------------------------------------------------------------------
// Families of raw element sequences.

fn alphabet(kind: &str, pts: &[Point]) -> Vec<PathEl> {
    let mut out = vec![];
    for c in kind.chars() {
        match c {
            'M' => out.extend(pts.iter().map(|p| PathEl::MoveTo(*p))),
            'L' => out.extend(pts.iter().map(|p| PathEl::LineTo(*p))),
            'Q' => out.extend(pts.iter().flat_map(|p| pts.iter().map(|q| PathEl::QuadTo(*p, *q)))),
            'C' => out.extend(pts.iter().flat_map(|p| pts.iter().flat_map(|q| pts.iter().map(|r| PathEl::CurveTo(*p, *q, *r))))),
            _ => out.push(PathEl::ClosePath),
        }
    }
    out
}

/// `raw:KINDS:PTS:DEPTH:EPS`: every sequence of up to DEPTH path elements after a first MoveTo, against
/// one fixed second operand.
pub fn raw(name: &str, check: CheckFn) -> Family {
    let parts: Vec<&str> = name.split(':').collect();
    let pts: Vec<Point> = shapes::parse_pts(parts[2]).into_iter().map(|p| p.into()).collect();
    let al = alphabet(parts[1], &pts);
    let depth: u32 = parts[3].parse().unwrap();
    let eps = shapes::eps_of(parts[4]);
    let k = al.len() as u64 + 1;
    let n = k.pow(depth);
    Family {
        name: name.into(),
        n,
        check,
        rule: "every sequence of path elements up to the depth, starting with a MoveTo".into(),
        gen: Box::new(move |i| {
            let mut d = Dec(i);
            let mut v = vec![PathEl::MoveTo(pts[0])];
            let mut ended = false;
            for _ in 0..depth {
                let x = d.take(k);
                if x == 0 {
                    ended = true;
                } else if ended {
                    // Shorter sequences are listed once.
                    return None;
                } else {
                    v.push(al[x as usize - 1]);
                }
            }
            let b = Path::from_polys(&[vec![(0.25, 0.0), (1.5, 0.5), (0.5, 1.75)]]);
            Some(Case::Bin { a: Path(v), b, eps })
        }),
    }
}

/// `bad:EPS`: valid shapes with one or two coordinates replaced by something that isn't finite.
pub fn bad(name: &str, check: CheckFn) -> Family {
    let eps = shapes::eps_of(name.split(':').nth(1).unwrap());
    let shapes: Vec<Path> = [
        "M0,0 L1,0 L0,1 Z",
        "M0,0 Q1,0;1,1 L0,1 Z",
        "M0,0 C1,0;2,1;1,1 L0,1 Z",
        "M0,0 L1,0 L0,1 Z M3,3 Q4,3;4,4 Z",
        "M0,0 L1,0 L0,1 L0,0 M3,3 C3,4;4,4;5,3 L4,2 Z M7,7 Z",
    ]
    .iter()
    .map(|s| s.parse().unwrap())
    .collect();
    let mut cases = vec![];
    let vals = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let slots = |p: &Path| {
        let mut n = 0;
        for e in &p.0 {
            n += match e {
                PathEl::MoveTo(_) | PathEl::LineTo(_) => 2,
                PathEl::QuadTo(..) => 4,
                PathEl::CurveTo(..) => 6,
                PathEl::ClosePath => 0,
            };
        }
        n
    };
    let set = |p: &Path, slot: usize, v: f64| {
        let mut q = p.clone();
        let mut k = slot as i64;
        for e in &mut q.0 {
            let ps: Vec<&mut Point> = match e {
                PathEl::MoveTo(p) | PathEl::LineTo(p) => vec![p],
                PathEl::QuadTo(p, q) => vec![p, q],
                PathEl::CurveTo(p, q, r) => vec![p, q, r],
                PathEl::ClosePath => vec![],
            };
            for p in ps {
                if k == 0 {
                    p.x = v;
                }
                if k == 1 {
                    p.y = v;
                }
                k -= 2;
            }
        }
        q
    };
    let other: Path = "M0,0 L2,0 L0,2 Z".parse().unwrap();
    for s in &shapes {
        let n = slots(s);
        for i in 0..n {
            for v in vals {
                let x = set(s, i, v);
                cases.push(Case::Bin { a: x.clone(), b: other.clone(), eps });
                cases.push(Case::Bin { a: other.clone(), b: x.clone(), eps });
                cases.push(Case::Bin { a: x.clone(), b: Path::default(), eps });
                for j in 0..i {
                    for w in vals {
                        cases.push(Case::Bin { a: set(&x, j, w), b: other.clone(), eps });
                    }
                }
            }
        }
    }
    shapes::listed(name, cases, check)
}

// ---------------------------------------------------------------------------------------------
// C07: validation.

fn coords(els: &[PathEl]) -> Vec<f64> {
    let mut v = vec![];
    for e in els {
        let ps: &[Point] = &match *e {
            PathEl::MoveTo(p) | PathEl::LineTo(p) => vec![p],
            PathEl::QuadTo(p, q) => vec![p, q],
            PathEl::CurveTo(p, q, r) => vec![p, q, r],
            PathEl::ClosePath => vec![],
        };
        for p in ps {
            v.push(p.x);
            v.push(p.y);
        }
    }
    v
}

/// The first subpath that isn't closed: its start and its end. A subpath goes from one MoveTo to the
/// next; after a ClosePath, we are back at its start.
fn first_open(els: &[PathEl]) -> Option<(Point, Point)> {
    let mut start = Point::ORIGIN;
    let mut cur = Point::ORIGIN;
    for e in els {
        match *e {
            PathEl::MoveTo(p) => {
                if cur != start {
                    return Some((start, cur));
                }
                start = p;
                cur = p;
            }
            PathEl::LineTo(p) | PathEl::QuadTo(_, p) | PathEl::CurveTo(_, _, p) => cur = p,
            PathEl::ClosePath => cur = start,
        }
    }
    (cur != start).then_some((start, cur))
}

enum Want {
    Ok,
    NotFinite { nan: bool, inf: bool },
    Open(Point, Point),
}

fn want(a: &Path, b: &Path) -> Want {
    let mut c = coords(&a.0);
    c.extend(coords(&b.0));
    let nan = c.iter().any(|x| x.is_nan());
    let inf = c.iter().any(|x| x.is_infinite());
    if nan || inf {
        return Want::NotFinite { nan, inf };
    }
    for p in [a, b] {
        if let Some((s, e)) = first_open(&p.0) {
            return Want::Open(s, e);
        }
    }
    Want::Ok
}

fn judge(what: &str, r: &Result<Contours, Error>, w: &Want) -> Result<(), String> {
    let ok = match (r, w) {
        (Ok(_), Want::Ok) => true,
        (Err(Error::NaN), Want::NotFinite { nan, .. }) => *nan,
        (Err(Error::Infinity), Want::NotFinite { inf, .. }) => *inf,
        (Err(Error::NonClosedPath(e)), Want::Open(s, t)) => e.start_point == *s && e.end_point == *t,
        _ => false,
    };
    if ok {
        return Ok(());
    }
    let want = match w {
        Want::Ok => "success".to_string(),
        Want::NotFinite { nan, inf } => format!("NaN: {nan}, infinite: {inf}"),
        Want::Open(s, e) => format!("not closed: {s:?} {e:?}"),
    };
    let got = match r {
        Ok(_) => "success".to_string(),
        Err(e) => format!("{e:?}"),
    };
    Err(format!("{what}: wrong verdict on the input| want {want}, got {got}"))
}

pub fn validate(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Bin { a, b, eps } = case else { panic!() };
    let w = want(a, b);
    seen.nontrivial = !matches!(w, Want::Ok);
    seen.outcome = match w {
        Want::Ok => 0,
        Want::NotFinite { nan, inf } => 1 + nan as u64 + 2 * inf as u64,
        Want::Open(..) => 5,
    };
    let (pa, pb) = (a.bez(), b.bez());
    for op in [BinaryOp::Union, BinaryOp::Difference] {
        seen.transitions += 2;
        seen.validated += 2;
        let go = |name: &str, f: &dyn Fn() -> Result<Contours, Error>| -> Result<(), String> {
            let r = mc::engine::guarded(f).map_err(|p| format!("{name}: {p}"))?;
            judge(name, &r, &w)
        };
        go("binary_op", &|| binary_op(&pa, &pb, FillRule::EvenOdd, op))?;
        go("binary_op_with_eps", &|| binary_op_with_eps(&pa, &pb, FillRule::NonZero, op, eps.unwrap_or(1e-3)))?;
    }
    // The topology only promises to find paths that aren't closed.
    if !matches!(w, Want::NotFinite { .. }) {
        seen.transitions += 1;
        seen.validated += 1;
        let r = Topology::<BinaryWindingNumber>::from_paths_binary(&pa, &pb, eps.unwrap_or(1e-3));
        let ok = match (&r, &w) {
            (Ok(_), Want::Ok) => true,
            (Err(e), Want::Open(s, t)) => e.start_point == *s && e.end_point == *t,
            _ => false,
        };
        if !ok {
            return Err(format!("Topology::from_paths_binary: wrong verdict on the input| {:?}", r.err()));
        }
    }
    seen.states += 1;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C06: totality.

pub fn total(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Bin { a, b, eps } = case else { panic!() };
    if !matches!(want(a, b), Want::Ok) {
        // C07's business; but it must not panic here either.
        seen.transitions += 1;
        let _ = mon::run_op(&a.bez(), &b.bez(), FillRule::EvenOdd, BinaryOp::Xor, *eps);
        return Ok(());
    }
    let inp = mon::input(case);
    let big = |p: &Path| coords(&p.0).into_iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let m = big(a).max(big(b));
    let n_in = a.0.len() + b.0.len();
    for full in [false, true] {
        if full && n_in > 40 {
            break;
        }
        mon::each_op(&inp, full, seen, |fill, op, c, seen| {
            seen.validated += 1;
            for con in c.contours() {
                let els = con.path.elements();
                if !matches!(els.first(), Some(PathEl::MoveTo(_))) || els[1..].iter().any(|e| matches!(e, PathEl::MoveTo(_))) {
                    return Err(format!("({op:?}, {fill:?}) an output contour is not one subpath|"));
                }
                for x in coords(els) {
                    if !(x.abs() <= m + 64.0 * inp.eps + m * 1e-9 + 1e-300) {
                        return Err(format!("({op:?}, {fill:?}) an output coordinate is not finite, or far outside of the input| {x}, input up to {m}"));
                    }
                }
                if first_open(els).is_some() {
                    return Err(format!("({op:?}, {fill:?}) an output contour is not closed|"));
                }
            }
            let _ = c.grouped();
            Ok(())
        })?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C18: the same set, written differently.

/// The polygons/curves of a path, as closed lists of elements without a final ClosePath: (start, elements).
fn rings(p: &Path) -> Vec<(Point, Vec<PathEl>)> {
    let mut out: Vec<(Point, Vec<PathEl>)> = vec![];
    let mut start = Point::ORIGIN;
    let mut cur = Point::ORIGIN;
    let mut els = vec![];
    for e in &p.0 {
        match *e {
            PathEl::MoveTo(q) => {
                if !els.is_empty() {
                    out.push((start, std::mem::take(&mut els)));
                }
                start = q;
                cur = q;
            }
            PathEl::LineTo(q) | PathEl::QuadTo(_, q) | PathEl::CurveTo(_, _, q) => {
                els.push(*e);
                cur = q;
            }
            PathEl::ClosePath => {
                if cur != start {
                    els.push(PathEl::LineTo(start));
                }
                cur = start;
                if !els.is_empty() {
                    out.push((start, std::mem::take(&mut els)));
                }
            }
        }
    }
    if !els.is_empty() {
        out.push((start, els));
    }
    out
}

fn end(e: &PathEl) -> Point {
    match *e {
        PathEl::MoveTo(p) | PathEl::LineTo(p) | PathEl::QuadTo(_, p) | PathEl::CurveTo(_, _, p) => p,
        PathEl::ClosePath => panic!(),
    }
}

fn rev(r: &(Point, Vec<PathEl>)) -> (Point, Vec<PathEl>) {
    let mut pts = vec![r.0];
    pts.extend(r.1.iter().map(end));
    let mut out = vec![];
    for (i, e) in r.1.iter().enumerate().rev() {
        let to = pts[i];
        out.push(match *e {
            PathEl::LineTo(_) => PathEl::LineTo(to),
            PathEl::QuadTo(p, _) => PathEl::QuadTo(p, to),
            PathEl::CurveTo(p, q, _) => PathEl::CurveTo(q, p, to),
            _ => panic!(),
        });
    }
    (*pts.last().unwrap(), out)
}

fn rot(r: &(Point, Vec<PathEl>)) -> (Point, Vec<PathEl>) {
    let mut v = r.1.clone();
    let f = v.remove(0);
    let s = end(&f);
    v.push(f);
    (s, v)
}

fn map_els(r: &(Point, Vec<PathEl>), f: impl Fn(Point, &PathEl, &mut Vec<PathEl>)) -> (Point, Vec<PathEl>) {
    let mut cur = r.0;
    let mut out = vec![];
    for e in &r.1 {
        f(cur, e, &mut out);
        cur = end(e);
    }
    (r.0, out)
}

/// How a ring is written down: 0 with the last line implicit, 1 with an explicit ClosePath after
/// returning, 2 without ClosePath.
fn write(rs: &[(Point, Vec<PathEl>)], how: usize) -> Path {
    let mut v = vec![];
    for (s, els) in rs {
        v.push(PathEl::MoveTo(*s));
        let implicit = how == 0 && matches!(els.last(), Some(PathEl::LineTo(_)));
        let k = els.len() - implicit as usize;
        v.extend_from_slice(&els[..k]);
        if how < 2 || implicit {
            v.push(PathEl::ClosePath);
        }
    }
    Path(v)
}

pub const N_VARIANTS: usize = 13;

/// Another way to write the same set of points (for either fill rule, and with the same boundary).
pub fn variant(p: &Path, k: usize) -> (&'static str, Path) {
    let rs = rings(p);
    match k {
        0 => ("explicit closing line and ClosePath", write(&rs, 1)),
        1 => ("no ClosePath", write(&rs, 2)),
        2 => ("another starting vertex", write(&rs.iter().map(rot).collect::<Vec<_>>(), 0)),
        3 => ("every contour reversed", write(&rs.iter().map(rev).collect::<Vec<_>>(), 0)),
        4 => ("contours in the opposite order", write(&rs.iter().rev().cloned().collect::<Vec<_>>(), 1)),
        5 => (
            "every line split in the middle",
            write(&rs.iter().map(|r| map_els(r, |p, e, out| match *e {
                PathEl::LineTo(q) => out.extend([PathEl::LineTo(p.midpoint(q)), PathEl::LineTo(q)]),
                e => out.push(e),
            })).collect::<Vec<_>>(), 0),
        ),
        6 => (
            "every line written as a quadratic",
            write(&rs.iter().map(|r| map_els(r, |p, e, out| match *e {
                PathEl::LineTo(q) => out.push(PathEl::QuadTo(p.midpoint(q), q)),
                e => out.push(e),
            })).collect::<Vec<_>>(), 1),
        ),
        7 => (
            "every line and quadratic written as a cubic",
            write(&rs.iter().map(|r| map_els(r, |p, e, out| match *e {
                PathEl::LineTo(q) => out.push(PathEl::CurveTo(p.lerp(q, 1.0 / 3.0), p.lerp(q, 2.0 / 3.0), q)),
                PathEl::QuadTo(c, q) => {
                    let k = kurbo::QuadBez::new(p, c, q).raise();
                    out.push(PathEl::CurveTo(k.p1, k.p2, k.p3));
                }
                e => out.push(e),
            })).collect::<Vec<_>>(), 0),
        ),
        8 => (
            "points repeated",
            write(&rs.iter().map(|r| map_els(r, |p, e, out| {
                out.push(PathEl::LineTo(p));
                out.push(*e);
            })).collect::<Vec<_>>(), 1),
        ),
        9 => (
            "a hair back and forth along every line",
            write(&rs.iter().map(|r| map_els(r, |p, e, out| match *e {
                PathEl::LineTo(q) => out.extend([PathEl::LineTo(q), PathEl::LineTo(p.midpoint(q)), PathEl::LineTo(q)]),
                e => out.push(e),
            })).collect::<Vec<_>>(), 0),
        ),
        10 => {
            let mut v = rs.clone();
            for r in &rs {
                v.push(rev(r));
                v.push(r.clone());
            }
            ("every contour there, back and there again", write(&v, 0))
        }
        11 => {
            let mut v = write(&rs, 0);
            v.0.insert(0, PathEl::MoveTo(Point::new(9.0, 9.0)));
            v.0.push(PathEl::MoveTo(Point::new(-9.0, 9.0)));
            v.0.push(PathEl::ClosePath);
            ("empty subpaths around", v)
        }
        _ => {
            // Curves split where t is one half: the same curves, exactly.
            (
                "every curve split in the middle",
                write(&rs.iter().map(|r| map_els(r, |p, e, out| match *e {
                    PathEl::QuadTo(c, q) => {
                        let (a, b) = (p.midpoint(c), c.midpoint(q));
                        out.extend([PathEl::QuadTo(a, a.midpoint(b)), PathEl::QuadTo(b, q)]);
                    }
                    PathEl::CurveTo(b, c, d) => {
                        let (ab, bc, cd) = (p.midpoint(b), b.midpoint(c), c.midpoint(d));
                        let (abc, bcd) = (ab.midpoint(bc), bc.midpoint(cd));
                        out.extend([PathEl::CurveTo(ab, abc, abc.midpoint(bcd)), PathEl::CurveTo(bcd, cd, d)]);
                    }
                    e => out.push(e),
                })).collect::<Vec<_>>(), 2),
            )
        }
    }
}

fn member_check(
    what: &str,
    c: &Contours,
    fill: FillRule,
    op: BinaryOp,
    samples: &[Point],
    w: &[(i32, i32)],
    seen: &mut Seen,
) -> Result<(), String> {
    let outs: Vec<Seg> = mon::out_segs(c).into_iter().flatten().collect();
    for (p, (wa, wb)) in samples.iter().zip(w) {
        let want = mon::expected(fill, op, *wa, *wb);
        let got = geo::winding(&outs, *p);
        seen.validated += 1;
        if want != (got != 0) || want != (got % 2 != 0) {
            return Err(format!("{what}: another set ({op:?}, {fill:?})| at ({}, {}): want {want}, output winding {got}", p.x, p.y));
        }
    }
    Ok(())
}

pub fn invariant(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Bin { a, b, eps } = case else { panic!() };
    let inp = mon::input(case);
    // Written as curves, lines are only good to the accuracy of curves.
    let samples = inp.samples(mon::region_margin(false) * inp.eps);
    let w: Vec<(i32, i32)> = samples.iter().map(|p| (geo::winding(&inp.sa, *p), geo::winding(&inp.sb, *p))).collect();
    let sw: Vec<(i32, i32)> = w.iter().map(|(x, y)| (*y, *x)).collect();
    let curves = !inp.straight;
    for k in 0..N_VARIANTS {
        if (k == 12) != curves && k == 12 {
            continue;
        }
        let (name, va) = variant(a, k);
        for both in [false, true] {
            let vb = if both { variant(b, k).1 } else { b.clone() };
            let i2 = mon::input_of(&va, &vb, *eps);
            seen.states += 1;
            mon::each_op(&i2, false, seen, |fill, op, c, seen| member_check(name, c, fill, op, &samples, &w, seen))?;
        }
    }
    // Swapped operands.
    let i2 = mon::input_of(b, a, *eps);
    seen.states += 1;
    mon::each_op(&i2, false, seen, |fill, op, c, seen| member_check("operands swapped", c, fill, op, &samples, &sw, seen))?;
    // Symmetries of the plane.
    type Map = fn(Point) -> Point;
    let maps: [(&str, Map); 5] = [
        ("mirrored left-right", |p| Point::new(-p.x, p.y)),
        ("mirrored up-down", |p| Point::new(p.x, -p.y)),
        ("turned upside down", |p| Point::new(-p.x, -p.y)),
        ("transposed", |p| Point::new(p.y, p.x)),
        ("scaled by 4", |p| Point::new(4.0 * p.x, 4.0 * p.y)),
    ];
    for (name, f) in maps {
        let i2 = mon::input_of(&a.map(f), &b.map(f), *eps);
        let s2: Vec<Point> = samples.iter().map(|p| f(*p)).collect();
        seen.states += 1;
        mon::each_op(&i2, false, seen, |fill, op, c, seen| {
            let mut c2 = w.clone();
            c2.truncate(s2.len());
            member_check(name, c, fill, op, &s2, &c2, seen)
        })?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C19: results of operations are good operands.

pub fn bez_of(c: &Contours) -> BezPath {
    let mut p = BezPath::new();
    for c in c.contours() {
        p.extend(c.path.elements().iter().copied());
    }
    p
}

const BASE: &[&str] = &[
    "M0,0 L4,0 L4,4 L0,4 Z",
    "M1,1 L5,1 L5,3 L1,3 Z M2,1.5 L2,2.5 L4.5,2.5 L4.5,1.5 Z",
    "M-1,2 L2,-1 L5,2 L2,5 Z",
    "M0,0 L4,4 L4,0 L0,4 Z",
    "M0,2 L2,2 L2,4 L0,4 Z M2,0 L4,0 L4,2 L2,2 Z",
    "M1,0 L3,0 L0.5,3.5 L2,-1 L3.5,3.5 Z",
];
const CURVED: &[&str] = &[
    "M0,0 L4,0 L4,4 L0,4 Z",
    "M2,0 Q4,0;4,2 Q4,4;2,4 Q0,4;0,2 Q0,0;2,0 Z",
    "M0,1 C5,0;-1,4;4,3 L3,0 Z",
    "M-1,2 C0,-1;4,5;5,2 C4,-1;0,5;-1,2 Z",
    "M1,1 Q2,5;3,1 Z",
];

fn base(curved: bool) -> Vec<Path> {
    (if curved { CURVED } else { BASE }).iter().map(|s| s.parse().unwrap()).collect()
}

/// Programs: [curved, fill, s0, (op, side, s)*]
pub fn programs(name: &str, check: CheckFn) -> Family {
    let parts: Vec<&str> = name.split(':').collect();
    let curved = parts[1] == "curved";
    let depth: usize = parts[2].parse().unwrap();
    let k = base(curved).len() as u64;
    let n = 2 * k * (8 * k).pow(depth as u32);
    Family {
        name: name.into(),
        n,
        check,
        rule: "every program of operations, each one applied to the previous result and a base shape, on either side".into(),
        gen: Box::new(move |i| {
            let mut d = Dec(i);
            let mut v = vec![curved as i64, d.take(2) as i64, d.take(k) as i64];
            for _ in 0..depth {
                let op = d.take(4) as i64;
                let side = d.take(2) as i64;
                // Only one of the operations isn't symmetric.
                if op != 2 && side == 1 {
                    return None;
                }
                v.extend([op, side, d.take(k) as i64]);
            }
            Some(Case::Ops { what: "program".into(), v })
        }),
    }
}

pub fn compose(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Ops { v, .. } = case else { panic!() };
    let curved = v[0] == 1;
    let fill = FILLS[v[1] as usize];
    let sh = base(curved);
    let used: Vec<usize> = std::iter::once(v[2]).chain(v[3..].chunks(3).map(|c| c[2])).map(|x| x as usize).collect();
    let mut all: Vec<Seg> = vec![];
    let mut done = std::collections::BTreeSet::new();
    for u in &used {
        if done.insert(*u) {
            all.extend(geo::segs(&sh[*u].0));
        }
    }
    let eps = mon::auto_eps(&all);
    let depth = (v.len() - 3) / 3;
    let margin = (4 * depth) as f64 * eps;
    let samples = mon::samples_of(&all, !curved, margin);
    let member = |u: i64, p: Point| mon::inside_one(fill, geo::winding(&geo::segs(&sh[u as usize].0), p));
    let mut want: Vec<bool> = samples.iter().map(|p| member(v[2], *p)).collect();
    let mut cur = sh[v[2] as usize].bez();
    for (step, c) in v[3..].chunks(3).enumerate() {
        let op = OPS[c[0] as usize];
        let s = sh[c[2] as usize].bez();
        let (l, r) = if c[1] == 0 { (&cur, &s) } else { (&s, &cur) };
        let res = binary_op(l, r, fill, op).map_err(|e| format!("step {step}: the result of an operation was rejected as an operand| {e:?}"))?;
        seen.transitions += 1;
        cur = bez_of(&res);
        let segs = geo::segs(cur.elements());
        for (p, w) in samples.iter().zip(&mut want) {
            let o = member(c[2], *p);
            let (x, y) = if c[1] == 0 { (*w, o) } else { (o, *w) };
            *w = match op {
                BinaryOp::Union => x | y,
                BinaryOp::Intersection => x & y,
                BinaryOp::Difference => x & !y,
                BinaryOp::Xor => x ^ y,
            };
            seen.validated += 1;
            let got = geo::winding(&segs, *p);
            if (got != 0) != *w || (got % 2 != 0) != *w {
                return Err(format!("step {step}: wrong set ({op:?}, {fill:?})| at ({}, {}): want {w}, winding {got}", p.x, p.y));
            }
        }
        seen.states += 1;
        seen.outcome = seen.outcome.wrapping_mul(31).wrapping_add(segs.len() as u64);
    }
    seen.nontrivial = want.iter().any(|x| *x);
    Ok(())
}

/// Algebraic laws, on the sets as they come out.
pub fn laws(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let inp = mon::input(case);
    let samples = inp.samples(3.0 * mon::region_margin(inp.straight) * inp.eps);
    let b0 = BezPath::new();
    for fill in FILLS {
        let run = |l: &BezPath, r: &BezPath, op| -> Result<BezPath, String> { Ok(bez_of(&mon::run_op(l, r, fill, op, inp.eps_arg)?)) };
        use BinaryOp::*;
        let u = run(&inp.a, &inp.b, Union)?;
        let i = run(&inp.a, &inp.b, Intersection)?;
        let d = run(&inp.a, &inp.b, Difference)?;
        let e = run(&inp.b, &inp.a, Difference)?;
        let x = run(&inp.a, &inp.b, Xor)?;
        let a1 = run(&inp.a, &b0, Union)?;
        let rules: Vec<(&str, BezPath, BezPath)> = vec![
            ("X u X = X", run(&u, &u, Union)?, u.clone()),
            ("X n X = X", run(&x, &x, Intersection)?, x.clone()),
            ("X u 0 = X", run(&x, &b0, Union)?, x.clone()),
            ("(A - B) u (A n B) = A", run(&d, &i, Union)?, a1.clone()),
            ("(A u B) - (A n B) = A ^ B", run(&u, &i, Difference)?, x.clone()),
            ("(A - B) u (B - A) = A ^ B", run(&d, &e, Union)?, x.clone()),
            ("(A ^ B) ^ (A n B) = A u B", run(&x, &i, Xor)?, u.clone()),
            ("A - (A - B) = A n B", run(&inp.a, &d, Difference)?, i.clone()),
            ("(A - B) n (B - A) = 0", run(&d, &e, Intersection)?, b0.clone()),
            ("X - X = 0", run(&u, &u, Difference)?, b0.clone()),
            ("X ^ X = 0", run(&x, &x, Xor)?, b0.clone()),
            ("0 - X = 0", run(&b0, &u, Difference)?, b0.clone()),
        ];
        seen.transitions += 6 + rules.len() as u64;
        for (name, l, r) in rules {
            let (l, r) = (geo::segs(l.elements()), geo::segs(r.elements()));
            seen.states += 1;
            for p in &samples {
                seen.validated += 1;
                if (geo::winding(&l, *p) != 0) != (geo::winding(&r, *p) != 0) {
                    return Err(format!("{name} fails ({fill:?})| at ({}, {})", p.x, p.y));
                }
            }
        }
        seen.nontrivial |= !i.elements().is_empty() && !d.elements().is_empty();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C20: determinism, and agreement of the entry points.

fn same(l: &Contours, r: &Contours) -> bool {
    let (l, r): (Vec<_>, Vec<_>) = (l.contours().collect(), r.contours().collect());
    l.len() == r.len() && l.iter().zip(&r).all(|(x, y)| x.path == y.path && x.parent == y.parent && x.outer == y.outer)
}

pub fn deterministic(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Bin { a, b, .. } = case else { panic!() };
    let inp = mon::input(case);
    let top = inp.topology()?;
    let top2 = inp.topology()?;
    let clone = top.clone();
    let mut first = vec![];
    for fill in FILLS {
        for op in OPS {
            let f = |w: &BinaryWindingNumber| mon::expected(fill, op, w.shape_a, w.shape_b);
            let c = top.contours(f);
            seen.transitions += 6;
            seen.validated += 6;
            if !same(&c, &top2.contours(f)) {
                return Err(format!("two topologies of the same paths give different contours ({op:?}, {fill:?})|"));
            }
            if !same(&c, &clone.contours(f)) {
                return Err(format!("a cloned topology gives different contours ({op:?}, {fill:?})|"));
            }
            let r = mon::run_op(&inp.a, &inp.b, fill, op, inp.eps_arg)?;
            if !same(&r, &mon::run_op(&inp.a, &inp.b, fill, op, inp.eps_arg)?) {
                return Err(format!("the same operation gives different results ({op:?}, {fill:?})|"));
            }
            let r2 = binary_op_with_eps(&inp.a, &inp.b, fill, op, inp.eps).map_err(|e| format!("{e:?}"))?;
            if !same(&r, &r2) {
                return Err(format!("binary_op differs from binary_op_with_eps with the documented accuracy ({op:?}, {fill:?})|"));
            }
            if !same(&c, &r2) {
                return Err(format!("binary_op_with_eps differs from the contours of the topology ({op:?}, {fill:?})|"));
            }
            seen.states += 1;
            first.push((fill, op, c));
        }
    }
    seen.nontrivial = first.iter().any(|x| x.2.contours().count() > 0);
    // Asking for other sets in between changes nothing.
    for (fill, op, c) in first.iter().rev() {
        seen.validated += 1;
        if !same(c, &top.contours(|w: &BinaryWindingNumber| mon::expected(*fill, *op, w.shape_a, w.shape_b))) {
            return Err(format!("asking again, after other sets, gives different contours ({op:?}, {fill:?})|"));
        }
    }
    let _ = top.compute_positions();
    let _ = top.bounding_box();
    let (f, o, c) = &first[0];
    if !same(c, &top.contours(|w: &BinaryWindingNumber| mon::expected(*f, *o, w.shape_a, w.shape_b))) {
        return Err("asking again, after computing positions, gives different contours|".into());
    }
    // Other ways in.
    let t3: Topology<BinaryWindingNumber> =
        Topology::from_paths([(&inp.a, true), (&inp.b, false)], inp.eps).map_err(|e| format!("{e:?}"))?;
    for (fill, op, c) in &first {
        seen.validated += 1;
        if !same(c, &t3.contours(|w| mon::expected(*fill, *op, w.shape_a, w.shape_b))) {
            return Err(format!("from_paths differs from from_paths_binary ({op:?}, {fill:?})|"));
        }
    }
    if inp.straight {
        let polys = |p: &Path| -> Vec<Vec<linesweeper::Point>> {
            rings(p)
                .into_iter()
                .map(|(s, els)| std::iter::once(s).chain(els[..els.len() - 1].iter().map(end)).map(|p| linesweeper::Point::new(p.x, p.y)).collect())
                .collect()
        };
        // Repeated points make zero-length segments there, which paths leave out.
        let t4 = Topology::from_polylines_binary(polys(a), polys(b), inp.eps);
        for (fill, op, c) in &first {
            seen.validated += 1;
            if !same(c, &t4.contours(|w| mon::expected(*fill, *op, w.shape_a, w.shape_b))) {
                return Err(format!("from_polylines_binary differs from from_paths_binary ({op:?}, {fill:?})|"));
            }
        }
    }
    // One set.
    let t5 = Topology::from_path(&inp.a, inp.eps).map_err(|e| format!("{e:?}"))?;
    let t6 = Topology::from_paths_binary(&inp.a, &BezPath::new(), inp.eps).map_err(|e| format!("{e:?}"))?;
    for fill in FILLS {
        seen.validated += 1;
        if !same(&t5.contours(|w| mon::inside_one(fill, *w)), &t6.contours(|w| mon::inside_one(fill, w.shape_a))) {
            return Err(format!("from_path differs from from_paths_binary with an empty second set ({fill:?})|"));
        }
    }
    Ok(())
}
