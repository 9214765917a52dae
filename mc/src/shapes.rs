//! Finite families of inputs, each named by a readable specification.

use kurbo::Point;

use crate::case::{Case, Path};
use crate::engine::{CheckFn, Family};

/// Mixed-radix decoding.
pub struct Dec(pub u64);
impl Dec {
    pub fn take(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
}

/// All closed polygons with `n` vertices over `npts` points, up to rotation of the starting vertex
/// (the canonical one is lexicographically smallest) and without immediately repeated vertices.
pub fn polygons(n: usize, npts: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, i: usize, npts: usize, out: &mut Vec<Vec<usize>>) {
        let n = cur.len();
        if i == n {
            if n > 1 && cur[n - 1] == cur[0] {
                return;
            }
            for r in 1..n {
                for k in 0..n {
                    let a = cur[k];
                    let b = cur[(k + r) % n];
                    if b < a {
                        return;
                    }
                    if b > a {
                        break;
                    }
                }
            }
            out.push(cur.clone());
            return;
        }
        let lo = if i == 0 { 0 } else { cur[0] };
        for v in lo..npts {
            if i > 0 && v == cur[i - 1] {
                continue;
            }
            cur[i] = v;
            rec(cur, i + 1, npts, out);
        }
    }
    let mut out = vec![];
    rec(&mut vec![0usize; n], 0, npts, &mut out);
    out
}

pub fn cross(xs: &[f64], ys: &[f64]) -> Vec<(f64, f64)> {
    let mut v = vec![];
    for y in ys {
        for x in xs {
            v.push((*x, *y));
        }
    }
    v
}

pub fn grid(w: usize, h: usize) -> Vec<(f64, f64)> {
    let xs: Vec<f64> = (0..w).map(|x| x as f64).collect();
    let ys: Vec<f64> = (0..h).map(|x| x as f64).collect();
    cross(&xs, &ys)
}

pub fn polys(n: usize, pts: &[(f64, f64)]) -> Vec<Path> {
    if n == 0 {
        return vec![Path::default()];
    }
    polygons(n, pts.len())
        .iter()
        .map(|ix| Path::from_polys(&[ix.iter().map(|i| pts[*i]).collect::<Vec<_>>()]))
        .collect()
}

/// All shapes bounded by one Bézier curve of the given degree and its chord.
pub fn curves(deg: usize, pts: &[(f64, f64)]) -> Vec<Path> {
    use kurbo::PathEl::*;
    let n = pts.len();
    let mut out = vec![];
    for i in 0..n.pow(deg as u32 + 1) {
        let mut d = Dec(i as u64);
        let ix: Vec<usize> = (0..=deg).map(|_| d.take(n as u64) as usize).collect();
        let p: Vec<Point> = ix.iter().map(|i| pts[*i].into()).collect();
        if deg == 2 && (ix[0] == ix[1] || ix[1] == ix[2] || ix[0] == ix[2]) {
            continue;
        }
        let mut v = vec![MoveTo(p[0])];
        v.push(if deg == 2 { QuadTo(p[1], p[2]) } else { CurveTo(p[1], p[2], p[3]) });
        v.push(ClosePath);
        out.push(Path(v));
    }
    out
}

/// Every subset of a w x h board of unit cells, each cell its own square. `spin` makes every other
/// cell go round the other way.
pub fn bitmap(w: usize, h: usize, off: (f64, f64), spin: bool, bits: u64) -> Path {
    let mut p = vec![];
    for y in 0..h {
        for x in 0..w {
            let i = y * w + x;
            if bits >> i & 1 == 1 {
                let (x0, y0) = (x as f64 + off.0, y as f64 + off.1);
                let mut q = vec![(x0, y0), (x0 + 1.0, y0), (x0 + 1.0, y0 + 1.0), (x0, y0 + 1.0)];
                if spin && (x + y) % 2 == 1 {
                    q.reverse();
                }
                p.push(q);
            }
        }
    }
    Path::from_polys(&p)
}

pub fn ngon(n: usize, step: usize, c: (f64, f64), r: f64, phase: f64) -> Vec<(f64, f64)> {
    (0..n)
        .map(|i| {
            let th = phase + std::f64::consts::TAU * ((i * step) % n) as f64 / n as f64;
            (c.0 + r * th.cos(), c.1 + r * th.sin())
        })
        .collect()
}

/// A closed comb: `n` teeth side by side.
pub fn comb(n: usize, x0: f64, y0: f64, pitch: f64, height: f64, lean: f64) -> Vec<(f64, f64)> {
    let mut v = vec![];
    for i in 0..n {
        let x = x0 + i as f64 * pitch;
        v.push((x, y0));
        v.push((x + pitch * 0.5 + lean, y0 + height));
    }
    v.push((x0 + n as f64 * pitch, y0));
    v.push((x0 + n as f64 * pitch, y0 - 1.0));
    v.push((x0, y0 - 1.0));
    v
}

/// A named coordinate transformation.
pub fn transform(name: &str, p: Point) -> Point {
    let rot = |p: Point, th: f64| Point::new(p.x * th.cos() - p.y * th.sin(), p.x * th.sin() + p.y * th.cos());
    match name {
        "id" => p,
        "big3" => Point::new(p.x * 1e3, p.y * 1e3),
        "big" => Point::new(p.x * 1e6, p.y * 1e6),
        "huge" => Point::new(p.x * 1e12 + 3e11, p.y * 1e12 - 7e11),
        "tiny" => Point::new(p.x * 1e-2, p.y * 1e-2),
        "off" => Point::new(p.x + 1000.37, p.y - 512.11),
        "far" => Point::new(p.x + 1234567.891, p.y + 7654321.123),
        "neg" => Point::new(p.x - 1.0, p.y - 1.0),
        "rot" => rot(p, 0.3),
        "rot2" => {
            let q = rot(p, 2.1);
            Point::new(q.x * 7.3 + 0.123, q.y * 7.3 - 3.21)
        }
        "shear" => Point::new(p.x + 0.377 * p.y, p.y + 0.1 * p.x),
        "flat" => Point::new(p.x * 10.0, p.y * 1e-3 + p.x * 1e-4),
        "thin" => Point::new(p.x * 1e-3 + p.y * 1e-4, p.y * 10.0),
        "skew" => Point::new(p.x + 1e-5 * p.y, p.y + 1e-5 * p.x),
        n if n.starts_with("x+") => Point::new(p.x + n[2..].parse::<f64>().unwrap(), p.y),
        n if n.starts_with("y+") => Point::new(p.x, p.y + n[2..].parse::<f64>().unwrap()),
        n if n.starts_with("by") => {
            let k: f64 = n[2..].parse().unwrap();
            Point::new(k * p.x, k * p.y)
        }
        _ => panic!("no transformation {name}"),
    }
}

pub fn parse_pts(s: &str) -> Vec<(f64, f64)> {
    if let Some(t) = s.strip_prefix('g').filter(|t| !t.starts_with('e')) {
        let w: usize = t[0..1].parse().unwrap();
        let h: usize = t[1..2].parse().unwrap();
        return grid(w, h);
    }
    if let Some(t) = s.strip_prefix("near4@") {
        let d: f64 = t.parse().unwrap();
        let v = [0.0, d, 1.0, 1.0 + d];
        return cross(&v, &v);
    }
    if let Some(t) = s.strip_prefix("near@") {
        let d: f64 = t.parse().unwrap();
        let v = [0.0, d, 1.0];
        return cross(&v, &v);
    }
    // Near-coincident in y only: nearly horizontal edges.
    if let Some(t) = s.strip_prefix("nearh@") {
        let d: f64 = t.parse().unwrap();
        return cross(&[0.0, 1.0, 2.0], &[0.0, d, 2.0 * d]);
    }
    // Near-coincident in x only: nearly vertical edges.
    if let Some(t) = s.strip_prefix("nearv@") {
        let d: f64 = t.parse().unwrap();
        return cross(&[0.0, d, 2.0 * d], &[0.0, 1.0, 2.0]);
    }
    // Points in general position.
    if let Some(t) = s.strip_prefix("gen") {
        let n: usize = t.parse().unwrap();
        let all = [
            (0.0, 0.13),
            (3.1, 0.71),
            (1.4, 2.9),
            (2.3, 1.7),
            (0.6, 1.1),
            (2.8, 3.3),
            (1.9, 0.2),
            (0.3, 2.5),
            (3.4, 2.2),
            (1.1, 1.6),
        ];
        return all[..n].to_vec();
    }
    panic!("no points {s}")
}

/// Shapes: `3` all triangles, `4`, ... ; `0` nothing; `q`, `c` curve and chord; `3+3` all pairs of
/// triangles as two contours; `sq` one square.
fn parse_shapes(s: &str, pts: &[(f64, f64)]) -> Vec<Path> {
    if let Some((l, r)) = s.split_once('+') {
        let (l, r2) = (parse_shapes(l, pts), parse_shapes(r, pts));
        let same = l.len() == r2.len();
        let mut out = vec![];
        for (i, x) in l.iter().enumerate() {
            for (j, y) in r2.iter().enumerate() {
                if same && j < i {
                    continue;
                }
                let mut z = x.clone();
                z.push(y);
                out.push(z);
            }
        }
        return out;
    }
    match s {
        "q" => curves(2, pts),
        "c" => curves(3, pts),
        // Two quadratics back to back; a cubic and two lines; a quadratic and two lines; a cubic and
        // a quadratic.
        "qq" | "cll" | "qll" | "cq" => mixed(s, pts),
        // Discs: 4 or 2 cubics.
        "disc" => discs(),
        _ => polys(s.parse().unwrap(), pts),
    }
}

/// Closed shapes made of several kinds of element, over every choice of points.
pub fn mixed(kind: &str, pts: &[(f64, f64)]) -> Vec<Path> {
    use kurbo::PathEl::*;
    let n = pts.len();
    let (k, ends): (usize, &[usize]) = match kind {
        "qq" => (4, &[0, 2]),
        "cll" => (5, &[0, 3, 4]),
        "qll" => (4, &[0, 2, 3]),
        _ => (5, &[0, 3]),
    };
    let mut out = vec![];
    for i in 0..n.pow(k as u32) {
        let mut d = Dec(i as u64);
        let ix: Vec<usize> = (0..k).map(|_| d.take(n as u64) as usize).collect();
        // Distinct on-curve points.
        if (0..ends.len()).any(|a| (0..a).any(|b| ix[ends[a]] == ix[ends[b]])) {
            continue;
        }
        let p: Vec<Point> = ix.iter().map(|i| pts[*i].into()).collect();
        let mut v = vec![MoveTo(p[0])];
        match kind {
            "qq" => v.extend([QuadTo(p[1], p[2]), QuadTo(p[3], p[0])]),
            "cll" => v.extend([CurveTo(p[1], p[2], p[3]), LineTo(p[4])]),
            "qll" => v.extend([QuadTo(p[1], p[2]), LineTo(p[3])]),
            _ => v.extend([CurveTo(p[1], p[2], p[3]), QuadTo(p[4], p[0])]),
        }
        v.push(ClosePath);
        out.push(Path(v));
    }
    out
}

/// Ellipses, at several places, sizes and slants, in both directions.
pub fn discs() -> Vec<Path> {
    use kurbo::PathEl::*;
    let mut out = vec![];
    for (cx, cy) in [(0.0, 0.0), (0.5, 0.0), (1.0, 0.0), (0.25, 0.75), (0.0, 2.0), (2.0, 0.0)] {
        for (rx, ry) in [(1.0, 1.0), (1.5, 0.5), (0.5, 1.0)] {
            for th in [0.0f64, 0.5] {
                for dir in [1.0, -1.0] {
                    let k = 0.5522847498;
                    let pt = |x: f64, y: f64| -> Point {
                        let (x, y) = (x * rx, y * ry * dir);
                        Point::new(cx + x * th.cos() - y * th.sin(), cy + x * th.sin() + y * th.cos())
                    };
                    out.push(Path(vec![
                        MoveTo(pt(1.0, 0.0)),
                        CurveTo(pt(1.0, k), pt(k, 1.0), pt(0.0, 1.0)),
                        CurveTo(pt(-k, 1.0), pt(-1.0, k), pt(-1.0, 0.0)),
                        CurveTo(pt(-1.0, -k), pt(-k, -1.0), pt(0.0, -1.0)),
                        CurveTo(pt(k, -1.0), pt(1.0, -k), pt(1.0, 0.0)),
                        ClosePath,
                    ]));
                }
            }
        }
    }
    out
}

const MANY: u64 = 12;

/// A figure of `n` pieces.
pub fn many(kind: u64, n: usize) -> Path {
    use kurbo::PathEl::*;
    let sq = |x: f64, y: f64, r: f64| vec![(x - r, y - r), (x + r, y - r), (x + r, y + r), (x - r, y + r)];
    let rev = |mut v: Vec<(f64, f64)>| {
        v.reverse();
        v
    };
    let round = |x: f64| (x * 4096.0).round() / 4096.0;
    let it = || (0..n).map(|k| (k, k as f64));
    let polys: Vec<Vec<(f64, f64)>> = match kind {
        // Rings in rings, in one or alternating directions.
        0 => it().map(|(_, k)| sq(0.0, 0.0, k + 1.0)).collect(),
        1 => it().map(|(i, k)| if i % 2 == 0 { sq(0.0, 0.0, k + 1.0) } else { rev(sq(0.0, 0.0, k + 1.0)) }).collect(),
        // Rows and columns of squares.
        2 => it().map(|(_, k)| sq(2.0 * k, 0.0, 0.75)).collect(),
        3 => it().map(|(i, k)| sq(0.25 * (i % 3) as f64, 2.0 * k, 0.75)).collect(),
        // The same triangle again and again.
        4 => it().map(|_| vec![(0.0, 0.0), (3.0, 1.0), (1.0, 4.0)]).collect(),
        // Triangles around one point.
        5 => it()
            .map(|(_, k)| {
                let (t0, t1) = (std::f64::consts::TAU * k / n as f64, std::f64::consts::TAU * (k + 0.5) / n as f64);
                vec![(0.0, 0.0), (round(4.0 * t0.cos()), round(4.0 * t0.sin())), (round(4.0 * t1.cos()), round(4.0 * t1.sin()))]
            })
            .collect(),
        // A square with many holes.
        6 => std::iter::once(vec![(-2.0, -2.0), (2.0 * n as f64, -2.0), (2.0 * n as f64, 2.0), (-2.0, 2.0)]).chain(it().map(|(_, k)| rev(sq(2.0 * k, 0.0, 0.75)))).collect(),
        // Bars across each other.
        7 => {
            let m = (n as f64).sqrt().ceil() as usize;
            (0..m).flat_map(|k| [vec![(k as f64, -1.0), (k as f64 + 0.5, -1.0), (k as f64 + 0.5, m as f64), (k as f64, m as f64)], vec![(-1.0, k as f64), (m as f64, k as f64), (m as f64, k as f64 + 0.5), (-1.0, k as f64 + 0.5)]]).collect()
        }
        8 => vec![ngon(n + 2, 1, (0.0, 0.0), 3.0, 0.1)],
        // Squares that touch at their corners.
        9 => it().map(|(i, k)| if i % 3 == 2 { rev(sq(k, k, 0.5)) } else { sq(k, k, 0.5) }).collect(),
        // A staircase.
        10 => {
            let mut v = vec![(0.0, n as f64)];
            for k in 0..n {
                v.push((k as f64, k as f64));
                v.push((k as f64 + 1.0, k as f64));
            }
            v.push((n as f64, n as f64));
            vec![v]
        }
        // Overlapping lenses.
        _ => {
            let mut v = vec![];
            for (_, k) in it() {
                v.extend([
                    MoveTo(Point::new(k, 0.0)),
                    QuadTo(Point::new(k + 0.75, 1.0), Point::new(k + 1.5, 0.1)),
                    QuadTo(Point::new(k + 0.75, -1.0), Point::new(k, 0.0)),
                    ClosePath,
                ]);
            }
            return Path(v);
        }
    };
    Path::from_polys(&polys)
}

pub fn eps_of(s: &str) -> Option<f64> {
    if s == "auto" {
        None
    } else {
        Some(s.parse().unwrap())
    }
}

fn bin(name: &str, n: u64, check: CheckFn, rule: &str, gen: impl Fn(u64) -> Option<Case> + Sync + Send + 'static) -> Family {
    Family { name: name.into(), n, gen: Box::new(gen), check, rule: rule.into() }
}

/// A family of tuples of shapes, from its specification:
///
/// - `mm:PTS:AxBxC:EPS[:TRANSFORM]` every tuple of shapes over a point set
/// - `mb:EPS[:TRANSFORM]` every triple of 2x2 bitmaps, the second and third one offset
pub fn multi(name: &str, check: CheckFn) -> Family {
    let parts: Vec<&str> = name.split(':').collect();
    match parts[0] {
        "mm" => {
            let pts = parse_pts(parts[1]);
            let ps: Vec<Vec<Path>> = parts[2].split('x').map(|s| parse_shapes(s, &pts)).collect();
            let eps = eps_of(parts[3]).unwrap();
            let tr = parts.get(4).copied().unwrap_or("id").to_string();
            let n = ps.iter().map(|p| p.len() as u64).product();
            bin(name, n, check, "every tuple of closed shapes over the point set, up to rotation of the starting vertex", move |i| {
                let mut d = Dec(i);
                let paths = ps.iter().rev().map(|p| p[d.take(p.len() as u64) as usize].map(|p| transform(&tr, p))).collect();
                Some(Case::Multi { paths, eps })
            })
        }
        "mb" => {
            let eps = eps_of(parts[1]).unwrap();
            let tr = parts.get(2).copied().unwrap_or("id").to_string();
            bin(name, 16 * 16 * 16 * 4, check, "every triple of sets of cells of 2x2 boards, the second and third board offset in four ways", move |i| {
                let mut d = Dec(i);
                let offs = [[(0.0, 0.0), (0.0, 0.0)], [(1.0, 0.0), (0.0, 1.0)], [(0.5, 0.5), (1.0, 1.0)], [(0.0, 0.5), (0.5, 0.0)]][d.take(4) as usize];
                let paths = vec![
                    bitmap(2, 2, (0.0, 0.0), false, d.take(16)).map(|p| transform(&tr, p)),
                    bitmap(2, 2, offs[0], true, d.take(16)).map(|p| transform(&tr, p)),
                    bitmap(2, 2, offs[1], false, d.take(16)).map(|p| transform(&tr, p)),
                ];
                Some(Case::Multi { paths, eps })
            })
        }
        _ => panic!("no family {name}"),
    }
}

/// A family from its specification:
///
/// - `pp:PTS:AxB:EPS[:TRANSFORM]` every pair of shapes over a point set
/// - `bm:WxH:WxH:OX,OY:EPS[:TRANSFORM]` every pair of bitmaps; the second one offset and spinning
/// - `nest:D:EPS[:TRANSFORM]` D concentric squares, every assignment to operand and direction
/// - `comb:EPS[:TRANSFORM]` wide combs against combs and triangles
/// - `star:EPS[:TRANSFORM]` star polygons against star polygons
/// - `strip:N:EPS` every arrangement of `N` overlapping parallelograms
pub fn family(name: &str, check: CheckFn) -> Family {
    let parts: Vec<&str> = name.split(':').collect();
    match parts[0] {
        "pp" => {
            let pts = parse_pts(parts[1]);
            let (sa, sb) = parts[2].split_once('x').unwrap();
            let eps = eps_of(parts[3]);
            let tr = parts.get(4).copied().unwrap_or("id").to_string();
            let pa = parse_shapes(sa, &pts);
            let pb = parse_shapes(sb, &pts);
            let (na, nb) = (pa.len() as u64, pb.len() as u64);
            bin(name, na * nb, check, "every pair of closed shapes over the point set, up to rotation of the starting vertex", move |i| {
                Some(Case::Bin {
                    a: pa[(i / nb) as usize].map(|p| transform(&tr, p)),
                    b: pb[(i % nb) as usize].map(|p| transform(&tr, p)),
                    eps,
                })
            })
        }
        "bm" => {
            let dims = |s: &str| {
                let (a, b) = s.split_once('x').unwrap();
                (a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap())
            };
            let (w, h) = dims(parts[1]);
            let (w2, h2) = dims(parts[2]);
            let (ox, oy) = parts[3].split_once(',').unwrap();
            let off = (ox.parse().unwrap(), oy.parse().unwrap());
            let eps = eps_of(parts[4]);
            let tr = parts.get(5).copied().unwrap_or("id").to_string();
            let nb = 1u64 << (w2 * h2);
            bin(name, (1u64 << (w * h)) * nb, check, "every pair of sets of board cells, each cell a contour of its own", move |i| {
                Some(Case::Bin {
                    a: bitmap(w, h, (0.0, 0.0), false, i / nb).map(|p| transform(&tr, p)),
                    b: bitmap(w2, h2, off, true, i % nb).map(|p| transform(&tr, p)),
                    eps,
                })
            })
        }
        "nest" => {
            let d: usize = parts[1].parse().unwrap();
            let eps = eps_of(parts[2]);
            let tr = parts.get(3).copied().unwrap_or("id").to_string();
            bin(name, 4u64.pow(d as u32), check, "concentric quadrilaterals: every assignment of operand and direction", move |i| {
                let mut dd = Dec(i);
                let mut ps = [vec![], vec![]];
                for k in 0..d {
                    let c = dd.take(4);
                    let r = (d - k) as f64;
                    // Alternate squares and diamonds that touch the next square out.
                    let mut q = vec![(-r, -r), (r, -r), (r, r), (-r, r)];
                    if k % 3 == 1 {
                        q = vec![(0.0, -r - 1.0), (r + 0.5, 0.0), (0.0, r + 1.0), (-r - 0.25, 0.0)];
                    }
                    if c & 1 == 1 {
                        q.reverse();
                    }
                    ps[(c >> 1) as usize].push(q);
                }
                Some(Case::Bin {
                    a: Path::from_polys(&ps[0]).map(|p| transform(&tr, p)),
                    b: Path::from_polys(&ps[1]).map(|p| transform(&tr, p)),
                    eps,
                })
            })
        }
        "comb" => {
            let eps = eps_of(parts[1]);
            let tr = parts.get(2).copied().unwrap_or("id").to_string();
            let teeth = [1usize, 2, 5, 31, 63, 64, 65, 90, 127, 128, 129, 140, 200];
            let others = 8u64;
            bin(name, teeth.len() as u64 * others * 2, check, "combs of 1 to 200 teeth against 8 kinds of second operand, two leans", move |i| {
                let mut d = Dec(i);
                let k = d.take(others);
                let lean = [0.0, 0.3][d.take(2) as usize];
                let n = teeth[d.take(teeth.len() as u64) as usize];
                let a = comb(n, 0.0, 0.0, 1.0, 4.0, lean);
                let w = n as f64;
                let b = match k {
                    0 => vec![],
                    1 => vec![vec![(-0.5, 1.0), (w + 0.5, 1.25), (w + 0.25, 3.0), (0.25, 2.0)]],
                    2 => vec![comb(n, 0.25, 2.0, 1.0, -3.0, 0.1)],
                    3 => vec![comb((n / 2).max(1), 0.0, 0.5, 2.0, 3.0, -0.4)],
                    4 => (0..n.min(40)).map(|j| vec![(j as f64 * 2.0, 0.5), (j as f64 * 2.0 + 0.7, 3.7), (j as f64 * 2.0 - 0.6, 2.9)]).collect(),
                    5 => vec![vec![(w * 0.5, -2.0), (w * 0.5 + 0.3, 6.0), (w * 0.5 - 0.4, 5.0)]],
                    6 => vec![comb(n, 0.0, 0.0, 1.0, 4.0, lean)],
                    _ => vec![comb(n, 0.0, 3.0, 1.0, -5.0, lean), vec![(-1.0, -3.0), (w + 1.0, -3.0), (w + 1.0, 7.0), (-1.0, 7.0)]],
                };
                Some(Case::Bin {
                    a: Path::from_polys(&[a]).map(|p| transform(&tr, p)),
                    b: Path::from_polys(&b).map(|p| transform(&tr, p)),
                    eps,
                })
            })
        }
        // Many pieces of one kind.
        "many" => {
            let eps = eps_of(parts[1]);
            let most: usize = parts[2].parse().unwrap();
            let tr = parts.get(3).copied().unwrap_or("id").to_string();
            let sizes: Vec<usize> = (1..=10).chain([12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 180, 255, 256, 257, 300]).filter(|n| *n <= most).collect();
            let ns = sizes.len() as u64;
            bin(name, MANY * 3 * ns, check, "figures of many pieces: 12 kinds, three second operands, sizes up to a limit", move |i| {
                let mut d = Dec(i);
                let other = d.take(3);
                let kind = d.take(MANY);
                let n = sizes[d.take(ns) as usize];
                // Many coincident edges that cross as many others take too long.
                if kind == 4 && n > 65 {
                    return None;
                }
                let a = many(kind, n);
                let b = match other {
                    0 => Path::default(),
                    1 => {
                        let w = n as f64;
                        Path::from_polys(&[vec![(-w - 3.0, -w - 2.0), (w * 0.3 + 0.1, -w - 2.5), (w * 0.6 + 0.2, w * 2.0 + 3.0), (-w * 0.1 - 1.7, w + 2.25)]])
                    }
                    _ => a.map(|p| Point::new(p.x + 0.5, p.y + 0.25)),
                };
                Some(Case::Bin { a: a.map(|p| transform(&tr, p)), b: b.map(|p| transform(&tr, p)), eps })
            })
        }
        "star" => {
            let eps = eps_of(parts[1]);
            let tr = parts.get(2).copied().unwrap_or("id").to_string();
            let mut list = vec![];
            for n in 3..=11usize {
                for k in 1..=n / 2 {
                    list.push((n, k));
                }
            }
            let m = list.len() as u64;
            bin(name, m * m * 6, check, "star polygons {n/k}, 3 <= n <= 11, in six relative positions", move |i| {
                let mut d = Dec(i);
                let (n, k) = list[d.take(m) as usize];
                let (n2, k2) = list[d.take(m) as usize];
                let (c, ph) = [((0.0, 0.0), 0.0), ((0.0, 0.0), 0.35), ((0.5, 0.25), 0.0), ((1.0, 0.0), 0.2), ((0.0, 2.0), 0.1), ((0.3, -0.3), std::f64::consts::PI)][d.take(6) as usize];
                Some(Case::Bin {
                    a: Path::from_polys(&[ngon(n, k, (0.0, 0.0), 2.0, 0.1)]).map(|p| transform(&tr, p)),
                    b: Path::from_polys(&[ngon(n2, k2, c, 2.0, 0.1 + ph)]).map(|p| transform(&tr, p)),
                    eps,
                })
            })
        }
        "strip" => {
            let n: usize = parts[1].parse().unwrap();
            let eps = eps_of(parts[2]);
            let tr = parts.get(3).copied().unwrap_or("id").to_string();
            // Each strip: one of 6 parallelograms, one of two operands.
            bin(name, 12u64.pow(n as u32), check, "every list of overlapping slanted strips", move |i| {
                let mut d = Dec(i);
                let mut ps = [vec![], vec![]];
                for j in 0..n {
                    let s = d.take(6);
                    let o = d.take(2);
                    let x = j as f64;
                    let (x0, x1, y0, y1) = match s {
                        0 => (x, x, 0.0, 4.0),
                        1 => (x, x + 2.0, 0.0, 4.0),
                        2 => (x + 2.0, x, 0.0, 4.0),
                        3 => (x, x + 1.0, 1.0, 3.0),
                        4 => (x + 1.0, x, 1.0, 4.0),
                        _ => (0.0, x + 1.0, 0.0, 2.0),
                    };
                    ps[o as usize].push(vec![(x0, y0), (x0 + 1.0, y0), (x1 + 1.0, y1), (x1, y1)]);
                }
                Some(Case::Bin {
                    a: Path::from_polys(&ps[0]).map(|p| transform(&tr, p)),
                    b: Path::from_polys(&ps[1]).map(|p| transform(&tr, p)),
                    eps,
                })
            })
        }
        _ => panic!("no family {name}"),
    }
}

/// A fixed list of cases.
pub fn listed(name: &str, cases: Vec<Case>, check: CheckFn) -> Family {
    let n = cases.len() as u64;
    Family { name: name.into(), n, gen: Box::new(move |i| Some(cases[i as usize].clone())), check, rule: "a fixed list of inputs".into() }
}

pub fn case(a: &str, b: &str, eps: Option<f64>) -> Case {
    Case::Bin { a: a.parse().unwrap(), b: b.parse().unwrap(), eps }
}

/// More families, for exploring by hand: names in MC_EXTRA, separated by commas.
pub fn extra(check: CheckFn) -> Vec<Family> {
    std::env::var("MC_EXTRA").map(|s| s.split(',').map(|s| family(s, check)).collect()).unwrap_or_default()
}
