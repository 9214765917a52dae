//! The numeric layer: root finding, quadratic estimates, comparing two monotone curves, and the
//! algebra of comparison results.

mod algebra;
mod kernel;

use kurbo::{CubicBez, Point};
use linesweeper::curve::{intersect_cubics, CurveOrder, Order};

use mc::case::Case;
use mc::engine::{cli, CheckFn, Family, Prop, Seen};
use mc::shapes::Dec;

/// A y-monotone cubic with everything we need to find its x at a height, without the library.
pub struct Mono {
    pub c: CubicBez,
    /// Parameters where dx/dt vanishes.
    ext: Vec<f64>,
}

fn lerp(a: f64, b: f64, t: f64) -> f64 {
    a + (b - a) * t
}

/// De Casteljau: never leaves the hull of the coefficients.
pub fn bern(a: [f64; 4], t: f64) -> f64 {
    let (p, q, r) = (lerp(a[0], a[1], t), lerp(a[1], a[2], t), lerp(a[2], a[3], t));
    lerp(lerp(p, q, t), lerp(q, r, t), t)
}

impl Mono {
    pub fn new(c: CubicBez) -> Mono {
        let (a, b, d) = (c.p1.x - c.p0.x, c.p2.x - c.p1.x, c.p3.x - c.p2.x);
        // a (1-t)^2 + 2 b t (1-t) + d t^2
        let (q2, q1, q0) = (a - 2.0 * b + d, 2.0 * (b - a), a);
        let mut ext = vec![];
        let disc = q1 * q1 - 4.0 * q2 * q0;
        if q2.abs() < 1e-12 {
            if q1 != 0.0 {
                ext.push(-q0 / q1);
            }
        } else if disc >= 0.0 {
            let z = -0.5 * (q1 + disc.sqrt().copysign(q1));
            ext.push(z / q2);
            if z != 0.0 {
                ext.push(q0 / z);
            }
        }
        ext.retain(|t| *t > 0.0 && *t < 1.0);
        Mono { c, ext }
    }
    pub fn ys(&self) -> [f64; 4] {
        [self.c.p0.y, self.c.p1.y, self.c.p2.y, self.c.p3.y]
    }
    pub fn xs(&self) -> [f64; 4] {
        [self.c.p0.x, self.c.p1.x, self.c.p2.x, self.c.p3.x]
    }
    /// The parameter at a height (clamped to the curve).
    pub fn t_at(&self, y: f64) -> f64 {
        let a = self.ys();
        if y <= a[0] {
            return 0.0;
        }
        if y >= a[3] {
            return 1.0;
        }
        // Newton's method, kept inside a bracket that it must at least halve every second step.
        let d = [a[1] - a[0], a[2] - a[1], a[3] - a[2]];
        let tiny = 1e-15 * a[0].abs().max(a[3].abs()).max(a[3] - a[0]);
        let (mut l, mut h) = (0.0, 1.0);
        let mut m = (y - a[0]) / (a[3] - a[0]);
        for k in 0..120 {
            let v = bern(a, m) - y;
            if v.abs() <= tiny {
                return m;
            }
            if v < 0.0 {
                l = m;
            } else {
                h = m;
            }
            if h - l <= 1e-16 {
                break;
            }
            let u = 1.0 - m;
            let slope = 3.0 * (d[0] * u * u + 2.0 * d[1] * u * m + d[2] * m * m);
            let n = m - v / slope;
            m = if k % 2 == 0 && n > l && n < h { n } else { 0.5 * (l + h) };
        }
        0.5 * (l + h)
    }
    /// The horizontal extent of the part with |height - y| <= s.
    pub fn extent(&self, y: f64, s: f64) -> (f64, f64) {
        let xs = self.xs();
        let (t0, t1) = (self.t_at(y - s), self.t_at(y + s));
        let (a, b) = (bern(xs, t0), bern(xs, t1));
        let mut r = (a.min(b), a.max(b));
        for t in &self.ext {
            if *t > t0 && *t < t1 {
                let x = bern(xs, *t);
                r = (r.0.min(x), r.1.max(x));
            }
        }
        r
    }
}

pub fn cubic(v: &[f64]) -> CubicBez {
    CubicBez::new(Point::new(v[0], v[1]), Point::new(v[2], v[3]), Point::new(v[4], v[5]), Point::new(v[6], v[7]))
}

pub fn coords(c: &CubicBez) -> [f64; 8] {
    [c.p0.x, c.p0.y, c.p1.x, c.p1.y, c.p2.x, c.p2.y, c.p3.x, c.p3.y]
}

pub fn entries(o: &CurveOrder) -> Vec<(f64, f64, Order)> {
    o.iter().collect()
}

/// What a comparison must look like, whatever the curves are.
pub fn well_formed(o: &CurveOrder, y0: f64, y1: f64) -> Result<(), String> {
    let e = entries(o);
    if e.is_empty() {
        return Err("empty comparison|".into());
    }
    if e[0].0 != y0 || e[e.len() - 1].1 != y1 {
        return Err(format!("the comparison does not cover the common heights| {} .. {} and not {y0} .. {y1}", e[0].0, e[e.len() - 1].1));
    }
    for w in e.windows(2) {
        if w[0].1 != w[1].0 {
            return Err(format!("the intervals do not join up| {} and {}", w[0].1, w[1].0));
        }
        if w[0].2 == w[1].2 || (w[0].2 != Order::Ish && w[1].2 != Order::Ish) {
            return Err(format!("the order changes without being close in between| at {}", w[0].1));
        }
    }
    for x in &e {
        if !(x.0 <= x.1) {
            return Err(format!("an interval runs backwards| {} .. {}", x.0, x.1));
        }
    }
    Ok(())
}

pub fn near_heights(e: &[(f64, f64, Order)]) -> Vec<f64> {
    let (a, b) = (e[0].0, e[e.len() - 1].1);
    let mut ys = vec![];
    for k in 0..=8 {
        ys.push(lerp(a, b, k as f64 / 8.0));
    }
    for (s, t, _) in e {
        for f in [0.0, 1e-3, 0.5, 0.999, 1.0] {
            ys.push(lerp(*s, *t, f));
        }
    }
    ys.retain(|y| *y >= a && *y <= b);
    ys.sort_by(|x, y| x.partial_cmp(y).unwrap());
    ys.dedup();
    ys
}

/// Case: tolerance, accuracy, 8 + 8 coordinates.
fn geometry(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Nums { v, .. } = case else { panic!("wrong kind of case") };
    let (tol, acc) = (v[0], v[1]);
    let (c0, c1) = (cubic(&v[2..10]), cubic(&v[10..18]));
    let o = intersect_cubics(c0, c1, tol, acc);
    o.check_invariants();
    let (y0, y1) = (c0.p0.y.max(c1.p0.y), c0.p3.y.min(c1.p3.y));
    well_formed(&o, y0, y1)?;
    let e = entries(&o);
    let big = v[2..].iter().fold(1.0f64, |a, b| a.max(b.abs()));
    let f = 1e-9 * big;
    let (m0, m1) = (Mono::new(c0), Mono::new(c1));
    let s = if y0 == y1 { f } else { 2.0 * (tol + acc) + f };
    let slopped = o.clone().with_y_slop(tol);
    slopped.check_invariants();
    well_formed(&slopped, y0, y1)?;
    let mut out = 0u64;
    for x in &e {
        out = out * 3 + x.2 as u64 + 1;
    }
    for y in near_heights(&e) {
        seen.states += 1;
        seen.validated += 1;
        let ext = |s: f64| (m0.extent(y, s), m1.extent(y, s));
        // Every interval that has this height speaks about it.
        for (u, w, ord) in e.iter().filter(|x| x.0 <= y && y <= x.1) {
            let (a, b) = ext(if *ord == Order::Ish { s } else { acc + f });
            let bad = match ord {
                Order::Left => a.0 > b.1 - (tol - acc) + f,
                Order::Right => b.0 > a.1 - (tol - acc) + f,
                Order::Ish => a.0 > b.1 + tol + acc + f || b.0 > a.1 + tol + acc + f,
            };
            if bad {
                return Err(format!("the order does not fit the curves| at {y}: {ord:?} in {u} .. {w}, extents {a:?} and {b:?}"));
            }
        }
        for (u, w, ord) in slopped.iter().filter(|x| x.2 != Order::Ish && x.0 <= y && y <= x.1) {
            let (a, b) = ext(f);
            let bad = if ord == Order::Left { a.0 > b.1 + f } else { b.0 > a.1 + f };
            if bad {
                return Err(format!("with vertical slop, the order is the wrong way round| at {y}: {ord:?} in {u} .. {w}, extents {a:?} and {b:?}"));
            }
        }
    }
    seen.transitions = e.len() as u64;
    seen.nontrivial = e.len() > 1;
    seen.outcome = out;
    Ok(())
}

/// Every cubic from a list of x values and a list of y patterns.
pub fn lattice(xs: &[f64], yp: &[[f64; 4]]) -> Vec<CubicBez> {
    let mut out = vec![];
    let n = xs.len() as u64;
    for y in yp {
        for i in 0..n.pow(4) {
            let mut d = Dec(i);
            let mut x = || xs[d.take(n) as usize];
            let (a, b, c, e) = (x(), x(), x(), x());
            out.push(CubicBez::new((a, y[0]), (b, y[1]), (c, y[2]), (e, y[3])));
        }
    }
    out
}

/// y patterns: ends, and both inner heights from a list of fractions.
pub fn patterns(y0: f64, y1: f64, fr: &[f64]) -> Vec<[f64; 4]> {
    let mut out = vec![];
    for a in fr {
        for b in fr {
            let at = |f: f64| if f == 1.0 { y1 } else { y0 + (y1 - y0) * f };
            out.push([y0, at(*a), at(*b), y1]);
        }
    }
    out
}

fn nums(name: String, n: u64, check: CheckFn, rule: &str, gen: impl Fn(u64) -> Vec<f64> + Send + Sync + 'static) -> Family {
    Family {
        name: name.clone(),
        n,
        gen: Box::new(move |i| Some(Case::Nums { what: "tolerance, accuracy, two cubics".into(), v: gen(i) })),
        check,
        rule: rule.into(),
    }
}

fn pair(tol: f64, acc: f64, a: &CubicBez, b: &CubicBez) -> Vec<f64> {
    let mut v = vec![tol, acc];
    v.extend(coords(a));
    v.extend(coords(b));
    v
}

/// `pairs:XS:FR:XS:Y0:Y1:FR:TOL[:KX,KY,OX,OY]`: every cubic with x in XS and heights 0..2 against every
/// cubic with heights Y0..Y1. `near:XS:FR:DELTA:TOL`: every cubic against itself moved, each
/// coordinate of it separately, by -DELTA, 0 or DELTA.
pub fn curve_family(name: &str, check: CheckFn) -> Family {
    let p: Vec<String> = name.split(':').map(String::from).collect();
    let list = |s: &str| -> Vec<f64> { s.split(',').map(|x| x.parse().unwrap()).collect() };
    let tols = |s: &str| -> (f64, f64) {
        match s.split_once('/') {
            Some((a, b)) => (a.parse().unwrap(), b.parse().unwrap()),
            None => {
                let t: f64 = s.parse().unwrap();
                (t, t / 2.0)
            }
        }
    };
    match p[0].as_str() {
        "pairs" => {
            let a = lattice(&list(&p[1]), &patterns(0.0, 2.0, &list(&p[2])));
            let b = lattice(&list(&p[3]), &patterns(p[4].parse().unwrap(), p[5].parse().unwrap(), &list(&p[6])));
            let (tol, acc) = tols(&p[7]);
            let k: Vec<f64> = p.get(8).map_or(vec![1.0, 1.0, 0.0, 0.0], |s| list(s));
            let n = a.len() as u64;
            nums(name.into(), n * b.len() as u64, check, "every pair of monotone cubics of the two lattices", move |i| {
                let mut v = pair(tol, acc, &a[(i % n) as usize], &b[(i / n) as usize]);
                v[2..].iter_mut().enumerate().for_each(|(i, x)| *x = *x * k[i % 2] + k[2 + i % 2]);
                v
            })
        }
        "near" => {
            let a = lattice(&list(&p[1]), &patterns(0.0, 2.0, &list(&p[2])));
            let d: f64 = p[3].parse().unwrap();
            let (tol, acc) = tols(&p[4]);
            let n = a.len() as u64;
            nums(name.into(), n * 3u64.pow(6), check, "every monotone cubic against itself with its end points moved horizontally and its inner points moved, each coordinate by -1, 0 or 1 times the distance", move |i| {
                let c = a[(i % n) as usize];
                let mut e = Dec(i / n);
                let mut s = || (e.take(3) as f64 - 1.0) * d;
                let mut b = c;
                b.p0.x += s();
                b.p1.x += s();
                b.p1.y = (b.p1.y + s()).clamp(0.0, 2.0);
                b.p2.x += s();
                b.p2.y = (b.p2.y + s()).clamp(0.0, 2.0);
                b.p3.x += s();
                pair(tol, acc, &c, &b)
            })
        }
        _ => panic!("no family {name}"),
    }
}

/// `triples:XS:FR:TOL:KX,KY`: every three cubics of a lattice, the second and third with other ends.
fn triple_family(name: &str, check: CheckFn) -> Family {
    let p: Vec<String> = name.split(':').map(String::from).collect();
    let list = |s: &str| -> Vec<f64> { s.split(',').map(|x| x.parse().unwrap()).collect() };
    let fr = list(&p[2]);
    let a = lattice(&list(&p[1]), &patterns(0.0, 2.0, &fr));
    let b = lattice(&list(&p[1]), &patterns(-0.5, 2.0, &fr));
    let c = lattice(&list(&p[1]), &patterns(0.5, 2.5, &fr));
    let tol: f64 = p[3].parse().unwrap();
    let k = list(&p[4]);
    let (n, m) = (a.len() as u64, b.len() as u64);
    nums(name.into(), n * m * c.len() as u64, check, "every three cubics of three lattices", move |i| {
        let mut v = pair(tol, tol / 2.0, &a[(i % n) as usize], &b[(i / n % m) as usize]);
        v.extend(coords(&c[(i / n / m) as usize]));
        v[2..].iter_mut().enumerate().for_each(|(i, x)| *x *= k[i % 2]);
        v
    })
}

fn extra(check: CheckFn) -> Vec<Family> {
    std::env::var("MC_EXTRA").map(|s| s.split(';').map(|s| curve_family(s, check)).collect()).unwrap_or_default()
}

fn main() {
    cli(vec![
        Prop {
            id: "C13",
            rule: "every pair of monotone cubics of a lattice; non-trivial: the order is not the same at all heights",
            families: |t| {
                let q = [
                    "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,1:0.1",
                    "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,1:1e-3",
                    "pairs:0,1,2:0,0.5,1:0,1,2:1:3:0,1:1e-3",
                    "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,1:1e-6:1,0.0001,0,0",
                    "pairs:0,1,2:0,0.5,1:0,1,2:-1:1.5:0,1:1e-6:1,1,1000,-3000",
                    "near:0,1,2:0,0.5:1.6e-3:1e-3",
                    "near:0,1,2:0,0.5:0.4e-3:1e-3",
                    "near:0,1,2:0,1:1e-6:1e-6",
                    "near:0,1,2:0,1:1.6e-3:1e-3/1e-5",
                    "near:0,1:0.5:2.5e-3:1e-3/1e-4",
                    "pairs:0,1,2:0,1:0,1,2:2:3:0,1:0.1",
                    "pairs:0,1,2:0,1:0,1,2:-1:0:0,1:1e-3",
                ];
                let mut v: Vec<Family> = q.iter().map(|s| curve_family(s, geometry)).collect();
                v.extend(extra(geometry));
                if t == "thorough" {
                    for s in [
                        "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,0.5,1:0.1",
                        "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,0.5,1:1e-3",
                        "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,0.5,1:1e-6",
                        "pairs:0,1,2:0,0.5,1:0,1,2:1:3:0,0.5,1:1e-3",
                        "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,1:1e-3:1,0.01,0,0",
                        "pairs:0,1,2:0,0.5,1:0,1,2:-1:1.5:0,1:1e-3:0.001,1,0,0",
                        "pairs:0,1,2,3:0,0.5,1:0,1,2,3:2:3:0:1e-3",
                        "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,0.5:1e-3/1e-5",
                        "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,0.5:1e-3/1e-3",
                        "pairs:0,1,2,3:0,0.25,0.5,0.75,1:0,1,2,3:0:2:0,0.5,1:1e-3",
                        "pairs:0,1,2,3:0,0.3,0.7,1:0,1,2,3:-1:1.7:0,0.4,1:1e-6",
                        "pairs:0,1,2,3:0,0.3,1:0,1,2,3:0:2:0,0.4,1:1e-6:1,0.01,0,0",
                        "pairs:-5,0,1,2:0,0.3,1:-5,0,1,2:0:2:0,0.4,1:1e-2:1,0.1,0,0",
                        "near:0,1,2:0,0.5,1:1e-3:1e-3",
                        "near:0,1,2:0,0.5,1:1e-6:1e-6",
                        "near:0,1,2:0,0.5,1:0.5:1e-3",
                        "near:0,1,2:0,0.5,1:1e-3:1e-6",
                        "near:0,1,2,3:0,0.25,0.5,1:1e-5:1e-6",
                        "near:0,1,2,3:0,0.25,0.5,1:0.1:1e-3",
                    ] {
                        v.push(curve_family(s, geometry));
                    }
                }
                v
            },
        },
        Prop {
            id: "C16",
            rule: "every cubic or quadratic of the lists; non-trivial: a curve that the estimate does not fit exactly, a quadratic that takes both signs",
            families: |t| {
                const F: [f64; 9] = [0.0, 1e-12, 1e-6, 0.3, 0.5, 0.8, 2.0 + 1e-6, 2.0 + 1e-12, 2.0];
                const G: [f64; 19] = [0.0, 1e-16, 1e-12, 1e-9, 1e-6, 1e-3, 0.1, 0.25, 1.0 / 3.0, 0.5, 2.0 / 3.0, 0.75, 0.9, 2.0 + 1e-3, 2.0 + 1e-6, 2.0 + 1e-9, 2.0 + 1e-12, 2.0 + 2e-16, 2.0];
                let mut v = vec![
                    kernel::signs_family(),
                    kernel::int_signs_family(12),
                    kernel::parab_family("a", &[0.0, 1.0, 2.0, 3.0], &[0.0, 1.0 / 3.0, 0.5, 2.0 / 3.0, 1.0]),
                    kernel::solve_family("a", &[0.0, 1.0, 3.0], &F),
                ];
                if t == "thorough" {
                    v.push(kernel::int_signs_family(60));
                    v.push(kernel::parab_family("b", &[0.0, 0.5, 1.0, 2.0, 3.0, 7.0], &[0.0, 1e-6, 0.1, 0.25, 1.0 / 3.0, 0.5, 2.0 / 3.0, 0.75, 0.9, 1.0 - 1e-6, 1.0]));
                    v.push(kernel::solve_family("b", &[0.0, 1.0, 3.0], &G));
                }
                v
            },
        },
        Prop {
            id: "C14",
            rule: "every pair or triple of monotone cubics of a lattice; non-trivial: some comparison is not the same at all heights",
            families: |t| {
                let q = [
                    "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,1:0.1",
                    "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,1:1e-3",
                    "near:0,1,2:0,0.5:0.1:0.1",
                    "pairs:0,1,2:0,0.5,1:0,1,2:-1:1.5:0,1:1e-6",
                ];
                let mut v: Vec<Family> = q.iter().map(|s| curve_family(s, algebra::orders)).collect();
                for s in ["triples:0,1:0,1:0.1:1,1", "triples:0,1:0,1:1e-3:1,0.02"] {
                    v.push(triple_family(s, algebra::cache));
                }
                v.extend(extra(algebra::orders));
                if t == "thorough" {
                    for s in [
                        "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,0.5,1:0.1",
                        "pairs:0,1,2:0,0.5,1:0,1,2:0:2:0,0.5,1:1e-2",
                        "pairs:0,1,2:0,0.5,1:0,1,2:-1:1.5:0,0.5,1:1e-6",
                        "pairs:0,1,2,3:0,0.25,0.5,0.75,1:0,1,2,3:0:2:0,0.5,1:0.05",
                        "near:0,1,2,3:0,0.25,0.5,1:0.1:0.1",
                        "near:0,1,2:0,0.25,0.5,1:0.3:0.1",
                    ] {
                        v.push(curve_family(s, algebra::orders));
                    }
                    for s in ["triples:0,1,2:0,1:0.05:1,1", "triples:0,1:0,0.5,1:1e-2:1,1", "triples:0,1:0,0.5,1:1e-6:1,1e-4"] {
                        v.push(triple_family(s, algebra::cache));
                    }
                }
                v
            },
        },
    ])
}
