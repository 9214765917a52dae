//! Root finding, restriction to a range of heights, quadratic estimates.

use kurbo::{CubicBez, ParamCurve};
use linesweeper::curve::{solve_t_for_y, solve_x_for_y, y_subsegment, EstParab, Quadratic};

use mc::case::Case;
use mc::engine::{CheckFn, Family, Seen};
use mc::geo::{self, Seg};
use mc::shapes::Dec;

use super::{bern, coords, cubic, lattice, patterns, Mono};

fn biggest(c: &CubicBez) -> f64 {
    let coef = |a: [f64; 4]| {
        let (c3, c2, c1) = (a[3] - 3.0 * a[2] + 3.0 * a[1] - a[0], 3.0 * (a[2] - 2.0 * a[1] + a[0]), 3.0 * (a[1] - a[0]));
        a[0].abs().max(c1.abs()).max(c2.abs()).max(c3.abs())
    };
    let m = Mono::new(*c);
    coef(m.ys()).max(coef(m.xs())).max(1.0)
}

fn at(lo: f64, hi: f64, f: f64) -> f64 {
    // Fractions above 1 count from the bottom.
    let y = if f > 1.0 { hi - (hi - lo) * (f - 2.0) } else { lo + (hi - lo) * f };
    y.clamp(lo, hi)
}

/// Fractions of the curve's height; 2 + f means f above the bottom.
const FRACS: [f64; 15] = [0.0, 1e-16, 1e-12, 1e-9, 1e-6, 1e-3, 0.2, 0.5, 0.7, 2.0 + 1e-3, 2.0 + 1e-6, 2.0 + 1e-9, 2.0 + 1e-12, 2.0 + 2e-16, 2.0];

/// Case: 8 coordinates.
pub fn solve(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Nums { v, .. } = case else { panic!("wrong kind of case") };
    let c = cubic(&v[..8]);
    let m = Mono::new(c);
    let (lo, hi) = (c.p0.y, c.p3.y);
    let tol = 1e-9 * biggest(&c);
    let s = Seg::Cubic(c.p0, c.p1, c.p2, c.p3);
    let ys: Vec<f64> = FRACS.iter().map(|f| at(lo, hi, *f)).collect();
    for &y in &ys {
        seen.states += 1;
        seen.transitions += 2;
        seen.validated += 2;
        let t = solve_t_for_y(c, y);
        if !(0.0..=1.0).contains(&t) {
            return Err(format!("the parameter is not on the curve| {t} for height {y}"));
        }
        let got = bern(m.ys(), t);
        if !((got - y).abs() <= tol) {
            return Err(format!("the parameter is not at the height| height {y}: t = {t} is at {got}, tolerance {tol}"));
        }
        if (y == lo && t != 0.0) || (y == hi && t != 1.0) {
            return Err(format!("an end is not exact| {y}: {t}"));
        }
        let x = solve_x_for_y(c, y);
        let e = m.extent(y, tol);
        if !(x >= e.0 - tol && x <= e.1 + tol) {
            return Err(format!("x is not on the curve| height {y}: {x} and not in {e:?}"));
        }
    }
    for (i, &ya) in ys.iter().enumerate() {
        for &yb in &ys[i + 1..] {
            if !(ya < yb) {
                continue;
            }
            seen.transitions += 1;
            seen.validated += 1;
            let r = y_subsegment(c, ya, yb);
            if r.p0.y != ya || r.p3.y != yb {
                return Err(format!("the ends of a piece are not at their heights| {ya} .. {yb}: {r:?}"));
            }
            for (p, y) in [(r.p0, ya), (r.p3, yb)] {
                let e = m.extent(y, tol);
                if !(p.x >= e.0 - tol && p.x <= e.1 + tol) {
                    return Err(format!("an end of a piece is not on the curve| {ya} .. {yb}: {r:?}"));
                }
            }
            let mut last = ya;
            for k in 1..8 {
                let p = r.eval(k as f64 / 8.0);
                if !geo::within(&s, p, 4.0 * tol) {
                    return Err(format!("a piece leaves the curve| {ya} .. {yb}: {p:?} of {r:?}"));
                }
                if p.y < last - tol || p.y > yb + tol {
                    return Err(format!("a piece turns back| {ya} .. {yb}: {r:?}"));
                }
                last = p.y;
            }
        }
    }
    seen.nontrivial = true;
    seen.outcome = coords(&c).iter().fold(0u64, |a, b| a.rotate_left(7) ^ b.to_bits());
    Ok(())
}

/// Case: 8 coordinates. The quadratic estimate's error bounds.
pub fn parab(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Nums { v, .. } = case else { panic!("wrong kind of case") };
    let c = cubic(&v[..8]);
    let m = Mono::new(c);
    let e = EstParab::from_cubic(c);
    let f = 1e-12 * e.c0.abs().max(e.c1.abs()).max(e.c2.abs()) + 1e-12 * biggest(&c);
    if !(e.dmin <= 0.0 && e.dmax >= 0.0) {
        return Err(format!("the error bounds do not contain zero| {e:?}"));
    }
    let n = 64;
    for k in 0..=n {
        let t = k as f64 / n as f64;
        let (x, y) = (bern(m.xs(), t), bern(m.ys(), t));
        let d = x - (e.c0 + e.c1 * y + e.c2 * y * y);
        seen.states += 1;
        seen.validated += 1;
        if (k == 0 || k == n) && d.abs() > f {
            return Err(format!("the estimate is off at an end| by {d}"));
        }
        if d < e.dmin - f || d > e.dmax + f {
            return Err(format!("the estimate is off by more than its bound| by {d} at t = {t}, of {:?}", (e.dmin, e.dmax)));
        }
    }
    seen.transitions = 1;
    seen.nontrivial = e.dmin < 0.0 || e.dmax > 0.0;
    seen.outcome = (e.dmax - e.dmin).to_bits();
    Ok(())
}

const COEF: [f64; 18] = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 3.0, -3.0, 1e-12, -1e-12, 1e8, -1e8, 1e155, -1e155, 1e160, -1e160, 1e300, -1e300];

/// Case: three coefficients, highest first.
pub fn signs(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Nums { v, .. } = case else { panic!("wrong kind of case") };
    let q = Quadratic { c2: v[0], c1: v[1], c0: v[2] };
    let s = q.signs();
    let (a, b) = (s.smaller_root, s.bigger_root);
    if a.is_nan() || b.is_nan() || s.initial_sign.is_nan() || a > b {
        return Err(format!("senseless roots| {s:?}"));
    }
    let mut xs = vec![0.0];
    for k in [-300, -160, -80, -12, -3, -1, 0, 1, 3, 12, 80, 160, 300] {
        xs.push(10f64.powi(k));
        xs.push(-(10f64.powi(k)));
    }
    for r in [a, b] {
        if r.is_finite() {
            for k in [1e-9, 1e-6, 1e-3, 0.5, 2.0] {
                xs.push(r + r * k);
                xs.push(r - r * k);
                xs.push(r + k);
                xs.push(r - k);
            }
        }
    }
    if a.is_finite() && b.is_finite() {
        xs.push(0.5 * a + 0.5 * b);
    }
    let mut pos = false;
    let mut neg = false;
    for x in xs {
        // In an order of multiplication that does not overflow before the result does.
        let t = [q.c2 * x * x, q.c1 * x, q.c0];
        let sum = t[0].abs() + t[1].abs() + t[2].abs();
        if !sum.is_finite() || t[0] == 0.0 && q.c2 != 0.0 && x != 0.0 || t[1] == 0.0 && q.c1 != 0.0 && x != 0.0 {
            continue;
        }
        let val = t[0] + t[1] + t[2];
        // Too close to a root to tell.
        if val.abs() <= 1e-7 * sum {
            continue;
        }
        seen.validated += 1;
        pos |= val > 0.0;
        neg |= val < 0.0;
        let want = if x < a || x > b { s.initial_sign } else { -s.initial_sign };
        if !(val > 0.0 && want > 0.0 || val < 0.0 && want < 0.0) {
            return Err(format!("the sign is wrong| at {x}: {val} but {s:?}"));
        }
    }
    for sh in [0.0, 1.0, -2.5, 1e-3, 1e6] {
        let r = q.shift(sh);
        for x in [0.0, 1.0, -1.0, 0.3, 1e4] {
            let y = x - sh;
            let size = (q.c2.abs() * (x.abs() + sh.abs())).max(q.c1.abs()) * (x.abs() + sh.abs()) + q.c0.abs() + q.c2.abs() * (x.abs() + sh.abs()).powi(2);
            let want = (q.c2 * y + q.c1) * y + q.c0;
            if !size.is_finite() || size > 1e307 {
                continue;
            }
            seen.validated += 1;
            if (r.eval(x) - want).abs() > 1e-12 * size || (q.eval(y) - want).abs() > 1e-12 * size {
                return Err(format!("shifting goes wrong| by {sh} at {x}: {} and not {want}", r.eval(x)));
            }
        }
    }
    if q.max_coeff() != v.iter().fold(0.0f64, |a, b| a.max(b.abs())) || (q + 2.0).c0 != q.c0 + 2.0 {
        return Err("coefficients go wrong|".into());
    }
    seen.states = 1;
    seen.transitions = 1;
    seen.nontrivial = pos && neg;
    seen.outcome = (pos as u64) + 2 * (neg as u64) + 4 * (a.is_finite() as u64) + 8 * (b.is_finite() as u64);
    Ok(())
}

fn nums(name: String, n: u64, check: CheckFn, what: &'static str, rule: &str, gen: impl Fn(u64) -> Vec<f64> + Send + Sync + 'static) -> Family {
    Family { name, n, gen: Box::new(move |i| Some(Case::Nums { what: what.into(), v: gen(i) })), check, rule: rule.into() }
}

/// Inner heights at all fractions, x from a list, under several scales and offsets.
pub fn solve_family(name: &str, xs: &[f64], frs: &[f64]) -> Family {
    let mut fr = frs.to_vec();
    fr.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut pats = vec![];
    for a in &fr {
        for b in &fr {
            pats.push([0.0, at(0.0, 1.0, *a), at(0.0, 1.0, *b), 1.0]);
        }
    }
    let c = lattice(xs, &pats);
    // kx, ky, oy
    const TR: [(f64, f64, f64); 8] = [(1.0, 1.0, 0.0), (1.0, 1e-3, 0.0), (1.0, 1e-6, 0.3), (1e-3, 1.0, -7.0), (1.0, 1e3, 0.0), (1e3, 1e3, 1e4), (1.0, 1.0, 1e6), (1e6, 1e-3, -0.1)];
    let n = c.len() as u64;
    nums(format!("solve:{name}"), n * TR.len() as u64, solve, "a cubic", "every monotone cubic with inner heights at the fractions (also within 1e-16 of the ends), eight scales and offsets, every two of fifteen heights", move |i| {
        let (kx, ky, oy) = TR[(i / n) as usize];
        let mut v: Vec<f64> = coords(&c[(i % n) as usize]).to_vec();
        for (j, x) in v.iter_mut().enumerate() {
            *x = if j % 2 == 0 { *x * kx } else { *x * ky + oy };
        }
        v
    })
}

pub fn parab_family(name: &str, xs: &[f64], fr: &[f64]) -> Family {
    let c = lattice(xs, &patterns(0.0, 1.0, fr));
    const TR: [(f64, f64); 5] = [(1.0, -0.5), (0.1, -0.05), (1e-3, -0.0005), (1.0, 0.0), (2.0, -7.0)];
    let n = c.len() as u64;
    nums(format!("parab:{name}"), n * TR.len() as u64, parab, "a cubic", "every monotone cubic of the lattice, five scales and offsets", move |i| {
        let (k, o) = TR[(i / n) as usize];
        let mut v: Vec<f64> = coords(&c[(i % n) as usize]).to_vec();
        for (j, x) in v.iter_mut().enumerate() {
            if j % 2 == 1 {
                *x = *x * k + o;
            }
        }
        v
    })
}

pub fn signs_family() -> Family {
    let n = COEF.len() as u64;
    nums("signs".into(), n * n * n, signs, "a quadratic", "every triple of coefficients from a list with zeros of both signs and magnitudes from 1e-12 to 1e300", move |i| {
        let mut d = Dec(i);
        let mut v: Vec<f64> = (0..3).map(|_| COEF[d.take(n) as usize]).collect();
        v.reverse();
        v
    })
}

/// Every quadratic with integer coefficients in a range, scaled.
pub fn int_signs_family(k: i64) -> Family {
    let w = (2 * k + 1) as u64;
    nums(format!("signs:{k}"), w.pow(3) * 3, signs, "a quadratic", "every triple of small integers, three scales", move |i| {
        let mut d = Dec(i);
        let s = [1.0, 1e-9, 1e200][d.take(3) as usize];
        (0..3).map(|_| (d.take(w) as i64 - k) as f64 * s).collect()
    })
}
