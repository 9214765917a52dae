//! Comparison results against a piecewise-constant function.

use kurbo::{BezPath, PathEl};
use linesweeper::curve::{intersect_cubics, CurveInteraction, CurveOrder, Order};
use linesweeper::order::ComparisonCache;
use linesweeper::{SegIdx, Segments};

use mc::case::Case;
use mc::engine::Seen;

use super::{cubic, entries, well_formed};

type E = Vec<(f64, f64, Order)>;

fn flip(o: Order) -> Order {
    match o {
        Order::Left => Order::Right,
        Order::Right => Order::Left,
        Order::Ish => Order::Ish,
    }
}

/// The intervals that have something below `y`.
fn after(e: &E, y: f64) -> &[(f64, f64, Order)] {
    &e[e.iter().position(|x| x.1 > y).unwrap_or(e.len())..]
}

/// Going down from `y` on the left of the other curve: what happens next?
fn touch(e: &E, y: f64) -> Option<(bool, f64)> {
    let a = after(e, y);
    for (k, x) in a.iter().enumerate() {
        match x.2 {
            Order::Left => {}
            // On the wrong side from the beginning.
            Order::Right => return Some((true, y)),
            Order::Ish => {
                let Some(next) = a.get(k + 1) else {
                    // They stay close until one of them ends.
                    return None;
                };
                let mid = 0.5 * (x.0 + x.1);
                if next.2 == Order::Right {
                    return Some((true, mid));
                }
                // Close already at `y`, and then apart: that's not a touch.
                if y < x.0 {
                    return Some((false, mid));
                }
            }
        }
    }
    None
}

fn heights(e: &E) -> Vec<f64> {
    let mut ys = vec![];
    let (a, b) = (e[0].0, e[e.len() - 1].1);
    for x in e {
        ys.push(x.0);
        ys.push(x.1);
        for f in [1e-6, 0.3, 0.5, 1.0 - 1e-6] {
            ys.push(x.0 + (x.1 - x.0) * f);
        }
        ys.push(next_up(x.0));
        ys.push(-next_up(-x.1));
    }
    ys.retain(|y| *y >= a && *y <= b);
    ys
}

fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}

fn queries(o: &CurveOrder, seen: &mut Seen) -> Result<(), String> {
    let e = entries(o);
    let last = e[e.len() - 1];
    let fl = o.flip();
    if entries(&fl) != e.iter().map(|x| (x.0, x.1, flip(x.2))).collect::<E>() || entries(&fl.flip()) != e {
        return Err("flipping goes wrong|".into());
    }
    for y in heights(&e) {
        seen.states += 1;
        seen.validated += 1;
        let want = e.iter().find(|x| y <= x.1).unwrap().2;
        if o.order_at(y) != want {
            return Err(format!("order_at is wrong| at {y}: {:?} and not {want:?} in {e:?}", o.order_at(y)));
        }
        if fl.order_at(y) != flip(want) {
            return Err(format!("the flipped order_at is wrong| at {y}"));
        }
        let a = after(&e, y);
        if !a.is_empty() && o.entry_at(y) != a[0] {
            return Err(format!("entry_at is wrong| at {y}: {:?} in {e:?}", o.entry_at(y)));
        }
        let want = if y == last.1 { last.2 } else { a.iter().map(|x| x.2).find(|x| *x != Order::Ish).unwrap_or(Order::Ish) };
        if o.order_after(y) != want || fl.order_after(y) != flip(want) {
            return Err(format!("order_after is wrong| at {y}: {:?} and not {want:?} in {e:?}", o.order_after(y)));
        }
        let got = o.next_touch_after(y).map(|x| match x {
            CurveInteraction::Cross(y) => (true, y),
            CurveInteraction::Touch(y) => (false, y),
        });
        if got != touch(&e, y) {
            return Err(format!("next_touch_after is wrong| at {y}: {got:?} and not {:?} in {e:?}", touch(&e, y)));
        }
    }
    Ok(())
}

fn slop(o: &CurveOrder, s: f64, seen: &mut Seen) -> Result<CurveOrder, String> {
    let e = entries(o);
    let (a, b) = (e[0].0, e[e.len() - 1].1);
    let r = o.clone().with_y_slop(s);
    r.check_invariants();
    well_formed(&r, a, b)?;
    if a == b || s == 0.0 {
        if entries(&r) != e {
            return Err("slop changes a comparison it should not|".into());
        }
        return Ok(r);
    }
    let re = entries(&r);
    // The result is a step function with these possible steps; compare in between all of them.
    let mut ys: Vec<f64> = vec![a, b];
    for x in e.iter().chain(&re) {
        ys.extend([x.0, x.1, x.0 - s, x.0 + s, x.1 - s, x.1 + s]);
    }
    ys.retain(|y| *y >= a && *y <= b);
    ys.sort_by(|x, y| x.partial_cmp(y).unwrap());
    for w in ys.windows(2) {
        let y = 0.5 * (w[0] + w[1]);
        if w[1] - w[0] < 1e-12 * w[0].abs().max(w[1].abs()).max(1e-3) {
            continue;
        }
        seen.validated += 1;
        let x = e.iter().find(|x| y <= x.1).unwrap();
        let inside = (x.0 == a || y > x.0 + s) && (x.1 == b || y < x.1 - s);
        let want = if inside { x.2 } else { Order::Ish };
        let got = re.iter().find(|x| y <= x.1).unwrap().2;
        if got != want {
            return Err(format!("with_y_slop is wrong| slop {s} at {y}: {got:?} and not {want:?} in {e:?}"));
        }
    }
    Ok(r)
}

/// Case: tolerance, accuracy, 8 + 8 coordinates.
pub fn orders(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Nums { v, .. } = case else { panic!("wrong kind of case") };
    let (c0, c1) = (cubic(&v[2..10]), cubic(&v[10..18]));
    let o = intersect_cubics(c0, c1, v[0], v[1]);
    queries(&o, seen)?;
    for s in [0.0, v[1], v[0], 0.01, 0.11, 0.6, 10.0] {
        let r = slop(&o, s, seen)?;
        queries(&r, seen)?;
        // Slop on top of slop.
        let rr = slop(&r, s, seen)?;
        if rr.iter().any(|x| x.2 != Order::Ish && (r.order_at(0.5 * (x.0 + x.1)) != x.2)) {
            return Err("more slop gives more order|".into());
        }
        seen.transitions += 2;
    }
    let e = entries(&o);
    seen.nontrivial = e.len() > 1;
    seen.outcome = e.iter().fold(0, |a, x| a * 3 + x.2 as u64 + 1);
    Ok(())
}

fn add(s: &mut Segments, v: &[f64]) -> SegIdx {
    let c = cubic(v);
    let n = s.indices().count();
    let p = BezPath::from_vec(vec![PathEl::MoveTo(c.p0), PathEl::CurveTo(c.p1, c.p2, c.p3)]);
    s.add_non_closed_bez_path(&p).expect("path");
    s.indices().nth(n).unwrap()
}

/// Case: tolerance, accuracy, 8 coordinates for each of three cubics: a cache must answer the same
/// questions always in the same way, and never go round in circles.
pub fn cache(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Nums { v, .. } = case else { panic!("wrong kind of case") };
    let (tol, acc) = (v[0], v[1]);
    let mut segs = Segments::default();
    let mut first = vec![];
    for c in v[2..].chunks(8) {
        first.push(add(&mut segs, c));
    }
    let all: Vec<SegIdx> = segs.indices().collect();
    let common = |i: SegIdx, j: SegIdx| {
        let (a, b) = (&segs[i], &segs[j]);
        let y0 = a.start().y.max(b.start().y);
        let y1 = a.end().y.min(b.end().y);
        !a.is_horizontal() && !b.is_horizontal() && y0 < y1
    };
    for slopped in [true, false] {
        let fresh = || if slopped { ComparisonCache::new(tol, acc) } else { ComparisonCache::new_without_y_slop(tol, acc) };
        let mut c = fresh();
        let mut said: Vec<(SegIdx, SegIdx, E)> = vec![];
        for &i in &all {
            for &j in &all {
                if i == j || !common(i, j) {
                    continue;
                }
                let got = entries(&c.compare_segments(&segs, i, j));
                seen.transitions += 1;
                let (a, b) = (segs[i].to_kurbo_cubic(), segs[j].to_kurbo_cubic());
                if let Some(x) = said.iter().find(|x| x.0 == j && x.1 == i) {
                    if got != x.2.iter().map(|x| (x.0, x.1, flip(x.2))).collect::<E>() {
                        return Err(format!("the other way round is not the opposite| {got:?} and {:?}", x.2));
                    }
                } else {
                    let mut o = intersect_cubics(a, b, tol, acc);
                    if slopped {
                        o = o.with_y_slop(tol);
                    }
                    if got != entries(&o) {
                        return Err(format!("the cache does not say what the comparison says| {got:?} and {:?}", entries(&o)));
                    }
                }
                seen.validated += 1;
                said.push((i, j, got));
            }
        }
        let mut c2 = c.clone();
        for (i, j, e) in &said {
            if entries(&c.compare_segments(&segs, *i, *j)) != *e || entries(&c2.compare_segments(&segs, *i, *j)) != *e {
                return Err("asking again gives another answer|".into());
            }
        }
        if !slopped {
            continue;
        }
        let at = |i: SegIdx, j: SegIdx, y: f64| -> Option<Order> {
            let e = &said.iter().find(|x| x.0 == i && x.1 == j)?.2;
            (y >= e[0].0).then_some(())?;
            Some(e.iter().find(|x| y <= x.1)?.2)
        };
        for &i in &all {
            for &j in &all {
                let Some(x) = said.iter().find(|x| x.0 == i && x.1 == j) else { continue };
                let mut ys: Vec<f64> = vec![];
                for z in &x.2 {
                    ys.extend([z.0, 0.5 * (z.0 + z.1), z.1]);
                }
                for &k in &all {
                    for &y in &ys {
                        if at(i, j, y) == Some(Order::Left) && at(j, k, y) == Some(Order::Left) && at(i, k, y) == Some(Order::Right) {
                            return Err(format!("three segments in a circle| at {y}"));
                        }
                        seen.states += 1;
                    }
                }
                seen.nontrivial |= x.2.len() > 1;
                seen.outcome = x.2.iter().fold(seen.outcome, |a, x| a.wrapping_mul(3).wrapping_add(x.2 as u64 + 1));
            }
        }
    }
    Ok(())
}
