//! The sweep line's container against a plain vector: every reachable shape of the tree.

use std::collections::{HashSet, VecDeque};

use linesweeper::treevec::TreeVec;

use mc::case::Case;
use mc::engine::{cli, CheckFn, Family, Prop, Seen};
use mc::shapes::Dec;

/// An element: its label does not show in the tree's debug output, which therefore is its shape.
#[derive(Clone, Copy, PartialEq, Eq)]
struct L(u32);
impl std::fmt::Debug for L {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(".")
    }
}

struct Hasher128(u64, u64);
impl std::fmt::Write for Hasher128 {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
            self.1 = (self.1.rotate_left(5) ^ b as u64).wrapping_mul(0x9e3779b97f4a7c15);
        }
        Ok(())
    }
}

fn shape<const B: usize>(t: &TreeVec<L, B>) -> (u64, u64) {
    use std::fmt::Write;
    let mut h = Hasher128(0xcbf29ce484222325, 1);
    write!(h, "{t:?}").unwrap();
    (h.0, h.1)
}

/// Everything that can be observed about the container, against the vector.
fn agree<const B: usize>(t: &mut TreeVec<L, B>, v: &[L], full: bool) -> Result<(), String> {
    t.check_invariants();
    let n = v.len();
    if t.len() != n || t.is_empty() != v.is_empty() {
        return Err(format!("wrong length| {} and not {n}", t.len()));
    }
    if !t.iter().eq(v.iter()) {
        return Err("iteration differs|".into());
    }
    for i in 0..n {
        if t.get(i) != Some(&v[i]) || t[i] != v[i] {
            return Err(format!("get differs| at {i} of {n}"));
        }
    }
    if t.get(n).is_some() || t.get(n + 1).is_some() || t.get_mut(n).is_some() {
        return Err("get past the end finds something|".into());
    }
    if !full {
        return Ok(());
    }
    for a in 0..=n {
        for b in a..=n {
            if !t.range(a..b).eq(v[a..b].iter()) {
                return Err(format!("range differs| {a}..{b} of {n}"));
            }
            if !t.range_mut(a..b).map(|x| *x).eq(v[a..b].iter().copied()) {
                return Err(format!("range_mut differs| {a}..{b} of {n}"));
            }
            if a < b && !t.range(a..=b - 1).eq(v[a..b].iter()) {
                return Err(format!("inclusive range differs| {a}..={} of {n}", b - 1));
            }
        }
        if !t.range(a..).eq(v[a..].iter()) || !t.range(..a).eq(v[..a].iter()) {
            return Err(format!("half-open range differs| {a} of {n}"));
        }
        // Elements are in increasing order of label here.
        let p = t.partition_point(|x| v[..a].contains(x));
        if p != a {
            return Err(format!("partition_point differs| {p} and not {a} of {n}"));
        }
    }
    if n > 0 {
        // A predicate with holes: any place where it changes is right.
        for m in [0b0110u64, 0b1010, 0b10011] {
            let yes = |x: &L| m >> (x.0 % 5) & 1 == 1;
            let p = t.partition_point(yes);
            if (p > 0 && !yes(&v[p - 1])) || (p < n && yes(&v[p])) {
                return Err(format!("partition_point is not at a change| {p} of {n}"));
            }
        }
    }
    let c = t.clone();
    if !c.iter().eq(v.iter()) || shape(&c) != shape(t) {
        return Err("a clone differs|".into());
    }
    let f: TreeVec<L, B> = v.iter().copied().collect();
    f.check_invariants();
    if !f.iter().eq(v.iter()) {
        return Err("collecting differs|".into());
    }
    for (i, x) in t.iter_mut().enumerate() {
        *x = L(x.0 + 1000 * i as u32);
    }
    for i in 0..n {
        if t[i].0 != v[i].0 + 1000 * i as u32 {
            return Err(format!("writing through iter_mut differs| at {i} of {n}"));
        }
        *t.get_mut(i).unwrap() = v[i];
    }
    if !t.iter().eq(v.iter()) {
        return Err("writing through get_mut differs|".into());
    }
    Ok(())
}

/// Every shape that can be reached with at most `max` elements, and every operation from it.
fn bfs<const B: usize>(max: usize, limit: usize, seen: &mut Seen) -> Result<(), String> {
    let mut known: HashSet<(u64, u64)> = HashSet::new();
    let mut todo: VecDeque<TreeVec<L, B>> = VecDeque::new();
    let start: TreeVec<L, B> = TreeVec::new();
    known.insert(shape(&start));
    todo.push_back(start);
    while let Some(t) = todo.pop_front() {
        let n = t.len();
        let v: Vec<L> = (0..n as u32).map(L).collect();
        seen.states += 1;
        let mut step = |mut t: TreeVec<L, B>, v: Vec<L>, what: String| -> Result<(), String> {
            seen.transitions += 1;
            agree(&mut t, &v, false).map_err(|e| format!("{e} after {what}"))?;
            seen.validated += 1;
            if known.len() < limit && known.insert(shape(&t)) {
                for (i, x) in t.iter_mut().enumerate() {
                    *x = L(i as u32);
                }
                let v: Vec<L> = (0..v.len() as u32).map(L).collect();
                agree(&mut t, &v, true).map_err(|e| format!("{e} after {what}"))?;
                todo.push_back(t);
            }
            Ok(())
        };
        if n < max {
            for i in 0..=n {
                let (mut t, mut v) = (t.clone(), v.clone());
                let before = format!("{t:?}");
                t.insert(i, L(999));
                v.insert(i, L(999));
                step(t, v, format!("insert at {i} into {before}"))?;
            }
        }
        for i in 0..n {
            let (mut t, mut v) = (t.clone(), v.clone());
            let before = format!("{t:?}");
            let (x, y) = (t.remove(i), v.remove(i));
            if x != y {
                return Err(format!("remove returns the wrong element| at {i} of {before}"));
            }
            step(t, v, format!("remove at {i} from {before}"))?;
        }
    }
    seen.outcome = seen.states;
    seen.nontrivial = seen.states > 100;
    Ok(())
}

fn shapes(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let t0 = std::time::Instant::now();
    let Case::Ops { v, .. } = case else { panic!("wrong kind of case") };
    let (b, max, limit) = (v[0], v[1] as usize, v[2] as usize);
    match b {
        4 => bfs::<4>(max, limit, seen),
        5 => bfs::<5>(max, limit, seen),
        6 => bfs::<6>(max, limit, seen),
        7 => bfs::<7>(max, limit, seen),
        8 => bfs::<8>(max, limit, seen),
        _ => panic!("no such width"),
    }?;
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("width {b}, {max} elements: {} shapes, {:.1} s", seen.states, t0.elapsed().as_secs_f64());
    }
    Ok(())
}

/// A tree of a given size and origin, then a sequence of operations at interesting places.
fn history<const B: usize>(v: &[i64], seen: &mut Seen) -> Result<(), String> {
    let n = v[0] as usize;
    let mut t: TreeVec<L, B> = TreeVec::new();
    let mut m: Vec<L> = vec![];
    for i in 0..n {
        let at = match v[1] {
            0 => i,
            1 => 0,
            2 => i / 2,
            _ => (i * 7919) % (i + 1),
        };
        t.insert(at, L(i as u32));
        m.insert(at, L(i as u32));
    }
    agree(&mut t, &m, false)?;
    let places = |len: usize, p: i64| -> usize {
        match p {
            0 => 0,
            1 => len / 4,
            2 => len / 2,
            3 => (len / 2 + 1).min(len.saturating_sub(1)),
            4 => len.saturating_sub(2),
            _ => len.saturating_sub(1),
        }
    };
    for (k, op) in v[2..].iter().enumerate() {
        let reps = [1, 1, B / 2, B / 2 + 1][(*op as usize / 12) % 4];
        for _ in 0..reps {
            let p = places(m.len(), op % 6);
            if op / 6 % 2 == 0 {
                let p = if op % 6 == 5 { m.len() } else { p };
                let x = L(100_000 + k as u32);
                t.insert(p, x);
                m.insert(p, x);
            } else if !m.is_empty() {
                let (x, y) = (t.remove(p), m.remove(p));
                if x != y {
                    return Err(format!("remove returns the wrong element| at {p}"));
                }
            }
            seen.transitions += 1;
        }
        seen.validated += 1;
        agree(&mut t, &m, false)?;
    }
    // A sample of ranges.
    let n = m.len();
    for a in [0, 1, n / 3, n / 2, n].into_iter().filter(|a| *a <= n) {
        for b in [a, n / 2, n.saturating_sub(1), n].into_iter().filter(|b| *b >= a && *b <= n) {
            if !t.range(a..b).eq(m[a..b].iter()) || !t.range_mut(a..b).map(|x| *x).eq(m[a..b].iter().copied()) {
                return Err(format!("range differs| {a}..{b} of {n}"));
            }
        }
    }
    seen.states = v.len() as u64 - 1;
    seen.nontrivial = n > B;
    let s = shape(&t);
    seen.outcome = s.0 ^ s.1;
    Ok(())
}

fn histories(case: &Case, seen: &mut Seen) -> Result<(), String> {
    let Case::Ops { what, v } = case else { panic!("wrong kind of case") };
    match what.as_str() {
        "128" => history::<128>(v, seen),
        "16" => history::<16>(v, seen),
        "5" => history::<5>(v, seen),
        "4" => history::<4>(v, seen),
        _ => panic!("no such width"),
    }
}

fn shapes_family(cfg: &'static [(i64, i64, i64)]) -> Family {
    Family {
        name: format!("shapes:{}", cfg.iter().map(|c| format!("{}/{}", c.0, c.1)).collect::<Vec<_>>().join(",")),
        n: cfg.len() as u64,
        gen: Box::new(move |i| {
            let c = cfg[i as usize];
            Some(Case::Ops { what: "width, most elements, most shapes".into(), v: vec![c.0, c.1, c.2] })
        }),
        check: shapes as CheckFn,
        rule: "for every node width: every tree shape reachable with at most that many elements, every insertion and removal from it".into(),
    }
}

fn history_family(b: &'static str, sizes: &'static [i64], depth: usize, ops: u64) -> Family {
    Family {
        name: format!("history:{b}:{depth}"),
        n: sizes.len() as u64 * 4 * ops.pow(depth as u32),
        gen: Box::new(move |i| {
            let mut d = Dec(i);
            let mut v = vec![sizes[d.take(sizes.len() as u64) as usize], d.take(4) as i64];
            for _ in 0..depth {
                v.push(d.take(ops) as i64);
            }
            Some(Case::Ops { what: b.into(), v })
        }),
        check: histories as CheckFn,
        rule: "every initial size and origin, every sequence of operations: insert or remove, at six places, once or half a node's worth of times".into(),
    }
}

fn main() {
    mc::engine::set_hang_ms(200_000);
    cli(vec![Prop {
        id: "C17",
        rule: "every reachable tree shape of every width, all operations, all observations; histories for the widths in use; non-trivial: more than 100 shapes, or a tree of more than one node",
        families: |t| {
            let mut v = vec![
                shapes_family(&[(4, 21, i64::MAX), (5, 19, i64::MAX), (6, 27, i64::MAX), (7, 25, i64::MAX), (8, 31, i64::MAX)]),
                history_family("4", &[0, 1, 4, 5, 9, 17, 33], 3, 24),
                history_family("5", &[5, 6, 13, 26], 3, 24),
                history_family("16", &[15, 16, 17, 33, 64, 129, 256], 2, 48),
                history_family("128", &[63, 64, 127, 128, 129, 192, 256, 257, 1000], 2, 48),
            ];
            if t == "thorough" {
                v.push(shapes_family(&[(4, 21, i64::MAX), (5, 24, i64::MAX), (6, 29, i64::MAX), (7, 31, i64::MAX), (8, 34, i64::MAX)]));
                v.push(history_family("128", &[8191, 8192, 8193, 16385], 2, 48));
                v.push(history_family("4", &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 33], 4, 24));
                v.push(history_family("16", &[15, 16, 17, 24, 33, 64, 129, 256], 3, 48));
            }
            v
        },
    }])
}
