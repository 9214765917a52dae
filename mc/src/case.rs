//! Cases: points of the finite spaces that the explorer walks. Every case can be written down as
//! JSON, read back, and replayed alone.

use kurbo::{BezPath, PathEl, Point};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// A Bézier path that serializes to a readable, exact (shortest round-trip) string.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Path(pub Vec<PathEl>);

impl Path {
    pub fn bez(&self) -> BezPath {
        // Built element by element, because that's how users build them (and `from_vec` insists on a
        // leading MoveTo, which is what we want too).
        BezPath::from_vec(self.0.clone())
    }

    /// Closed polylines.
    pub fn from_polys(polys: &[Vec<(f64, f64)>]) -> Path {
        let mut ret = vec![];
        for p in polys {
            if p.is_empty() {
                continue;
            }
            ret.push(PathEl::MoveTo(p[0].into()));
            for q in &p[1..] {
                ret.push(PathEl::LineTo((*q).into()));
            }
            ret.push(PathEl::ClosePath);
        }
        Path(ret)
    }

    pub fn push(&mut self, other: &Path) {
        self.0.extend_from_slice(&other.0);
    }

    pub fn map(&self, f: impl Fn(Point) -> Point) -> Path {
        Path(
            self.0
                .iter()
                .map(|e| match *e {
                    PathEl::MoveTo(p) => PathEl::MoveTo(f(p)),
                    PathEl::LineTo(p) => PathEl::LineTo(f(p)),
                    PathEl::QuadTo(p, q) => PathEl::QuadTo(f(p), f(q)),
                    PathEl::CurveTo(p, q, r) => PathEl::CurveTo(f(p), f(q), f(r)),
                    PathEl::ClosePath => PathEl::ClosePath,
                })
                .collect(),
        )
    }
}

fn pt(s: &mut String, p: Point) {
    use std::fmt::Write;
    write!(s, "{},{}", p.x, p.y).unwrap();
}

impl std::fmt::Display for Path {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut s = String::new();
        for (i, e) in self.0.iter().enumerate() {
            if i > 0 {
                s.push(' ');
            }
            match *e {
                PathEl::MoveTo(p) => {
                    s.push('M');
                    pt(&mut s, p)
                }
                PathEl::LineTo(p) => {
                    s.push('L');
                    pt(&mut s, p)
                }
                PathEl::QuadTo(p, q) => {
                    s.push('Q');
                    pt(&mut s, p);
                    s.push(';');
                    pt(&mut s, q)
                }
                PathEl::CurveTo(p, q, r) => {
                    s.push('C');
                    pt(&mut s, p);
                    s.push(';');
                    pt(&mut s, q);
                    s.push(';');
                    pt(&mut s, r)
                }
                PathEl::ClosePath => s.push('Z'),
            }
        }
        f.write_str(&s)
    }
}

impl std::str::FromStr for Path {
    type Err = String;
    fn from_str(s: &str) -> Result<Path, String> {
        let mut out = vec![];
        for tok in s.split_whitespace() {
            let (c, rest) = tok.split_at(1);
            let mut ps = vec![];
            if !rest.is_empty() {
                for p in rest.split(';') {
                    let (x, y) = p.split_once(',').ok_or("no comma")?;
                    ps.push(Point::new(
                        x.parse().map_err(|e| format!("{e}"))?,
                        y.parse().map_err(|e| format!("{e}"))?,
                    ));
                }
            }
            let need = match c {
                "M" | "L" => 1,
                "Q" => 2,
                "C" => 3,
                "Z" => 0,
                _ => return Err(format!("bad command {c}")),
            };
            if ps.len() != need {
                return Err(format!("bad arity {tok}"));
            }
            out.push(match c {
                "M" => PathEl::MoveTo(ps[0]),
                "L" => PathEl::LineTo(ps[0]),
                "Q" => PathEl::QuadTo(ps[0], ps[1]),
                "C" => PathEl::CurveTo(ps[0], ps[1], ps[2]),
                _ => PathEl::ClosePath,
            });
        }
        Ok(Path(out))
    }
}

impl Serialize for Path {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.to_string())
    }
}

impl<'de> Deserialize<'de> for Path {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Path, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum Case {
    /// A pair of sets; `eps` is `None` for the automatically chosen accuracy.
    Bin { a: Path, b: Path, eps: Option<f64> },
    /// A list of tagged paths.
    Multi { paths: Vec<Path>, eps: f64 },
    /// A list of numbers: the interpretation is the monitor's.
    Nums { what: String, v: Vec<f64> },
    /// A sequence of small integers: the interpretation is the monitor's.
    Ops { what: String, v: Vec<i64> },
}
