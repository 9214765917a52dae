use kurbo::BezPath;
use linesweeper::topology::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let pa = BezPath::from_svg(&a[1]).unwrap();
    let pb = BezPath::from_svg(&a[2]).unwrap();
    let eps: f64 = a.get(3).map(|s| s.parse().unwrap()).unwrap_or(1e-6);
    let top = Topology::from_paths_binary(&pa, &pb, eps).unwrap();
    for i in top.segment_indices() {
        println!("{:?} {:?} -> {:?} wind {:?} | {:?}", i, top.point(i.first_half()), top.point(i.second_half()), top.winding_clockwise(i.first_half()), top.winding_counter_clockwise(i.first_half()));
    }
    for (n, f) in [("union-eo", Box::new(|w: &BinaryWindingNumber| w.shape_a % 2 != 0 || w.shape_b % 2 != 0) as Box<dyn Fn(&BinaryWindingNumber) -> bool>),
      ("xor-eo", Box::new(|w: &BinaryWindingNumber| (w.shape_a % 2 != 0) != (w.shape_b % 2 != 0))),
      ("union-nz", Box::new(|w: &BinaryWindingNumber| w.shape_a != 0 || w.shape_b != 0)),
    ] {
        println!("{n}");
        for c in top.contours(|w| f(w)).contours() { println!("  {} outer {} parent {:?}", c.path.to_svg(), c.outer, c.parent); }
    }
}
