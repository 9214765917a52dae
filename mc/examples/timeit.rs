use kurbo::BezPath;
use linesweeper::topology::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let pa = BezPath::from_svg(&a[1]).unwrap();
    let pb = BezPath::from_svg(&a[2]).unwrap();
    let eps: f64 = a.get(3).map(|s| s.parse().unwrap()).unwrap_or(1e-6);
    let t = std::time::Instant::now();
    let top = Topology::from_paths_binary(&pa, &pb, eps).unwrap();
    println!("topology {} segs {:?}", top.segment_indices().count(), t.elapsed());
    let c = top.contours(|w| w.shape_a % 2 != 0 || w.shape_b % 2 != 0);
    println!("contours {} {:?}", c.contours().map(|c| c.path.elements().len()).sum::<usize>(), t.elapsed());
}
