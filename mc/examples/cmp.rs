use linesweeper::*; use linesweeper::curve::*;
fn main(){ let a: Vec<f64> = std::env::args().skip(1).map(|s| s.parse().unwrap()).collect();
 let p=|i:usize| Point::new(a[i],a[i+1]);
 let s0=Segment::straight(p(0),p(2)); let s1=Segment::straight(p(4),p(6));
 let e=a[8];
 let o=intersect_cubics(s0.to_kurbo_cubic(), s1.to_kurbo_cubic(), e, e/2.0);
 println!("{:?}", o.iter().collect::<Vec<_>>());
 println!("slop {:?}", o.with_y_slop(e).iter().collect::<Vec<_>>());
 let mut segs=Segments::default(); segs.add_points([p(0),p(2)]); segs.add_points([p(4),p(6)]);
 let mut c=order::ComparisonCache::new(e,e/2.0);
 let v: Vec<_>=segs.indices().collect();
 let o=c.compare_segments(&segs,v[0],v[1]);
 println!("{:?}", o.iter().collect::<Vec<_>>());
 let o=c.compare_segments(&segs,v[1],v[0]);
 println!("{:?}", o.iter().collect::<Vec<_>>());
}
