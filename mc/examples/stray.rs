use linesweeper::topology::Topology;
fn main(){ let a:Vec<String>=std::env::args().collect(); let pa:mc::case::Path=a[1].parse().unwrap(); let pb:mc::case::Path=a[2].parse().unwrap(); let eps:f64=a[3].parse().unwrap();
 let all:Vec<_>=mc::geo::segs(&pa.0).into_iter().chain(mc::geo::segs(&pb.0)).collect();
 let t=Topology::from_paths_binary(&pa.bez(),&pb.bez(),eps).unwrap();
 for (n,c) in [("union",t.contours(|w| w.shape_a%2!=0||w.shape_b%2!=0)),("inter",t.contours(|w| w.shape_a%2!=0&&w.shape_b%2!=0))] {
 println!("{n}");
 for c in c.contours(){ for s in mc::geo::segs(c.path.elements()){ 
   let mut worst=0.0f64; for i in 0..=24 { let p=s.eval(i as f64/24.0); let mut lo=0.0; let mut hi=1.0; for _ in 0..60 { let m:f64=(lo+hi)/2.0; if mc::geo::near_any(&all,p,m){hi=m}else{lo=m} } worst=worst.max(hi); }
   println!("{:?} worst {:e}",s,worst);
 }}}
}
