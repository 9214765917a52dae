use linesweeper::topology::*;
fn main(){ let a:Vec<String>=std::env::args().collect();
 let p:mc::case::Path=a[1].parse().unwrap(); let q:mc::case::Path=a[2].parse().unwrap();
 let eps:f64=a[3].parse().unwrap();
 let t=Topology::from_paths_binary(&p.bez(),&q.bez(),eps).unwrap();
 let pos=t.compute_positions();
 for i in t.segment_indices(){ println!("{:?} {:?} -> {:?} copied {:?} seg {:?}",i,t.point(i.first_half()).to_kurbo(),t.point(i.second_half()).to_kurbo(),pos[i].copied_idx, t.orig_seg[i]);
  println!("    orig {:?}", t.segments[t.orig_seg[i]].to_kurbo_cubic());
  for e in pos[i].path.elements(){println!("      {:?}",e);} }
}
