use vf::{diag::*,oracle::*,props::structure::*};
fn main(){ let g: Geo = serde_json::from_str(&std::env::args().nth(1).unwrap()).unwrap();
 for (n,d) in [("rust",build::<i32,f64>(&g).unwrap()),("c++",reference(&g))] { println!("{n}: topo {:?}", check_topology(&d).is_ok());
  for v in &d.verts { println!("  v{} {:e} {:e}",v.id,v.x,v.y);} for e in &d.edges { println!("  e{} c{} v0 {} tw {} lin {} prim {}",e.id,e.cell,e.v0 as isize,e.twin,e.linear,e.primary);} 
  for c in &d.cells { println!("  c{} {:?}", c.id, cell_site(&g,c)); }
  for loose in [0.0,1e-6] { let c=ctx(&g,&d,loose).unwrap(); println!(" loose {loose}: {:?} {:?} {:?} {:?}", c.check_vertices(), c.check_edge_class(), c.check_edges(&mut case_rng(&g),5), c.check_walk(&mut case_rng(&g),30)); } } }
