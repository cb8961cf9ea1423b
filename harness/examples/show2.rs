use vf::{diag::*,props::meta::*};
fn main(){ let n: u32 = std::env::args().nth(1).unwrap().parse().unwrap(); let kind:u8=std::env::args().nth(2).unwrap().parse().unwrap();
 let g=big_geo(&Big{kind,n,bits:20,seed:3});
 std::thread::Builder::new().stack_size(2<<20).spawn(move||{ let d=build_raw::<i32,f64>(&g).unwrap(); println!("built {}",d.edges().len()); d.color_exterior_edges(1); println!("ok"); }).unwrap().join().unwrap(); }
