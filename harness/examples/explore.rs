use vf::*;
use diag::*; use gen::*; use oracle::*;
fn full(g:&Geo,d:&Diag,ulps:f64,seed:u64)->engine::Res{ check_topology(d)?; check_euler(d)?; let mut c=Ctx::new(&g,d,ulps,f64::EPSILON)?; c.loose=std::env::var("LOOSE").map_or(0.0,|v|v.parse().unwrap()); c.check_edge_class()?; c.check_vertices()?; let mut r=rng::Rng::new(seed+77); c.check_edges(&mut r,3)?; c.check_walk(&mut r,20)?; if std::env::var("FLAG").is_ok() {c.check_site_flag()?;}Ok(())}
fn one(g:&Geo,ulps:f64,seed:u64,rf:bool)->Option<(String,String)>{
    if rf { let d=reference(g); return full(g,&d,ulps,seed).err().map(|e|(e.sig,e.msg)); }
    match std::panic::catch_unwind(||build::<i32,f64>(g)) { Err(_)=>Some((format!("panic {}",engine::last_panic()),"".into())), Ok(Err(e))=>Some(("err".into(),e.msg)), Ok(Ok(d))=>full(g,&d,ulps,seed).err().map(|e|(e.sig,e.msg)) }
}
fn main(){
    let a: Vec<String> = std::env::args().collect();
    if a[1]=="one" { engine::install_hook(); let g:Geo=serde_json::from_str(&a[2]).unwrap(); println!("rust {:?}\ncpp {:?}",one(&g,256.0,1,false),one(&g,256.0,1,true)); if a.len()>3 { for d in [build::<i32,f64>(&g).unwrap(),reference(&g)] { for c in &d.cells {println!("{c:?}");} for c in &d.verts {println!("{c:?}");} for c in &d.edges {println!("{c:?}");} } } return; }
    let bits: u32 = a[1].parse().unwrap(); let n: u64 = a[2].parse().unwrap();
    let ulps: f64 = a[3].parse().unwrap(); let rf = a.get(4).map_or(false,|x|x=="ref");
    engine::install_hook();
    let cfg = if std::env::var("WIDE").is_ok() {GenCfg::wide(20,14,bits)} else if std::env::var("CALM").is_ok() {GenCfg::calm(20,14,bits)} else {GenCfg::new(20,14,bits)};
    let fam: Option<u64> = std::env::var("FAM").ok().map(|v|v.parse().unwrap());
    let start: u64 = std::env::var("START").ok().map_or(0,|v|v.parse().unwrap());
    let stat: std::sync::Mutex<std::collections::BTreeMap<String,(u64,Geo,String)>>=Default::default();
    let next=std::sync::atomic::AtomicU64::new(start);
    std::thread::scope(|sc| for _ in 0..8 { sc.spawn(|| loop {
        let i=next.fetch_add(1,std::sync::atomic::Ordering::SeqCst); if i>=start+n {break;}
        let mut r = rng::Rng::new(i);
        let g = match fam { Some(f) if f<100 => gen_mixed_f(&mut r,cfg,f), Some(_)=>gen_points(&mut r,cfg), None=>gen_any(&mut r,cfg)};
        if let Some((k,m))=one(&g,ulps,i,rf) {
            { let mut st=stat.lock().unwrap(); let e=st.entry(k.clone()).or_insert((0,g.clone(),m.clone())); e.0+=1; if e.0>6 {continue;} }
              let (mut g,mut m)=(g,m);
              let mut left=3000;
              'o: loop { for h in shrink_geo(&g) { if left==0 {break 'o;} left-=1; if let Some((k2,m2))=one(&h,ulps,i,rf) { if k2==k { g=h; m=m2; continue 'o; } } } break; }
              if std::env::var("ALL").is_ok() { println!("   {k} {}", serde_json::to_string(&g).unwrap()); }
              let mut st=stat.lock().unwrap(); let e=st.get_mut(&k).unwrap(); if serde_json::to_string(&g).unwrap().len() <= serde_json::to_string(&e.1).unwrap().len() { e.1=g; e.2=m; }
        }
    });});
    println!("bits {bits}"); for (k,(c,g,m)) in stat.into_inner().unwrap() {println!("  {k}: {c}  {}\n     {}",&m[..m.len().min(500)],serde_json::to_string(&g).unwrap());}
}
