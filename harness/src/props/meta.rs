//! P08-P12, P25, P26, P28: relations between builds.
use super::structure::*;
use crate::diag::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::rng::*;
use boostvoronoi as bv;
use serde::{Deserialize, Serialize};

// ---- P08 ----------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct Moved { pub g: Geo, pub dx: i64, pub dy: i64, /** eighth of the symmetries of the square */ pub sym: u8, pub scale: i64 }
fn sym(k: u8, p: [i64; 2]) -> [i64; 2] { let [x, y] = p; match k & 7 { 0 => [x, y], 1 => [-y, x], 2 => [-x, -y], 3 => [y, -x], 4 => [-x, y], 5 => [x, -y], 6 => [y, x], _ => [-y, -x] } }
fn symf(k: u8, p: (f64, f64)) -> (f64, f64) { let (x, y) = p; match k & 7 { 0 => (x, y), 1 => (-y, x), 2 => (-x, -y), 3 => (y, -x), 4 => (-x, y), 5 => (x, -y), 6 => (y, x), _ => (-y, -x) } }
pub fn map_geo(g: &Geo, f: impl Fn([i64; 2]) -> [i64; 2]) -> Geo {
    Geo { p: g.p.iter().map(|p| f(*p)).collect(), s: g.s.iter().map(|s| { let (a, b) = (f([s[0], s[1]]), f([s[2], s[3]])); [a[0], a[1], b[0], b[1]] }).collect() }
}
fn check_moved(c: &Moved, o: &mut Obs) -> Res {
    let f = |p: [i64; 2]| { let q = sym(c.sym, p); [q[0] * c.scale + c.dx, q[1] * c.scale + c.dy] };
    let h = map_geo(&c.g, f);
    let (a, b) = (build::<i32, f64>(&c.g)?, build::<i32, f64>(&h)?);
    note(&c.g, &a, o);
    check_topology(&a)?; check_topology(&b)?;
    let (ca, cb) = (canon(&c.g, &a)?, canon(&h, &b)?);
    let k = c.scale as f64;
    let put = |p: (f64, f64)| { let q = symf(c.sym, p); (q.0 * k + c.dx as f64, q.1 * k + c.dy as f64) };
    let ma = map_canon(&ca, f, put, c.sym >= 4);
    let ext = extent(&h).max(extent(&c.g) * k);
    let mut same = same_contracted(&ma, &cb, ext, 1e-9);
    if same.is_err() {
        // where the sweep reaches several circles at once, their order is open
        let mut open: Vec<_> = Ctx::new(&c.g, &a, 256.0, f64::EPSILON)?.open_places().into_iter().map(|(p, d)| (put(p), d * k)).collect();
        open.extend(Ctx::new(&h, &b, 256.0, f64::EPSILON)?.open_places());
        if !open.is_empty() { same = same_but(&ma, &cb, ext, 1e-9, &open); o.label("compared with places left open by the sweep"); }
    }
    match same { Ok(n) => { o.sub += n as u64; Ok(()) } Err(m) => fail("moved", format!("placed by symmetry {} scale {} offset ({}, {}): {m}", c.sym, c.scale, c.dx, c.dy)) }
}
fn shrink_moved(c: &Moved) -> Vec<Moved> {
    let mut v: Vec<Moved> = shrink_geo(&c.g).into_iter().map(|g| Moved { g, ..c.clone() }).collect();
    for (dx, dy) in [(0, 0), (c.dx / 2, c.dy / 2), (0, c.dy), (c.dx, 0)] { if (dx, dy) != (c.dx, c.dy) { v.push(Moved { dx, dy, ..c.clone() }); } }
    if c.scale != 1 { v.push(Moved { scale: 1, ..c.clone() }); }
    if c.sym != 0 { v.push(Moved { sym: 0, ..c.clone() }); }
    v
}
// ---- order of the input -------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct Seeded { pub g: Geo, pub seed: u64 }
pub fn shrink_seeded(c: &Seeded) -> Vec<Seeded> { let mut v: Vec<Seeded> = shrink_geo(&c.g).into_iter().map(|g| Seeded { g, seed: c.seed }).collect(); for s in 0..4 { if c.seed != s { v.push(Seeded { g: c.g.clone(), seed: s }); } } v }
pub fn seeded(d: Dom) -> impl Fn(&mut Rng) -> Seeded + Send + Sync + 'static { let g = dom_gen(d); move |r| { let g = g(r); Seeded { g, seed: r.below(1000) } } }
/// same vertices and edges, same sites per cell
pub fn same_shape(a: (&Geo, &Diag), b: (&Geo, &Diag)) -> Result<(), String> {
    let (da, db) = (a.1, b.1);
    if (da.cells.len(), da.verts.len(), da.edges.len()) != (db.cells.len(), db.verts.len(), db.edges.len()) { return Err(format!("{} cells, {} vertices, {} edges against {}, {}, {}", da.cells.len(), da.verts.len(), da.edges.len(), db.cells.len(), db.verts.len(), db.edges.len())); }
    for (x, y) in da.verts.iter().zip(&db.verts) { if x != y { return Err(format!("{x:?} against {y:?}")); } }
    for (x, y) in da.edges.iter().zip(&db.edges) { if x != y { return Err(format!("{x:?} against {y:?}")); } }
    for (x, y) in da.cells.iter().zip(&db.cells) {
        let (s, t) = (cell_site(a.0, x)?, cell_site(b.0, y)?);
        if s != t || x.inc != y.inc { return Err(format!("{x:?} ({s:?}) against {y:?} ({t:?})")); }
    }
    Ok(())
}
fn check_order(c: &Seeded, loose: f64, o: &mut Obs) -> Res {
    let _ = loose;
    let mut r = Rng::new(c.seed);
    let a = build::<i32, f64>(&c.g)?;
    note(&c.g, &a, o);
    let mut h = c.g.clone();
    r.shuffle(&mut h.p);
    r.shuffle(&mut h.s);
    for s in h.s.iter_mut() { if r.chance(1, 2) { *s = [s[2], s[3], s[0], s[1]]; } }
    // repeated input: the same points and segments again, segments also the other way round, and end points as points
    let mut dup = false;
    if r.chance(1, 2) {
        dup = true;
        for _ in 0..1 + r.us(3) {
            match r.below(3) {
                0 if !h.p.is_empty() => { let p = *r.pick(&h.p); let i = r.us(h.p.len() + 1); h.p.insert(i, p); }
                1 if !h.s.is_empty() => { let s = *r.pick(&h.s); let i = r.us(h.s.len() + 1); h.s.insert(i, if r.chance(1, 2) { s } else { [s[2], s[3], s[0], s[1]] }); }
                _ if !h.s.is_empty() => { let s = *r.pick(&h.s); let i = r.us(h.p.len() + 1); h.p.insert(i, if r.chance(1, 2) { [s[0], s[1]] } else { [s[2], s[3]] }); }
                _ => {}
            }
        }
        o.label("repeated input");
    }
    let h = super::structure::ordered(h);
    let b = build::<i32, f64>(&h)?;
    if let Err(m) = same_shape((&c.g, &a), (&h, &b)) { return fail(if dup { "repeat" } else { "order" }, format!("the same sites given as {} build another diagram: {m}", serde_json::to_string(&h).unwrap())); }
    Ok(())
}
// ---- P09 ----------------------------------------------------------------------------------
fn dump<F: FBits>(d: &bv::Diagram<F>) -> String { format!("{:?}", d) }
fn check_repeat(c: &Seeded, o: &mut Obs) -> Res {
    let mut r = Rng::new(c.seed);
    let one = || -> Result<String, Fail> { match build_raw::<i32, f64>(&c.g) { Ok(d) => Ok(dump(&d)), Err(e) => fail("build-error", format!("{e:?}")) } };
    let d = build::<i32, f64>(&c.g)?;
    note(&c.g, &d, o);
    let a = one()?;
    // other diagrams are built in between, and the same one on other threads at the same time
    for _ in 0..2 { let _ = build_raw::<i32, f64>(&gen_any(&mut r, GenCfg::new(8, 5, 6))); }
    ensure!(one()? == a, "repeat-build", "building the same input again gives another diagram");
    let (x, y) = std::thread::scope(|s| { let h = s.spawn(one); let i = s.spawn(one); (h.join(), i.join()) });
    for z in [x, y] { match z { Ok(z) => ensure!(z? == a, "repeat-build", "building the same input on another thread gives another diagram"), Err(_) => return fail("panic", "build panicked on another thread".into()) } }
    Ok(())
}
// ---- P10 ----------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct Big { pub kind: u8, pub n: u32, pub bits: u32, pub seed: u64 }
pub fn big_geo(c: &Big) -> Geo {
    let mut r = Rng::new(c.seed);
    let n = c.n as i64;
    let m = 1i64 << c.bits;
    let side = (n as f64).sqrt().ceil() as i64;
    let mut g = Geo::default();
    match c.kind {
        0 => { let mut seen = std::collections::HashSet::new(); for _ in 0..n { let p = [r.range(-m, m), r.range(-m, m)]; if seen.insert(p) { g.p.push(p); } } }
        1 => { let st = (m / side.max(1)).max(1); for i in 0..n { g.p.push([(i % side) * st - m / 2, (i / side) * st - m / 2]); } }
        2 => { for i in 0..n { g.p.push(if c.seed % 2 == 0 { [0, i] } else { [i, i * 3] }); } }
        3 => { let mut seen = std::collections::HashSet::new(); for i in 0..n { let a = i as f64 / n as f64 * std::f64::consts::TAU; let p = [(m as f64 * a.cos()) as i64, (m as f64 * a.sin()) as i64]; if seen.insert(p) { g.p.push(p); } } }
        // rows of separate segments
        4 => { let st = (m / side.max(1)).max(4); for i in 0..n { let (x, y) = ((i % side) * st - m / 2, (i / side) * st - m / 2); let (dx, dy) = (r.range(1, st / 2), r.range(0, st / 2)); g.s.push([x, y, x + dx, y + dy]); } }
        // a closed polygon on a jagged circle
        5 => {
            let mut pts: Vec<[i64; 2]> = vec![];
            let turn = |a: [i64; 2], b: [i64; 2]| a[0] * b[1] - a[1] * b[0] > 0;
            for i in 0..n {
                let a = i as f64 / n as f64 * std::f64::consts::TAU;
                let q = m as f64 * (0.7 + 0.3 * r.f01());
                let p = [(q * a.cos()) as i64, (q * a.sin()) as i64];
                // rounding must not turn the polygon back, or sides would cross
                if pts.last().map_or(true, |l| turn(*l, p)) && (2 * i < n || turn(p, pts[0])) { pts.push(p); }
            }
            for i in 0..pts.len() { let (a, b) = (pts[i], pts[(i + 1) % pts.len()]); if pts.len() > 2 { g.s.push([a[0], a[1], b[0], b[1]]); } }
        }
        // the lines of a square grid
        6 => { let st = (m / side.max(1)).max(1); for i in 0..n { let (x, y) = ((i % side) * st, (i / side) * st); g.s.push(if r.chance(1, 2) { [x, y, x + st, y] } else { [x, y, x, y + st] }); } }
        // a polyline
        _ => { let st = (m / n.max(1)).max(2); let mut p = [-m, 0]; for _ in 0..n { let q = [p[0] + r.range(1, st), r.range(-m / 2, m / 2)]; g.s.push([p[0], p[1], q[0], q[1]]); p = q; } }
    }
    g
}
fn check_big(c: &Big, o: &mut Obs) -> Res {
    let g = big_geo(c);
    let d = build::<i32, f64>(&g)?;
    note(&g, &d, o);
    o.label(["random", "grid points", "collinear", "circle", "rows of segments", "polygon", "grid lines", "polyline"][c.kind.min(7) as usize]);
    let mut x = 0;
    for e in &d.edges { x ^= e.twin; }
    std::hint::black_box(x);
    check_topology(&d)?;
    check_euler(&d)?;
    check_cells(&g, &d)?;
    Ok(())
}
fn gen_big(minn: i64, maxn: i64) -> impl Fn(&mut Rng) -> Big + Send + Sync + 'static {
    move |r| { let kind = r.below(8) as u8; let n = r.range(minn, maxn) as u32; let lo = (32 - n.leading_zeros()) as i64 / 2 + 6; Big { kind, n, bits: r.range(lo, if kind == 5 || kind == 7 { 14.max(lo + 4) } else { 24 }) as u32, seed: r.below(1 << 30) } }
}
pub fn shrink_big(c: &Big) -> Vec<Big> { [c.n / 2, c.n * 3 / 4, c.n - 1].iter().filter(|n| **n > 1 && **n < c.n).map(|n| Big { n: *n, ..c.clone() }).collect() }

pub fn add(v: &mut Vec<Property>) {
    let rule = "the diagram has at least 2 vertices and 4 cells; distinct by input and by the relation applied";
    let ds = doms();
    let dom = |n: &str| *ds.iter().find(|d| d.name == n).unwrap();
    let moved = |name: &'static str, d: Dom, cases, room: i64| {
        let g = dom_gen(d);
        suite(name, cases, move |r: &mut Rng| {
            let g = g(r);
            let e = extent(&g) as i64;
            let scale = if r.chance(1, 2) { 1 } else { r.range(1, (room / e.max(1) / 4).clamp(1, 64)) };
            let m = (room - e * scale).max(0);
            let m = if r.chance(1, 2) { m.min(4 * e) } else { m };
            Moved { g, dx: r.range(-m, m), dy: r.range(-m, m), sym: r.below(8) as u8, scale }
        }, check_moved, shrink_moved)
    };
    // the same arrangement at any size that fits
    let grown = |name: &'static str, d: Dom, cases| {
        let g = dom_gen(d);
        suite(name, cases, move |r: &mut Rng| {
            let g = g(r);
            let e = extent(&g).max(1.0) as i64;
            let room = i32::MAX as i64;
            let most = (room / e) as f64;
            let scale = (most.powf(r.f01()) as i64).clamp(1, room / e);
            let m = (room - e * scale).min(4 * e * scale);
            Moved { g, dx: r.range(-m, m), dy: r.range(-m, m), sym: r.below(8) as u8, scale }
        }, check_moved, shrink_moved)
    };
    let order = |name: &'static str, d: Dom, cases| { suite(name, cases, seeded(d), move |c: &Seeded, o: &mut Obs| check_order(c, 0.0, o), shrink_seeded) };
    v.push(Property { id: "P08", rule, assumptions: &["placement is compared for inputs within 14 bits and their enlargements to 32 bits, ignoring edges shorter than about 1e-8 of the coordinates"],
        suites: vec![moved("moved-small", dom("small"), (150_000, 1_500_000), 1 << 14), moved("moved-mid", dom("mid"), (80_000, 800_000), 1 << 14),
            grown("grown-small", dom("small"), (60_000, 800_000)), grown("grown-mid", dom("mid"), (40_000, 400_000)),
            order("order-small", dom("small"), (120_000, 1_200_000)), order("order-large", dom("large"), (60_000, 600_000)), order("order-huge", dom("huge"), (40_000, 300_000))] });
    let rep = |name: &'static str, d: Dom, cases| suite(name, cases, seeded(d), check_repeat, shrink_seeded);
    v.push(Property { id: "P09", rule, assumptions: &[], suites: vec![rep("small", dom("small"), (30_000, 300_000)), rep("large", dom("large"), (15_000, 150_000)), rep("huge", dom("huge"), (8_000, 80_000)), rep("many", dom("many"), (600, 10_000))] });
    let mut s = over_domains(1.0, &[], |g, _, o| { let d = build::<i32, f64>(g)?; note(g, &d, o); Ok(()) });
    s.push(suite("big", (160, 2_000), gen_big(50, 3_000), check_big, shrink_big));
    s.push(suite("very-big", (8, 60), gen_big(10_000, 30_000), check_big, shrink_big));
    v.push(Property { id: "P10", rule, assumptions: &[], suites: s });
}
