//! P01-P07, P10: the diagram against its definition.
use crate::diag::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::rng::*;

/// Input domains on which the library is judged. `loose` is the extra relative slack of the metric
/// checks, needed where coordinates are so large that unit-sized detail is below the resolution of
/// a double-precision circle event.
#[derive(Clone, Copy)]
pub struct Dom { pub name: &'static str, pub cfg: fn(&mut Rng) -> GenCfg, pub loose: f64, /** 0 any, 1 points, 2 with segments */ pub kind: u8, /** relative cost */ pub q: u64, pub t: u64 }
pub fn doms() -> Vec<Dom> {
    vec![
        Dom { name: "small", cfg: |r| GenCfg::new(20, 14, r.range(2, 8) as u32), loose: 0.0, kind: 0, q: 200_000, t: 1_500_000 },
        Dom { name: "mid", cfg: |r| GenCfg::calm(20, 14, r.range(9, 14) as u32), loose: 0.0, kind: 0, q: 100_000, t: 800_000 },
        Dom { name: "large", cfg: |r| GenCfg::calm(20, 14, r.range(15, 24) as u32), loose: 1e-6, kind: 0, q: 70_000, t: 400_000 },
        Dom { name: "huge", cfg: |r| GenCfg::wide(20, 14, r.range(25, 30) as u32), loose: 1e-6, kind: 0, q: 60_000, t: 200_000 },
        Dom { name: "full", cfg: |r| GenCfg::calm(20, 14, r.range(3, 14) as u32), loose: 0.0, kind: 3, q: 50_000, t: 300_000 },
        Dom { name: "thin", cfg: |r| GenCfg::new(20, 14, r.range(2, 6) as u32), loose: 0.0, kind: 4, q: 50_000, t: 300_000 },
        Dom { name: "many", cfg: |r| { let b = r.range(7, 14) as u32; GenCfg::calm(220, 90, b) }, loose: 0.0, kind: 0, q: 2_400, t: 15_000 },
    ]
}
/// The same arrangement, as large as 32 bit coordinates can hold it.
pub fn fill(r: &mut Rng, g: Geo) -> Geo {
    let c: Vec<[i64; 2]> = g.p.iter().copied().chain(g.s.iter().flat_map(|s| [[s[0], s[1]], [s[2], s[3]]])).collect();
    if c.is_empty() { return g; }
    let lo = [0, 1].map(|k| c.iter().map(|p| p[k]).min().unwrap());
    let hi = [0, 1].map(|k| c.iter().map(|p| p[k]).max().unwrap());
    let room = (1i64 << 32) - 1;
    let f = room / (hi[0] - lo[0]).max(hi[1] - lo[1]).max(1);
    let at = [0, 1].map(|k| { let spare = room - (hi[k] - lo[k]) * f; i32::MIN as i64 + match r.below(4) { 0 => 0, 1 => spare, 2 => spare / 2, _ => r.range(0, spare) } });
    super::meta::map_geo(&g, |p| [(p[0] - lo[0]) * f + at[0], (p[1] - lo[1]) * f + at[1]])
}
/// Points that are almost on one circle, here or far from the origin.
fn near_circle(r: &mut Rng) -> Geo {
    let rad = 1i64 << r.range(8, 27);
    let rad = r.range(rad, 2 * rad);
    let far = if r.chance(1, 3) { 0 } else { 1i64 << r.range(10, 30) };
    let c = [r.range(-far, far), r.range(-far, far)];
    let off = *r.pick(&[0i64, 1, 1, 3, 10, 1000]);
    let n = r.range(4, 11);
    let mut g = Geo { p: vec![], s: vec![] };
    for _ in 0..n {
        let q = if r.chance(1, 4) { let k = r.range(-rad, rad); [[rad, k], [-rad, k], [k, rad], [k, -rad], [rad, 0], [-rad, 0], [0, rad], [0, -rad]][r.us(8)] } else { let t = r.f01() * std::f64::consts::TAU; [(t.cos() * rad as f64).round() as i64, (t.sin() * rad as f64).round() as i64] };
        let q = [c[0] + q[0] + r.range(-off, off), c[1] + q[1] + r.range(-off, off)];
        if !g.p.contains(&q) { g.p.push(q); }
    }
    g
}
/// The same arrangement with one axis drawn out.
pub fn stretch(r: &mut Rng, g: Geo) -> Geo {
    let most = 1i64 << r.range(0, 5);
    let (f, x) = (r.range(1, most), r.chance(1, 2));
    super::meta::map_geo(&g, |p| if x { [p[0] * f, p[1]] } else { [p[0], p[1] * f] })
}
pub fn dom_gen(d: Dom) -> impl Fn(&mut Rng) -> Geo + Send + Sync + 'static {
    move |r| {
        let c = (d.cfg)(r);
        ordered(match d.kind {
            1 => gen_points(r, c),
            2 => gen_mixed(r, c),
            3 => { let g = gen_any(r, c); fill(r, g) }
            4 => { let g = gen_any(r, c); stretch(r, g) }
            _ => gen_any(r, c),
        })
    }
}
/// One input in eight is given in order, or partly so, as generated data often is.
pub fn ordered(mut g: Geo) -> Geo {
    let mut r = case_rng(&g);
    if !r.chance(1, 8) { return g; }
    if r.chance(1, 3) { for s in g.s.iter_mut() { if (s[0], s[1]) > (s[2], s[3]) { *s = [s[2], s[3], s[0], s[1]]; } } }
    match r.below(5) {
        0 => { g.p.sort(); g.s.sort(); }
        1 => { g.p.sort_by_key(|p| p[0]); g.s.sort_by_key(|s| s[0]); }
        2 => { g.p.sort_by_key(|p| (p[0], -p[1])); g.s.sort_by_key(|s| (s[0], -s[1])); }
        3 => { g.p.sort_by_key(|p| (p[1], p[0])); g.s.sort_by_key(|s| (s[1], s[0])); }
        _ => { g.p.sort(); g.p.reverse(); g.s.sort(); g.s.reverse(); }
    }
    g
}
pub fn shrink_v(g: &Geo) -> Vec<Geo> { shrink_geo(g) }
pub fn case_rng(g: &Geo) -> Rng { Rng::new(hash_bytes(&serde_json::to_vec(g).unwrap())) }
pub fn note(g: &Geo, d: &Diag, o: &mut Obs) {
    o.nontrivial = d.verts.len() >= 2 && d.cells.len() >= 4;
    o.sub += d.edges.len() as u64;
    if g.s.is_empty() { o.label("points only") } else if g.p.is_empty() { o.label("segments only") } else { o.label("points and segments") }
    if d.edges.iter().any(|e| !e.linear) { o.label("parabolic edges") }
    if d.edges.iter().any(|e| !e.primary) { o.label("secondary edges") }
    if d.verts.is_empty() { o.label("no vertices") }
    let mut deg = vec![0; d.verts.len()];
    for e in &d.edges { if e.v0 != NONE { deg[e.v0] += 1; } }
    if deg.iter().any(|&x| x > 3) { o.label("vertex of degree above 3") }
    if d.cells.iter().any(|c| c.inc == NONE) { o.label("cell without edges") }
}
pub const ULPS: f64 = 256.0;
/// The diagram with the parts the metric checks rely on already verified.
pub fn ctx<'a>(g: &'a Geo, d: &'a Diag, loose: f64) -> Result<Ctx<'a>, Fail> {
    check_topology(d)?;
    let mut c = Ctx::new(g, d, ULPS, f64::EPSILON)?;
    c.loose = loose;
    Ok(c)
}
/// The same check over every domain.
pub fn over_domains(scale: f64, keep: &[&str], f: fn(&Geo, f64, &mut Obs) -> Res) -> Vec<Box<dyn DynSuite>> {
    doms().into_iter().filter(|d| keep.is_empty() || keep.contains(&d.name)).map(|d| {
        let n = |x: u64| ((x as f64 * scale) as u64).max(1);
        suite(d.name, (n(d.q), n(d.t)), dom_gen(d), move |g: &Geo, o: &mut Obs| f(g, d.loose, o), shrink_v)
    }).collect()
}
/// relative slack of a circle event: the predicates promise 64 ulp
pub const CIRCLE_TOL: f64 = 2e-14;
const DIAGRAM_ASSUME: &[&str] = &[
    "inputs are valid as the library documents: distinct segments meet only at shared endpoints and no point lies inside a segment",
    "coordinates up to 14 bits, and enlargements of such inputs to 32 bits, are judged to about 1e-13, others of 15 to 30 bits with a relative slack of 1e-6; above 14 bits no input puts unit-sized detail next to much larger detail",
    "the oracle works in double-double arithmetic (about 106 bits)",
];

pub fn add(v: &mut Vec<Property>) {
    v.push(Property { id: "P01", rule: "the diagram has at least 2 vertices and 4 cells; distinct by input", assumptions: DIAGRAM_ASSUME,
        suites: over_domains(1.6, &[], |g, loose, o| { let d = build::<i32, f64>(g)?; let c = ctx(g, &d, loose)?; note(g, &d, o); c.check_vertices() }) });
    v.push(Property { id: "P02", rule: "the diagram has at least 2 vertices and 4 cells; distinct by input", assumptions: DIAGRAM_ASSUME,
        suites: over_domains(2.0, &[], |g, _, o| { let raw = match build_raw::<i32, f64>(g) { Ok(d) => d, Err(e) => return fail("build-error", format!("{e:?}")) }; let d = extract(&raw); note(g, &d, o); check_topology(&d)?; check_iterators(&raw, &d) }) });
    let cells: fn(&Geo, f64, &mut Obs) -> Res = |g, _, o| { let d = build::<i32, f64>(g)?; note(g, &d, o); check_cells(g, &d)?; check_cell_regions(g, &d) };
    let mut s = over_domains(1.6, &[], cells);
    for (d, n) in [("small", (100_000, 1_000_000)), ("large", (40_000, 400_000))] {
        let g = dom_gen(*doms().iter().find(|x| x.name == d).unwrap());
        s.push(suite(if d == "small" { "repeated-small" } else { "repeated-large" }, n, move |r: &mut Rng| { let g = g(r); repeated(r, g) }, move |g: &Geo, o: &mut Obs| { if g.s.iter().any(|s| ends(s).0 == ends(s).1) { o.label("segment without length"); } cells(g, 0.0, o) }, shrink_repeated));
    }
    v.push(Property { id: "P03", rule: "the diagram has at least 2 vertices and 4 cells; distinct by input", assumptions: DIAGRAM_ASSUME, suites: s });
    v.push(Property { id: "P04", rule: "the diagram has at least 2 vertices and 4 cells; distinct by input", assumptions: DIAGRAM_ASSUME,
        suites: over_domains(2.0, &[], |g, _, o| { let d = build::<i32, f64>(g)?; note(g, &d, o); check_euler(&d)?; check_infinite_ring(&d)?; check_distinct(&d) }) });
    v.push(Property { id: "P05", rule: "the diagram has at least 2 vertices and 4 cells; distinct by input", assumptions: DIAGRAM_ASSUME,
        suites: over_domains(2.0, &[], |g, loose, o| { let d = build::<i32, f64>(g)?; let c = ctx(g, &d, loose)?; note(g, &d, o); c.check_edge_class() }) });
    v.push(Property { id: "P06", rule: "the diagram has at least 2 vertices and 4 cells; distinct by input", assumptions: DIAGRAM_ASSUME,
        suites: over_domains(0.9, &[], |g, loose, o| { let d = build::<i32, f64>(g)?; let c = ctx(g, &d, loose)?; note(g, &d, o); c.check_edges(&mut case_rng(g), 3) }) });
    let mut s = over_domains(1.0, &[], |g, loose, o| { let d = build::<i32, f64>(g)?; let c = ctx(g, &d, loose)?; note(g, &d, o); c.check_walk(&mut case_rng(g), 24) });
    s.push(suite("delaunay", (60_000, 1_000_000), |r: &mut Rng| { let b = r.range(2, 9) as u32; gen_points(r, GenCfg::new(11, 0, b)) }, |g: &Geo, o: &mut Obs| { let d = build::<i32, f64>(g)?; note(g, &d, o); check_topology(&d)?; crate::delaunay::check(g, &d, 0.0, o) }, shrink_v));
    s.push(suite("delaunay-circle", (1_000_000, 20_000_000), near_circle, |g: &Geo, o: &mut Obs| { let d = build::<i32, f64>(g)?; note(g, &d, o); check_topology(&d)?; crate::delaunay::check_pairs(g, &d, o) }, shrink_v));
    s.push(suite("delaunay-large", (60_000, 1_000_000), |r: &mut Rng| { let b = r.range(10, 24) as u32; gen_points(r, GenCfg::calm(11, 0, b)) }, |g: &Geo, o: &mut Obs| { let d = build::<i32, f64>(g)?; note(g, &d, o); check_topology(&d)?; crate::delaunay::check(g, &d, 1e-9, o) }, shrink_v));
    v.push(Property { id: "P07", rule: "the diagram has at least 2 vertices and 4 cells; distinct by input", assumptions: DIAGRAM_ASSUME, suites: s });
}

/// No two vertices are the same but for rounding; so every edge has two different ends.
pub fn check_distinct(d: &Diag) -> Res {
    let mut v: Vec<(usize, [f64; 2])> = d.verts.iter().enumerate().map(|(i, v)| (i, [v.x, v.y])).collect();
    v.sort_by(|a, b| a.1[0].total_cmp(&b.1[0]));
    for i in 0..v.len() { for j in i + 1..v.len() {
        let (p, q) = (v[i].1, v[j].1);
        let near = 8.0 * f64::EPSILON * p[0].abs().max(p[1].abs());
        if q[0] - p[0] > near { break; }
        ensure!((q[1] - p[1]).abs() > near, "vertex-twice", "vertices {} and {} are one: {p:?} {q:?}", v[i].0, v[j].0);
    } }
    Ok(())
}

/// The same sites again, given more than once and in other forms: points, end points and segments
/// (either way round) repeated, segments without length on points, end points or by themselves.
pub fn repeated(r: &mut Rng, mut g: Geo) -> Geo {
    let e = g.p.iter().flatten().chain(g.s.iter().flatten()).map(|v| v.abs()).max().unwrap_or(1);
    for _ in 0..1 + r.us(5) {
        let seg = |r: &mut Rng, g: &Geo| { let v: Vec<[i64; 4]> = g.s.iter().copied().filter(|s| ends(s).0 != ends(s).1).collect(); if v.is_empty() { None } else { let s = *r.pick(&v); Some(if r.chance(1, 2) { s } else { [s[2], s[3], s[0], s[1]] }) } };
        let z = match r.below(6) {
            0 => { if !g.p.is_empty() { let p = *r.pick(&g.p); let i = r.us(g.p.len() + 1); g.p.insert(i, p); } continue; }
            1 => { if let Some(s) = seg(r, &g) { let i = r.us(g.s.len() + 1); g.s.insert(i, s); } continue; }
            2 => { if let Some(s) = seg(r, &g) { let i = r.us(g.p.len() + 1); g.p.insert(i, ends(&s).0); } continue; }
            3 => match seg(r, &g) { Some(s) => ends(&s).0, None => continue },
            4 => if g.p.is_empty() { continue } else { *r.pick(&g.p) },
            _ => { let p = [r.range(-e, e), r.range(-e, e)]; if g.s.iter().any(|s| inside(s, p)) { continue; } p }
        };
        let i = r.us(g.s.len() + 1);
        g.s.insert(i, [z[0], z[1], z[0], z[1]]);
    }
    g
}
/// Like `shrink_geo`, for inputs that may have segments without length.
pub fn shrink_repeated(g: &Geo) -> Vec<Geo> {
    let mut v = vec![];
    for i in 0..g.s.len() { let mut h = g.clone(); h.s.remove(i); v.push(h); }
    for i in 0..g.p.len() { let mut h = g.clone(); h.p.remove(i); v.push(h); }
    for d in [1 << 20, 1000, 16, 4, 2] { let mut h = g.clone(); for c in h.p.iter_mut().flatten().chain(h.s.iter_mut().flatten()) { *c /= d; } v.push(h); }
    for i in 0..g.p.len() { for j in 0..2 { let mut h = g.clone(); h.p[i][j] /= 2; v.push(h); } }
    for i in 0..g.s.len() { for j in 0..4 { let mut h = g.clone(); h.s[i][j] /= 2; v.push(h); } }
    v.retain(|h| h != g && valid(h));
    v
}
/// The public iterators walk exactly the loops the links describe.
pub fn check_iterators(raw: &boostvoronoi::Diagram<f64>, d: &Diag) -> Res {
    use boostvoronoi::{CellIndex, EdgeIndex};
    for c in &d.cells {
        let got: Vec<usize> = raw.cell_edge_iterator(CellIndex(c.id)).map(|e| e.0).take(d.edges.len() + 1).collect();
        let mut want = vec![];
        if c.inc != NONE { let mut e = c.inc; loop { want.push(e); e = d.edges[e].next; if e == c.inc { break; } } }
        ensure!(got == want, "cell-iterator", "cell {}: iterator gives {got:?}, the loop is {want:?}", c.id);
    }
    for (i, e) in d.edges.iter().enumerate() {
        if e.v0 == NONE { continue; }
        let got: Vec<usize> = raw.edge_rot_next_iterator(Some(EdgeIndex(i))).map(|e| e.0).take(d.edges.len() + 1).collect();
        let mut want = vec![];
        let mut k = i;
        loop { want.push(k); k = d.edges[d.edges[k].prev].twin; if k == i { break; } }
        ensure!(got == want, "rot-iterator", "edge {i}: rot_next iterator gives {got:?}, expected {want:?}");
        let back: Vec<usize> = raw.edge_rot_prev_iterator(Some(EdgeIndex(i))).map(|e| e.0).take(d.edges.len() + 1).collect();
        let mut w = vec![i];
        w.extend(want[1..].iter().rev());
        ensure!(back == w, "rot-iterator", "edge {i}: rot_prev iterator gives {back:?}, expected {w:?}");
    }
    Ok(())
}
/// A cell lacks a region only when another site at the same place takes it all; a single point
/// cell with other sites present always has one.
pub fn check_cell_regions(g: &Geo, d: &Diag) -> Res {
    let sites = check_cells(g, d)?;
    let distinct = sites.len();
    for (i, c) in d.cells.iter().enumerate() {
        let free = match sites[i] { Site::Pt(p) => !g.s.iter().any(|s| ends(s).0 == p || ends(s).1 == p), Site::Seg(..) => true };
        if distinct > 1 && free { ensure!(c.inc != NONE, "cell-empty", "cell {i} of {:?} has no edges although {} sites are present", sites[i], distinct); }
    }
    Ok(())
}
/// The unbounded cells and edges form one ring at infinity.
pub fn check_infinite_ring(d: &Diag) -> Res {
    let starts = d.edges.iter().filter(|e| e.v0 == NONE).count();
    let ends_ = (0..d.edges.len()).filter(|&i| d.v1(i) == NONE).count();
    ensure!(starts == ends_, "infinite-ring", "{starts} half-edges come from infinity, {ends_} go there");
    if d.verts.is_empty() { return Ok(()); }
    for (i, e) in d.edges.iter().enumerate() { ensure!(e.v0 != NONE || d.v1(i) != NONE, "infinite-line", "edge {i} is a full line in a diagram that has vertices"); }
    ensure!(starts >= 2, "infinite-ring", "only {starts} rays");
    // go around: a ray into infinity is followed, in its cell, by a ray out of it, whose twin is the next ray in
    let first = (0..d.edges.len()).find(|&i| d.v1(i) == NONE).unwrap();
    let (mut i, mut n) = (first, 0);
    loop {
        let o = d.edges[i].next;
        ensure!(d.edges[o].v0 == NONE, "infinite-ring", "edge {i} leads to infinity but its next edge {o} starts at a vertex");
        i = d.edges[o].twin;
        n += 1;
        if i == first { break; }
        ensure!(n <= starts, "infinite-ring", "the ring at infinity does not close");
    }
    ensure!(n == starts, "infinite-ring", "the ring at infinity passes {n} of {starts} rays");
    Ok(())
}
