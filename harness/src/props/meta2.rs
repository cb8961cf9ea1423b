//! P11, P12, P25, P26, P28.
use super::meta::*;
use super::structure::*;
use crate::diag::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::rng::*;
use boostvoronoi as bv;
use serde::{Deserialize, Serialize};

// ---- P11 ----------------------------------------------------------------------------------
fn check_ints(g: &Geo, _: f64, o: &mut Obs) -> Res {
    let a = build::<i32, f64>(g)?;
    note(g, &a, o);
    let b = build::<i64, f64>(g)?;
    ensure!(a == b, "int-type", "32 and 64 bit coordinates give different diagrams: {}", same_shape((g, &a), (g, &b)).err().unwrap_or_default());
    Ok(())
}
/// A single precision diagram is the double precision one with its vertices rounded; vertices that
/// become indistinguishable are merged.
/// (`loose` 1.0: merging may leave a vertex with two edges, as the input has detail too fine for single precision.)
fn check_single(g: &Geo, loose: f64, o: &mut Obs) -> Res {
    let a = build::<i32, f64>(g)?;
    let b = build::<i32, f32>(g)?;
    note(g, &a, o);
    match check_topology(&b) { Err(f) if loose > 0.0 && f.sig == "vertex-degree" => { o.label("vertex with two edges"); check_euler(&b)?; return Ok(()); } r => r? }
    check_euler(&b)?;
    ensure!(a.cells.iter().zip(&b.cells).all(|(x, y)| (x.id, x.src, x.cat) == (y.id, y.src, y.cat)) && a.cells.len() == b.cells.len(), "f32-cells", "the cells differ");
    let (ca, cb) = (canon(g, &a)?, canon(g, &b)?);
    match same_contracted(&ca, &cb, extent(g), 4.0 * f32::EPSILON as f64) { Ok(n) => { o.sub += n as u64; } Err(m) => return fail("f32", m) }
    // rounding drops edges and never changes what an edge separates; an edge of a few ulp may stay that double precision drops
    let size = |d: &Diag, v: usize| d.verts[v].x.abs().max(d.verts[v].y.abs());
    let tiny = |d: &Diag, i: usize| { let (u, w) = (d.edges[i].v0, d.v1(i)); u != NONE && w != NONE && (d.verts[u].x - d.verts[w].x).abs().max((d.verts[u].y - d.verts[w].y).abs()) <= 4.0 * f32::EPSILON as f64 * size(d, u).max(size(d, w)) };
    let kinds = |d: &Diag, all: bool| { let mut m: std::collections::BTreeMap<_, i64> = Default::default(); for (i, e) in d.edges.iter().enumerate() { if all || !tiny(d, i) { *m.entry((e.cell, d.edges[e.twin].cell, e.linear, e.primary)).or_default() += 1; } } m };
    let ka = kinds(&a, true);
    for (k, n) in kinds(&b, false) { ensure!(ka.get(&k).copied().unwrap_or(0) >= n, "f32-edges", "single precision has {n} half-edges between cells {} and {} (linear {}, primary {}), double precision {}", k.0, k.1, k.2, k.3, ka.get(&k).copied().unwrap_or(0)); }
    // every vertex is the rounding of a double precision vertex
    let mut have: std::collections::HashSet<(u64, u64)> = Default::default();
    for v in &a.verts { have.insert(((v.x as f32 as f64).to_bits(), (v.y as f32 as f64).to_bits())); }
    let near = |v: &DVert| a.verts.iter().any(|w| (w.x - v.x).abs() <= 1.3e-7 * w.x.abs() && (w.y - v.y).abs() <= 1.3e-7 * w.y.abs());
    for v in &b.verts { ensure!(have.contains(&(v.x.to_bits(), v.y.to_bits())) || near(v), "f32-vertex", "single precision vertex ({:e}, {:e}) is not the rounding of any double precision vertex", v.x, v.y); }
    Ok(())
}
// ---- P12 ----------------------------------------------------------------------------------
fn check_sync(c: &Seeded, o: &mut Obs) -> Res {
    let g = &c.g;
    let mut r = Rng::new(c.seed);
    let d = match build_raw::<i32, f64>(g) { Ok(d) => d, Err(e) => return fail("build-error", format!("{e:?}")) };
    // colours the user attached must survive
    for i in 0..d.edges().len() { if r.chance(1, 3) { let _ = d.edge_set_color(bv::EdgeIndex(i), r.below(1 << 27) as u32); } }
    for i in 0..d.vertices().len() { if r.chance(1, 3) { let _ = d.vertex_set_color(bv::VertexIndex(i), r.below(1 << 27) as u32); } }
    let plain = extract(&d);
    note(g, &plain, o);
    let ecol: Vec<u32> = d.edges().iter().map(|e| e.get().get_color()).collect();
    let vcol: Vec<u32> = d.vertices().iter().map(|e| e.get().get_color()).collect();
    let dbg = (d.cells().iter().map(|c| format!("{:?}", c.get())).collect::<Vec<_>>(), d.vertices().iter().map(|c| format!("{:?}", c.get())).collect::<Vec<_>>(), d.edges().iter().map(|c| format!("{:?}", c.get())).collect::<Vec<_>>());
    let s = bv::SyncDiagram::from(d);
    let same = |s: &bv::SyncDiagram<f64>, what: &str| -> Res {
        ensure!(extract_sync(s) == plain, "sync-fields", "{what}: contents differ: {}", same_shape((g, &plain), (g, &extract_sync(s))).err().unwrap_or_default());
        ensure!(s.edges().iter().map(|e| e.get_color()).eq(ecol.iter().copied()) && s.vertices().iter().map(|e| e.get_color()).eq(vcol.iter().copied()), "sync-colors", "{what}: colours differ");
        let now = (s.cells().iter().map(|c| format!("{c:?}")).collect::<Vec<_>>(), s.vertices().iter().map(|c| format!("{c:?}")).collect::<Vec<_>>(), s.edges().iter().map(|c| format!("{c:?}")).collect::<Vec<_>>());
        ensure!(now == dbg, "sync-fields", "{what}: printed contents differ");
        Ok(())
    };
    same(&s, "converted")?;
    let j = match serde_json::to_string(&s) { Ok(j) => j, Err(e) => return fail("serde", format!("serialising fails: {e}")) };
    let t: bv::SyncDiagram<f64> = match serde_json::from_str(&j) { Ok(t) => t, Err(e) => return fail("serde", format!("what was serialised does not parse: {e}")) };
    same(&t, "serialised and read back")?;
    // queries of the flat form
    let (nc, nv, ne) = (plain.cells.len(), plain.verts.len(), plain.edges.len());
    let opt = |v: usize| if v == NONE { None } else { Some(bv::VertexIndex(v)) };
    for (i, e) in plain.edges.iter().enumerate() {
        let id = bv::EdgeIndex(i);
        let v1 = plain.v1(i);
        let bad = |m: &str| fail::<()>("sync-query", format!("edge {i} {e:?}: {m}"));
        if t.edge_get_twin(id).ok().map(|x| x.0) != Some(e.twin) { return bad("edge_get_twin"); }
        if t.edge_get_next(id).ok().map(|x| x.0) != Some(e.next) { return bad("edge_get_next"); }
        if t.edge_get_prev(id).ok().map(|x| x.0) != Some(e.prev) { return bad("edge_get_prev"); }
        if t.edge_get_vertex0(id).ok() != Some(opt(e.v0)) { return bad("edge_get_vertex0"); }
        if t.edge_get_vertex1(id).ok() != Some(opt(v1)) { return bad("edge_get_vertex1"); }
        let fin = e.v0 != NONE && v1 != NONE;
        if t.edge_is_finite(id).ok() != Some(fin) || t.edge_is_infinite(id).ok() != Some(!fin) { return bad("edge_is_finite"); }
        if t.edge_rot_next(id).ok().map(|x| x.0) != Some(plain.edges[e.prev].twin) { return bad("edge_rot_next"); }
        if t.edge_rot_prev(id).ok().map(|x| x.0) != Some(plain.edges[e.twin].next) { return bad("edge_rot_prev"); }
        if t.edge_get(id).ok().map(|x| x.id().0) != Some(i) { return bad("edge_get"); }
        if e.v0 != NONE {
            let got: Vec<usize> = t.edge_rot_next_iterator(id).take(ne + 1).map(|e| e.0).collect();
            let mut want = vec![i];
            let mut k = plain.edges[e.prev].twin;
            while k != i { want.push(k); k = plain.edges[plain.edges[k].prev].twin; }
            if got != want { return bad("edge_rot_next_iterator"); }
        }
        o.sub += 9;
    }
    for i in 0..nv { ensure!(t.vertex_get(bv::VertexIndex(i)).ok().map(|v| (v.get_id().0, v.x().to_bits(), v.y().to_bits())) == Some((i, plain.verts[i].x.to_bits(), plain.verts[i].y.to_bits())), "sync-query", "vertex_get({i})"); }
    for i in 0..nc { ensure!(t.cell_get(bv::CellIndex(i)).ok().map(|v| v.id().0) == Some(i), "sync-query", "cell_get({i})"); }
    for k in [0usize, 1, 1000] {
        let (e, v, c) = (bv::EdgeIndex(ne + k), bv::VertexIndex(nv + k), bv::CellIndex(nc + k));
        ensure!(t.edge_get(e).is_err() && t.edge_get_twin(e).is_err() && t.edge_get_next(e).is_err() && t.edge_get_prev(e).is_err() && t.edge_get_vertex0(e).is_err() && t.edge_get_vertex1(e).is_err() && t.edge_is_finite(e).is_err() && t.edge_is_infinite(e).is_err() && t.edge_rot_next(e).is_err() && t.edge_rot_prev(e).is_err() && t.vertex_get(v).is_err() && t.cell_get(c).is_err(), "sync-missing", "a query for an element that does not exist (edge {}, vertex {}, cell {}) succeeds", e.0, v.0, c.0);
    }
    // mutation through the flat form touches the named element only
    let mut t = t;
    if ne > 0 {
        let k = r.us(ne);
        let col = r.below(1 << 27) as u32;
        if let Ok(e) = t.edge_get_mut(bv::EdgeIndex(k)) { e.set_color(col); } else { return fail("sync-query", format!("edge_get_mut({k}) fails")); }
        for i in 0..ne { ensure!(t.edges()[i].get_color() == if i == k { col } else { ecol[i] }, "sync-mut", "after setting the colour of edge {k}, edge {i} has colour {}", t.edges()[i].get_color()); }
        ensure!(extract_sync(&t) == plain, "sync-mut", "setting a colour changed the diagram");
    }
    if nv > 0 {
        let k = r.us(nv);
        let col = r.below(1 << 27) as u32;
        if let Ok(e) = t.vertex_get_mut(bv::VertexIndex(k)) { e.set_color(col); } else { return fail("sync-query", format!("vertex_get_mut({k}) fails")); }
        for i in 0..nv { ensure!(t.vertices()[i].get_color() == if i == k { col } else { vcol[i] }, "sync-mut", "after setting the colour of vertex {k}, vertex {i} has colour {}", t.vertices()[i].get_color()); }
        ensure!(extract_sync(&t) == plain, "sync-mut", "setting a colour changed the diagram");
    }
    Ok(())
}
// ---- P25 ----------------------------------------------------------------------------------
/// The original is a reference only where its own diagram passes the oracle, without slack.
fn reference_ok(g: &Geo, b: &Diag) -> Res {
    let loose = 0.0;
    check_euler(b)?;
    let c = ctx(g, b, loose)?;
    let mut r = case_rng(g);
    c.check_vertices()?; c.check_edge_class()?; c.check_edges(&mut r, 3)?; c.check_walk(&mut r, 16)
}
pub fn check_reference(g: &Geo, _: f64, o: &mut Obs) -> Res {
    let a = build::<i32, f64>(g)?;
    note(g, &a, o);
    let b = reference(g);
    if a == b { o.sub += b.edges.len() as u64; return Ok(()); }
    let mut differs = || -> Result<(), String> {
        check_topology(&a).map_err(|f| f.msg)?;
        let (ca, cb) = (canon(g, &a).map_err(|f| f.msg)?, canon(g, &b).map_err(|f| f.msg)?);
        // (ties that the sweep leaves open fall the same way in both)
        same_contracted(&ca, &cb, extent(g), 1e-9).map(|n| o.sub += n as u64)
    };
    // (a malformed original has no canonical form)
    if check_topology(&b).is_ok() { match differs() { Ok(()) => return Ok(()), Err(m) if reference_ok(g, &b).is_ok() => return fail("reference", format!("differs from the original, whose diagram is right: {m}")), Err(_) => {} } }
    o.nontrivial = false;
    o.label("original is wrong: not compared");
    Ok(())
}
// ---- P28 ----------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct Pieces { pub g: Geo, /** zero-length segments: position and place */ pub z: Vec<(usize, [i64; 2])>, pub cuts: Vec<usize>, pub scuts: Vec<usize>, pub style: u8 }
fn check_pieces(c: &Pieces, o: &mut Obs) -> Res {
    let mut g = c.g.clone();
    for (i, p) in &c.z { let i = (*i).min(g.s.len()); g.s.insert(i, [p[0], p[1], p[0], p[1]]); }
    let whole = match build_raw::<i32, f64>(&g) { Ok(d) => extract(&d), Err(e) => return fail("build-error", format!("{e:?}")) };
    note(&g, &whole, o);
    let (p, s) = (pts::<i32>(&g), segs::<i32>(&g));
    let mut b = bv::Builder::<i32, f64>::default();
    let cut = |cuts: &[usize], n: usize| { let mut v: Vec<usize> = cuts.iter().map(|c| c % (n + 1)).collect(); v.push(0); v.push(n); v.sort(); v };
    let e = |e: bv::BvError| Fail { sig: "pieces-error".into(), msg: format!("adding input in pieces fails: {e:?}") };
    for w in cut(&c.cuts, p.len()).windows(2) {
        let part = &p[w[0]..w[1]];
        b = match c.style % 3 { 0 => b.with_vertices(part.iter()), 1 => b.with_vertices(part.to_vec()), _ => { let a: Vec<[i32; 2]> = part.iter().map(|p| [p.x, p.y]).collect(); b.with_vertices(a.iter()) } }.map_err(e)?;
    }
    for w in cut(&c.scuts, s.len()).windows(2) {
        let part = &s[w[0]..w[1]];
        b = match c.style / 3 % 3 { 0 => b.with_segments(part.iter()), 1 => b.with_segments(part.to_vec()), _ => { let a: Vec<[i32; 4]> = part.iter().map(|l| [l.start.x, l.start.y, l.end.x, l.end.y]).collect(); b.with_segments(a.iter()) } }.map_err(e)?;
    }
    let d = match b.build() { Ok(d) => extract(&d), Err(e) => return fail("build-error", format!("{e:?}")) };
    if d != whole { return fail("pieces", format!("input added in pieces builds another diagram: {}", same_shape((&g, &whole), (&g, &d)).err().unwrap_or_else(|| "cells differ".into()))); }
    check_cells(&g, &d)?;
    // zero-length segments are points
    if !c.z.is_empty() {
        o.label("zero-length segments");
        let mut h = c.g.clone();
        for (_, p) in &c.z { h.p.push(*p); }
        let e = build::<i32, f64>(&h)?;
        if let Err(m) = same_shape((&g, &d), (&h, &e)) { return fail("zero-length", format!("a segment whose ends coincide is not treated as a point: {m}")); }
    }
    // points after segments are refused, before that they are not
    let b = match bv::Builder::<i32, f64>::default().with_segments(s.iter()) { Ok(b) => b, Err(e) => return fail("pieces-error", format!("{e:?}")) };
    match b.with_vertices(p.iter()) { Err(bv::BvError::VerticesGoesFirst(_)) => {} Err(e) => return fail("late-points", format!("points added after segments give the wrong error {e:?}")), Ok(_) => return fail("late-points", "points added after segments are accepted, their source index would be that of a segment".into()) }
    Ok(())
}
pub fn add(v: &mut Vec<Property>) {
    let rule = "the diagram has at least 2 vertices and 4 cells; distinct by input and by the relation applied";
    let ds = doms();
    let dom = |n: &str| *ds.iter().find(|d| d.name == n).unwrap();
    let mut s = over_domains(0.8, &["small", "mid", "large", "huge", "full"], check_ints);
    s.push(suite("single-small", (40_000, 600_000), dom_gen(dom("small")), |g: &Geo, o: &mut Obs| check_single(g, 0.0, o), shrink_geo));
    for (n, d) in [("single-large", "large"), ("single-huge", "huge")] { s.push(suite(n, (20_000, 300_000), dom_gen(dom(d)), |g: &Geo, o: &mut Obs| check_single(g, 1.0, o), shrink_geo)); }
    let g = dom_gen(dom("mid"));
    s.push(suite("single-far", (20_000, 300_000), move |r: &mut Rng| { let g = g(r); let m = 1 << r.range(18, 28); let (dx, dy) = (r.range(-m, m), r.range(-m, m)); map_geo(&g, |p| [p[0] + dx, p[1] + dy]) }, |g: &Geo, o: &mut Obs| check_single(g, 1.0, o), shrink_geo));
    s.push(suite("single-mid", (20_000, 300_000), dom_gen(dom("mid")), |g: &Geo, o: &mut Obs| check_single(g, 0.0, o), shrink_geo));
    v.push(Property { id: "P11", rule, assumptions: &["single precision is compared ignoring edges shorter than the resolution of that precision"], suites: s });
    let sync = |name: &'static str, d: Dom, n| suite(name, n, seeded(d), check_sync, shrink_seeded);
    v.push(Property { id: "P12", rule, assumptions: &["serialisation is exercised through JSON with exact float printing"], suites: vec![sync("small", dom("small"), (120_000, 1_000_000)), sync("large", dom("large"), (50_000, 400_000)), sync("huge", dom("huge"), (30_000, 250_000))] });
    let s = over_domains(1.2, &[], check_reference);
    v.push(Property { id: "P25", rule, assumptions: &["the installed Boost.Polygon headers are the original"], suites: s });
    v.push(Property { id: "P26", rule, assumptions: &[], suites: over_domains(1.6, &[], |g, loose, o| { let d = build::<i32, f64>(g)?; let c = ctx(g, &d, loose)?; note(g, &d, o); if d.verts.iter().any(|v| v.site) { o.label("vertex on a site") } c.check_site_flag() }) });
    let pc = |name: &'static str, d: Dom, n| { let gg = dom_gen(d); suite(name, n, move |r: &mut Rng| {
        let g = gg(r);
        let mut k = Sink { g: g.clone(), max_p: 1000, max_s: 1000 };
        let e = extent(&g) as i64;
        let mut z = vec![];
        if r.chance(1, 2) { for _ in 0..1 + r.us(4) { let p = if r.chance(1, 3) && !g.s.is_empty() { let s = r.pick(&g.s); [s[0], s[1]] } else { [r.range(-e, e), r.range(-e, e)] }; if !g.p.contains(&p) && !g.s.iter().any(|s| inside(s, p)) { k.pt(p); z.push((r.us(g.s.len() + 1), p)); } } }
        let cuts = (0..r.us(4)).map(|_| r.us(40)).collect();
        let scuts = (0..r.us(4)).map(|_| r.us(40)).collect();
        Pieces { g, z, cuts, scuts, style: r.below(9) as u8 }
    }, check_pieces, |c: &Pieces| { let mut v: Vec<Pieces> = shrink_geo(&c.g).into_iter().filter(|g| c.z.iter().all(|(_, p)| !g.s.iter().any(|s| inside(s, *p)))).map(|g| Pieces { g, ..c.clone() }).collect();
        for i in 0..c.z.len() { let mut d = c.clone(); d.z.remove(i); v.push(d); } for i in 0..c.cuts.len() { let mut d = c.clone(); d.cuts.remove(i); v.push(d); } for i in 0..c.scuts.len() { let mut d = c.clone(); d.scuts.remove(i); v.push(d); } v }) };
    v.push(Property { id: "P28", rule, assumptions: &[], suites: vec![pc("small", dom("small"), (200_000, 2_000_000)), pc("large", dom("large"), (80_000, 800_000))] });
}
