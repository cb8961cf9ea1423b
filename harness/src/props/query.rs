//! P13 (colours) and P24 (queries) on the shared form of the diagram.
use super::meta::*;
use super::structure::*;
use crate::diag::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::rng::*;
use boostvoronoi as bv;
use serde::{Deserialize, Serialize};

const COLOR_BITS: u32 = 27;
#[derive(Clone, Serialize, Deserialize)]
pub struct Painted { pub g: Geo, /** kind, element (modulo the count), colour */ pub ops: Vec<(u8, usize, u32)> }
struct Colors { e: Vec<u32>, v: Vec<u32> }
/// Which edges and vertices the exterior colouring reaches: from the unbounded edges inwards over
/// primary edges, through vertices that are not on a site.
fn paint_exterior(d: &Diag, m: &mut Colors, c: u32) {
    let before = m.e.clone();
    let mut seen = vec![false; d.verts.len()];
    let mut todo: Vec<usize> = vec![];
    let mut reach = |i: usize, m: &mut Colors, todo: &mut Vec<usize>| {
        if before[i] & c != 0 { return; }
        let e = &d.edges[i];
        m.e[i] |= c;
        let v1 = d.v1(i);
        if v1 == NONE && e.v0 != NONE { return; }
        m.e[e.twin] |= c;
        if v1 != NONE && e.primary && !d.verts[v1].site && !seen[v1] { seen[v1] = true; todo.push(v1); }
    };
    for i in 0..d.edges.len() { if !d.finite(i) { reach(i, m, &mut todo); } }
    while let Some(v) = todo.pop() {
        m.v[v] = c;
        for i in 0..d.edges.len() { if d.edges[i].v0 == v { reach(i, m, &mut todo); } }
    }
}
fn check_paint(c: &Painted, o: &mut Obs) -> Res {
    let g = &c.g;
    let mut d = match build_raw::<i32, f64>(g) { Ok(d) => d, Err(e) => return fail("build-error", format!("{e:?}")) };
    let plain = extract(&d);
    note(g, &plain, o);
    let (ne, nv) = (plain.edges.len(), plain.verts.len());
    let mut m = Colors { e: vec![0; ne], v: vec![0; nv] };
    let cols = |d: &bv::Diagram<f64>| -> (Vec<u32>, Vec<u32>) { (d.edges().iter().map(|e| e.get().get_color()).collect(), d.vertices().iter().map(|v| v.get().get_color()).collect()) };
    ensure!(cols(&d) == (m.e.clone(), m.v.clone()), "color-initial", "a new diagram has colours: {:?}", cols(&d));
    for (k, op) in c.ops.iter().enumerate() {
        let (kind, col) = (op.0, op.2 & ((1 << COLOR_BITS) - 1));
        let (ei, vi) = (if ne > 0 { op.1 % ne } else { 0 }, if nv > 0 { op.1 % nv } else { 0 });
        let (e, v) = (bv::EdgeIndex(ei), bv::VertexIndex(vi));
        match kind {
            0 if ne > 0 => { ensure!(d.edge_set_color(e, col).is_ok(), "color-op", "edge_set_color({ei}) fails"); m.e[ei] = col; }
            1 if ne > 0 => { ensure!(d.edge_or_color(e, col).is_ok(), "color-op", "edge_or_color({ei}) fails"); m.e[ei] |= col; }
            2 if nv > 0 => { ensure!(d.vertex_set_color(v, col).is_ok(), "color-op", "vertex_set_color({vi}) fails"); m.v[vi] = col; }
            3 if nv > 0 => { d.vertex_or_color(v, col); m.v[vi] |= col; }
            4 if ne > 0 => { let x = match d.get_edge(e) { Ok(x) => x, Err(_) => return fail("color-op", format!("get_edge({ei}) fails")) }; let mut y = x.get(); if op.1 % 2 == 0 { y.set_color(col); m.e[ei] = col; } else { y.or_color(col); m.e[ei] |= col; } x.set(y); }
            5 if nv > 0 => { let x = match d.vertex_get(v) { Ok(x) => x, Err(_) => return fail("color-op", format!("vertex_get({vi}) fails")) }; let mut y = x.get(); if op.1 % 2 == 0 { y.set_color(col); m.v[vi] = col; } else { y.or_color(col); m.v[vi] |= col; } x.set(y); }
            6 => { d.color_exterior_edges(col); if col != 0 { o.label(if m.e.iter().any(|x| x & col != 0) { "exterior colouring over earlier colours" } else { "exterior colouring" }); paint_exterior(&plain, &mut m, col); } }
            // bits that no element has room for play no part, and the colouring ends all the same
            10 => { d.color_exterior_edges(op.2); o.label(if col == 0 { "exterior colouring with no bit that fits" } else { "exterior colouring with a wide colour" }); if col != 0 { paint_exterior(&plain, &mut m, col); } }
            // elements that do not exist: nothing may change
            7 => { let _ = d.edge_set_color(bv::EdgeIndex(ne + op.1), col); let _ = d.edge_or_color(bv::EdgeIndex(ne + op.1), col); let _ = d.vertex_set_color(bv::VertexIndex(nv + op.1), col); d.vertex_or_color(bv::VertexIndex(nv + op.1), col); }
            // a colour wider than what is kept must not spill into the diagram's own flags
            8 if ne > 0 => { let _ = d.edge_set_color(e, op.2); m.e[ei] = d.edges()[ei].get().get_color(); }
            9 if nv > 0 => { let _ = d.vertex_set_color(v, op.2); m.v[vi] = d.vertices()[vi].get().get_color(); }
            _ => continue,
        }
        o.sub += 1;
        let now = cols(&d);
        if now.0 != m.e { let i = (0..ne).find(|&i| now.0[i] != m.e[i]).unwrap(); return fail("color-edge", format!("after step {k} {op:?}: edge {i} has colour {:#x}, expected {:#x}", now.0[i], m.e[i])); }
        if now.1 != m.v { let i = (0..nv).find(|&i| now.1[i] != m.v[i]).unwrap(); return fail("color-vertex", format!("after step {k} {op:?}: vertex {i} has colour {:#x}, expected {:#x}", now.1[i], m.v[i])); }
        ensure!(extract(&d) == plain, "color-diagram", "step {k} {op:?} changed the diagram itself: {}", same_shape((g, &plain), (g, &extract(&d))).err().unwrap_or_default());
        if ne > 0 { ensure!(d.edge_get_color(e).ok() == Some(m.e[ei]), "color-get", "edge_get_color({ei}) gives {:?}", d.edge_get_color(e)); }
        if nv > 0 { ensure!(d.vertex_get_color(Some(v)) == Some(m.v[vi]), "color-get", "vertex_get_color({vi}) gives {:?}", d.vertex_get_color(Some(v))); }
    }
    d.clear();
    ensure!(d.cells().is_empty() && d.edges().is_empty() && d.vertices().is_empty(), "clear", "clear() leaves elements");
    Ok(())
}
fn gen_paint(d: Dom) -> impl Fn(&mut Rng) -> Painted + Send + Sync + 'static {
    let g = dom_gen(d);
    move |r| {
        let g = g(r);
        let n = 1 + r.us(12);
        let ops = (0..n).map(|_| { let kind = *r.pick(&[0, 1, 1, 2, 3, 4, 5, 6, 6, 6, 7, 8, 9, 10]); (kind, r.us(1 << 16), match r.below(5) { 0 => 1 << r.below(27), 1 => r.below(8) as u32, 2 => r.next() as u32, 3 => (r.below(32) as u32) << 27, _ => 3 << r.below(26) }) }).collect();
        Painted { g, ops }
    }
}
fn shrink_paint(c: &Painted) -> Vec<Painted> {
    let mut v: Vec<Painted> = (0..c.ops.len()).map(|i| { let mut d = c.clone(); d.ops.remove(i); d }).collect();
    v.extend(shrink_geo(&c.g).into_iter().map(|g| Painted { g, ops: c.ops.clone() }));
    for i in 0..c.ops.len() { for x in [(c.ops[i].0, 0, c.ops[i].2), (c.ops[i].0, c.ops[i].1 / 2, c.ops[i].2), (c.ops[i].0, c.ops[i].1, 1)] { if x != c.ops[i] { let mut d = c.clone(); d.ops[i] = x; v.push(d); } } }
    v
}
/// large diagrams, coloured on a thread with the default stack
fn check_paint_big(c: &Big, o: &mut Obs) -> Res {
    let g = big_geo(c);
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || -> Result<(Diag, Vec<u32>, Vec<u32>), Fail> {
        let d = match build_raw::<i32, f64>(&g) { Ok(d) => d, Err(e) => return fail("build-error", format!("{e:?}")) };
        d.color_exterior_edges(4);
        Ok((extract(&d), d.edges().iter().map(|e| e.get().get_color()).collect(), d.vertices().iter().map(|e| e.get().get_color()).collect()))
    }).unwrap().join();
    let (d, e, v) = match r { Ok(r) => r?, Err(_) => return fail("panic", "colouring panicked".into()) };
    o.nontrivial = true;
    // the model, with outgoing edges listed per vertex
    let mut out = vec![vec![]; d.verts.len()];
    for x in &d.edges { if x.v0 != NONE { out[x.v0].push(x.id); } }
    let (mut me, mut mv) = (vec![0u32; d.edges.len()], vec![0u32; d.verts.len()]);
    let mut todo: Vec<usize> = (0..d.edges.len()).filter(|&i| !d.finite(i)).collect();
    while let Some(i) = todo.pop() {
        me[i] = 4;
        let v1 = d.v1(i);
        if v1 == NONE { continue; }
        me[d.edges[i].twin] = 4;
        if d.edges[i].primary && !d.verts[v1].site && mv[v1] == 0 { mv[v1] = 4; todo.extend(&out[v1]); }
    }
    o.sub += d.edges.len() as u64;
    ensure!(me == e, "color-edge", "exterior colouring differs from the reachable edges at edge {:?}", (0..e.len()).find(|&i| me[i] != e[i]));
    ensure!(mv == v, "color-vertex", "exterior colouring differs from the reachable vertices at vertex {:?}", (0..v.len()).find(|&i| mv[i] != v[i]));
    Ok(())
}
// ---- P24 ----------------------------------------------------------------------------------
fn check_queries(g: &Geo, _: f64, o: &mut Obs) -> Res {
    use bv::{CellIndex as C, EdgeIndex as E, VertexIndex as V};
    let mut d = match build_raw::<i32, f64>(g) { Ok(d) => d, Err(e) => return fail("build-error", format!("{e:?}")) };
    let p = extract(&d);
    note(g, &p, o);
    // no answer depends on the colours
    let painted = case_rng(g).chance(1, 2);
    let hue = |i: usize| if painted { (i as u32).wrapping_mul(0x9E37_79B9) >> (32 - COLOR_BITS) } else { 0 };
    for (i, x) in d.edges().iter().enumerate() { let mut y = x.get(); y.set_color(hue(i)); x.set(y); }
    for (i, x) in d.vertices().iter().enumerate() { let mut y = x.get(); y.set_color(hue(i + 5)); x.set(y); }
    if painted { o.label("coloured"); }
    let bad = |w: String| -> Res { fail("query", w) };
    let ov = |v: usize| if v == NONE { None } else { Some(V(v)) };
    let (nc, nv, ne) = (p.cells.len(), p.verts.len(), p.edges.len());
    #[allow(deprecated)]
    { ensure!(d.num_cells() == nc && d.num_edges() == ne && d.num_vertices() == nv, "query", "element counts");
      ensure!(d.cell_iter().count() == nc && d.edge_iter().count() == ne && d.vertex_iter().count() == nv, "query", "element iterators"); }
    for (i, e) in p.edges.iter().enumerate() {
        let q = E(i);
        let w = |n: &str| bad(format!("{n}({i}) disagrees with the stored edge {e:?}"));
        if e.id != i { return w("id"); }
        if d.get_edge(q).ok().map(|x| x.get().id()) != Some(q) { return w("get_edge"); }
        if !std::rc::Rc::ptr_eq(&d.get_edge(q).unwrap(), &d.edges()[i]) { return w("get_edge (not the stored element)"); }
        if d.edge_get_twin(q).ok() != Some(E(e.twin)) { return w("edge_get_twin"); }
        if d.edge_get_next(q).ok() != Some(E(e.next)) { return w("edge_get_next"); }
        if d.edge_get_cell(q).ok() != Some(C(e.cell)) { return w("edge_get_cell"); }
        if d.edge_get_vertex0(q).ok() != Some(ov(e.v0)) { return w("edge_get_vertex0"); }
        if d.edge_get_vertex1(q).ok() != Some(ov(p.v1(i))) { return w("edge_get_vertex1"); }
        if d.edge_is_finite(q).ok() != Some(p.finite(i)) { return w("edge_is_finite"); }
        if d.edge_is_infinite(q).ok() != Some(!p.finite(i)) { return w("edge_is_infinite"); }
        if d.edge_rot_next(q).ok() != Some(E(p.edges[e.prev].twin)) { return w("edge_rot_next"); }
        if d.edge_rot_prev(Some(q)) != Some(E(p.edges[e.twin].next)) { return w("edge_rot_prev"); }
        if d.edge_get_color(q).ok() != Some(hue(i)) { return w("edge_get_color"); }
        let x = d.edges()[i].get();
        if x.is_curved() == e.linear || x.is_secondary() == e.primary { return w("is_curved/is_secondary"); }
        let line = d.edge_as_line(q).ok();
        let want = if p.finite(i) { let (a, b) = (&p.verts[e.v0], &p.verts[p.v1(i)]); Some([a.x, a.y, b.x, b.y]) } else { None };
        if line.map(|l| l.map(f64::to_bits)) != want.map(|l| l.map(f64::to_bits)) { return w("edge_as_line"); }
        o.sub += 14;
    }
    for (i, v) in p.verts.iter().enumerate() {
        let w = |n: &str| bad(format!("{n}({i}) disagrees with the stored vertex {v:?}"));
        if v.id != i { return w("id"); }
        match d.vertex_get(V(i)) { Ok(x) if std::rc::Rc::ptr_eq(x, &d.vertices()[i]) => {} _ => return w("vertex_get") }
        if d.vertex_get_incident_edge(Some(V(i))) != Some(E(v.inc)) { return w("vertex_get_incident_edge"); }
        if d.vertex_is_site_point(V(i)).ok() != Some(v.site) { return w("vertex_is_site_point"); }
        if d.vertex_get_color(Some(V(i))) != Some(hue(i + 5)) { return w("vertex_get_color"); }
        let a: [f64; 2] = (&d.vertices()[i].get()).into();
        if a.map(f64::to_bits) != [v.x.to_bits(), v.y.to_bits()] { return w("conversion to coordinates"); }
    }
    for (i, c) in p.cells.iter().enumerate() {
        let w = |n: &str| bad(format!("{n}({i}) disagrees with the stored cell {c:?}"));
        if c.id != i { return w("id"); }
        match d.get_cell(C(i)) { Ok(x) if std::rc::Rc::ptr_eq(&x, &d.cells()[i]) => {} _ => return w("get_cell") }
        let x = d.cells()[i].get();
        if x.source_index_2() != (x.source_index(), x.source_category()) { return w("source_index_2"); }
        if x.contains_point() != (c.cat < 3) || x.contains_segment() != (c.cat == 3) { return w("contains_point/contains_segment"); }
        if x.contains_segment_startpoint() != (c.cat == 1) || x.contains_segment_endpoint() != (c.cat == 2) { return w("contains_segment_startpoint/endpoint"); }
        if x.is_degenerate() != (c.inc == NONE) { return w("is_degenerate"); }
    }
    // the box around all vertices
    let b = d.vertices_get_aabb::<i32>();
    let lo = [p.verts.iter().map(|v| v.x).fold(f64::INFINITY, f64::min), p.verts.iter().map(|v| v.y).fold(f64::INFINITY, f64::min)];
    let hi = [p.verts.iter().map(|v| v.x).fold(f64::NEG_INFINITY, f64::max), p.verts.iter().map(|v| v.y).fold(f64::NEG_INFINITY, f64::max)];
    let want = if nv == 0 { (None, None) } else { (Some(lo), Some(hi)) };
    ensure!((b.get_low(), b.get_high()) == want, "query-aabb", "the box around the vertices is {:?} to {:?}, expected {want:?}", b.get_low(), b.get_high());
    // elements that do not exist
    for k in [0usize, 1, 7, usize::MAX / 2] {
        let (e, v, c) = (E(ne + k), V(nv + k), C(nc + k));
        let m = |n: &str| fail("query-missing", format!("{n} of an element that does not exist (edge {}, vertex {}, cell {}) does not report an error", e.0, v.0, c.0));
        if d.get_edge(e).is_ok() { return m("get_edge"); }
        if d.get_cell(c).is_ok() { return m("get_cell"); }
        if d.vertex_get(v).is_ok() { return m("vertex_get"); }
        if d.edge_get_twin(e).is_ok() { return m("edge_get_twin"); }
        if d.edge_get_next(e).is_ok() { return m("edge_get_next"); }
        if d.edge_get_cell(e).is_ok() { return m("edge_get_cell"); }
        if d.edge_get_color(e).is_ok() { return m("edge_get_color"); }
        if d.edge_rot_next(e).is_ok() { return m("edge_rot_next"); }
        if d.edge_rot_prev(Some(e)).is_some() { return m("edge_rot_prev"); }
        if d.edge_as_line(e).is_ok() { return m("edge_as_line"); }
        if d.edge_is_finite(e).is_ok() || d.edge_is_infinite(e).is_ok() { return m("edge_is_finite/edge_is_infinite"); }
        if !matches!(d.edge_get_vertex0(e), Ok(None) | Err(_)) || !matches!(d.edge_get_vertex1(e), Ok(None) | Err(_)) { return m("edge_get_vertex0/1"); }
        if d.vertex_is_site_point(v).is_ok() || d.vertex_get_color(Some(v)).is_some() || d.vertex_get_incident_edge(Some(v)).is_some() { return m("vertex query"); }
        if d.cell_edge_iterator(c).next().is_some() { return m("cell_edge_iterator"); }
    }
    ensure!(d.edge_rot_prev(None).is_none() && d.vertex_get_color(None).is_none() && d.vertex_get_incident_edge(None).is_none() && d.edge_rot_next_iterator(None).next().is_none() && d.edge_rot_prev_iterator(None).next().is_none(), "query-missing", "a query about no element finds one");
    ensure!(extract(&d) == p, "query-changes", "queries changed the diagram");
    d.clear();
    ensure!(d.cells().is_empty() && d.edges().is_empty() && d.vertices().is_empty(), "clear", "clear() leaves elements");
    Ok(())
}
pub fn add(v: &mut Vec<Property>) {
    let rule = "the diagram has at least 2 vertices and 4 cells; distinct by input and by the sequence of operations";
    let ds = doms();
    let dom = |n: &str| *ds.iter().find(|d| d.name == n).unwrap();
    let pt = |name: &'static str, n| suite(name, n, gen_paint(dom(name)), check_paint, shrink_paint);
    v.push(Property { id: "P13", rule, assumptions: &["colours have 27 bits, as the documentation reserves five"], suites: vec![pt("small", (200_000, 2_000_000)), pt("mid", (60_000, 600_000)), pt("huge", (30_000, 300_000)), pt("many", (1_000, 10_000)),
        suite("big", (12, 100), |r: &mut Rng| Big { kind: *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7]), n: r.range(6_000, 20_000) as u32, bits: 20, seed: r.below(1 << 30) }, check_paint_big, shrink_big)] });
    v.push(Property { id: "P24", rule: "the diagram has at least 2 vertices and 4 cells; distinct by input", assumptions: &[], suites: over_domains(1.6, &[], check_queries) });
}
