//! Judges a diagram against the definition of the Voronoi diagram of points and open segments.
use crate::dd::Dd;
use crate::diag::*;
use crate::engine::{fail, Res};
use crate::ensure;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Site { Pt([i64; 2]), Seg([i64; 2], [i64; 2]) }
impl Site {
    pub fn seg(a: [i64; 2], b: [i64; 2]) -> Site { if a <= b { Site::Seg(a, b) } else { Site::Seg(b, a) } }
    pub fn is_pt(&self) -> bool { matches!(self, Site::Pt(_)) }
}
pub fn distinct_sites(g: &Geo) -> BTreeSet<Site> {
    let mut s = BTreeSet::new();
    for p in &g.p { s.insert(Site::Pt(*p)); }
    for t in &g.s {
        let (a, b) = ([t[0], t[1]], [t[2], t[3]]);
        s.insert(Site::Pt(a));
        s.insert(Site::Pt(b));
        if a != b { s.insert(Site::seg(a, b)); }
    }
    s
}
/// What a user looks up from a cell's source index and category.
pub fn cell_site(g: &Geo, c: &DCell) -> Result<Site, String> {
    let np = g.p.len();
    if c.src < np { return if c.cat == 0 { Ok(Site::Pt(g.p[c.src])) } else { Err(format!("cell {} has source index {} (an input point) but category {}", c.id, c.src, c.cat)) }; }
    let Some(s) = g.s.get(c.src - np) else { return Err(format!("cell {} has source index {} of {} inputs", c.id, c.src, np + g.s.len())) };
    let (a, b) = ([s[0], s[1]], [s[2], s[3]]);
    match (a == b, c.cat) {
        (true, 0) => Ok(Site::Pt(a)),
        (false, 1) => Ok(Site::Pt(a)),
        (false, 2) => Ok(Site::Pt(b)),
        (false, 3) => Ok(Site::seg(a, b)),
        _ => Err(format!("cell {} has source index {} (segment {s:?}) but category {}", c.id, c.src, c.cat)),
    }
}
/// Every distinct input site has exactly one cell and every cell names its site correctly.
pub fn check_cells(g: &Geo, d: &Diag) -> Result<Vec<Site>, crate::engine::Fail> {
    let want = distinct_sites(g);
    let mut got = BTreeMap::new();
    let mut v = vec![];
    for (i, c) in d.cells.iter().enumerate() {
        ensure!(c.id == i, "cell-id", "cell at position {i} has id {}", c.id);
        let s = match cell_site(g, c) { Ok(s) => s, Err(m) => return fail("cell-source", m) };
        if let Some(o) = got.insert(s, i) { return fail("cell-duplicate", format!("cells {o} and {i} both belong to {s:?}")); }
        v.push(s);
    }
    for s in &want { ensure!(got.contains_key(s), "cell-missing", "no cell for input site {s:?}; {} cells, {} sites", d.cells.len(), want.len()); }
    Ok(v)
}

/// Half-edge structure, with no geometry.
pub fn check_topology(d: &Diag) -> Res {
    let (nc, nv, ne) = (d.cells.len(), d.verts.len(), d.edges.len());
    for (i, e) in d.edges.iter().enumerate() {
        ensure!(e.id == i, "edge-id", "edge at position {i} has id {}", e.id);
        ensure!(e.cell < nc, "edge-cell", "edge {i} refers to cell {} of {nc}", e.cell);
        ensure!(e.twin < ne && e.twin != i && d.edges[e.twin].twin == i, "edge-twin", "edge {i}: twin {} is not an involution", e.twin);
        ensure!(e.v0 == NONE || e.v0 < nv, "edge-vertex", "edge {i} refers to vertex {} of {nv}", e.v0);
        ensure!(e.next < ne && d.edges[e.next].prev == i, "edge-next", "edge {i}: next {} does not point back", e.next);
        ensure!(e.prev < ne && d.edges[e.prev].next == i, "edge-prev", "edge {i}: prev {} does not point forward", e.prev);
        ensure!(d.edges[e.next].cell == e.cell, "edge-next-cell", "edge {i} and its next {} belong to different cells", e.next);
        let t = &d.edges[e.twin];
        ensure!(t.linear == e.linear && t.primary == e.primary, "edge-twin-flags", "edge {i} and its twin {} are classified differently", e.twin);
        ensure!(t.cell != e.cell, "edge-twin-cell", "edge {i} separates cell {} from itself", e.cell);
        let v1 = t.v0;
        let n = &d.edges[e.next];
        // continuity: the next edge starts where this one ends; only at infinity may both be missing
        ensure!(n.v0 == v1, "edge-continuity", "edge {i} ends at vertex {v1:?} but its next edge {} starts at {:?}", e.next, n.v0);
    }
    // loops: all edges of a cell are on the loop of its incident edge
    let mut seen = vec![false; ne];
    let mut per_cell = vec![0usize; nc];
    for e in &d.edges { per_cell[e.cell] += 1; }
    for c in &d.cells {
        if c.inc == NONE { ensure!(per_cell[c.id] == 0, "cell-incident", "cell {} has no incident edge but {} edges claim it", c.id, per_cell[c.id]); continue; }
        ensure!(c.inc < ne && d.edges[c.inc].cell == c.id, "cell-incident", "cell {}: incident edge {} belongs to another cell", c.id, c.inc);
        let (mut e, mut n) = (c.inc, 0);
        loop { ensure!(!seen[e], "cell-loop", "cell {}: edge loop revisits edge {e}", c.id); seen[e] = true; n += 1; e = d.edges[e].next; if e == c.inc { break; } ensure!(n <= ne, "cell-loop", "cell {}: endless loop", c.id); }
        ensure!(n == per_cell[c.id], "cell-loop", "cell {}: loop has {n} edges, {} edges belong to the cell", c.id, per_cell[c.id]);
        // the part at infinity: at most one gap for a bounded/unbounded cell, two for a strip
    }
    let mut deg = vec![0usize; nv];
    for e in &d.edges { if e.v0 != NONE { deg[e.v0] += 1; } }
    for (i, v) in d.verts.iter().enumerate() {
        ensure!(v.id == i, "vertex-id", "vertex at position {i} has id {}", v.id);
        ensure!(v.x.is_finite() && v.y.is_finite(), "vertex-finite", "vertex {i} is at ({}, {})", v.x, v.y);
        ensure!(v.inc < ne && d.edges[v.inc].v0 == i, "vertex-incident", "vertex {i}: incident edge {} does not start at it", v.inc);
        // rotation around the vertex visits exactly its edges, each once
        let (mut e, mut n) = (v.inc, 0);
        loop { ensure!(d.edges[e].v0 == i, "vertex-rot", "rotating around vertex {i} reaches edge {e} which starts at {:?}", d.edges[e].v0); n += 1; e = d.edges[d.edges[e].prev].twin; if e == v.inc { break; } ensure!(n <= ne, "vertex-rot", "vertex {i}: endless rotation"); }
        ensure!(n == deg[i], "vertex-rot", "vertex {i}: rotation visits {n} edges, {} edges start there", deg[i]);
        ensure!(n >= 3, "vertex-degree", "vertex {i} has degree {n}");
    }
    Ok(())
}

/// Euler's formula for the planar subdivision closed by one vertex at infinity.
pub fn check_euler(d: &Diag) -> Res {
    if d.cells.is_empty() { ensure!(d.verts.is_empty() && d.edges.is_empty(), "euler", "no cells but {} vertices, {} edges", d.verts.len(), d.edges.len()); return Ok(()); }
    if d.cells.len() == 1 { ensure!(d.verts.is_empty() && d.edges.is_empty(), "euler", "one cell but {} vertices, {} edges", d.verts.len(), d.edges.len()); return Ok(()); }
    ensure!(d.edges.len() % 2 == 0, "euler", "odd number of half-edges {}", d.edges.len());
    let f = d.cells.iter().filter(|c| c.inc != NONE).count() as i64;
    let (v, e) = (d.verts.len() as i64, d.edges.len() as i64 / 2);
    ensure!(v - e + f == 1, "euler", "V - E + F = {v} - {e} + {f} = {} (must be 1)", v - e + f);
    Ok(())
}

pub type P2 = (Dd, Dd);
fn pi(p: [i64; 2]) -> P2 { (Dd::int(p[0]), Dd::int(p[1])) }
fn sub(a: P2, b: P2) -> P2 { (a.0 - b.0, a.1 - b.1) }
fn dot(a: P2, b: P2) -> Dd { a.0 * b.0 + a.1 * b.1 }
fn cross(a: P2, b: P2) -> Dd { a.0 * b.1 - a.1 * b.0 }
fn norm(a: P2) -> Dd { dot(a, a).sqrt() }
pub struct Near { pub d: Dd, /** foot point */ pub foot: P2, /** the foot is strictly inside the segment */ pub inner: bool }
/// Distance from q to the closed site.
pub fn near(s: &Site, q: P2) -> Near {
    match s {
        Site::Pt(p) => { let f = pi(*p); Near { d: norm(sub(q, f)), foot: f, inner: false } }
        Site::Seg(a, b) => {
            let (pa, pb) = (pi(*a), pi(*b));
            let ab = (Dd::i128(b[0] as i128 - a[0] as i128), Dd::i128(b[1] as i128 - a[1] as i128));
            let (ta, tb) = (dot(sub(q, pa), ab), dot(sub(q, pb), ab));
            if ta.neg_p() || ta.h == 0.0 { return Near { d: norm(sub(q, pa)), foot: pa, inner: false }; }
            if !tb.neg_p() { return Near { d: norm(sub(q, pb)), foot: pb, inner: false }; }
            let l2 = dot(ab, ab);
            let c = cross(sub(q, pa), ab);
            let t = ta / l2;
            Near { d: c.abs() / l2.sqrt(), foot: (pa.0 + ab.0 * t, pa.1 + ab.1 * t), inner: true }
        }
    }
}
fn unit_diff(q: P2, a: &Near, b: &Near) -> f64 {
    let (da, db) = (a.d.f(), b.d.f());
    if da == 0.0 || db == 0.0 { return 2.0; }
    let (ux, uy) = ((q.0 - a.foot.0) / a.d, (q.1 - a.foot.1) / a.d);
    let (vx, vy) = ((q.0 - b.foot.0) / b.d, (q.1 - b.foot.1) / b.d);
    let (x, y) = ((ux - vx).f(), (uy - vy).f());
    (x * x + y * y).sqrt()
}
/// |d(a) - d(b)| explained by moving q by at most err
fn tol(q: P2, a: &Near, b: &Near, err: f64) -> f64 {
    let m = a.d.f().min(b.d.f());
    let u = unit_diff(q, a, b);
    let second = if m > 0.0 { 4.0 * err / m } else { 2.0 };
    err * (u + second).min(2.0) + 1e-24 * (q.0.f().abs() + q.1.f().abs() + a.d.f())
}
pub fn extent(g: &Geo) -> f64 {
    let it = || g.p.iter().flatten().chain(g.s.iter().flatten());
    (it().map(|v| v.unsigned_abs()).max().unwrap_or(1) as f64).max(1.0)
}
pub struct Ctx<'a> { pub g: &'a Geo, pub d: &'a Diag, pub sites: Vec<Site>, pub all: Vec<Site>, pub ulps: f64, pub eps: f64, pub ext: f64, /** relative resolution allowed for a site that is closer than the owners */ pub loose: f64, pub worst: std::cell::Cell<f64> }
impl<'a> Ctx<'a> {
    pub fn new(g: &'a Geo, d: &'a Diag, ulps: f64, eps: f64) -> Result<Ctx<'a>, crate::engine::Fail> {
        Ok(Ctx { g, d, sites: check_cells(g, d)?, all: distinct_sites(g).into_iter().collect(), ulps, eps, ext: extent(g), loose: 0.0, worst: std::cell::Cell::new(0.0) })
    }
    fn v(&self, i: usize) -> P2 { (Dd::new(self.d.verts[i].x), Dd::new(self.d.verts[i].y)) }
    fn verr(&self, i: usize) -> f64 { let v = &self.d.verts[i]; self.ulps * self.eps * (v.x.abs().max(v.y.abs())) + 1e-290 }
    /// `on` are equidistant from q, and no site is closer.
    fn judge(&self, what: &dyn Fn() -> String, q: P2, err: f64, on: &[Site], sig: &str, ends: &[usize]) -> Res {
        let n: Vec<Near> = on.iter().map(|s| near(s, q)).collect();
        for (k, m) in n.iter().enumerate().skip(1) {
            let diff = (m.d - n[0].d).f().abs();
            let t = tol(q, &n[0], m, err) + 1e-28 * self.ext;
            if t > 0.0 { self.worst.set(self.worst.get().max(diff / t)); }
            ensure!(diff <= t, sig, "{} at ({:e}, {:e}): distance to {:?} is {:e} but to {:?} it is {:e} (difference {:e}, explained {:e})", what(), q.0.f(), q.1.f(), on[0], n[0].d.f(), on[k], m.d.f(), diff, t);
        }
        for s in &self.all {
            let m = near(s, q);
            let gap = (n[0].d - m.d).f();
            if gap > 0.0 {
                // events closer than 64 ulps in the sweep are processed in either order
                let t = tol(q, &n[0], &m, err) + self.slack(q, n[0].d) + 1e-28 * self.ext;
                if t > 0.0 { self.worst.set(self.worst.get().max(gap / t)); }
                if gap > t && gap <= self.swapped(ends, q, m.d) { continue; }
                ensure!(gap <= t, sig, "{} at ({:e}, {:e}): {:?} is at distance {:e} but {s:?} is closer, {:e} (by {:e}, explained {:e})", what(), q.0.f(), q.1.f(), on[0], n[0].d.f(), m.d.f(), gap, t);
            }
        }
        Ok(())
    }
    /// Each vertex is equidistant from the sites of all cells that meet there, and nothing is closer.
    pub fn check_vertices(&self) -> Res {
        for (i, _) in self.d.verts.iter().enumerate() {
            let on = self.around(i);
            self.judge(&|| format!("vertex {i}"), self.v(i), self.verr(i), &on, "vertex", &[i])?;
        }
        Ok(())
    }
    /// Vertex flag: coincides with an input point or endpoint.
    pub fn check_site_flag(&self) -> Res {
        for (i, v) in self.d.verts.iter().enumerate() {
            let e = 4.0 * self.verr(i);
            let at = self.all.iter().find(|s| if let Site::Pt(p) = s { (p[0] as f64 - v.x).abs() <= e && (p[1] as f64 - v.y).abs() <= e } else { false });
            ensure!(v.site == at.is_some(), "site-flag", "vertex {i} ({:e}, {:e}) is_site_point()={} but site point there: {at:?}", v.x, v.y, v.site);
        }
        Ok(())
    }
    pub fn edge_class(a: &Site, b: &Site) -> (bool, bool) {
        let f = |p: &[i64; 2], x: &[i64; 2], y: &[i64; 2]| { let end = p == x || p == y; (end, !end) };
        match (a, b) {
            (Site::Pt(p), Site::Seg(x, y)) | (Site::Seg(x, y), Site::Pt(p)) => f(p, x, y),
            _ => (true, true),
        }
    }
    /// linear/curved and primary/secondary follow from the two sites an edge separates.
    pub fn check_edge_class(&self) -> Res {
        for (i, e) in self.d.edges.iter().enumerate() {
            let (a, b) = (self.sites[e.cell], self.sites[self.d.edges[e.twin].cell]);
            let (lin, pri) = Self::edge_class(&a, &b);
            ensure!(e.linear == lin, "edge-linear", "edge {i} between {a:?} and {b:?}: is_linear={}", e.linear);
            ensure!(e.primary == pri, "edge-primary", "edge {i} between {a:?} and {b:?}: is_primary={}", e.primary);
            if e.v0 == NONE || self.d.v1(i) == NONE {
                // unbounded edges separate two points, or an endpoint from its own segment
                ensure!((a.is_pt() && b.is_pt()) || !pri, "edge-infinite", "edge {i} between {a:?} and {b:?} is infinite");
            }
        }
        Ok(())
    }
    fn around(&self, v: usize) -> Vec<Site> {
        let mut on = vec![];
        let (start, mut e) = (self.d.verts[v].inc, self.d.verts[v].inc);
        loop { on.push(self.sites[self.d.edges[e].cell]); e = self.d.edges[self.d.edges[e].prev].twin; if e == start || on.len() > self.d.edges.len() { break; } }
        on
    }
    /// The vertices whose order of creation is not settled by the sweep, with their distance: two circles that end
    /// within 64 ulps of each other are processed in either order, and their centres are then up to about the square
    /// root of that apart.
    fn tied(&self, v: usize) -> Vec<(usize, f64)> {
        let radius = |i: usize| near(&self.around(i)[0], self.v(i)).d;
        let (q, d) = (self.v(v), radius(v));
        let end = q.0 + d;
        let tie = self.sweep(q, d);
        let reach = 2.0 * (2.0 * d.f() * tie).sqrt();
        let (mut seen, mut todo) = (vec![(v, 0.0)], vec![v]);
        while let Some(u) = todo.pop() {
            let (start, mut e) = (self.d.verts[u].inc, self.d.verts[u].inc);
            for _ in 0..self.d.edges.len() {
                let w = self.d.v1(e);
                if w != NONE && !seen.iter().any(|s| s.0 == w) {
                    let far = norm(sub(self.v(w), q)).f();
                    if far <= reach && (self.v(w).0 + radius(w) - end).f().abs() <= tie { seen.push((w, far)); todo.push(w); }
                }
                e = self.d.edges[self.d.edges[e].prev].twin;
                if e == start { break; }
            }
        }
        seen
    }
    /// The places whose vertices could be exchanged that way, each with the distance this may put them off.
    pub fn open_places(&self) -> Vec<((f64, f64), f64)> {
        self.d.verts.iter().enumerate().filter_map(|(i, v)| { let far = self.tied(i).iter().fold(0.0, |m: f64, x| m.max(x.1)); if far > 0.0 { Some(((v.x, v.y), 2.0 * far)) } else { None } }).collect()
    }
    /// How much closer than the owners a site at distance `d` from `q`, near the vertices `ends`, may be because of
    /// that: a vertex tied with one of them has a site as close.
    fn swapped(&self, ends: &[usize], q: P2, d: Dd) -> f64 {
        ends.iter().flat_map(|&v| self.tied(v)).filter(|(w, _)| self.around(*w).iter().any(|s| !(d - near(s, q).d).neg_p())).fold(0.0, |m, (_, far)| m.max(2.0 * far))
    }
    /// The sites around either vertex are, within the resolution of the sweep, also equidistant from the other.
    fn interchangeable(&self, a: usize, b: usize) -> bool {
        for (x, y) in [(a, b), (b, a)] {
            let q = self.v(x);
            let own = near(&self.around(x)[0], q);
            for s in self.around(y) {
                let m = near(&s, q);
                if (m.d - own.d).f().abs() > tol(q, &own, &m, self.verr(x)) + self.slack(q, own.d) { return false; }
            }
        }
        true
    }
    fn sweep(&self, q: P2, d: Dd) -> f64 { 192.0 * self.eps * (q.0.f().abs() + d.f()) }
    fn slack(&self, q: P2, d: Dd) -> f64 { self.sweep(q, d) + self.loose * (q.0.f().abs() + q.1.f().abs() + d.f()) }
    /// Points along every edge: equidistant from the two sites it separates, nothing closer, own cell on the left.
    pub fn check_edges(&self, r: &mut Rng, per_edge: usize) -> Res {
        for (i, e) in self.d.edges.iter().enumerate() {
            if e.twin < i { continue; }
            let (a, b) = (self.sites[e.cell], self.sites[self.d.edges[e.twin].cell]);
            let (v0, v1) = (e.v0, self.d.v1(i));
            let on = [a, b];
            let what = || format!("edge {i} between {a:?} and {b:?}");
            if v0 != NONE && v1 != NONE {
                let (p, q) = (self.v(v0), self.v(v1));
                let err = self.verr(v0).max(self.verr(v1));
                let d = sub(q, p);
                for k in 0..per_edge {
                    let t = if k == 0 { 0.5 } else { r.f01() };
                    let (lin, _) = Self::edge_class(&a, &b);
                    let (x, foot_of) = if lin { ((p.0 + d.0 * Dd::new(t), p.1 + d.1 * Dd::new(t)), a) } else {
                        let (f, sa, sb) = match (a, b) { (Site::Pt(f), Site::Seg(x, y)) | (Site::Seg(x, y), Site::Pt(f)) => (f, x, y), _ => unreachable!() };
                        let (o, u) = (pi(sa), (Dd::i128(sb[0] as i128 - sa[0] as i128), Dd::i128(sb[1] as i128 - sa[1] as i128)));
                        let l = norm(u);
                        let u = (u.0 / l, u.1 / l);
                        let n = (-u.1, u.0);
                        let (tp, tq) = (dot(sub(p, o), u), dot(sub(q, o), u));
                        let s = tp + (tq - tp) * Dd::new(t);
                        let (fs, fw) = (dot(sub(pi(f), o), u), dot(sub(pi(f), o), n));
                        if fw.f() == 0.0 { return fail("edge-curved", format!("{} is curved but the point is on the line of the segment", what())); }
                        let w = ((s - fs) * (s - fs) + fw * fw) / (fw + fw);
                        // the end points must be on this parabola too (checked by check_vertices); x is on it by construction
                        ((o.0 + u.0 * s + n.0 * w, o.1 + u.1 * s + n.1 * w), if a.is_pt() { b } else { a })
                    };
                    self.judge(&what, x, err * 2.0, &on, "edge", &[v0, v1])?;
                    // orientation: the cell of the half-edge lies to its left
                    let m = near(&foot_of, x);
                    let c = cross(d, sub(m.foot, x)).f();
                    let (len, h) = (norm(d).f(), m.d.f());
                    let c = if foot_of == a { c } else { -c };
                    // an edge shorter than the position error of its ends has no direction
                    if len > 16.0 * err && h > 16.0 * err && c <= -4.0 * err * (len + h) {
                        // two sweep events closer than 64 ulps may come in either order: the edge then runs backwards
                        // between vertices whose sites are all within that distance of touching both circles
                        if self.interchangeable(v0, v1) || self.tied(v0).iter().any(|w| w.0 == v1) { continue; }
                    }
                    if len > 16.0 * err && h > 16.0 * err { ensure!(c > -4.0 * err * (len + h), "edge-side", "{}: the edge's own cell lies to its right", what()); }
                }
            } else {
                // unbounded: from a vertex (or the midpoint) along the perpendicular with the own cell on the left
                let rep = |s: &Site, o: &Site| -> ([i64; 2], [i64; 2]) { match (s, o) {
                    (Site::Pt(p), Site::Pt(q)) => (*p, *q),
                    (Site::Seg(x, y), Site::Pt(q)) => (if x == q { *y } else { *x }, *q),
                    (Site::Pt(p), Site::Seg(x, y)) => (*p, if x == p { *y } else { *x }),
                    (Site::Seg(x, _), Site::Seg(y, _)) => (*x, *y) } };
                let (pa, pb) = rep(&a, &b);
                let w = ((pa[0] as f64) - pb[0] as f64, (pa[1] as f64) - pb[1] as f64);
                let wd = (Dd::i128(pa[0] as i128 - pb[0] as i128), Dd::i128(pa[1] as i128 - pb[1] as i128));
                let l = (w.0 * w.0 + w.1 * w.1).sqrt();
                let (dx, dy) = (wd.1 / Dd::new(l), -(wd.0 / Dd::new(l)));
                let ext = self.ext * 2.0;
                let both = v0 == NONE && v1 == NONE;
                let (o, sgn, err) = if v0 != NONE { (self.v(v0), 1.0, self.verr(v0)) } else if v1 != NONE { (self.v(v1), -1.0, self.verr(v1)) } else {
                    let m = match (&a, &b) { (Site::Pt(p), Site::Pt(q)) => ((Dd::int(p[0]) + Dd::int(q[0])) * Dd::new(0.5), (Dd::int(p[1]) + Dd::int(q[1])) * Dd::new(0.5)), (Site::Pt(p), _) | (_, Site::Pt(p)) => pi(*p), _ => unreachable!() };
                    (m, 1.0, 0.0) };
                for k in 0..per_edge.max(2) {
                    let len = ext * match k { 0 => 1.0, 1 => 1000.0, _ => 10f64.powf(r.f01() * 12.0 - 6.0) };
                    for s in if both { vec![1.0, -1.0] } else { vec![sgn] } {
                        let t = Dd::new(len * s);
                        self.judge(&|| format!("{} (unbounded)", what()), (o.0 + dx * t, o.1 + dy * t), err * 2.0 , &on, "edge-infinite", &[])?;
                    }
                }
            }
        }
        Ok(())
    }
    /// Completeness: walking from any cell to a neighbour that is closer to a query ends at the nearest site.
    pub fn check_walk(&self, r: &mut Rng, queries: usize) -> Res {
        let rel = self.ulps * self.eps + self.loose;
        if self.d.cells.is_empty() { return Ok(()); }
        let n = self.d.cells.len();
        let mut nb: Vec<Vec<usize>> = vec![vec![]; n];
        for e in &self.d.edges { let o = self.d.edges[e.twin].cell; if !nb[e.cell].contains(&o) { nb[e.cell].push(o); } }
        let mut at: HashMap<[i64; 2], Vec<usize>> = HashMap::new();
        for (i, s) in self.sites.iter().enumerate() { if !nb[i].is_empty() { match s { Site::Pt(p) => at.entry(*p).or_default().push(i), Site::Seg(a, b) => { at.entry(*a).or_default().push(i); at.entry(*b).or_default().push(i); } } } }
        let ext = self.ext;
        for k in 0..queries {
            let s = *r.pick(&self.all);
            let m = match s { Site::Pt(p) => (p[0] as f64, p[1] as f64), Site::Seg(a, b) => { let t = r.f01(); (a[0] as f64 + t * (b[0] as f64 - a[0] as f64), a[1] as f64 + t * (b[1] as f64 - a[1] as f64)) } };
            let rad = match k % 4 { 0 => ext * 2.0, 1 => ext * 0.1, 2 => 3.0, _ => ext * 10f64.powf(r.f01() * 6.0 - 4.0) };
            let q = if k % 7 == 6 { ((r.f01() - 0.5) * 2.2 * ext, (r.f01() - 0.5) * 2.2 * ext) } else { (m.0 + (r.f01() - 0.5) * rad, m.1 + (r.f01() - 0.5) * rad) };
            let q = (Dd::new(q.0), Dd::new(q.1));
            let key = |c: usize| { let m = near(&self.sites[c], q); (m.d, !self.sites[c].is_pt() && !m.inner, m) };
            let mut c = r.us(n);
            if n > 1 { let mut tries = 0; while nb[c].is_empty() && tries < n { c = (c + 1) % n; tries += 1; } }
            let mut kc = key(c);
            let mut steps = 0;
            'walk: loop {
                for &o in &nb[c] {
                    let ko = key(o);
                    let diff = (ko.0 - kc.0).f();
                    if diff < 0.0 || (diff == 0.0 && kc.1 && !ko.1) { c = o; kc = ko; steps += 1; if steps > 4 * n { return fail("walk", format!("walk does not settle at query ({:e}, {:e})", q.0.f(), q.1.f())); } continue 'walk; }
                }
                // around an endpoint the cells of the point and of all segments that meet there count as neighbours:
                // some of them may have no region of their own
                let e = match self.sites[c] {
                    Site::Pt(p) => Some(p),
                    Site::Seg(x, y) if kc.1 => Some(if near(&Site::Pt(x), q).d.lt(near(&Site::Pt(y), q).d) { x } else { y }),
                    _ => None,
                };
                if let Some(e) = e {
                    for o in at.get(&e).map_or(&[][..], |v| v) {
                        let ko = key(*o);
                        let diff = (ko.0 - kc.0).f();
                        if diff < 0.0 || (diff == 0.0 && kc.1 && !ko.1) { c = *o; kc = ko; steps += 1; if steps > 4 * n { return fail("walk", format!("walk does not settle at query ({:e}, {:e})", q.0.f(), q.1.f())); } continue 'walk; }
                    }
                }
                break;
            }
            for s in &self.all {
                let m = near(s, q);
                let gap = (kc.0 - m.d).f();
                if gap > 0.0 {
                    let t = tol(q, &kc.2, &m, rel * (ext + q.0.f().abs() + q.1.f().abs()));
                    ensure!(gap <= t, "walk", "query ({:e}, {:e}): {s:?} at distance {:e} is nearest, but no neighbour of cell {c} {:?} (distance {:e}) is closer: an edge is missing", q.0.f(), q.1.f(), m.d.f(), self.sites[c], kc.0.f());
                }
            }
        }
        Ok(())
    }
}

/// Neighbour structure by site, independent of numbering: for each unordered pair of sites the edges between them.
pub type Canon = BTreeMap<(Site, Site), Vec<(bool, bool, Option<(f64, f64)>, Option<(f64, f64)>)>>;
pub fn canon(g: &Geo, d: &Diag) -> Result<Canon, crate::engine::Fail> {
    let s = check_cells(g, d)?;
    let mut m: Canon = BTreeMap::new();
    for (i, e) in d.edges.iter().enumerate() {
        let v = |k: usize| if k == NONE { None } else { Some((d.verts[k].x, d.verts[k].y)) };
        m.entry((s[e.cell], s[d.edges[e.twin].cell])).or_default().push((e.linear, e.primary, v(e.v0), v(d.v1(i))));
    }
    for l in m.values_mut() { l.sort_by(|a, b| a.partial_cmp(b).unwrap()); }
    Ok(m)
}
pub fn close(a: f64, b: f64, mag: f64, rel: f64) -> bool { (a - b).abs() <= rel * mag }
/// Same edges between the same sites with the same classes, vertices equal to rel.
pub fn same_canon(a: &Canon, b: &Canon, rel: f64) -> Result<(), String> {
    for k in a.keys() { if !b.contains_key(k) { return Err(format!("sites {:?} and {:?} share {} edge(s) in the first diagram but none in the second", k.0, k.1, a[k].len())); } }
    for k in b.keys() { if !a.contains_key(k) { return Err(format!("sites {:?} and {:?} share {} edge(s) in the second diagram but none in the first", k.0, k.1, b[k].len())); } }
    for (k, la) in a {
        let lb = &b[k];
        if la.len() != lb.len() { return Err(format!("sites {:?} and {:?} share {} edges in the first diagram but {} in the second", k.0, k.1, la.len(), lb.len())); }
        let mut used = vec![false; lb.len()];
        let pc = |x: &Option<(f64, f64)>, y: &Option<(f64, f64)>| match (x, y) { (None, None) => true, (Some(p), Some(q)) => { let m = p.0.abs().max(p.1.abs()).max(q.0.abs()).max(q.1.abs()); close(p.0, q.0, m, rel) && close(p.1, q.1, m, rel) } _ => false };
        for ea in la {
            let Some(j) = (0..lb.len()).find(|&j| !used[j] && lb[j].0 == ea.0 && lb[j].1 == ea.1 && pc(&ea.2, &lb[j].2) && pc(&ea.3, &lb[j].3)) else { return Err(format!("edge between {:?} and {:?}: {ea:?} in the first diagram has no counterpart in the second: {lb:?}", k.0, k.1)) };
            used[j] = true;
        }
    }
    Ok(())
}
/// The shortest finite edge relative to the magnitude of its ends: how far the topology is from degenerate.
pub fn min_rel_edge(d: &Diag) -> f64 {
    let mut m = f64::INFINITY;
    for (i, e) in d.edges.iter().enumerate() { if d.finite(i) { let (a, b) = (&d.verts[e.v0], &d.verts[d.v1(i)]); let l = (a.x - b.x).abs().max((a.y - b.y).abs()); let mag = a.x.abs().max(a.y.abs()).max(b.x.abs()).max(b.y.abs()).max(1e-300); m = m.min(l / mag); } }
    m
}
#[allow(dead_code)]
pub fn degree_map(d: &Diag) -> HashMap<usize, usize> { let mut h = HashMap::new(); for e in &d.edges { *h.entry(e.v0).or_insert(0) += 1; } h }

/// The edges that are clearly longer than the resolution of a diagram agree: same sites, same class,
/// same ends. `rel` is relative to the larger of the coordinates involved and of the input extent.
pub fn same_contracted(a: &Canon, b: &Canon, ext: f64, rel: f64) -> Result<usize, String> { same_but(a, b, ext, rel, &[]) }
/// The same where the positions in `open` count as known only up to the distance given with each.
pub fn same_but(a: &Canon, b: &Canon, ext: f64, rel: f64, open: &[((f64, f64), f64)]) -> Result<usize, String> {
    let more = |p: &(f64, f64)| open.iter().filter(|(q, d)| (p.0 - q.0).abs().max((p.1 - q.1).abs()) <= *d).fold(0.0, |m: f64, x| m.max(x.1));
    let mut n = 0;
    for (x, y, xn, yn) in [(a, b, "first", "second"), (b, a, "second", "first")] {
        for (k, l) in x {
            let none = vec![];
            let m = y.get(k).unwrap_or(&none);
            let mut used = vec![false; m.len()];
            for e in l {
                let c = |v: &Option<(f64, f64)>| v.map_or(0.0, |p| p.0.abs().max(p.1.abs()));
                let mag = ext.max(c(&e.2)).max(c(&e.3));
                if let (Some(p), Some(q)) = (e.2, e.3) { if (p.0 - q.0).abs().max((p.1 - q.1).abs()) <= 8.0 * rel * mag + more(&p).max(more(&q)) { continue; } }
                n += 1;
                let pc = |x: &Option<(f64, f64)>, y: &Option<(f64, f64)>| match (x, y) { (None, None) => true, (Some(p), Some(q)) => { let t = rel * mag + more(p); (p.0 - q.0).abs() <= t && (p.1 - q.1).abs() <= t } _ => false };
                let Some(j) = (0..m.len()).find(|&j| !used[j] && m[j].0 == e.0 && m[j].1 == e.1 && pc(&e.2, &m[j].2) && pc(&e.3, &m[j].3)) else {
                    return Err(format!("edge between {:?} and {:?} {e:?} of the {xn} diagram has no counterpart in the {yn}: {m:?}", k.0, k.1)) };
                used[j] = true;
            }
        }
    }
    Ok(n)
}
/// Canonical form with every site mapped through f (integer) and every vertex through h.
pub fn map_canon(c: &Canon, f: impl Fn([i64; 2]) -> [i64; 2], h: impl Fn((f64, f64)) -> (f64, f64), mirror: bool) -> Canon {
    let s = |x: &Site| match x { Site::Pt(p) => Site::Pt(f(*p)), Site::Seg(a, b) => Site::seg(f(*a), f(*b)) };
    let mut m = Canon::new();
    for (k, l) in c {
        // a reflection turns the own cell of a half-edge to its right: the twin takes its place
        let key = if mirror { (s(&k.1), s(&k.0)) } else { (s(&k.0), s(&k.1)) };
        let e = m.entry(key).or_default();
        for x in l { e.push((x.0, x.1, x.2.map(&h), x.3.map(&h))); }
    }
    m
}
