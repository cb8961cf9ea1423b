//! Exact brute-force Voronoi diagram of a few points: which pairs share an edge, and from where to
//! where, in integer arithmetic.
use crate::dd::Dd;
use crate::diag::*;
use crate::engine::*;
use crate::ensure;
use crate::oracle::*;
use std::collections::HashMap;

/// parameter interval of the bisector of p[i], p[j] on which no other point is closer;
/// bounds are fractions with a positive denominator, None = unbounded
pub type Frac = (i128, i128);
fn lt(a: Frac, b: Frac) -> bool { a.0 * b.1 < b.0 * a.1 }
pub fn interval(p: &[[i64; 2]], i: usize, j: usize) -> Option<(Option<Frac>, Option<Frac>)> {
    let w = |k: usize| [p[k][0] as i128, p[k][1] as i128];
    let (a, b) = (w(i), w(j));
    let n = [-(b[1] - a[1]), b[0] - a[0]];
    let (mut lo, mut hi): (Option<Frac>, Option<Frac>) = (None, None);
    for k in 0..p.len() {
        if k == i || k == j { continue; }
        // relative to a: closer-to-a condition  |k|^2 - (b . k) - 2 t (n . k) >= 0
        let c = [w(k)[0] - a[0], w(k)[1] - a[1]];
        let d = [b[0] - a[0], b[1] - a[1]];
        let (c0, c1) = (c[0] * c[0] + c[1] * c[1] - (d[0] * c[0] + d[1] * c[1]), -2 * (n[0] * c[0] + n[1] * c[1]));
        // c0 + c1 t >= 0
        if c1 == 0 { if c0 < 0 { return None; } continue; }
        if c1 > 0 { let f = (-c0, c1); if lo.map_or(true, |l| lt(l, f)) { lo = Some(f); } } else { let f = (c0, -c1); if hi.map_or(true, |h| lt(f, h)) { hi = Some(f); } }
    }
    Some((lo, hi))
}
fn at(p: &[[i64; 2]], i: usize, j: usize, f: Frac) -> (f64, f64) {
    let t = Dd::i128(f.0) / Dd::i128(f.1);
    let (a, b) = (p[i], p[j]);
    let h = Dd::new(0.5);
    (((Dd::int(a[0]) + Dd::int(b[0])) * h - Dd::int(b[1] - a[1]) * t).f(), ((Dd::int(a[1]) + Dd::int(b[1])) * h + Dd::int(b[0] - a[0]) * t).f())
}
/// On the bisector of p[i], p[j], at the two bounds of where they are nearest (or of where they miss
/// being so) and half way: how much farther the nearest other point is at best, relative to the circle.
fn depth(p: &[[i64; 2]], i: usize, j: usize) -> Option<f64> {
    let w = |k: usize| [p[k][0] as i128, p[k][1] as i128];
    let (a, b) = (w(i), w(j));
    let d = [b[0] - a[0], b[1] - a[1]];
    let (mut lo, mut hi): (Option<Frac>, Option<Frac>) = (None, None);
    for k in 0..p.len() {
        if k == i || k == j { continue; }
        let c = [w(k)[0] - a[0], w(k)[1] - a[1]];
        let (c0, c1) = (c[0] * c[0] + c[1] * c[1] - (d[0] * c[0] + d[1] * c[1]), 2 * (d[1] * c[0] - d[0] * c[1]));
        if c1 == 0 { continue; }
        if c1 > 0 { let f = (-c0, c1); if lo.map_or(true, |l| lt(l, f)) { lo = Some(f); } } else { let f = (c0, -c1); if hi.map_or(true, |h| lt(f, h)) { hi = Some(f); } }
    }
    let (lo, hi) = (lo?, hi?);
    let half = Dd::new(0.5);
    let (lo, hi) = (Dd::i128(lo.0) / Dd::i128(lo.1), Dd::i128(hi.0) / Dd::i128(hi.1));
    [lo, (lo + hi) * half, hi].into_iter().map(|t| {
        let (x, y) = ((Dd::int(p[i][0]) + Dd::int(p[j][0])) * half - Dd::int(p[j][1] - p[i][1]) * t, (Dd::int(p[i][1]) + Dd::int(p[j][1])) * half + Dd::int(p[j][0] - p[i][0]) * t);
        let dist = |k: usize| { let (u, v) = (x - Dd::int(p[k][0]), y - Dd::int(p[k][1])); (u * u + v * v).sqrt() };
        let r = dist(i);
        let least = (0..p.len()).filter(|k| *k != i && *k != j).map(|k| (dist(k) - r).f()).fold(f64::INFINITY, f64::min);
        least / (x.f().abs() + y.f().abs() + r.f())
    }).reduce(f64::max)
}
/// Which pairs are neighbours, up to circles that miss being empty by no more than the rounding the
/// sweep allows itself (64 ulp of where it stands).
pub fn check_pairs(g: &Geo, d: &Diag, o: &mut Obs) -> Res {
    let sites = check_cells(g, d)?;
    let p: Vec<[i64; 2]> = sites.iter().map(|s| match s { Site::Pt(p) => *p, _ => unreachable!() }).collect();
    let mut have: std::collections::HashSet<(usize, usize)> = Default::default();
    for e in &d.edges { have.insert((e.cell, d.edges[e.twin].cell)); }
    for i in 0..p.len() {
        for j in 0..i {
            let (want, has) = (match interval(&p, i, j) { None => false, Some((Some(l), Some(h))) => lt(l, h), Some(_) => true }, have.contains(&(i, j)));
            o.sub += 1;
            if want == has { continue; }
            match depth(&p, i, j) {
                Some(e) if e.abs() <= 1e-13 => o.label("open"),
                e => return fail("delaunay-pairs", format!("points {:?} and {:?}: neighbours {want}, edge in the diagram {has} (the circle is clear by {e:?})", p[i], p[j])),
            }
        }
    }
    Ok(())
}
/// `slack`: how far, relative to the input's extent, a vertex may be off besides its own rounding.
pub fn check(g: &Geo, d: &Diag, slack: f64, o: &mut Obs) -> Res {
    let sites = check_cells(g, d)?;
    let p: Vec<[i64; 2]> = sites.iter().map(|s| match s { Site::Pt(p) => *p, _ => unreachable!() }).collect();
    let mut have: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
    for (i, e) in d.edges.iter().enumerate() { have.entry((e.cell, d.edges[e.twin].cell)).or_default().push(i); }
    let rel = 1e-11 + 8.0 * slack;
    // positions are worked out in double-double from terms of the input's size; those that differ differ by far more than this
    let floor = 1e-27 * extent(g);
    let off = slack * extent(g) + floor;
    for i in 0..p.len() {
        for j in 0..p.len() {
            if i == j { continue; }
            let h = have.get(&(i, j)).map_or(&[][..], |v| v);
            ensure!(h.len() <= 1, "delaunay-multi", "points {:?} and {:?} share {} edges", p[i], p[j], h.len());
            let iv = interval(&p, i, j);
            o.sub += 1;
            // length of the exact edge relative to the magnitude of its ends, negative when there is none
            let span = match &iv {
                None => f64::NEG_INFINITY,
                Some((Some(l), Some(h))) => {
                    let (a, b) = (at(&p, i, j, *l), at(&p, i, j, *h));
                    let m = a.0.abs().max(a.1.abs()).max(b.0.abs()).max(b.1.abs()).max(floor).max(1e-300);
                    let len = (a.0 - b.0).abs().max((a.1 - b.1).abs()) / m;
                    if lt(*l, *h) { len } else { -len }
                }
                Some(_) => f64::INFINITY,
            };
            if span > rel { ensure!(h.len() == 1, "delaunay-missing", "points {:?} and {:?} are neighbours along a stretch of relative length {span:e}, but the diagram has no edge between them", p[i], p[j]); }
            if span < -rel { ensure!(h.is_empty(), "delaunay-extra", "the diagram has an edge between points {:?} and {:?}, which are nowhere neighbours", p[i], p[j]); }
            if let (Some(&e), Some((lo, hi))) = (h.first(), &iv) {
                for (v, f, which) in [(d.edges[e].v0, lo, "start"), (d.v1(e), hi, "end")] {
                    match (v, f) {
                        (NONE, None) => {}
                        (NONE, Some(f)) => return fail("delaunay-unbounded", format!("edge {e} between {:?} and {:?} has no {which} vertex but should have one at {:?}", p[i], p[j], at(&p, i, j, *f))),
                        (v, None) => return fail("delaunay-unbounded", format!("edge {e} between {:?} and {:?} has {which} vertex {v} but is unbounded there", p[i], p[j])),
                        (v, Some(f)) => {
                            let (x, y) = at(&p, i, j, *f);
                            let q = &d.verts[v];
                            let m = x.abs().max(y.abs());
                            ensure!((q.x - x).abs() <= 1e-12 * m + off + 1e-300 && (q.y - y).abs() <= 1e-12 * m + off + 1e-300, "delaunay-vertex", "edge {e} between {:?} and {:?}: {which} vertex at ({:e}, {:e}), exactly ({x:e}, {y:e})", p[i], p[j], q.x, q.y);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
