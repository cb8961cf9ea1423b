//! Generators of valid inputs: points and segments that touch only at shared endpoints, with no
//! point inside a segment. Candidates are drafted by family and kept only when exactly valid.
use crate::diag::Geo;
use crate::rng::Rng;

pub fn orient(a: [i64; 2], b: [i64; 2], c: [i64; 2]) -> i128 {
    let d = |p: i64, q: i64| p as i128 - q as i128;
    d(b[0], a[0]) * d(c[1], a[1]) - d(b[1], a[1]) * d(c[0], a[0])
}
fn between(a: i64, b: i64, c: i64) -> bool { a.min(b) <= c && c <= a.max(b) }
/// strictly inside the segment (on it, not an endpoint)
pub fn inside(s: &[i64; 4], p: [i64; 2]) -> bool {
    let (a, b) = ([s[0], s[1]], [s[2], s[3]]);
    p != a && p != b && between(a[0], b[0], p[0]) && between(a[1], b[1], p[1]) && orient(a, b, p) == 0
}
pub fn ends(s: &[i64; 4]) -> ([i64; 2], [i64; 2]) { ([s[0], s[1]], [s[2], s[3]]) }
pub fn same_seg(s: &[i64; 4], t: &[i64; 4]) -> bool { let (a, b) = ends(s); let (c, d) = ends(t); (a == c && b == d) || (a == d && b == c) }
/// the two segments share something other than endpoints
pub fn conflict(s: &[i64; 4], t: &[i64; 4]) -> bool {
    let (a, b) = ends(s);
    let (c, d) = ends(t);
    if !(a[0].min(b[0]) <= c[0].max(d[0]) && c[0].min(d[0]) <= a[0].max(b[0]) && a[1].min(b[1]) <= c[1].max(d[1]) && c[1].min(d[1]) <= a[1].max(b[1])) { return false; }
    if same_seg(s, t) { return true; }
    if inside(s, c) || inside(s, d) || inside(t, a) || inside(t, b) { return true; }
    let (o1, o2) = (orient(a, b, c).signum(), orient(a, b, d).signum());
    let (o3, o4) = (orient(c, d, a).signum(), orient(c, d, b).signum());
    o1 * o2 < 0 && o3 * o4 < 0
}
pub fn valid(g: &Geo) -> bool {
    for (i, s) in g.s.iter().enumerate() {
        for t in &g.s[..i] { if !same_seg(s, t) && conflict(s, t) { return false; } }
        for p in &g.p { if inside(s, *p) { return false; } }
        for t in &g.s { if inside(s, [t[0], t[1]]) || inside(s, [t[2], t[3]]) { return false; } }
    }
    true
}
pub struct Sink { pub g: Geo, pub max_p: usize, pub max_s: usize }
impl Sink {
    pub fn new(max_p: usize, max_s: usize) -> Self { Sink { g: Geo::default(), max_p, max_s } }
    pub fn pt(&mut self, p: [i64; 2]) {
        if self.g.p.len() < self.max_p && !self.g.p.contains(&p) && !self.g.s.iter().any(|s| inside(s, p)) { self.g.p.push(p); }
    }
    pub fn seg(&mut self, s: [i64; 4]) -> bool {
        let (a, b) = ends(&s);
        if self.g.s.len() >= self.max_s || a == b || self.g.s.iter().any(|t| conflict(&s, t)) || self.g.p.iter().any(|p| inside(&s, *p)) { return false; }
        self.g.s.push(s);
        true
    }
}
/// A coordinate limit of the form 2^k-ish, spread over magnitudes.
pub fn limit(r: &mut Rng, maxbits: u32) -> i64 {
    let k = r.range(1, maxbits as i64) as u32;
    if r.chance(1, 2) { 1i64 << k } else { r.range(1i64 << (k - 1), 1i64 << k).max(1) }
}
fn rp(r: &mut Rng, l: i64) -> [i64; 2] { [r.range(-l, l), r.range(-l, l)] }

// lattice points at equal distance from the origin
fn circle(r2: i64) -> Vec<[i64; 2]> {
    let mut v = vec![];
    let m = (r2 as f64).sqrt() as i64 + 1;
    for x in -m..=m { let y2 = r2 - x * x; if y2 >= 0 { let y = (y2 as f64).sqrt().round() as i64; if y * y == y2 { v.push([x, y]); if y != 0 { v.push([x, -y]); } } } }
    v
}
const CIRCLES: [i64; 9] = [5, 25, 50, 65, 325, 425, 1105, 5525, 27625];

#[derive(Clone, Copy)]
pub struct GenCfg { pub max_p: usize, pub max_s: usize, /** coordinates stay within ±2^bits */ pub bits: u32, /** point families, segment families */ pub pf: u32, pub sf: u32 }
pub const ALL_P: u32 = (1 << POINT_FAMS) - 1;
pub const ALL_S: u32 = (1 << SEG_FAMS) - 1;
impl GenCfg {
    pub const fn new(max_p: usize, max_s: usize, bits: u32) -> Self { GenCfg { max_p, max_s, bits, pf: ALL_P, sf: ALL_S } }
    /// without the families built to sit right next to degenerate (points 6, 7; segments 7, 8, 11)
    pub const fn calm(max_p: usize, max_s: usize, bits: u32) -> Self { GenCfg { max_p, max_s, bits, pf: ALL_P & !(3 << 6), sf: ALL_S & !(3 << 7) & !(1 << 11) } }
    /// one scale per input: for coordinates so large that unit-sized detail drowns in rounding
    pub const fn wide(max_p: usize, max_s: usize, bits: u32) -> Self { GenCfg { max_p, max_s, bits, pf: 1 << 1 | 1 << 3 | 1 << 5, sf: 1 << 1 | 1 << 2 | 1 << 4 | 1 << 6 | 1 << 10 } }
    fn p(&self, r: &mut Rng) -> u64 { loop { let f = r.below(POINT_FAMS); if self.pf >> f & 1 == 1 { return f; } } }
    fn s(&self, r: &mut Rng) -> u64 { loop { let f = r.below(SEG_FAMS); if self.sf >> f & 1 == 1 { return f; } } }
}

pub const POINT_FAMS: u64 = 9;
pub fn draft_points(r: &mut Rng, k: &mut Sink, fam: u64, n: usize, bits: u32) {
    match fam {
        0 => { let l = r.range(1, 6); for _ in 0..n { k.pt(rp(r, l)); } }
        1 => { let l = limit(r, bits); for _ in 0..n { k.pt(rp(r, l)); } }
        2 => {
            // collinear, possibly with a few points off the line
            let d = *r.pick(&[[0, 1], [1, 0], [1, 1], [1, -1], [2, 1], [-3, 5], [7, 1]]);
            let st = limit(r, bits.saturating_sub(8).max(1)).max(1);
            let o = rp(r, 5);
            for _ in 0..n { let t = r.range(-16, 16); k.pt([o[0] + d[0] * t * st / 1, o[1] + d[1] * t * st]); }
            if r.chance(1, 2) { for _ in 0..r.us(3) { k.pt(rp(r, st * 4)); } }
        }
        3 => {
            let c = circle(*r.pick(&CIRCLES));
            let sc = 1i64 << r.below((bits as u64).saturating_sub(9).max(1));
            let o = rp(r, 3);
            for _ in 0..n { let p = *r.pick(&c); k.pt([(p[0] + o[0]) * sc, (p[1] + o[1]) * sc]); }
            if r.chance(1, 2) { k.pt([o[0] * sc, o[1] * sc]); }
        }
        4 => {
            let nc = 1 + r.us(4);
            let l = limit(r, bits - 1);
            let cs: Vec<_> = (0..nc).map(|_| rp(r, l)).collect();
            let w = r.range(1, 4);
            for _ in 0..n { let c = *r.pick(&cs); let o = rp(r, w.min(l)); k.pt([c[0] + o[0], c[1] + o[1]]); }
        }
        5 => {
            // affine lattice
            let b = (bits as i64 - 5).clamp(1, 24) as u32;
            let m = limit(r, b);
            let (u, v) = loop { let u = rp(r, m); let v = rp(r, m); if u[0] as i128 * v[1] as i128 != u[1] as i128 * v[0] as i128 { break (u, v) } };
            let (a, c) = (r.range(1, 4), r.range(1, 4));
            for i in -a..=a { for j in -c..=c { if r.chance(5, 6) && k.g.p.len() < n + 8 { k.pt([u[0] * i + v[0] * j, u[1] * i + v[1] * j]); } } }
        }
        6 => {
            let m = (1i64 << bits) - 1;
            let c = [-m, -m + 1, -1, 0, 1, m - 1, m, m / 2, -m / 2];
            for _ in 0..n { if r.chance(1, 5) { k.pt(rp(r, m)); } else { k.pt([*r.pick(&c), *r.pick(&c)]); } }
        }
        7 => {
            // nearly collinear / nearly cocircular at large magnitude
            let l = limit(r, bits - 2).max(4);
            if r.chance(1, 2) {
                let d = rp(r, (l / 16).max(1));
                for _ in 0..n { let t = r.range(-8, 8); let j = rp(r, 1); k.pt([d[0] * t + j[0], d[1] * t + j[1]]); }
            } else {
                for _ in 0..n { let a = r.f01() * std::f64::consts::TAU; k.pt([(l as f64 * a.cos()).round() as i64, (l as f64 * a.sin()).round() as i64]); }
            }
        }
        _ => {
            // axis-aligned ladders: many equal x and equal y
            let xs: Vec<i64> = { let l = limit(r, bits); (0..1 + r.us(4)).map(|_| r.range(-l, l)).collect() };
            let l = limit(r, bits);
            for _ in 0..n { let x = *r.pick(&xs); let y = if r.chance(1, 2) { *r.pick(&xs) } else { r.range(-l, l) }; k.pt([x, y]); }
        }
    }
}
pub const SEG_FAMS: u64 = 12;
pub fn draft_segs(r: &mut Rng, k: &mut Sink, fam: u64, n: usize, bits: u32) {
    let top = (1i64 << bits) - 1;
    match fam {
        0 => { let l = r.range(1, 8); for _ in 0..n * 3 { let (a, b) = (rp(r, l), rp(r, l)); k.seg([a[0], a[1], b[0], b[1]]); if k.g.s.len() >= n { break; } } }
        1 => { let l = limit(r, bits); for _ in 0..n * 2 { let (a, b) = (rp(r, l), rp(r, l)); k.seg([a[0], a[1], b[0], b[1]]); if k.g.s.len() >= n { break; } } }
        2 => {
            // short segments in a big box
            let l = limit(r, bits - 1);
            let w = (l / (1 + r.range(1, 16))).max(1);
            for _ in 0..n * 2 { let a = rp(r, l); let o = rp(r, w); k.seg([a[0], a[1], a[0] + o[0], a[1] + o[1]]); if k.g.s.len() >= n { break; } }
        }
        3 => {
            // edges of a lattice, affinely placed
            let sc = limit(r, (bits as i64 - 4).clamp(1, 26) as u32);
            let dim = r.range(1, 4);
            let sh = if r.chance(1, 2) { r.range(-2, 2) } else { 0 };
            let o = rp(r, 3);
            let dirs = [[1, 0], [0, 1], [1, 1], [1, -1], [2, 1], [1, 2]];
            let nd = if r.chance(1, 2) { 2 } else { 6 };
            for _ in 0..n * 3 {
                let a = [r.range(0, dim), r.range(0, dim)];
                let d = dirs[r.us(nd)];
                let m = |p: [i64; 2]| [(p[0] + sh * p[1] + o[0]) * sc / 2, (p[1] + o[1]) * sc / 2];
                let (p, q) = (m(a), m([a[0] + d[0], a[1] + d[1]]));
                k.seg(if r.chance(1, 2) { [p[0], p[1], q[0], q[1]] } else { [q[0], q[1], p[0], p[1]] });
                if k.g.s.len() >= n { break; }
            }
        }
        4 => {
            // star-shaped polygon or polyline around a centre
            let l = limit(r, bits).max(3);
            let mut ang: Vec<f64> = (0..n.max(3)).map(|_| r.f01() * std::f64::consts::TAU).collect();
            ang.sort_by(|a, b| a.total_cmp(b));
            let pts: Vec<[i64; 2]> = ang.iter().map(|a| { let q = l as f64 * (0.3 + 0.7 * r.f01()); [((q * a.cos()) as i64).clamp(-top, top), ((q * a.sin()) as i64).clamp(-top, top)] }).collect();
            let m = if r.chance(2, 3) { pts.len() } else { pts.len() - 1 };
            for i in 0..m { let (a, b) = (pts[i], pts[(i + 1) % pts.len()]); k.seg([a[0], a[1], b[0], b[1]]); }
        }
        5 => {
            // parallel and collinear
            let d = *r.pick(&[[0i64, 1i64], [1, 0], [1, 1], [2, 1], [-1, 3]]);
            let st = limit(r, (bits as i64 - 8).clamp(1, 24) as u32).max(1);
            let nn = [-d[1], d[0]];
            for _ in 0..n * 2 {
                let row = r.range(-2, 2);
                let a = r.range(-12, 10);
                let b = a + r.range(1, 5);
                k.seg([(d[0] * a + nn[0] * row) * st, (d[1] * a + nn[1] * row) * st, (d[0] * b + nn[0] * row) * st, (d[1] * b + nn[1] * row) * st]);
                if k.g.s.len() >= n { break; }
            }
        }
        6 => {
            // fan from one shared vertex
            let l = limit(r, bits - 1);
            let c = rp(r, l / 2 + 1);
            for _ in 0..n { let o = if r.chance(1, 2) { rp(r, l) } else { let d = *r.pick(&[[1i64, 0i64], [0, 1], [-1, 0], [0, -1], [1, 1], [-1, 1], [1, -1], [-1, -1]]); [d[0] * l, d[1] * l] };
                let e = [c[0] + o[0], c[1] + o[1]];
                k.seg(if r.chance(1, 2) { [c[0], c[1], e[0], e[1]] } else { [e[0], e[1], c[0], c[1]] }); }
        }
        7 => {
            // nested rectangles and combs
            let sc = limit(r, (bits as i64 - 5).clamp(1, 24) as u32);
            let m = r.range(1, 3);
            for i in 1..=m {
                let (w, h) = (i * sc * 2, i * sc * r.range(1, 3));
                let c = [[-w, -h], [w, -h], [w, h], [-w, h]];
                for j in 0..4 { if r.chance(7, 8) { let (a, b) = (c[j], c[(j + 1) % 4]); k.seg([a[0], a[1], b[0], b[1]]); } }
            }
        }
        8 => {
            // a segment with near neighbours one unit away
            let l = limit(r, bits - 1).max(2);
            let (a, b) = (rp(r, l), rp(r, l));
            k.seg([a[0], a[1], b[0], b[1]]);
            for _ in 0..n { let j = rp(r, 2); let q = rp(r, l);
                let s = match r.below(3) { 0 => [a[0] + j[0], a[1] + j[1], b[0] + r.range(-2, 2), b[1] + r.range(-2, 2)], 1 => [a[0], a[1], q[0], q[1]], _ => { let t = r.f01(); let m = [a[0] + ((b[0] - a[0]) as f64 * t) as i64 + j[0], a[1] + ((b[1] - a[1]) as f64 * t) as i64 + j[1]]; [m[0], m[1], q[0], q[1]] } };
                k.seg(s); }
        }
        9 => {
            // staircase / zigzag polyline
            let st = limit(r, (bits as i64 - 6).clamp(1, 24) as u32);
            let mut p = rp(r, st);
            for i in 0..n { let q = if i % 2 == 0 { [p[0] + st * r.range(1, 2), p[1] + if r.chance(1, 4) { st } else { 0 }] } else { [p[0] + if r.chance(1, 4) { st } else { 0 }, p[1] + st * r.range(-2, 2)] };
                if q != p { k.seg([p[0], p[1], q[0], q[1]]); p = q; } }
        }
        10 => {
            // mirrored arrangement: symmetric inputs put many events at the same place
            let l = limit(r, bits);
            for _ in 0..n { let (a, b) = (rp(r, l), rp(r, l)); let m = r.below(3);
                let f = |p: [i64; 2]| match m { 0 => [-p[0], p[1]], 1 => [p[0], -p[1]], _ => [-p[0], -p[1]] };
                if k.seg([a[0], a[1], b[0], b[1]]) { let (c, d) = (f(a), f(b)); k.seg([c[0], c[1], d[0], d[1]]); } }
        }
        _ => {
            let m = top;
            let c = [-m, -m + 1, -1, 0, 1, m - 1, m];
            for _ in 0..n * 2 { let (a, b) = ([*r.pick(&c), *r.pick(&c)], if r.chance(1, 3) { rp(r, m) } else { [*r.pick(&c), *r.pick(&c)] }); k.seg([a[0], a[1], b[0], b[1]]); if k.g.s.len() >= n { break; } }
        }
    }
}
fn clampable(g: &Geo, top: i64) -> bool { g.p.iter().flatten().all(|v| v.abs() <= top) && g.s.iter().flatten().all(|v| v.abs() <= top) }

/// Points only.
pub fn gen_points(r: &mut Rng, cfg: GenCfg) -> Geo {
    loop {
        let n = 1 + if r.chance(1, 2) { r.us(cfg.max_p.min(10)) } else { r.us(cfg.max_p) };
        let mut k = Sink::new(cfg.max_p, 0);
        let fam = cfg.p(r);
        draft_points(r, &mut k, fam, n, cfg.bits);
        if r.chance(1, 4) { let f = cfg.p(r); draft_points(r, &mut k, f, 1 + n / 3, cfg.bits); }
        r.shuffle(&mut k.g.p);
        if clampable(&k.g, 1 << cfg.bits) && !k.g.p.is_empty() { return k.g; }
    }
}
/// Segments, usually with some points.
pub fn gen_mixed(r: &mut Rng, cfg: GenCfg) -> Geo { let f = cfg.s(r); gen_mixed_f(r, cfg, f) }
pub fn gen_mixed_f(r: &mut Rng, cfg: GenCfg, fam: u64) -> Geo {
    loop {
        let n = 1 + if r.chance(1, 2) { r.us(cfg.max_s.min(6)) } else { r.us(cfg.max_s) };
        let mut k = Sink::new(cfg.max_p, cfg.max_s);
        let first_pts = r.chance(1, 5);
        if first_pts { let np = 1 + r.us(cfg.max_p); let f = cfg.p(r); draft_points(r, &mut k, f, np, cfg.bits); }
        draft_segs(r, &mut k, fam, n, cfg.bits);
        if r.chance(1, 5) { draft_segs(r, &mut k, fam, 1 + n / 3, cfg.bits); }
        if !first_pts && r.chance(1, 2) && cfg.max_p > 0 {
            let np = 1 + r.us(cfg.max_p.min(6));
            match r.below(if cfg.bits > 24 { 2 } else { 3 }) {
                0 => { let f = cfg.p(r); draft_points(r, &mut k, f, np, cfg.bits); }
                1 => { let e = k.g.s.iter().flatten().map(|v| v.abs()).max().unwrap_or(4); for _ in 0..np { let p = rp(r, e.max(1)); k.pt(p); } }
                _ => {
                    // next to, or exactly on, segment endpoints; next to interiors
                    if k.g.s.is_empty() { continue; }
                    for _ in 0..np { let s = *r.pick(&k.g.s); let j = rp(r, 2); let t = *r.pick(&[0.0, 1.0, 0.5, 0.25, 0.9]);
                        k.pt([s[0] + ((s[2] - s[0]) as f64 * t) as i64 + j[0], s[1] + ((s[3] - s[1]) as f64 * t) as i64 + j[1]]); }
                }
            }
        }
        let mut g = k.g;
        r.shuffle(&mut g.p); r.shuffle(&mut g.s);
        for s in g.s.iter_mut() { if r.chance(1, 3) { *s = [s[2], s[3], s[0], s[1]]; } }
        if clampable(&g, 1 << cfg.bits) && !g.s.is_empty() { debug_assert!(valid(&g)); return g; }
    }
}
pub fn gen_any(r: &mut Rng, cfg: GenCfg) -> Geo { if r.chance(1, 3) { gen_points(r, cfg) } else { gen_mixed(r, cfg) } }

/// Smaller variants: drop parts, pull coordinates towards the origin, halve everything.
pub fn shrink_geo(g: &Geo) -> Vec<Geo> {
    let mut out = vec![];
    let (np, ns) = (g.p.len(), g.s.len());
    for k in [np / 2, np / 4] { if k > 0 { let mut i = 0; while i < np { let mut h = g.clone(); h.p.drain(i..(i + k).min(np)); out.push(h); i += k; } } }
    for k in [ns / 2, ns / 4] { if k > 0 { let mut i = 0; while i < ns { let mut h = g.clone(); h.s.drain(i..(i + k).min(ns)); out.push(h); i += k; } } }
    for i in 0..np { let mut h = g.clone(); h.p.remove(i); out.push(h); }
    for i in 0..ns { let mut h = g.clone(); h.s.remove(i); out.push(h); }
    let map = |f: &dyn Fn(i64, usize) -> i64| { let mut h = g.clone(); for p in h.p.iter_mut() { for j in 0..2 { p[j] = f(p[j], j); } } for s in h.s.iter_mut() { for j in 0..4 { s[j] = f(s[j], j % 2); } } h };
    let all: Vec<i64> = g.p.iter().flatten().chain(g.s.iter().flatten()).copied().collect();
    if !all.is_empty() {
        let minx = g.p.iter().map(|p| p[0]).chain(g.s.iter().flat_map(|s| [s[0], s[2]])).min().unwrap();
        let miny = g.p.iter().map(|p| p[1]).chain(g.s.iter().flat_map(|s| [s[1], s[3]])).min().unwrap();
        if minx != 0 || miny != 0 { if minx.unsigned_abs() < 1 << 40 && miny.unsigned_abs() < 1 << 40 { out.push(map(&|v, j| v - if j == 0 { minx } else { miny })); } }
        for d in [1 << 20, 1000, 16, 10, 4, 3, 2] { out.push(map(&|v, _| v / d)); }
    }
    for i in 0..np { for j in 0..2 { for v in [0, g.p[i][j] / 2, g.p[i][j] - g.p[i][j].signum()] { if v != g.p[i][j] { let mut h = g.clone(); h.p[i][j] = v; out.push(h); } } } }
    for i in 0..ns { for j in 0..4 { for v in [0, g.s[i][j] / 2, g.s[i][j] - g.s[i][j].signum()] { if v != g.s[i][j] { let mut h = g.clone(); h.s[i][j] = v; out.push(h); } } } }
    out.retain(|h| h != g && valid(h) && h.s.iter().all(|s| ends(s).0 != ends(s).1));
    out
}
