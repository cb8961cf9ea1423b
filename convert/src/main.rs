//! P23: coordinates survive conversion between geometry types and number types.
use boostvoronoi::{self as bv, cgmath, geo, glam, mint, Line, Point};
use serde::{Deserialize, Serialize};
use vf::diag::{build, extract, pts, segs, FBits, Geo};
use vf::engine::*;
use vf::ensure;
use vf::gen::{gen_any, shrink_geo, GenCfg};
use vf::rng::Rng;

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res { ensure!(got == want, "conversion", "{what}: got {got:?}, expected {want:?}"); Ok(()) }

macro_rules! ints { ($name:ident, $t:ty) => {
    fn $name(c: [$t; 4], n: &mut u64) -> Res {
        let [x, y, u, v] = c;
        let p = Point::<$t>::new(x, y);
        let l = Line::<$t>::new(Point { x, y }, Point { x: u, y: v });
        let at = |what: &str, q: Point<$t>| same(what, [q.x, q.y], [x, y]);
        let ln = |what: &str, m: Line<$t>| same(what, [m.start.x, m.start.y, m.end.x, m.end.y], c);
        at("Point::new", p)?;
        at("Point from &Point", Point::from(&p))?;
        at("Point from array", Point::from([x, y]))?;
        at("Point from &array", Point::from(&[x, y]))?;
        at("Point from geo::Coord", Point::from(geo::Coord { x, y }))?;
        at("Point from &geo::Coord", Point::from(&geo::Coord { x, y }))?;
        at("Point from geo::Point", Point::from(geo::Point::new(x, y)))?;
        at("Point from &geo::Point", Point::from(&geo::Point::new(x, y)))?;
        at("Point from cgmath", Point::from(cgmath::Point2 { x, y }))?;
        at("Point from &cgmath", Point::from(&cgmath::Point2 { x, y }))?;
        at("Point from mint", Point::from(mint::Point2 { x, y }))?;
        at("Point from &mint", Point::from(&mint::Point2 { x, y }))?;
        at("Point from nalgebra", Point::from(nalgebra::Point2::new(x, y)))?;
        at("Point from &nalgebra", Point::from(&nalgebra::Point2::new(x, y)))?;
        let q = geo::Coord::<$t>::from(p); same("geo::Coord from Point", [q.x, q.y], [x, y])?;
        let q = geo::Coord::<$t>::from(&p); same("geo::Coord from &Point", [q.x, q.y], [x, y])?;
        let q = geo::Point::<$t>::from(p); same("geo::Point from Point", [q.x(), q.y()], [x, y])?;
        let q = cgmath::Point2::<$t>::from(p); same("cgmath from Point", [q.x, q.y], [x, y])?;
        let q = mint::Point2::<$t>::from(p); same("mint from Point", [q.x, q.y], [x, y])?;
        let q = nalgebra::Point2::<$t>::from(p); same("nalgebra from Point", [q.x, q.y], [x, y])?;
        let f: [f64; 2] = p.into();
        same("[f64; 2] from Point", f, [x as f64, y as f64])?;
        same("Point::as_f64", p.as_f64(), [x as f64, y as f64])?;
        ln("Line::new", l)?;
        ln("Line from &Line", Line::from(&l))?;
        ln("Line from four", Line::from(c))?;
        ln("Line from &four", Line::from(&c))?;
        ln("Line from points", Line::from([l.start, l.end]))?;
        ln("Line from &points", Line::from(&[l.start, l.end]))?;
        ln("Line from pairs", Line::<$t>::from([[x, y], [u, v]]))?;
        ln("Line from geo::Line", Line::from(geo::Line::new((x, y), (u, v))))?;
        ln("Line from &geo::Line", Line::from(&geo::Line::new((x, y), (u, v))))?;
        ln("Line from mint", Line::<$t>::from([mint::Point2 { x, y }, mint::Point2 { x: u, y: v }]))?;
        ln("Line from cgmath", Line::<$t>::from([cgmath::Point2 { x, y }, cgmath::Point2 { x: u, y: v }]))?;
        ln("Line from nalgebra", Line::<$t>::from([nalgebra::Point2::new(x, y), nalgebra::Point2::new(u, v)]))?;
        ln("Line from geo::Coord", Line::<$t>::from([geo::Coord { x, y }, geo::Coord { x: u, y: v }]))?;
        same("four from Line", <[$t; 4]>::from(l), c)?;
        same("four from &Line", <[$t; 4]>::from(&l), c)?;
        let g = geo::Line::<$t>::from(l); same("geo::Line from Line", [g.start.x, g.start.y, g.end.x, g.end.y], c)?;
        let m: [mint::Point2<$t>; 2] = l.into(); same("mint from Line", [m[0].x, m[0].y, m[1].x, m[1].y], c)?;
        // equality is that of the coordinates
        let o = Point::<$t>::new(u, v);
        ensure!((p == o) == (x == u && y == v), "equality", "{p:?} == {o:?} is {}", p == o);
        *n += 43;
        Ok(())
    }
} }
ints!(ints32, i32);
ints!(ints64, i64);
fn glams(c: [i32; 4], n: &mut u64) -> Res {
    let [x, y, u, v] = c;
    let p = Point::<i32>::from(glam::IVec2::new(x, y)); same("Point from glam", [p.x, p.y], [x, y])?;
    let p = Point::<i32>::from(&glam::IVec2::new(x, y)); same("Point from &glam", [p.x, p.y], [x, y])?;
    let g = glam::IVec2::from(p); same("glam from Point", [g.x, g.y], [x, y])?;
    let l = Line::<i32>::from([glam::IVec2::new(x, y), glam::IVec2::new(u, v)]); same("Line from glam", [l.start.x, l.start.y, l.end.x, l.end.y], c)?;
    let g: [glam::IVec2; 2] = l.into(); same("glam from Line", [g[0].x, g[0].y, g[1].x, g[1].y], c)?;
    *n += 5;
    Ok(())
}
macro_rules! floats { ($name:ident, $t:ty, $vec:ty) => {
    fn $name(x: $t, y: $t, n: &mut u64) -> Res {
        let b = |a: [$t; 2]| [a[0].to_bits(), a[1].to_bits()];
        let w = b([x, y]);
        let v = boostvoronoi_core::diagram::Vertex::<$t>::new_3(boostvoronoi_core::diagram::VertexIndex(0), x, y, false).get();
        let eq = |what: &str, g: [$t; 2]| same(what, b(g), w);
        eq("vertex", [v.x(), v.y()])?;
        eq("array from &Vertex", <[$t; 2]>::from(&v))?;
        let g = geo::Coord::<$t>::from(&v); eq("geo::Coord from &Vertex", [g.x, g.y])?;
        let g = geo::Coord::<$t>::from(v.clone()); eq("geo::Coord from Vertex", [g.x, g.y])?;
        let g = geo::Point::<$t>::from(&v); eq("geo::Point from &Vertex", [g.x(), g.y()])?;
        let g = geo::Point::<$t>::from(v.clone()); eq("geo::Point from Vertex", [g.x(), g.y()])?;
        let g = cgmath::Point2::<$t>::from(&v); eq("cgmath from &Vertex", [g.x, g.y])?;
        let g = cgmath::Point2::<$t>::from(v.clone()); eq("cgmath from Vertex", [g.x, g.y])?;
        let g = mint::Point2::<$t>::from(&v); eq("mint from &Vertex", [g.x, g.y])?;
        let g = mint::Point2::<$t>::from(v.clone()); eq("mint from Vertex", [g.x, g.y])?;
        let g = nalgebra::Point2::<$t>::from(&v); eq("nalgebra from &Vertex", [g.x, g.y])?;
        let g = nalgebra::Point2::<$t>::from(v.clone()); eq("nalgebra from Vertex", [g.x, g.y])?;
        let g = <$vec>::from(&v); eq("glam from &Vertex", [g.x, g.y])?;
        let g = <$vec>::from(v); eq("glam from Vertex", [g.x, g.y])?;
        *n += 14;
        Ok(())
    }
} }
floats!(floats32, f32, glam::Vec2);
floats!(floats64, f64, glam::DVec2);

/// A number either arrives unchanged (integers), rounded once (to a float) or cut (to an integer), or does not fit.
fn casts(i: i64, f: f64, n: &mut u64) -> Res {
    macro_rules! one { ($from:expr, $t:ty, $want:expr) => {{
        let want: Option<$t> = $want;
        let got = bv::try_cast::<_, $t>($from);
        match (&got, want) {
            (Ok(a), Some(b)) => ensure!(a.to_string() == b.to_string(), "cast", "try_cast of {:?} to {} gives {a:?}, expected {b:?}", $from, stringify!($t)),
            (Err(bv::BvError::NumberConversion(_)), None) => {}
            _ => return fail("cast", format!("try_cast of {:?} to {} gives {got:?}, expected {want:?}", $from, stringify!($t))),
        }
        let got = std::panic::catch_unwind(|| bv::cast::<_, $t>($from)).ok();
        ensure!(got.map(|v| v.to_string()) == want.map(|v| v.to_string()), "cast", "cast of {:?} to {} gives {got:?}, expected {want:?} (none: it panics)", $from, stringify!($t));
        *n += 2;
    }} }
    let fit = |lo: f64, hi: f64| f.trunc() >= lo && f.trunc() < hi;
    one!(i, i32, i32::try_from(i).ok());
    one!(i, i64, Some(i));
    one!(i, u64, u64::try_from(i).ok());
    one!(i, f64, Some(i as f64));
    one!(i, f32, Some(i as f32));
    one!(i as i32, i64, Some(i as i32 as i64));
    one!(i as i32, f64, Some(i as i32 as f64));
    one!(i as i32, f32, Some(i as i32 as f32));
    one!(f, i32, if fit(-2147483648.0, 2147483648.0) { Some(f as i32) } else { None });
    one!(f, i64, if fit(-9223372036854775808.0, 9223372036854775808.0) { Some(f as i64) } else { None });
    one!(f, f64, Some(f));
    one!(f as f32, f64, Some(f as f32 as f64));
    let c = |p: Point<i64>| std::panic::catch_unwind(move || p.cast::<i32>()).ok();
    let t = i32::try_from(i).ok();
    same("Point::cast to 32 bits", c(Point { x: i, y: 3 }).map(|p| [p.x, p.y]), t.map(|v| [v, 3]))?;
    same("Point::cast to 32 bits", c(Point { x: -5, y: i }).map(|p| [p.x, p.y]), t.map(|v| [-5, v]))?;
    let p = Point { x: i as i32, y: (i >> 7) as i32 }.cast::<i64>();
    same("Point::cast to 64 bits", [p.x, p.y], [i as i32 as i64, (i >> 7) as i32 as i64])?;
    let k = [i as i32, (i >> 5) as i32, (i >> 11) as i32, (i >> 17) as i32];
    let l = Line::<i32>::from(k).cast::<i64>();
    same("Line::cast to 64 bits", <[i64; 4]>::from(l), k.map(|v| v as i64))?;
    same("Line::cast to 32 bits", <[i32; 4]>::from(l.cast::<i32>()), k)?;
    *n += 5;
    Ok(())
}
#[derive(Serialize, Deserialize, Clone)]
struct Nums { i: [i64; 4], f: [u64; 2] }
fn gen_int(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => r.range(-10, 10),
        1 => *r.pick(&[i64::MIN, i64::MAX, i32::MIN as i64, i32::MAX as i64, 0, -1]) ,
        2 => (*r.pick(&[1i64 << 24, 1 << 31, 1 << 32, 1 << 53, -(1 << 31), -(1 << 53)])) + r.range(-3, 3),
        _ => { let k = r.range(0, 63) as u32; (r.next() as i64) >> k }
    }
}
fn gen_float(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => gen_int(r) as f64,
        1 => gen_int(r) as f64 + *r.pick(&[0.5, -0.5, 0.999, -0.999]),
        2 => *r.pick(&[0.0, -0.0, f64::MAX, f64::MIN_POSITIVE, -1e300, 1e-300, 2147483647.5, -2147483648.5, 9.3e18]),
        _ => (r.f01() - 0.5) * 10f64.powf(r.f01() * 40.0 - 15.0),
    }
}
fn check_nums(c: &Nums, o: &mut Obs) -> Res {
    let mut n = 0;
    let i = c.i;
    let (x, y) = (f64::from_bits(c.f[0]), f64::from_bits(c.f[1]));
    ints64(i, &mut n)?;
    ints32(i.map(|v| v as i32), &mut n)?;
    glams(i.map(|v| v as i32), &mut n)?;
    floats64(x, y, &mut n)?;
    floats32(x as f32, y as f32, &mut n)?;
    casts(i[0], x, &mut n)?;
    casts(i[1], y, &mut n)?;
    o.sub = n;
    o.nontrivial = i[0] != i[1] && i[1] != i[2] && x != y;
    if i32::try_from(i[0]).is_err() { o.label("does not fit 32 bits") }
    if (i[0] as f64) as i128 != i[0] as i128 { o.label("rounded by a float") }
    Ok(())
}
/// A builder takes all of these forms, and they give one diagram.
fn check_forms(g: &Geo, o: &mut Obs) -> Res {
    let d = build::<i32, f64>(g)?;
    let (p, s) = (pts::<i32>(g), segs::<i32>(g));
    macro_rules! form { ($name:expr, $pt:expr, $ln:expr) => {{
        let pp: Vec<_> = p.iter().map($pt).collect();
        let ss: Vec<_> = s.iter().map($ln).collect();
        let e = |e: bv::BvError| Fail { sig: "form-error".into(), msg: format!("{}: {e:?}", $name) };
        let b = bv::Builder::<i32, f64>::default().with_vertices(pp).map_err(e)?.with_segments(ss).map_err(e)?.build().map_err(e)?;
        ensure!(extract(&b) == d, "form", "input given as {} builds another diagram", $name);
        o.sub += 1;
    }} }
    form!("geo coordinates and lines", |q: &Point<i32>| geo::Coord { x: q.x, y: q.y }, |l: &Line<i32>| geo::Line::new((l.start.x, l.start.y), (l.end.x, l.end.y)));
    form!("geo points and pairs of coordinates", |q: &Point<i32>| geo::Point::new(q.x, q.y), |l: &Line<i32>| [geo::Coord { x: l.start.x, y: l.start.y }, geo::Coord { x: l.end.x, y: l.end.y }]);
    form!("cgmath points", |q: &Point<i32>| cgmath::Point2 { x: q.x, y: q.y }, |l: &Line<i32>| [cgmath::Point2 { x: l.start.x, y: l.start.y }, cgmath::Point2 { x: l.end.x, y: l.end.y }]);
    form!("glam vectors", |q: &Point<i32>| glam::IVec2::new(q.x, q.y), |l: &Line<i32>| [glam::IVec2::new(l.start.x, l.start.y), glam::IVec2::new(l.end.x, l.end.y)]);
    form!("mint points", |q: &Point<i32>| mint::Point2 { x: q.x, y: q.y }, |l: &Line<i32>| [mint::Point2 { x: l.start.x, y: l.start.y }, mint::Point2 { x: l.end.x, y: l.end.y }]);
    form!("nalgebra points", |q: &Point<i32>| nalgebra::Point2::new(q.x, q.y), |l: &Line<i32>| [nalgebra::Point2::new(l.start.x, l.start.y), nalgebra::Point2::new(l.end.x, l.end.y)]);
    form!("arrays", |q: &Point<i32>| [q.x, q.y], |l: &Line<i32>| [l.start.x, l.start.y, l.end.x, l.end.y]);
    o.nontrivial = d.verts.len() >= 2 && d.cells.len() >= 4;
    if !s.is_empty() { o.label("segments") }
    let _ = <f64 as FBits>::NAME;
    Ok(())
}
fn main() {
    let nums = suite("numbers", (400_000, 8_000_000), |r: &mut Rng| Nums { i: [gen_int(r), gen_int(r), gen_int(r), gen_int(r)], f: [gen_float(r).to_bits(), gen_float(r).to_bits()] }, check_nums, |c: &Nums| {
        let mut v = vec![];
        for k in 0..4 { for t in [0, c.i[k] / 2, c.i[k] - c.i[k].signum()] { if t != c.i[k] { let mut d = c.clone(); d.i[k] = t; v.push(d); } } }
        for k in 0..2 { let f = f64::from_bits(c.f[k]); for t in [0.0, f.trunc(), (f / 2.0).trunc()] { if t.to_bits() != c.f[k] && (t == 0.0 || t.abs() < f.abs()) { let mut d = c.clone(); d.f[k] = t.to_bits(); v.push(d); } } }
        v
    });
    let forms = suite("forms", (40_000, 600_000), |r: &mut Rng| { let bits = *r.pick(&[4, 10, 20, 30]); gen_any(r, if bits > 20 { GenCfg::wide(10, 6, bits) } else { GenCfg::calm(10, 6, bits) }) }, check_forms, shrink_geo);
    std::process::exit(cli(vec![Property { id: "P23", rule: "numbers that differ, or a diagram of at least 2 vertices and 4 cells; distinct by case", assumptions: &["floats are numbers (no NaN), and not infinite when cast"], suites: vec![nums, forms] }]))
}
