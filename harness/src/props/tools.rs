//! P14 (example file reader), P15 (bounding box), P16 (affine transform), P17 (curved edge discretization).
use crate::diag::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::rng::*;
use boostvoronoi as bv;
use serde::{Deserialize, Serialize};
use std::io::{BufReader, Read};

// ---- P14 ----------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct Text { pub bytes: Vec<u8>, /** sizes of the pieces the reader hands out */ pub chunk: usize, pub cap: usize, /** the reader fails after this many bytes */ pub fail_at: Option<usize>, pub wide: bool, /** what was written, when it is well formed */ pub want: Option<Geo> }
struct Slow<'a> { b: &'a [u8], pos: usize, chunk: usize, fail_at: Option<usize>, hiccup: bool, reads: usize }
impl Read for Slow<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.reads += 1;
        if self.reads > 1_000_000 { panic!("the reader is still asked for data after a million reads"); }
        self.hiccup = !self.hiccup;
        if self.hiccup { return Err(std::io::ErrorKind::Interrupted.into()); }
        let end = self.fail_at.map_or(self.b.len(), |f| f.min(self.b.len()));
        if self.pos >= end && self.fail_at.is_some() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "the disk is on fire")); }
        let n = self.chunk.max(1).min(out.len()).min(end - self.pos);
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// What reading must give: the input up to the first line that does not fit; `err`: an error is
/// possible (`Some(false)`) or required (`Some(true)`).
fn text_model(b: &[u8], fail_at: Option<usize>) -> (Geo, Option<bool>) {
    let end = fail_at.map_or(b.len(), |f| f.min(b.len()));
    let b = &b[..end];
    let mut g = Geo::default();
    let mut lines: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
    // the last piece has no line end: a full line if the reader ends there, nothing if it is empty or the reader fails
    let last = lines.pop().unwrap();
    let ended = lines.len();
    if !last.is_empty() && fail_at.is_none() { lines.push(last); }
    let num = |s: &str| -> Option<i64> { s.parse::<i32>().ok().map(|v| v as i64) };
    let (mut np, mut nl): (Option<usize>, Option<usize>) = (None, None);
    for (k, l) in lines.into_iter().enumerate() {
        let Ok(s) = std::str::from_utf8(l) else { return (g, Some(true)) };
        // once every announced line has been read, whether the reader looks further is its own business
        let full = nl.map_or(false, |n| g.s.len() >= n);
        if full { return (g, Some(false)); }
        let s = if k < ended { s.strip_suffix('\r').unwrap_or(s) } else { s };
        let f: Vec<&str> = s.split(' ').collect();
        match (np, nl, f.len()) {
            (None, _, 1) => match s.parse::<usize>() { Ok(n) => np = Some(n), Err(_) => return (g, None) },
            (Some(n), None, 2) if g.p.len() < n => match (num(f[0]), num(f[1])) { (Some(x), Some(y)) => g.p.push([x, y]), _ => return (g, None) },
            (Some(n), None, 1) if g.p.len() == n => match s.parse::<usize>() { Ok(n) => nl = Some(n), Err(_) => return (g, None) },
            (_, Some(_), 4) => match (num(f[0]), num(f[1]), num(f[2]), num(f[3])) { (Some(a), Some(b), Some(c), Some(d)) => g.s.push([a, b, c, d]), _ => return (g, None) },
            _ => return (g, None),
        }
        if nl == Some(g.s.len()) && nl != Some(0) { return (g, None); }
    }
    let full = nl.map_or(false, |n| g.s.len() >= n);
    (g, if fail_at.is_some() { Some(!full) } else { None })
}
fn read_as<I: IBits + Into<i64>>(r: BufReader<impl Read>) -> Result<Geo, bv::BvError> { bv::read_boost_input_buffer::<I, _>(r).map(|x| to_geo(x)) }
fn to_geo<I: IBits + Into<i64>>((p, s): (Vec<bv::Point<I>>, Vec<bv::Line<I>>)) -> Geo {
    Geo { p: p.iter().map(|p| [p.x.into(), p.y.into()]).collect(), s: s.iter().map(|l| [l.start.x.into(), l.start.y.into(), l.end.x.into(), l.end.y.into()]).collect() }
}
fn judge(c: &Text, got: Result<Geo, bv::BvError>) -> Res {
    let (want, err) = text_model(&c.bytes, c.fail_at);
    match (got, err) {
        (Ok(g), Some(true)) => fail("read-no-error", format!("a failing reader or bytes that are no text give {g:?} instead of an error")),
        (Err(e), None) => fail("read-error", format!("reading fails: {e:?}")),
        (Err(_), _) => Ok(()),
        (Ok(g), _) => { ensure!(g == want, "read-content", "read {g:?}, expected {want:?}"); Ok(()) }
    }
}
fn check_text(c: &Text, o: &mut Obs) -> Res {
    if let Some(w) = &c.want { if c.fail_at.is_none() { let m = text_model(&c.bytes, None); ensure!(m.0 == *w && m.1 != Some(true), "harness", "the model disagrees with what was written: {:?}", m.0); } }
    let rd = || BufReader::with_capacity(c.cap.max(1), Slow { b: &c.bytes, pos: 0, chunk: c.chunk, fail_at: c.fail_at, hiccup: false, reads: 0 });
    let got = if c.wide { read_as::<i64>(rd()) } else { read_as::<i32>(rd()) };
    let (m, err) = text_model(&c.bytes, c.fail_at);
    o.nontrivial = m.p.len() + m.s.len() > 1 || err == Some(true);
    if c.fail_at.is_some() { o.label("failing reader"); } else if c.want.is_some() { o.label("well formed"); } else { o.label("malformed"); }
    if err == Some(true) { o.label("must be an error"); }
    if c.bytes.contains(&b'\r') { o.label("carriage returns"); }
    judge(c, got)
}
fn num_text(r: &mut Rng, v: i64) -> String { if v >= 0 && r.chance(1, 12) { format!("+{v}") } else if v > 0 && r.chance(1, 12) { format!("00{v}") } else { v.to_string() } }
fn coord(r: &mut Rng) -> i64 { match r.below(8) { 0 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, 0, -1, 1]), 1 | 2 => r.range(i32::MIN as i64, i32::MAX as i64), _ => r.range(-1000, 1000) } }
fn gen_text(kind: u8) -> impl Fn(&mut Rng) -> Text + Send + Sync + 'static {
    move |r| {
        let sz = |r: &mut Rng| match r.below(4) { 0 => 0, 1 => 1, 2 => r.us(4), _ => r.us(30) };
        let g = Geo { p: (0..sz(r)).map(|_| [coord(r), coord(r)]).collect(), s: (0..sz(r)).map(|_| [coord(r), coord(r), coord(r), coord(r)]).collect() };
        let eol = if r.chance(1, 4) { "\r\n" } else { "\n" };
        let mut t = String::new();
        t += &format!("{}{eol}", g.p.len());
        for p in &g.p { t += &format!("{} {}{eol}", num_text(r, p[0]), num_text(r, p[1])); }
        t += &format!("{}{eol}", g.s.len());
        for s in &g.s { t += &s.iter().map(|v| num_text(r, *v)).collect::<Vec<_>>().join(" "); t += eol; }
        if r.chance(1, 3) { t.truncate(t.len() - eol.len()); }
        else if r.chance(1, 3) { t += *r.pick(&["1 2 3 4", "7", "\n\n", "x", "5 6\n", "0 0 0 0\n1 1 1 1\n", "# end\n"]); }
        let mut bytes = t.into_bytes();
        let mut want = Some(g);
        if kind == 1 {
            want = None;
            for _ in 0..1 + r.us(3) {
                let i = r.us(bytes.len().max(1));
                match r.below(9) {
                    0 => bytes.truncate(i),
                    1 if !bytes.is_empty() => { bytes.remove(i); }
                    2 if !bytes.is_empty() => bytes[i] = r.next() as u8,
                    3 => bytes.insert(i, *r.pick(b" \n\r\t-+.0129eE,;x\0\xff\xc3")),
                    4 => { let s: &[u8] = r.pick::<&[u8]>(&[b"\n\n", b"2147483648", b"-2147483649", b"99999999999999999999", b" ", b"1.5", b"\xf0\x28\x8c\x28", b"0x10", b"\xc3\xa9", b"\xef\xbb\xbf"]); for (k, b) in s.iter().enumerate() { bytes.insert(i + k, *b); } }
                    // a whole line disappears, is repeated, or a count is changed
                    5 | 6 => { let mut ls: Vec<Vec<u8>> = bytes.split(|b| *b == b'\n').map(|l| l.to_vec()).collect(); let k = r.us(ls.len()); if r.chance(1, 2) { ls.remove(k); } else { let l = ls[k].clone(); ls.insert(k, l); } bytes = ls.join(&b'\n'); }
                    7 => { let mut ls: Vec<Vec<u8>> = bytes.split(|b| *b == b'\n').map(|l| l.to_vec()).collect(); let ks: Vec<usize> = (0..ls.len()).filter(|&k| !ls[k].contains(&b' ')).collect(); if let Some(&k) = ks.first() { let k = if ks.len() > 1 && r.chance(1, 2) { ks[1] } else { k }; ls[k] = r.pick(&["0", "1", "3", "1000000", "18446744073709551615", "18446744073709551616", "-1", "", " 2", "2 ", "2 2"]).as_bytes().to_vec(); } bytes = ls.join(&b'\n'); }
                    _ => bytes = (0..r.us(40)).map(|_| *r.pick(b"0123456789 \n\n -\xff")).collect(),
                }
            }
        }
        let fail_at = if kind == 2 { want = want.filter(|_| false); Some(r.us(bytes.len() + 2)) } else { None };
        Text { bytes, chunk: *r.pick(&[1, 2, 7, 64, 100000]), cap: *r.pick(&[1, 3, 16, 8192]), fail_at, wide: r.chance(1, 2), want }
    }
}
fn shrink_text(c: &Text) -> Vec<Text> {
    let mut v = vec![];
    let mk = |bytes: Vec<u8>| Text { bytes, want: None, ..c.clone() };
    let ls: Vec<&[u8]> = c.bytes.split(|b| *b == b'\n').collect();
    for i in 0..ls.len() { let mut l = ls.clone(); l.remove(i); v.push(mk(l.join(&b'\n'))); }
    if c.bytes.len() < 60 { for i in 0..c.bytes.len() { let mut b = c.bytes.clone(); b.remove(i); v.push(mk(b)); } }
    for (ch, cap, w) in [(100000, 8192, c.wide), (c.chunk, c.cap, false)] { if (ch, cap, w) != (c.chunk, c.cap, c.wide) { v.push(Text { chunk: ch, cap, wide: w, ..c.clone() }); } }
    if let Some(f) = c.fail_at { if f > 0 { v.push(Text { fail_at: Some(f / 2), ..c.clone() }); v.push(Text { fail_at: Some(f - 1), ..c.clone() }); } }
    v
}
/// through the file system
fn check_file(c: &Text, o: &mut Obs) -> Res {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = std::env::temp_dir().join(format!("vf-p14-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
    let f = dir.join("in.txt");
    let r = (|| -> Res {
        std::fs::write(&f, &c.bytes).unwrap();
        o.nontrivial = c.bytes.len() > 8;
        judge(c, bv::read_boost_input_file::<i64>(&f).map(to_geo))?;
        ensure!(bv::read_boost_input_file::<i32>(&dir).is_err(), "read-no-file", "reading a directory does not report an error");
        ensure!(bv::read_boost_input_file::<i32>(&dir.join("missing")).is_err(), "read-no-file", "reading a missing file does not report an error");
        Ok(())
    })();
    std::fs::remove_file(&f).ok();
    std::fs::remove_dir(&dir).ok();
    r
}

// ---- P15 ----------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BoxOp { Point(i32, i32), Point64(i64, i64), Coord(i32, i32), Vertex(f64, f64), I64(i64, i64), F64(f64, f64), Line([i32; 4]), Grow(i32) }
#[derive(Clone, Serialize, Deserialize)]
pub struct BoxCase { pub single: bool, pub start: Option<[i32; 4]>, pub ops: Vec<BoxOp>, pub probe: Vec<[i32; 4]> }
trait Num: FBits { fn of(v: f64) -> Self; fn of_i(v: i64) -> Self; fn of_i32(v: i32) -> Self; }
impl Num for f64 { fn of(v: f64) -> f64 { v } fn of_i(v: i64) -> f64 { v as f64 } fn of_i32(v: i32) -> f64 { v as f64 } }
impl Num for f32 { fn of(v: f64) -> f32 { v as f32 } fn of_i(v: i64) -> f32 { v as f32 } fn of_i32(v: i32) -> f32 { v as f32 } }
fn check_box(c: &BoxCase, o: &mut Obs) -> Res { if c.single { check_box_t::<f32>(c, o) } else { check_box_t::<f64>(c, o) } }
fn check_box_t<F: Num>(c: &BoxCase, o: &mut Obs) -> Res {
    type Pt = bv::Point<i32>;
    let mut m: Option<([F; 2], [F; 2])> = None;
    fn up<F: Num>(m: &mut Option<([F; 2], [F; 2])>, x: F, y: F) {
        *m = Some(match m { None => ([x, y], [x, y]), Some((l, h)) => ([if x < l[0] { x } else { l[0] }, if y < l[1] { y } else { l[1] }], [if x > h[0] { x } else { h[0] }, if y > h[1] { y } else { h[1] }]) });
    }
    let mut b = bv::Aabb2::<F>::default();
    ensure!(b.get_low().is_none() && b.get_high().is_none() && b.contains_point(&Pt::new(0, 0)).is_none() && b.contains_line(&bv::Line::<i32>::from([0, 0, 1, 1])).is_none(), "box-empty", "an empty box has limits");
    b.grow_percent::<i32>(10);
    ensure!(b.get_low().is_none(), "box-empty", "growing an empty box gives it limits");
    if let Some(s) = c.start {
        b = bv::Aabb2::<F>::new(&Pt::new(s[0], s[1]), &Pt::new(s[2], s[3]));
        ensure!(b == bv::Aabb2::<F>::new_from_i32::<i32>(s[0], s[1], s[2], s[3]), "box-new", "new and new_from_i32 differ for {s:?}");
        for k in 0..2 { up(&mut m, F::of_i32(s[2 * k]), F::of_i32(s[2 * k + 1])); }
    }
    let same = |b: &bv::Aabb2<F>, m: &Option<([F; 2], [F; 2])>| b.get_low() == m.map(|m| m.0) && b.get_high() == m.map(|m| m.1);
    for (k, op) in c.ops.iter().enumerate() {
        match *op {
            BoxOp::Point(x, y) => { b.update_point(&Pt::new(x, y)); up(&mut m, F::of_i32(x), F::of_i32(y)); }
            BoxOp::Point64(x, y) => { b.update_point(&bv::Point::<i64>::new(x, y)); up(&mut m, F::of_i(x), F::of_i(y)); }
            BoxOp::Coord(x, y) => { b.update_coordinate::<i32>(x, y); up(&mut m, F::of_i32(x), F::of_i32(y)); }
            BoxOp::Vertex(x, y) => { b.update_vertex(F::of(x), F::of(y)); up(&mut m, F::of(x), F::of(y)); }
            BoxOp::I64(x, y) => { b.update_i64(x, y); up(&mut m, F::of_i(x), F::of_i(y)); }
            BoxOp::F64(x, y) => { b.update_f64(x, y); up(&mut m, F::of(x), F::of(y)); }
            BoxOp::Line(l) => { b.update_line(&bv::Line::<i32>::from(l)); up(&mut m, F::of_i32(l[0]), F::of_i32(l[1])); up(&mut m, F::of_i32(l[2]), F::of_i32(l[3])); }
            BoxOp::Grow(p) => {
                b.grow_percent::<i32>(p);
                if let (Some((l, h)), Some(bl), Some(bh)) = (m, b.get_low(), b.get_high()) {
                    o.label("grown");
                    let size = (h[0].f() - l[0].f()).max(h[1].f() - l[1].f());
                    let d = size * p as f64 / 100.0;
                    for i in 0..2 {
                        let tol = 1e-6 * d + 4.0 * F::EPS * (l[i].f().abs() + h[i].f().abs() + d + size);
                        ensure!((l[i].f() - d - bl[i].f()).abs() <= tol && (bh[i].f() - d - h[i].f()).abs() <= tol, "box-grow", "step {k}: growing {l:?}..{h:?} by {p} percent of its larger side ({d} on each side) gives {bl:?}..{bh:?}");
                    }
                    m = Some((bl, bh));
                } else { ensure!(m.is_none() && b.get_low().is_none() && b.get_high().is_none(), "box-empty", "growing gives or removes limits"); }
            }
        }
        o.sub += 1;
        ensure!(same(&b, &m), "box-limits", "after step {k} {op:?} the box is {:?}..{:?}, expected {m:?}", b.get_low(), b.get_high());
    }
    if let Some((l, h)) = m {
        o.nontrivial = c.ops.len() > 1 && (l[0] < h[0] || l[1] < h[1]);
        let inside = |x: i32, y: i32| { let (x, y) = (F::of_i32(x), F::of_i32(y)); l[0] <= x && x <= h[0] && l[1] <= y && y <= h[1] };
        for q in &c.probe {
            let (a, z) = (inside(q[0], q[1]), inside(q[2], q[3]));
            if a != z { o.label("line half inside"); }
            if a { o.label("point inside"); }
            ensure!(b.contains_point(&Pt::new(q[0], q[1])) == Some(a), "box-contains", "{l:?}..{h:?} contains_point({},{}) is {:?}", q[0], q[1], b.contains_point(&Pt::new(q[0], q[1])));
            ensure!(b.contains_line(&bv::Line::<i32>::from(*q)) == Some(a && z), "box-contains", "{l:?}..{h:?} contains_line({q:?}) is {:?}", b.contains_line(&bv::Line::<i32>::from(*q)));
            o.sub += 2;
        }
    } else { for q in &c.probe { ensure!(b.contains_point(&Pt::new(q[0], q[1])).is_none(), "box-empty", "an empty box answers contains_point"); } }
    Ok(())
}
fn small(r: &mut Rng) -> i32 { match r.below(6) { 0 => r.range(-3, 3) as i32, 1 => r.next() as i32, 2 => *r.pick(&[i32::MAX, i32::MIN]), _ => r.range(-40, 40) as i32 } }
fn gen_box(r: &mut Rng) -> BoxCase {
    let fl = |r: &mut Rng| match r.below(4) { 0 => r.range(-40, 40) as f64, 1 => (r.f01() - 0.5) * 1e12, 2 => (r.f01() - 0.5) * 1e-3, _ => (r.f01() - 0.5) * 100.0 };
    let n = r.us(7);
    let ops: Vec<BoxOp> = (0..n).map(|_| match r.below(9) {
        0 => BoxOp::Point(small(r), small(r)), 1 => BoxOp::Point64(if r.chance(1, 4) { r.next() as i64 } else { small(r) as i64 }, small(r) as i64), 2 => BoxOp::Coord(small(r), small(r)),
        3 => BoxOp::Vertex(fl(r), fl(r)), 4 => BoxOp::I64(small(r) as i64, if r.chance(1, 4) { r.next() as i64 } else { small(r) as i64 }), 5 => BoxOp::F64(fl(r), fl(r)),
        6 => BoxOp::Line([small(r), small(r), small(r), small(r)]), _ => BoxOp::Grow(*r.pick(&[0, 1, 2, 10, 25, 50, 100, 150, 1000, 40_000, 1_000_000])) }).collect();
    let start = if r.chance(1, 2) { Some([small(r), small(r), small(r), small(r)]) } else { None };
    // probe the limits themselves and their neighbours
    let mut vals: Vec<[i32; 2]> = vec![];
    for op in &ops { match op { BoxOp::Point(x, y) | BoxOp::Coord(x, y) => vals.push([*x, *y]), BoxOp::Line(l) => { vals.push([l[0], l[1]]); vals.push([l[2], l[3]]); } _ => {} } }
    if let Some(s) = start { vals.push([s[0], s[1]]); vals.push([s[2], s[3]]); }
    let probe = (0..6).map(|_| { let mut q = [0; 4]; for k in 0..2 { for i in 0..2 { q[2 * k + i] = if vals.is_empty() || r.chance(1, 4) { small(r) } else { let v = r.pick(&vals)[i]; v.saturating_add(*r.pick(&[0, 0, 0, 1, -1])) }; } } q }).collect();
    BoxCase { single: r.chance(1, 3), start, ops, probe }
}
fn shrink_box(c: &BoxCase) -> Vec<BoxCase> {
    let mut v: Vec<BoxCase> = (0..c.ops.len()).map(|i| { let mut d = c.clone(); d.ops.remove(i); d }).collect();
    v.extend((0..c.probe.len()).map(|i| { let mut d = c.clone(); d.probe.remove(i); d }));
    if c.start.is_some() { v.push(BoxCase { start: None, ..c.clone() }); }
    if c.single { v.push(BoxCase { single: false, ..c.clone() }); }
    for i in 0..c.ops.len() {
        let s = match c.ops[i] { BoxOp::Point(x, y) => vec![BoxOp::Point(x / 2, y), BoxOp::Point(x, y / 2)], BoxOp::Coord(x, y) => vec![BoxOp::Coord(x / 2, y), BoxOp::Coord(x, y / 2)], BoxOp::Vertex(x, y) => vec![BoxOp::Vertex(x.trunc(), y.trunc()), BoxOp::Vertex((x / 2.0).trunc(), (y / 2.0).trunc())], _ => vec![] };
        for n in s { if format!("{n:?}") != format!("{:?}", c.ops[i]) { let mut d = c.clone(); d.ops[i] = n; v.push(d); } }
    }
    v
}

// ---- P16 ----------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct AffCase { pub single: bool, pub src: [i32; 4], pub dst: [f64; 4], pub zoom: f64, pub pts: Vec<[i32; 2]>, pub offs: ([f64; 2], [i64; 2]), pub far: Vec<f64> }
fn check_aff(c: &AffCase, o: &mut Obs) -> Res { if c.single { check_aff_t::<f32>(c, o) } else { check_aff_t::<f64>(c, o) } }
fn check_aff_t<F: Num>(c: &AffCase, o: &mut Obs) -> Res {
    let mut s = bv::Aabb2::<F>::default();
    s.update_coordinate::<i32>(c.src[0], c.src[1]);
    s.update_coordinate::<i32>(c.src[2], c.src[3]);
    let mut d = bv::Aabb2::<F>::default();
    d.update_vertex(F::of(c.dst[0]), F::of(c.dst[1]));
    d.update_vertex(F::of(c.dst[2]), F::of(c.dst[3]));
    let e = bv::Aabb2::<F>::default();
    ensure!(bv::SimpleAffine::<F>::new::<i32>(&e, &d).is_err() && bv::SimpleAffine::<F>::new::<i32>(&s, &e).is_err(), "affine-empty", "a transform is made from an empty box");
    let id = bv::SimpleAffine::<F>::default();
    let mut a = match bv::SimpleAffine::<F>::new::<i32>(&s, &d) { Ok(a) => a, Err(e) => return fail("affine-new", format!("{e:?}")) };
    let f2 = |v: Option<[F; 2]>| { let v = v.unwrap(); [v[0].f(), v[1].f()] };
    let (sl, sh, dl, dh) = (f2(s.get_low()), f2(s.get_high()), f2(d.get_low()), f2(d.get_high()));
    let ss = (sh[0] - sl[0]).max(sh[1] - sl[1]).max(10.0);
    let ds = (dh[0] - dl[0]).max(10.0).min((dh[1] - dl[1]).max(10.0));
    let mut scale = ds / ss;
    // magnitude of the rounding of one transformed coordinate
    let mag = |v: f64, i: usize, scale: f64| { let cs = (sl[i].abs() + sh[i].abs()) * 0.5; 8.0 * F::EPS * ((v.abs() + cs + sl[i].abs() + sh[i].abs()) * scale + dl[i].abs() + dh[i].abs()) + 8.0 * F::EPS * (dh[i] - dl[i]) };
    let mut half = 1.0;
    for round in 0..2 {
        if round == 1 { a.zoom(F::of(c.zoom)); scale *= F::of(c.zoom).f(); half = c.zoom; }
        for i in 0..2 { ensure!((a.scale[i].f() - scale).abs() <= 16.0 * F::EPS * scale, "affine-scale", "scale {:?} for boxes of size {ss} and {ds}, expected {scale}", a.scale); }
        let centre = |v: f64, i: usize| (v - (sl[i] + sh[i]) * 0.5) * scale + (dl[i] + dh[i]) * 0.5;
        let corners = [[sl[0], sl[1]], [sh[0], sh[1]], [sl[0], sh[1]], [sh[0], sl[1]], [(sl[0] + sh[0]) * 0.5, (sl[1] + sh[1]) * 0.5]];
        for p in corners {
            let t = a.transform(F::of(p[0]), F::of(p[1]));
            for i in 0..2 {
                let tol = mag(p[i], i, scale);
                ensure!((t[i].f() - centre(p[i], i)).abs() <= tol, "affine-corner", "corner {p:?} goes to {t:?}, expected {} for coordinate {i}", centre(p[i], i));
                if half <= 1.0 && dh[i] - dl[i] >= 10.0 { ensure!(t[i].f() >= dl[i] - tol && t[i].f() <= dh[i] + tol, "affine-fit", "corner {p:?} of the source goes to {t:?}, outside {dl:?}..{dh:?}"); }
            }
            o.sub += 2;
        }
        for p in &c.pts {
            let t = a.transform(F::of_i32(p[0]), F::of_i32(p[1]));
            for i in 0..2 { ensure!((t[i].f() - centre(F::of_i32(p[i]).f(), i)).abs() <= mag(p[i] as f64, i, scale), "affine-map", "{p:?} goes to {t:?}, expected {} for coordinate {i}", centre(p[i] as f64, i)); }
            let q = bv::Point::<i32>::new(p[0], p[1]);
            let fp = [F::of_i32(p[0]), F::of_i32(p[1])];
            let all = [a.transform_i([p[0], p[1]]), a.transform_i([p[0] as i64, p[1] as i64]), a.transform_p(&q), a.transform_f(fp), [a.transform_ix(p[0]), a.transform_iy(p[1])], [a.transform_x(fp[0]), a.transform_y(fp[1])], [a.transform_fx(fp[0]), a.transform_fy(fp[1])]];
            ensure!(all.iter().all(|x| *x == t), "affine-forms", "the forms of the transform differ for {p:?}: {t:?} {all:?}");
            o.sub += 9;
            // back again, wherever the precision allows
            let back = |v: f64, i: usize| (2.0 * mag(v, i, scale)) / scale + 4.0 * F::EPS * (v.abs() + sl[i].abs() + sh[i].abs());
            if (0..2).all(|i| back(p[i] as f64, i) < 0.4 && fp[i].f() == p[i] as f64) {
                o.label("round trip");
                let r = a.reverse_transform::<i32>(t[0], t[1]);
                ensure!(matches!(r, Ok(r) if r == *p), "affine-back", "{p:?} goes to {t:?} and back to {r:?}");
                let r = (a.reverse_transform_x::<i64>(t[0]), a.reverse_transform_y::<i64>(t[1]));
                ensure!(matches!(r, (Ok(x), Ok(y)) if x == p[0] as i64 && y == p[1] as i64), "affine-back", "{p:?} goes to {t:?} and back to {r:?}");
            }
            ensure!(id.transform_i([p[0], p[1]]) == fp && (fp[0].f() != p[0] as f64 || matches!(id.reverse_transform_x::<i32>(fp[0]), Ok(x) if x == p[0])), "affine-identity", "the default transform is not the identity");
        }
        // positions whose source lies outside the integers
        for &v in &c.far {
            let x = (F::of(v) - a.to_offset[0]).f() / a.scale[0].f() + (sl[0] + sh[0]) * 0.5;
            let y = (F::of(v) - a.to_offset[1]).f() / a.scale[1].f() + (sl[1] + sh[1]) * 0.5;
            for (w, r) in [(x, a.reverse_transform_x::<i32>(F::of(v))), (y, a.reverse_transform_y::<i32>(F::of(v)))] {
                if w.abs() > 2147483648.0 * 1.01 || w.is_nan() { o.label("outside the integers"); ensure!(r.is_err(), "affine-range", "{v} goes back to {r:?}, its source {w} is outside the integers"); }
                else if w.abs() < 2147483648.0 * 0.99 { ensure!(r.is_ok(), "affine-range", "{v} does not go back ({r:?}), its source is {w}"); }
            }
            o.sub += 2;
        }
    }
    // the scales are public, callers flip and stretch axes: the way back still undoes the way there
    for (kx, ky) in [(1.0, -1.0), (-1.0, 1.0), (c.zoom, 1.0), (-1.0, c.zoom)] {
        let mut f = a.clone();
        f.scale = [a.scale[0] * F::of(kx), a.scale[1] * F::of(ky)];
        let sc = [scale * kx.abs(), scale * ky.abs()];
        for p in &c.pts {
            let fp = [F::of_i32(p[0]), F::of_i32(p[1])];
            let t = f.transform(fp[0], fp[1]);
            for i in 0..2 {
                let want = (fp[i].f() - (sl[i] + sh[i]) * 0.5) * sc[i] * [kx, ky][i].signum() + (dl[i] + dh[i]) * 0.5;
                ensure!((t[i].f() - want).abs() <= 2.0 * mag(p[i] as f64, i, sc[i]), "affine-scaled", "with the scales {:?}, {p:?} goes to {t:?}, expected {want} for coordinate {i}", f.scale);
            }
            if (0..2).all(|i| (4.0 * mag(p[i] as f64, i, sc[i])) / sc[i] + 4.0 * F::EPS * ((p[i] as f64).abs() + sl[i].abs() + sh[i].abs()) < 0.4 && fp[i].f() == p[i] as f64) {
                o.label("round trip with own scales");
                let r = f.reverse_transform::<i32>(t[0], t[1]);
                ensure!(matches!(r, Ok(r) if r == *p), "affine-back", "with the scales {:?}, {p:?} goes to {t:?} and back to {r:?}", f.scale);
            }
            o.sub += 2;
        }
    }
    // helper for test geometry: scaled, truncated and moved
    let ([fx, fy], [dx, dy]) = c.offs;
    let rows: Vec<[i32; 4]> = c.pts.windows(2).map(|w| [w[0][0] / 1024, w[0][1] / 1024, w[1][0] / 1024, w[1][1] / 1024]).collect();
    let out: Vec<bv::Line<i64>> = bv::to_segments_offset::<i32, i64>(&rows, fx, fy, dx, dy);
    let t = |v: i32, f: f64, d: i64| (v as f64 * f).trunc() as i64 + d;
    ensure!(out.len() == rows.len() && out.iter().zip(&rows).all(|(l, r)| [l.start.x, l.start.y, l.end.x, l.end.y] == [t(r[0], fx, dx), t(r[1], fy, dy), t(r[2], fx, dx), t(r[3], fy, dy)]), "affine-offset", "to_segments_offset({rows:?}, {fx}, {fy}, {dx}, {dy}) gives {out:?}");
    o.nontrivial = c.src[0] != c.src[2] && c.dst[0] != c.dst[2] && !c.pts.is_empty();
    if c.single { o.label("single precision"); }
    if ss == 10.0 { o.label("small source"); }
    if ds == 10.0 { o.label("small destination"); }
    Ok(())
}
fn gen_aff(r: &mut Rng) -> AffCase {
    let lim = *r.pick(&[4i64, 12, 100, 1000, 100_000, 100_000_000, 2147483647]);
    let mut src = [0; 4];
    let off = if r.chance(1, 3) { r.range(-lim, lim) } else { 0 };
    for v in src.iter_mut() { *v = (r.range(-lim, lim) + off).clamp(i32::MIN as i64, i32::MAX as i64) as i32; }
    let dl = *r.pick(&[3.0, 15.0, 100.0, 1000.0, 1e6]);
    let doff = if r.chance(1, 3) { (r.f01() - 0.5) * 10.0 * dl } else { 0.0 };
    let mut dst = [0.0; 4];
    for v in dst.iter_mut() { *v = (r.f01() - 0.5) * 2.0 * dl + doff; if r.chance(1, 3) { *v = v.trunc(); } }
    let n = 1 + r.us(5);
    let pts = (0..n).map(|_| if r.chance(1, 4) { [small(r), small(r)] } else { let mut p = [0; 2]; for i in 0..2 { let (a, b) = (src[i].min(src[i + 2]) as i64, src[i].max(src[i + 2]) as i64); p[i] = r.range(a, b) as i32; } p }).collect();
    let far = (0..3).map(|_| *r.pick(&[0.0, 1.0, 1e3, -1e6, 1e9, -1e15, 1e30, f64::INFINITY, f64::NAN])).collect();
    let sc = |r: &mut Rng| *r.pick(&[1.0, 2.0, -1.0, 0.5, 1000.0, 0.0, 0.3, -7.25]);
    AffCase { single: r.chance(1, 3), src, dst, zoom: *r.pick(&[1.0, 0.5, 2.0, 0.9, 10.0, 0.013]), pts, offs: ([sc(r), sc(r)], [r.range(-1000, 1000), r.range(-1 << 40, 1 << 40)]), far }
}
fn shrink_aff(c: &AffCase) -> Vec<AffCase> {
    let mut v = vec![];
    for i in 0..c.pts.len() { let mut d = c.clone(); d.pts.remove(i); v.push(d); }
    for i in 0..c.far.len() { let mut d = c.clone(); d.far.remove(i); v.push(d); }
    for i in 0..4 { for x in [0, c.src[i] / 2] { if x != c.src[i] { let mut d = c.clone(); d.src[i] = x; v.push(d); } } for x in [0.0, c.dst[i].trunc(), (c.dst[i] / 2.0).trunc()] { if x != c.dst[i] { let mut d = c.clone(); d.dst[i] = x; v.push(d); } } }
    if c.zoom != 1.0 { v.push(AffCase { zoom: 1.0, ..c.clone() }); }
    if c.single { v.push(AffCase { single: false, ..c.clone() }); }
    for i in 0..c.pts.len() { for k in 0..2 { if c.pts[i][k] != 0 { let mut d = c.clone(); d.pts[i][k] /= 2; v.push(d); } } }
    v
}

// ---- P17 ----------------------------------------------------------------------------------
#[derive(Clone, Serialize, Deserialize)]
pub struct ArcCase { pub seg: [i64; 4], pub pt: [i64; 2], /** positions of the ends, as fractions along the segment */ pub t: [f64; 2], /** relative to the length of the arc's box */ pub max: f64, /** screen box */ pub dst: Option<[f64; 4]> }
/// Checks one discretized parabolic edge: all in output coordinates.
fn check_arc(pt: [i64; 2], seg: [i64; 4], ends: [[f64; 2]; 2], max: f64, a: &bv::SimpleAffine<f64>, o: &mut Obs) -> Res {
    let tr = |p: [i64; 2]| a.transform_i(p);
    let (p, s0, s1) = (tr(pt), tr([seg[0], seg[1]]), tr([seg[2], seg[3]]));
    let mut out = vec![ends[0], ends[1]];
    let line = bv::Line::<i64>::from(seg);
    bv::VoronoiVisualUtils::discretize(&bv::Point::new(pt[0], pt[1]), &line, max, a, &mut out);
    if ends[0] == ends[1] { ensure!(out == ends, "arc-ends", "an edge of no length is changed to {out:?}"); return Ok(()); }
    ensure!(out.len() >= 2 && out[0] == ends[0] && out[out.len() - 1] == ends[1], "arc-ends", "from {ends:?} max {max}: {} points, first {:?}, last {:?}", out.len(), out.first(), out.last());
    let len = ((s1[0] - s0[0]).powi(2) + (s1[1] - s0[1]).powi(2)).sqrt();
    let u = [(s1[0] - s0[0]) / len, (s1[1] - s0[1]) / len];
    let rel = |q: [f64; 2]| { let d = [q[0] - s0[0], q[1] - s0[1]]; [d[0] * u[0] + d[1] * u[1], u[0] * d[1] - u[1] * d[0]] };
    let (fx, fy) = { let f = rel(p); (f[0], f[1]) };
    // rounding of a position in output coordinates
    let size = [p, s0, s1, ends[0], ends[1]].iter().flat_map(|q| [q[0].abs(), q[1].abs()]).fold(0.0, f64::max) + a.to_offset[0].abs() + a.to_offset[1].abs();
    let q: Vec<[f64; 2]> = out.iter().map(|x| rel(*x)).collect();
    let dir = (q[q.len() - 1][0] - q[0][0]).signum();
    let reach = q.iter().map(|v| (v[0] - fx).abs()).fold(0.0, f64::max);
    let tol = 1e-11 * (size + len) * (1.0 + reach / fy.abs()) * (1.0 + size / fy.abs().min(len));
    for (k, v) in q.iter().enumerate() {
        o.sub += 1;
        if k > 0 { ensure!((v[0] - q[k - 1][0]) * dir > -tol, "arc-order", "point {k} of {} turns back along the segment", q.len()); }
        if k == 0 || k + 1 == q.len() { continue; }
        let y = ((v[0] - fx).powi(2) + fy * fy) / (2.0 * fy);
        ensure!((v[1] - y).abs() <= tol, "arc-on", "point {k} {:?} is {} off the parabola (allowed {tol})", out[k], (v[1] - y).abs());
        ensure!((v[0] - q[0][0]) * dir > -tol && (q[q.len() - 1][0] - v[0]) * dir > -tol, "arc-range", "point {k} lies outside the edge");
    }
    for k in 1..q.len() {
        let (x0, x1) = (q[k - 1][0] - fx, q[k][0] - fx);
        let slope = (x0 + x1) / (2.0 * fy);
        let dev = (x1 - x0).powi(2) / (8.0 * fy.abs()) / (1.0 + slope * slope).sqrt();
        ensure!(dev <= max * (1.0 + 1e-6) + tol, "arc-distance", "the arc between points {} and {k} of {} is {dev} away from the line, allowed {max}", k - 1, q.len());
    }
    // not more pieces than four times what equal pieces of that accuracy need
    if out.len() > 2 { o.label("divided"); }
    if out.len() > 20 { o.label("more than 20 points"); }
    for e in 0..2 {
        let want = (q[if e == 0 { 0 } else { q.len() - 1 }][0]) / len;
        let got = bv::VoronoiVisualUtils::point_projection(a, &ends[e], &line);
        ensure!((got - want).abs() <= 1e-11 * (1.0 + size / len) * (1.0 + size / len), "arc-projection", "projection of {:?} is {got}, expected {want}", ends[e]);
    }
    Ok(())
}
fn check_arc_case(c: &ArcCase, o: &mut Obs) -> Res {
    let (s, p) = (c.seg, c.pt);
    let d = [(s[2] - s[0]) as f64, (s[3] - s[1]) as f64];
    let l2 = d[0] * d[0] + d[1] * d[1];
    let r = [(p[0] - s[0]) as f64, (p[1] - s[1]) as f64];
    let cross = d[0] * r[1] - d[1] * r[0];
    if l2 == 0.0 || cross == 0.0 { return Ok(()); }
    let fp = (d[0] * r[0] + d[1] * r[1]) / l2;
    let a = match c.dst { None => bv::SimpleAffine::<f64>::default(), Some(b) => {
        let mut sb = bv::Aabb2::<f64>::new(&bv::Point::new(p[0], p[1]), &bv::Point::new(s[0], s[1]));
        sb.update_point(&bv::Point::new(s[2], s[3]));
        let mut db = bv::Aabb2::<f64>::default();
        db.update_vertex(b[0], b[1]); db.update_vertex(b[2], b[3]);
        match bv::SimpleAffine::<f64>::new::<i64>(&sb, &db) { Ok(mut a) => { if b[0].to_bits() & 1 == 1 { o.label("flipped"); a.scale[1] = -a.scale[1]; } a } Err(e) => return fail("affine-new", format!("{e:?}")) }
    } };
    // a point of the parabola over position t of the segment
    let at = |t: f64| { let h = ((t - fp) * (t - fp) * l2 + (cross * cross / l2)) / (2.0 * cross / l2.sqrt()); let n = [-d[1] / l2.sqrt(), d[0] / l2.sqrt()]; a.transform_f([s[0] as f64 + t * d[0] + h * n[0], s[1] as f64 + t * d[1] + h * n[1]]) };
    let ends = [at(c.t[0]), at(c.t[1])];
    let span = ((ends[0][0] - ends[1][0]).powi(2) + (ends[0][1] - ends[1][1]).powi(2)).sqrt();
    o.nontrivial = span > 0.0;
    if c.dst.is_some() { o.label("scaled"); }
    check_arc(p, s, ends, c.max * span, &a, o)
}
fn gen_arc(r: &mut Rng) -> ArcCase {
    let lim = *r.pick(&[3i64, 10, 100, 10_000, 1 << 20]);
    loop {
        let mut v = || r.range(-lim, lim);
        let (seg, pt) = ([v(), v(), v(), v()], [v(), v()]);
        if orient([seg[0], seg[1]], [seg[2], seg[3]], pt) == 0 { continue; }
        let t = match r.below(10) { 0 | 1 => [0.0, 1.0], 2 => [1.0, 0.0], 3 => { let t = r.f01(); [t, t + (r.f01() - 0.5) * *r.pick(&[1e-3, 1e-9, 1e-13, 1e-15, 1e-16])] } _ => [r.f01(), r.f01()] };
        if t[0] == t[1] { continue; }
        let dst = if r.chance(1, 2) { let o = (r.f01() - 0.5) * 1000.0; Some([o, -o, o + 11.0 + r.f01() * 2000.0, -o + 11.0 + r.f01() * 2000.0]) } else { None };
        return ArcCase { seg, pt, t, max: if r.chance(1, 200) { *r.pick(&[1e-6, 1e-8]) } else { *r.pick(&[0.5, 0.1, 0.03, 0.01, 0.001, 1e-4]) }, dst };
    }
}
fn shrink_arc(c: &ArcCase) -> Vec<ArcCase> {
    let mut v = vec![];
    if c.dst.is_some() { v.push(ArcCase { dst: None, ..c.clone() }); }
    for t in [[0.0, 1.0], [1.0, 0.0]] { if t != c.t { v.push(ArcCase { t, ..c.clone() }); } }
    for i in 0..4 { if c.seg[i] != 0 { let mut d = c.clone(); d.seg[i] /= 2; v.push(d); let mut d = c.clone(); d.seg[i] = 0; v.push(d); } }
    for i in 0..2 { if c.pt[i] != 0 { let mut d = c.clone(); d.pt[i] /= 2; v.push(d); let mut d = c.clone(); d.pt[i] = 0; v.push(d); } }
    if c.max < 0.5 { v.push(ArcCase { max: 0.5, ..c.clone() }); v.push(ArcCase { max: c.max * 10.0, ..c.clone() }); }
    v
}
/// every curved edge of real diagrams
fn check_edges(g: &Geo, loose: f64, o: &mut Obs) -> Res {
    let d = build::<i32, f64>(g)?;
    let site = |c: &DCell| -> Option<[i64; 2]> { match c.cat { 0 => g.p.get(c.src).copied(), 1 => g.s.get(c.src - g.p.len()).map(|s| [s[0], s[1]]), 2 => g.s.get(c.src - g.p.len()).map(|s| [s[2], s[3]]), _ => None } };
    let a = bv::SimpleAffine::<f64>::default();
    for (i, e) in d.edges.iter().enumerate() {
        if e.linear || !d.finite(i) { continue; }
        let (c0, c1) = (&d.cells[e.cell], &d.cells[d.edges[e.twin].cell]);
        let (pc, sc) = if c0.cat == 3 { (c1, c0) } else { (c0, c1) };
        let (Some(p), Some(s)) = (site(pc), g.s.get(sc.src.wrapping_sub(g.p.len()))) else { return fail("arc-sites", format!("edge {i} is curved and does not separate a point from a segment")) };
        if orient([s[0], s[1]], [s[2], s[3]], p) == 0 { return fail("arc-sites", format!("edge {i} is curved and its point lies on the line of its segment")); }
        let (v0, v1) = (&d.verts[e.v0], &d.verts[d.v1(i)]);
        let ends = [[v0.x, v0.y], [v1.x, v1.y]];
        let span = ((v0.x - v1.x).powi(2) + (v0.y - v1.y).powi(2)).sqrt();
        // edges shorter than the accuracy of their ends say nothing
        let size = g.s.iter().flatten().chain(g.p.iter().flatten()).fold(1i64, |m, v| m.max(v.abs())) as f64;
        if span < 1e-6 * size { o.label("too short"); continue; }
        o.nontrivial = true;
        o.label("curved edge");
        for max in [0.3, 0.01] { check_arc(p, *s, ends, max * span, &a, o)?; }
    }
    let _ = loose;
    Ok(())
}

pub fn add(v: &mut Vec<Property>) {
    v.push(Property { id: "P14", rule: "more than one point or segment is read, or an error is required; distinct by bytes and reader", assumptions: &["coordinates are 32 bit, as the reader parses them"], suites: vec![
        suite("written", (900_000, 15_000_000), gen_text(0), check_text, shrink_text), suite("malformed", (900_000, 15_000_000), gen_text(1), check_text, shrink_text), suite("failing", (450_000, 6_000_000), gen_text(2), check_text, shrink_text),
        suite("files", (10_000, 100_000), |r: &mut Rng| { let k = r.below(2) as u8; let mut t = gen_text(k)(r); t.chunk = 100000; t }, check_file, shrink_text)] });
    v.push(Property { id: "P15", rule: "at least two operations and a box that is not a single point; distinct by operations", assumptions: &["coordinates are numbers (no NaN)", "growing is by zero percent or more"], suites: vec![suite("ops", (8_000_000, 150_000_000), gen_box, check_box, shrink_box)] });
    v.push(Property { id: "P16", rule: "source and destination boxes have a width and at least one point is transformed; distinct by case", assumptions: &["rounding is bounded from the sizes of the boxes; where it exceeds 0.4 units the way back is not judged"], suites: vec![suite("affine", (6_000_000, 120_000_000), gen_aff, check_aff, shrink_aff)] });
    let mut s = vec![suite("arcs", (3_000_000, 60_000_000), gen_arc, check_arc_case, shrink_arc)];
    s.extend(super::structure::over_domains(1.5, &["small", "mid", "many"], check_edges));
    v.push(Property { id: "P17", rule: "the arc has a length, or the diagram has a curved edge; distinct by case", assumptions: &["the greatest distance allowed is at least 1e-4 of the arc's chord"], suites: s });
}
