//! Plain-data view of a diagram, filled through the public API only.
use crate::engine::{fail, Fail};
use boostvoronoi::{self as bv, BvError};
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Eq, Hash, Default)]
pub struct Geo {
    /// input points
    pub p: Vec<[i64; 2]>,
    /// input segments x1,y1,x2,y2
    pub s: Vec<[i64; 4]>,
}
pub const NONE: usize = usize::MAX;
#[derive(Clone, Debug, PartialEq)]
pub struct DCell { pub id: usize, pub src: usize, /** 0 single, 1 start, 2 end, 3 segment */ pub cat: u8, pub inc: usize }
#[derive(Clone, Debug, PartialEq)]
pub struct DVert { pub id: usize, pub x: f64, pub y: f64, pub inc: usize, pub site: bool }
#[derive(Clone, Debug, PartialEq)]
pub struct DEdge { pub id: usize, pub cell: usize, pub v0: usize, pub twin: usize, pub next: usize, pub prev: usize, pub linear: bool, pub primary: bool }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Diag { pub cells: Vec<DCell>, pub verts: Vec<DVert>, pub edges: Vec<DEdge> }
impl Diag {
    pub fn v1(&self, e: usize) -> usize { self.edges[self.edges[e].twin].v0 }
    pub fn finite(&self, e: usize) -> bool { self.edges[e].v0 != NONE && self.v1(e) != NONE }
}

pub trait FBits: bv::OutputType { fn f(self) -> f64; const EPS: f64; const NAME: &'static str; }
impl FBits for f64 { fn f(self) -> f64 { self } const EPS: f64 = f64::EPSILON; const NAME: &'static str = "f64"; }
impl FBits for f32 { fn f(self) -> f64 { self as f64 } const EPS: f64 = f32::EPSILON as f64; const NAME: &'static str = "f32"; }
pub trait IBits: bv::InputType { fn from64(v: i64) -> Self; }
impl IBits for i32 { fn from64(v: i64) -> Self { i32::try_from(v).expect("generator produced a coordinate outside i32") } }
impl IBits for i64 { fn from64(v: i64) -> Self { v } }

pub fn pts<I: IBits>(g: &Geo) -> Vec<bv::Point<I>> { g.p.iter().map(|p| bv::Point { x: I::from64(p[0]), y: I::from64(p[1]) }).collect() }
pub fn segs<I: IBits>(g: &Geo) -> Vec<bv::Line<I>> {
    g.s.iter().map(|s| bv::Line::new(bv::Point { x: I::from64(s[0]), y: I::from64(s[1]) }, bv::Point { x: I::from64(s[2]), y: I::from64(s[3]) })).collect()
}
pub fn build_raw<I: IBits, F: FBits>(g: &Geo) -> Result<bv::Diagram<F>, BvError> {
    bv::Builder::<I, F>::default().with_vertices(pts::<I>(g).iter())?.with_segments(segs::<I>(g).iter())?.build()
}
fn cat(c: bv::SourceCategory) -> u8 {
    match c { bv::SourceCategory::SinglePoint => 0, bv::SourceCategory::SegmentStart => 1, bv::SourceCategory::SegmentEnd => 2, bv::SourceCategory::Segment => 3 }
}
fn dcell(c: &bv::Cell) -> DCell { DCell { id: c.id().0, src: c.source_index(), cat: cat(c.source_category()), inc: c.get_incident_edge().map_or(NONE, |e| e.0) } }
fn dvert<F: FBits>(v: &bv::Vertex<F>) -> DVert { DVert { id: v.get_id().0, x: v.x().f(), y: v.y().f(), inc: v.get_incident_edge().map_or(NONE, |e| e.0), site: v.is_site_point() } }
fn dedge(e: &bv::Edge) -> DEdge {
    DEdge { id: e.id().0, cell: e.cell().map_or(NONE, |c| c.0), v0: e.vertex0().map_or(NONE, |v| v.0), twin: e.twin().map_or(NONE, |t| t.0),
        next: e.next().map_or(NONE, |t| t.0), prev: e.prev().map_or(NONE, |t| t.0), linear: e.is_linear(), primary: e.is_primary() }
}
pub fn extract<F: FBits>(d: &bv::Diagram<F>) -> Diag {
    Diag { cells: d.cells().iter().map(|c| dcell(&c.get())).collect(), verts: d.vertices().iter().map(|v| dvert(&v.get())).collect(), edges: d.edges().iter().map(|e| dedge(&e.get())).collect() }
}
pub fn extract_sync<F: FBits>(d: &bv::SyncDiagram<F>) -> Diag {
    Diag { cells: d.cells().iter().map(dcell).collect(), verts: d.vertices().iter().map(dvert).collect(), edges: d.edges().iter().map(dedge).collect() }
}
/// Build; an error or a panic on a valid input is a failure of whatever property needed the diagram.
pub fn build<I: IBits, F: FBits>(g: &Geo) -> Result<Diag, Fail> {
    match build_raw::<I, F>(g) { Ok(d) => Ok(extract(&d)), Err(e) => fail("build-error", format!("build() returned an error on a valid input: {e:?}")) }
}

// ---- reference implementation -------------------------------------------------------------
#[repr(C)]
struct RefOut { nc: i64, nv: i64, ne: i64, cells: *mut i64, verts: *mut f64, vinc: *mut i64, edges: *mut i64 }
extern "C" {
    fn vf_ref_build(p: *const i32, np: i64, s: *const i32, ns: i64, o: *mut RefOut);
    fn vf_ref_free(o: *mut RefOut);
}
pub fn reference(g: &Geo) -> Diag {
    let p: Vec<i32> = g.p.iter().flatten().map(|&v| v as i32).collect();
    let s: Vec<i32> = g.s.iter().flatten().map(|&v| v as i32).collect();
    let u = |v: i64| if v < 0 { NONE } else { v as usize };
    unsafe {
        let mut o: RefOut = std::mem::zeroed();
        vf_ref_build(p.as_ptr(), g.p.len() as i64, s.as_ptr(), g.s.len() as i64, &mut o);
        let c = std::slice::from_raw_parts(o.cells, 3 * o.nc as usize);
        let v = std::slice::from_raw_parts(o.verts, 2 * o.nv as usize);
        let vi = std::slice::from_raw_parts(o.vinc, o.nv as usize);
        let e = std::slice::from_raw_parts(o.edges, 7 * o.ne as usize);
        let d = Diag {
            cells: (0..o.nc as usize).map(|i| DCell { id: i, src: c[3 * i] as usize, cat: c[3 * i + 1] as u8, inc: u(c[3 * i + 2]) }).collect(),
            verts: (0..o.nv as usize).map(|i| DVert { id: i, x: v[2 * i], y: v[2 * i + 1], inc: u(vi[i]), site: false }).collect(),
            edges: (0..o.ne as usize).map(|i| { let r = &e[7 * i..7 * i + 7]; DEdge { id: i, cell: u(r[0]), v0: u(r[1]), twin: u(r[2]), next: u(r[3]), prev: u(r[4]), linear: r[5] != 0, primary: r[6] != 0 } }).collect(),
        };
        vf_ref_free(&mut o);
        d
    }
}
