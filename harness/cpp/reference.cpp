// Reference model: the original C++ implementation this crate is a port of.
#include <boost/polygon/point_data.hpp>
#include <boost/polygon/segment_data.hpp>
#include <boost/polygon/voronoi.hpp>
#include <cstdint>
#include <vector>
#include <cstdlib>
#include <cstring>
#include <map>
using namespace boost::polygon;
typedef point_data<int32_t> P;
typedef segment_data<int32_t> S;
typedef voronoi_diagram<double> VD;

extern "C" {
struct RefOut {
  int64_t nc, nv, ne;
  int64_t *cells;   // nc * 3: source_index, category (0 single,1 start,2 end,3 segment), incident edge
  double *verts;    // nv * 2
  int64_t *vinc;    // nv: incident edge
  int64_t *edges;   // ne * 7: cell, vertex0, twin, next, prev, linear, primary
};
static int64_t *alloc64(size_t n) { return (int64_t *)malloc(sizeof(int64_t) * (n ? n : 1)); }
void vf_ref_build(const int32_t *pts, int64_t np, const int32_t *segs, int64_t ns, RefOut *o) {
  std::vector<P> p; std::vector<S> s;
  for (int64_t i = 0; i < np; i++) p.push_back(P(pts[2*i], pts[2*i+1]));
  for (int64_t i = 0; i < ns; i++) s.push_back(S(P(segs[4*i], segs[4*i+1]), P(segs[4*i+2], segs[4*i+3])));
  VD vd;
  construct_voronoi(p.begin(), p.end(), s.begin(), s.end(), &vd);
  const VD::cell_type *c0 = vd.cells().empty() ? 0 : &vd.cells()[0];
  const VD::vertex_type *v0 = vd.vertices().empty() ? 0 : &vd.vertices()[0];
  const VD::edge_type *e0 = vd.edges().empty() ? 0 : &vd.edges()[0];
  o->nc = vd.cells().size(); o->nv = vd.vertices().size(); o->ne = vd.edges().size();
  o->cells = alloc64(3 * o->nc); o->vinc = alloc64(o->nv); o->edges = alloc64(7 * o->ne);
  o->verts = (double *)malloc(sizeof(double) * (2 * o->nv + 1));
  for (int64_t i = 0; i < o->nc; i++) {
    const VD::cell_type &c = vd.cells()[i];
    int cat = 3;
    switch (c.source_category()) {
      case SOURCE_CATEGORY_SINGLE_POINT: cat = 0; break;
      case SOURCE_CATEGORY_SEGMENT_START_POINT: cat = 1; break;
      case SOURCE_CATEGORY_SEGMENT_END_POINT: cat = 2; break;
      default: cat = 3;
    }
    o->cells[3*i] = c.source_index(); o->cells[3*i+1] = cat;
    o->cells[3*i+2] = c.incident_edge() ? c.incident_edge() - e0 : -1;
  }
  for (int64_t i = 0; i < o->nv; i++) {
    const VD::vertex_type &v = vd.vertices()[i];
    o->verts[2*i] = v.x(); o->verts[2*i+1] = v.y();
    o->vinc[i] = v.incident_edge() ? v.incident_edge() - e0 : -1;
  }
  for (int64_t i = 0; i < o->ne; i++) {
    const VD::edge_type &e = vd.edges()[i];
    int64_t *r = o->edges + 7*i;
    r[0] = e.cell() - c0; r[1] = e.vertex0() ? e.vertex0() - v0 : -1;
    r[2] = e.twin() - e0; r[3] = e.next() ? e.next() - e0 : -1; r[4] = e.prev() ? e.prev() - e0 : -1;
    r[5] = e.is_linear(); r[6] = e.is_primary();
  }
}
void vf_ref_free(RefOut *o) { free(o->cells); free(o->verts); free(o->vinc); free(o->edges); }
}
