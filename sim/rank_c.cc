// The C interface: histories of calls on its objects, against the C++ classes.
#include "polytope.hh"
#include "polytope_c.h"
#include "polytope_write_silo.h"
#include "rank.hh"
#include <stdio.h>
#include <string.h>

using namespace polytope;
using namespace psim;

namespace {
struct Counted { Counted() { psim_alloc_scope(1); } ~Counted() { psim_alloc_scope(0); } };

void dumpC(const polytope_tessellation_t* m, MeshDump& o) {
  const int D = m->dimension;
  o = MeshDump();
  if (m->num_nodes) o.nodes.assign(m->nodes, m->nodes + D*m->num_nodes);
  for (int i = 0; i < m->num_cells; ++i) o.cells.push_back(std::vector<int>(m->cell_faces + m->cell_offsets[i], m->cell_faces + m->cell_offsets[i+1]));
  for (int i = 0; i < m->num_faces; ++i) {
    o.faces.push_back(std::vector<unsigned>(m->face_nodes + m->face_offsets[i], m->face_nodes + m->face_offsets[i+1]));
    o.faceCells.push_back(std::vector<int>(1, m->face_cells[2*i]));
    if (m->face_cells[2*i+1] != -1) o.faceCells.back().push_back(m->face_cells[2*i+1]);
  }
  if (m->num_boundary_nodes) o.boundaryNodes.assign(m->boundary_nodes, m->boundary_nodes + m->num_boundary_nodes);
  if (m->num_boundary_faces) o.boundaryFaces.assign(m->boundary_faces, m->boundary_faces + m->num_boundary_faces);
  for (int i = 0; i < m->num_neighbor_domains; ++i) {
    o.neighborDomains.push_back(m->neighbor_domains[i]);
    o.sharedNodes.push_back(std::vector<unsigned>(m->shared_nodes + m->shared_node_domain_offsets[i], m->shared_nodes + m->shared_node_domain_offsets[i+1]));
    o.sharedFaces.push_back(std::vector<unsigned>(m->shared_faces + m->shared_face_domain_offsets[i], m->shared_faces + m->shared_face_domain_offsets[i+1]));
  }
}

struct Objects: public CObjects {
  const int dim;
  polytope_tessellation_t* mesh[3]; bool full[3]; MeshDump kept[3];
  polytope_tessellator_t* tess[2]; polytope_plc_t* plc[2];
  explicit Objects(int d): dim(d) { for (int i = 0; i < 3; ++i) { mesh[i] = 0; full[i] = false; } for (int i = 0; i < 2; ++i) { tess[i] = 0; plc[i] = 0; } }

  void needMesh(int i) { if (!mesh[i]) { mesh[i] = polytope_tessellation_new(dim); full[i] = false; kept[i] = MeshDump(); } }
  void needTess(int i) { if (!tess[i]) tess[i] = boost_tessellator_new(); }
  // What no serial tessellator fills, but the object owns all the same when its user sets it.
  template<typename T> static void give(T*& p, int n, T value) { psim_free(p); p = (T*)psim_malloc(n*sizeof(T)); for (int i = 0; i < n; ++i) p[i] = value; }
  void giveRest(int i) {
    polytope_tessellation_t* m = mesh[i];
    if (!m || !full[i] || m->num_neighbor_domains || m->convex_hull) return;
    m->convex_hull = polytope_plc_new(dim);
    polytope_plc_add_facet_node(m->convex_hull, polytope_plc_add_facet(m->convex_hull), 1);
    m->num_neighbor_domains = 2;
    give(m->neighbor_domains, 2, 1u);
    give(m->shared_node_domain_offsets, 3, 0); give(m->shared_nodes, 1, 0u);
    give(m->shared_face_domain_offsets, 3, 0); give(m->shared_faces, 1, 0u);
  }
  void clear(int i) { giveRest(i); if (mesh[i]) { polytope_tessellation_clear(mesh[i]); full[i] = false; kept[i] = MeshDump(); } }

  template<typename T, typename S> static void rows(const std::vector<std::vector<S> >& x, int*& offset, T*& items) {
    size_t n = 0; for (size_t i = 0; i < x.size(); ++i) n += x[i].size();
    psim_free(offset); psim_free(items);
    offset = (int*)psim_malloc((x.size() + 1)*sizeof(int)); items = (T*)psim_malloc((n + 1)*sizeof(T));
    n = 0;
    for (size_t i = 0; i < x.size(); ++i) { offset[i] = n; for (size_t j = 0; j < x[i].size(); ++j) items[n++] = x[i][j]; }
    offset[x.size()] = n;
  }
  template<typename T> static void list(const std::vector<T>& x, T*& p) { give(p, x.size() + 1, T()); std::copy(x.begin(), x.end(), p); }
  // the user fills a mesh object
  void adopt(const Step& s, const MeshDump& d, StepOut& o) {
    const int a = s.iargs[1];
    { Counted c; fill(a, d); }
    full[a] = true;
    dumpC(mesh[a], kept[a]);
    o.mesh = kept[a];
    others(o);
  }
  void fill(int a, const MeshDump& d) {
    if (full[a]) clear(a);
    needMesh(a);
    polytope_tessellation_t* m = mesh[a];
    m->num_nodes = d.nodes.size()/dim; list(d.nodes, m->nodes);
    m->num_cells = d.cells.size(); rows(d.cells, m->cell_offsets, m->cell_faces);
    m->num_faces = d.faces.size(); rows(d.faces, m->face_offsets, m->face_nodes);
    m->num_boundary_nodes = d.boundaryNodes.size(); list(d.boundaryNodes, m->boundary_nodes);
    m->num_boundary_faces = d.boundaryFaces.size(); list(d.boundaryFaces, m->boundary_faces);
    give(m->face_cells, 2*d.faces.size() + 1, -1);
    for (size_t f = 0; f < d.faceCells.size(); ++f) std::copy(d.faceCells[f].begin(), d.faceCells[f].end(), m->face_cells + 2*f);
    m->num_neighbor_domains = d.neighborDomains.size(); list(d.neighborDomains, m->neighbor_domains);
    std::vector<std::vector<unsigned> > sn = d.sharedNodes, sf = d.sharedFaces;
    sn.resize(d.neighborDomains.size()); sf.resize(d.neighborDomains.size());
    rows(sn, m->shared_node_domain_offsets, m->shared_nodes);
    rows(sf, m->shared_face_domain_offsets, m->shared_faces);
  }

  // fills plc[i] and reads it back
  std::string build(int i, const PlcGeom& g) {
    if (!plc[i]) plc[i] = polytope_plc_new(dim); else polytope_plc_clear(plc[i]);
    polytope_plc_t* p = plc[i];
    if (!polytope_plc_empty(p)) return "not empty after new or clear";
    for (size_t f = 0; f < g.facets.size(); ++f) {
      const int k = polytope_plc_add_facet(p);
      if (k != (int)f) return "facet index";
      for (size_t j = 0; j < g.facets[f].size(); ++j) polytope_plc_add_facet_node(p, k, g.facets[f][j]);
    }
    for (size_t h = 0; h < g.holes.size(); ++h) {
      const int hk = polytope_plc_add_hole(p);
      if (hk != (int)h) return "hole index";
      for (size_t f = 0; f < g.holes[h].size(); ++f) {
        const int k = polytope_plc_add_hole_facet(p, hk);
        if (k != (int)f) return "hole facet index";
        for (size_t j = 0; j < g.holes[h][f].size(); ++j) polytope_plc_add_hole_facet_node(p, hk, k, g.holes[h][f][j]);
      }
    }
    for (size_t f = 0; f < g.facets.size(); ++f) {
      if (polytope_plc_num_facet_nodes(p, f) != (int)g.facets[f].size()) return "facet size";
      std::vector<int> b(g.facets[f].size() + 1, -77); polytope_plc_get_facet_nodes(p, f, &b[0]);
      if (!std::equal(g.facets[f].begin(), g.facets[f].end(), b.begin()) || b.back() != -77) return "facet nodes";
    }
    for (size_t h = 0; h < g.holes.size(); ++h) {
      if (polytope_plc_num_hole_facets(p, h) != (int)g.holes[h].size()) return "number of hole facets";
      for (size_t f = 0; f < g.holes[h].size(); ++f) {
        if (polytope_plc_num_hole_facet_nodes(p, h, f) != (int)g.holes[h][f].size()) return "hole facet size";
        std::vector<int> b(g.holes[h][f].size() + 1, -77); polytope_plc_get_hole_facet_nodes(p, h, f, &b[0]);
        if (!std::equal(g.holes[h][f].begin(), g.holes[h][f].end(), b.begin()) || b.back() != -77) return "hole facet nodes";
      }
    }
    PLC<2, double> c2; c2.facets = g.facets; c2.holes = g.holes;
    PLC<3, double> c3; c3.facets = g.facets; c3.holes = g.holes;
    if (polytope_plc_empty(p) != c2.empty()) return "empty";
    if (polytope_plc_valid(p) != (dim == 2 ? c2.valid() : c3.valid())) return "valid";
    return "";
  }

  void step(const Step& s, int rank, StepOut& o) {
    const int code = s.iargs[0], a = s.iargs[1], b = s.iargs[2];
    std::vector<double> pts; if (rank < (int)s.gens.size()) pts = s.gens[rank];
    switch (code) {
    case C_TESSELLATE: {
      { Counted c; if (full[a]) clear(a); needMesh(a); needTess(b); }
      double lo[2] = { s.low[0], s.low[1] }, hi[2] = { s.high[0], s.high[1] };
      const std::vector<double> before = pts; std::vector<double> plcPts = s.plc.points;
      if (s.mode == PLCPTS) { Counted c; o.text = build(b, s.plc); if (!o.text.empty()) o.text = "PLC: " + o.text; }
      psim_yield("call");
      {
        Counted c;
        if (s.mode == UNBOUNDED) polytope_tessellator_tessellate_unbounded(tess[b], &pts[0], pts.size()/2, mesh[a]);
        else if (s.mode == BOX) polytope_tessellator_tessellate_in_box(tess[b], &pts[0], pts.size()/2, lo, hi, mesh[a]);
        else polytope_tessellator_tessellate_in_plc(tess[b], &pts[0], pts.size()/2, &plcPts[0], plcPts.size()/2, plc[b], mesh[a]);
      }
      if (before != pts || plcPts != s.plc.points || lo[0] != s.low[0] || lo[1] != s.low[1] || hi[0] != s.high[0] || hi[1] != s.high[1]) o.text += " the caller's arrays were changed";
      full[a] = true;
      dumpC(mesh[a], kept[a]);
      o.mesh = kept[a];
      BoostTessellator<double> t; Tessellation<2, double> m;
      if (s.mode == UNBOUNDED) t.tessellate(pts, m);
      else if (s.mode == BOX) t.tessellate(pts, lo, hi, m);
      else { PLC<2, double> q; q.facets = s.plc.facets; q.holes = s.plc.holes; t.tessellate(pts, plcPts, q, m); }
      dumpMesh2(m, o.mesh2);
      o.mesh2.hullFacets.clear();
      if (mesh[a]->convex_hull && !m.convexHull.empty()) {
        for (size_t f = 0; f < m.convexHull.facets.size(); ++f) {
          if (polytope_plc_num_facet_nodes(mesh[a]->convex_hull, f) != (int)m.convexHull.facets[f].size()) o.text += " convex hull differs";
        }
      } else if (!mesh[a]->convex_hull != m.convexHull.empty()) o.text += " convex hull missing";
      break; }
    case C_CLEAR: { { Counted c; clear(a); } if (mesh[a]) checkEmpty(a, o); break; }
    case C_NEW: { { Counted c; needMesh(a); } if (!full[a]) checkEmpty(a, o); break; }
    case C_FREE: { Counted c; giveRest(a); if (mesh[a]) polytope_tessellation_free(mesh[a]); mesh[a] = 0; full[a] = false; kept[a] = MeshDump(); break; }
    case C_FREETESS: { Counted c; if (tess[b]) polytope_tessellator_free(tess[b]); tess[b] = 0; break; }
    case C_FREEPLC: { Counted c; if (plc[b]) polytope_plc_free(plc[b]); plc[b] = 0; break; }
    case C_PLC: { Counted c; o.text = build(b, s.plc); break; }
    case C_INFO: {
      Counted c;
      needTess(b);
      BoostTessellator<double> t;
      const char* n1 = polytope_tessellator_name(tess[b]);
      psim_yield("name");
      std::string other(40, '#');
      if (t.name() != n1) o.text = "name";
      if (polytope_tessellator_handles_plcs(tess[b]) != t.handlesPLCs()) o.text += " handles_plcs";
      if (polytope_tessellator_degeneracy(tess[b]) != t.degeneracy()) o.text += " degeneracy";
      if (polytope_tessellator_dimension(tess[b]) != 2) o.text += " dimension";
      break; }
    }
    others(o);
  }
  void others(StepOut& o) {                              // no object changed except the one meant
    for (int i = 0; i < 3; ++i) if (mesh[i]) { MeshDump d; dumpC(mesh[i], d); if (!(d == kept[i])) { char w[64]; snprintf(w, sizeof w, " mesh object %d changed", i); o.text += w; } }
    o.ints.push_back(psim_heap_live());
  }
  void checkEmpty(int i, StepOut& o) {
    const polytope_tessellation_t* m = mesh[i];
    if (m->num_nodes || m->num_cells || m->num_faces || m->num_boundary_nodes || m->num_boundary_faces || m->num_neighbor_domains || m->convex_hull) o.text += " not empty";
  }

  void write(const Step& s, int rank, StepOut& o) {
    const int a = s.iargs[W_NARGS];
    { Counted c; needMesh(a); }
    const polytope_tessellation_t* m = mesh[a];
    dumpC(mesh[a], o.mesh);
    const int count[4] = { m->num_nodes, m->num_faces, m->num_faces, m->num_cells };
    std::vector<std::string> names, tnames; std::vector<std::vector<double> > values; std::vector<std::vector<int> > tags;
    names.reserve(64); tnames.reserve(64); values.reserve(64); tags.reserve(64);
    std::vector<char*> fn[4], tn[4]; std::vector<double*> fv[4]; std::vector<int*> tv[4]; std::vector<int> ts[4];
    for (int k = 0; k < 4; ++k) {
      for (int i = 0; i < s.iargs[W_FIELDS + k]; ++i) {
        names.push_back(fieldName(k, i)); fn[k].push_back(&names.back()[0]);
        values.push_back(std::vector<double>(count[k] + 1));
        for (int j = 0; j < count[k]; ++j) values.back()[j] = fieldValue(rank, s.iargs[W_CYCLE], k, i, j);
        fv[k].push_back(&values.back()[0]);
      }
      for (int i = 0; i < s.iargs[W_TAGS + k]; ++i) {
        tnames.push_back(tagName(k, i)); tn[k].push_back(&tnames.back()[0]);
        tags.push_back(std::vector<int>(tagLength(rank, k, i) + 1));
        for (int j = 0; j < tagLength(rank, k, i); ++j) tags.back()[j] = tagValue(rank, k, i, j);
        tv[k].push_back(&tags.back()[0]); ts[k].push_back(tagLength(rank, k, i));
      }
      fn[k].push_back(0); fv[k].push_back(0); tn[k].push_back(0); tv[k].push_back(0); ts[k].push_back(0);
    }
    const int cycle = s.iargs[W_CYCLE]; const double time = cycle >= 0 ? 0.25*cycle + 0.125 : -FLT_MAX;
    const int* F = &s.iargs[W_FIELDS]; const int* T = &s.iargs[W_TAGS];
    Counted c;
    if (s.iargs[W_CALL] == 5)
      polytope_write_silo_with_tags(mesh[a],
        F[0], &fn[0][0], &fv[0][0], T[0], &tn[0][0], &ts[0][0], &tv[0][0], F[1], &fn[1][0], &fv[1][0], T[1], &tn[1][0], &ts[1][0], &tv[1][0],
        F[2], &fn[2][0], &fv[2][0], T[2], &tn[2][0], &ts[2][0], &tv[2][0], F[3], &fn[3][0], &fv[3][0], T[3], &tn[3][0], &ts[3][0], &tv[3][0],
        s.sargs[0].c_str(), s.sargs[1].c_str(), cycle, time, MPI_COMM_WORLD, s.iargs[W_FILES], s.iargs[W_TAG]);
    else
      polytope_write_silo(mesh[a], F[0], &fn[0][0], &fv[0][0], F[1], &fn[1][0], &fv[1][0], F[2], &fn[2][0], &fv[2][0], F[3], &fn[3][0], &fv[3][0],
        s.sargs[0].c_str(), s.sargs[1].c_str(), cycle, time, MPI_COMM_WORLD, s.iargs[W_FILES], s.iargs[W_TAG]);
  }
  ~Objects() {
    Counted c;
    for (int i = 0; i < 3; ++i) if (mesh[i]) polytope_tessellation_free(mesh[i]);
    for (int i = 0; i < 2; ++i) { if (tess[i]) polytope_tessellator_free(tess[i]); if (plc[i]) polytope_plc_free(plc[i]); }
  }
};
}

CObjects* makeCObjects(int dim) { return new Objects(dim); }
