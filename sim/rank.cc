// The program each simulated rank runs.  Built together with the repository's
// own sources into one library per rank, so that every rank has its own copy
// of all static data, as separate processes have.
#include "polytope.hh"
#include "checkDistributedTessellation.hh"
#include "MeshEditor.hh"
#include "rank.hh"
#include "geom3.hh"
#include <string.h>
#include <memory>

using namespace polytope;
using namespace psim;

namespace {

template<int D> void dump(const Tessellation<D, double>& m, MeshDump& o) {
  o.nodes = m.nodes; o.cells = m.cells; o.faces = m.faces;
  o.boundaryNodes = m.boundaryNodes; o.boundaryFaces = m.boundaryFaces;
  o.faceCells = m.faceCells; o.hullFacets = m.convexHull.facets;
  o.neighborDomains = m.neighborDomains; o.sharedNodes = m.sharedNodes; o.sharedFaces = m.sharedFaces;
}

// A serial 3D tessellator for generators that fill a regular lattice (in any
// order): stands in for TetGen, which this sandbox does not have.
class Lattice3: public Tessellator<3, double> {
public:
  std::string name() const { return "Lattice3"; }
  double degeneracy() const { return 1e-8; }
  void tessellateQuantized(QuantizedTessellation&) const {}
  using Tessellator<3, double>::tessellate;
  void tessellate(const std::vector<double>& p, double* lo, double* hi, Tessellation<3, double>& m) const {
    const int n = p.size()/3;
    std::vector<double> ax[3];
    for (int d = 0; d < 3; ++d) {
      std::set<double> s;
      for (int i = 0; i < n; ++i) s.insert(p[3*i + d]);
      ax[d].assign(s.begin(), s.end());
    }
    const int nx = ax[0].size(), ny = ax[1].size(), nz = ax[2].size();
    if (nx*ny*nz != n) return;
    std::vector<double> e[3];
    for (int d = 0; d < 3; ++d) {
      e[d].push_back(lo[d]);
      for (size_t i = 0; i + 1 < ax[d].size(); ++i) e[d].push_back(0.5*(ax[d][i] + ax[d][i+1]));
      e[d].push_back(hi[d]);
    }
    std::vector<int> cellAt(n);
    for (int i = 0; i < n; ++i) {
      int k[3];
      for (int d = 0; d < 3; ++d) k[d] = std::lower_bound(ax[d].begin(), ax[d].end(), p[3*i + d]) - ax[d].begin();
      cellAt[k[0] + nx*(k[1] + ny*k[2])] = i;
    }
    #define NODE(i, j, k) unsigned((i) + (nx + 1)*((j) + (ny + 1)*(k)))
    for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
      m.nodes.push_back(e[0][i]); m.nodes.push_back(e[1][j]); m.nodes.push_back(e[2][k]);
    }
    m.cells.resize(n);
    int N[3] = { nx, ny, nz };
    for (int d = 0; d < 3; ++d) {
      const int a = (d + 1) % 3, b = (d + 2) % 3;
      for (int w = 0; w <= N[d]; ++w) for (int v = 0; v < N[b]; ++v) for (int u = 0; u < N[a]; ++u) {
        std::vector<unsigned> q;
        const int du[4] = { 0, 1, 1, 0 }, dv[4] = { 0, 0, 1, 1 };
        for (int c = 0; c < 4; ++c) { int x[3]; x[d] = w; x[a] = u + du[c]; x[b] = v + dv[c]; q.push_back(NODE(x[0], x[1], x[2])); }
        const int f = m.faces.size();
        m.faces.push_back(q);
        std::vector<int> fc;
        int x[3]; x[a] = u; x[b] = v;
        if (w > 0) { x[d] = w - 1; const int c = cellAt[x[0] + nx*(x[1] + ny*x[2])]; m.cells[c].push_back(f); fc.push_back(c); }
        if (w < N[d]) { x[d] = w; const int c = cellAt[x[0] + nx*(x[1] + ny*x[2])]; m.cells[c].push_back(~f); fc.push_back(~c); }
        m.faceCells.push_back(fc);
      }
    }
    #undef NODE
    findBoundaryElements(m, m.boundaryFaces, m.boundaryNodes);
  }
};

// A serial 3D tessellator for generators in general position.
class Voronoi3: public Tessellator<3, double> {
public:
  std::string name() const { return "Voronoi3"; }
  double degeneracy() const { return 1e-8; }
  void tessellateQuantized(QuantizedTessellation&) const {}
  using Tessellator<3, double>::tessellate;
  void tessellate(const std::vector<double>& p, Tessellation<3, double>& m) const {       // outer cells end far away
    double lo[3], hi[3], L = 0;
    for (int d = 0; d < 3; ++d) {
      lo[d] = hi[d] = p[d];
      for (size_t i = d; i < p.size(); i += 3) { lo[d] = std::min(lo[d], p[i]); hi[d] = std::max(hi[d], p[i]); }
      L = std::max(L, hi[d] - lo[d]);
    }
    for (int d = 0; d < 3; ++d) { lo[d] -= 5*L; hi[d] += 5*L; }
    tessellate(p, lo, hi, m);
  }
  void tessellate(const std::vector<double>& p, double* lo, double* hi, Tessellation<3, double>& m) const {
    const int n = p.size()/3;
    std::vector<P3> g;
    for (int i = 0; i < n; ++i) g.push_back(mk3(p[3*i], p[3*i+1], p[3*i+2]));
    const double L = std::max(hi[0]-lo[0], std::max(hi[1]-lo[1], hi[2]-lo[2])), tol = 1e-8*L;
    std::vector<Poly3> c;
    for (int i = 0; i < n; ++i) c.push_back(voronoiCell3(g, i, lo, hi));
    std::vector<P3> nodes;
    m.cells.resize(n);
    for (int i = 0; i < n; ++i) for (size_t f = 0; f < c[i].size(); ++f) {
      const int j = c[i][f].tag;
      if (j >= 0 && j < i) {                             // made by the other cell already, unless that cell misses it
        bool there = false;
        for (size_t k = 0; k < c[j].size() && !there; ++k) there = c[j][k].tag == i;
        if (there) continue;
      }
      std::vector<unsigned> q;
      for (size_t k = 0; k < c[i][f].v.size(); ++k) {
        const P3& x = c[i][f].v[k];
        unsigned id = 0;
        while (id < nodes.size() && dist3(nodes[id], x) > tol) ++id;
        if (id == nodes.size()) nodes.push_back(x);
        if (q.empty() || (q.back() != id && q[0] != id)) q.push_back(id);
      }
      if (q.size() < 3) continue;
      const int id = m.faces.size();
      m.faces.push_back(q);
      m.cells[i].push_back(id);
      std::vector<int> fc(1, i);
      if (j >= 0) { m.cells[j].push_back(~id); fc.push_back(~j); }
      m.faceCells.push_back(fc);
    }
    for (size_t i = 0; i < nodes.size(); ++i) m.nodes.insert(m.nodes.end(), nodes[i].c, nodes[i].c + 3);
    findBoundaryElements(m, m.boundaryFaces, m.boundaryNodes);
  }
};

template<int D> struct Serial;
template<> struct Serial<2> { static Tessellator<2, double>* make(const Step&) { return new BoostTessellator<double>(); } };
template<> struct Serial<3> { static Tessellator<3, double>* make(const Step& s) { if (s.stub == 2) return new Voronoi3(); return new Lattice3(); } };

template<int D> Tessellator<D, double>* makeTess(const Step& s) {
  if (s.algo == SERIAL) return Serial<D>::make(s);
  if (s.algo == SERIALDIST) return new SerialDistributedTessellator<D, double>(Serial<D>::make(s), true, s.commInfo);
  return new DistributedTessellator<D, double>(Serial<D>::make(s), true, s.commInfo);
}

template<int D> void callTess(Tessellator<D, double>& t, const Step& s, const std::vector<double>& pts, Tessellation<D, double>& mesh) {
  if (s.mode == UNBOUNDED) { t.tessellate(pts, mesh); return; }
  if (s.mode == BOX) {
    double lo[3], hi[3];
    memcpy(lo, s.low, sizeof lo); memcpy(hi, s.high, sizeof hi);
    t.tessellate(pts, lo, hi, mesh);
    return;
  }
  if (s.mode == PLCPTS) {
    PLC<D, double> plc; plc.facets = s.plc.facets; plc.holes = s.plc.holes;
    t.tessellate(pts, s.plc.points, plc, mesh);
    return;
  }
  ReducedPLC<D, double> r; r.facets = s.plc.facets; r.holes = s.plc.holes; r.points = s.plc.points;
  t.tessellate(pts, r, mesh);
}

// Generators may coincide: returns the cell of each.
template<int D> std::vector<unsigned> callDegenerate(Tessellator<D, double>& t, const Step& s, const std::vector<double>& pts, Tessellation<D, double>& mesh) {
  const double tol = degenerateTol(s, D);
  if (s.mode == UNBOUNDED) return t.tessellateDegenerate(pts, tol, mesh);
  if (s.mode == BOX) {
    double lo[3], hi[3];
    memcpy(lo, s.low, sizeof lo); memcpy(hi, s.high, sizeof hi);
    return t.tessellateDegenerate(pts, lo, hi, tol, mesh);
  }
  if (s.mode == PLCPTS) {
    PLC<D, double> plc; plc.facets = s.plc.facets; plc.holes = s.plc.holes;
    return t.tessellateDegenerate(pts, s.plc.points, plc, tol, mesh);
  }
  ReducedPLC<D, double> r; r.facets = s.plc.facets; r.holes = s.plc.holes; r.points = s.plc.points;
  return t.tessellateDegenerate(pts, r, tol, mesh);
}

// Damages the communication information: iargs are groups of four
// (kind, rank, neighbour, position).
template<int D> void corrupt(Tessellation<D, double>& m, const Step& s, int rank, int n) {
  for (size_t k = 0; k + 3 < s.iargs.size(); k += 4) {
    const int kind = s.iargs[k], v = s.iargs[k+1] % n, a = s.iargs[k+2], b = s.iargs[k+3];
    int o = -1, pos = 0, pos2 = 0, i = -1;           // the other rank, the elements meant
    if (rank == v && !m.neighborDomains.empty() && m.sharedNodes.size() == m.neighborDomains.size()) {
      i = a % m.neighborDomains.size();
      o = m.neighborDomains[i];
      const int ns = m.sharedNodes[i].size();
      if (ns > 0) { pos = b % ns; pos2 = (b/7 + 1) % ns; } else o = -1;
    }
    int msg[3] = { o, pos, pos2 };
    if (n > 1) MPI_Bcast(msg, 3, MPI_INT, v, MPI_COMM_WORLD);
    o = msg[0]; pos = msg[1]; pos2 = msg[2];
    const bool both = kind == 6 || kind == 10 || kind == 11 || kind == 13 || kind == 14 || kind == 15;
    if (kind == 5 || kind == 8 || kind == 9) {         // a neighbour that is none
      int w = (v + 1 + a) % n;
      if (w == v) continue;
      if (rank == v || (kind == 9 && rank == w)) {
        const unsigned x = rank == v ? w : v;
        std::vector<unsigned>::iterator it = std::lower_bound(m.neighborDomains.begin(), m.neighborDomains.end(), x);
        if (it != m.neighborDomains.end() && *it == x) continue;
        const int at = it - m.neighborDomains.begin();
        m.neighborDomains.insert(it, x);
        m.sharedNodes.insert(m.sharedNodes.begin() + at, std::vector<unsigned>(kind == 5 && !m.nodes.empty() ? 1 : 0, 0u));
        m.sharedFaces.insert(m.sharedFaces.begin() + at, std::vector<unsigned>());
      }
      continue;
    }
    if (o < 0 || !(rank == v || (both && rank == o))) continue;
    i = std::find(m.neighborDomains.begin(), m.neighborDomains.end(), unsigned(rank == v ? o : v)) - m.neighborDomains.begin();
    if (i >= (int)m.neighborDomains.size()) continue;
    std::vector<unsigned>& sn = m.sharedNodes[i];
    if (pos >= (int)sn.size() || pos2 >= (int)sn.size()) continue;
    const unsigned nn = m.nodes.size()/D;
    unsigned other = b % nn;
    for (unsigned t = 0; t < nn && std::find(sn.begin(), sn.end(), other) != sn.end(); ++t) other = (other + 1) % nn;
    if ((kind == 2 || kind == 7 || kind == 11) && std::find(sn.begin(), sn.end(), other) != sn.end()) continue;
    switch (kind) {
    case 0: case 6: sn.erase(sn.begin() + pos); break;
    case 1: case 13: std::swap(sn[pos], sn[pos2]); break;
    case 2: sn[pos] = other; break;
    case 3: case 10: m.neighborDomains.erase(m.neighborDomains.begin() + i); m.sharedNodes.erase(m.sharedNodes.begin() + i); m.sharedFaces.erase(m.sharedFaces.begin() + i); break;
    case 4: m.nodes[D*sn[pos] + b % D] += 1e-3*(s.high[0] - s.low[0]); break;
    case 14: case 16: sn[pos] = sn[pos2]; break;
    case 15: case 17: sn.push_back(sn[pos]); break;
    case 18: m.nodes[D*sn[pos] + b % D] += 4e-6*(s.high[0] - s.low[0]); break;
    case 7: case 11: sn.insert(sn.begin() + (rank == v ? pos : pos), other); break;
    }
  }
}

// No tessellator fills the convex hull, but users may and the files carry it: give
// the mesh one of another size on every rank and in every dump.
template<int D> void giveHull(Tessellation<D, double>& m, int rank, int cycle) {
  m.convexHull.clear();
  const size_t n = std::min(m.boundaryFaces.size(), size_t((rank + cycle + 5) % 4)*(1 + cycle % 3));
  for (size_t i = 0; i < n; ++i) {
    const std::vector<unsigned>& f = m.faces[m.boundaryFaces[m.boundaryFaces.size() - 1 - i]];
    m.convexHull.facets.push_back(std::vector<int>(f.begin(), f.end()));
    if (i % 2 && f.size() > 2) m.convexHull.facets.back().pop_back();
  }
}

// What a mesh that is cleared and filled again may have held before.
template<int D> void clearMesh(Tessellation<D, double>& m) {
  if (m.convexHull.empty()) { m.convexHull.facets.resize(2, std::vector<int>(D, 1)); m.convexHull.holes.resize(1, m.convexHull.facets); }
  m.clear();
}

template<int D> void writeDump(const Tessellation<D, double>& m, const Step& s, int rank) {
  const size_t count[4] = { m.nodes.size()/D, m.faces.size(), m.faces.size(), m.cells.size() };
  const int cycle = s.iargs[W_CYCLE], nf = s.iargs[W_FILES], tag = s.iargs[W_TAG];
  std::vector<std::vector<double> > values; std::vector<std::vector<int> > tags;
  values.reserve(64); tags.reserve(64);
  std::map<std::string, double*> f[4]; std::map<std::string, std::vector<int>*> t[4];
  for (int k = 0; k < 4; ++k) {
    for (int i = 0; i < s.iargs[W_FIELDS + k]; ++i) {
      values.push_back(std::vector<double>(count[k] + 1));
      for (size_t j = 0; j < count[k]; ++j) values.back()[j] = fieldValue(rank, cycle, k, i, j);
      f[k][fieldName(k, i)] = &values.back()[0];
    }
    for (int i = 0; i < s.iargs[W_TAGS + k]; ++i) {
      tags.push_back(std::vector<int>());
      for (int j = 0; j < tagLength(rank, k, i); ++j) tags.back().push_back(tagValue(rank, k, i, j));
      t[k][tagName(k, i)] = &tags.back();
    }
  }
  psim_io_arm(s.iargs[W_ARMED]);
  const std::string& pre = s.sargs[0]; const std::string& dir = s.sargs[1];
  const double time = 0.25*cycle + 0.125;
  typedef SiloWriter<D, double> W;
  switch (s.iargs[W_CALL]) {
  case 0: W::write(m, f[0], t[0], f[1], t[1], f[2], t[2], f[3], t[3], pre, dir, cycle, cycle >= 0 ? time : -FLT_MAX, MPI_COMM_WORLD, nf, tag); break;
  case 1: W::write(m, f[0], f[1], f[2], f[3], pre, dir, cycle, time, MPI_COMM_WORLD, nf, tag); break;
  case 2: W::write(m, f[0], f[1], f[2], f[3], pre, cycle, time, MPI_COMM_WORLD, nf, tag); break;
  case 3: W::write(m, f[0], f[1], f[2], f[3], pre, dir, MPI_COMM_WORLD, nf, tag); break;
  case 4: W::write(m, f[0], f[1], f[2], f[3], pre, MPI_COMM_WORLD, nf, tag); break;
  }
  psim_io_arm(0);
}

// One call, then the same call with a failing allocation somewhere in it, then
// the same call again on the object that saw the failure.  Only allocations of
// the code under test are counted and only they may fail.
struct Counted { Counted() { psim_alloc_scope(1); } ~Counted() { psim_alloc_scope(0); } };
template<int D> void allocFailure(std::unique_ptr<Tessellator<D, double> >& tess, const Step& s, int section, int rank, StepOut& o) {
  long total;
  const std::vector<double> pts = s.gens[rank];
  for (int warm = 0; warm < 2; ++warm) {             // the first call makes what is made once
    std::unique_ptr<Tessellator<D, double> > t(makeTess<D>(s));
    Tessellation<D, double> m;
    const long before = psim_alloc_count();
    psim_alloc_scope(warm);
    callTess<D>(*t, s, pts, m);
    psim_alloc_scope(0);
    total = psim_alloc_count() - before;
    if (!warm) dump(m, o.mesh);
  }
  if (!s.reuse || !tess) { tess.reset(); Counted c; tess.reset(makeTess<D>(s)); }
  const long live = psim_alloc_live();
  bool fired;
  {
    Tessellation<D, double> m;
    psim_alloc_arm(section, total);
    try { Counted c; callTess<D>(*tess, s, pts, m); }
    catch (std::bad_alloc&) { o.text = "bad_alloc"; }
    catch (std::exception& e) { o.text = std::string("other exception: ") + e.what(); }
    fired = psim_alloc_fired();
    psim_alloc_arm(section, 0);
    if (o.text.empty()) dump(m, o.mesh2);
    if (s.keepMesh) { { Counted c; clearMesh(m); callTess<D>(*tess, s, pts, m); } MeshDump d; dump(m, d); o.ints.push_back(d == o.mesh); }
  }
  const long lost = fired ? psim_alloc_live() - live : 0;     // Boost.Polygon itself loses blocks when an allocation fails
  if (!s.keepMesh) {
    Tessellation<D, double> m;
    { Counted c; callTess<D>(*tess, s, pts, m); }
    MeshDump d; dump(m, d); o.ints.push_back(d == o.mesh);
  }
  o.ints.push_back(fired); o.ints.push_back(lost);
}

template<int D> void program(const Scenario& sc, int rank, RankOut& out) {
  std::unique_ptr<Tessellator<D, double> > tess;
  std::unique_ptr<Tessellation<D, double> > mesh;
  std::unique_ptr<CObjects> cobj(makeCObjects(D));
  out.steps.resize(sc.steps.size());
  for (size_t k = 0; k < sc.steps.size(); ++k) {
    const Step& s = sc.steps[k];
    StepOut& o = out.steps[k];
    if (s.op == "c" || (s.op == "write" && s.iargs[W_CALL] >= 5)) {
      if (s.op == "write") { psim_io_arm(s.iargs[W_ARMED]); cobj->write(s, rank, o); psim_io_arm(0); }
      else if (s.iargs[0] == C_ADOPT) {
        std::unique_ptr<Tessellator<D, double> > t(makeTess<D>(s));
        Tessellation<D, double> m;
        callTess<D>(*t, s, s.gens[rank], m);
        MeshDump d; dump(m, d);
        cobj->adopt(s, d, o);
      } else if ((s.iargs[3] >> rank) & 1) cobj->step(s, rank, o);
      o.done = true;
      continue;
    } else if (s.op == "tess" && !s.iargs.empty() && !((s.iargs[0] >> rank) & 1)) {
      o.done = true;
      continue;
    } else if (s.op == "tess" && sc.net.preempt) {
      Counted c;
      if (!s.reuse || !tess) { tess.reset(); tess.reset(makeTess<D>(s)); }
      if (s.keepMesh && mesh) clearMesh(*mesh); else mesh.reset(new Tessellation<D, double>());
      callTess<D>(*tess, s, s.gens[rank], *mesh);
    } else if (s.op == "tess") {
      if (!s.reuse || !tess) { tess.reset(); tess.reset(makeTess<D>(s)); }
      if (s.keepMesh && mesh) clearMesh(*mesh); else mesh.reset(new Tessellation<D, double>());
      callTess<D>(*tess, s, s.gens[rank], *mesh);
    } else if (s.op == "degen") {
      if (!s.reuse || !tess) { tess.reset(); tess.reset(makeTess<D>(s)); }
      if (s.keepMesh && mesh) clearMesh(*mesh); else mesh.reset(new Tessellation<D, double>());
      const std::vector<unsigned> cellOf = callDegenerate<D>(*tess, s, s.gens[rank], *mesh);
      o.ints.assign(cellOf.begin(), cellOf.end());
    } else if (s.op == "oom") {
      mesh.reset();
      allocFailure<D>(tess, s, k, rank, o);
      if (k + 1 == sc.steps.size()) { { Counted c; tess.reset(); } o.ints.push_back(psim_alloc_live()); }
      o.done = true;
      continue;
    } else if (s.op == "check") {
      o.text = checkDistributedTessellation(*mesh);
    } else if (s.op == "write") {
      giveHull(*mesh, rank, s.iargs[W_CYCLE]);
      writeDump<D>(*mesh, s, rank);
    } else if (s.op == "clean") {                      // iargs: tolerance in millionths
      MeshEditor<D, double> editor(*mesh);
      editor.cleanEdges(1e-6*s.iargs[0]);
    } else if (s.op == "delete") {                     // iargs: kept one in so many, and where it starts
      std::vector<unsigned> gone;
      for (size_t c = 0; c < mesh->cells.size(); ++c) if ((c + s.iargs[1] + rank) % s.iargs[0]) gone.push_back(c);
      if (gone.size() == mesh->cells.size() && !gone.empty()) gone.pop_back();
      if (!gone.empty()) { MeshEditor<D, double> editor(*mesh); editor.deleteCells(gone); }
    } else if (s.op == "corrupt") {
      corrupt<D>(*mesh, s, rank, sc.nranks);
    }
    if (mesh) dump(*mesh, o.mesh);
    o.done = true;
  }
  { Counted c; cobj.reset(); }
  if (sc.net.preempt || sc.workload == "P16") { Counted c; tess.reset(); mesh.reset(); }
  out.heapLive = psim_heap_live(); out.newLive = psim_alloc_live();
}

} // namespace

void dumpMesh2(const Tessellation<2, double>& m, MeshDump& o) { dump(m, o); }

extern "C" void psim_rank_main(const Scenario* sc, int rank, RankOut* out) {
  if (sc->dim == 3) program<3>(*sc, rank, *out);
  else program<2>(*sc, rank, *out);
}
