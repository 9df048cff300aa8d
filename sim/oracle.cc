// The oracles: what a job's meshes have to look like.  Everything here is
// computed from the generators and the domain alone.
#include "harness.hh"
#include "classify.hh"
#include "geom3.hh"
#include <set>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

namespace psim {

void say(Verdict& v, const char* clause, const char* fmt, ...) {
  if (v.bad) return;
  char b[1500];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  v.bad = true; v.clause = clause; v.text = b;
  for (size_t i = 0; i < v.text.size(); ++i) if (v.text[i] == '\n' || v.text[i] == '\t') v.text[i] = ' ';
}

static P2 node(const MeshDump& m, unsigned i) { return mk(m.nodes[2*i], m.nodes[2*i + 1]); }
static P3 node3(const MeshDump& m, unsigned i) { return mk3(m.nodes[3*i], m.nodes[3*i + 1], m.nodes[3*i + 2]); }
static double apart(const MeshDump& a, unsigned i, const MeshDump& b, unsigned j, int dim) {
  double s = 0; for (int d = 0; d < dim; ++d) { const double e = a.nodes[dim*i + d] - b.nodes[dim*j + d]; s += e*e; } return sqrt(s);
}

uint64_t hashMesh(const MeshDump& m) {
  Hash h;
  h.u64(m.nodes.size()); if (!m.nodes.empty()) h.bytes(&m.nodes[0], m.nodes.size()*sizeof(double));
  for (size_t i = 0; i < m.cells.size(); ++i) { h.u64(m.cells[i].size()); for (size_t k = 0; k < m.cells[i].size(); ++k) h.u64(m.cells[i][k]); }
  for (size_t i = 0; i < m.neighborDomains.size(); ++i) h.u64(m.neighborDomains[i]);
  return h.h;
}

void checkEnd(Verdict& v, const Scenario& sc, const JobResult& r, const char* what) {
  if (v.bad) return;
  if (r.end != END_OK) { say(v, endName[r.end], "%s%s", what, r.why.c_str()); return; }
  if (!r.leftovers.empty()) { say(v, "leftover", "%s%s (%zu in all)", what, r.leftovers[0].c_str(), r.leftovers.size()); return; }
  for (int k = 0; k < sc.nranks; ++k) {
    if (!r.ranks[k].finished) { say(v, "unfinished", "%srank %d did not finish", what, k); return; }
    for (size_t i = 0; i < r.ranks[k].steps.size(); ++i) if (r.ranks[k].steps[i].threw) { say(v, "exception", "%srank %d step %zu: %s", what, k, i, r.ranks[k].steps[i].what.c_str()); return; }
  }
}

bool meshesOf(Verdict& v, const Scenario& sc, const JobResult& r, int step, MeshSet& out) {
  if (v.bad) return false;
  out.s = &sc.steps[step]; out.m.clear(); out.comm = out.s->commInfo; out.L = extent(*out.s);
  for (int k = 0; k < sc.nranks; ++k) {
    if (step >= (int)r.ranks[k].steps.size() || !r.ranks[k].steps[step].done) { say(v, "unfinished", "rank %d has no result of step %d", k, step); return false; }
    out.m.push_back(&r.ranks[k].steps[step].mesh);
  }
  return true;
}

void checkCounts(Verdict& v, const MeshSet& ms, int dim) {
  for (size_t k = 0; k < ms.m.size() && !v.bad; ++k) {
    const size_t n = ms.s->gens[k].size()/dim;
    if (ms.m[k]->cells.size() != n) say(v, "cell_count", "rank %zu has %zu cells for its %zu generators", k, ms.m[k]->cells.size(), n);
  }
}

// 2d: cell c as a polygon walked along its faces
bool cellPoly(const MeshDump& m, size_t c, Poly& out, std::string& why) {
  out.clear();
  const std::vector<int>& f = m.cells[c];
  char b[200];
  if (f.size() < 3) { snprintf(b, sizeof b, "cell %zu has %zu faces", c, f.size()); why = b; return false; }
  for (size_t k = 0; k < f.size(); ++k) {
    const int fi = f[k] < 0 ? ~f[k] : f[k];
    if (fi < 0 || fi >= (int)m.faces.size()) { snprintf(b, sizeof b, "cell %zu refers to face %d of %zu", c, fi, m.faces.size()); why = b; return false; }
    if (m.faces[fi].size() != 2) { snprintf(b, sizeof b, "face %d has %zu nodes", fi, m.faces[fi].size()); why = b; return false; }
    const unsigned a = f[k] < 0 ? m.faces[fi][1] : m.faces[fi][0], e = f[k] < 0 ? m.faces[fi][0] : m.faces[fi][1];
    if (2ul*a + 1 >= m.nodes.size() || 2ul*e + 1 >= m.nodes.size()) { snprintf(b, sizeof b, "face %d refers to a node beyond %zu", fi, m.nodes.size()/2); why = b; return false; }
    const int gi = f[(k + 1) % f.size()]; const int gj = gi < 0 ? ~gi : gi;
    if (gj < 0 || gj >= (int)m.faces.size() || m.faces[gj].size() != 2) { snprintf(b, sizeof b, "cell %zu refers to an invalid face", c); why = b; return false; }
    const unsigned nx = gi < 0 ? m.faces[gj][1] : m.faces[gj][0];
    if (nx != e) { snprintf(b, sizeof b, "cell %zu: face %zu of its loop ends at node %u but the next one starts at node %u", c, k, e, nx); why = b; return false; }
    out.push_back(node(m, a));
  }
  return true;
}

static bool cell3(const MeshDump& m, size_t c, Poly3& out, std::string& why) {
  out.clear();
  char b[200];
  std::map<std::pair<unsigned, unsigned>, int> edge;
  if (m.cells[c].size() < 4) { snprintf(b, sizeof b, "cell %zu has %zu faces", c, m.cells[c].size()); why = b; return false; }
  for (size_t k = 0; k < m.cells[c].size(); ++k) {
    const int raw = m.cells[c][k], fi = raw < 0 ? ~raw : raw;
    if (fi >= (int)m.faces.size()) { snprintf(b, sizeof b, "cell %zu refers to face %d of %zu", c, fi, m.faces.size()); why = b; return false; }
    std::vector<unsigned> q = m.faces[fi];
    if (q.size() < 3) { snprintf(b, sizeof b, "face %d has %zu nodes", fi, q.size()); why = b; return false; }
    if (raw < 0) std::reverse(q.begin(), q.end());
    Face3 f; f.tag = fi;
    for (size_t i = 0; i < q.size(); ++i) {
      if (3ul*q[i] + 2 >= m.nodes.size()) { snprintf(b, sizeof b, "face %d refers to a node beyond %zu", fi, m.nodes.size()/3); why = b; return false; }
      f.v.push_back(node3(m, q[i]));
      edge[std::make_pair(q[i], q[(i + 1) % q.size()])]++;
    }
    out.push_back(f);
  }
  for (std::map<std::pair<unsigned, unsigned>, int>::iterator e = edge.begin(); e != edge.end(); ++e) {
    std::map<std::pair<unsigned, unsigned>, int>::iterator o = edge.find(std::make_pair(e->first.second, e->first.first));
    if (e->second != 1 || o == edge.end() || o->second != 1) { snprintf(b, sizeof b, "cell %zu is not closed at the edge between nodes %u and %u", c, e->first.first, e->first.second); why = b; return false; }
  }
  return true;
}

static bool localTopology(const MeshDump& m, int dim, std::string& why, bool oriented) {
  char b[200];
  if (m.nodes.size() % dim) { why = "odd number of coordinates"; return false; }
  for (size_t i = 0; i < m.nodes.size(); ++i) if (!std::isfinite(m.nodes[i])) { snprintf(b, sizeof b, "node %zu is not finite", i/dim); why = b; return false; }
  Poly p; Poly3 q;
  for (size_t c = 0; c < m.cells.size(); ++c) {
    if (dim == 2) {
      if (!cellPoly(m, c, p, why)) return false;
      if (oriented && !(area(p) > 0)) { snprintf(b, sizeof b, "cell %zu is not a positively oriented loop (area %g)", c, area(p)); why = b; return false; }
    } else {
      if (!cell3(m, c, q, why)) return false;
      if (!(volume3(q) > 0)) { snprintf(b, sizeof b, "cell %zu is not positively oriented (volume %g)", c, volume3(q)); why = b; return false; }
    }
  }
  if (m.faceCells.size() != m.faces.size()) { snprintf(b, sizeof b, "%zu faces but %zu face-cell entries", m.faces.size(), m.faceCells.size()); why = b; return false; }
  std::vector<std::set<int> > fc(m.faces.size());
  std::vector<char> used(m.nodes.size()/dim, 0);
  for (size_t c = 0; c < m.cells.size(); ++c) for (size_t k = 0; k < m.cells[c].size(); ++k) {
    const int f = m.cells[c][k] < 0 ? ~m.cells[c][k] : m.cells[c][k];
    if (!fc[f].insert(m.cells[c][k] < 0 ? ~(int)c : (int)c).second) { snprintf(b, sizeof b, "face %d twice in cell %zu", f, c); why = b; return false; }
  }
  for (size_t f = 0; f < m.faces.size(); ++f) {
    if (fc[f].empty()) { snprintf(b, sizeof b, "face %zu belongs to no cell", f); why = b; return false; }
    if (fc[f].size() > 2) { snprintf(b, sizeof b, "face %zu belongs to %zu cells", f, fc[f].size()); why = b; return false; }
    std::set<int> have(m.faceCells[f].begin(), m.faceCells[f].end());
    if (have != fc[f] || have.size() != m.faceCells[f].size()) { snprintf(b, sizeof b, "face %zu: its list of cells does not match the cells that list it", f); why = b; return false; }
    if (fc[f].size() == 2 && (*fc[f].begin() < 0) == (*fc[f].rbegin() < 0)) { snprintf(b, sizeof b, "face %zu is oriented the same way in both of its cells", f); why = b; return false; }
    for (size_t k = 0; k < m.faces[f].size(); ++k) {
      if (m.faces[f][k] >= used.size()) { snprintf(b, sizeof b, "face %zu refers to a node beyond %zu", f, used.size()); why = b; return false; }
      used[m.faces[f][k]] = 1;
    }
  }
  for (size_t i = 0; i < used.size(); ++i) if (!used[i]) { snprintf(b, sizeof b, "node %zu belongs to no face", i); why = b; return false; }
  return true;
}

// Structure of each rank's own mesh.
void checkLocal(Verdict& v, const MeshSet& ms, int dim, bool oriented) {
  std::string why;
  for (size_t k = 0; k < ms.m.size() && !v.bad; ++k) if (!localTopology(*ms.m[k], dim, why, oriented)) say(v, "topology", "rank %zu: %s", k, why.c_str());
}

// The boundary lists name exactly the faces with one cell and their nodes.
void checkBoundary(Verdict& v, const MeshSet& ms) {
  for (size_t k = 0; k < ms.m.size() && !v.bad; ++k) {
    const MeshDump& m = *ms.m[k];
    std::set<unsigned> bf, bn;
    for (size_t f = 0; f < m.faceCells.size(); ++f) if (m.faceCells[f].size() == 1) { bf.insert(f); bn.insert(m.faces[f].begin(), m.faces[f].end()); }
    const std::set<unsigned> hf(m.boundaryFaces.begin(), m.boundaryFaces.end()), hn(m.boundaryNodes.begin(), m.boundaryNodes.end());
    if (hf.size() != m.boundaryFaces.size() || hn.size() != m.boundaryNodes.size()) { say(v, "boundary", "rank %zu lists a boundary element twice", k); return; }
    if (hf != bf) { say(v, "boundary", "rank %zu lists %zu boundary faces, %zu faces have a single cell, and the lists differ", k, hf.size(), bf.size()); return; }
    if (hn != bn) { say(v, "boundary", "rank %zu lists %zu boundary nodes where the boundary faces have %zu, and the lists differ", k, hn.size(), bn.size()); return; }
  }
}

static bool voronoiOne(Verdict& v, const MeshSet& ms, const std::vector<P2>& all, size_t k, size_t i, size_t id, const Poly& region) {
  Poly p; std::string why;
  if (!cellPoly(*ms.m[k], i, p, why)) { say(v, "topology", "rank %zu: %s", k, why.c_str()); return false; }
  const Poly q = voronoiCell(all, id, region);
  if (ms.s->mode == UNBOUNDED) for (size_t c = 0; c < q.size(); ++c) if (distToBoundary(q[c], region) < 1e-9*ms.L) return true;   // reaches infinity, or far out
  const double h = hausdorff(p, q);
  if (!(h < 1e-5*ms.L)) { say(v, "geometry", "rank %zu cell %zu differs from the Voronoi cell of its generator (%.17g, %.17g) by %g of the domain size", k, i, all[id].x, all[id].y, h/ms.L); return false; }
  return true;
}

// Every cell is the Voronoi cell of its generator among the generators of all
// ranks, cut to a convex domain.
void checkVoronoi(Verdict& v, const MeshSet& ms) {
  if (v.bad) return;
  std::vector<P2> all; std::vector<int> own; allGenerators(*ms.s, all, own);
  const Poly region = regionOf(*ms.s);
  size_t id = 0;
  for (size_t k = 0; k < ms.m.size(); ++k) for (size_t i = 0; 2*i < ms.s->gens[k].size(); ++i, ++id)
    if (!voronoiOne(v, ms, all, k, i, id, region)) return;
}

void checkVoronoi3(Verdict& v, const MeshSet& ms) {
  if (v.bad) return;
  std::vector<P3> all;
  for (size_t k = 0; k < ms.s->gens.size(); ++k) for (size_t i = 0; 3*i < ms.s->gens[k].size(); ++i) all.push_back(mk3(ms.s->gens[k][3*i], ms.s->gens[k][3*i+1], ms.s->gens[k][3*i+2]));
  size_t id = 0;
  const double L = ms.L;
  for (size_t k = 0; k < ms.m.size(); ++k) for (size_t i = 0; 3*i < ms.s->gens[k].size(); ++i, ++id) {
    Poly3 p; std::string why;
    if (!cell3(*ms.m[k], i, p, why)) { say(v, "topology", "rank %zu: %s", k, why.c_str()); return; }
    const Poly3 q = voronoiCell3(all, id, ms.s->low, ms.s->high);
    const double a = volume3(p), b = volume3(q);
    if (!(fabs(a - b) < 1e-6*L*L*L)) { say(v, "geometry", "rank %zu cell %zu has volume %.9g, the Voronoi cell of its generator has %.9g", k, i, a, b); return; }
    // every vertex of one is a vertex of the other
    for (int dir = 0; dir < 2; ++dir) {
      const Poly3& x = dir ? q : p; const Poly3& y = dir ? p : q;
      for (size_t f = 0; f < x.size(); ++f) for (size_t c = 0; c < x[f].v.size(); ++c) {
        double best = 1e300;
        for (size_t g2 = 0; g2 < y.size(); ++g2) for (size_t e = 0; e < y[g2].v.size(); ++e) best = std::min(best, dist3(x[f].v[c], y[g2].v[e]));
        if (!(best < 1e-5*L)) { say(v, "geometry", "rank %zu cell %zu: a vertex is %g of the domain size away from the Voronoi cell of its generator", k, i, best/L); return; }
      }
    }
  }
}

// The cells tile a domain of any shape; per cell: each has the area of its
// Voronoi cell inside the domain.
void checkArea(Verdict& v, const MeshSet& ms, bool perCell) {
  if (v.bad) return;
  std::vector<P2> all; std::vector<int> own; allGenerators(*ms.s, all, own);
  std::vector<Poly> loops; loopsOf(*ms.s, loops);
  std::vector<double> want; double dom;
  clippedAreas(all, loops, want, dom);
  double shortest;
  if (perCell && clippedShape(all, loops, shortest) > 1) perCell = false;      // pieces go to neighbouring cells
  double tot = 0; size_t id = 0;
  for (size_t k = 0; k < ms.m.size(); ++k) for (size_t i = 0; 2*i < ms.s->gens[k].size(); ++i, ++id) {
    Poly p; std::string why;
    if (!cellPoly(*ms.m[k], i, p, why)) { say(v, "topology", "rank %zu: %s", k, why.c_str()); return; }
    const double a = area(p);
    tot += a;
    if (perCell && !(fabs(a - want[id]) < 1e-6*ms.L*ms.L)) { say(v, "cell_area", "rank %zu cell %zu has area %.9g, its Voronoi cell inside the domain has %.9g", k, i, a, want[id]); return; }
    for (size_t c = 0; c < p.size(); ++c) {
      double d = 1e300;
      for (size_t l = 0; l < loops.size(); ++l) d = std::min(d, distToBoundary(p[c], loops[l]));
      bool in = inside(p[c], loops[0]);
      for (size_t l = 1; l < loops.size(); ++l) in = in && !inside(p[c], loops[l]);
      if (!in && d > 1e-5*ms.L) { say(v, "outside", "rank %zu cell %zu has a vertex (%.9g, %.9g) outside the domain", k, i, p[c].x, p[c].y); return; }
    }
  }
  if (!(fabs(tot - dom) < 1e-6*ms.L*ms.L)) say(v, "conservation", "the cells of all ranks add up to %.9g, the domain has %.9g", tot, dom);
}

// Is a vertex shared by four or more cells whose generators lie on a circle only
// up to rounding?  Which of those cells touch there is then decided by rounding,
// except on a lattice along the axes, where the tie is exact on every rank.
bool tied(const Step& s, double x, double y, double L) {
  std::vector<P2> g; std::vector<double> d;
  for (size_t k = 0; k < s.gens.size(); ++k) for (size_t i = 0; i + 1 < s.gens[k].size(); i += 2) { g.push_back(mk(s.gens[k][i], s.gens[k][i+1])); d.push_back(hypot(g.back().x - x, g.back().y - y)); }
  if (d.empty()) return false;
  const double d0 = *std::min_element(d.begin(), d.end());
  std::vector<P2> on;
  for (size_t i = 0; i < d.size(); ++i) if (d[i] < d0 + 1e-7*L) on.push_back(g[i]);
  if (on.size() < 4) return false;
  std::set<double> xs, ys;
  for (size_t i = 0; i < on.size(); ++i) { xs.insert(on[i].x); ys.insert(on[i].y); }
  return !(on.size() == 4 && xs.size() == 2 && ys.size() == 2);
}

bool anyTied(const Step& s, const std::vector<const MeshDump*>& ms, double L) {
  for (size_t k = 0; k < ms.size(); ++k) for (size_t a = 0; 2*a + 1 < ms[k]->nodes.size(); ++a) if (tied(s, ms[k]->nodes[2*a], ms[k]->nodes[2*a+1], L)) return true;
  return false;
}

// Neighbour lists and shared lists of all ranks against each other and against
// the geometry.
void checkComm(Verdict& v, const MeshSet& ms, int dim, bool complete) {
  if (v.bad) return;
  const int n = ms.m.size();
  for (int k = 0; k < n; ++k) {
    const MeshDump& m = *ms.m[k];
    const size_t nn = m.neighborDomains.size();
    if (m.sharedNodes.size() != nn || m.sharedFaces.size() != nn) { say(v, "comm_shape", "rank %d has %zu neighbours but %zu node and %zu face lists", k, nn, m.sharedNodes.size(), m.sharedFaces.size()); return; }
    for (size_t i = 0; i < nn; ++i) {
      const int o = m.neighborDomains[i];
      if (o < 0 || o >= n || o == k) { say(v, "comm_neighbour", "rank %d lists %d as a neighbour", k, o); return; }
      for (size_t j = 0; j < i; ++j) if (m.neighborDomains[j] == m.neighborDomains[i]) { say(v, "comm_neighbour", "rank %d lists neighbour %d twice", k, o); return; }
      const std::set<unsigned> sn(m.sharedNodes[i].begin(), m.sharedNodes[i].end()), sf(m.sharedFaces[i].begin(), m.sharedFaces[i].end());
      if (sn.size() != m.sharedNodes[i].size() || sf.size() != m.sharedFaces[i].size()) { say(v, "comm_repeat", "rank %d lists an element twice as shared with rank %d", k, o); return; }
      if (!sn.empty() && dim*(*sn.rbegin() + 1ul) > m.nodes.size()) { say(v, "comm_range", "rank %d shares node %u of %zu with rank %d", k, *sn.rbegin(), m.nodes.size()/dim, o); return; }
      if (!sf.empty() && *sf.rbegin() >= m.faces.size()) { say(v, "comm_range", "rank %d shares face %u of %zu with rank %d", k, *sf.rbegin(), m.faces.size(), o); return; }
    }
  }
  for (int k = 0; k < n; ++k) {
    const MeshDump& m = *ms.m[k];
    for (size_t i = 0; i < m.neighborDomains.size(); ++i) {
      const int o = m.neighborDomains[i];
      const MeshDump& q = *ms.m[o];
      const size_t j = std::find(q.neighborDomains.begin(), q.neighborDomains.end(), (unsigned)k) - q.neighborDomains.begin();
      if (j == q.neighborDomains.size()) { say(v, "comm_asymmetric", "rank %d lists %d as a neighbour but not the reverse", k, o); return; }
      if (o < k) continue;
      const std::vector<unsigned> &a = m.sharedNodes[i], &b = q.sharedNodes[j], &fa = m.sharedFaces[i], &fb = q.sharedFaces[j];
      if (a.size() != b.size() || fa.size() != fb.size()) { say(v, "comm_counts", "ranks %d and %d disagree on what they share: %zu and %zu nodes, %zu and %zu faces", k, o, a.size(), b.size(), fa.size(), fb.size()); return; }
      std::map<unsigned, unsigned> to;
      for (size_t t = 0; t < a.size(); ++t) {
        const double d = apart(m, a[t], q, b[t], dim);
        if (!(d < 1e-5*ms.L)) { say(v, "comm_node", "shared node %zu of ranks %d and %d: the two copies are %g of the domain size apart", t, k, o, d/ms.L); return; }
        to[a[t]] = b[t];
      }
      for (size_t t = 0; t < fa.size(); ++t) {
        std::set<unsigned> x, y(q.faces[fb[t]].begin(), q.faces[fb[t]].end());
        for (size_t c = 0; c < m.faces[fa[t]].size(); ++c) {
          std::map<unsigned, unsigned>::iterator it = to.find(m.faces[fa[t]][c]);
          if (it == to.end()) { say(v, "comm_face", "shared face %zu of ranks %d and %d has a node that is not shared", t, k, o); return; }
          x.insert(it->second);
        }
        if (x != y) { say(v, "comm_face", "shared face %zu of ranks %d and %d: the two copies have different nodes", t, k, o); return; }
        if (m.faceCells[fa[t]].size() != 1 || q.faceCells[fb[t]].size() != 1) { say(v, "comm_face", "shared face %zu of ranks %d and %d is interior to one of them", t, k, o); return; }
      }
    }
  }
  if (!complete) return;
  // completeness: whatever two ranks have in common is listed
  for (int k = 0; k < n; ++k) for (int o = k + 1; o < n; ++o) {
    const MeshDump &m = *ms.m[k], &q = *ms.m[o];
    const size_t nk = m.nodes.size()/dim, no = q.nodes.size()/dim;
    std::vector<std::pair<double, unsigned> > byx;
    for (size_t b = 0; b < no; ++b) byx.push_back(std::make_pair(q.nodes[dim*b], b));
    std::sort(byx.begin(), byx.end());
    const size_t i = std::find(m.neighborDomains.begin(), m.neighborDomains.end(), (unsigned)o) - m.neighborDomains.begin();
    std::set<unsigned> sn, sf;
    if (i < m.neighborDomains.size()) { sn.insert(m.sharedNodes[i].begin(), m.sharedNodes[i].end()); sf.insert(m.sharedFaces[i].begin(), m.sharedFaces[i].end()); }
    std::map<unsigned, unsigned> to;
    for (size_t a = 0; a < nk; ++a) {
      const double x = m.nodes[dim*a];
      for (size_t t = std::lower_bound(byx.begin(), byx.end(), std::make_pair(x - 1e-7*ms.L, 0u)) - byx.begin(); t < byx.size() && byx[t].first < x + 1e-7*ms.L; ++t)
        if (apart(m, a, q, byx[t].second, dim) < 1e-7*ms.L) {
          to[a] = byx[t].second;
          if (!sn.count(a)) {
            // an exactly degenerate vertex may be two nodes a rounding error apart, of which only one is common
            bool twin = false;
            for (size_t c = 0; c < nk && !twin; ++c) twin = c != a && apart(m, a, m, c, dim) < 1e-6*ms.L;
            for (size_t c = 0; c < no && !twin; ++c) twin = c != byx[t].second && apart(q, byx[t].second, q, c, dim) < 1e-6*ms.L;
            if (twin || (dim == 2 && tied(*ms.s, m.nodes[2*a], m.nodes[2*a+1], ms.L))) { to.erase(a); continue; }
            say(v, "comm_missing_node", "node %zu of rank %d and node %u of rank %d coincide but are not listed as shared", a, k, byx[t].second, o); return;
          }
        }
    }
    std::map<std::set<unsigned>, unsigned> faceOf;
    for (size_t f = 0; f < q.faces.size(); ++f) faceOf[std::set<unsigned>(q.faces[f].begin(), q.faces[f].end())] = f;
    for (size_t f = 0; f < m.faces.size(); ++f) {
      std::set<unsigned> y; bool all = true;
      for (size_t c = 0; c < m.faces[f].size() && all; ++c) { std::map<unsigned, unsigned>::iterator it = to.find(m.faces[f][c]); if (it == to.end()) all = false; else y.insert(it->second); }
      if (all && faceOf.count(y) && !sf.count(f)) { say(v, "comm_missing_face", "face %zu of rank %d is also a face of rank %d but is not listed as shared", f, k, o); return; }
    }
  }
}

// What the consistency check has to find: an exact comparison of the neighbour
// and shared node lists of all ranks with each other and with the positions.
bool commConsistent(const std::vector<const MeshDump*>& ms, double L, int dim, std::string& why) {
  const int n = ms.size();
  char b[200];
  for (int k = 0; k < n; ++k) for (size_t i = 0; i < ms[k]->neighborDomains.size(); ++i) {
    const unsigned o = ms[k]->neighborDomains[i];
    const MeshDump &m = *ms[k], &q = *ms[o];
    const size_t j = std::find(q.neighborDomains.begin(), q.neighborDomains.end(), (unsigned)k) - q.neighborDomains.begin();
    if (j == q.neighborDomains.size()) { snprintf(b, sizeof b, "rank %d lists rank %u but not the reverse", k, o); why = b; return false; }
    if (m.sharedNodes[i].size() != q.sharedNodes[j].size()) { snprintf(b, sizeof b, "ranks %d and %u share %zu and %zu nodes", k, o, m.sharedNodes[i].size(), q.sharedNodes[j].size()); why = b; return false; }
    for (size_t t = 0; t < m.sharedNodes[i].size(); ++t) if (!(apart(m, m.sharedNodes[i][t], q, q.sharedNodes[j][t], dim) < 1e-7*L)) { snprintf(b, sizeof b, "shared node %zu of ranks %d and %u is at different places", t, k, o); why = b; return false; }
  }
  for (int k = 0; k < n; ++k) for (int o = 0; o < n; ++o) if (o != k) {
    const MeshDump &m = *ms[k], &q = *ms[o];
    const size_t i = std::find(m.neighborDomains.begin(), m.neighborDomains.end(), (unsigned)o) - m.neighborDomains.begin();
    const bool listed = i < m.neighborDomains.size();
    std::set<unsigned> have, want;
    if (listed) have.insert(m.sharedNodes[i].begin(), m.sharedNodes[i].end());
    for (size_t a = 0; dim*a < m.nodes.size(); ++a) for (size_t c = 0; dim*c < q.nodes.size(); ++c) if (apart(m, a, q, c, dim) < 1e-7*L) { want.insert(a); break; }
    if (have != want || (listed && have.size() != m.sharedNodes[i].size())) { snprintf(b, sizeof b, "rank %d has %zu nodes in common with rank %d and lists %zu", k, want.size(), o, have.size()); why = b; return false; }
    if (listed && want.empty()) { snprintf(b, sizeof b, "ranks %d and %d list each other and have nothing in common", k, o); why = b; return false; }
  }
  return true;
}

// Both copies of a shared node have the same bits.
void checkBits(Verdict& v, const MeshSet& ms, int dim) {
  if (v.bad) return;
  const int n = ms.m.size();
  for (int k = 0; k < n; ++k) {
    const MeshDump& m = *ms.m[k];
    for (size_t i = 0; i < m.neighborDomains.size() && i < m.sharedNodes.size(); ++i) {
      const unsigned o = m.neighborDomains[i];
      if ((int)o >= n || (int)o <= k) continue;
      const MeshDump& q = *ms.m[o];
      const size_t j = std::find(q.neighborDomains.begin(), q.neighborDomains.end(), (unsigned)k) - q.neighborDomains.begin();
      if (j >= q.sharedNodes.size() || q.sharedNodes[j].size() != m.sharedNodes[i].size()) { say(v, "comm_counts", "ranks %d and %u disagree on what they share", k, o); return; }
      for (size_t t = 0; t < m.sharedNodes[i].size(); ++t) {
        const unsigned a = m.sharedNodes[i][t], b = q.sharedNodes[j][t];
        if (dim*(a + 1ul) > m.nodes.size() || dim*(b + 1ul) > q.nodes.size()) { say(v, "comm_range", "ranks %d and %u share a node that does not exist", k, o); return; }
        if (memcmp(&m.nodes[dim*a], &q.nodes[dim*b], dim*sizeof(double))) { say(v, "bits", "the coordinates of shared node %zu differ between ranks %d and %u by %g", t, k, o, apart(m, a, q, b, dim)); return; }
      }
    }
  }
}

// What editing the meshes of all ranks may change.
typedef std::pair<double, double> At;
static At at2(const MeshDump& m, unsigned i) { return At(m.nodes[2*i], m.nodes[2*i + 1]); }
void checkEdited(Verdict& v, const MeshSet& before, const MeshSet& after, const Step& edit) {
  if (v.bad) return;
  std::string why;
  double was = 0, is = 0;
  const bool del = edit.op == "delete";
  for (size_t k = 0; k < after.m.size(); ++k) {
    const MeshDump &a = *before.m[k], &b = *after.m[k];
    std::vector<size_t> kept;                            // where the cells were
    for (size_t c = 0; c < a.cells.size(); ++c) if (!del || (c + edit.iargs[1] + k) % edit.iargs[0] == 0) kept.push_back(c);
    if (kept.empty() && !a.cells.empty()) kept.push_back(a.cells.size() - 1);
    if (b.cells.size() != kept.size()) { say(v, "edit_count", "rank %zu has %zu cells after the edit, %zu remain", k, b.cells.size(), kept.size()); return; }
    std::map<At, int> here, still;
    for (size_t i = 0; 2*i + 1 < a.nodes.size(); ++i) here[at2(a, i)]++;
    for (size_t i = 0; 2*i + 1 < b.nodes.size(); ++i) {
      still[at2(b, i)]++;
      if (!here.count(at2(b, i))) { say(v, "edit_node", "rank %zu node %zu is at a place where no node was", k, i); return; }
    }
    std::vector<double> longest(a.cells.size(), 0);
    for (size_t c = 0; c < a.cells.size(); ++c) { Poly p; if (!cellPoly(a, c, p, why)) return; for (size_t i = 0; i < p.size(); ++i) longest[c] = std::max(longest[c], dist(p[i], p[(i + 1) % p.size()])); }
    for (size_t c = 0; c < kept.size(); ++c) {
      Poly p, q;
      cellPoly(a, kept[c], p, why);
      if (!cellPoly(b, c, q, why)) { say(v, "edit_topology", "rank %zu: %s (it had %zu faces)", k, why.c_str(), p.size()); return; }
      was += area(p); is += area(q);
      if (q.size() > p.size()) { say(v, "edit_cell", "rank %zu cell %zu has %zu faces after the edit and had %zu", k, c, q.size(), p.size()); return; }
      bool ok = !del || p.size() == q.size();
      for (size_t i = 0; i < p.size() && ok && del; ++i) ok = p[i].x == q[i].x && p[i].y == q[i].y;
      if (!ok) { say(v, "edit_cell", "rank %zu: cell %zu is not the cell %zu that was there before", k, c, kept[c]); return; }
    }
    if (del) {
      if (a.sharedNodes.size() != b.sharedNodes.size() || a.sharedFaces.size() != b.sharedFaces.size()) { say(v, "edit_shared", "rank %zu has another number of shared lists", k); return; }
      for (size_t d = 0; d < a.sharedNodes.size(); ++d) {
        std::vector<At> x, y;
        for (size_t i = 0; i < a.sharedNodes[d].size(); ++i) if (still.count(at2(a, a.sharedNodes[d][i]))) x.push_back(at2(a, a.sharedNodes[d][i]));
        for (size_t i = 0; i < b.sharedNodes[d].size(); ++i) { if (2ul*b.sharedNodes[d][i] + 1 >= b.nodes.size()) { say(v, "edit_shared", "rank %zu shares a node that does not exist", k); return; } y.push_back(at2(b, b.sharedNodes[d][i])); }
        if (x != y) { say(v, "edit_shared", "rank %zu: the nodes shared with its neighbour %zu are not those that remain of the list", k, d); return; }
      }
      continue;
    }
    // cleaning: removes only nodes of short edges, and every short edge that nothing protects
    const double tol = 1e-6*edit.iargs[0];
    const size_t nn = a.nodes.size()/2;
    std::vector<char> border(nn, 0);
    std::vector<int> shortAt(nn, 0), shortIn(a.cells.size(), 0);
    std::vector<double> len(a.faces.size()), lim(a.faces.size(), 0);
    for (size_t f = 0; f < a.faces.size(); ++f) {
      len[f] = apart(a, a.faces[f][0], a, a.faces[f][1], 2);
      for (size_t c = 0; c < a.faceCells[f].size(); ++c) lim[f] = std::max(lim[f], longest[a.faceCells[f][c] < 0 ? ~a.faceCells[f][c] : a.faceCells[f][c]]);
      if (a.faceCells[f].size() == 1) border[a.faces[f][0]] = border[a.faces[f][1]] = 1;
      if (len[f] < tol*lim[f]*(1 + 1e-9)) {
        shortAt[a.faces[f][0]]++; shortAt[a.faces[f][1]]++;
        for (size_t c = 0; c < a.faceCells[f].size(); ++c) shortIn[a.faceCells[f][c] < 0 ? ~a.faceCells[f][c] : a.faceCells[f][c]]++;
      }
    }
    for (size_t i = 0; i < nn; ++i) if (!still.count(at2(a, i)) && !shortAt[i]) { say(v, "edit_long", "rank %zu: node %zu was removed though none of its edges is short", k, i); return; }
    for (size_t f = 0; f < a.faces.size(); ++f) {
      const unsigned x = a.faces[f][0], y = a.faces[f][1];
      if (!(len[f] < tol*lim[f]*(1 - 1e-9)) || border[x] || border[y] || shortAt[x] > 1 || shortAt[y] > 1) continue;
      bool room = true;
      for (size_t c = 0; c < a.faceCells[f].size(); ++c) { const int e = a.faceCells[f][c] < 0 ? ~a.faceCells[f][c] : a.faceCells[f][c]; room = room && (int)a.cells[e].size() - shortIn[e] >= 3; }
      if (room && still.count(at2(a, x)) && still.count(at2(a, y)) && at2(a, x) != at2(a, y)) { say(v, "edit_missed", "rank %zu: an edge of length %g in cells with edges up to %g was not removed with tolerance %g", k, len[f], lim[f], tol); return; }
      v.reach["lone_short_edge"]++;
    }
  }
  if (!(fabs(was - is) < 1e-6*after.L*after.L)) say(v, "conservation", "the cells of all ranks add up to %.9g, before the edit to %.9g", is, was);
}

// Two meshes describe the same cells up to a tolerance: same cells as lists of
// faces with node positions, independent of how nodes and faces are numbered.
void checkSame(Verdict& v, const char* clause, const MeshDump& a, const MeshDump& b, const std::string& what, double tol, int dim) {
  if (v.bad) return;
  if (a.cells.size() != b.cells.size()) { say(v, clause, "%s: %zu and %zu cells", what.c_str(), a.cells.size(), b.cells.size()); return; }
  for (size_t c = 0; c < a.cells.size() && dim == 3; ++c) {
    Poly3 p, q; std::string why;
    if (!cell3(a, c, p, why) || !cell3(b, c, q, why)) { say(v, clause, "%s: %s", what.c_str(), why.c_str()); return; }
    if (p.size() != q.size()) { say(v, clause, "%s: cell %zu has %zu and %zu faces", what.c_str(), c, p.size(), q.size()); return; }
    for (size_t f = 0; f < p.size(); ++f) {                // the same face, begun at any of its corners
      bool ok = false;
      const size_t n = p[f].v.size();
      for (size_t g = 0; g < q.size() && !ok; ++g) if (q[g].v.size() == n)
        for (size_t r = 0; r < n && !ok; ++r) { ok = true; for (size_t i = 0; i < n && ok; ++i) ok = dist3(p[f].v[i], q[g].v[(i + r) % n]) < tol; }
      if (!ok) { say(v, clause, "%s: cell %zu has a face the other has not", what.c_str(), c); return; }
    }
  }
  for (size_t c = 0; c < a.cells.size() && dim == 2; ++c) {
    Poly p, q; std::string why;
    if (!cellPoly(a, c, p, why) || !cellPoly(b, c, q, why)) { say(v, clause, "%s: %s", what.c_str(), why.c_str()); return; }
    if (p.size() != q.size()) { say(v, clause, "%s: cell %zu has %zu and %zu faces", what.c_str(), c, p.size(), q.size()); return; }
    bool ok = false;
    for (size_t r = 0; r < p.size() && !ok; ++r) { ok = true; for (size_t i = 0; i < p.size() && ok; ++i) ok = dist(p[i], q[(i + r) % p.size()]) < tol; }
    if (!ok) { say(v, clause, "%s: cell %zu has different vertices", what.c_str(), c); return; }
  }
  if (a.nodes.size() != b.nodes.size() || a.faces.size() != b.faces.size()) say(v, clause, "%s: %zu and %zu nodes, %zu and %zu faces", what.c_str(), a.nodes.size()/dim, b.nodes.size()/dim, a.faces.size(), b.faces.size());
}

}
