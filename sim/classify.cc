// Exact answers for inputs with a general outline, and how far those inputs
// are from situations in which the answer is not unique or not stable.
#include "harness.hh"
#include "classify.hh"
#include <boost/polygon/polygon.hpp>

namespace bp = boost::polygon;
using namespace boost::polygon::operators;

namespace psim {
namespace {

typedef bp::polygon_with_holes_data<int> PG;
typedef std::vector<PG> PS;

struct Clip {
  double lx, ly, hx, hy, L, S;
  PS domain;
  Poly box;
  bp::point_data<int> pt(const P2& p) const { return bp::point_data<int>(int(floor((p.x - lx)*S + 0.5)), int(floor((p.y - ly)*S + 0.5))); }
  explicit Clip(const std::vector<Poly>& loops) {
    lx = ly = 1e300; hx = hy = -1e300;
    for (size_t i = 0; i < loops[0].size(); ++i) { lx = std::min(lx, loops[0][i].x); hx = std::max(hx, loops[0][i].x); ly = std::min(ly, loops[0][i].y); hy = std::max(hy, loops[0][i].y); }
    L = std::max(hx - lx, hy - ly); S = 4e8/L;
    for (size_t l = 0; l < loops.size(); ++l) {
      std::vector<bp::point_data<int> > q;
      for (size_t i = 0; i < loops[l].size(); ++i) q.push_back(pt(loops[l][i]));
      bp::polygon_data<int> p; bp::set_points(p, q.begin(), q.end());
      if (l == 0) domain += p; else domain -= p;
    }
    box.push_back(mk(lx - 0.5*L, ly - 0.5*L)); box.push_back(mk(hx + 0.5*L, ly - 0.5*L)); box.push_back(mk(hx + 0.5*L, hy + 0.5*L)); box.push_back(mk(lx - 0.5*L, hy + 0.5*L));
  }
  PS cell(const std::vector<P2>& gens, size_t i) const { return cellIn(gens, i, domain); }
  PS cellIn(const std::vector<P2>& gens, size_t i, const PS& domain) const {
    Poly c = voronoiCell(gens, i, box);
    std::vector<bp::point_data<int> > q;
    for (size_t k = 0; k < c.size(); ++k) q.push_back(pt(c[k]));
    bp::polygon_data<int> p; bp::set_points(p, q.begin(), q.end());
    PS cs; cs += p; cs &= domain;
    return cs;
  }
};

template<class It> void edges(It b, It e, double S, double& shortest) {
  std::vector<bp::point_data<int> > v(b, e);
  for (size_t i = 0; i < v.size(); ++i) {
    const bp::point_data<int>& w = v[(i + 1) % v.size()];
    const double d = hypot(double(v[i].x()) - w.x(), double(v[i].y()) - w.y())/S;
    if (d > 0) shortest = std::min(shortest, d);
  }
}

}

int clippedShape(const std::vector<P2>& gens, const std::vector<Poly>& loops, double& shortest, int* extra, std::vector<P2>* verts) {
  Clip c(loops);
  int worst = 0; shortest = 1e300;
  if (extra) *extra = 0;
  for (size_t i = 0; i < gens.size(); ++i) {
    PS cs = c.cell(gens, i);
    worst = std::max(worst, (int)cs.size());
    if (extra && cs.size() > 1) *extra += cs.size() - 1;
    for (size_t k = 0; k < cs.size(); ++k) {
      if (cs[k].begin_holes() != cs[k].end_holes()) { worst = std::max(worst, 2); if (extra) *extra += 100; }    // a hole inside one cell
      edges(cs[k].begin(), cs[k].end(), c.S, shortest);
      if (verts) for (PG::iterator_type v = cs[k].begin(); v != cs[k].end(); ++v) verts->push_back(mk(c.lx + (*v).x()/c.S, c.ly + (*v).y()/c.S));
    }
  }
  return worst;
}

// Cells fall into pieces.  A piece without its generator goes to the cells that
// touch it at a vertex, which share it out like a Voronoi diagram of their
// generators, one piece after another.  Does every cell end up with a single
// piece, in whatever order the pieces are shared out?
static bool adoptOne(const Clip& c, const std::vector<P2>& gens, const PG& orphan, std::vector<PG>& own, std::vector<std::vector<bp::point_data<int> > >& seen) {
  PS local; local += orphan;
  std::vector<P2> near; std::vector<size_t> id;
  for (size_t i = 0; i < gens.size(); ++i) {
    bool touch = false;
    for (PG::iterator_type a = orphan.begin(); a != orphan.end() && !touch; ++a) for (size_t b = 0; b < seen[i].size() && !touch; ++b)
      touch = labs(long((*a).x()) - seen[i][b].x()) <= 40 && labs(long((*a).y()) - seen[i][b].y()) <= 40;
    if (touch) { local += own[i]; near.push_back(gens[i]); id.push_back(i); }
  }
  // close the slivers rounding leaves between neighbours
  bp::bloat(local, 8); bp::shrink(local, 8);
  PS tmp; bp::assign(tmp, local);
  if (tmp.size() != 1) return false;
  for (size_t i = 0; i < near.size(); ++i) {
    PS p = c.cellIn(near, i, tmp), q, full = p;
    bp::shrink(p, 64); bp::assign(q, p);
    if (q.size() != 1 || q[0].begin_holes() != q[0].end_holes() || full.empty()) return false;
    size_t big = 0;
    for (size_t k = 1; k < full.size(); ++k) if (bp::area(full[k]) > bp::area(full[big])) big = k;
    own[id[i]] = full[big];
    seen[id[i]].insert(seen[id[i]].end(), full[big].begin(), full[big].end());
  }
  return true;
}

bool adoptable(const std::vector<P2>& gens, const std::vector<Poly>& loops) {
  Clip c(loops);
  std::vector<PG> own(gens.size()), orphans;
  std::vector<std::vector<bp::point_data<int> > > seen(gens.size());
  PS loose;
  for (size_t i = 0; i < gens.size(); ++i) {
    PS p = c.cell(gens, i);
    int mine = 0;
    for (size_t k = 0; k < p.size(); ++k) {
      if (p.size() == 1 || bp::contains(p[k], c.pt(gens[i]))) { own[i] = p[k]; ++mine; } else loose += p[k];
    }
    if (mine != 1) return false;
    seen[i].insert(seen[i].end(), own[i].begin(), own[i].end());
  }
  // pieces that touch along an edge become one, and those that only nearly do are too close to call
  PS joined = loose, apart; bp::bloat(joined, 8); bp::shrink(joined, 8); bp::assign(orphans, joined);
  apart = loose; bp::bloat(apart, 2000); std::vector<PG> wide; bp::assign(wide, apart);
  if (orphans.empty() || orphans.size() > 3 || wide.size() != orphans.size()) return false;
  for (size_t k = 0; k < orphans.size(); ++k) if (orphans[k].begin_holes() != orphans[k].end_holes()) return false;
  std::vector<int> order;
  for (size_t k = 0; k < orphans.size(); ++k) order.push_back(k);
  do {
    std::vector<PG> o = own; std::vector<std::vector<bp::point_data<int> > > s = seen;
    for (size_t k = 0; k < order.size(); ++k) if (!adoptOne(c, gens, orphans[order[k]], o, s)) return false;
  } while (std::next_permutation(order.begin(), order.end()));
  return true;
}

void clippedTouch(const std::vector<P2>& gens, const std::vector<Poly>& loops, std::vector<std::vector<char> >& touch) {
  Clip c(loops);
  const size_t n = gens.size();
  std::vector<Poly> cs(n);
  touch.assign(n, std::vector<char>(n, 0));
  for (size_t i = 0; i < n; ++i) { PS p = c.cell(gens, i); for (size_t k = 0; k < p.size(); ++k) for (PG::iterator_type v = p[k].begin(); v != p[k].end(); ++v) cs[i].push_back(mk((*v).x(), (*v).y())); }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) {
    bool t = false;
    for (size_t a = 0; a < cs[i].size() && !t; ++a) t = distToBoundary(cs[i][a], cs[j]) < 40;
    for (size_t a = 0; a < cs[j].size() && !t; ++a) t = distToBoundary(cs[j][a], cs[i]) < 40;
    touch[i][j] = touch[j][i] = t;
  }
}

void clippedAreas(const std::vector<P2>& gens, const std::vector<Poly>& loops, std::vector<double>& cellArea, double& domainArea) {
  Clip c(loops);
  cellArea.clear();
  const double k = 1/(c.S*c.S);
  for (size_t i = 0; i < gens.size(); ++i) { PS cs = c.cell(gens, i); cellArea.push_back(k*double(bp::area(cs))); }
  domainArea = fabs(area(loops[0]));
  for (size_t l = 1; l < loops.size(); ++l) domainArea -= fabs(area(loops[l]));
}

}
