// Independent geometry used by the oracles.  Nothing here comes from the
// repository under test.
#ifndef POLYSIM_GEOM_HH
#define POLYSIM_GEOM_HH
#include <math.h>
#include <algorithm>
#include <vector>

namespace psim {

struct P2 { double x, y; };
typedef std::vector<P2> Poly;
inline P2 mk(double x, double y) { P2 p = { x, y }; return p; }
inline double cross(const P2& a, const P2& b, const P2& c) { return (b.x - a.x)*(c.y - a.y) - (b.y - a.y)*(c.x - a.x); }
inline double dist(const P2& a, const P2& b) { return hypot(a.x - b.x, a.y - b.y); }
inline double area(const Poly& p) {
  double s = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    const P2& a = p[i]; const P2& b = p[(i + 1) % p.size()];
    s += (a.x - p[0].x)*(b.y - p[0].y) - (a.y - p[0].y)*(b.x - p[0].x);
  }
  return 0.5*s;
}
// keep the part nearer to a than to b
inline Poly clipBisector(const Poly& p, const P2& a, const P2& b) {
  Poly out;
  const double nx = b.x - a.x, ny = b.y - a.y, mx = 0.5*(a.x + b.x), my = 0.5*(a.y + b.y);
  const size_t n = p.size();
  for (size_t i = 0; i < n; ++i) {
    const P2& u = p[i]; const P2& v = p[(i + 1) % n];
    const double du = (u.x - mx)*nx + (u.y - my)*ny, dv = (v.x - mx)*nx + (v.y - my)*ny;
    if (du <= 0) out.push_back(u);
    if ((du < 0 && dv > 0) || (du > 0 && dv < 0)) {
      const double t = du/(du - dv);
      out.push_back(mk(u.x + t*(v.x - u.x), u.y + t*(v.y - u.y)));
    }
  }
  return out;
}
inline double distToSegment(const P2& p, const P2& a, const P2& b) {
  const double dx = b.x - a.x, dy = b.y - a.y, l2 = dx*dx + dy*dy;
  double t = l2 > 0 ? ((p.x - a.x)*dx + (p.y - a.y)*dy)/l2 : 0;
  t = t < 0 ? 0 : t > 1 ? 1 : t;
  return dist(p, mk(a.x + t*dx, a.y + t*dy));
}
inline double distToBoundary(const P2& p, const Poly& q) {
  double d = 1e300;
  for (size_t i = 0; i < q.size(); ++i) d = std::min(d, distToSegment(p, q[i], q[(i + 1) % q.size()]));
  return d;
}
inline bool inside(const P2& p, const Poly& q) {
  bool in = false;
  for (size_t i = 0, j = q.size() - 1; i < q.size(); j = i++)
    if ((q[i].y > p.y) != (q[j].y > p.y) && p.x < (q[j].x - q[i].x)*(p.y - q[i].y)/(q[j].y - q[i].y) + q[i].x) in = !in;
  return in;
}
// largest distance between the boundaries of two polygons (both directions)
inline double hausdorff(const Poly& a, const Poly& b) {
  double d = 0;
  for (size_t i = 0; i < a.size(); ++i) d = std::max(d, distToBoundary(a[i], b));
  for (size_t i = 0; i < b.size(); ++i) d = std::max(d, distToBoundary(b[i], a));
  return d;
}
inline bool convex(const Poly& p) {
  for (size_t i = 0; i < p.size(); ++i) if (cross(p[i], p[(i + 1) % p.size()], p[(i + 2) % p.size()]) < -1e-12) return false;
  return true;
}
// Exact Voronoi cell of gens[i] inside a convex region.
inline Poly voronoiCell(const std::vector<P2>& gens, size_t i, const Poly& region) {
  Poly p = region;
  // nearest first keeps the polygon small
  std::vector<std::pair<double, size_t> > o;
  for (size_t j = 0; j < gens.size(); ++j) if (j != i) o.push_back(std::make_pair(dist(gens[i], gens[j]), j));
  std::sort(o.begin(), o.end());
  for (size_t k = 0; k < o.size() && !p.empty(); ++k) {
    double r = 0;
    for (size_t v = 0; v < p.size(); ++v) r = std::max(r, dist(p[v], gens[i]));
    if (o[k].first > 2*r*(1 + 1e-12)) break;
    p = clipBisector(p, gens[i], gens[o[k].second]);
  }
  return p;
}

}
#endif
