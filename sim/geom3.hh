// Convex polyhedra, for the 3d reference answers and the 3d stand-in for the
// serial tessellator (TetGen is not installed).  Independent of the repository.
#ifndef POLYSIM_GEOM3_HH
#define POLYSIM_GEOM3_HH
#include <math.h>
#include <algorithm>
#include <vector>

namespace psim {

struct P3 { double c[3]; };
inline P3 mk3(double x, double y, double z) { P3 p; p.c[0] = x; p.c[1] = y; p.c[2] = z; return p; }
inline P3 sub(const P3& a, const P3& b) { return mk3(a.c[0]-b.c[0], a.c[1]-b.c[1], a.c[2]-b.c[2]); }
inline double dot(const P3& a, const P3& b) { return a.c[0]*b.c[0] + a.c[1]*b.c[1] + a.c[2]*b.c[2]; }
inline P3 cross3(const P3& a, const P3& b) { return mk3(a.c[1]*b.c[2]-a.c[2]*b.c[1], a.c[2]*b.c[0]-a.c[0]*b.c[2], a.c[0]*b.c[1]-a.c[1]*b.c[0]); }
inline double dist3(const P3& a, const P3& b) { P3 d = sub(a, b); return sqrt(dot(d, d)); }

struct Face3 { std::vector<P3> v; int tag; };          // counterclockwise seen from outside; tag: what made it
typedef std::vector<Face3> Poly3;

inline Poly3 box3(const double* lo, const double* hi) {
  Poly3 p;
  for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) {
    const int a = (d + 1) % 3, b = (d + 2) % 3;
    Face3 f; f.tag = -1 - (2*d + s);
    const int u[4] = { 0, 1, 1, 0 }, w[4] = { 0, 0, 1, 1 };
    for (int k = 0; k < 4; ++k) { const int j = s ? k : 3 - k; P3 q; q.c[d] = s ? hi[d] : lo[d]; q.c[a] = u[j] ? hi[a] : lo[a]; q.c[b] = w[j] ? hi[b] : lo[b]; f.v.push_back(q); }
    p.push_back(f);
  }
  return p;
}

// Keep the side n.x <= d; the new face carries the tag.
inline Poly3 clip3(const Poly3& p, const P3& n, double d, int tag, double eps) {
  bool any = false;
  for (size_t f = 0; f < p.size() && !any; ++f) for (size_t k = 0; k < p[f].v.size(); ++k) if (dot(n, p[f].v[k]) - d > eps) { any = true; break; }
  if (!any) return p;
  Poly3 out; std::vector<P3> rim;
  for (size_t f = 0; f < p.size(); ++f) {
    Face3 q; q.tag = p[f].tag;
    const std::vector<P3>& v = p[f].v;
    for (size_t k = 0; k < v.size(); ++k) {
      const P3& a = v[k]; const P3& b = v[(k + 1) % v.size()];
      const double da = dot(n, a) - d, db = dot(n, b) - d;
      if (da <= eps) { q.v.push_back(a); if (da >= -eps) rim.push_back(a); }
      if ((da < -eps && db > eps) || (da > eps && db < -eps)) {
        const double t = da/(da - db);
        P3 x = mk3(a.c[0] + t*(b.c[0]-a.c[0]), a.c[1] + t*(b.c[1]-a.c[1]), a.c[2] + t*(b.c[2]-a.c[2]));
        q.v.push_back(x); rim.push_back(x);
      }
    }
    if (q.v.size() >= 3) out.push_back(q);
  }
  // order the rim around its centre
  std::vector<P3> r;
  for (size_t i = 0; i < rim.size(); ++i) { bool dup = false; for (size_t j = 0; j < r.size() && !dup; ++j) dup = dist3(r[j], rim[i]) < 4*eps; if (!dup) r.push_back(rim[i]); }
  if (r.size() >= 3) {
    P3 c = mk3(0, 0, 0);
    for (size_t i = 0; i < r.size(); ++i) for (int k = 0; k < 3; ++k) c.c[k] += r[i].c[k]/r.size();
    P3 u = sub(r[0], c), w = cross3(n, u);
    std::vector<std::pair<double, size_t> > o;
    for (size_t i = 0; i < r.size(); ++i) { P3 e = sub(r[i], c); o.push_back(std::make_pair(atan2(dot(e, w)/sqrt(dot(w, w)), dot(e, u)/sqrt(dot(u, u))), i)); }
    std::sort(o.begin(), o.end());
    Face3 q; q.tag = tag;
    for (size_t i = 0; i < o.size(); ++i) q.v.push_back(r[o[i].second]);
    out.push_back(q);
  }
  return out;
}

inline Poly3 voronoiCell3(const std::vector<P3>& g, size_t i, const double* lo, const double* hi) {
  Poly3 p = box3(lo, hi);
  const double L = std::max(hi[0]-lo[0], std::max(hi[1]-lo[1], hi[2]-lo[2]));
  std::vector<std::pair<double, size_t> > o;
  for (size_t j = 0; j < g.size(); ++j) if (j != i) o.push_back(std::make_pair(dist3(g[i], g[j]), j));
  std::sort(o.begin(), o.end());
  for (size_t k = 0; k < o.size(); ++k) {
    double r = 0;
    for (size_t f = 0; f < p.size(); ++f) for (size_t v = 0; v < p[f].v.size(); ++v) r = std::max(r, dist3(p[f].v[v], g[i]));
    if (o[k].first > 2*r*(1 + 1e-9)) break;
    const P3& a = g[i]; const P3& b = g[o[k].second];
    P3 n = sub(b, a); const double l = sqrt(dot(n, n));
    for (int d = 0; d < 3; ++d) n.c[d] /= l;
    const P3 m = mk3(0.5*(a.c[0]+b.c[0]), 0.5*(a.c[1]+b.c[1]), 0.5*(a.c[2]+b.c[2]));
    p = clip3(p, n, dot(n, m), (int)o[k].second, 1e-10*L);
  }
  return p;
}

inline double volume3(const Poly3& p) {
  double v = 0;
  if (p.empty()) return 0;
  const P3 o = p[0].v[0];
  for (size_t f = 0; f < p.size(); ++f) for (size_t k = 1; k + 1 < p[f].v.size(); ++k)
    v += dot(sub(p[f].v[0], o), cross3(sub(p[f].v[k], o), sub(p[f].v[k + 1], o)))/6;
  return v;
}

}
#endif
