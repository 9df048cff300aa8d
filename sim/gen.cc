// Scenario generation: one seed decides what the simulated job does, how its
// network and machines behave and which faults are injected.
#include "harness.hh"
#include "geom3.hh"
#include "classify.hh"
#include <set>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

namespace psim {

namespace {

struct G {
  Rng r;
  int tier;
  G(uint64_t s, int t): r(s), tier(t) {}
  int pick(const int* w, int n) { int t = 0; for (int i = 0; i < n; ++i) t += w[i]; int k = r.below(t); for (int i = 0; i < n; ++i) { if (k < w[i]) return i; k -= w[i]; } return n - 1; }
  template<class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(int(i))]); }
};

enum CloudKind { C_UNIFORM, C_JITTER, C_LATTICE, C_ROTATED, C_CLUSTER, C_HEX, C_GRADED, C_PAIRS, C_LINE, C_RING, NCLOUD };
const char* cloudName[] = { "uniform", "jitter", "lattice", "rotated", "cluster", "hex", "graded", "pairs", "line", "ring" };
enum DecompKind { D_VORONOI, D_STRIP, D_BLOCK, D_RANDOM, D_ROBIN, D_TINY, D_NESTED, D_ROWS, D_ISLANDS, D_SHELL, D_SALT, D_CHECKER, D_LINES, NDECOMP };
const char* decompName[] = { "voronoi", "strip", "block", "random", "robin", "tiny", "nested", "rows", "islands", "shell", "salt", "checker", "lines" };
enum ShapeKind { S_REGULAR, S_IRREGULAR, S_L, S_STAR, S_U, S_COMB, S_HOLE, S_TWOHOLES, NSHAPE };
const char* shapeName[] = { "regular", "irregular", "L", "star", "U", "comb", "hole", "twoholes" };

int envInt(const char* n, int d) { const char* s = getenv(n); return s ? atoi(s) : d; }

std::vector<P2> cloud(G& g, int kind, int n) {
  std::vector<P2> p;
  const double sep = 0.12/sqrt(double(n));
  if (kind == C_LINE) {
    const bool x = g.r.chance(50); const double at = 0.1 + 0.8*g.r.unit();
    for (int i = 0; i < n; ++i) { const double u = (i + 0.5 + 0.4*(g.r.unit() - 0.5))/n; p.push_back(x ? mk(u, at) : mk(at, u)); }
    return p;
  }
  if (kind == C_UNIFORM || kind == C_CLUSTER || kind == C_RING || kind == C_GRADED || kind == C_PAIRS) {
    std::vector<P2> centres; for (int i = 0; i < 3; ++i) { const double a = g.r.unit(), b = g.r.unit(); centres.push_back(mk(a, b)); }
    int tries = 0;
    while ((int)p.size() < n && tries < 100*n) {
      ++tries;
      P2 q;
      const double u = g.r.unit(), w = g.r.unit();
      if (kind == C_UNIFORM) q = mk(u, w);
      else if (kind == C_GRADED) q = mk(u*u, sqrt(w));
      else if (kind == C_CLUSTER) {
        const P2& c = centres[g.r.below(3)];
        const double a = 2*M_PI*u, d = 0.3*w*g.r.unit();
        q = mk(c.x + d*cos(a), c.y + d*sin(a));
      } else if (kind == C_PAIRS && p.size() % 2) {
        const double a = 2*M_PI*u, d = 0.004 + 0.01*w;
        q = mk(p.back().x + d*cos(a), p.back().y + d*sin(a));
      } else if (kind == C_PAIRS) q = mk(u, w);
      else {
        const double a = 2*M_PI*u, d = (1 + g.r.below(3))*0.15;
        q = mk(0.5 + d*cos(a), 0.5 + d*sin(a));
      }
      if (q.x < 0.002 || q.x > 0.998 || q.y < 0.002 || q.y > 0.998) continue;
      bool ok = true;
      const double s = kind == C_CLUSTER || kind == C_GRADED ? 0.3*sep : kind == C_PAIRS ? 0.003 : sep;
      for (size_t i = 0; i < p.size() && ok; ++i) ok = dist(p[i], q) > s;
      if (ok) p.push_back(q);
    }
    return p;
  }
  int nx = std::max(1, (int)floor(sqrt(double(n)) + 0.5)), ny = std::max(1, (n + nx - 1)/nx);
  const double ang = kind == C_ROTATED ? 0.1 + 0.6*g.r.unit() : 0;
  const double jit = kind == C_JITTER ? 0.05 + 0.3*g.r.unit() : 0;
  for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
    double x = (i + 0.5)/nx, y = (j + 0.5)/ny;
    if (kind == C_HEX) x = (i + (j % 2 ? 0.75 : 0.25))/nx;
    if (jit > 0) { const double a = g.r.unit(), b = g.r.unit(); x += jit*(a - 0.5)/nx; y += jit*(b - 0.5)/ny; }
    if (ang > 0) { const double u = (x - 0.5)*0.7, v = (y - 0.5)*0.7; x = 0.5 + u*cos(ang) - v*sin(ang); y = 0.5 + u*sin(ang) + v*cos(ang); }
    p.push_back(mk(x, y));
  }
  return p;
}

std::vector<int> decompose(G& g, int kind, const std::vector<P2>& p, int nr) {
  const int n = p.size();
  std::vector<int> own(n, 0);
  std::vector<P2> seeds;
  for (int i = 0; i < nr; ++i) { const double a = g.r.unit(), b = g.r.unit(); seeds.push_back(mk(a, b)); }
  std::vector<std::pair<double, int> > o;
  switch (kind) {
  case D_VORONOI: case D_TINY:
    for (int i = 0; i < n; ++i) { double b = 1e300; for (int k = 0; k < nr; ++k) if (dist(p[i], seeds[k]) < b) { b = dist(p[i], seeds[k]); own[i] = k; } }
    if (kind == D_TINY) {       // one rank ends up with a single generator
      int v = g.r.below(nr), keep = -1;
      for (int i = 0; i < n; ++i) if (own[i] == v) { if (keep < 0) keep = i; else own[i] = (v + 1) % nr; }
    }
    break;
  case D_STRIP: case D_ROWS: case D_NESTED: {
    for (int i = 0; i < n; ++i) o.push_back(std::make_pair(kind == D_STRIP ? p[i].x : kind == D_ROWS ? p[i].y : dist(p[i], mk(0.5, 0.5)), i));
    std::sort(o.begin(), o.end());
    for (int i = 0; i < n; ++i) own[o[i].second] = (int)((long)i*nr/n);
    break; }
  case D_BLOCK: {
    int bx = 1; while ((bx + 1)*(bx + 1) <= nr) ++bx;
    while (nr % bx) --bx;
    const int by = nr/bx;
    for (int i = 0; i < n; ++i) {
      int u = std::min(bx - 1, int(p[i].x*bx)), v = std::min(by - 1, int(p[i].y*by));
      own[i] = std::max(0, u) + bx*std::max(0, v);
    }
    break; }
  case D_RANDOM: for (int i = 0; i < n; ++i) own[i] = g.r.below(nr); break;
  case D_ISLANDS:              // one rank owns two patches at opposite ends
    for (int i = 0; i < n; ++i) { const int k = int(p[i].x*(nr + 1)); own[i] = k >= nr ? 0 : k; }
    break;
  case D_SHELL: {              // one rank in the middle of another that is everywhere, the others sparse between them
    const double rc = 0.06 + 0.2*g.r.unit(); const int mostly = 40 + g.r.below(50); const P2 c = mk(0.35 + 0.3*g.r.unit(), 0.35 + 0.3*g.r.unit());
    for (int i = 0; i < n; ++i) own[i] = dist(p[i], c) < rc ? 0 : g.r.chance(mostly) || nr < 3 ? std::min(1, nr - 1) : 2 + g.r.below(nr - 2);
    break; }
  case D_SALT: {               // compact regions with strays
    const int stray = 3 + g.r.below(25);
    for (int i = 0; i < n; ++i) { double b = 1e300; for (int k = 0; k < nr; ++k) if (dist(p[i], seeds[k]) < b) { b = dist(p[i], seeds[k]); own[i] = k; } if (g.r.chance(stray)) own[i] = g.r.below(nr); }
    break; }
  case D_CHECKER: { const int m = 2 + g.r.below(4); for (int i = 0; i < n; ++i) own[i] = (std::max(0, int(p[i].x*m)) + std::max(0, int(p[i].y*m))) % nr; break; }
  case D_LINES: {              // interleaved rows or columns
    const bool x = g.r.chance(50); const int m = std::max(1, int(sqrt(double(n)) + 0.5));
    for (int i = 0; i < n; ++i) o.push_back(std::make_pair(x ? p[i].x : p[i].y, i));
    std::sort(o.begin(), o.end());
    for (int i = 0; i < n; ++i) own[o[i].second] = i/m % nr;
    break; }
  default: for (int i = 0; i < n; ++i) own[i] = i % nr;
  }
  return own;
}

void fillTo(G& g, std::vector<int>& own, int nr, int least) {
  for (int round = 0; round < nr*least; ++round) {
    std::vector<int> cnt(nr, 0);
    for (size_t i = 0; i < own.size(); ++i) cnt[own[i]]++;
    int poor = -1; for (int k = 0; k < nr; ++k) if (cnt[k] < least) poor = k;
    if (poor < 0) return;
    int big = 0; for (int j = 0; j < nr; ++j) if (cnt[j] > cnt[big]) big = j;
    if (cnt[big] <= least) return;
    int nth = g.r.below(cnt[big]);
    for (size_t i = 0; i < own.size(); ++i) if (own[i] == big && nth-- == 0) { own[i] = poor; break; }
  }
}

bool insideDomain(const P2& p, const std::vector<Poly>& loops, double margin) {
  if (!inside(p, loops[0])) return false;
  for (size_t i = 1; i < loops.size(); ++i) if (inside(p, loops[i])) return false;
  for (size_t i = 0; i < loops.size(); ++i) if (distToBoundary(p, loops[i]) < margin) return false;
  return true;
}

Poly ngon(double cx, double cy, double r, int m, double a0) {
  Poly q; for (int i = 0; i < m; ++i) { const double a = a0 + 2*M_PI*i/m; q.push_back(mk(cx + r*cos(a), cy + r*sin(a))); } return q;
}
Poly rect(double a, double b, double c, double d) { Poly q; q.push_back(mk(a, b)); q.push_back(mk(c, b)); q.push_back(mk(c, d)); q.push_back(mk(a, d)); return q; }

std::vector<Poly> shape(G& g, int kind) {
  std::vector<Poly> l(1);
  Poly& o = l[0];
  const double u = g.r.unit(), w = g.r.unit(), z = g.r.unit();
  switch (kind) {
  case S_REGULAR: o = ngon(0.5, 0.5, 0.5, 3 + g.r.below(6), u); break;
  case S_IRREGULAR: {
    const int m = 3 + g.r.below(5); std::vector<double> a;
    for (int i = 0; i < m; ++i) a.push_back(2*M_PI*(i + 0.7*g.r.unit())/m);
    for (int i = 0; i < m; ++i) o.push_back(mk(0.5 + 0.5*cos(a[i]), 0.5 + 0.5*sin(a[i])));
    break; }
  case S_L: { const double c = 0.3 + 0.4*u, d = 0.3 + 0.4*w; o.push_back(mk(0,0)); o.push_back(mk(1,0)); o.push_back(mk(1,d)); o.push_back(mk(c,d)); o.push_back(mk(c,1)); o.push_back(mk(0,1)); break; }
  case S_STAR: { const int m = 2*(4 + g.r.below(3)); for (int i = 0; i < m; ++i) { const double a = u + 2*M_PI*i/m, r = i % 2 ? 0.25 + 0.1*w : 0.5; o.push_back(mk(0.5 + r*cos(a), 0.5 + r*sin(a))); } break; }
  case S_U: { const double a = 0.25 + 0.1*u, b = 0.65 + 0.1*w, d = 0.3 + 0.4*z;
    o.push_back(mk(0,0)); o.push_back(mk(1,0)); o.push_back(mk(1,1)); o.push_back(mk(b,1)); o.push_back(mk(b,d)); o.push_back(mk(a,d)); o.push_back(mk(a,1)); o.push_back(mk(0,1)); break; }
  case S_COMB: { const int t = 3; o.push_back(mk(0,0)); o.push_back(mk(1,0));
    for (int i = t - 1; i >= 0; --i) { const double x1 = (i + 1.0)/t - (i == t - 1 ? 0 : 0.08), x0 = double(i)/t + (i ? 0.08 : 0); o.push_back(mk(x1, 1 - 0.2*u)); o.push_back(mk(x0, 1 - 0.2*u)); if (i) { o.push_back(mk(x0, 0.4)); o.push_back(mk(double(i)/t - 0.08, 0.4)); } }
    break; }
  case S_TWOHOLES: {
    o = rect(0, 0, 1, 1);
    Poly a = ngon(0.25 + 0.05*u, 0.3 + 0.2*w, 0.08 + 0.06*z, 3 + g.r.below(5), u); std::reverse(a.begin(), a.end()); l.push_back(a);
    Poly b = ngon(0.72 + 0.05*w, 0.5 + 0.2*z, 0.08 + 0.06*u, 4, w); if (g.r.chance(50)) std::reverse(b.begin(), b.end()); l.push_back(b);
    break; }
  default: {
    o = g.r.chance(60) ? rect(0, 0, 1, 1) : ngon(0.5, 0.5, 0.5, 5 + g.r.below(3), u);
    Poly h = ngon(0.4 + 0.2*u, 0.4 + 0.2*w, 0.1 + 0.12*z, 3 + g.r.below(6), w); if (g.r.chance(60)) std::reverse(h.begin(), h.end()); l.push_back(h);
    break; }
  }
  return l;
}

void setPlc(G& g, Step& s, const std::vector<Poly>& loops) {
  s.plc = PlcGeom();
  std::vector<int> id; int tot = 0;
  for (size_t l = 0; l < loops.size(); ++l) tot += loops[l].size();
  for (int i = 0; i < tot; ++i) id.push_back(i);
  if (envInt("X_PERM", g.r.chance(40))) g.shuffle(id);          // facets refer to the points in any order
  s.plc.points.assign(2*tot, 0);
  int b = 0;
  for (size_t l = 0; l < loops.size(); ++l) {
    std::vector<std::vector<int> > f;
    const int m = loops[l].size(), rot = g.r.below(m);
    for (int k = 0; k < m; ++k) {
      const int i = (k + rot) % m;
      s.plc.points[2*id[b + i]] = loops[l][i].x; s.plc.points[2*id[b + i] + 1] = loops[l][i].y;
      std::vector<int> e; e.push_back(id[b + i]); e.push_back(id[b + (i + 1) % m]); f.push_back(e);
    }
    b += m;
    if (l == 0) s.plc.facets = f; else s.plc.holes.push_back(f);
  }
}

struct Want {
  int modeW[4];               // weights of UNBOUNDED, BOX, PLCPTS, REDUCED
  bool convexOnly, nonconvexOnly;
  int cloudW[NCLOUD];
  int least;                  // generators per rank at least
  int most;                   // per rank about
  bool affine;
  Want(): convexOnly(true), nonconvexOnly(false), least(1), most(12), affine(true) {
    const int m[4] = { 0, 6, 2, 2 }; memcpy(modeW, m, sizeof m);
    const int c[NCLOUD] = { 5, 4, 3, 3, 3, 2, 2, 1, 1, 0 }; memcpy(cloudW, c, sizeof c);
  }
};

void tessStep(G& g, int nr, const Want& w, Step& s, std::string& label) {
  s.op = "tess";
  int cw[NCLOUD]; memcpy(cw, w.cloudW, sizeof cw);
  s.mode = envInt("X_MODE", g.pick(w.modeW, 4));
  if (s.algo == DISTRIBUTED && s.mode == UNBOUNDED && nr > 1 && s.commInfo && !getenv("X_MODE")) s.mode = BOX;   // known finding P06-unbounded
  const bool plc = s.mode >= PLCPTS;
  if (s.mode == UNBOUNDED) cw[C_LATTICE] = cw[C_ROTATED] = cw[C_HEX] = cw[C_LINE] = cw[C_RING] = 0;
  int sk = -1;
  if (plc) {
    cw[C_LATTICE] = cw[C_HEX] = cw[C_LINE] = cw[C_RING] = 0;
    sk = w.convexOnly ? g.r.below(2) : w.nonconvexOnly ? S_L + g.r.below(NSHAPE - S_L) : g.r.below(NSHAPE);
    sk = envInt("X_PLC", sk);
    if (sk >= S_L) cw[C_ROTATED] = 0;
    if (sk >= S_L && s.algo == DISTRIBUTED) cw[C_CLUSTER] = cw[C_GRADED] = cw[C_PAIRS] = 0;
  }
  const int ck = envInt("X_CLOUD", g.pick(cw, NCLOUD)), dk = envInt("X_DECOMP", g.r.below(NDECOMP));
  const int least = s.mode == UNBOUNDED ? std::max(w.least, nr == 1 ? 6 : 3) : w.least;
  const int n = envInt("X_N", std::max(nr*least, nr*(1 + g.r.below(dk == D_SHELL ? 2*w.most + 6 : w.most))));
  std::vector<P2> p = cloud(g, ck, n);
  std::vector<Poly> loops;
  if (plc) {
    loops = shape(g, sk);
    std::vector<P2> q;
    for (size_t i = 0; i < p.size(); ++i) if (insideDomain(p[i], loops, 0.01)) q.push_back(p[i]);
    p = q;
  }
  for (int t = 0; t < 4000 && (int)p.size() < nr*std::max(1, least); ++t) {
    const double a = g.r.unit(), b = g.r.unit(); P2 x = mk(a, b);
    if (plc ? !insideDomain(x, loops, 0.01) : (a < 0.002 || a > 0.998 || b < 0.002 || b > 0.998)) continue;
    bool ok = true; for (size_t i = 0; i < p.size() && ok; ++i) ok = dist(p[i], x) > 0.01;
    if (ok) p.push_back(x);
  }
  std::vector<int> own = decompose(g, dk, p, nr);
  if (least > 0) fillTo(g, own, nr, least);
  std::vector<int> name; for (int i = 0; i < nr; ++i) name.push_back(i);
  if (g.r.chance(50)) g.shuffle(name);
  std::vector<int> ord; for (size_t i = 0; i < p.size(); ++i) ord.push_back(i);
  if (g.r.chance(60)) g.shuffle(ord);
  // world coordinates
  double sx = 1, sy = 1, ox = 0, oy = 0;
  if (envInt("X_AFFINE", w.affine && g.r.chance(50))) {
    const double e[7] = { 1e-3, 0.03, 0.5, 2, 20, 150, 1e3 };
    sx = e[g.r.below(7)]*(0.7 + g.r.unit()); if (getenv("X_SCALE")) sx = atof(getenv("X_SCALE"));
    sy = sx*(g.r.chance(50) ? 1 : 0.4 + 2*g.r.unit());
    ox = sx*(8*g.r.unit() - 4); oy = sy*(8*g.r.unit() - 4); if (getenv("X_OFF")) ox = oy = atof(getenv("X_OFF"))*sx;
  }
  s.gens.assign(nr, std::vector<double>());
  for (size_t k = 0; k < ord.size(); ++k) { const int i = ord[k]; std::vector<double>& v = s.gens[name[own[i]]]; v.push_back(ox + sx*p[i].x); v.push_back(oy + sy*p[i].y); }
  s.low[0] = ox; s.low[1] = oy; s.high[0] = ox + sx; s.high[1] = oy + sy;
  if (plc) {
    for (size_t l = 0; l < loops.size(); ++l) for (size_t i = 0; i < loops[l].size(); ++i) loops[l][i] = mk(ox + sx*loops[l][i].x, oy + sy*loops[l][i].y);
    setPlc(g, s, loops);
  }
  const char* mn[] = { "unbounded", "box", "plc", "reduced" };
  label += std::string(label.empty() ? "" : ";") + mn[s.mode] + (plc ? std::string(":") + shapeName[sk] : "") + "/" + cloudName[ck] + "/" + decompName[dk];
}

void network(G& g, Scenario& sc) {
  Net& n = sc.net;
  const int w[4] = { 3, 3, 2, 2 };
  n.sendMode = g.pick(w, 4);
  const int lim[4] = { 8, 64, 1024, 4096 }; n.eagerLimit = lim[g.r.below(4)];
  const int lr[4] = { 0, 30, 70, 100 }; n.lateRead = lr[g.r.below(4)];
  const int cs[4] = { 0, 30, 70, 100 }; n.collSync = cs[g.r.below(4)];
  n.latency = g.r.below(4); n.compute = g.r.below(4);
}

// Machine and network faults that MPI hides from a correct program: they delay.
void timingFaults(G& g, Scenario& sc, int percent) {
  while (g.r.chance(percent) && sc.faults.size() < 6) {
    Fault f; const int k = g.r.below(3);
    if (k == 0) { f.kind = F_SLOW; f.a = g.r.below(sc.nranks); f.b = 2 + g.r.below(200); f.c = 0; }
    else if (k == 1) { f.kind = F_STALL; f.a = g.r.below(sc.nranks); f.b = g.r.below(60); f.c = 1000 + g.r.below(3000000); }
    else { f.kind = F_HOLD; f.a = 1 + g.r.below((1 << sc.nranks) - 2); f.b = g.r.below(2000); f.c = f.b + 500 + g.r.below(5000000); }
    sc.faults.push_back(f);
  }
}

// A dump: names, number of files, fields and tags.
void writeArgs(G& g, int nr, Step& d, bool cycles) {
  d.iargs.assign(W_NARGS + 1, 0);
  d.iargs[W_FILES] = g.r.chance(30) ? -1 : 1 + g.r.below(nr);
  d.iargs[W_CALL] = cycles ? (g.r.chance(70) ? 0 : 1 + g.r.below(2)) : g.r.chance(50) ? 0 : g.r.below(5);
  d.iargs[W_CYCLE] = cycles ? 3 : g.r.chance(70) ? g.r.below(3)*(1 + g.r.below(200)) : -1;
  if (d.iargs[W_CALL] == 1 || d.iargs[W_CALL] == 2) d.iargs[W_CYCLE] = std::max(0, d.iargs[W_CYCLE]);
  for (int k = 0; k < 4; ++k) { d.iargs[W_FIELDS + k] = g.r.chance(50) ? g.r.below(4) : 0; d.iargs[W_TAGS + k] = g.r.chance(40) ? 1 + g.r.below(3) : 0; }
  d.iargs[W_TAG] = g.r.below(3)*17;
  const char* pre[5] = { "mesh", "dump", "a-1", "run.silo", "x_y" };
  const char* dir[4] = { "", "out", "data-3", "o" };
  d.sargs.assign(2, "");
  d.sargs[0] = pre[g.r.below(5)]; d.sargs[1] = dir[g.r.below(4)];
}

// One box of lattice generators per rank; each rank tessellates its own.
void lattice3(G& g, int nr, Step& s) {
  s.op = "tess"; s.mode = BOX; s.algo = SERIAL;
  s.gens.assign(nr, std::vector<double>());
  for (int r = 0; r < nr; ++r) {
    const int n[3] = { 1 + g.r.below(3), 1 + g.r.below(3), 1 + g.r.below(3) };
    for (int i = 0; i < n[0]*n[1]*n[2]; ++i) { s.gens[r].push_back((i % n[0] + 0.5)/n[0]); s.gens[r].push_back((i/n[0] % n[1] + 0.5)/n[1]); s.gens[r].push_back((i/n[0]/n[1] + 0.5)/n[2]); }
  }
  for (int d = 0; d < 3; ++d) { s.low[d] = 0; s.high[d] = 1; }
}

// Generators in general position in a box in three dimensions.
void tess3(G& g, int nr, const Want& w, Step& s, std::string& label) {
  s.op = "tess"; s.mode = BOX; s.stub = 2;
  const char* kinds[4] = { "uniform", "jitter", "cluster", "pairs" };
  const int ck = g.r.below(4), dk = envInt("X_DECOMP", g.r.below(NDECOMP));
  const int n = std::min(70, envInt("X_N", std::max(nr*w.least, nr*(1 + g.r.below(std::min(w.most, 8))))));
  std::vector<P3> p;
  const double sep = 0.15/pow(double(std::max(n, 1)), 1.0/3);
  const int side = (int)ceil(pow(double(n), 1.0/3) - 1e-9);
  const P3 c = mk3(0.2 + 0.6*g.r.unit(), 0.2 + 0.6*g.r.unit(), 0.2 + 0.6*g.r.unit());
  for (int t = 0; t < 4000 && (int)p.size() < n; ++t) {
    P3 x = mk3(g.r.unit(), g.r.unit(), g.r.unit());
    if (ck == 1) { const int i = p.size(); const int k[3] = { i % side, i/side % side, i/side/side }; for (int d = 0; d < 3; ++d) x.c[d] = (k[d] + 0.15 + 0.7*x.c[d])/side; }
    else if (ck == 2 && p.size() % 3) for (int d = 0; d < 3; ++d) x.c[d] = c.c[d] + 0.3*(x.c[d] - 0.5);
    else if (ck == 3 && p.size() % 2) for (int d = 0; d < 3; ++d) x.c[d] = p.back().c[d] + 2*sep*(x.c[d] - 0.5);
    bool ok = true;
    for (int d = 0; d < 3; ++d) ok = ok && x.c[d] > 0.01 && x.c[d] < 0.99;
    for (size_t i = 0; i < p.size() && ok; ++i) ok = dist3(p[i], x) > 0.3*sep;
    if (ok) p.push_back(x);
  }
  const int a = g.r.below(3), b = (a + 1) % 3;
  std::vector<P2> flat;
  for (size_t i = 0; i < p.size(); ++i) flat.push_back(mk(p[i].c[a], p[i].c[b]));
  std::vector<int> own = decompose(g, dk, flat, nr);
  if (w.least > 0) fillTo(g, own, nr, w.least);
  std::vector<int> name; for (int i = 0; i < nr; ++i) name.push_back(i);
  if (g.r.chance(50)) g.shuffle(name);
  std::vector<int> ord; for (size_t i = 0; i < p.size(); ++i) ord.push_back(i);
  if (g.r.chance(60)) g.shuffle(ord);
  const double e[5] = { 1e-3, 0.3, 2, 40, 1e3 };
  const double sc = envInt("X_AFFINE", g.r.chance(40)) ? e[g.r.below(5)]*(0.7 + g.r.unit()) : 1;
  for (int d = 0; d < 3; ++d) {
    const double o = sc == 1 ? 0 : sc*(6*g.r.unit() - 3), l = sc == 1 ? 1 : sc*(0.5 + g.r.unit());
    for (size_t i = 0; i < p.size(); ++i) p[i].c[d] = o + l*p[i].c[d];
    s.low[d] = o; s.high[d] = o + l;
  }
  s.gens.assign(nr, std::vector<double>());
  for (size_t k = 0; k < ord.size(); ++k) { const int i = ord[k]; std::vector<double>& v = s.gens[name[own[i]]]; v.insert(v.end(), p[i].c, p[i].c + 3); }
  label += std::string(label.empty() ? "" : ";") + "3d/" + kinds[ck] + "/" + decompName[dk];
}

// In two dimensions mostly; sc.dim says which.
void tessAny(G& g, const Scenario& sc, const Want& w, Step& s, std::string& label) {
  if (sc.dim == 3) tess3(g, sc.nranks, w, s, label); else tessStep(g, sc.nranks, w, s, label);
}

// Some generators once more on the same rank, exactly or a fraction of the
// tolerance away (there well inside one bin, however bins are counted).
void coincide(G& g, int dim, Step& s) {
  s.op = "degen";
  const int t3[3] = { 3000, 10000, 20000 }, t2[5] = { 5, 50, 1000, 10000, 20000 };
  s.iargs.assign(1, dim == 3 ? t3[g.r.below(3)] : t2[g.r.below(5)]);
  const double tol = degenerateTol(s, dim);
  double lo[3] = { s.low[0], s.low[1], s.low[2] };
  if (s.mode >= PLCPTS) { std::vector<Poly> L; loopsOf(s, L); for (int d = 0; d < 2; ++d) { lo[d] = 1e300; for (size_t i = 0; i < s.plc.points.size(); i += 2) lo[d] = std::min(lo[d], s.plc.points[i + d]); } }
  const int often = 5 + g.r.below(60);
  for (size_t k = 0; k < s.gens.size(); ++k) {
    std::vector<double> x = s.gens[k];
    for (size_t i = 0; i + dim <= s.gens[k].size(); i += dim) while (g.r.chance(often)) {
      std::vector<double> y(s.gens[k].begin() + i, s.gens[k].begin() + i + dim);
      bool near = s.mode != UNBOUNDED && g.r.chance(50);
      std::vector<double> z = y;
      for (int d = 0; d < dim; ++d) {
        const double u = g.r.unit();
        double a = (y[d] - lo[d])/tol, b; a -= floor(a);
        z[d] += tol*0.3*(2*u - 1);
        b = (z[d] - lo[d])/tol; b -= floor(b);
        near = near && ((a > 0.1 && a < 0.4 && b > 0.1 && b < 0.4) || (a > 0.6 && a < 0.9 && b > 0.6 && b < 0.9));
      }
      const int at = g.r.below(int(x.size()/dim) + 1)*dim;
      x.insert(x.begin() + at, (near ? z : y).begin(), (near ? z : y).end());
    }
    s.gens[k] = x;
  }
}

int ranks(G& g, int lo, int hi) {
  int n = lo + g.r.below(std::min(hi, lo + 5) - lo + 1);
  if (hi > lo + 5 && g.r.chance(15)) n = lo + g.r.below(hi - lo + 1);
  return envInt("X_RANKS", n);
}

} // namespace

static Scenario draw(const std::string& prop, uint64_t seed, int attempt, int tier) {
  Scenario sc;
  G g(seed*0x9E3779B97F4A7C15ULL + 777 + 31337ULL*attempt, tier);
  sc.workload = prop; sc.seed = seed; sc.dim = 2;
  Want w;
  if (tier && g.r.chance(10)) w.most = 30;
  if (attempt >= 60) { memset(w.modeW, 0, sizeof w.modeW); w.modeW[BOX] = 1; memset(w.cloudW, 0, sizeof w.cloudW); w.cloudW[C_JITTER] = 1; w.affine = false; }
  static const char* const solid[11] = { "P01", "P02", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P15", "P19" };
  for (int i = 0; i < 11; ++i) if (prop == solid[i] && envInt("X_DIM", g.r.chance(12) ? 3 : 2) == 3 && attempt < 60) sc.dim = 3;
  Step s; s.commInfo = true; s.algo = envInt("X_ALGO", DISTRIBUTED);
  if (prop == "P01" || prop == "P05" || prop == "P06" || prop == "P07" || prop == "P08") {
    sc.nranks = ranks(g, 2, MAXRANKS);
    network(g, sc);
    if (prop != "P01") s.algo = envInt("X_ALGO", g.r.chance(70) ? DISTRIBUTED : SERIALDIST);
    else s.commInfo = g.r.chance(80);
    if (s.algo == SERIALDIST && g.r.chance(30)) w.least = 0;
    tessAny(g, sc, w, s, sc.label);
    sc.steps.push_back(s);
    timingFaults(g, sc, prop == "P05" ? 75 : 25);
    if (prop == "P05" && g.r.chance(30)) { Step c = s; c.op = "check"; sc.steps.push_back(c); }
  } else if (prop == "P02") {
    sc.nranks = ranks(g, 1, MAXRANKS);
    network(g, sc);
    s.algo = SERIALDIST; s.commInfo = g.r.chance(70);
    if (g.r.chance(50)) w.least = 0;
    tessAny(g, sc, w, s, sc.label);
    sc.steps.push_back(s);
    timingFaults(g, sc, 25);
  } else if (prop == "P03") {
    sc.nranks = ranks(g, 1, 10);
    network(g, sc);
    s.algo = envInt("X_ALGO", g.r.chance(60) ? DISTRIBUTED : SERIALDIST);
    if (s.algo == DISTRIBUTED) w.least = 4;
    w.convexOnly = false; w.nonconvexOnly = true;
    const int m[4] = { 0, 0, 1, 1 }; if (attempt < 60) memcpy(w.modeW, m, sizeof m);
    tessStep(g, sc.nranks, w, s, sc.label);
    sc.steps.push_back(s);
    timingFaults(g, sc, 25);
  } else if (prop == "P04") {
    sc.nranks = ranks(g, 2, 8);
    network(g, sc);
    s.algo = envInt("X_ALGO", g.r.chance(70) ? DISTRIBUTED : SERIALDIST); s.commInfo = g.r.chance(85);
    if (g.r.chance(15) && attempt < 60) { w.modeW[UNBOUNDED] = 40; s.commInfo = false; }
    tessAny(g, sc, w, s, sc.label);
    sc.steps.push_back(s);
    if (g.r.chance(40)) { Step t = s; t.reuse = g.r.chance(50); tessAny(g, sc, w, t, sc.label); sc.steps.push_back(t); }
    timingFaults(g, sc, 60);
  } else if (prop == "P09") {
    sc.nranks = ranks(g, 2, MAXRANKS);
    network(g, sc);
    s.algo = envInt("X_ALGO", g.r.chance(70) ? DISTRIBUTED : SERIALDIST);
    if (s.algo == SERIALDIST && g.r.chance(30)) w.least = 0;
    tessAny(g, sc, w, s, sc.label);
    sc.steps.push_back(s);
    Step c; c.op = "check";
    if (g.r.chance(25)) sc.steps.push_back(c);
    const int rounds = 1 + g.r.below(2);
    for (int t = 0; t < rounds; ++t) {
      if (g.r.chance(85)) {
        Step d; d.op = "corrupt"; memcpy(d.low, s.low, sizeof d.low); memcpy(d.high, s.high, sizeof d.high);
        const int n = g.r.chance(75) ? 1 : 2 + g.r.below(2);
        for (int i = 0; i < n; ++i) {
          const int kind = envInt("X_KIND", g.r.below(19));
          d.iargs.push_back(kind); d.iargs.push_back(g.r.below(sc.nranks)); d.iargs.push_back(g.r.below(64)); d.iargs.push_back(g.r.below(4096));
          if (n == 1) { char b[32]; snprintf(b, sizeof b, ";damage_%d", kind); sc.label += b; }
        }
        sc.steps.push_back(d);
      }
      sc.steps.push_back(c);
    }
    timingFaults(g, sc, 25);
  } else if (prop == "P10") {
    sc.nranks = ranks(g, 1, 4);
    network(g, sc);
    w.most = 8;
    s.algo = envInt("X_ALGO", g.r.chance(60) ? DISTRIBUTED : g.r.chance(60) ? SERIALDIST : SERIAL);
    if (s.algo == SERIAL) sc.nranks = 1;
    s.commInfo = g.r.chance(75);
    if (g.r.chance(30) && attempt < 60) w.modeW[UNBOUNDED] = 5;
    const int n = 2 + g.r.below(2);
    for (int i = 0; i < n; ++i) {
      Step t = s; t.reuse = i && g.r.chance(75); t.keepMesh = i && g.r.chance(60);
      if (i && !t.reuse) { t.algo = g.r.chance(50) ? DISTRIBUTED : SERIALDIST; t.commInfo = g.r.chance(75); }
      else if (i) { t.algo = sc.steps.back().algo; t.commInfo = sc.steps.back().commInfo; }
      w.least = t.algo == SERIALDIST && g.r.chance(30) ? 0 : 1;
      t.op = "tess";
      if (i && g.r.chance(25)) {                         // same domain, generators moved or handed to other ranks
        const Step& o = sc.steps.back();
        t.mode = o.mode; t.stub = o.stub; t.plc = o.plc; memcpy(t.low, o.low, sizeof t.low); memcpy(t.high, o.high, sizeof t.high);
        t.gens.assign(sc.nranks, std::vector<double>());
        const int sh = g.r.below(sc.nranks);
        for (int k = 0; k < sc.nranks; ++k) { std::vector<double> x = o.gens[(k + sh) % sc.nranks]; if (g.r.chance(50) && x.size() > (t.mode == UNBOUNDED ? 6u : 2u)*sc.dim) { x.erase(x.begin(), x.begin() + sc.dim); } t.gens[k] = x; }
        sc.label += ";moved";
      } else tessAny(g, sc, w, t, sc.label);
      sc.steps.push_back(t);
    }
    timingFaults(g, sc, 25);
  } else if (prop == "P11" || prop == "P12" || prop == "P13") {
    sc.nranks = ranks(g, 1, prop == "P11" ? 12 : 8);
    network(g, sc);
    w.most = 6;
    s.algo = envInt("X_ALGO", g.r.chance(70) ? DISTRIBUTED : SERIALDIST);
    sc.dim = g.r.chance(25) ? 3 : 2;
    const int n = prop == "P13" ? 2 + g.r.below(2) : prop == "P12" ? 2 : 1 + g.r.below(3);
    const int armed = prop == "P11" ? -1 : prop == "P13" ? g.r.below(n) : g.r.chance(80) ? 1 : 0;
    Step d; d.op = "write"; writeArgs(g, sc.nranks, d, prop != "P11");
    std::string shapes;
    for (int i = 0; i < n; ++i) {
      if (i == 0 || g.r.chance(50)) {
        if (sc.dim == 3) lattice3(g, sc.nranks, s); else tessStep(g, sc.nranks, w, s, shapes);
        sc.steps.push_back(s);
      }
      if (i) {
        if (prop == "P11" && g.r.chance(40)) writeArgs(g, sc.nranks, d, false);
        if (g.r.chance(20)) d.iargs[W_FILES] = 1 + g.r.below(sc.nranks);
        if (prop != "P11" || g.r.chance(85)) d.iargs[W_CYCLE] = 3 + i; else sc.label += "again;";
      }
      d.iargs[W_ARMED] = i == armed;
      if (prop == "P12") d.iargs[W_NARGS] = g.r.chance(25) ? 1 + g.r.below(sc.nranks) : 0;
      sc.steps.push_back(d);
    }
    char b[96]; snprintf(b, sizeof b, "%dd;%d_ranks;%s", sc.dim, sc.nranks, d.iargs[W_FILES] == -1 ? "a_file_each" : d.iargs[W_FILES] == 1 ? "one_file" : sc.nranks % d.iargs[W_FILES] ? "uneven_files" : "even_files");
    sc.label += b;
    if (prop == "P12") {
      Fault f; f.kind = F_CRASH; f.a = g.r.below(sc.nranks); const int how = g.r.below(4);
      if (g.r.chance(80)) { f.b = g.r.below(d.iargs[W_FIELDS] + d.iargs[W_FIELDS+1] + d.iargs[W_FIELDS+2] + d.iargs[W_FIELDS+3] + 26); f.c = 1 + 16*how; }
      else { f.b = g.r.below(60); f.c = 16*how; }
      sc.faults.push_back(f);
    } else if (prop == "P13") {
      const int nf = 1 + g.r.below(3);
      for (int i = 0; i < nf; ++i) { Fault f; f.kind = F_IOFAIL; f.a = i || g.r.chance(60) ? g.r.below(sc.nranks) : 0; f.b = g.r.below(20); if (g.r.chance(30)) f.b = g.r.below(40); f.c = g.r.chance(40); sc.faults.push_back(f); }
    }
    if (sc.nranks > 1) timingFaults(g, sc, 25);
  } else if (prop == "P14") {
    sc.nranks = 1;
    w.most = g.r.chance(15) ? 40 : 8; w.least = 1;
    w.convexOnly = g.r.chance(50);
    s.algo = envInt("X_ALGO", SERIAL - g.r.below(3)); s.commInfo = g.r.chance(70);
    const int n = 1 + g.r.below(3);
    for (int i = 0; i < n; ++i) {
      Step t = s; t.reuse = i && g.r.chance(70); t.keepMesh = g.r.chance(50);
      w.modeW[0] = s.algo == SERIAL && g.r.chance(20) ? 30 : 0; w.least = w.modeW[0] ? 4 : 1;
      tessStep(g, 1, w, t, sc.label); t.op = "oom";
      sc.steps.push_back(t);
      if (g.r.chance(90)) { Fault f; f.kind = F_ALLOC; f.a = 0; f.b = g.r.below(1000000); if (g.r.chance(10)) f.b /= 1000; f.c = 2*i + g.r.chance(30); sc.faults.push_back(f); }
    }
  } else if (prop == "P16" || prop == "P17") {
    const bool thr = prop == "P17";
    sc.nranks = thr ? 2 + g.r.below(3) : 1 + g.r.below(3);
    network(g, sc);
    sc.net.preempt = thr;
    if (!thr && envInt("X_DIM", g.r.chance(25) ? 3 : 2) == 3) sc.dim = 3;
    w.most = g.r.chance(15) ? 30 : 8; w.convexOnly = g.r.chance(60);
    const int n = 3 + g.r.below(thr ? 6 : 10), all = (1 << sc.nranks) - 1;
    bool full[3][4]; memset(full, 0, sizeof full);
    for (int i = 0; i < n; ++i) {
      Step t; t.op = "c"; t.algo = SERIAL;
      const int flat[C_NOPS] = { 10, 3, 2, 3, 2, 1, 2, 2, thr ? 0 : 2 }, solid[C_NOPS] = { 0, 3, 2, 3, 1, 2, 6, 1, 8 };
      const int code = g.pick(sc.dim == 3 ? solid : flat, C_NOPS);
      const int a = g.r.below(thr ? 2 : 3), b = g.r.below(2), mask = sc.nranks == 1 || code == C_ADOPT || g.r.chance(60) ? all : 1 + g.r.below(all);
      if (!thr && code == C_PLC && (sc.dim == 3 || g.r.chance(20))) {           // facets and holes of any shape
        for (int f = g.r.below(6); f > 0; --f) { t.plc.facets.push_back(std::vector<int>()); for (int k = g.r.chance(60) ? sc.dim : g.r.below(6); k > 0; --k) t.plc.facets.back().push_back(g.r.below(9)); }
        for (int h = g.r.chance(40) ? 1 + g.r.below(3) : 0; h > 0; --h) {
          t.plc.holes.push_back(std::vector<std::vector<int> >());
          for (int f = g.r.below(4); f > 0; --f) { t.plc.holes.back().push_back(std::vector<int>()); for (int k = g.r.chance(70) ? sc.dim : g.r.below(6); k > 0; --k) t.plc.holes.back().back().push_back(g.r.below(9)); }
        }
      } else if (code == C_ADOPT) {
        Want u; u.most = 6;
        t.algo = g.r.chance(60) ? DISTRIBUTED : SERIALDIST; t.commInfo = g.r.chance(90);
        std::string lb; tessAny(g, sc, u, t, lb); if (sc.label.size() < 80) sc.label += (sc.label.empty() ? "" : ";") + ("adopt " + lb).substr(0, lb.find('/') + 6);
        t.op = "c";
      } else if (code == C_TESSELLATE || code == C_PLC || thr) {
        const bool plc = code == C_PLC;
        w.modeW[0] = !plc && g.r.chance(25) ? 8 : 0; w.modeW[1] = plc ? 0 : 6; w.modeW[2] = 6; w.modeW[3] = 0; w.least = w.modeW[0] ? 5 : 2;
        std::string lb; tessStep(g, sc.nranks, w, t, lb); if (sc.label.size() < 80) sc.label += (sc.label.empty() ? "" : ";") + lb.substr(0, lb.find('/'));
        t.op = "c";
      }
      if (thr && g.r.chance(40)) {                      // the C++ classes, on objects of the caller's own
        t.op = "tess"; t.iargs.push_back(mask); t.reuse = g.r.chance(60); t.keepMesh = g.r.chance(60);
        if (t.mode == PLCPTS && g.r.chance(40)) t.mode = REDUCED;
        sc.steps.push_back(t);
        continue;
      }
      t.iargs.push_back(code); t.iargs.push_back(a); t.iargs.push_back(b); t.iargs.push_back(mask);
      for (int k = 0; k < sc.nranks; ++k) if ((mask >> k) & 1) { if (code == C_TESSELLATE || code == C_ADOPT) full[a][k] = true; else if (code == C_CLEAR || code == C_FREE) full[a][k] = false; }
      sc.steps.push_back(t);
      bool ready = !thr; for (int k = 0; k < sc.nranks; ++k) ready = ready && full[a][k];
      if (ready && g.r.chance(25)) {
        Step d; d.op = "write"; writeArgs(g, sc.nranks, d, false);
        d.iargs[W_CALL] = 5 + g.r.below(2); d.iargs[W_NARGS] = a; d.iargs[W_CYCLE] = i;
        if (d.iargs[W_CALL] == 6) for (int k = 0; k < 4; ++k) d.iargs[W_TAGS + k] = 0;
        sc.steps.push_back(d);
      }
    }
    if (sc.nranks > 1) timingFaults(g, sc, 25);
  } else if (prop == "P18") {
    sc.nranks = ranks(g, 1, MAXRANKS);
    network(g, sc);
    s.algo = envInt("X_ALGO", g.r.chance(70) ? DISTRIBUTED : SERIALDIST);
    if (s.algo == SERIALDIST && g.r.chance(20)) w.least = 0;
    tessStep(g, sc.nranks, w, s, sc.label);
    sc.steps.push_back(s);
    const int rounds = 1 + g.r.below(2);
    for (int t = 0; t < rounds; ++t) {
      Step c; c.op = envInt("X_KIND", g.r.chance(75)) ? "clean" : "delete";
      const int tol[6] = { 1000, 10000, 50000, 100000, 200000, 300000 };
      if (c.op == "clean") c.iargs.push_back(tol[g.r.below(6)]);
      else { c.iargs.push_back(1 + g.r.below(3)); if (c.iargs[0] == 1) c.iargs[0] = 2; c.iargs.push_back(g.r.below(7)); }
      sc.steps.push_back(c);
      if (c.op == "delete") break;
    }
    if (sc.nranks > 1) timingFaults(g, sc, 25);
  } else if (prop == "P19") {
    sc.nranks = ranks(g, 1, 9);
    network(g, sc);
    const int n = 1 + g.r.below(2);
    for (int i = 0; i < n; ++i) {
      Step t = s;
      if (i && g.r.chance(50)) { t.reuse = true; t.keepMesh = g.r.chance(50); t.algo = sc.steps[0].algo; t.commInfo = sc.steps[0].commInfo; }
      else { t.algo = envInt("X_ALGO", sc.nranks == 1 && g.r.chance(50) ? SERIAL : g.r.chance(60) ? DISTRIBUTED : SERIALDIST); t.commInfo = g.r.chance(75); }
      w.convexOnly = g.r.chance(70);
      w.least = t.algo == SERIALDIST && g.r.chance(30) ? 0 : 1;
      if (g.r.chance(20) && attempt < 60 && sc.dim == 2) { w.modeW[UNBOUNDED] = 20; w.least = std::max(w.least, 1); }
      tessAny(g, sc, w, t, sc.label);
      coincide(g, sc.dim, t);
      sc.steps.push_back(t);
    }
    if (sc.nranks > 1) timingFaults(g, sc, 25);
  } else if (prop == "P15") {
    const bool one = g.r.chance(50);
    sc.nranks = one ? 1 : ranks(g, 2, 10);
    network(g, sc);
    s.algo = one ? SERIAL : DISTRIBUTED;
    if (one) { w.most = 40; w.convexOnly = g.r.chance(60); }
    tessAny(g, sc, w, s, sc.label);
    sc.steps.push_back(s);
    if (one) {
      s.algo = DISTRIBUTED; sc.steps.push_back(s);
      s.commInfo = false; sc.steps.push_back(s);
      s.algo = SERIALDIST; sc.steps.push_back(s);
    } else { s.commInfo = false; sc.steps.push_back(s); }
    if (sc.nranks > 1) timingFaults(g, sc, 25);
  }
  return sc;
}

Scenario generate(const std::string& prop, uint64_t seed, int tier) {
  Scenario sc;
  std::string why;
  for (int a = 0; a < 64; ++a) {
    sc = draw(prop, seed, a, tier);
    if (sc.steps.empty() || getenv("X_ANY") || admissible(sc, why)) break;
  }
  return sc;
}

//--------------------------------------------------------------------------
// The regime.

void allGenerators(const Step& s, std::vector<P2>& all, std::vector<int>& own) {
  all.clear(); own.clear();
  for (size_t k = 0; k < s.gens.size(); ++k) for (size_t i = 0; 2*i < s.gens[k].size(); ++i) { all.push_back(mk(s.gens[k][2*i], s.gens[k][2*i + 1])); own.push_back(k); }
}
void loopsOf(const Step& s, std::vector<Poly>& L) {
  L.assign(1 + (s.mode >= PLCPTS ? s.plc.holes.size() : 0), Poly());
  if (s.mode < PLCPTS) { L[0] = rect(s.low[0], s.low[1], s.high[0], s.high[1]); return; }
  for (size_t l = 0; l < L.size(); ++l) { const std::vector<std::vector<int> >& f = l ? s.plc.holes[l-1] : s.plc.facets; for (size_t i = 0; i < f.size(); ++i) L[l].push_back(mk(s.plc.points[2*f[i][0]], s.plc.points[2*f[i][0]+1])); }
}
static void bbox(const Poly& p, double* b) {
  b[0] = b[1] = 1e300; b[2] = b[3] = -1e300;
  for (size_t i = 0; i < p.size(); ++i) { b[0] = std::min(b[0], p[i].x); b[1] = std::min(b[1], p[i].y); b[2] = std::max(b[2], p[i].x); b[3] = std::max(b[3], p[i].y); }
}
double extent(const Step& s) {
  std::vector<Poly> L; loopsOf(s, L);
  double b[4]; bbox(L[0], b);
  return std::max(std::max(b[2] - b[0], b[3] - b[1]), s.stub == 2 ? s.high[2] - s.low[2] : 0);
}
Poly regionOf(const Step& s) {
  if (s.mode == UNBOUNDED) { const double l = std::max(s.high[0] - s.low[0], s.high[1] - s.low[1]); return rect(s.low[0] - l, s.low[1] - l, s.high[0] + l, s.high[1] + l); }
  std::vector<Poly> L; loopsOf(s, L); return L[0];
}

static bool stepAdmissible3(const Step& s, std::string& why) {
  std::vector<P3> all;
  for (size_t k = 0; k < s.gens.size(); ++k) {
    if (s.algo == DISTRIBUTED && s.gens[k].empty()) { why = "a rank without generators"; return false; }
    for (size_t i = 0; i + 2 < s.gens[k].size(); i += 3) all.push_back(mk3(s.gens[k][i], s.gens[k][i+1], s.gens[k][i+2]));
  }
  if (all.empty()) { why = "no generators"; return false; }
  const double len = std::max(s.high[0]-s.low[0], std::max(s.high[1]-s.low[1], s.high[2]-s.low[2]));
  for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < i; ++j) if (dist3(all[i], all[j]) < 1e-4*len) { why = "coincident generators"; return false; }
  std::vector<P3> v;
  for (size_t i = 0; i < all.size(); ++i) {
    const Poly3 c = voronoiCell3(all, i, s.low, s.high);
    for (size_t f = 0; f < c.size(); ++f) for (size_t k = 0; k < c[f].v.size(); ++k) {
      if (dist3(c[f].v[k], c[f].v[(k + 1) % c[f].v.size()]) < 3e-5*len) { why = "nearly degenerate edge"; return false; }
      v.push_back(c[f].v[k]);
    }
  }
  // shared nodes are ordered by coordinates: nearly equal ones are out
  std::sort(v.begin(), v.end(), [](const P3& a, const P3& c) { return a.c[0] < c.c[0]; });
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size() && v[j].c[0] - v[i].c[0] < 1e-6*len; ++j)
    if (dist3(v[i], v[j]) > 1e-5*len && v[i].c[0] != s.low[0] && v[j].c[0] != s.high[0]) { why = "nearly equal abscissae"; return false; }
  return true;
}

static bool stepAdmissible(const Scenario& sc, const Step& s, std::string& why) {
  if (sc.dim == 3) return s.stub != 2 || stepAdmissible3(s, why);
  std::vector<P2> all; std::vector<int> own; allGenerators(s, all, own);
  std::vector<Poly> L; loopsOf(s, L);
  if (all.empty()) { why = "no generators"; return false; }
  if (s.algo == DISTRIBUTED) for (size_t k = 0; k < s.gens.size(); ++k) if (s.gens[k].empty()) { why = "a rank without generators"; return false; }
  const double len = extent(s);
  for (size_t i = 0; i < all.size(); ++i) {
    if (!insideDomain(all[i], L, 1e-4*len)) { why = "generator outside or at the rim"; return false; }
    for (size_t j = 0; j < i; ++j) if (dist(all[i], all[j]) < 1e-4*len) { why = "coincident generators"; return false; }
  }
  double b[4]; bbox(L[0], b);
  const bool plc = s.mode >= PLCPTS, cvx = convex(L[0]) && L.size() == 1;
  const Poly box = s.mode == UNBOUNDED ? regionOf(s) : rect(b[0], b[1], b[2], b[3]);
  std::vector<Poly> cell;
  for (size_t i = 0; i < all.size(); ++i) {
    cell.push_back(voronoiCell(all, i, cvx && s.mode != UNBOUNDED ? L[0] : box));
    const Poly& c = cell.back();
    for (size_t k = 0; k < c.size(); ++k) {
      const double e = dist(c[k], c[(k + 1) % c.size()])/len;
      if (e > 1e-12 && e < 3e-5) { why = "nearly degenerate edge"; return false; }
      if (plc && e < 3e-5) { why = "degenerate vertex in a PLC"; return false; }
    }
  }
  std::vector<P2> clipped;
  if (plc && !cvx) {
    double shortest; int extra;
    if (clippedShape(all, L, shortest, &extra, &clipped) > 1 && s.algo == DISTRIBUTED) { why = "a cell falls into pieces"; return false; }
    if (extra >= 100 || (extra > 0 && !adoptable(all, L))) { why = "several cells fall into pieces"; return false; }
    if (shortest < 3e-5*len) { why = "nearly degenerate edge"; return false; }
    if (s.algo == DISTRIBUTED && s.gens.size() > 1) {
      std::vector<std::vector<char> > touch;
      clippedTouch(all, L, touch);
      for (int which = 0; which < 2; ++which) {       // neighbours as seen without and with the outline
        std::vector<std::set<int> > nb(s.gens.size());
        for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); ++j) if (own[i] != own[j] && !nb[own[i]].count(own[j])) {
          if (which) { if (touch[i][j]) nb[own[i]].insert(own[j]); }
          else for (size_t a = 0; a < cell[i].size(); ++a) if (distToBoundary(cell[i][a], cell[j]) < 1e-9*len) { nb[own[i]].insert(own[j]); break; }
        }
        for (size_t r = 0; r < s.gens.size(); ++r) {
          std::vector<P2> sub;
          for (size_t i = 0; i < all.size(); ++i) if (own[i] == (int)r || nb[r].count(own[i])) sub.push_back(all[i]);
          if (clippedShape(sub, L, shortest) > 1) { why = "a cell falls into pieces in a rank's view"; return false; }
          if (shortest < 3e-5*len) { why = "nearly degenerate edge in a rank's view"; return false; }
        }
      }
    }
  }
  if (plc && sc.nranks > 1 && s.algo == DISTRIBUTED) {
    // shared nodes are ordered by coordinates: nearly equal ones are out
    std::vector<P2> v = clipped;
    if (cvx) for (size_t i = 0; i < cell.size(); ++i) v.insert(v.end(), cell[i].begin(), cell[i].end());
    std::sort(v.begin(), v.end(), [](const P2& a, const P2& c) { return a.x < c.x; });
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size() && v[j].x - v[i].x < 1e-6*len; ++j)
      if (fabs(v[j].y - v[i].y) > 1e-5*len) {
        // on the same vertical line of the outline is fine when exactly so
        if (fabs(v[i].x - v[j].x) > 1e-8*len) { why = "nearly equal abscissae"; return false; }
      }
  }
  return true;
}

bool admissible(const Scenario& sc, std::string& why) {
  for (size_t k = 0; k < sc.steps.size(); ++k) {
    const Step& s = sc.steps[k];
    if (s.op == "degen") {
      std::vector<std::vector<long> > group;
      if (!stepAdmissible(sc, uniqueStep(s, sc.dim, group), why)) return false;
      continue;
    }
    if (s.op == "c" ? s.iargs[0] != C_TESSELLATE && s.iargs[0] != C_ADOPT : s.op != "tess" && s.op != "oom") continue;
    if (s.algo == SERIAL && sc.nranks > 1) {             // each rank tessellates what is its own
      for (int r = 0; r < sc.nranks; ++r) { Step own = s; own.gens.assign(1, s.gens[r]); if (own.mode == UNBOUNDED && own.gens[0].size() < 8) { why = "too few generators"; return false; } if (!stepAdmissible(sc, own, why)) return false; }
      continue;
    }
    if (!stepAdmissible(sc, sc.steps[k], why)) return false;
  }
  return true;
}

Step uniqueStep(const Step& s, int dim, std::vector<std::vector<long> >& group) {
  Step u = s; u.op = "tess"; u.iargs.clear();
  const double tol = degenerateTol(s, dim);
  group.assign(s.gens.size(), std::vector<long>());
  for (size_t k = 0; k < s.gens.size(); ++k) {
    std::vector<double>& x = u.gens[k]; x.clear();
    for (size_t i = 0; i + dim <= s.gens[k].size(); i += dim) {
      size_t j = 0;
      for (; j < x.size(); j += dim) { bool same = true; for (int d = 0; d < dim; ++d) same = same && fabs(x[j + d] - s.gens[k][i + d]) < 0.5*tol; if (same) break; }
      if (j == x.size()) x.insert(x.end(), s.gens[k].begin() + i, s.gens[k].begin() + i + dim);
      group[k].push_back(j/dim);
    }
  }
  return u;
}

Scenario benign(const Scenario& sc) {
  Scenario b = sc;
  b.net = Net(); b.faults.clear();
  return b;
}

}
