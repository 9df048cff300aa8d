// Replay files: a scenario, the violation it shows and the recorded schedule.
#include "harness.hh"
#include <sstream>
#include <stdio.h>
#include <stdlib.h>

namespace psim {
namespace {

std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%a", x); return b; }
std::string enc(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { const unsigned char c = s[i]; if (c <= ' ' || c == '%' || c > 126) { char b[8]; snprintf(b, sizeof b, "%%%02x", c); o += b; } else o += c; } return o.empty() ? "%" : o; }
std::string dec(const std::string& s) { std::string o; if (s == "%") return o; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i]; return o; }

void facets(std::ostream& o, const char* k, const std::vector<std::vector<int> >& f) {
  o << " " << k << " " << f.size();
  for (size_t i = 0; i < f.size(); ++i) { o << " " << f[i].size(); for (size_t j = 0; j < f[i].size(); ++j) o << " " << f[i][j]; }
  o << "\n";
}
bool facets(std::istream& in, std::vector<std::vector<int> >& f) {
  size_t n; if (!(in >> n) || n > 100000) return false;
  f.assign(n, std::vector<int>());
  for (size_t i = 0; i < n; ++i) { size_t m; if (!(in >> m) || m > 100000) return false; f[i].resize(m); for (size_t j = 0; j < m; ++j) in >> f[i][j]; }
  return bool(in);
}
double real(std::istream& in) { std::string t; in >> t; return strtod(t.c_str(), 0); }

}

std::string writeScenario(const Scenario& sc, const std::string& clause) {
  std::ostringstream o;
  o << "polysim-replay 1\nworkload " << sc.workload << "\nseed " << sc.seed << "\ndim " << sc.dim << "\nnranks " << sc.nranks << "\nlabel " << enc(sc.label) << "\n";
  const Net& n = sc.net;
  o << "net " << n.sendMode << " " << n.eagerLimit << " " << n.lateRead << " " << n.collSync << " " << n.latency << " " << n.compute << " " << n.preempt << "\n";
  for (size_t i = 0; i < sc.faults.size(); ++i) o << "fault " << faultName[sc.faults[i].kind] << " " << sc.faults[i].kind << " " << sc.faults[i].a << " " << sc.faults[i].b << " " << sc.faults[i].c << "\n";
  for (size_t k = 0; k < sc.steps.size(); ++k) {
    const Step& s = sc.steps[k];
    o << "step " << s.op << " " << s.mode << " " << s.commInfo << " " << s.algo << " " << s.reuse << " " << s.keepMesh << " " << s.stub << "\n";
    o << " low " << num(s.low[0]) << " " << num(s.low[1]) << " " << num(s.low[2]) << "\n high " << num(s.high[0]) << " " << num(s.high[1]) << " " << num(s.high[2]) << "\n";
    for (size_t r = 0; r < s.gens.size(); ++r) { o << " gens " << r << " " << s.gens[r].size(); for (size_t i = 0; i < s.gens[r].size(); ++i) o << " " << num(s.gens[r][i]); o << "\n"; }
    if (!s.plc.points.empty()) {
      o << " plcpoints " << s.plc.points.size(); for (size_t i = 0; i < s.plc.points.size(); ++i) o << " " << num(s.plc.points[i]); o << "\n";
      facets(o, "plcfacets", s.plc.facets);
      for (size_t h = 0; h < s.plc.holes.size(); ++h) facets(o, "plchole", s.plc.holes[h]);
    }
    if (!s.iargs.empty()) { o << " iargs " << s.iargs.size(); for (size_t i = 0; i < s.iargs.size(); ++i) o << " " << s.iargs[i]; o << "\n"; }
    if (!s.sargs.empty()) { o << " sargs " << s.sargs.size(); for (size_t i = 0; i < s.sargs.size(); ++i) o << " " << enc(s.sargs[i]); o << "\n"; }
  }
  if (!clause.empty()) o << "expect " << clause << "\n";
  if (sc.useTrace) for (size_t j = 0; j < sc.traces.size(); ++j) {
    o << "trace " << j << " " << sc.traces[j].size();
    for (size_t i = 0; i < sc.traces[j].size(); ++i) o << " " << sc.traces[j][i];
    o << "\n";
  }
  o << "end\n";
  return o.str();
}

bool readScenario(const std::string& text, Scenario& sc, std::string& clause) {
  std::istringstream in(text);
  std::string k; int ver;
  sc = Scenario(); clause.clear();
  if (!(in >> k >> ver) || k != "polysim-replay" || ver != 1) return false;
  while (in >> k) {
    Step* s = sc.steps.empty() ? 0 : &sc.steps.back();
    if (k == "end") return true;
    if (k == "workload") in >> sc.workload;
    else if (k == "seed") in >> sc.seed;
    else if (k == "dim") in >> sc.dim;
    else if (k == "nranks") in >> sc.nranks;
    else if (k == "label") { std::string t; in >> t; sc.label = dec(t); }
    else if (k == "net") in >> sc.net.sendMode >> sc.net.eagerLimit >> sc.net.lateRead >> sc.net.collSync >> sc.net.latency >> sc.net.compute >> sc.net.preempt;
    else if (k == "fault") { std::string nm; Fault f; in >> nm >> f.kind >> f.a >> f.b >> f.c; sc.faults.push_back(f); }
    else if (k == "step") { sc.steps.push_back(Step()); Step& t = sc.steps.back(); in >> t.op >> t.mode >> t.commInfo >> t.algo >> t.reuse >> t.keepMesh >> t.stub; t.gens.assign(sc.nranks, std::vector<double>()); }
    else if (k == "expect") in >> clause;
    else if (k == "trace") { size_t j, n; in >> j >> n; if (!in || j > 100 || n > (1u << 26)) return false; if (sc.traces.size() <= j) sc.traces.resize(j + 1); sc.traces[j].resize(n); for (size_t i = 0; i < n; ++i) in >> sc.traces[j][i]; sc.useTrace = true; }
    else if (!s) return false;
    else if (k == "low") for (int i = 0; i < 3; ++i) s->low[i] = real(in);
    else if (k == "high") for (int i = 0; i < 3; ++i) s->high[i] = real(in);
    else if (k == "gens") { size_t r, n; in >> r >> n; if (!in || r > 1000 || n > 10000000) return false; if (s->gens.size() <= r) s->gens.resize(r + 1); s->gens[r].resize(n); for (size_t i = 0; i < n; ++i) s->gens[r][i] = real(in); }
    else if (k == "plcpoints") { size_t n; in >> n; if (!in || n > 1000000) return false; s->plc.points.resize(n); for (size_t i = 0; i < n; ++i) s->plc.points[i] = real(in); }
    else if (k == "plcfacets") { if (!facets(in, s->plc.facets)) return false; }
    else if (k == "plchole") { std::vector<std::vector<int> > h; if (!facets(in, h)) return false; s->plc.holes.push_back(h); }
    else if (k == "iargs") { size_t n; in >> n; if (!in || n > 1000000) return false; s->iargs.resize(n); for (size_t i = 0; i < n; ++i) in >> s->iargs[i]; }
    else if (k == "sargs") { size_t n; in >> n; if (!in || n > 10000) return false; s->sargs.resize(n); for (size_t i = 0; i < n; ++i) { std::string t; in >> t; s->sargs[i] = dec(t); } }
    else return false;
    if (!in) return false;
  }
  return false;
}

}
