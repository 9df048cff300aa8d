// What the parts of the per-rank program share.
#ifndef POLYSIM_RANK_HH
#define POLYSIM_RANK_HH
#include "polytope.hh"
#include "scenario.hh"

struct CObjects {
  virtual ~CObjects() {}
  virtual void step(const psim::Step& s, int rank, psim::StepOut& o) = 0;
  virtual void adopt(const psim::Step& s, const psim::MeshDump& m, psim::StepOut& o) = 0;
  virtual void write(const psim::Step& s, int rank, psim::StepOut& o) = 0;
};
CObjects* makeCObjects(int dim);
void dumpMesh2(const polytope::Tessellation<2, double>& m, psim::MeshDump& o);
#endif
