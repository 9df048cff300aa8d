// Data shared between the simulator executable and the per-rank libraries:
// what a simulated job does (Scenario), what perturbs it (Fault), and what
// each rank hands back (RankOut).  Plain data only.
#ifndef POLYSIM_SCENARIO_HH
#define POLYSIM_SCENARIO_HH
#include <stdint.h>
#include <string>
#include <vector>
#include <map>

namespace psim {

enum Mode { UNBOUNDED = 0, BOX = 1, PLCPTS = 2, REDUCED = 3 };
// steps of kind "c": iargs are the operation, the mesh, the tessellator or PLC,
// and the callers that take part.  C_ADOPT: the C mesh is filled by its user
// with a mesh the C++ classes made in parallel.
enum COp { C_TESSELLATE = 0, C_CLEAR, C_NEW, C_FREE, C_FREETESS, C_FREEPLC, C_PLC, C_INFO, C_ADOPT, C_NOPS };
enum Algo { DISTRIBUTED = 0, SERIALDIST = 1, SERIAL = 2, CAPI = 3 };

struct PlcGeom {
  std::vector<double> points;
  std::vector<std::vector<int> > facets;
  std::vector<std::vector<std::vector<int> > > holes;
};

// One collective tessellation call (or another operation) in a job.
struct Step {
  std::string op;            // "tess", "check", "corrupt", "silo"
  int mode;
  bool commInfo;
  int algo;
  bool reuse;                // reuse the tessellator object of the previous step
  bool keepMesh;             // reuse the previous step's mesh object after clear()
  int stub;                  // serial tessellator in 3d: 2 general generators, else a lattice on each rank
  std::vector<std::vector<double> > gens;   // per rank generators
  double low[3], high[3];
  PlcGeom plc;
  std::vector<int> iargs;    // operation specific
  std::vector<std::string> sargs;
  Step(): mode(BOX), commInfo(true), algo(0), reuse(false), keepMesh(false), stub(0) {
    for (int i = 0; i < 3; ++i) { low[i] = 0; high[i] = 1; }
  }
};

// steps of kind "degen" (generators that coincide): iargs[0] is the tolerance in
// billionths of the extent of the step
inline double degenerateTol(const Step& s, int dim) {
  double l = 0;
  for (int d = 0; d < dim; ++d) if (s.high[d] - s.low[d] > l) l = s.high[d] - s.low[d];
  return 1e-9*s.iargs[0]*l;
}

enum FaultKind {
  F_SLOW = 0,     // a: rank, b: factor                (slow node)
  F_STALL,        // a: rank, b: op index, c: duration (stalled node)
  F_HOLD,         // a: rank mask, b: t0, c: t1         (partition, heals at t1)
  F_CRASH,        // a: rank, b: op index               (the job dies there)
  F_IOFAIL,       // a: rank, b: io index, c: 0 one-shot, 1 from there on
  F_ALLOC,        // a: rank, b: where in the armed section (millionths), c: 0 one-shot / 1 sticky, + 2*section
  F_NKINDS
};
extern const char* faultName[];

struct Fault { int kind; int64_t a, b, c; };

// How the simulated network and the simulated machines behave in one job.
struct Net {
  int sendMode;      // 0 eager, 1 rendezvous, 2 eager below limit, 3 per message
  int eagerLimit;
  int lateRead;      // percent of nonblocking sends whose buffer is read late
  int collSync;      // percent of collectives that synchronise all ranks
  int latency;       // 0 none, 1 mild, 2 heavy tailed, 3 adversarial
  int compute;       // same scale, for time between calls
  int preempt;       // percent of allocations at which a caller thread is preempted
  Net(): sendMode(0), eagerLimit(0), lateRead(0), collSync(0), latency(0), compute(0), preempt(0) {}
};

struct Scenario {
  std::string workload;      // property id whose oracle judges the run
  uint64_t seed;
  int dim;
  int nranks;
  std::vector<Step> steps;
  Net net;
  std::vector<Fault> faults;
  std::string label;         // generator regime, for coverage statistics
  bool useTrace;             // replay: take choices from traces[job] (0 when used up)
  std::vector<std::vector<int> > traces;
  Scenario(): seed(0), dim(2), nranks(1), useTrace(false) {}
};

struct MeshDump {
  std::vector<double> nodes;
  std::vector<std::vector<int> > cells;
  std::vector<std::vector<unsigned> > faces;
  std::vector<unsigned> boundaryNodes, boundaryFaces;
  std::vector<std::vector<int> > faceCells;
  std::vector<std::vector<int> > hullFacets;
  std::vector<unsigned> neighborDomains;
  std::vector<std::vector<unsigned> > sharedNodes, sharedFaces;
  bool operator==(const MeshDump& o) const;
};

struct StepOut {
  bool done;
  bool threw;
  std::string what;
  std::string text;          // checker verdict, ...
  std::vector<std::string> texts;
  std::vector<long> ints;
  MeshDump mesh, mesh2;
  StepOut(): done(false), threw(false) {}
};

// What a "write" step writes besides the mesh: known functions of the rank.
// iargs: 0 number of files, 1 cycle, 2 own directory, 3-6 numbers of node, edge,
// face and cell fields, 7-10 numbers of tag lists, 11 MPI tag, 12 faults armed,
// 13 the overload used.  sargs: prefix, directory.
enum { W_FILES, W_CYCLE, W_DIR, W_FIELDS, W_TAGS = 7, W_TAG = 11, W_ARMED, W_CALL, W_NARGS };
static const char* const elemName[4] = { "node", "edge", "face", "cell" };
inline std::string fieldName(int kind, int i) { return std::string(elemName[kind]) + "_field_" + char('a' + i); }
inline std::string tagName(int kind, int i) { return std::string(elemName[kind]) + " group " + char('A' + i); }
inline double fieldValue(int rank, int cycle, int kind, int i, int k) { return 1000*rank + 100*kind + 10*i + 0.001*k + 0.25*cycle; }
inline int tagLength(int rank, int kind, int i) { return (3*rank + 5*kind + 7*i) % 6 + (i == 0 ? 1 : 0); }
inline int tagValue(int rank, int kind, int i, int k) { return 100*rank + 10*kind + i + 1000*k; }

struct RankOut {
  bool finished;
  std::vector<StepOut> steps;
  long heapLive, newLive;      // blocks the code under test still holds at the end
  RankOut(): finished(false), heapLive(0), newLive(0) {}
};

} // namespace psim

extern "C" {
// provided by the per-rank library
typedef void (*psim_rank_main_t)(const psim::Scenario*, int rank, psim::RankOut*);
// provided by the simulator
void psim_io_arm(int on);                         // storage faults armed, counted from here
void psim_note(const char* what);                 // reach probe
void psim_yield(const char* what);                // scheduling point
void psim_alloc_scope(int on);                    // allocations counted?
void psim_alloc_arm(int section, long total);     // faults of this section armed; it makes about total allocations (0: disarm)
int  psim_alloc_fired(void);                      // did a fault fire on this rank?
long psim_alloc_count(void);                      // allocations in scope so far
long psim_alloc_live(void);                       // live tracked allocations
void* psim_malloc(size_t n);                        // what malloc and free of the C interface become
void psim_free(void* p);
long psim_heap_live(void);                        // live blocks of malloc, strdup, ...
}
#endif
