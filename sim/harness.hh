// What the generator, the oracles and the driver share.
#ifndef POLYSIM_HARNESS_HH
#define POLYSIM_HARNESS_HH
#include "sim.hh"
#include "geom.hh"
#include <string>

namespace psim {

enum { NLIBS = 18, MAXRANKS = 16, REFLIB = 17, AUXLIB = 16 };
extern std::vector<psim_rank_main_t> libs;

struct Verdict {
  bool bad;
  bool fatal;              // the check itself failed; not a verdict
  std::string clause;      // stable short name of what was violated
  std::string text;        // human readable
  bool nontrivial;         // the run reached what the property is about
  uint64_t cover;          // hash of the run's observable outcome
  JobStats st;             // summed over the jobs of this run
  int jobs;
  std::map<std::string, uint64_t> reach;   // rare conditions hit, by name
  std::string log;
  std::vector<std::vector<int> > traces;
  Verdict(): bad(false), fatal(false), nontrivial(false), cover(0), jobs(0) {}
};

// Runs a job on libraries [first, first + nranks) (all on one when shared).
JobResult execJob(const Scenario& sc, int firstLib, bool shared, bool verbose, Verdict& v);

void addStats(JobStats& a, const JobStats& b);

Scenario generate(const std::string& prop, uint64_t seed, int tier);
// Is the scenario inside the regime the property speaks about?  A pure function
// of the scenario's inputs, also consulted while minimising.
bool admissible(const Scenario& sc, std::string& why);
Verdict judge(const Scenario& sc, bool verbose);
void say(Verdict& v, const char* clause, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

std::vector<int> groupsOf(const Step& s, int nproc);      // the file of each rank
bool readDump(const Step& s, const std::vector<const MeshDump*>& m, int dim, std::string& why);
bool readDomain(const Step& s, const MeshDump& m, int rank, int nproc, int dim, std::string& why);

std::string writeScenario(const Scenario& sc, const std::string& clause);
bool readScenario(const std::string& text, Scenario& sc, std::string& clause);

// geometry of a step
void allGenerators(const Step& s, std::vector<P2>& all, std::vector<int>& own);
void loopsOf(const Step& s, std::vector<Poly>& L);
double extent(const Step& s);                       // largest side of the domain
Poly regionOf(const Step& s);                       // outer loop or box
// A "degen" step with one generator of each coinciding group, the first, and the group of each generator.
Step uniqueStep(const Step& s, int dim, std::vector<std::vector<long> >& group);
Scenario benign(const Scenario& sc);                // same work, calm machine

// per-mesh oracles (oracle.cc); L: length scale
struct MeshSet { const Step* s; std::vector<const MeshDump*> m; double L; bool comm; };
void checkEnd(Verdict& v, const Scenario& sc, const JobResult& r, const char* what = "");
bool meshesOf(Verdict& v, const Scenario& sc, const JobResult& r, int step, MeshSet& out);
void checkCounts(Verdict& v, const MeshSet& ms, int dim);
void checkBoundary(Verdict& v, const MeshSet& ms);
void checkVoronoi3(Verdict& v, const MeshSet& ms);
void checkLocal(Verdict& v, const MeshSet& ms, int dim, bool oriented = true);
void checkVoronoi(Verdict& v, const MeshSet& ms);
void checkArea(Verdict& v, const MeshSet& ms, bool perCell);
bool tied(const Step& s, double x, double y, double L);
bool anyTied(const Step& s, const std::vector<const MeshDump*>& ms, double L);
void checkComm(Verdict& v, const MeshSet& ms, int dim, bool complete);
bool commConsistent(const std::vector<const MeshDump*>& ms, double L, int dim, std::string& why);
void checkEdited(Verdict& v, const MeshSet& before, const MeshSet& after, const Step& edit);
void checkBits(Verdict& v, const MeshSet& ms, int dim);
void checkSame(Verdict& v, const char* clause, const MeshDump& a, const MeshDump& b, const std::string& what, double tol, int dim);
uint64_t hashMesh(const MeshDump& m);
bool cellPoly(const MeshDump& m, size_t c, Poly& out, std::string& why);

// properties (props.cc)
void judgeProperty(const Scenario& sc, Verdict& v, bool verbose);

// storage (store.cc)
std::string scratchDir();                            // current working directory of a run

}
#endif
