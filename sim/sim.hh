// The deterministic simulator: fibers, event queue, choices, faults.
#ifndef POLYSIM_SIM_HH
#define POLYSIM_SIM_HH
#include "scenario.hh"
#include <ucontext.h>
#include <deque>
#include <queue>
#include <functional>

namespace psim {

struct Rng {                       // splitmix64 / xorshift: fully specified
  uint64_t s;
  explicit Rng(uint64_t seed = 1): s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 1 ? 0 : int(next() % uint64_t(n)); }
  int range(int a, int b) { return a + below(b - a + 1); }   // inclusive
  double unit() { return double(next() >> 11) / 9007199254740992.0; }
  bool chance(int percent) { return below(100) < percent; }
};

struct Hash {
  uint64_t h;
  Hash(): h(1469598103934665603ULL) {}
  void bytes(const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  }
  void u64(uint64_t v) { bytes(&v, sizeof v); }
  void str(const std::string& s) { u64(s.size()); bytes(s.data(), s.size()); }
};

enum EndState { END_OK = 0, END_DEADLOCK, END_ABORT, END_MPIERR, END_STEPLIMIT, END_CRASH, END_IOMISUSE, END_HEAP };
extern const char* endName[];

struct JobStats {
  uint64_t events, mpiCalls, messages, ioCalls, choices, simTime;
  uint64_t ilHash;               // order of scheduling decisions (no times)
  uint64_t logHash;              // everything, times included
  uint64_t faultFired[16];
  uint64_t rendezvous, lateReads, syncColl, delayed, holds, crossed;
  uint64_t probes[32];
  JobStats();
};

struct JobResult {
  int end;
  std::string why;
  std::vector<std::string> leftovers;      // unreceived messages, unfinished requests
  std::vector<RankOut> ranks;
  std::vector<std::pair<int, std::string> > failedIo;   // rank, operation
  std::vector<std::string> openAtEnd;      // files open for writing when the job ended
  std::vector<int> choices;                // the trace
  JobStats st;
  std::string log;
  JobResult(): end(END_OK) {}
};

struct Fiber {
  ucontext_t ctx;
  char* stack;
  int rank;
  int state;              // 0 new, 1 ready (resume event pending), 2 blocked, 3 running, 4 finished, 5 crashed
  bool timer;             // resume event pending
  uint64_t opCount, ioCount, allocCount;
  int allocScope;
  int inSim;              // inside a simulator call: allocations are not the code under test
  bool allocFired;
  int allocArm;           // ordinal of the armed section, counted from 1; 0: none
  uint64_t allocBase, allocTotal;
  bool ioArmed;
  int preemptIn;          // allocations until this caller thread is preempted; 0: never
  long allocLive;
  long heapLive;
  void* eh[2];
  int err;
  const char* where;
};

struct Event { uint64_t t, seq; int kind; int a; };
struct EventLess {
  bool operator()(const Event& x, const Event& y) const { return x.t != y.t ? x.t > y.t : x.seq > y.seq; }
};

struct Msg;

struct Sim {
  const Scenario* sc;
  JobResult* res;
  Rng rng;
  const std::vector<int>* trace;
  size_t tracePos;
  uint64_t now, seq;
  std::priority_queue<Event, std::vector<Event>, EventLess> q;
  std::vector<Fiber> fibers;
  ucontext_t main;
  void* mainEh[2];
  int cur;                // running fiber, -1 in the scheduler
  bool stop;
  bool verbose;
  bool preemptAlloc;      // allocation is a scheduling point (caller threads)
  int noPreempt;
  Hash il, lg;
  uint64_t stepLimit;

  Sim(const Scenario* s, int job, JobResult* r, bool v);
  ~Sim();
  void run(const std::vector<psim_rank_main_t>& mains);

  int choose(int n, const int* weights);        // traced choice, 0 = benign
  int chooseUniform(int n);
  bool chance(int percent);                     // traced
  uint64_t delay(int scale);                    // traced
  void log(const std::string& s);
  void push(uint64_t t, int kind, int a);
  void toScheduler();
  void wake(int rank);
  void sleepFor(uint64_t dt);
  void block(const char* where);                // until wake()
  void enterOp(const char* op);                 // scheduling point + faults
  bool enterIo(const char* op);                 // same for I/O; true: fail this call
  void crashNow();
  void finish(int end, const std::string& why);
  uint64_t held(int src, int dst, uint64_t t);
  void probe(int i) { res->st.probes[i]++; }
};

extern Sim* g;
extern int* sharedTrace;          // choices survive a crash of the process: [0] = length
enum { SHARED_TRACE = 1 << 20 };

void mpiReset();
void mpiArrive(int msgIndex);
void mpiComplete(int reqIndex);
void mpiLeftovers();

JobResult runJob(const Scenario& sc, int job, const std::vector<psim_rank_main_t>& mains, bool verbose);

}
#endif
