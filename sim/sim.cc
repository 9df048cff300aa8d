#include "sim.hh"
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <cxxabi.h>
#include <exception>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace psim {

const char* faultName[] = { "slow_rank", "stalled_rank", "partition_hold", "crash", "io_error", "alloc_failure" };
const char* endName[] = { "ok", "deadlock", "abort", "mpi_error", "step_limit", "crash", "io_misuse", "heap_misuse" };

JobStats::JobStats() { memset(this, 0, sizeof *this); }

bool MeshDump::operator==(const MeshDump& o) const {
  return nodes.size() == o.nodes.size() &&
    (nodes.empty() || memcmp(&nodes[0], &o.nodes[0], nodes.size()*sizeof(double)) == 0) &&
    cells == o.cells && faces == o.faces && boundaryNodes == o.boundaryNodes &&
    boundaryFaces == o.boundaryFaces && faceCells == o.faceCells && hullFacets == o.hullFacets &&
    neighborDomains == o.neighborDomains && sharedNodes == o.sharedNodes && sharedFaces == o.sharedFaces;
}

Sim* g = 0;
int* sharedTrace = 0;
static const size_t STACK = 8u << 20;
static std::vector<psim_rank_main_t> g_mains;

enum { EV_RESUME = 0, EV_ARRIVE, EV_COMPLETE, EV_KILL };

Sim::Sim(const Scenario* s, int job, JobResult* r, bool v):
  sc(s), res(r), rng(s->seed * 0x2545F4914F6CDD1DULL + 12345 + 977*job), trace(0), tracePos(0), now(0), seq(0),
  cur(-1), stop(false), verbose(v), preemptAlloc(false), noPreempt(0), stepLimit(2000000) {
  static const std::vector<int> none;
  if (s->useTrace) trace = job < (int)s->traces.size() ? &s->traces[job] : &none;
  if (sharedTrace && sharedTrace[0] + 2 < SHARED_TRACE) sharedTrace[1 + sharedTrace[0]++] = -1;   // next job
  mainEh[0] = mainEh[1] = 0;
}

Sim::~Sim() {
  for (size_t i = 0; i < fibers.size(); ++i) if (fibers[i].stack) munmap(fibers[i].stack, STACK);
}

void Sim::log(const std::string& s) {
  lg.u64(now); lg.str(s);
  if (verbose) { char b[32]; snprintf(b, sizeof b, "%10llu ", (unsigned long long)now); res->log += b; res->log += s; res->log += '\n'; }
}

int Sim::choose(int n, const int* w) {
  int v;
  res->st.choices++;
  if (trace) {
    v = tracePos < trace->size() ? (*trace)[tracePos] : 0;
    ++tracePos;
    if (v < 0 || v >= n) v = 0;
  } else {
    int tot = 0;
    for (int i = 0; i < n; ++i) tot += w[i];
    int r = rng.below(tot);
    for (v = 0; v < n - 1; ++v) { if (r < w[v]) break; r -= w[v]; }
  }
  res->choices.push_back(v);
  if (sharedTrace && sharedTrace[0] + 2 < SHARED_TRACE) sharedTrace[1 + sharedTrace[0]++] = v;
  return v;
}

int Sim::chooseUniform(int n) {
  std::vector<int> w(n, 1);
  return choose(n, &w[0]);
}

bool Sim::chance(int percent) {
  if (percent <= 0) return false;
  int w[2] = { 100 - percent, percent };
  return choose(2, w) == 1;
}

// Simulated microseconds.  Index 0 is always "no delay".
uint64_t Sim::delay(int scale) {
  static const uint64_t d[8] = { 0, 1, 4, 15, 60, 400, 5000, 100000 };
  static const int w[4][8] = { {1,0,0,0,0,0,0,0}, {4,4,3,2,1,0,0,0}, {6,4,4,3,3,2,1,1}, {4,1,1,1,2,3,3,2} };
  if (scale <= 0) return 0;
  int i = choose(8, w[scale > 3 ? 3 : scale]);
  if (i >= 5) res->st.delayed++;
  return d[i];
}

void Sim::push(uint64_t t, int kind, int a) { Event e = { t, seq++, kind, a }; q.push(e); }

static void swapEh(void** save, void** load) {
  void** p = (void**)__cxxabiv1::__cxa_get_globals();
  save[0] = p[0]; save[1] = p[1];
  p[0] = load[0]; p[1] = load[1];
}

void Sim::toScheduler() {
  Fiber& f = fibers[cur];
  f.err = errno;
  swapEh(f.eh, mainEh);
  swapcontext(&f.ctx, &main);
  errno = f.err;
}

void Sim::wake(int rank) {
  Fiber& f = fibers[rank];
  if (f.state == 2 && !f.timer) { f.timer = true; push(now, EV_RESUME, rank); }
}

void Sim::block(const char* where) {
  Fiber& f = fibers[cur];
  f.state = 2; f.where = where; f.timer = false;
  toScheduler();
}

void Sim::sleepFor(uint64_t dt) {
  Fiber& f = fibers[cur];
  f.state = 1; f.timer = true;
  push(now + dt, EV_RESUME, f.rank);
  toScheduler();
}

void Sim::finish(int end, const std::string& why) {
  if (!stop) { stop = true; res->end = end; res->why = why; }
  if (cur >= 0) { toScheduler(); abort(); }
}

uint64_t Sim::held(int src, int dst, uint64_t t) {
  uint64_t at = t;
  for (size_t i = 0; i < sc->faults.size(); ++i) {
    const Fault& f = sc->faults[i];
    if (f.kind != F_HOLD) continue;
    if (((f.a >> src) & 1) == ((f.a >> dst) & 1)) continue;
    if (t >= (uint64_t)f.b && t < (uint64_t)f.c) { at = std::max(at, (uint64_t)f.c); res->st.holds++; res->st.faultFired[F_HOLD]++; }
  }
  return at;
}

// The process of this rank is gone; the others run on until the launcher kills
// the job a little later.
void Sim::crashNow() {
  Fiber& f = fibers[cur];
  res->st.faultFired[F_CRASH]++;
  char b[48]; snprintf(b, sizeof b, "r%d CRASH", f.rank); log(b);
  push(now + delay(2), EV_KILL, f.rank);
  f.state = 5; f.where = "crashed";
  toScheduler();
  abort();
}

void Sim::enterOp(const char* op) {
  Fiber& f = fibers[cur];
  res->st.mpiCalls++;
  const int64_t k = f.opCount++;
  uint64_t d = delay(sc->net.compute);
  for (size_t i = 0; i < sc->faults.size(); ++i) {
    const Fault& x = sc->faults[i];
    if (x.a != f.rank) continue;
    if (x.kind == F_SLOW) { d = d * x.b + x.b; res->st.faultFired[F_SLOW]++; }
    else if (x.kind == F_STALL && x.b == k) { d += x.c; res->st.faultFired[F_STALL]++; }
    else if (x.kind == F_CRASH && x.c == 0 && x.b == k) {
      crashNow();
    }
  }
  sleepFor(d);
  il.u64(f.rank); il.str(op);
  if (verbose || true) { char b[96]; snprintf(b, sizeof b, "r%d %s #%lld", f.rank, op, (long long)k); log(b); }
}

bool Sim::enterIo(const char* op) {
  Fiber& f = fibers[cur];
  res->st.ioCalls++;
  const int64_t k = f.ioCount++;
  uint64_t d = delay(sc->net.compute);
  bool fail = false;
  for (size_t i = 0; i < sc->faults.size(); ++i) {
    const Fault& x = sc->faults[i];
    if (x.a != f.rank) continue;
    if (x.kind == F_SLOW) { d = d * x.b + x.b; res->st.faultFired[F_SLOW]++; }
    else if (!f.ioArmed) continue;
    else if (x.kind == F_CRASH && (x.c & 15) == 1 && x.b == k) {
      crashNow();
    }
    else if (x.kind == F_IOFAIL && (x.b == k || (x.c == 1 && k > x.b))) { fail = true; res->st.faultFired[F_IOFAIL]++; res->failedIo.push_back(std::make_pair(f.rank, std::string(op))); }
  }
  sleepFor(d);
  il.u64(f.rank); il.str(op);
  char b[128]; snprintf(b, sizeof b, "r%d io %s #%lld%s", f.rank, op, (long long)k, fail ? " FAIL" : ""); log(b);
  return fail;
}

static void fiberMain(unsigned lo, unsigned hi) {
  (void)hi;
  const int r = (int)lo;
  RankOut& out = g->res->ranks[r];
  try {
    g_mains[r](g->sc, r, &out);
    out.finished = true;
  } catch (std::exception& e) {
    g->finish(END_ABORT, std::string("uncaught exception on rank: ") + e.what());
  } catch (...) {
    g->finish(END_ABORT, "uncaught exception on rank");
  }
  Fiber& f = g->fibers[r];
  f.state = 4;
  g->log("finished");
  g->toScheduler();
  abort();
}

void Sim::run(const std::vector<psim_rank_main_t>& mains) {
  g = this;
  g_mains = mains;
  const int n = sc->nranks;
  res->ranks.assign(n, RankOut());
  fibers.resize(n);
  for (int i = 0; i < n; ++i) {
    Fiber& f = fibers[i];
    memset((void*)&f, 0, sizeof f);
    f.rank = i;
    f.preemptIn = -1;
    f.stack = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack;
    f.ctx.uc_stack.ss_size = STACK;
    f.ctx.uc_link = 0;
    makecontext(&f.ctx, (void(*)())fiberMain, 2, (unsigned)i, 0u);
    f.state = 1; f.timer = true;
  }
  mpiReset();
  for (int i = 0; i < n; ++i) push(delay(sc->net.compute), EV_RESUME, i);
  uint64_t steps = 0;
  while (!stop && !q.empty()) {
    Event e = q.top(); q.pop();
    now = e.t;
    res->st.events++;
    if (++steps > stepLimit) { finish(END_STEPLIMIT, "event budget used up"); break; }
    if (e.kind == EV_RESUME) {
      Fiber& f = fibers[e.a];
      if (f.state >= 4) continue;
      f.timer = false;
      f.state = 3;
      cur = e.a;
      swapEh(mainEh, f.eh);
      swapcontext(&main, &f.ctx);
      cur = -1;
    } else if (e.kind == EV_KILL) {
      finish(END_CRASH, "injected crash");
    } else if (e.kind == EV_ARRIVE) {
      mpiArrive(e.a);
    } else {
      mpiComplete(e.a);
    }
  }
  if (!stop) {
    std::string who;
    for (int i = 0; i < n; ++i) if (fibers[i].state != 4) {
      char b[96]; snprintf(b, sizeof b, " rank %d in %s;", i, fibers[i].where ? fibers[i].where : "?"); who += b;
    }
    if (!who.empty()) { res->end = END_DEADLOCK; res->why = "no rank can proceed:" + who; }
    else mpiLeftovers();
  }
  res->st.simTime = now;
  res->st.ilHash = il.h;
  res->st.logHash = lg.h;
  g = 0;
}

void ioReset();
void heapReset();
std::vector<std::string> ioOpenPaths();
JobResult runJob(const Scenario& sc, int job, const std::vector<psim_rank_main_t>& mains, bool verbose) {
  JobResult r;
  Sim s(&sc, job, &r, verbose);
  s.preemptAlloc = sc.net.preempt > 0;
  ioReset();
  heapReset();
  s.run(mains);
  r.openAtEnd = ioOpenPaths();
  return r;
}

} // namespace psim

using namespace psim;

extern "C" {
void psim_io_arm(int on) { if (g && g->cur >= 0) { Fiber& f = g->fibers[g->cur]; f.ioArmed = on != 0; f.ioCount = 0; } }
void psim_note(const char* what) { if (g) g->log(std::string("note ") + what); }
void psim_yield(const char* what) { if (g && g->cur >= 0) { Fiber& f = g->fibers[g->cur]; f.inSim++; g->il.str(what); g->sleepFor(g->delay(g->sc->net.compute)); f.inSim--; } }
void psim_alloc_scope(int on) { if (g && g->cur >= 0) g->fibers[g->cur].allocScope = on; }
void psim_alloc_arm(int section, long total) { if (g && g->cur >= 0) { Fiber& f = g->fibers[g->cur]; f.allocArm = total > 0 ? section + 1 : 0; f.allocBase = f.allocCount; f.allocTotal = total; f.allocFired = false; } }
int psim_alloc_fired(void) { return g && g->cur >= 0 && g->fibers[g->cur].allocFired; }
long psim_alloc_count(void) { return g && g->cur >= 0 ? (long)g->fibers[g->cur].allocCount : 0; }
long psim_heap_live(void) { return g && g->cur >= 0 ? g->fibers[g->cur].heapLive : 0; }
long psim_alloc_live(void) { return g && g->cur >= 0 ? g->fibers[g->cur].allocLive : 0; }
}
