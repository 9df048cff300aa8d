// The driver.  Every simulated run happens in a child forked from one prepared
// process, so each starts from the same memory image, and a run that dies or
// spins is a verdict, not the end of the search.
#include "harness.hh"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <malloc.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace psim {
std::vector<psim_rank_main_t> libs;

void addStats(JobStats& a, const JobStats& b) {
  a.events += b.events; a.mpiCalls += b.mpiCalls; a.messages += b.messages; a.ioCalls += b.ioCalls; a.choices += b.choices; a.simTime += b.simTime;
  a.rendezvous += b.rendezvous; a.lateReads += b.lateReads; a.syncColl += b.syncColl; a.delayed += b.delayed; a.holds += b.holds; a.crossed += b.crossed;
  for (int i = 0; i < 16; ++i) a.faultFired[i] += b.faultFired[i];
  a.ilHash = a.ilHash*1099511628211ULL ^ b.ilHash; a.logHash = a.logHash*1099511628211ULL ^ b.logHash;
}

JobResult execJob(const Scenario& sc, int first, bool shared, bool verbose, Verdict& v) {
  std::vector<psim_rank_main_t> m;
  for (int i = 0; i < sc.nranks; ++i) m.push_back(libs[shared ? first : first + i]);
  const int job = v.jobs++;
  if (verbose) { char b[64]; snprintf(b, sizeof b, "--- job %d, %d ranks\n", job, sc.nranks); v.log += b; }
  JobResult r = runJob(sc, job, m, verbose);
  if (verbose) { v.log += r.log; v.log += std::string("--- ") + endName[r.end] + " " + r.why + "\n"; }
  v.traces.push_back(r.choices);
  addStats(v.st, r.st);
  return r;
}
}
using namespace psim;

static double wall() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6*t.tv_usec; }
static int rmOne(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }

static std::string g_scratch;                  // base directory, "" when none is needed
static int g_cpu = 10;

static void load(const char* argv0) {
  std::string dir = argv0; dir = dir.substr(0, dir.rfind('/'));
  for (int i = 0; i < NLIBS; ++i) {
    char b[600]; snprintf(b, sizeof b, "%s/librank_%02d.so", dir.c_str(), i);
    void* h = dlopen(b, RTLD_LAZY | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
    libs.push_back((psim_rank_main_t)dlsym(h, "psim_rank_main"));
  }
}

//--- verdicts over a pipe
static std::string pack(const Verdict& v, const std::string& label) {
  std::ostringstream o;
  o << "bad " << v.bad << "\nfatal " << v.fatal << "\nclause " << v.clause << "\ntext " << v.text << "\nnontrivial " << v.nontrivial << "\ncover " << v.cover << "\nlabel " << label << "\n";
  const JobStats& s = v.st;
  o << "st " << s.events << " " << s.mpiCalls << " " << s.messages << " " << s.ioCalls << " " << s.choices << " " << s.simTime << " " << s.ilHash << " " << s.logHash << " "
    << s.rendezvous << " " << s.lateReads << " " << s.syncColl << " " << s.delayed << " " << s.holds << " " << s.crossed;
  for (int i = 0; i < F_NKINDS; ++i) o << " " << s.faultFired[i];
  o << "\njobs " << v.jobs << "\n";
  for (std::map<std::string, uint64_t>::const_iterator i = v.reach.begin(); i != v.reach.end(); ++i) o << "reach " << i->first << " " << i->second << "\n";
  o << "done 1\n";
  return o.str();
}
static bool unpack(const std::string& t, Verdict& v, std::string& label) {
  std::istringstream in(t); std::string line; bool done = false;
  while (std::getline(in, line)) {
    const size_t sp = line.find(' '); const std::string k = line.substr(0, sp), x = sp == std::string::npos ? "" : line.substr(sp + 1);
    std::istringstream a(x);
    if (k == "bad") a >> v.bad; else if (k == "fatal") a >> v.fatal; else if (k == "clause") v.clause = x; else if (k == "text") v.text = x;
    else if (k == "nontrivial") a >> v.nontrivial; else if (k == "cover") a >> v.cover; else if (k == "label") label = x; else if (k == "jobs") a >> v.jobs;
    else if (k == "st") { JobStats& s = v.st; a >> s.events >> s.mpiCalls >> s.messages >> s.ioCalls >> s.choices >> s.simTime >> s.ilHash >> s.logHash >> s.rendezvous >> s.lateReads >> s.syncColl >> s.delayed >> s.holds >> s.crossed; for (int i = 0; i < F_NKINDS; ++i) a >> s.faultFired[i]; }
    else if (k == "reach") { std::string n; uint64_t c; a >> n >> c; v.reach[n] = c; }
    else if (k == "done") done = true;
  }
  return done;
}

// One run in a child.  sc == 0: generate from (prop, seed, tier).
static Verdict runChild(const Scenario* given, const std::string& prop, uint64_t seed, int tier, bool verbose, std::string& label) {
  Verdict v;
  int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
  sharedTrace[0] = 0;
  char dir[4200] = "";
  if (!g_scratch.empty()) { snprintf(dir, sizeof dir, "%s/run", g_scratch.c_str()); nftw(dir, rmOne, 16, FTW_DEPTH | FTW_PHYS); mkdir(dir, 0700); }
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    close(fd[0]);
    if (dir[0] && chdir(dir)) _exit(3);
    struct rlimit l = { (rlim_t)g_cpu, (rlim_t)g_cpu + 5 }; setrlimit(RLIMIT_CPU, &l);
    struct rlimit as = { 8ul << 30, 8ul << 30 }; setrlimit(RLIMIT_AS, &as);
    struct rlimit core = { 0, 0 }; setrlimit(RLIMIT_CORE, &core);
    const int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!verbose) dup2(nul, 2);
    std::string lb;
    Verdict c;
    {
      const Scenario sc = given ? *given : generate(prop, seed, tier);
      lb = sc.label;
      c = judge(sc, verbose);
    }
    const std::string o = pack(c, lb);
    for (size_t i = 0; i < o.size(); ) { const ssize_t k = write(fd[1], o.data() + i, o.size() - i); if (k <= 0) _exit(3); i += k; }
    if (verbose) { if (write(2, c.log.data(), c.log.size()) < 0) {} }
    _exit(0);
  }
  close(fd[1]);
  std::string o; char b[8192]; ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) o.append(b, k);
  close(fd[0]);
  int st; waitpid(pid, &st, 0);
  if (dir[0]) nftw(dir, rmOne, 16, FTW_DEPTH | FTW_PHYS);
  if (!unpack(o, v, label)) {
    v = Verdict(); v.bad = true;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { v.clause = "cpu_limit"; v.text = "the run does not end: processor time used up"; }
    else if (WIFSIGNALED(st)) { char t[64]; snprintf(t, sizeof t, "signal_%d", WTERMSIG(st)); v.clause = t; v.text = std::string("the process was killed by signal ") + strsignal(WTERMSIG(st)); }
    else { char t[64]; snprintf(t, sizeof t, "exit_%d", WEXITSTATUS(st)); v.clause = t; v.text = "the process exited on its own"; }
  }
  v.traces.clear();
  for (int i = 1; i <= sharedTrace[0]; ++i) { if (sharedTrace[i] == -1) v.traces.push_back(std::vector<int>()); else if (!v.traces.empty()) v.traces.back().push_back(sharedTrace[i]); }
  return v;
}

static std::string slurp(const char* p) { std::string s; FILE* f = fopen(p, "rb"); if (!f) { perror(p); exit(2); } char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
static void spit(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); exit(2); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string quote(const std::string& s) { std::string o = "\""; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '"' || s[i] == '\\') o += '\\'; if ((unsigned char)s[i] >= 32) o += s[i]; } return o + "\""; }

//--- search
static int search(const std::string& prop, uint64_t s0, uint64_t count, int tier, const std::string& out, double budget, int maxBad) {
  const double t0 = wall();
  uint64_t runs = 0, nontrivial = 0, jobs = 0, again = 0, unequal = 0;
  JobStats T; std::map<std::string, uint64_t> reach, labels, clauses, faultRuns;
  std::set<uint64_t> cover, il;
  std::ostringstream bad; int nbad = 0;
  std::string sample;
  uint64_t nofault = 0;
  for (uint64_t i = 0; i < count; ++i) {
    if (budget > 0 && wall() - t0 > budget) break;
    const uint64_t seed = s0 + i;
    std::string label;
    Verdict v = runChild(0, prop, seed, tier, false, label);
    if (label.empty()) label = generate(prop, seed, tier).label;
    ++runs; jobs += v.jobs;
    if (i % 97 == 0 && !v.bad) {                // the same seed is the same execution
      std::string l2; Verdict w = runChild(0, prop, seed, tier, false, l2);
      ++again; if (w.st.logHash != v.st.logHash || w.cover != v.cover || w.bad != v.bad || w.clause != v.clause) { ++unequal; fprintf(stderr, "seed %llu is not deterministic\n", (unsigned long long)seed); }
    }
    if (v.nontrivial) { ++nontrivial; cover.insert(v.cover); il.insert(v.st.ilHash); }
    T.events += v.st.events; T.mpiCalls += v.st.mpiCalls; T.messages += v.st.messages; T.ioCalls += v.st.ioCalls; T.choices += v.st.choices; T.simTime += v.st.simTime;
    T.rendezvous += v.st.rendezvous; T.lateReads += v.st.lateReads; T.syncColl += v.st.syncColl; T.delayed += v.st.delayed; T.holds += v.st.holds; T.crossed += v.st.crossed;
    bool any = false;
    for (int f = 0; f < F_NKINDS; ++f) { T.faultFired[f] += v.st.faultFired[f]; if (v.st.faultFired[f]) { faultRuns[faultName[f]]++; any = true; } }
    if (!any) ++nofault;
    for (std::map<std::string, uint64_t>::iterator r = v.reach.begin(); r != v.reach.end(); ++r) reach[r->first]++;
    { std::istringstream ls(label); std::string part; while (std::getline(ls, part, ';')) labels[part]++; }
    if (sample.size() < 400 && v.nontrivial) { std::ostringstream o; o << (sample.empty() ? "" : ", ") << quote("seed " + std::to_string(seed) + ": " + label + ", " + std::to_string(v.st.messages) + " messages, " + std::to_string(v.st.simTime) + " simulated us"); sample += o.str(); }
    if (v.bad) {
      clauses[v.clause]++;
      if (nbad < maxBad) {
        Scenario sc = generate(prop, seed, tier);
        sc.useTrace = true; sc.traces = v.traces;
        char f[64]; snprintf(f, sizeof f, ".v%d", nbad);
        spit(out + f, writeScenario(sc, v.clause));
        bad << (nbad ? ", " : "") << "{\"seed\": " << seed << ", \"clause\": " << quote(v.clause) << ", \"text\": " << quote(v.text) << ", \"file\": " << quote(out + f) << "}";
      }
      if (getenv("X_P")) fprintf(stderr, "%llu %s: %s  [%s]\n", (unsigned long long)seed, v.clause.c_str(), v.text.c_str(), label.c_str());
      if (++nbad >= maxBad && !getenv("X_ALL")) break;
    }
  }
  std::ostringstream o;
  o << "{\"runs\": " << runs << ", \"nontrivial\": " << nontrivial << ", \"jobs\": " << jobs << ", \"wall\": " << wall() - t0 << ", \"repeated\": " << again << ", \"unequal\": " << unequal
    << ", \"fault_free_runs\": " << nofault << ", \"events\": " << T.events << ", \"mpi_calls\": " << T.mpiCalls << ", \"messages\": " << T.messages << ", \"io_calls\": " << T.ioCalls << ", \"choices\": " << T.choices << ", \"sim_us\": " << T.simTime
    << ", \"rendezvous\": " << T.rendezvous << ", \"late_reads\": " << T.lateReads << ", \"sync_collectives\": " << T.syncColl << ", \"long_delays\": " << T.delayed << ", \"crossed\": " << T.crossed;
  o << ", \"faults\": {"; for (int f = 0; f < F_NKINDS; ++f) o << (f ? ", " : "") << quote(faultName[f]) << ": " << T.faultFired[f]; o << "}";
  struct W { static void map(std::ostringstream& o, const char* n, const std::map<std::string, uint64_t>& m) { o << ", \"" << n << "\": {"; bool c = false; for (std::map<std::string, uint64_t>::const_iterator i = m.begin(); i != m.end(); ++i, c = true) o << (c ? ", " : "") << quote(i->first) << ": " << i->second; o << "}"; } 
             static void set(std::ostringstream& o, const char* n, const std::set<uint64_t>& m) { o << ", \"" << n << "\": ["; bool c = false; for (std::set<uint64_t>::const_iterator i = m.begin(); i != m.end(); ++i, c = true) o << (c ? "," : "") << (*i >> 12); o << "]"; } };
  W::map(o, "fault_runs", faultRuns); W::map(o, "reach", reach); W::map(o, "labels", labels); W::map(o, "clauses", clauses);
  W::set(o, "cover", cover); W::set(o, "interleavings", il);
  o << ", \"samples\": [" << sample << "], \"violations\": [" << bad.str() << "]}\n";
  spit(out, o.str());
  if (getenv("X_SUM")) { printf("%llu runs, %llu nontrivial, %.1fs;", (unsigned long long)runs, (unsigned long long)nontrivial, wall() - t0); for (std::map<std::string, uint64_t>::iterator i = clauses.begin(); i != clauses.end(); ++i) printf(" %s:%llu", i->first.c_str(), (unsigned long long)i->second); printf("\n"); }
  return 0;
}

//--- minimisation
struct Mini {
  Scenario best; std::string clause; Verdict bv; double until; int tried, kept;
  bool attempt(const Scenario& s) {
    if (wall() > until) return false;
    std::string why, lb;
    if (!getenv("X_ANY") && !admissible(s, why)) return false;
    ++tried;
    Verdict v = runChild(&s, s.workload, s.seed, 0, false, lb);
    if (!v.bad || v.clause != clause) return false;
    best = s; bv = v; ++kept;
    return true;
  }
  void run() {
    // what the run is about first, then the schedule
    for (int round = 0; round < 3 && wall() < until; ++round) {
      const int before = kept;
      for (size_t i = 0; i < best.faults.size(); ) { Scenario s = best; s.faults.erase(s.faults.begin() + i); fresh(s); if (!attempt(s)) ++i; }
      { Net d; int Net::*f[] = { &Net::sendMode, &Net::lateRead, &Net::collSync, &Net::latency, &Net::compute };
        for (int i = 0; i < 5; ++i) if (best.net.*f[i] != d.*f[i]) { Scenario s = best; s.net.*f[i] = d.*f[i]; fresh(s); attempt(s); } }
      for (size_t i = 0; i < best.steps.size() && best.steps.size() > 1; ) { Scenario s = best; s.steps.erase(s.steps.begin() + i); fresh(s); if (!attempt(s)) ++i; }
      for (int k = best.nranks - 1; k > 0 && best.nranks > 1; --k) dropRank(k);
      for (size_t st = 0; st < best.steps.size(); ++st) {
        const int d = best.dim;
        for (int chunk = 8; chunk >= 1; chunk /= 2) for (int r = 0; r < best.nranks; ++r) for (int i = 0; r < (int)best.steps[st].gens.size() && d*i < (int)best.steps[st].gens[r].size(); ) {
          Scenario s = best; std::vector<double>& g2 = s.steps[st].gens[r];
          const int n = std::min<int>(chunk, g2.size()/d - i);
          g2.erase(g2.begin() + d*i, g2.begin() + d*(i + n)); fresh(s);
          if (n < chunk || !attempt(s)) i += chunk;
          if (wall() > until) break;
        }
      }
      if (kept == before) break;
    }
    // schedule: take the recorded choices, cut the tail, calm the rest
    { Scenario s = best; s.useTrace = true; s.traces = bv.traces; attempt(s); }
    if (!best.useTrace) return;
    for (size_t j = 0; j < best.traces.size(); ++j) {
      { Scenario s = best; s.traces[j].clear(); if (attempt(s)) continue; }
      for (size_t n = best.traces[j].size()/2; n >= 1; n /= 2) while (best.traces[j].size() > n) { Scenario s = best; s.traces[j].resize(s.traces[j].size() - n); if (!attempt(s)) break; }
      for (size_t n = std::max<size_t>(1, best.traces[j].size()/4); ; n /= 4) {
        for (size_t i = 0; i < best.traces[j].size() && wall() < until; i += n) {
          Scenario s = best; bool diff = false;
          for (size_t k = i; k < std::min(i + n, s.traces[j].size()); ++k) if (s.traces[j][k]) { s.traces[j][k] = 0; diff = true; }
          if (diff) attempt(s);
        }
        if (n <= 1 || best.traces[j].size()/n > 400) break;
      }
    }
  }
  static void fresh(Scenario& s) { s.useTrace = false; s.traces.clear(); }   // the schedule is drawn again from the seed
  void dropRank(int k) {
    for (int into = -1; into < (k ? 1 : 0); ++into) {      // leave its generators out, or give them to rank 0
      Scenario s = best; s.nranks--;
      for (size_t st = 0; st < s.steps.size(); ++st) {
        std::vector<std::vector<double> >& g2 = s.steps[st].gens;
        if (k >= (int)g2.size()) continue;
        if (into >= 0) g2[into].insert(g2[into].end(), g2[k].begin(), g2[k].end());
        g2.erase(g2.begin() + k);
      }
      std::vector<Fault> f;
      for (size_t i = 0; i < s.faults.size(); ++i) {
        Fault x = s.faults[i];
        if (x.kind == F_HOLD) { const int64_t lo = x.a & ((1ll << k) - 1); x.a = lo | ((x.a >> (k + 1)) << k); }
        else { if (x.a == k) continue; if (x.a > k) --x.a; }
        f.push_back(x);
      }
      s.faults = f; fresh(s);
      if (attempt(s)) return;
    }
  }
};

static int minimise(const char* in, const char* out, double budget) {
  Mini m; std::string expect;
  if (!readScenario(slurp(in), m.best, expect)) { fprintf(stderr, "cannot read %s\n", in); return 2; }
  std::string lb;
  Verdict v = runChild(&m.best, m.best.workload, m.best.seed, 0, false, lb);
  if (!v.bad) { fprintf(stderr, "the recorded schedule does not show the violation again\n"); return 3; }
  m.clause = v.clause; m.bv = v; m.until = wall() + budget; m.tried = m.kept = 0;
  m.run();
  spit(out, writeScenario(m.best, m.clause));
  fprintf(stderr, "minimised: %d tried, %d kept\n", m.tried, m.kept);
  return 0;
}

static int replay(const char* in, bool verbose) {
  Scenario sc; std::string expect, lb;
  if (!readScenario(slurp(in), sc, expect)) { fprintf(stderr, "cannot read %s\n", in); return 2; }
  Verdict v = runChild(&sc, sc.workload, sc.seed, 0, verbose, lb);
  printf("%s %s %llu\n%s\n", v.bad ? "VIOLATED" : "HELD", v.bad ? v.clause.c_str() : "-", (unsigned long long)v.st.logHash, v.text.c_str());
  return v.bad ? 1 : 0;
}

int main(int argc, char** argv) {
  // the same addresses and the same environment in every process
  if (!getenv("POLYSIM_FIXED")) {
    setenv("POLYSIM_FIXED", "1", 1);
    const int p = personality(0xffffffff);
    if (p >= 0 && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  mallopt(M_PERTURB, 0xA5);                      // uninitialised heap reads are repeatable
  mallopt(M_MMAP_THRESHOLD, 1 << 28); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_ARENA_MAX, 1);
  signal(SIGPIPE, SIG_IGN);
  char self[500]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n < 0) return 2; self[n] = 0;
  load(self);
  sharedTrace = (int*)mmap(0, SHARED_TRACE*sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string made;
  if (getenv("POLYSIM_SCRATCH")) g_scratch = getenv("POLYSIM_SCRATCH");
  else { char t[] = "/tmp/polysim.XXXXXX"; if (!mkdtemp(t)) return 2; g_scratch = made = t; }
  int rc = 2;
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "run" && argc >= 7) rc = search(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), atoi(argv[5]), argv[6], argc > 7 ? atof(argv[7]) : 0, argc > 8 ? atoi(argv[8]) : 3);
  else if (mode == "replay" && argc >= 3) rc = replay(argv[2], argc > 3);
  else if (mode == "minimise" && argc >= 4) rc = minimise(argv[2], argv[3], argc > 4 ? atof(argv[4]) : 60);
  else if (mode == "show" && argc >= 4) { printf("%s", writeScenario(generate(argv[2], strtoull(argv[3], 0, 10), argc > 4 ? atoi(argv[4]) : 0), "").c_str()); rc = 0; }
  else fprintf(stderr, "usage: polysim run PROP SEED0 COUNT TIER OUT [SECONDS [MAXBAD]] | replay FILE [v] | minimise IN OUT [SECONDS] | show PROP SEED\n");
  if (!made.empty()) nftw(made.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS);
  return rc;
}
