// What each property demands of a run.
#include "harness.hh"
#include <set>
#include <stdio.h>
#include <string.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace psim {

static void coverJob(Verdict& v, const JobResult& r) {
  Hash h; h.u64(v.cover);
  for (size_t k = 0; k < r.ranks.size(); ++k) for (size_t i = 0; i < r.ranks[k].steps.size(); ++i) h.u64(hashMesh(r.ranks[k].steps[i].mesh));
  h.u64(r.st.ilHash);
  v.cover = h.h;
}

static void reachOf(Verdict& v, const Scenario& sc, const JobResult& r) {
  for (size_t k = 0; k < r.ranks.size(); ++k) for (size_t i = 0; i < r.ranks[k].steps.size(); ++i) {
    const MeshDump& m = r.ranks[k].steps[i].mesh;
    if (m.neighborDomains.size() > 2) v.reach["rank_with_3_or_more_neighbours"]++;
    bool empty = false, single = false;
    for (size_t j = 0; j < m.sharedNodes.size(); ++j) { if (m.sharedNodes[j].empty()) empty = true; if (m.sharedNodes[j].size() == 1 && m.sharedFaces[j].empty()) single = true; }
    if (empty) v.reach["neighbour_sharing_nothing"]++;
    if (single) v.reach["neighbour_sharing_one_corner"]++;
    if (i < sc.steps.size() && sc.steps[i].op == "tess" && k < sc.steps[i].gens.size()) {
      if (sc.steps[i].gens[k].empty()) v.reach["rank_without_generators"]++;
      else if ((int)sc.steps[i].gens[k].size() <= 2*sc.dim) v.reach["rank_with_1_or_2_generators"]++;
    }
  }
  if (r.st.crossed) v.reach["messages_overtaking_between_pairs"]++;
  if (r.st.lateReads) v.reach["send_buffer_read_late"]++;
  if (r.st.rendezvous) v.reach["rendezvous_sends"]++;
  if (r.st.holds) v.reach["message_held_by_partition"]++;
}

static bool isConvex(const Step& s) { std::vector<Poly> L; loopsOf(s, L); return L.size() == 1 && convex(L[0]); }

// The verdict of every consistency check in the job against the lists it saw.
static void checkVerdicts(Verdict& v, const Scenario& sc, const JobResult& r) {
  double L = 1;
  const Step* made = 0;
  for (size_t i = 0; i < sc.steps.size() && !v.bad; ++i) {
    if (sc.steps[i].op == "tess") { L = extent(sc.steps[i]); made = &sc.steps[i]; }
    if (sc.steps[i].op != "check") continue;
    std::vector<const MeshDump*> before;
    for (int k = 0; k < sc.nranks; ++k) before.push_back(&r.ranks[k].steps[i-1].mesh);
    std::string why;
    const bool good = commConsistent(before, L, sc.dim, why);
    v.reach[good ? "checked_consistent" : "checked_inconsistent"]++;
    for (int k = 0; k < sc.nranks && !v.bad; ++k) {
      const StepOut& o = r.ranks[k].steps[i];
      if (o.text != r.ranks[0].steps[i].text) say(v, "verdicts_differ", "rank %d reports \"%.200s\" where rank 0 reports \"%.200s\"", k, o.text.c_str(), r.ranks[0].steps[i].text.c_str());
      else if (good && o.text != "ok") say(v, "false_alarm", "the lists are consistent but the check says \"%.300s\"", o.text.c_str());
      else if (!good && o.text == "ok" && made && sc.dim == 2 && anyTied(*made, before, L)) v.reach["verdict_left_open_at_a_tie"]++;
      else if (!good && o.text == "ok") say(v, "missed", "the check says ok, but %s", why.c_str());
      else if (!(o.mesh == *before[k])) say(v, "mesh_modified", "the check changed the mesh of rank %d", k);
    }
  }
}

// Each step of a history against the same step alone with new objects.
static void checkFresh(Verdict& v, const Scenario& sc, const JobResult& r, bool verbose) {
  for (size_t i = 0; i < sc.steps.size() && !v.bad; ++i) {
    if (sc.steps[i].op != "tess") continue;
    Scenario one = benign(sc);
    one.steps.assign(1, sc.steps[i]);
    one.steps[0].reuse = one.steps[0].keepMesh = false;
    const int lib = 4 + 4*(int)i;
    JobResult q = execJob(one, lib + sc.nranks <= NLIBS ? lib : 4, false, verbose, v);
    char w[64]; snprintf(w, sizeof w, "step %zu alone: ", i);
    checkEnd(v, one, q, w);
    for (int k = 0; k < sc.nranks && !v.bad; ++k)
      if (!(r.ranks[k].steps[i].mesh == q.ranks[k].steps[0].mesh)) say(v, "history_dependent", "rank %d: step %zu gives another mesh than the same call with new objects (%zu cells, %zu nodes against %zu, %zu)", k, i,
        r.ranks[k].steps[i].mesh.cells.size(), r.ranks[k].steps[i].mesh.nodes.size()/sc.dim, q.ranks[k].steps[0].mesh.cells.size(), q.ranks[k].steps[0].mesh.nodes.size()/sc.dim);
  }
}

// Generators that coincide get one cell, the others the mesh they get without them.
static void checkDegenerate(Verdict& v, const Scenario& sc, const JobResult& r, bool verbose) {
  Scenario b = benign(sc);
  std::vector<std::vector<std::vector<long> > > group(sc.steps.size());
  v.nontrivial = false;
  for (size_t i = 0; i < sc.steps.size() && !v.bad; ++i) {
    b.steps[i] = uniqueStep(sc.steps[i], sc.dim, group[i]);
    for (int k = 0; k < sc.nranks && !v.bad; ++k) {
      const std::vector<long>& got = r.ranks[k].steps[i].ints;
      const std::vector<long>& want = group[i][k];
      if (got.size() != want.size()) { say(v, "map_size", "rank %d step %zu: %zu generators and a list of %zu cells", k, i, want.size(), got.size()); break; }
      const size_t cells = r.ranks[k].steps[i].mesh.cells.size(), unique = b.steps[i].gens[k].size()/sc.dim;
      if (cells != unique) { say(v, "cell_count", "rank %d step %zu: %zu different generators (of %zu) and %zu cells", k, i, unique, want.size(), cells); break; }
      for (size_t j = 0; j < want.size() && !v.bad; ++j) if (got[j] != want[j]) say(v, "map", "rank %d step %zu: generator %zu belongs to cell %ld and is said to belong to %ld", k, i, j, want[j], got[j]);
      if (unique < want.size()) { v.nontrivial = true; v.reach["coinciding_generators"] += want.size() - unique; }
    }
  }
  if (v.bad) return;
  JobResult q = execJob(b, sc.nranks <= 9 ? 9 : 0, false, verbose, v);
  checkEnd(v, b, q, "without the repeated generators: ");
  for (int k = 0; k < sc.nranks && !v.bad; ++k) for (size_t i = 0; i < sc.steps.size() && !v.bad; ++i)
    if (!(r.ranks[k].steps[i].mesh == q.ranks[k].steps[i].mesh)) say(v, "degenerate_mesh", "rank %d step %zu: not the mesh the generators give when each is listed once", k, i);
}

static std::vector<const MeshDump*> stepMeshes(const JobResult& r, size_t i) {
  std::vector<const MeshDump*> m;
  for (size_t k = 0; k < r.ranks.size(); ++k) m.push_back(&r.ranks[k].steps[i].mesh);
  return m;
}
static bool sameFiles(const Step& a, const Step& b) {
  if (a.sargs[0] != b.sargs[0]) return false;
  const bool na = (a.iargs[W_CALL] >= 3 && a.iargs[W_CALL] < 5) || a.iargs[W_CYCLE] < 0, nb = (b.iargs[W_CALL] >= 3 && b.iargs[W_CALL] < 5) || b.iargs[W_CYCLE] < 0;
  if (na != nb || (!na && a.iargs[W_CYCLE] != b.iargs[W_CYCLE])) return false;
  const bool da = a.iargs[W_CALL] == 2 || a.iargs[W_CALL] == 4 || a.sargs[1].empty(), db = b.iargs[W_CALL] == 2 || b.iargs[W_CALL] == 4 || b.sargs[1].empty();
  return da == db && (da || a.sargs[1] == b.sargs[1]);
}
static bool overwritten(const Scenario& sc, size_t i, size_t upto) {
  for (size_t j = i + 1; j < upto; ++j) if (sc.steps[j].op == "write" && sameFiles(sc.steps[i], sc.steps[j])) return true;
  return false;
}

// Every dump of a finished job is on disk and complete.
static void checkDumps(Verdict& v, const Scenario& sc, const JobResult& r, size_t upto, const char* clause, const char* what) {
  for (size_t i = 0; i < upto && !v.bad; ++i) {
    if (sc.steps[i].op != "write" || overwritten(sc, i, upto)) continue;
    std::string why;
    if (!readDump(sc.steps[i], stepMeshes(r, i), sc.dim, why)) say(v, clause, "%sdump of step %zu: %s", what, i, why.c_str());
    v.reach["dump_read_back"]++;
  }
}

// Storage calls failed on some ranks: what must still be there.
static void checkDamage(Verdict& v, const Scenario& sc, const JobResult& r) {
  size_t at = 0; while (at < sc.steps.size() && !(sc.steps[at].op == "write" && sc.steps[at].iargs[W_ARMED])) ++at;
  const int n = sc.nranks;
  std::vector<bool> hit(n, false);
  if (at < sc.steps.size()) {
    const std::vector<int> g = groupsOf(sc.steps[at], n);
    for (size_t i = 0; i < r.failedIo.size(); ++i) {
      const int a = r.failedIo[i].first; const std::string& op = r.failedIo[i].second;
      v.reach["failed_" + op]++;
      hit[a] = true;
      if (op == "DBCreate" || op == "mkdir" || op == "opendir") for (int k = 0; k < n; ++k) if (g[k] == g[a] || (a == 0 && op != "DBCreate")) hit[k] = true;
    }
  }
  for (size_t i = 0; i < sc.steps.size() && !v.bad; ++i) {
    if (sc.steps[i].op != "write" || overwritten(sc, i, sc.steps.size())) continue;
    std::string why;
    if (i != at || r.failedIo.empty()) { if (!readDump(sc.steps[i], stepMeshes(r, i), sc.dim, why)) say(v, "other_dump_damaged", "dump of step %zu (failures were in step %zu): %s", i, at, why.c_str()); continue; }
    for (int k = 0; k < n && !v.bad; ++k) if (!hit[k]) { v.reach["domain_untouched_by_failure"]++; if (!readDomain(sc.steps[i], r.ranks[k].steps[i].mesh, k, n, sc.dim, why)) say(v, "other_domain_damaged", "rank %d had no failed call: %s", k, why.c_str()); }
  }
}

//--- a job in a process of its own, which ends with the job and flushes nothing
static void put(std::string& o, const void* p, size_t n) { o.append((const char*)p, n); }
template<class T> static void putV(std::string& o, const std::vector<T>& x) { const uint64_t n = x.size(); put(o, &n, 8); if (n) put(o, &x[0], n*sizeof(T)); }
template<class T> static void putW(std::string& o, const std::vector<std::vector<T> >& x) { const uint64_t n = x.size(); put(o, &n, 8); for (size_t i = 0; i < n; ++i) putV(o, x[i]); }
static void putS(std::string& o, const std::string& s) { putV(o, std::vector<char>(s.begin(), s.end())); }
struct In { const std::string& s; size_t at; bool bad; void get(void* p, size_t n) { if (at + n > s.size()) { bad = true; memset(p, 0, n); return; } memcpy(p, s.data() + at, n); at += n; } };
template<class T> static void getV(In& in, std::vector<T>& x) { uint64_t n = 0; in.get(&n, 8); if (in.bad || n*sizeof(T) > in.s.size()) { in.bad = true; return; } x.resize(n); if (n) in.get(&x[0], n*sizeof(T)); }
template<class T> static void getW(In& in, std::vector<std::vector<T> >& x) { uint64_t n = 0; in.get(&n, 8); if (in.bad || n > in.s.size()) { in.bad = true; return; } x.resize(n); for (size_t i = 0; i < n; ++i) getV(in, x[i]); }
static std::string getS(In& in) { std::vector<char> c; getV(in, c); return std::string(c.begin(), c.end()); }

static JobResult execApart(const Scenario& sc, bool verbose, Verdict& v) {
  JobResult r;
  int fd[2]; if (pipe(fd)) { v.fatal = true; return r; }
  const pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    Verdict w; w.jobs = v.jobs;
    r = execJob(sc, 0, false, verbose, w);
    std::string o;
    put(o, &r.end, sizeof r.end); putS(o, r.why); put(o, &w.st, sizeof w.st);
    uint64_t n = r.openAtEnd.size(); put(o, &n, 8); for (size_t i = 0; i < n; ++i) putS(o, r.openAtEnd[i]);
    n = r.leftovers.size(); put(o, &n, 8); for (size_t i = 0; i < n; ++i) putS(o, r.leftovers[i]);
    for (size_t k = 0; k < r.ranks.size(); ++k) {
      char fin = r.ranks[k].finished; put(o, &fin, 1);
      n = r.ranks[k].steps.size(); put(o, &n, 8);
      for (size_t i = 0; i < n; ++i) {
        const StepOut& s = r.ranks[k].steps[i]; const MeshDump& m = s.mesh;
        const char done = s.done; put(o, &done, 1);
        putV(o, m.nodes); putW(o, m.cells); putW(o, m.faces); putV(o, m.boundaryNodes); putV(o, m.boundaryFaces); putW(o, m.faceCells); putW(o, m.hullFacets);
      }
    }
    putS(o, w.log);
    for (size_t i = 0; i < o.size(); ) { const ssize_t k = write(fd[1], o.data() + i, o.size() - i); if (k <= 0) _exit(3); i += k; }
    _exit(0);
  }
  close(fd[1]);
  std::string t; char b[65536]; ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) t.append(b, k);
  close(fd[0]);
  int st; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) { raise(WTERMSIG(st)); }
  ++v.jobs;
  In in = { t, 0, false };
  JobStats js; uint64_t n = 0;
  in.get(&r.end, sizeof r.end); r.why = getS(in); in.get(&js, sizeof js);
  in.get(&n, 8); for (size_t i = 0; i < n && !in.bad; ++i) r.openAtEnd.push_back(getS(in));
  in.get(&n, 8); for (size_t i = 0; i < n && !in.bad; ++i) r.leftovers.push_back(getS(in));
  r.ranks.resize(sc.nranks);
  for (int q = 0; q < sc.nranks && !in.bad; ++q) {
    char c = 0; in.get(&c, 1); r.ranks[q].finished = c;
    in.get(&n, 8); if (n > 1000) in.bad = true;
    for (size_t i = 0; i < n && !in.bad; ++i) {
      r.ranks[q].steps.push_back(StepOut()); StepOut& s = r.ranks[q].steps.back(); MeshDump& m = s.mesh;
      in.get(&c, 1); s.done = c;
      getV(in, m.nodes); getW(in, m.cells); getW(in, m.faces); getV(in, m.boundaryNodes); getV(in, m.boundaryFaces); getW(in, m.faceCells); getW(in, m.hullFacets);
    }
  }
  v.log += getS(in);
  if (in.bad) { v.fatal = true; say(v, "harness", "no result from the job's process"); }
  r.st = js; addStats(v.st, js);
  return r;
}

// What a machine that dies leaves of the files that were open for writing.
static void tear(const std::vector<std::string>& files, int how, uint64_t seed, Verdict& v) {
  Rng g(seed ^ 0x7ea1);
  for (size_t i = 0; i < files.size(); ++i) {
    struct stat st; if (stat(files[i].c_str(), &st)) continue;
    if (how == 1) { if (truncate(files[i].c_str(), st.st_size ? (off_t)(g.next() % st.st_size) : 0)) v.fatal = true; v.reach["torn_file_truncated"]++; }
    else if (how == 2) {
      FILE* f = fopen(files[i].c_str(), "r+b"); if (!f) continue;
      for (int k = 0; k < 4; ++k) { const long at = st.st_size > 512 ? (long)(g.next() % (st.st_size/512))*512 : 0; char z[512]; memset(z, 0, sizeof z); fseek(f, at, SEEK_SET); fwrite(z, 1, std::min<long>(512, st.st_size - at), f); }
      fclose(f); v.reach["torn_file_lost_blocks"]++;
    }
    else if (how == 3) { unlink(files[i].c_str()); v.reach["torn_file_lost"]++; }
  }
}

static void judgeCrash(const Scenario& sc, Verdict& v, bool verbose) {
  JobResult r = execApart(sc, verbose, v);
  if (v.bad) return;
  coverJob(v, r);
  if (r.end != END_CRASH) { checkEnd(v, sc, r); if (!v.bad) checkDumps(v, sc, r, sc.steps.size(), "dump_incomplete", ""); }
  else v.nontrivial = true;
  int how = 0; for (size_t i = 0; i < sc.faults.size(); ++i) if (sc.faults[i].kind == F_CRASH) how = sc.faults[i].c >> 4;
  if (r.end == END_CRASH) {
    for (size_t i = 0; i < r.openAtEnd.size(); ++i) v.reach["file_open_at_crash"]++;
    tear(r.openAtEnd, how, sc.seed, v);
    size_t upto = 0;                             // the steps all ranks had left
    for (bool all = true; all && upto < sc.steps.size(); ) { for (int k = 0; k < sc.nranks; ++k) if (upto >= r.ranks[k].steps.size() || !r.ranks[k].steps[upto].done) all = false; if (all) ++upto; }
    std::vector<bool> touched(sc.steps.size(), false);   // being overwritten when the job died
    Scenario t = sc; t.steps.resize(upto);
    for (size_t i = 0; i < upto && !v.bad; ++i) {
      if (sc.steps[i].op != "write" || overwritten(sc, i, std::min(sc.steps.size(), upto + 2))) continue;
      std::string why;
      v.reach["dump_finished_before_crash"]++;
      if (!readDump(sc.steps[i], stepMeshes(r, i), sc.dim, why)) say(v, "finished_dump_lost", "dump of step %zu, finished on all ranks before the crash: %s", i, why.c_str());
    }
  }
  // the job is started again with the same names
  Scenario again = sc;
  again.faults.clear();
  for (size_t i = 0; i < again.steps.size(); ++i) if (again.steps[i].op == "write") { if (again.steps[i].iargs.size() > W_NARGS && again.steps[i].iargs[W_NARGS]) { again.steps[i].iargs[W_FILES] = again.steps[i].iargs[W_NARGS]; if (r.end == END_CRASH) v.reach["rerun_with_other_file_count"]++; } }
  JobResult q = execJob(again, 0, false, verbose, v);
  coverJob(v, q);
  checkEnd(v, again, q, "rerun: ");
  if (!v.bad) checkDumps(v, again, q, sc.steps.size(), "rerun_incomplete", "rerun: ");
}

void judgeProperty(const Scenario& sc, Verdict& v, bool verbose) {
  const std::string& p = sc.workload;
  if (p == "P12") { judgeCrash(sc, v, verbose); return; }
  JobResult r = execJob(sc, 0, p == "P17", verbose, v);
  coverJob(v, r); reachOf(v, sc, r);
  checkEnd(v, sc, r);
  if (v.bad) return;
  v.nontrivial = sc.nranks > 1;
  if (p == "P16" || p == "P17") {
    v.nontrivial = false;
    static const char* opName[] = { "c_tessellate", "c_clear", "c_new", "c_free", "c_free_tessellator", "c_free_plc", "c_plc", "c_info", "c_adopt" };
    for (size_t i = 0; i < sc.steps.size() && !v.bad; ++i) for (int k = 0; k < sc.nranks && !v.bad; ++k) {
      const Step& s = sc.steps[i]; const StepOut& o = r.ranks[k].steps[i];
      if (s.op != "c" || !((s.iargs[3] >> k) & 1)) continue;
      v.reach[opName[s.iargs[0]]]++;
      if (!o.text.empty()) say(v, "c_object_wrong", "caller %d step %zu (%s):%s", k, i, opName[s.iargs[0]], o.text.c_str());
      if (s.iargs[0] == C_ADOPT) v.nontrivial = true;
      if (s.iargs[0] != C_TESSELLATE) continue;
      v.nontrivial = true;
      if (!(o.mesh == o.mesh2)) say(v, "c_differs", "caller %d step %zu: the C mesh (%zu cells, %zu nodes) is not the C++ one (%zu, %zu)", k, i, o.mesh.cells.size(), o.mesh.nodes.size()/2, o.mesh2.cells.size(), o.mesh2.nodes.size()/2);
    }
    for (int k = 0; k < sc.nranks && !v.bad; ++k) {
      if (r.ranks[k].heapLive) say(v, "leak", "caller %d: %ld malloc() blocks of the C interface remain after every object was freed", k, r.ranks[k].heapLive);
      if (r.ranks[k].newLive) say(v, "leak", "caller %d: %ld C++ blocks remain after every object was freed", k, r.ranks[k].newLive);
    }
    if (p == "P16") { if (!v.bad) checkDumps(v, sc, r, sc.steps.size(), "dump_incomplete", ""); return; }
    v.nontrivial = r.st.choices > 0;
    Scenario b = benign(sc);
    JobResult q = execJob(b, 4, false, verbose, v);
    checkEnd(v, b, q, "in processes of their own: ");
    for (int k = 0; k < sc.nranks && !v.bad; ++k) for (size_t i = 0; i < sc.steps.size() && !v.bad; ++i)
      if (!(r.ranks[k].steps[i].mesh == q.ranks[k].steps[i].mesh)) say(v, "callers_interfere", "caller %d step %zu: not the mesh it gets in a process of its own", k, i);
    return;
  }
  for (size_t i = 0; i < sc.steps.size() && !v.bad; ++i) {
    const Step& s = sc.steps[i];
    if (s.op != "tess") continue;
    MeshSet ms;
    if (!meshesOf(v, sc, r, i, ms)) return;
    const bool cvx = sc.dim == 3 || s.mode == BOX || isConvex(s);
    if (p == "P01" || p == "P02") {
      checkCounts(v, ms, sc.dim);
      if (cvx) { if (sc.dim == 3) checkVoronoi3(v, ms); else checkVoronoi(v, ms); }
    } else if (p == "P03") {
      checkCounts(v, ms, sc.dim);
      checkArea(v, ms, s.algo == DISTRIBUTED);
    } else if (p == "P06") {
      checkComm(v, ms, sc.dim, true);
    } else if (p == "P07") {
      checkBits(v, ms, sc.dim);
    } else if (p == "P08") {
      checkCounts(v, ms, sc.dim);
      checkLocal(v, ms, sc.dim);
      checkBoundary(v, ms);
    }
  }
  if ((p == "P11" || p == "P13") && !v.bad) {
    if (!r.openAtEnd.empty()) say(v, "file_left_open", "%s is still open when the job has ended", r.openAtEnd[0].c_str());
    v.nontrivial = p == "P11" || !r.failedIo.empty();
    if (p == "P11") checkDumps(v, sc, r, sc.steps.size(), "dump_incomplete", "");
    else checkDamage(v, sc, r);
  }
  if (p == "P14") {
    v.nontrivial = false;
    long lost = 0;
    for (size_t i = 0; i < sc.steps.size() && !v.bad; ++i) {
      const StepOut& o = r.ranks[0].steps[i];
      const bool fired = o.ints[1], threw = !o.text.empty();
      lost += o.ints[2];
      if (fired) { v.nontrivial = true; v.reach[threw ? "failure_reached_the_caller" : "failure_absorbed"]++; }
      if (threw && !fired) say(v, "threw_without_failure", "step %zu: %s although no allocation failed", i, o.text.c_str());
      else if (threw && o.text != "bad_alloc") say(v, "wrong_exception", "step %zu: %s", i, o.text.c_str());
      else if (!threw && !(o.mesh2 == o.mesh)) say(v, "failure_swallowed", "step %zu: %s, no exception reached the caller, and the mesh is wrong", i, fired ? "an allocation failed" : "no allocation failed");
      else if (!o.ints[0]) say(v, "state_damaged", "step %zu: after the failed call the same object gives another mesh", i);
    }
    if (!v.bad && r.ranks[0].steps.back().ints.back() > lost) say(v, "leak", "%ld blocks are still allocated after everything was destroyed, %ld of them from failed calls", r.ranks[0].steps.back().ints.back(), lost);
  }
  if (p == "P18") {
    MeshSet was;
    v.nontrivial = false;
    for (size_t i = 0; i < sc.steps.size() && !v.bad; ++i) {
      MeshSet ms;
      if (!meshesOf(v, sc, r, i, ms)) return;
      if (sc.steps[i].op != "tess") {
        ms.L = was.L;
        checkEdited(v, was, ms, sc.steps[i]);
        checkLocal(v, ms, sc.dim, sc.steps[i].op == "delete");    // a thin cell may be turned over by cleaning
        checkBoundary(v, ms);
        if (sc.steps[i].op == "clean") { checkComm(v, ms, sc.dim, true); checkBits(v, ms, sc.dim); }
        for (int k = 0; k < sc.nranks; ++k) if (ms.m[k]->nodes.size() < was.m[k]->nodes.size()) { v.nontrivial = true; v.reach["edit_removed_something"]++; }
      }
      was = ms;
    }
  }
  if (p == "P19" && !v.bad) checkDegenerate(v, sc, r, verbose);
  if (p == "P09") checkVerdicts(v, sc, r);
  if (p == "P10") { v.nontrivial = true; if (!v.bad) checkFresh(v, sc, r, verbose); }
  if (p == "P15" && !v.bad) {
    v.nontrivial = true;
    for (size_t i = 1; i < sc.steps.size() && !v.bad; ++i) for (int k = 0; k < sc.nranks && !v.bad; ++k) {
      char w[96]; snprintf(w, sizeof w, "rank %d, call %zu against call 0", k, i);
      checkSame(v, "paths_differ", r.ranks[k].steps[0].mesh, r.ranks[k].steps[i].mesh, w, (sc.nranks == 1 ? 1e-9 : 1e-7)*extent(sc.steps[0]), sc.dim);
    }
  }
  if (p == "P04" && !v.bad) {
    Scenario b = benign(sc);
    JobResult q = execJob(b, 8, false, verbose, v);
    checkEnd(v, b, q, "undisturbed run: ");
    for (int k = 0; k < sc.nranks && !v.bad; ++k) for (size_t i = 0; i < sc.steps.size() && !v.bad; ++i)
      if (!(r.ranks[k].steps[i].mesh == q.ranks[k].steps[i].mesh)) say(v, "schedule_dependent", "rank %d: the result of step %zu is not the one of the undisturbed run", k, i);
  }
}

Verdict judge(const Scenario& sc, bool verbose) {
  Verdict v;
  v.cover = 0;
  judgeProperty(sc, v, verbose);
  return v;
}

}
