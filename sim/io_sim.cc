// The storage seam.  Every Silo call (and mkdir/opendir) made by the code under
// test is a scheduling point, may be a crash point and may be made to fail; the
// real library does the work otherwise, inside a scratch directory.
#define POLYSIM_SILO_RAW
#include "sim.hh"
#include <silo.h>
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <malloc.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>

namespace psim {

struct OpenFile { std::string path; int rank; bool write; };
static std::map<DBfile*, OpenFile> openFiles;

// The Silo library's DBClose reads its file structure after freeing it; with
// freed memory overwritten (M_PERTURB, main.cc) that is fatal.  Inside the
// library freed memory keeps its contents and fresh memory is zero.
static int inSilo = 0;

struct InSimIo {
  Fiber* f;
  InSimIo(): f(g && g->cur >= 0 ? &g->fibers[g->cur] : 0) { if (f) f->inSim++; }
  ~InSimIo() { if (f) f->inSim--; }
};
void siloReads(int on) { inSilo += on ? 1 : -1; mallopt(M_PERTURB, inSilo ? 0 : 0xA5); }
struct InSilo { InSilo() { siloReads(1); } ~InSilo() { siloReads(0); } };

static bool active() { return g && g->cur >= 0; }

static bool outside(const char* p) {
  if (!p || !*p) return false;
  return p[0] == '/' || strstr(p, "..") != 0;
}

static void conflict(const char* what, const std::string& path, bool write) {
  for (std::map<DBfile*, OpenFile>::iterator it = openFiles.begin(); it != openFiles.end(); ++it)
    if (it->second.path == path && (write || it->second.write)) {
      char b[64]; snprintf(b, sizeof b, "rank %d %s ", g->cur, what);
      char c[64]; snprintf(c, sizeof c, " while rank %d has it open", it->second.rank);
      g->finish(END_IOMISUSE, b + path + c);
    }
}

void ioReset() { openFiles.clear(); }
std::vector<std::string> ioOpenPaths() { std::vector<std::string> r; for (std::map<DBfile*, OpenFile>::iterator i = openFiles.begin(); i != openFiles.end(); ++i) r.push_back(i->second.path); return r; }

static bool deadHandle(DBfile* f, const char* op) {
  if (active() && f && !openFiles.count(f)) {
    char b[96]; snprintf(b, sizeof b, "rank %d calls %s on a file that is not open", g->cur, op);
    g->finish(END_IOMISUSE, b);
  }
  if (active() && f && openFiles[f].rank != g->cur) {
    char b[96]; snprintf(b, sizeof b, "rank %d calls %s on a file opened by rank %d", g->cur, op, openFiles[f].rank);
    g->finish(END_IOMISUSE, b);
  }
  return f == 0;
}

} // namespace psim
using namespace psim;

#define SIMIO(op, failval) InSimIo s_; if (active() && g->enterIo(op)) { errno = ENOSPC; return failval; }

extern "C" {

void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* malloc(size_t n) { return inSilo ? __libc_calloc(1, n) : __libc_malloc(n); }

DBfile* psim_DBCreate(const char* p, int mode, int tgt, const char* info, int drv) {
  SIMIO("DBCreate", 0);
  if (active()) {
    if (outside(p)) g->finish(END_IOMISUSE, std::string("file created outside the working directory: ") + p);
    conflict("creates", p, true);
  }
  InSilo l_;
  DBfile* f = DBCreate(p, mode, tgt, info, drv);
  if (active() && f) { OpenFile o = { p, g->cur, true }; openFiles[f] = o; }
  return f;
}
DBfile* psim_DBOpen(const char* p, int drv, int mode) {
  SIMIO("DBOpen", 0);
  if (active()) conflict("opens", p, mode == DB_APPEND);
  InSilo l_;
  DBfile* f = DBOpen(p, drv, mode);
  if (active() && f) { OpenFile o = { p, g->cur, mode == DB_APPEND }; openFiles[f] = o; }
  return f;
}
int psim_DBClose(DBfile* f) {
  InSimIo s_;
  bool fail = active() && g->enterIo("DBClose");
  InSilo l_;
  if (deadHandle(f, "DBClose")) return DBClose(f);
  openFiles.erase(f);
  int rc = DBClose(f);            // the handle is gone either way
  return fail ? -1 : rc;
}
#define FWD(ret, name, decl, args) \
  ret psim_##name decl { SIMIO(#name, -1); deadHandle(f, #name); InSilo l_; return name args; }
FWD(int, DBMkDir, (DBfile* f, const char* d), (f, d))
FWD(int, DBMkDirP, (DBfile* f, const char* d), (f, d))
FWD(int, DBSetDir, (DBfile* f, const char* d), (f, d))
FWD(int, DBWrite, (DBfile* f, const char* n, const void* v, const int* d, int nd, int t), (f, n, v, d, nd, t))
FWD(int, DBPutCompoundarray, (DBfile* f, const char* n, const char* const* en, const int* el, int ne, const void* v, int nv, int dt, const DBoptlist* o), (f, n, en, el, ne, v, nv, dt, o))
FWD(int, DBPutFacelist, (DBfile* f, const char* n, int nf, int nd, const int* nl, int l, int o, const int* z, const int* ss, const int* sc, int ns, const int* t, const int* tl, int nt), (f, n, nf, nd, nl, l, o, z, ss, sc, ns, t, tl, nt))
FWD(int, DBPutUcdmesh, (DBfile* f, const char* n, int nd, const char* const* cn, DBVCP2_t c, int nn, int nz, const char* zl, const char* fl, int dt, const DBoptlist* o), (f, n, nd, cn, c, nn, nz, zl, fl, dt, o))
FWD(int, DBPutUcdvar1, (DBfile* f, const char* n, const char* m, DBVCP1_t v, int ne, DBVCP1_t mv, int ml, int dt, int c, const DBoptlist* o), (f, n, m, v, ne, mv, ml, dt, c, o))
FWD(int, DBPutUcdvar, (DBfile* f, const char* n, const char* m, int nv, const char* const* vn, DBVCP2_t v, int ne, DBVCP2_t mv, int ml, int dt, int c, const DBoptlist* o), (f, n, m, nv, vn, v, ne, mv, ml, dt, c, o))
FWD(int, DBPutZonelist2, (DBfile* f, const char* n, int nz, int nd, const int* nl, int l, int o, int lo, int hi, const int* st, const int* ss, const int* sc, int ns, const DBoptlist* op), (f, n, nz, nd, nl, l, o, lo, hi, st, ss, sc, ns, op))
FWD(int, DBPutPHZonelist, (DBfile* f, const char* n, int nf, const int* nc, int l, const int* nl, const char* ef, int nz, const int* fc, int lf, const int* fl, int o, int lo, int hi, const DBoptlist* op), (f, n, nf, nc, l, nl, ef, nz, fc, lf, fl, o, lo, hi, op))
FWD(int, DBPutMultimesh, (DBfile* f, const char* n, int nm, const char* const* mn, const int* mt, const DBoptlist* o), (f, n, nm, mn, mt, o))
FWD(int, DBPutMultivar, (DBfile* f, const char* n, int nm, const char* const* mn, const int* mt, const DBoptlist* o), (f, n, nm, mn, mt, o))

// Directory operations of the code under test arrive here because the
// executable's symbols come first; calls from inside a Silo call pass through.
int mkdir(const char* p, mode_t m) {
  typedef int (*fn)(const char*, mode_t);
  static fn real = (fn)dlsym(RTLD_NEXT, "mkdir");
  if (active() && !g->fibers[g->cur].inSim) {
    SIMIO("mkdir", -1);
    if (outside(p)) g->finish(END_IOMISUSE, std::string("directory created outside the working directory: ") + p);
    return real(p, m);
  }
  return real(p, m);
}
DIR* opendir(const char* p) {
  typedef DIR* (*fn)(const char*);
  static fn real = (fn)dlsym(RTLD_NEXT, "opendir");
  if (active() && !g->fibers[g->cur].inSim) {
    InSimIo s_;
    if (g->enterIo("opendir")) { errno = EACCES; return 0; }
    return real(p);
  }
  return real(p);
}

} // extern "C"
