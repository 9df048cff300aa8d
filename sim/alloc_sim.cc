// The allocation seam: operator new of the whole process.  Inside an armed
// scope an allocation may fail (F_ALLOC), live blocks are counted, and for
// concurrent callers each allocation is a preemption point.
#include "sim.hh"
#include <new>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>

using namespace psim;

static const uint64_t MAGIC = 0x706f6c7973696d21ULL;
struct Head { uint64_t magic; uint64_t owner; };

static void preempt(Fiber* f) {
  if (!g->preemptAlloc || g->noPreempt) return;
  f->inSim++;
  if (f->preemptIn > 0 && --f->preemptIn == 0) { g->il.u64(f->rank); g->sleepFor(1); f->preemptIn = -1; }
  if (f->preemptIn < 0) {                 // draw the distance to the next preemption
    static const int gap[6] = { 0, 1, 7, 50, 300, 2000 };     // 0: no more
    static const int w[6] = { 0, 1, 2, 4, 4, 2 };
    f->preemptIn = gap[g->choose(6, w)];
  }
  f->inSim--;
}

static void* get(size_t n) {
  Fiber* f = 0;
  if (g && g->cur >= 0) {
    f = &g->fibers[g->cur];
    if (!f->allocScope || f->inSim) f = 0;
  }
  if (f) {
    const int64_t k = (int64_t)f->allocCount++;
    if (f->allocArm) for (size_t i = 0; i < g->sc->faults.size(); ++i) {
      const Fault& x = g->sc->faults[i];
      if (x.kind != F_ALLOC || x.a != f->rank || (x.c >> 1) != f->allocArm - 1) continue;
      const int64_t at = f->allocBase + x.b*(int64_t)f->allocTotal/1000000;
      if (k == at || ((x.c & 1) && k > at)) {
        f->allocFired = true;
        g->res->st.faultFired[F_ALLOC]++;
        throw std::bad_alloc();
      }
    }
    preempt(f);
  }
  Head* h = (Head*)malloc(sizeof(Head) + n);
  if (!h) abort();
  h->magic = MAGIC; h->owner = f ? f->rank + 1 : 0;
  if (f) f->allocLive++;
  return h + 1;
}
static void put(void* p) {
  if (!p) return;
  Head* h = (Head*)p - 1;
  if (h->magic != MAGIC) abort();         // double delete, foreign pointer
  if (h->owner && g && g->cur >= 0 && h->owner - 1 < g->fibers.size()) g->fibers[h->owner - 1].allocLive--;
  h->magic = 0;
  free(h);
}

void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch (...) { return 0; } }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }

// Initialisation of function-local statics: a caller thread preempted inside
// one must not be re-entered by another.
extern "C" int __cxa_guard_acquire(char* gd) noexcept {
  for (;;) {
    if (gd[0]) return 0;
    if (!gd[1]) { gd[1] = 1; return 1; }
    if (g && g->cur >= 0) g->sleepFor(1); else abort();
  }
}
extern "C" void __cxa_guard_release(char* gd) noexcept { gd[1] = 0; gd[0] = 1; }
extern "C" void __cxa_guard_abort(char* gd) noexcept { gd[1] = 0; }

// malloc and its kin as called by the C interface's own code (build.py redirects
// them).  Blocks are filled with junk and never handed out twice, so that use of
// uninitialised or freed pointers cannot go unnoticed by luck.
namespace {
struct HBlock { void* p; size_t n; int owner; bool freed; };
HBlock* hb; size_t nhb, caphb;
}
namespace psim { void heapReset() { nhb = 0; } }
static HBlock* findBlock(void* p) { for (size_t i = nhb; i-- > 0; ) if (hb[i].p == p) return &hb[i]; return 0; }
extern "C" {
void* psim_malloc(size_t n) {
  Fiber* f = g && g->cur >= 0 ? &g->fibers[g->cur] : 0;
  if (f && !f->inSim) preempt(f);
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  memset(p, 0xA5, n);
  if (nhb == caphb) { caphb = caphb ? 2*caphb : 1024; hb = (HBlock*)realloc(hb, caphb*sizeof(HBlock)); }
  HBlock b = { p, n, f ? f->rank : -1, false }; hb[nhb++] = b;
  if (f) f->heapLive++;
  return p;
}
void psim_free(void* p) {
  if (!p) return;
  Fiber* f = g && g->cur >= 0 ? &g->fibers[g->cur] : 0;
  HBlock* b = findBlock(p);
  if (!b || b->freed) { if (g) g->finish(END_HEAP, b ? "free() of a block that was freed before" : "free() of a pointer that malloc() never returned"); abort(); }
  b->freed = true;
  memset(p, 0x5A, b->n);
  if (f && b->owner >= 0) g->fibers[b->owner].heapLive--;
  if (f && !f->inSim) preempt(f);
}
void* psim_calloc(size_t n, size_t m) { void* p = psim_malloc(n*m); memset(p, 0, n*m); return p; }
void* psim_realloc(void* q, size_t n) {
  if (!q) return psim_malloc(n);
  HBlock* b = findBlock(q);
  if (!b || b->freed) { psim_free(q); return 0; }
  const size_t old = b->n;
  void* p = psim_malloc(n); memcpy(p, q, old < n ? old : n); psim_free(q); return p;
}
char* psim_strdup(const char* s) { char* p = (char*)psim_malloc(strlen(s) + 1); strcpy(p, s); return p; }
char* psim_strndup(const char* s, size_t n) { const size_t k = strnlen(s, n); char* p = (char*)psim_malloc(k + 1); memcpy(p, s, k); p[k] = 0; return p; }
}
