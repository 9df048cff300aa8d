// The simulated message passing layer.  Semantics follow the MPI standard:
// messages between one pair of ranks on one communicator do not overtake each
// other; standard sends may or may not wait for the receiver; the buffer of a
// nonblocking send may be read at any time until the request completes;
// collectives may or may not synchronise.  Where the standard leaves a choice,
// the scheduler makes it.
#include "sim.hh"
#include "mpi.h"
#include <algorithm>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

namespace psim {

struct Msg {
  int src, dst, tag, comm;      // comm = context id; src/dst world ranks
  int srcInComm;
  size_t bytes;
  const void* buf;
  std::vector<char> data;
  bool captured, arrived, matched;
  int sreq;                     // send request waiting for the match, or 0
};

struct Req {
  int kind;                     // 1 send, 2 recv, 3 collective
  int owner;
  bool active, complete, freed;
  void* buf; size_t bytes;
  int src, tag, comm;           // recv: wanted (src in world ranks or ANY)
  MPI_Status st;
  // nonblocking collective
  int coll; int collKind; size_t collBytes; void* rbuf; int count; MPI_Datatype dt; MPI_Op op; int root;
};

struct Coll {
  int comm, kind, root, op;
  size_t bytes;
  bool sync;
  int narr;
  std::vector<char> arrived;                 // by comm rank
  std::vector<std::vector<char> > in;
  std::vector<std::vector<int> > counts;
  std::vector<int> meta;
};

struct Comm { std::vector<int> ranks; bool freed; };

static std::vector<Msg> msgs;
static std::vector<Req> reqs;
static std::vector<Comm> comms;               // index = handle
static std::vector<std::vector<int> > selfSeq;
static std::map<std::pair<int, int>, Coll> colls;             // (comm, seq)
static std::map<std::pair<int, int>, int> collSeq;            // (comm, world rank) -> next seq
static std::map<std::pair<int, std::pair<int,int> >, uint64_t> lastArrival;   // (comm,(src,dst))
static std::vector<std::vector<int> > unexpected;             // by world rank
static std::vector<std::vector<int> > posted;                 // recv requests by world rank
static std::vector<int> contigSize;

void mpiReset() {
  const int n = g->sc->nranks;
  msgs.clear(); reqs.assign(1, Req()); colls.clear(); collSeq.clear(); lastArrival.clear();
  comms.assign(3, Comm());
  comms[1].ranks.resize(n); for (int i = 0; i < n; ++i) comms[1].ranks[i] = i;
  for (size_t i = 0; i < comms.size(); ++i) comms[i].freed = false;
  unexpected.assign(n, std::vector<int>());
  posted.assign(n, std::vector<int>());
  contigSize.clear();
}

struct InSim {
  int f;
  InSim(): f(g->cur) { g->fibers[f].inSim++; }
  ~InSim() { g->fibers[f].inSim--; }
};

static void err(const std::string& s) {
  char b[32]; snprintf(b, sizeof b, "rank %d: ", g->cur);
  g->finish(END_MPIERR, b + s);
}

static size_t dtSize(MPI_Datatype d) {
  if (d <= 0) { err("invalid datatype"); }
  if ((d >> 8) >= 1000) return contigSize[(d >> 8) - 1000];
  return d & 0xff;
}

// SELF is per rank: world rank r's private communicator
static int ctx(MPI_Comm c) {
  if (c == MPI_COMM_SELF) return -1 - g->cur;
  if (c <= 0 || c >= (int)comms.size() || comms[c].freed) err("invalid communicator");
  return c;
}
static int csize(MPI_Comm c) { return c == MPI_COMM_SELF ? 1 : (int)comms[ctx(c)].ranks.size(); }
static int crank(MPI_Comm c, int world) {
  if (c == MPI_COMM_SELF) return 0;
  const std::vector<int>& r = comms[ctx(c)].ranks;
  for (size_t i = 0; i < r.size(); ++i) if (r[i] == world) return (int)i;
  err("caller is not in the communicator");
  return -1;
}
static int worldOf(MPI_Comm c, int r) {
  if (c == MPI_COMM_SELF) { if (r != 0) err("invalid rank"); return g->cur; }
  const std::vector<int>& v = comms[ctx(c)].ranks;
  if (r < 0 || r >= (int)v.size()) { char b[64]; snprintf(b, sizeof b, "invalid rank %d", r); err(b); }
  return v[r];
}

static void capture(Msg& m) {
  if (m.captured) return;
  m.data.assign((const char*)m.buf, (const char*)m.buf + m.bytes);
  m.captured = true;
}

static void completeReq(int r) {
  if (r <= 0) return;
  reqs[r].complete = true;
  g->wake(reqs[r].owner);
}
void mpiComplete(int r) { completeReq(r); }

static void deliver(int mi, int ri) {
  Msg& m = msgs[mi]; Req& r = reqs[ri];
  capture(m);
  m.matched = true;
  if (m.bytes > r.bytes) {
    char b[160];
    snprintf(b, sizeof b, "message truncated: %zu bytes from rank %d tag %d into a buffer of %zu bytes on rank %d",
             m.bytes, m.src, m.tag, r.bytes, m.dst);
    g->finish(END_MPIERR, b);
    return;
  }
  if (m.bytes) memcpy(r.buf, &m.data[0], m.bytes);
  std::vector<char>().swap(m.data);
  r.st.MPI_SOURCE = m.srcInComm; r.st.MPI_TAG = m.tag; r.st.MPI_ERROR = 0; r.st.sim_bytes = (int)m.bytes;
  char b[96]; snprintf(b, sizeof b, "match %d->%d tag %d %zub", m.src, m.dst, m.tag, m.bytes); g->log(b);
  g->il.u64(m.src * 1000003ULL + m.dst * 1009ULL + m.tag);
  completeReq(ri);
  if (m.sreq) {
    uint64_t d = g->delay(g->sc->net.latency);
    if (d == 0) completeReq(m.sreq); else g->push(g->now + d, 2, m.sreq);
  }
}

static bool fits(const Msg& m, const Req& r) {
  return m.comm == r.comm && (r.src == MPI_ANY_SOURCE || r.src == m.src) && (r.tag == MPI_ANY_TAG || r.tag == m.tag);
}

void mpiArrive(int mi) {
  Msg& m = msgs[mi];
  m.arrived = true;
  std::vector<int>& p = posted[m.dst];
  for (size_t i = 0; i < p.size(); ++i) {
    if (fits(m, reqs[p[i]])) { int ri = p[i]; p.erase(p.begin() + i); deliver(mi, ri); return; }
  }
  unexpected[m.dst].push_back(mi);
  g->wake(m.dst);                         // probes
}

static int newReq(int kind) {
  Req r; memset((void*)&r, 0, sizeof r);
  r.kind = kind; r.owner = g->cur; r.active = true;
  reqs.push_back(r);
  return (int)reqs.size() - 1;
}

// mode: 0 standard, 1 synchronous, 2 buffered
static int postSend(const void* buf, int count, MPI_Datatype dt, int dest, int tag, MPI_Comm comm, int mode, bool blocking) {
  if (count < 0) err("negative count");
  if (tag < 0) err("invalid tag");
  int rq = newReq(1);
  if (dest == MPI_PROC_NULL) { reqs[rq].complete = true; return rq; }
  Msg m;
  m.src = g->cur; m.dst = worldOf(comm, dest); m.tag = tag; m.comm = ctx(comm); m.srcInComm = crank(comm, g->cur);
  m.bytes = count * dtSize(dt); m.buf = buf; m.captured = m.arrived = m.matched = false; m.sreq = 0;
  const Net& net = g->sc->net;
  bool rdv = false;
  if (mode == 1) rdv = true;
  else if (mode == 2) rdv = false;
  else switch (net.sendMode) {
    case 1: rdv = true; break;
    case 2: rdv = (int)m.bytes > net.eagerLimit; break;
    case 3: rdv = g->chance(50); break;
    default: break;
  }
  g->res->st.messages++;
  if (rdv) { g->res->st.rendezvous++; m.sreq = rq; }
  bool late = !blocking && !rdv && mode != 2 && g->chance(net.lateRead);
  if (late) { g->res->st.lateReads++; m.sreq = rq; }
  if (!rdv && !late) { capture(m); reqs[rq].complete = true; }
  msgs.push_back(m);
  const int mi = (int)msgs.size() - 1;
  uint64_t t = g->now + g->delay(net.latency);
  t = g->held(m.src, m.dst, t);
  uint64_t& last = lastArrival[std::make_pair(m.comm, std::make_pair(m.src, m.dst))];
  if (t < last) t = last;
  last = t;
  for (size_t i = 0; i + 1 < msgs.size() && t > g->now; ++i)
    if (!msgs[i].arrived && msgs[i].dst == m.dst && msgs[i].src != m.src) { g->res->st.crossed++; break; }
  g->push(t, 1, mi);
  return rq;
}

static int postRecv(void* buf, int count, MPI_Datatype dt, int src, int tag, MPI_Comm comm) {
  if (count < 0) err("negative count");
  int ri = newReq(2);
  Req& r = reqs[ri];
  r.buf = buf; r.bytes = count * dtSize(dt); r.tag = tag; r.comm = ctx(comm);
  if (src == MPI_PROC_NULL) { r.complete = true; r.st.MPI_SOURCE = MPI_PROC_NULL; r.st.MPI_TAG = MPI_ANY_TAG; return ri; }
  r.src = src == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : worldOf(comm, src);
  if (r.bytes) memset(buf, 0xA5, r.bytes);      // contents are undefined until completion
  std::vector<int>& u = unexpected[g->cur];
  for (size_t i = 0; i < u.size(); ++i) {
    if (fits(msgs[u[i]], r)) { int mi = u[i]; u.erase(u.begin() + i); deliver(mi, ri); return ri; }
  }
  posted[g->cur].push_back(ri);
  return ri;
}

static void progressColl(int ri);

static bool ready(int ri) {
  if (reqs[ri].kind == 3 && !reqs[ri].complete) progressColl(ri);
  return reqs[ri].complete;
}
static void waitReq(int ri, const char* where) { while (!ready(ri)) g->block(where); }
static void retire(MPI_Request* h, MPI_Status* st) {
  Req& r = reqs[*h];
  if (st) { if (r.kind == 2) *st = r.st; else { memset(st, 0, sizeof *st); } }
  r.active = false;
  *h = MPI_REQUEST_NULL;
}
static void checkReq(MPI_Request h) {
  if (h < 0 || h >= (int)reqs.size() || !reqs[h].active || reqs[h].owner != g->cur) err("invalid request handle");
}
static void emptyStatus(MPI_Status* st) {
  if (st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; }
}

void mpiLeftovers() {
  char b[160];
  for (size_t i = 0; i < msgs.size(); ++i) if (!msgs[i].matched) {
    snprintf(b, sizeof b, "message %d->%d tag %d (%zu bytes) was never received", msgs[i].src, msgs[i].dst, msgs[i].tag, msgs[i].bytes);
    g->res->leftovers.push_back(b);
  }
  for (size_t i = 1; i < reqs.size(); ++i) if (reqs[i].active && !reqs[i].freed) {
    snprintf(b, sizeof b, "rank %d left a %s request %s", reqs[i].owner, reqs[i].kind == 1 ? "send" : reqs[i].kind == 2 ? "receive" : "collective",
             reqs[i].complete ? "without waiting for it" : "incomplete");
    g->res->leftovers.push_back(b);
  }
  for (std::map<std::pair<int, int>, Coll>::iterator it = colls.begin(); it != colls.end(); ++it)
    if (it->second.narr != (int)it->second.arrived.size()) {
      snprintf(b, sizeof b, "collective #%d on communicator %d was not entered by all ranks (%d of %zu)", it->first.second, it->first.first,
               it->second.narr, it->second.arrived.size());
      g->res->leftovers.push_back(b);
    }
}

//------------------------------------------------------------------ reductions
template<typename T> static void redT(T* a, const T* b, size_t n, int op) {
  for (size_t i = 0; i < n; ++i) switch (op) {
    case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break;
    case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break;
    case MPI_SUM: a[i] = a[i] + b[i]; break;
    case MPI_PROD: a[i] = a[i] * b[i]; break;
    case MPI_LAND: a[i] = a[i] && b[i]; break;
    case MPI_LOR: a[i] = a[i] || b[i]; break;
    case MPI_LXOR: a[i] = !a[i] != !b[i]; break;
    default: err("unsupported reduction");
  }
}
template<typename T> static void redI(T* a, const T* b, size_t n, int op) {
  for (size_t i = 0; i < n; ++i) switch (op) {
    case MPI_BAND: a[i] = a[i] & b[i]; break;
    case MPI_BOR: a[i] = a[i] | b[i]; break;
    case MPI_BXOR: a[i] = a[i] ^ b[i]; break;
    default: redT(a + i, b + i, 1, op);
  }
}
template<typename A> struct Loc { A v; int i; };
template<typename A> static void redLoc(Loc<A>* a, const Loc<A>* b, size_t n, int op) {
  for (size_t i = 0; i < n; ++i) {
    bool take = op == MPI_MINLOC ? (b[i].v < a[i].v) : (b[i].v > a[i].v);
    if (take || (b[i].v == a[i].v && b[i].i < a[i].i)) a[i] = b[i];
  }
}
static void reduce(char* a, const char* b, size_t n, MPI_Datatype dt, int op) {
#define RI(D, T) if (dt == D) { redI((T*)a, (const T*)b, n, op); return; }
#define RF(D, T) if (dt == D) { redT((T*)a, (const T*)b, n, op); return; }
  RI(MPI_CHAR, char) RI(MPI_SIGNED_CHAR, signed char) RI(MPI_UNSIGNED_CHAR, unsigned char) RI(MPI_BYTE, unsigned char)
  RI(MPI_SHORT, short) RI(MPI_UNSIGNED_SHORT, unsigned short) RI(MPI_INT, int) RI(MPI_UNSIGNED, unsigned)
  RI(MPI_LONG, long) RI(MPI_UNSIGNED_LONG, unsigned long) RI(MPI_LONG_LONG, long long) RI(MPI_UNSIGNED_LONG_LONG, unsigned long long)
  RI(MPI_INT8_T, signed char) RI(MPI_UINT8_T, unsigned char) RI(MPI_INT16_T, short) RI(MPI_UINT16_T, unsigned short)
  RI(MPI_INT32_T, int) RI(MPI_UINT32_T, unsigned) RI(MPI_INT64_T, long) RI(MPI_UINT64_T, unsigned long) RI(MPI_C_BOOL, unsigned char)
  RF(MPI_FLOAT, float) RF(MPI_DOUBLE, double) RF(MPI_LONG_DOUBLE, long double)
  if (dt == MPI_DOUBLE_INT) { redLoc((Loc<double>*)a, (const Loc<double>*)b, n, op); return; }
  if (dt == MPI_FLOAT_INT) { redLoc((Loc<float>*)a, (const Loc<float>*)b, n, op); return; }
  if (dt == MPI_2INT) { redLoc((Loc<int>*)a, (const Loc<int>*)b, n, op); return; }
  err("unsupported datatype in a reduction");
}

//----------------------------------------------------------------- collectives
enum { C_BARRIER = 1, C_BCAST, C_REDUCE, C_ALLREDUCE, C_SCAN, C_EXSCAN, C_GATHER, C_SCATTER, C_ALLGATHER, C_ALLTOALL, C_SPLIT, C_DUP };
static const char* cname[] = { "", "Barrier", "Bcast", "Reduce", "Allreduce", "Scan", "Exscan", "Gather", "Scatter", "Allgather", "Alltoall", "Comm_split", "Comm_dup" };

// Enter a collective: contributes data, returns its record.  The record stays
// valid (std::map) while other ranks enter.
static Coll& enterColl(MPI_Comm comm, int kind, int root, int op, size_t bytes, bool checkBytes, const void* data, size_t n, int& me) {
  const int c = ctx(comm);
  const int size = csize(comm);
  me = crank(comm, g->cur);
  if (root >= size || root < -1) err("invalid root");
  int& sq = collSeq[std::make_pair(c, g->cur)];
  Coll& k = colls[std::make_pair(c, sq++)];
  char b[200];
  if (k.arrived.empty()) {
    k.comm = c; k.kind = kind; k.root = root; k.op = op; k.bytes = bytes; k.narr = 0;
    k.arrived.assign(size, 0); k.in.resize(size); k.counts.resize(size); k.meta.assign(size, 0);
    k.sync = g->chance(g->sc->net.collSync);
    if (k.sync) g->res->st.syncColl++;
  } else {
    if (k.kind != kind || k.root != root || k.op != op) {
      snprintf(b, sizeof b, "collective mismatch: this rank calls %s (root %d) where another rank called %s (root %d)", cname[kind], root, cname[k.kind], k.root);
      err(b);
    }
    if (checkBytes && k.bytes != bytes) {
      snprintf(b, sizeof b, "collective mismatch: %s (root %d) with %zu bytes here and %zu bytes on another rank", cname[kind], root, bytes, k.bytes);
      err(b);
    }
  }
  k.arrived[me] = 1; k.narr++;
  if (n) k.in[me].assign((const char*)data, (const char*)data + n);
  g->il.u64(kind * 131ULL + g->cur);
  if (c > 0) for (size_t i = 0; i < comms[c].ranks.size(); ++i) if (comms[c].ranks[i] != g->cur) g->wake(comms[c].ranks[i]);
  return k;
}
static void waitAll(Coll& k) { while (k.narr != (int)k.arrived.size()) g->block(cname[k.kind]); }
static void waitRoot(Coll& k) { while (!k.arrived[k.root]) g->block(cname[k.kind]); }
static void settle(Coll& k) { if (k.sync) waitAll(k); uint64_t d = g->delay(g->sc->net.latency); if (d) g->sleepFor(d); }
// collective data crosses partitions as well
static void crossHold(Coll& k) {
  if (k.comm < 0) return;
  uint64_t at = g->now;
  const std::vector<int>& r = comms[k.comm].ranks;
  for (size_t i = 0; i < r.size(); ++i) if (r[i] != g->cur) at = std::max(at, g->held(r[i], g->cur, g->now));
  if (at > g->now) g->sleepFor(at - g->now);
}

static void progressColl(int ri) {
  Req& r = reqs[ri];
  Coll* k = 0;
  for (std::map<std::pair<int, int>, Coll>::iterator it = colls.begin(); it != colls.end(); ++it)
    if (it->first.first == r.comm && it->first.second == r.coll) k = &it->second;
  const int me = r.src;
  if (r.collKind == C_BCAST) {
    if (me == k->root) { r.complete = true; return; }
    if (!k->arrived[k->root]) return;
    if (r.bytes) memcpy(r.buf, &k->in[k->root][0], r.bytes);
    r.complete = true;
  } else {
    if (k->narr != (int)k->arrived.size()) return;
    if (r.collKind == C_ALLREDUCE && r.bytes) {
      std::vector<char> acc = k->in[0];
      for (size_t i = 1; i < k->in.size(); ++i) reduce(&acc[0], &k->in[i][0], r.count, r.dt, r.op);
      memcpy(r.buf, &acc[0], r.bytes);
    }
    r.complete = true;
  }
}

} // namespace psim

using namespace psim;
typedef InSim IS;

extern "C" {

int SIMMPI_Init(int*, char***) { return MPI_SUCCESS; }
int SIMMPI_Init_thread(int*, char***, int req, int* prov) { if (prov) *prov = req; return MPI_SUCCESS; }
int SIMMPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int SIMMPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
int SIMMPI_Finalize(void) { return MPI_SUCCESS; }
int SIMMPI_Abort(MPI_Comm, int code) {
  char b[64]; snprintf(b, sizeof b, "rank %d called MPI_Abort(%d)", g->cur, code);
  g->finish(END_ABORT, b);
  return MPI_SUCCESS;
}
double SIMMPI_Wtime(void) { return g->now * 1e-6; }
double SIMMPI_Wtick(void) { return 1e-6; }
int SIMMPI_Get_processor_name(char* s, int* n) { *n = snprintf(s, MPI_MAX_PROCESSOR_NAME, "node%d", g->cur); return MPI_SUCCESS; }
int SIMMPI_Error_string(int e, char* s, int* n) { *n = snprintf(s, MPI_MAX_ERROR_STRING, "MPI error %d", e); return MPI_SUCCESS; }
int SIMMPI_Comm_rank(MPI_Comm c, int* r) { IS s; *r = crank(c, g->cur); return MPI_SUCCESS; }
int SIMMPI_Comm_size(MPI_Comm c, int* n) { IS s; *n = csize(c); return MPI_SUCCESS; }
int SIMMPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { *r = a == b ? 0 : 3; return MPI_SUCCESS; }
int SIMMPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int SIMMPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int SIMMPI_Type_size(MPI_Datatype d, int* n) { *n = (int)dtSize(d); return MPI_SUCCESS; }
int SIMMPI_Type_contiguous(int n, MPI_Datatype d, MPI_Datatype* o) {
  IS s; contigSize.push_back(int(n * dtSize(d))); *o = (1000 + (int)contigSize.size() - 1) << 8; return MPI_SUCCESS;
}
int SIMMPI_Type_commit(MPI_Datatype*) { return MPI_SUCCESS; }
int SIMMPI_Type_free(MPI_Datatype* d) { *d = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int SIMMPI_Get_count(const MPI_Status* st, MPI_Datatype d, int* n) {
  size_t k = dtSize(d); *n = (st->sim_bytes % k) ? MPI_UNDEFINED : int(st->sim_bytes / k); return MPI_SUCCESS;
}

static int blockingSend(const void* b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c, int mode, const char* nm) {
  IS s; g->enterOp(nm);
  int r = postSend(b, n, d, to, tag, c, mode, true);
  waitReq(r, nm);
  reqs[r].active = false;
  return MPI_SUCCESS;
}
int SIMMPI_Send(const void* b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c) { return blockingSend(b, n, d, to, tag, c, 0, "Send"); }
int SIMMPI_Ssend(const void* b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c) { return blockingSend(b, n, d, to, tag, c, 1, "Ssend"); }
int SIMMPI_Bsend(const void* b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c) { return blockingSend(b, n, d, to, tag, c, 2, "Bsend"); }
int SIMMPI_Isend(const void* b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c, MPI_Request* q) { IS s; g->enterOp("Isend"); *q = postSend(b, n, d, to, tag, c, 0, false); return MPI_SUCCESS; }
int SIMMPI_Issend(const void* b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c, MPI_Request* q) { IS s; g->enterOp("Issend"); *q = postSend(b, n, d, to, tag, c, 1, false); return MPI_SUCCESS; }
int SIMMPI_Ibsend(const void* b, int n, MPI_Datatype d, int to, int tag, MPI_Comm c, MPI_Request* q) { IS s; g->enterOp("Ibsend"); *q = postSend(b, n, d, to, tag, c, 2, false); return MPI_SUCCESS; }
int SIMMPI_Recv(void* b, int n, MPI_Datatype d, int from, int tag, MPI_Comm c, MPI_Status* st) {
  IS s; g->enterOp("Recv");
  int r = postRecv(b, n, d, from, tag, c);
  waitReq(r, "Recv");
  if (st) *st = reqs[r].st;
  reqs[r].active = false;
  return MPI_SUCCESS;
}
int SIMMPI_Irecv(void* b, int n, MPI_Datatype d, int from, int tag, MPI_Comm c, MPI_Request* q) { IS s; g->enterOp("Irecv"); *q = postRecv(b, n, d, from, tag, c); return MPI_SUCCESS; }
int SIMMPI_Sendrecv(const void* sb, int sn, MPI_Datatype sd, int to, int stag, void* rb, int rn, MPI_Datatype rd, int from, int rtag, MPI_Comm c, MPI_Status* st) {
  IS s; g->enterOp("Sendrecv");
  int rr = postRecv(rb, rn, rd, from, rtag, c);
  int rs = postSend(sb, sn, sd, to, stag, c, 0, true);
  waitReq(rs, "Sendrecv"); waitReq(rr, "Sendrecv");
  if (st) *st = reqs[rr].st;
  reqs[rr].active = reqs[rs].active = false;
  return MPI_SUCCESS;
}
static bool probeFor(int from, int tag, MPI_Comm c, MPI_Status* st) {
  Req r; memset((void*)&r, 0, sizeof r);
  r.comm = ctx(c); r.tag = tag; r.src = from == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : worldOf(c, from);
  std::vector<int>& u = unexpected[g->cur];
  for (size_t i = 0; i < u.size(); ++i) if (fits(msgs[u[i]], r)) {
    if (st) { st->MPI_SOURCE = msgs[u[i]].srcInComm; st->MPI_TAG = msgs[u[i]].tag; st->MPI_ERROR = 0; st->sim_bytes = (int)msgs[u[i]].bytes; }
    return true;
  }
  return false;
}
int SIMMPI_Probe(int from, int tag, MPI_Comm c, MPI_Status* st) { IS s; g->enterOp("Probe"); while (!probeFor(from, tag, c, st)) g->block("Probe"); return MPI_SUCCESS; }
int SIMMPI_Iprobe(int from, int tag, MPI_Comm c, int* flag, MPI_Status* st) { IS s; g->enterOp("Iprobe"); g->sleepFor(1); *flag = probeFor(from, tag, c, st); return MPI_SUCCESS; }
int SIMMPI_Wait(MPI_Request* q, MPI_Status* st) {
  IS s; g->enterOp("Wait");
  if (*q == MPI_REQUEST_NULL) { emptyStatus(st); return MPI_SUCCESS; }
  checkReq(*q); waitReq(*q, "Wait"); retire(q, st); return MPI_SUCCESS;
}
int SIMMPI_Waitall(int n, MPI_Request* q, MPI_Status* st) {
  IS s; g->enterOp("Waitall");
  for (int i = 0; i < n; ++i) {
    if (q[i] == MPI_REQUEST_NULL) { emptyStatus(st ? st + i : 0); continue; }
    checkReq(q[i]); waitReq(q[i], "Waitall"); retire(q + i, st ? st + i : 0);
  }
  return MPI_SUCCESS;
}
static int readyIndex(int n, MPI_Request* q, bool& any) {
  std::vector<int> c; any = false;
  for (int i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL) { any = true; checkReq(q[i]); if (ready(q[i])) c.push_back(i); }
  return c.empty() ? -1 : c[g->chooseUniform((int)c.size())];
}
int SIMMPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* st) {
  IS s; g->enterOp("Waitany");
  for (;;) {
    bool any; int i = readyIndex(n, q, any);
    if (!any) { *idx = MPI_UNDEFINED; emptyStatus(st); return MPI_SUCCESS; }
    if (i >= 0) { *idx = i; retire(q + i, st); return MPI_SUCCESS; }
    g->block("Waitany");
  }
}
int SIMMPI_Waitsome(int n, MPI_Request* q, int* out, int* idx, MPI_Status* st) {
  IS s; g->enterOp("Waitsome");
  for (;;) {
    bool any = false; int k = 0;
    for (int i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL) { any = true; checkReq(q[i]); if (ready(q[i])) { idx[k] = i; retire(q + i, st ? st + k : 0); ++k; } }
    if (!any) { *out = MPI_UNDEFINED; return MPI_SUCCESS; }
    if (k) { *out = k; return MPI_SUCCESS; }
    g->block("Waitsome");
  }
}
int SIMMPI_Test(MPI_Request* q, int* flag, MPI_Status* st) {
  IS s; g->enterOp("Test"); g->sleepFor(1);
  if (*q == MPI_REQUEST_NULL) { *flag = 1; emptyStatus(st); return MPI_SUCCESS; }
  checkReq(*q); *flag = ready(*q); if (*flag) retire(q, st); return MPI_SUCCESS;
}
int SIMMPI_Testall(int n, MPI_Request* q, int* flag, MPI_Status* st) {
  IS s; g->enterOp("Testall"); g->sleepFor(1);
  *flag = 1;
  for (int i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL) { checkReq(q[i]); if (!ready(q[i])) *flag = 0; }
  if (*flag) for (int i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL) retire(q + i, st ? st + i : 0);
  return MPI_SUCCESS;
}
int SIMMPI_Testany(int n, MPI_Request* q, int* idx, int* flag, MPI_Status* st) {
  IS s; g->enterOp("Testany"); g->sleepFor(1);
  bool any; int i = readyIndex(n, q, any);
  if (!any) { *flag = 1; *idx = MPI_UNDEFINED; emptyStatus(st); return MPI_SUCCESS; }
  *flag = i >= 0; *idx = i >= 0 ? i : MPI_UNDEFINED;
  if (i >= 0) retire(q + i, st);
  return MPI_SUCCESS;
}
int SIMMPI_Request_free(MPI_Request* q) { IS s; checkReq(*q); reqs[*q].freed = true; *q = MPI_REQUEST_NULL; return MPI_SUCCESS; }
int SIMMPI_Cancel(MPI_Request*) { return MPI_SUCCESS; }
int SIMMPI_Buffer_attach(void*, int) { return MPI_SUCCESS; }
int SIMMPI_Buffer_detach(void*, int*) { return MPI_SUCCESS; }

int SIMMPI_Barrier(MPI_Comm c) {
  IS s; g->enterOp("Barrier"); int me;
  Coll& k = enterColl(c, C_BARRIER, -1, 0, 0, true, 0, 0, me);
  waitAll(k); crossHold(k); settle(k); return MPI_SUCCESS;
}
static void nbReq(MPI_Request* q, Coll& k, MPI_Comm c, int me, int kind, void* buf, size_t bytes) {
  *q = newReq(3); Req& r = reqs[*q];
  r.comm = ctx(c); r.coll = collSeq[std::make_pair(r.comm, g->cur)] - 1; r.collKind = kind; r.src = me; r.buf = buf; r.bytes = bytes;
  (void)k;
}
int SIMMPI_Ibarrier(MPI_Comm c, MPI_Request* q) {
  IS s; g->enterOp("Ibarrier"); int me;
  Coll& k = enterColl(c, C_BARRIER, -1, 0, 0, true, 0, 0, me); nbReq(q, k, c, me, C_BARRIER, 0, 0); return MPI_SUCCESS;
}
int SIMMPI_Bcast(void* b, int n, MPI_Datatype d, int root, MPI_Comm c) {
  IS s; g->enterOp("Bcast"); int me;
  if (n < 0) err("negative count");
  const size_t bytes = n * dtSize(d);
  const bool isRoot = crank(c, g->cur) == root;
  Coll& k = enterColl(c, C_BCAST, root, 0, bytes, true, b, isRoot ? bytes : 0, me);
  if (!isRoot) {
    if (bytes) memset(b, 0xA5, bytes);
    waitRoot(k); crossHold(k);
    if (bytes) memcpy(b, &k.in[root][0], bytes);
  }
  settle(k);
  return MPI_SUCCESS;
}
int SIMMPI_Ibcast(void* b, int n, MPI_Datatype d, int root, MPI_Comm c, MPI_Request* q) {
  IS s; g->enterOp("Ibcast"); int me;
  const size_t bytes = n * dtSize(d);
  const bool isRoot = crank(c, g->cur) == root;
  Coll& k = enterColl(c, C_BCAST, root, 0, bytes, true, b, isRoot ? bytes : 0, me);
  nbReq(q, k, c, me, C_BCAST, b, bytes);
  return MPI_SUCCESS;
}
static void foldAll(Coll& k, int upto, void* out, int n, MPI_Datatype d, MPI_Op op) {
  const size_t bytes = n * dtSize(d);
  if (!bytes) return;
  std::vector<char> acc = k.in[0];
  for (int i = 1; i <= upto; ++i) reduce(&acc[0], &k.in[i][0], n, d, op);
  memcpy(out, &acc[0], bytes);
}
int SIMMPI_Reduce(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) {
  IS s; g->enterOp("Reduce"); int me;
  const size_t bytes = n * dtSize(d);
  Coll& k = enterColl(c, C_REDUCE, root, op, bytes, true, sb == MPI_IN_PLACE ? rb : sb, bytes, me);
  if (me == root) { waitAll(k); crossHold(k); foldAll(k, csize(c) - 1, rb, n, d, op); }
  settle(k); return MPI_SUCCESS;
}
int SIMMPI_Allreduce(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) {
  IS s; g->enterOp("Allreduce"); int me;
  const size_t bytes = n * dtSize(d);
  Coll& k = enterColl(c, C_ALLREDUCE, -1, op, bytes, true, sb == MPI_IN_PLACE ? rb : sb, bytes, me);
  if (sb != MPI_IN_PLACE && bytes) memset(rb, 0xA5, bytes);
  waitAll(k); crossHold(k); foldAll(k, csize(c) - 1, rb, n, d, op);
  settle(k); return MPI_SUCCESS;
}
int SIMMPI_Iallreduce(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c, MPI_Request* q) {
  IS s; g->enterOp("Iallreduce"); int me;
  const size_t bytes = n * dtSize(d);
  Coll& k = enterColl(c, C_ALLREDUCE, -1, op, bytes, true, sb == MPI_IN_PLACE ? rb : sb, bytes, me);
  nbReq(q, k, c, me, C_ALLREDUCE, rb, bytes); reqs[*q].count = n; reqs[*q].dt = d; reqs[*q].op = op;
  return MPI_SUCCESS;
}
int SIMMPI_Scan(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) {
  IS s; g->enterOp("Scan"); int me;
  const size_t bytes = n * dtSize(d);
  Coll& k = enterColl(c, C_SCAN, -1, op, bytes, true, sb == MPI_IN_PLACE ? rb : sb, bytes, me);
  waitAll(k); foldAll(k, me, rb, n, d, op); settle(k); return MPI_SUCCESS;
}
int SIMMPI_Exscan(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) {
  IS s; g->enterOp("Exscan"); int me;
  const size_t bytes = n * dtSize(d);
  Coll& k = enterColl(c, C_EXSCAN, -1, op, bytes, true, sb == MPI_IN_PLACE ? rb : sb, bytes, me);
  waitAll(k); if (me > 0) foldAll(k, me - 1, rb, n, d, op); settle(k); return MPI_SUCCESS;
}
// Gather family: contributions are stored as raw bytes per rank.
static int gatherImpl(const char* nm, int kind, const void* sb, int sn, MPI_Datatype sd, void* rb, const int* rn, int rn1, const int* disp, MPI_Datatype rd, int root, MPI_Comm c) {
  IS s; g->enterOp(nm); int me = crank(c, g->cur);
  const bool recv = kind == C_ALLGATHER || me == root;
  const void* src = sb; size_t bytes;
  if (sb == MPI_IN_PLACE) {
    const size_t es = dtSize(rd);
    const int cnt = rn ? rn[me] : rn1;
    src = (const char*)rb + (disp ? disp[me] : me * cnt) * es; bytes = cnt * es;
  } else bytes = sn * dtSize(sd);
  Coll& k = enterColl(c, kind, kind == C_ALLGATHER ? -1 : root, 0, 0, false, src, bytes, me);
  if (recv) {
    waitAll(k); crossHold(k);
    const size_t es = dtSize(rd);
    for (int i = 0; i < csize(c); ++i) {
      const size_t cap = (rn ? rn[i] : rn1) * es;
      if (k.in[i].size() > cap) err(std::string(nm) + ": more data than the receive count");
      if (!k.in[i].empty()) memcpy((char*)rb + (disp ? (size_t)disp[i] : (size_t)i * rn1) * es, &k.in[i][0], k.in[i].size());
    }
  }
  settle(k); return MPI_SUCCESS;
}
int SIMMPI_Gather(const void* sb, int sn, MPI_Datatype sd, void* rb, int rn, MPI_Datatype rd, int root, MPI_Comm c) { return gatherImpl("Gather", C_GATHER, sb, sn, sd, rb, 0, rn, 0, rd, root, c); }
int SIMMPI_Gatherv(const void* sb, int sn, MPI_Datatype sd, void* rb, const int* rn, const int* dp, MPI_Datatype rd, int root, MPI_Comm c) { return gatherImpl("Gatherv", C_GATHER, sb, sn, sd, rb, rn, 0, dp, rd, root, c); }
int SIMMPI_Allgather(const void* sb, int sn, MPI_Datatype sd, void* rb, int rn, MPI_Datatype rd, MPI_Comm c) { return gatherImpl("Allgather", C_ALLGATHER, sb, sn, sd, rb, 0, rn, 0, rd, -1, c); }
int SIMMPI_Allgatherv(const void* sb, int sn, MPI_Datatype sd, void* rb, const int* rn, const int* dp, MPI_Datatype rd, MPI_Comm c) { return gatherImpl("Allgatherv", C_ALLGATHER, sb, sn, sd, rb, rn, 0, dp, rd, -1, c); }
static int scatterImpl(const char* nm, const void* sb, const int* sn, int sn1, const int* disp, MPI_Datatype sd, void* rb, int rn, MPI_Datatype rd, int root, MPI_Comm c) {
  IS s; g->enterOp(nm); int me = crank(c, g->cur);
  const int n = csize(c);
  std::vector<char> all; std::vector<int> cnt;
  if (me == root) {
    const size_t es = dtSize(sd);
    for (int i = 0; i < n; ++i) {
      const char* p = (const char*)sb + (disp ? (size_t)disp[i] : (size_t)i * sn1) * es;
      const size_t b = (sn ? sn[i] : sn1) * es;
      all.insert(all.end(), p, p + b); cnt.push_back((int)b);
    }
  }
  Coll& k = enterColl(c, C_SCATTER, root, 0, 0, false, all.empty() ? 0 : &all[0], all.size(), me);
  if (me == root) k.counts[root] = cnt;
  waitRoot(k); crossHold(k);
  size_t off = 0;
  for (int i = 0; i < me; ++i) off += k.counts[root][i];
  const size_t b = k.counts[root][me];
  if (rb != MPI_IN_PLACE) {
    if (b > rn * dtSize(rd)) err(std::string(nm) + ": more data than the receive count");
    if (b) memcpy(rb, &k.in[root][off], b);
  }
  settle(k); return MPI_SUCCESS;
}
int SIMMPI_Scatter(const void* sb, int sn, MPI_Datatype sd, void* rb, int rn, MPI_Datatype rd, int root, MPI_Comm c) { return scatterImpl("Scatter", sb, 0, sn, 0, sd, rb, rn, rd, root, c); }
int SIMMPI_Scatterv(const void* sb, const int* sn, const int* dp, MPI_Datatype sd, void* rb, int rn, MPI_Datatype rd, int root, MPI_Comm c) { return scatterImpl("Scatterv", sb, sn, 0, dp, sd, rb, rn, rd, root, c); }
static int alltoallImpl(const char* nm, const void* sb, const int* sn, int sn1, const int* sdp, MPI_Datatype sd, void* rb, const int* rn, int rn1, const int* rdp, MPI_Datatype rd, MPI_Comm c) {
  IS s; g->enterOp(nm); int me;
  const int n = csize(c);
  std::vector<char> all; std::vector<int> cnt;
  const bool ip = sb == MPI_IN_PLACE;
  const size_t es = dtSize(ip ? rd : sd);
  for (int i = 0; i < n; ++i) {
    const char* base = (const char*)(ip ? rb : sb);
    const int* dp = ip ? rdp : sdp; const int* cn = ip ? rn : sn; const int c1 = ip ? rn1 : sn1;
    const char* p = base + (dp ? (size_t)dp[i] : (size_t)i * c1) * es;
    const size_t b = (cn ? cn[i] : c1) * es;
    all.insert(all.end(), p, p + b); cnt.push_back((int)b);
  }
  Coll& k = enterColl(c, C_ALLTOALL, -1, 0, 0, false, all.empty() ? 0 : &all[0], all.size(), me);
  k.counts[me] = cnt;
  waitAll(k); crossHold(k);
  const size_t rs = dtSize(rd);
  for (int i = 0; i < n; ++i) {
    size_t off = 0;
    for (int j = 0; j < me; ++j) off += k.counts[i][j];
    const size_t b = k.counts[i][me];
    if (b > (rn ? rn[i] : rn1) * rs) err(std::string(nm) + ": more data than the receive count");
    if (b) memcpy((char*)rb + (rdp ? (size_t)rdp[i] : (size_t)i * rn1) * rs, &k.in[i][off], b);
  }
  settle(k); return MPI_SUCCESS;
}
int SIMMPI_Alltoall(const void* sb, int sn, MPI_Datatype sd, void* rb, int rn, MPI_Datatype rd, MPI_Comm c) { return alltoallImpl("Alltoall", sb, 0, sn, 0, sd, rb, 0, rn, 0, rd, c); }
int SIMMPI_Alltoallv(const void* sb, const int* sn, const int* sdp, MPI_Datatype sd, void* rb, const int* rn, const int* rdp, MPI_Datatype rd, MPI_Comm c) { return alltoallImpl("Alltoallv", sb, sn, 0, sdp, sd, rb, rn, 0, rdp, rd, c); }

int SIMMPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
  IS s; g->enterOp("Comm_split"); int me;
  int v[2] = { color, key };
  Coll& k = enterColl(c, C_SPLIT, -1, 0, 0, false, v, sizeof v, me);
  waitAll(k);
  if (k.meta[0] == 0) {                     // first rank past the gate creates all
    std::map<int, std::vector<std::pair<int, int> > > groups;
    for (int i = 0; i < csize(c); ++i) { int* w = (int*)&k.in[i][0]; if (w[0] != MPI_UNDEFINED) groups[w[0]].push_back(std::make_pair(w[1], i)); }
    k.meta[0] = (int)comms.size();
    std::vector<int> world; for (int i = 0; i < csize(c); ++i) world.push_back(worldOf(c, i));
    for (std::map<int, std::vector<std::pair<int, int> > >::iterator it = groups.begin(); it != groups.end(); ++it) {
      std::stable_sort(it->second.begin(), it->second.end());
      Comm n; n.freed = false;
      for (size_t i = 0; i < it->second.size(); ++i) n.ranks.push_back(world[it->second[i].second]);
      comms.push_back(n);
    }
  }
  *out = MPI_COMM_NULL;
  if (color != MPI_UNDEFINED) {
    int idx = 0; std::map<int, int> seen;
    for (int i = 0; i < csize(c); ++i) { int* w = (int*)&k.in[i][0]; if (w[0] != MPI_UNDEFINED) seen[w[0]]; }
    for (std::map<int, int>::iterator it = seen.begin(); it != seen.end(); ++it, ++idx) if (it->first == color) *out = k.meta[0] + idx;
  }
  settle(k); return MPI_SUCCESS;
}
int SIMMPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { return SIMMPI_Comm_split(c, 0, 0, out); }

} // extern "C"
