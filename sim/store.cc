// Reads a dump back with the real Silo library and compares it, to the bit,
// with what the ranks were asked to write.
#define POLYSIM_SILO_RAW
#include "harness.hh"
#include <silo.h>
#include <float.h>
#include <set>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>

namespace psim {
void siloReads(int on);
namespace {

struct Reader {
  const Step& s; int nproc, dim; std::string why;
  Reader(const Step& st, int n, int d): s(st), nproc(n), dim(d) {}

  bool no(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    char b[400]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    why = b; return false;
  }
  int cycle() const { return s.iargs[W_CALL] >= 3 && s.iargs[W_CALL] < 5 ? -1 : s.iargs[W_CYCLE]; }
  double time() const { return 0.25*s.iargs[W_CYCLE] + 0.125; }
  bool timed() const { return s.iargs[W_CALL] >= 3 && s.iargs[W_CALL] < 5 ? false : (s.iargs[W_CALL] > 0 && s.iargs[W_CALL] < 5) || s.iargs[W_CYCLE] >= 0; }
  bool tagged() const { return s.iargs[W_CALL] == 0 || s.iargs[W_CALL] == 5; }
  std::string prefix() const { std::string p = s.sargs[0]; const size_t i = p.find(".silo"); if (i != std::string::npos) p.erase(i); return p; }
  std::string dir() const {
    if (!s.sargs[1].empty() && s.iargs[W_CALL] != 2 && s.iargs[W_CALL] != 4) return s.sargs[1];
    return s.sargs[0] + "-" + std::to_string(nproc);
  }
  std::string leaf() const { return cycle() >= 0 ? prefix() + "-" + std::to_string(cycle()) + ".silo" : prefix() + ".silo"; }
  std::string master() const { return dir() + "/" + leaf(); }

  template<class T> bool ints(const char* what, const T* p, int n, const std::vector<int>& want) {
    if (n != (int)want.size()) return no("%s has %d values, not %zu", what, n, want.size());
    for (int i = 0; i < n; ++i) if (p[i] != want[i]) return no("%s: value %d is %d, not %d", what, i, (int)p[i], want[i]);
    return true;
  }
  bool compound(DBfile* f, const char* name, const std::vector<std::string>& names, const std::vector<std::vector<int> >& want) {
    int total = 0; for (size_t i = 0; i < want.size(); ++i) total += want[i].size();
    DBcompoundarray* c = DBGetCompoundarray(f, name);
    if (!c) return total == 0 ? true : no("no array %s", name);
    bool ok = c->nelems == (int)names.size() && c->datatype == DB_INT ? true : no("array %s has %d parts", name, c->nelems);
    const int* v = (const int*)c->values;
    for (int i = 0; ok && i < c->nelems; ++i) {
      if (!c->elemnames[i] || names[i] != c->elemnames[i]) ok = no("array %s: part %d is called \"%s\", not \"%s\"", name, i, c->elemnames[i] ? c->elemnames[i] : "", names[i].c_str());
      else { ok = ints((std::string(name) + "/" + names[i]).c_str(), v, c->elemlengths[i], want[i]); v += c->elemlengths[i]; }
    }
    DBFreeCompoundarray(c);
    return ok;
  }

  // The contents of the current directory of f against what rank wrote.
  bool domain(DBfile* f, const MeshDump& m, int rank) {
    const int nn = m.nodes.size()/dim, nc = m.cells.size();
    DBucdmesh* u = DBGetUcdmesh(f, "mesh");
    if (!u) return no("no mesh");
    bool ok = true;
    if (u->ndims != dim || u->nnodes != nn || u->datatype != DB_DOUBLE) ok = no("the mesh has %d dimensions and %d nodes, not %d and %d", u->ndims, u->nnodes, dim, nn);
    for (int d = 0; d < dim && ok; ++d) for (int i = 0; i < nn && ok; ++i) if (((double*)u->coords[d])[i] != m.nodes[dim*i + d]) ok = no("node %d has another position", i);
    if (ok && cycle() >= 0 && u->cycle != cycle()) ok = no("cycle %d", u->cycle);
    if (ok && timed() && u->dtime != time()) ok = no("time %.17g, not %.17g", u->dtime, time());
    DBFreeUcdmesh(u);
    if (!ok) return false;
    std::vector<std::vector<int> > part(3);
    for (int c = 0; c < nc; ++c) part[0].push_back(m.cells[c].size());
    for (int c = 0; c < nc; ++c) for (size_t j = 0; j < m.cells[c].size(); ++j) part[1].push_back(dim == 3 && m.cells[c][j] < 0 ? ~m.cells[c][j] : m.cells[c][j]);
    for (size_t i = 0; i < m.faceCells.size(); ++i) { part[2].push_back(m.faceCells[i].front()); part[2].push_back(m.faceCells[i].back()); }
    const char* pn[3] = { "ncellfaces", "cellfaces", "facecells" };
    if (!compound(f, "conn", std::vector<std::string>(pn, pn + 3), part)) return false;
    part.assign(3, std::vector<int>());
    part[0].push_back(m.hullFacets.size());
    for (size_t i = 0; i < m.hullFacets.size(); ++i) { part[1].push_back(m.hullFacets[i].size()); part[2].insert(part[2].end(), m.hullFacets[i].begin(), m.hullFacets[i].end()); }
    const char* hn[3] = { "nfacets", "nfacetnodes", "facetnodes" };
    if (!compound(f, "convexhull", std::vector<std::string>(hn, hn + 3), part)) return false;
    if (dim == 2) {
      DBzonelist* z = DBGetZonelist(f, "mesh_zonelist");
      if (!z) return no("no zone list");
      std::vector<int> nl;
      for (int c = 0; c < nc; ++c) {
        const size_t at = nl.size();
        nl.push_back(m.cells[c].size() + 1);
        for (size_t j = 0; j < m.cells[c].size(); ++j) { const int k = m.cells[c][j]; nl.push_back(k >= 0 ? m.faces[k][0] : m.faces[~k][1]); }
        nl.push_back(nl[at + 1]);
      }
      ok = z->nzones == nc ? ints("zone list", z->nodelist, z->lnodelist, nl) : no("%d zones, not %d", z->nzones, nc);
      DBFreeZonelist(z);
      if (!ok) return false;
      std::vector<int> bn;
      for (size_t i = 0; i < m.boundaryFaces.size(); ++i) { bn.push_back(m.faces[m.boundaryFaces[i]][0]); bn.push_back(m.faces[m.boundaryFaces[i]][1]); }
      if (!bn.empty()) {
        DBfacelist* l = DBGetFacelist(f, "boundary_faces");
        if (!l) return no("no boundary face list");
        ok = ints("boundary face list", l->nodelist, l->lnodelist, bn);
        DBFreeFacelist(l);
        if (!ok) return false;
      }
    } else {
      DBphzonelist* z = DBGetPHZonelist(f, "mesh_zonelist");
      if (!z) return no("no zone list");
      std::vector<int> fn, fc, zf, zc, ext(m.faces.size(), 0);
      for (size_t i = 0; i < m.faces.size(); ++i) { fc.push_back(m.faces[i].size()); fn.insert(fn.end(), m.faces[i].begin(), m.faces[i].end()); }
      for (int c = 0; c < nc; ++c) { zc.push_back(m.cells[c].size()); zf.insert(zf.end(), m.cells[c].begin(), m.cells[c].end()); }
      for (size_t i = 0; i < m.boundaryFaces.size(); ++i) ext[m.boundaryFaces[i]] = 1;
      ok = ints("face node counts", z->nodecnt, z->nfaces, fc) && ints("face nodes", z->nodelist, z->lnodelist, fn) && ints("zone face counts", z->facecnt, z->nzones, zc)
        && ints("zone faces", z->facelist, z->lfacelist, zf) && (z->extface ? ints("exterior flags", z->extface, z->nfaces, ext) : no("no exterior flags"));
      DBFreePHZonelist(z);
      if (!ok) return false;
    }
    const size_t count[4] = { (size_t)nn, m.faces.size(), m.faces.size(), (size_t)nc };
    const int centre[4] = { DB_NODECENT, DB_EDGECENT, DB_FACECENT, DB_ZONECENT };
    for (int k = 0; k < 4; ++k) {
      for (int i = 0; i < s.iargs[W_FIELDS + k]; ++i) {
        const std::string name = fieldName(k, i);
        DBucdvar* v = DBGetUcdvar(f, name.c_str());
        if (!v) return no("no field %s", name.c_str());
        if (v->nels != (int)count[k] || v->datatype != DB_DOUBLE || v->nvals != 1) ok = no("field %s has %d values, not %zu", name.c_str(), v->nels, count[k]);
        else if (v->centering != centre[k]) ok = no("field %s has centring %d, not %d", name.c_str(), v->centering, centre[k]);
        else if (!v->meshname || strcmp(v->meshname, "mesh")) ok = no("field %s belongs to another mesh", name.c_str());
        for (size_t j = 0; ok && j < count[k]; ++j) if (((double*)v->vals[0])[j] != fieldValue(rank, s.iargs[W_CYCLE], k, i, j)) ok = no("field %s: value %zu is %.17g", name.c_str(), j, ((double*)v->vals[0])[j]);
        DBFreeUcdvar(v);
        if (!ok) return false;
      }
      if (tagged() && s.iargs[W_TAGS + k]) {
        std::vector<std::string> nm; std::vector<std::vector<int> > tv(s.iargs[W_TAGS + k]);
        for (int i = 0; i < s.iargs[W_TAGS + k]; ++i) { nm.push_back(tagName(k, i)); for (int j = 0; j < tagLength(rank, k, i); ++j) tv[i].push_back(tagValue(rank, k, i, j)); }
        const char* ln[4] = { "node_tags", "edge_tags", "face_tags", "cell_tags" };
        if (!compound(f, ln[k], nm, tv)) return false;
      }
    }
    return true;
  }

  // Opens what a multi-block entry ("file:/path/object") of the file base names.
  DBfile* follow(const std::string& base, const std::string& entry, std::string& object, DBfile* same, std::string& opened) {
    const size_t c = entry.find(':');
    std::string path = c == std::string::npos ? entry : entry.substr(c + 1);
    const size_t sl = path.rfind('/');
    object = sl == std::string::npos ? path : path.substr(sl + 1);
    path = sl == std::string::npos ? "" : path.substr(0, sl);
    if (path.empty() || path[0] != '/') path = "/" + path;
    DBfile* f = same;
    if (c != std::string::npos) {
      opened = base.substr(0, base.rfind('/') + 1) + entry.substr(0, c);
      f = DBOpen(opened.c_str(), DB_HDF5, DB_READ);
      if (!f) { no("%s names %s, which cannot be opened", base.c_str(), opened.c_str()); return 0; }
    } else opened = base;
    if (DBSetDir(f, path.c_str())) { no("%s names \"%s\", which is not there", base.c_str(), entry.c_str()); if (f != same) DBClose(f); return 0; }
    return f;
  }

  // A file's multi-block objects: the blocks are the meshes and fields of ranks, in order.
  bool multi(const std::string& path, const std::vector<int>& ranks, const std::vector<const MeshDump*>& m, bool contents) {
    DBfile* f = DBOpen(path.c_str(), DB_HDF5, DB_READ);
    if (!f) return no("%s cannot be opened", path.c_str());
    DBmultimesh* mm = DBGetMultimesh(f, "mesh");
    bool ok = mm != 0 || no("%s has no multi-block mesh", path.c_str());
    if (ok && mm->nblocks != (int)ranks.size()) ok = no("%s lists %d domains, not %zu", path.c_str(), mm->nblocks, ranks.size());
    for (int i = 0; ok && i < mm->nblocks; ++i) if (mm->meshtypes[i] != DB_UCDMESH) ok = no("%s: block %d has type %d", path.c_str(), i, mm->meshtypes[i]);
    std::set<std::string> seen;
    for (int i = 0; ok && i < mm->nblocks; ++i) {
      std::string object, opened;
      if (!mm->meshnames[i] || !seen.insert(mm->meshnames[i]).second) { ok = no("%s: block %d is listed twice", path.c_str(), i); break; }
      DBfile* t = follow(path, mm->meshnames[i], object, f, opened);
      if (!t) { ok = false; break; }
      if (object != "mesh") ok = no("%s: block %d is \"%s\"", path.c_str(), i, mm->meshnames[i]);
      if (ok && contents && !domain(t, *m[ranks[i]], ranks[i])) { why = path + ": block " + std::to_string(i) + " (" + mm->meshnames[i] + "), rank " + std::to_string(ranks[i]) + ": " + why; ok = false; }
      if (t != f) DBClose(t); else DBSetDir(f, "/");
    }
    if (mm) DBFreeMultimesh(mm);
    for (int k = 0; k < 4 && ok; ++k) for (int i = 0; i < s.iargs[W_FIELDS + k] && ok; ++i) {
      const std::string name = fieldName(k, i);
      DBmultivar* mv = DBGetMultivar(f, name.c_str());
      if (!mv) { ok = no("%s has no multi-block field %s", path.c_str(), name.c_str()); break; }
      if (mv->nvars != (int)ranks.size()) ok = no("%s: field %s lists %d domains, not %zu", path.c_str(), name.c_str(), mv->nvars, ranks.size());
      for (int j = 0; ok && j < mv->nvars; ++j) {
        std::string object, opened;
        DBfile* t = mv->varnames[j] ? follow(path, mv->varnames[j], object, f, opened) : 0;
        if (!t) { ok = false; break; }
        DBucdvar* v = object == name && mv->vartypes[j] == DB_UCDVAR ? DBGetUcdvar(t, name.c_str()) : 0;
        if (!v) ok = no("%s: field %s: block %d (%s) is not there", path.c_str(), name.c_str(), j, mv->varnames[j]);
        else if (v->nels > 0 && ((double*)v->vals[0])[0] != fieldValue(ranks[j], s.iargs[W_CYCLE], k, i, 0)) ok = no("%s: field %s: block %d (%s) is not the one of rank %d", path.c_str(), name.c_str(), j, mv->varnames[j], ranks[j]);
        if (v) DBFreeUcdvar(v);
        if (t != f) DBClose(t); else DBSetDir(f, "/");
      }
      DBFreeMultivar(mv);
    }
    DBClose(f);
    return ok;
  }
};

}

// The file of each rank: the first nproc % files files hold one rank more.
std::vector<int> groupsOf(const Step& s, int nproc) {
  int nf = s.iargs[W_FILES]; if (nf == -1) nf = nproc;
  std::vector<int> g;
  for (int i = 0; i < nf; ++i) for (int c = 0; c < nproc/nf + (i < nproc % nf ? 1 : 0); ++c) g.push_back(i);
  return g;
}

bool readDump(const Step& s, const std::vector<const MeshDump*>& m, int dim, std::string& why) {
  siloReads(1); DBShowErrors(DB_NONE, 0);
  const int n = m.size();
  Reader r(s, n, dim);
  std::vector<int> all; for (int i = 0; i < n; ++i) all.push_back(i);
  bool ok = r.multi(r.master(), all, m, true);
  const std::vector<int> g = groupsOf(s, n);
  for (int i = 0; ok && i <= g.back(); ++i) {
    std::vector<int> in; for (int k = 0; k < n; ++k) if (g[k] == i) in.push_back(k);
    ok = r.multi(r.dir() + "/" + std::to_string(i) + "/" + r.leaf(), in, m, false);
  }
  DBShowErrors(DB_TOP, 0); siloReads(0);
  why = r.why;
  return ok;
}

// Only the domain of one rank.
bool readDomain(const Step& s, const MeshDump& m, int rank, int nproc, int dim, std::string& why) {
  siloReads(1); DBShowErrors(DB_NONE, 0);
  Reader r(s, nproc, dim);
  const std::vector<int> g = groupsOf(s, nproc);
  int first = rank; while (first > 0 && g[first - 1] == g[rank]) --first;
  const std::string path = r.dir() + "/" + std::to_string(g[rank]) + "/" + r.leaf(), d = "/domain_" + std::to_string(rank - first);
  DBfile* f = DBOpen(path.c_str(), DB_HDF5, DB_READ);
  bool ok = f && !DBSetDir(f, d.c_str()) ? r.domain(f, m, rank) : r.no("%s: no %s", path.c_str(), d.c_str());
  if (f) DBClose(f);
  DBShowErrors(DB_TOP, 0); siloReads(0);
  why = path + d + ": " + r.why;
  return ok;
}

}
