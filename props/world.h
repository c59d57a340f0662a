// Stateful model of one database: records, fields, links.
#pragma once
#include "wg.h"

struct MRec { void *p; vector<Val> f; bool raw = false; };

struct World {
  void *db = nullptr;
  map<int, MRec> r;             // live records by model id
  map<void *, int> by_ptr;
  int next_id = 1;
  Pool pool;
  GenOpt opt;
  bool full = false;            // an operation was refused for lack of space
  wg_int dbsize = 0;
  int refs(int id) const { int n = 0; for (auto &k : r) for (auto &v : k.second.f) if (v.t == WG_RECORDTYPE && v.i == id) n++; return n; }
  vector<int> ids() const { vector<int> v; for (auto &k : r) v.push_back(k.first); return v; }
  int pick_id() { auto v = ids(); return v[src.draw(v.size())]; }

  // space refusals are only believable when the segment is really nearly used up
  bool expect_refusal = false;  // failures are being provoked
  wg_int last_rc = 0;           // of the last field update
  int upd_id = 0, upd_fld = 0; Val upd_val;   // the last field update that failed
  void refused(const char *what) {
    if (expect_refusal) { full = true; return; }
    wg_int fr = wg_database_freesize(db);
    CHECK_(fr < dbsize / 3, "%s refused although %ld of %ld bytes are unallocated", what, (long)fr, (long)dbsize);
    full = true; label("full");
  }
  bool raw_links = false;       // links from and to records that are being filled
  virtual Val newval() { return gen_val(pool, opt); }
  virtual ~World() {}
  void link_to(int id) {
    int o = pick_id(); MRec &m = r[o]; if (o == id || m.f.empty()) return;
    Val v; v.t = WG_RECORDTYPE; v.i = id; set(o, (int)src.draw(m.f.size()), v);
  }
  int create(int len, bool raw = false) {
    void *p = raw ? wg_create_raw_record(db, len) : wg_create_record(db, len);
    T("create%s len=%d -> %s", raw ? "_raw" : "", len, p ? "ok" : "NULL");
    if (!p) { refused("record creation"); return 0; }
    auto it = by_ptr.find(p);
    CHECK_(it == by_ptr.end(), "new record has the address of a live record");
    int id = next_id++;
    MRec m; m.p = p; m.f.resize(len); m.raw = raw;
    r[id] = m; by_ptr[p] = id;
    CHECK_(wg_get_record_len(db, p) == len, "record created with length %d reports %ld", len, (long)wg_get_record_len(db, p));
    if (raw) for (int i = 0; i < len; i++) {
      if (raw_links && src.chance(1, 6)) link_to(id);
      Val v; if (raw_links && src.chance(1, 4)) { v.t = WG_RECORDTYPE; v.i = src.chance(1, 4) ? id : pick_id(); label("link as first value"); } else v = newval();
      bool backed = raw_links && refs(id);
      if (!set(id, i, v, true, v.t == WG_RECORDTYPE ? 0 : (int)src.draw(2))) break;
      if (backed) label("first value in a linked record");
    }
    return id;
  }
  wg_int encv(const Val &v) {
    if (v.t == WG_RECORDTYPE) return wg_encode_record(db, r[(int)v.i].p);
    return enc(db, v);
  }
  bool set(int id, int fld, const Val &v, bool newf = false, int how = 0) {
    MRec &m = r[id]; wg_int rc;
    T("set rec#%d[%d] = %s%s", id, fld, show(v).c_str(), newf ? " (new)" : "");
    if (how == 1 && v.t == WG_INTTYPE) rc = wg_set_int_field(db, m.p, fld, v.i);
    else if (how == 1 && v.t == WG_DOUBLETYPE) rc = wg_set_double_field(db, m.p, fld, v.d);
    else if (how == 1 && v.t == WG_STRTYPE && !v.hx) rc = wg_set_str_field(db, m.p, fld, v.s.c_str());
    else {
      wg_int e = encv(v);
      if (e == WG_ILLEGAL) { refused("encoding"); return false; }
      rc = newf ? wg_set_new_field(db, m.p, fld, e) : wg_set_field(db, m.p, fld, e);
    }
    last_rc = rc;
    if (rc != 0) { upd_id = id; upd_fld = fld; upd_val = v; T("  -> %ld", (long)rc); refused("setting a field"); return false; }
    m.f[fld] = v;
    return true;
  }
  // returns the result code after comparing it with the model
  bool del(int id) {
    MRec &m = r[id]; int n = refs(id);
    wg_int rc = wg_delete_record(db, m.p);
    T("delete rec#%d (%d links to it) -> %ld", id, n, (long)rc);
    if (n) { CHECK_(rc == -1, "record linked from %d fields: delete returned %ld, expected -1", n, (long)rc); return false; }
    CHECK_(rc == 0, "deleting an unreferenced record returned %ld", (long)rc);
    by_ptr.erase(m.p); r.erase(id);
    return true;
  }
  void check_field(int id, int i, bool deep, const char *where) {
    MRec &m = r[id]; const Val &v = m.f[i];
    wg_int e = wg_get_field(db, m.p, i);
    char w[100]; snprintf(w, 100, "%s, rec#%d[%d]", where, id, i);
    CHECK_(wg_get_field_type(db, m.p, i) == v.t, "%s: field type %ld, expected %s", w, (long)wg_get_field_type(db, m.p, i), tname(v.t));
    if (v.t == WG_RECORDTYPE) {
      CHECK_(wg_get_encoded_type(db, e) == WG_RECORDTYPE && wg_decode_record(db, e) == r[(int)v.i].p, "%s: link does not lead to the linked record", w);
    } else check_val(db, e, v, w, deep);
  }
  void check_all(bool deep, const char *where) {
    set_seen.clear(); size_t n = 0;
    for (void *p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) {
      auto it = by_ptr.find(p);
      CHECK_(it != by_ptr.end(), "%s: scan returned something that is not a live record", where);
      CHECK_(set_seen.insert(p).second, "%s: scan returned a record twice", where);
      CHECK_(++n <= r.size(), "%s: scan returns too many records", where);
    }
    CHECK_(n == r.size(), "%s: scan returned %zu of %zu live records", where, n, r.size());
    for (auto &k : r) {
      CHECK_(wg_get_record_len(db, k.second.p) == (wg_int)k.second.f.size(), "%s: length of rec#%d is %ld, created with %zu", where, k.first, (long)wg_get_record_len(db, k.second.p), k.second.f.size());
      for (size_t i = 0; i < k.second.f.size(); i++) check_field(k.first, (int)i, deep, where);
    }
  }
  void check_parents(const char *where) {
    map<int, std::set<int>> par;
    for (auto &k : r) for (auto &v : k.second.f) if (v.t == WG_RECORDTYPE) par[(int)v.i].insert(k.first);
    for (auto &k : r) {
      auto &want = par[k.first]; std::set<int> got;
      void *p = wg_get_first_parent(db, k.second.p);
      while (p) {
        auto it = by_ptr.find(p);
        CHECK_(it != by_ptr.end(), "%s: parent of rec#%d is not a live record", where, k.first);
        CHECK_(got.insert(it->second).second, "%s: parent rec#%d of rec#%d listed twice", where, it->second, k.first);
        p = wg_get_next_parent(db, k.second.p, p);
      }
      CHECK_(got == want, "%s: rec#%d has %zu parents, %zu listed", where, k.first, want.size(), got.size());
    }
  }
  std::set<void *> set_seen;
};

// reference order on values, records by length and then field by field
static inline int mcmp(World &w, const Val &a, const Val &b, int depth) {
  if (a.t != WG_RECORDTYPE || b.t != WG_RECORDTYPE) return cmp_val(a, b);
  if (a.i == b.i) return 0;
  MRec &x = w.r[(int)a.i], &y = w.r[(int)b.i];
  if (depth == 0) return (char *)x.p > (char *)y.p ? 1 : -1;
  if (x.f.size() != y.f.size()) return x.f.size() > y.f.size() ? 1 : -1;
  for (size_t i = 0; i < x.f.size(); i++) { int c = mcmp(w, x.f[i], y.f[i], depth - 1); if (c) return c; }
  return 0;
}
