// Histories for dumps and journals: plain records carry a tag in field 0 so
// that the same record can be recognised in another database.
#pragma once
#include "iworld.h"
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <utime.h>
extern "C" {
wg_int wg_check_dump(void *db, char *fileName, wg_int *minsize, wg_int *maxsize);
void wg_journal_filename(void *db, char *buf, size_t buflen);
wg_int wg_init_handle_logdata(void *db);
void wg_cleanup_handle_logdata(void *db);
void *wg_create_triple(void *db, wg_int subj, wg_int prop, wg_int ob, wg_int isparam);
void *wg_create_array(void *db, wg_int size, wg_int isdocument, wg_int isparam);
void *wg_create_object(void *db, wg_int size, wg_int isdocument, wg_int isparam);
wg_int wg_delete_document(void *db, void *document);
}
#ifndef RECORD_META_POS
#define RECORD_META_POS 1
#endif
static const i64 TAG = 50000000;
static inline int meta_of(void *p) { return (int)*((wg_int *)p + RECORD_META_POS); }
enum { M_NOTDATA = 1, M_DOC = 0x10, M_OBJ = 0x20, M_ARR = 0x40 };

static inline void enter_scratch() {
  if (chdir(scratch)) { perror("scratch"); _exit(3); }
  if (DIR *d = opendir(".")) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') unlink(e->d_name); closedir(d); }
}
static inline bool read_file(const string &n, string &out) {
  FILE *f = fopen(n.c_str(), "rb"); if (!f) return false;
  out.clear(); char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) out.append(b, k);
  fclose(f); return true;
}
static inline void write_file(const string &n, const string &s) { FILE *f = fopen(n.c_str(), "wb"); if (!f) { perror(n.c_str()); _exit(3); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
static inline i64 file_size(const string &n) { struct stat s; return stat(n.c_str(), &s) ? -1 : (i64)s.st_size; }

struct SWorld : IWorld {
  map<int, int> meta;           // expected kind of record
  std::set<int> inner;          // records of JSON documents
  std::map<int, i64> docs;      // root -> tag
  int ndoc = 0;
  bool no_raw = false;
  bool elementary = false;      // tell about every journaled step
  std::function<void()> step;
  void did() { if (step) step(); }
  void reg(int id, void *p, int len) { MRec m; m.p = p; m.f.resize(len); r[id] = m; by_ptr[p] = id; }
  bool plain(int id) { return !inner.count(id); }
  vector<int> plain_ids() { vector<int> v; for (auto &k : r) if (plain(k.first)) v.push_back(k.first); return v; }
  int pick_plain() { auto v = plain_ids(); return v.empty() ? 0 : v[src.draw(v.size())]; }
  void settag(int id, bool newf) { Val v; v.t = WG_INTTYPE; v.i = TAG + id; set(id, 0, v, newf, newf ? 0 : (int)src.draw(2)); did(); }
  int snew(int len, int how) {   // how: 0 plain, 1 raw, 2 array, 3 object
    if (how == 1 && no_raw) how = 0;   // all fields of a raw record have to be set
    if (how == 0) { int id = create(len); if (id) { did(); settag(id, false); } return id; }
    void *p = how == 1 ? wg_create_raw_record(db, len) : how == 2 ? wg_create_array(db, len, src.draw(2), 0) : wg_create_object(db, len, src.draw(2), 0);
    T("create %s len=%d -> %s", how == 1 ? "raw" : how == 2 ? "array" : "object", len, p ? "ok" : "NULL");
    if (!p) { refused("record creation"); return 0; }
    CHECK_(!by_ptr.count(p), "new record has the address of a live record");
    int id = next_id++; reg(id, p, len); if (how > 1) meta[id] = meta_of(p);
    did(); settag(id, how == 1);
    for (int i = 1; i < len && !full; i++) if (how == 1 || src.chance(1, 2)) { Val v = fval(); if (v.t == WG_RECORDTYPE) v = Val(); set(id, i, v, how == 1); did(); }
    return id;
  }
  // ---- documents
  string jval(int depth) {
    switch (depth > 0 ? src.weighted({4, 3, 2, 3, 3}) : src.weighted({4, 3, 2})) {
      case 0: return std::to_string(src.range(-999, 999));
      case 1: { string s = "\""; size_t n = src.chance(1, 3) ? src.range(25, 45) : src.range(0, 8); for (size_t i = 0; i < n; i++) s += (char)('a' + (n * 7 + i * 3) % 26); return s + "\""; }
      case 2: return std::to_string(src.range(-50, 50)) + ".5";
      case 3: { string s = "["; int n = (int)src.range(0, 3); for (int i = 0; i < n; i++) s += (i ? "," : "") + jval(depth - 1); return s + "]"; }
      default: { string s = "{"; int n = (int)src.range(0, 3); for (int i = 0; i < n; i++) s += string(i ? "," : "") + "\"" + (char)('a' + src.draw(3)) + std::to_string(i) + "\":" + jval(depth - 1); return s + "}"; }
    }
  }
  void adopt(void *root, i64 tag) {
    vector<int> nw;
    for (void *p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) if (!by_ptr.count(p)) { int id = next_id++; reg(id, p, wg_get_record_len(db, p)); nw.push_back(id); inner.insert(id); if (meta_of(p)) meta[id] = meta_of(p); }
    CHECK_(by_ptr.count(root), "the imported document cannot be found");
    docs[by_ptr[root]] = tag;
    for (int id : nw) for (size_t i = 0; i < r[id].f.size(); i++) {
      wg_int e = wg_get_field(db, r[id].p, i);
      if (wg_get_encoded_type(db, e) == WG_RECORDTYPE) { void *q = wg_decode_record(db, e); CHECK_(by_ptr.count(q), "a document field leads outside of the database"); r[id].f[i].t = WG_RECORDTYPE; r[id].f[i].i = by_ptr[q]; }
      else r[id].f[i] = dec(db, e);
    }
  }
  void add_doc() {
    i64 tag = TAG + 40000000 + next_id; string t;
    if (src.chance(1, 2)) { t = "{\"tag\":" + std::to_string(tag); int n = (int)src.range(0, 3); for (int i = 0; i < n; i++) t += ",\"k" + std::to_string(i) + "\":" + jval(2); t += "}"; }
    else { t = "[" + std::to_string(tag); int n = (int)src.range(0, 3); for (int i = 0; i < n; i++) t += "," + jval(2); t += "]"; }
    void *d = NULL; wg_int rc = wg_parse_json_document(db, t.c_str(), &d);
    T("import document %s -> %ld", t.c_str(), (long)rc);
    last_rc = rc; if (rc) { refused("document import"); return; }
    adopt(d, tag); label("document");
  }
  void reach(int id, std::set<int> &s) { if (!s.insert(id).second) return; for (auto &v : r[id].f) if (v.t == WG_RECORDTYPE) reach((int)v.i, s); }
  void del_doc() {
    if (docs.empty()) return;
    auto it = docs.begin(); std::advance(it, src.draw(docs.size())); int id = it->first;
    wg_int rc = wg_delete_document(db, r[id].p);
    T("delete document rec#%d -> %ld", id, (long)rc);
    CHECK_(rc == 0, "deleting a document returned %ld", (long)rc);
    std::set<int> s; reach(id, s);
    for (int k : s) { by_ptr.erase(r[k].p); r.erase(k); inner.erase(k); meta.erase(k); }
    docs.erase(id);
  }
  // ---- one random operation; journaled tells whether the journal is on
  bool one(bool journaled, bool with_docs, bool with_index) {
    auto pl = plain_ids();
    int deletes = 0;
    switch (pl.empty() ? 0 : src.weighted({6, 12, 3, 4, with_docs ? 2 : 0, with_docs && !docs.empty() ? 1 : 0, 2, 2, with_index ? 1 : 0, elementary ? 0 : 1})) {
      case 0: snew((int)src.range(1, 7), src.weighted({6, 2, elementary ? 0 : 1, elementary ? 0 : 1})); break;
      case 1: case 2: {
        int id = pl[src.draw(pl.size())]; if (r[id].f.size() < 2) break; int f = (int)src.range(1, r[id].f.size() - 1);
        Val v; if (src.chance(1, 4)) { v.t = WG_RECORDTYPE; v.i = pl[src.draw(pl.size())]; } else v = src.chance(1, 3) ? ival() : gen_val(pool, opt);
        set(id, f, v, false, (int)src.draw(2)); did(); break;
      }
      case 3: { int id = pl[src.draw(pl.size())]; if (del(id)) { meta.erase(id); deletes++; } did(); break; }
      case 4: add_doc(); break;
      case 5: del_doc(); break;
      case 6: {   // encoded but not stored
        Val v = gen_val(pool, opt); bool used = false; wg_int e = enc(db, v);
        T("encode %s", show(v).c_str()); if (e == WG_ILLEGAL) { refused("encoding"); break; }
        check_val(db, e, v, "encoded", false);
        (void)used; if (src.chance(1, 2)) { T("free it"); wg_free_encoded(db, e); }
        break;
      }
      case 7: {   // refused calls
        int id = pl[src.draw(pl.size())]; MRec &m = r[id];
        switch (src.draw(5)) {
          case 0: T("record too large"); CHECK_(!wg_create_record(db, dbsize / 8 + 1), "record larger than the database created"); break;
          case 1: T("field out of range"); CHECK_(wg_set_field(db, m.p, m.f.size(), wg_encode_int(db, 3)) < 0, "setting a field out of range succeeded"); break;
          case 2: if (m.f[0].t == WG_NULLTYPE) break; T("set_new_field on a used field"); CHECK_(wg_set_new_field(db, m.p, 0, wg_encode_int(db, 77)) < 0, "wg_set_new_field on a used field succeeded"); break;
          case 3: T("negative length"); CHECK_(!wg_create_record(db, -2), "negative length accepted"); break;
          default: if (journaled) { T("atomic update"); wg_int rc = wg_add_int_atomic_field(db, m.p, 0, 1); CHECK_(rc < 0, "atomic update while journaling returned %ld", (long)rc); }
        }
        label("refused call"); did(); break;
      }
      case 8: if (idx.size() < 4 && src.chance(2, 3)) create_index(gen_idx(src.chance(1, 2))); else if (!idx.empty()) { size_t k = src.draw(idx.size()); if (idx[k].type == WG_INDEX_TYPE_TTREE) drop_index(k); } break;
      case 9: {   // parameter records stay invisible
        int k = (int)src.draw(3);
        void *p = k == 0 ? wg_create_triple(db, 0, wg_encode_str(db, "key", NULL), wg_encode_int(db, 4), 1) : k == 1 ? wg_create_array(db, src.range(0, 3), 0, 1) : wg_create_object(db, src.range(0, 3), 0, 1);
        T("create parameter record %d", k); if (!p) refused("parameter record"); else label("parameter record"); break;
      }
    }
    return deletes;
  }
  void check_everything(bool deep, const char *where) {
    check_all(deep, where); check_parents(where);
    for (auto &k : r) { auto it = meta.find(k.first); int want = it == meta.end() ? 0 : it->second; CHECK_(meta_of(k.second.p) == want, "%s: kind of rec#%d is %#x, expected %#x", where, k.first, meta_of(k.second.p), want); }
    check_indexes(where);
  }
};

// the same content at the same offsets of another segment
static inline void transplant(const SWorld &a, void *db2, SWorld &b) {
  char *o = (char *)dbmemseg(a.db), *n = (char *)dbmemseg(db2);
  b = a; b.db = db2; b.by_ptr.clear(); b.step = nullptr; b.dbsize = wg_database_size(db2); b.full = false;
  for (auto &k : b.r) { k.second.p = (char *)k.second.p - o + n; b.by_ptr[k.second.p] = k.first; }
}
// the same content found by tags; at most loose records may carry no tag yet
static inline void remap(const SWorld &a, void *db2, SWorld &b, int loose, const char *where) {
  b = a; b.db = db2; b.by_ptr.clear(); b.step = nullptr; b.idx.clear(); b.dbsize = wg_database_size(db2); b.full = false;
  map<i64, void *> tags; vector<void *> untag; size_t n = 0;
  for (void *p = wg_get_first_record(db2); p; p = wg_get_next_record(db2, p)) {
    CHECK_(++n <= a.r.size() + 50, "%s: too many records", where);
    wg_int len = wg_get_record_len(db2, p); i64 tag = -1;
    if (len > 0 && wg_get_field_type(db2, p, 0) == WG_INTTYPE) { i64 v = wg_decode_int(db2, wg_get_field(db2, p, 0)); if (v >= TAG) tag = v; }
    if (tag < 0 && (meta_of(p) & M_DOC) && (meta_of(p) & M_OBJ)) for (int i = 0; i < len && tag < 0; i++) {
      wg_int e = wg_get_field(db2, p, i); if (wg_get_encoded_type(db2, e) != WG_RECORDTYPE) continue;
      void *kv = wg_decode_record(db2, e); wg_int ke = wg_get_field(db2, kv, 1);
      if (wg_get_encoded_type(db2, ke) == WG_STRTYPE && !strcmp(wg_decode_str(db2, ke), "tag") && wg_get_field_type(db2, kv, 2) == WG_INTTYPE) tag = wg_decode_int(db2, wg_get_field(db2, kv, 2));
    }
    if (tag < 0) untag.push_back(p); else CHECK_(tags.emplace(tag, p).second, "%s: two records carry the same tag", where);
  }
  std::function<void(int, void *)> walk = [&](int id, void *p) {
    if (b.by_ptr.count(p)) { CHECK_(b.by_ptr[p] == id, "%s: document structure differs", where); return; }
    b.r[id].p = p; b.by_ptr[p] = id;
    CHECK_(wg_get_record_len(db2, p) == (wg_int)b.r[id].f.size(), "%s: length of rec#%d is %ld, expected %zu", where, id, (long)wg_get_record_len(db2, p), b.r[id].f.size());
    if (b.inner.count(id)) for (size_t i = 0; i < b.r[id].f.size(); i++) if (b.r[id].f[i].t == WG_RECORDTYPE) {
      CHECK_(wg_get_field_type(db2, p, i) == WG_RECORDTYPE, "%s: a document link is missing", where);
      walk((int)b.r[id].f[i].i, wg_decode_record(db2, wg_get_field(db2, p, i)));
    }
  };
  for (auto &k : a.docs) { auto it = tags.find(k.second); CHECK_(it != tags.end(), "%s: a document is missing", where); walk(k.first, it->second); }
  vector<int> miss;
  for (auto &k : a.r) if (!a.inner.count(k.first)) {
    auto it = tags.find(TAG + k.first);
    bool tagged = k.second.f.size() && k.second.f[0].t == WG_INTTYPE && k.second.f[0].i == TAG + k.first;
    if (!tagged) { miss.push_back(k.first); continue; }
    CHECK_(it != tags.end(), "%s: rec#%d is missing", where, k.first);
    walk(k.first, it->second);
  }
  CHECK_((int)miss.size() <= loose, "harness: %zu records without a tag", miss.size());
  if (!miss.empty()) { vector<void *> left; for (void *p : untag) if (!b.by_ptr.count(p)) left.push_back(p); CHECK_(left.size() == 1, "%s: expected one record without a tag, found %zu", where, left.size()); walk(miss[0], left[0]); }
}
