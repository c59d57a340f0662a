// C04: the database runs out of space, either really or because the k-th
// allocation inside an operation is made to fail.
#include "store.h"
#include "dballoc.h"

static long g_fail_at = -1, g_allocs = 0; static bool g_once = false;
static int g_failed = 0;
static bool refuse_now() {
  if (g_fail_at < 0) return false;
  long n = g_allocs++;
  if (n == g_fail_at || (n > g_fail_at && !g_once)) { g_failed++; return true; }
  return false;
}
extern "C" {
wg_int __real_wg_alloc_fixlen_object(void *db, void *h);
wg_int __wrap_wg_alloc_fixlen_object(void *db, void *h) { return refuse_now() ? 0 : __real_wg_alloc_fixlen_object(db, h); }
wg_int __real_wg_alloc_gints(void *db, void *h, wg_int n);
wg_int __wrap_wg_alloc_gints(void *db, void *h, wg_int n) { return refuse_now() ? 0 : __real_wg_alloc_gints(db, h, n); }
}

struct FWorld : SWorld {
  // parts of a document whose import failed stay in the database (documented)
  void absorb() {
    vector<int> nw;
    for (void *p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) if (!by_ptr.count(p)) { int id = next_id++; reg(id, p, wg_get_record_len(db, p)); nw.push_back(id); inner.insert(id); if (meta_of(p)) meta[id] = meta_of(p); }
    for (int id : nw) for (size_t i = 0; i < r[id].f.size(); i++) {
      wg_int e = wg_get_field(db, r[id].p, i);
      if (wg_get_encoded_type(db, e) == WG_RECORDTYPE) { void *q = wg_decode_record(db, e); CHECK_(by_ptr.count(q), "a record left by a failed import leads outside of the database"); r[id].f[i].t = WG_RECORDTYPE; r[id].f[i].i = by_ptr[q]; }
      else r[id].f[i] = dec(db, e);
    }
    if (!nw.empty()) label("rest of a failed document import");
  }
};

static void c04() {
  watch_errors();
  FWorld &w = *new FWorld;
  static const int sz[] = {300000, 400000, 600000};
  w.dbsize = sz[src.draw(3)]; w.db = wg_attach_local_database(w.dbsize); if (!w.db) discard();
  T("database of %ld bytes", (long)w.dbsize);
  w.opt.maxlen = src.chance(1, 4) ? 2000 : 150; w.mode = (int)src.range(0, 5); w.ncols = 3;
  w.expect_refusal = true; w.no_raw = true;
  bool with_index = src.chance(1, 2), inject = src.chance(3, 5), docs = src.chance(1, 2);
  int refusals = 0, fatal = 0; bool stop = false;
  int n0 = (int)src.range(2, 30);
  for (int i = 0; i < n0; i++) { Span sp; w.one(false, docs, with_index); }
  CHECK_(with_index || !w.full, "an operation was refused in a nearly empty database"); w.full = false;
  vector<int> filler; map<int, int> flen;
  auto fill = [&](int slack) {
    // big records first, then smaller ones, until none fits any more
    int L = (int)src.range(300, 3000), fit = 0;
    while (L >= 1 && filler.size() < 600) {
      int len = L; void *p = wg_create_record(w.db, len);
      if (!p) { L = L > 40 ? L / 2 : L > 3 ? L - 3 : L - 1; if (L < slack) break; continue; }
      CHECK_(!w.by_ptr.count(p), "new record has the address of a live record");
      int id = w.next_id++; w.reg(id, p, len); w.inner.insert(id); filler.push_back(id); flen[id] = len; fit++;
    }
    T("filled up with %d records, down to length %d", fit, L); label("filled up");
  };
  auto unfill = [&](int n) { while (n-- > 0 && !filler.empty()) { size_t k = src.draw(filler.size()); int id = filler[k]; CHECK_(w.refs(id) == 0, "harness: filler linked"); w.del(id); w.inner.erase(id); filler.erase(filler.begin() + k); } };
  // one operation, with its allocations failing from the k-th on
  auto op = [&]() {
    Span sp; size_t nrec = w.r.size(); (void)nrec; w.full = false; w.last_rc = 0; w.upd_id = 0;
    if (inject && src.chance(2, 3)) { g_fail_at = src.weighted({4, 2, 1}); g_fail_at = g_fail_at == 0 ? src.range(0, 3) : g_fail_at == 1 ? src.range(0, 12) : src.range(0, 60); g_once = src.chance(1, 3); g_allocs = 0; T("allocation %ld%s fails", g_fail_at, g_once ? "" : " and later"); }
    int f0 = g_failed;
    auto doc0 = w.docs.size();
    if (src.chance(1, 6)) {   // links need space of their own
      auto pl = w.plain_ids(); if (!pl.empty()) { int id = pl[src.draw(pl.size())]; if (w.r[id].f.size() > 1) { Val v; v.t = WG_RECORDTYPE; v.i = pl[src.draw(pl.size())]; w.set(id, (int)src.range(1, w.r[id].f.size() - 1), v); } }
    } else w.one(false, docs, with_index);
    g_fail_at = -1; (void)doc0;
    if (w.full) { refusals++; w.absorb(); if (w.last_rc == -3 || ((w.last_rc == -4 || w.last_rc == -2) && !w.idx.empty())) { fatal++; stop = true; } }
    if (g_failed > f0) label(w.full ? "failed allocation reported" : "failed allocation handled");
    w.full = false;
  };
  // rows of a CSV file: all of them, or the import says that it failed
  auto csv = [&]() {
    Span sp; vector<vector<Val>> rows; string text; int n = (int)src.range(1, 8), L = (int)src.range(1, 40);
    for (int i = 0; i < n; i++) {
      vector<Val> row; int m = (int)src.range(1, 6);
      for (int k = 0; k < m; k++) {
        Val v; string t;
        switch (src.weighted({3, 2, 1, 1})) {
          case 0: v.t = WG_STRTYPE; t = "w" + std::to_string(src.draw(1000)); while ((int)t.size() < L) t += "abcdefg"[t.size() % 7]; v.s = t; break;
          case 1: v.t = WG_INTTYPE; v.i = src.chance(1, 2) ? src.range(0, 99) : src.range(1LL << 61, (1LL << 62)); t = std::to_string(v.i); break;
          case 2: v.t = WG_DOUBLETYPE; v.d = src.range(0, 100000) + 0.5; t = std::to_string((long)v.d) + ".5"; break;
          default: if (m == 1) { v.t = WG_INTTYPE; v.i = 1; t = "1"; } break;
        }
        row.push_back(v); text += t + (k + 1 < m ? "," : "\n");
      }
      rows.push_back(row);
    }
    string fn = string(scratch) + "/t.csv"; FILE *o = fopen(fn.c_str(), "wb"); if (!o || fwrite(text.data(), 1, text.size(), o) != text.size() || fclose(o)) { perror("scratch"); exit(3); }
    T("csv import of %d rows, values of %d characters", n, L);
    if (inject && src.chance(2, 3)) { g_fail_at = src.weighted({2, 1}) ? src.range(0, 60) : src.range(0, 12); g_once = src.chance(1, 3); g_allocs = 0; T("allocation %ld%s fails", g_fail_at, g_once ? "" : " and all later ones"); }
    w.upd_id = 0; int f0 = g_failed; wg_int rc = wg_import_db_csv(w.db, fn.c_str()); g_fail_at = -1; T("  -> %ld", (long)rc);
    CHECK_(rc == 0 || rc == -2, "a CSV import returned %ld", (long)rc);
    vector<bool> used(rows.size()); int fresh = 0;
    for (void *p = wg_get_first_record(w.db); p; p = wg_get_next_record(w.db, p)) if (!w.by_ptr.count(p)) {
      wg_int len = wg_get_record_len(w.db, p); bool found = false; fresh++;
      vector<Val> got; for (wg_int i = 0; i < len; i++) got.push_back(dec(w.db, wg_get_field(w.db, p, i)));
      for (int strict = 1; strict >= (rc ? 0 : 1) && !found; strict--) for (size_t i = 0; i < rows.size() && !found; i++) if (!used[i] && (wg_int)rows[i].size() == len) {
        bool ok = true; for (wg_int k = 0; k < len && ok; k++) ok = cmp_val(got[k], rows[i][k]) == 0 || (!strict && got[k].t == WG_NULLTYPE);
        if (ok) found = used[i] = true;
      }
      CHECK_(found, "a CSV import that returned %ld leaves a record of %ld fields, the first %s, that is not in the file", (long)rc, (long)len, len ? show(got[0]).c_str() : "-");
    }
    if (rc == 0) CHECK_(fresh == n, "a CSV import of %d rows returned 0, there are %d new records", n, fresh);
    w.absorb();
    if (rc) { refusals++; label("csv import refused"); if (!w.idx.empty()) { stop = true; fatal++; } } else label(g_failed > f0 ? "csv import with a failed allocation" : "csv import");
  };
  int rounds = (int)src.range(1, 3);
  for (int k = 0; k < rounds && !stop; k++) {
    if (!inject) fill(src.chance(1, 2) ? 1 : (int)src.range(1, 200));
    for (int n = 0; n < 60 && !stop && src.more(20); n++) {
      if (src.chance(1, 12)) csv(); else op();
      if (stop) break;
      if (n % 4 == 0) { w.check_everything(false, "after a refusal"); w.check_catalog("after a refusal"); }
      if (!inject && src.chance(1, 8)) unfill((int)src.range(1, 3));
    }
    if (stop) break;
    w.check_everything(true, "full database"); w.check_catalog("full database");
    if (!filler.empty()) {
      // deleting makes room again
      int id = filler[src.draw(filler.size())]; int len = flen[id];
      filler.erase(std::find(filler.begin(), filler.end(), id)); w.del(id); w.inner.erase(id);
      if (w.idx.empty()) { void *p = wg_create_record(w.db, len); CHECK_(p, "a record of %d fields was deleted, another of that length is refused", len); int nid = w.next_id++; w.reg(nid, p, len); w.inner.insert(nid); filler.push_back(nid); flen[nid] = len; }
      unfill((int)src.range(0, filler.size())); label("space released");
    }
  }
  if (stop) {   // an index update failed half way and said so: the data itself must still be right
    label("fatal index error reported");
    if (w.upd_id && w.r.count(w.upd_id)) {   // the value may be the old or the new one
      Val &v = w.r[w.upd_id].f[w.upd_fld]; wg_int e = wg_get_field(w.db, w.r[w.upd_id].p, w.upd_fld);
      if (w.upd_val.t == WG_RECORDTYPE ? wg_get_encoded_type(w.db, e) == WG_RECORDTYPE && w.by_ptr.count(wg_decode_record(w.db, e)) && w.by_ptr[wg_decode_record(w.db, e)] == w.upd_val.i : wg_get_encoded_type(w.db, e) != WG_RECORDTYPE && !cmp_val(dec(w.db, e), w.upd_val)) v = w.upd_val;
    }
    w.check_all(true, "after a fatal index error"); w.check_parents("after a fatal index error");
  } else {
    unfill(1 << 30);
    w.expect_refusal = false; w.full = false;
    for (int i = 0; i < 15 && !w.full; i++) { Span sp; w.one(false, docs, with_index); }
    w.absorb();
    w.check_everything(true, "after releasing the space"); w.check_catalog("after releasing the space");
  }
  if (refusals >= 2) nontrivial();
}

int main(int argc, char **argv) {
  vector<Property> ps; Property p;
  p = Property(); p.id = "C04"; p.run = c04; p.quick_cases = 1400; p.thorough_cases = 40000;
  p.rule = "histories of all operations in a database filled up to a generated degree, or with the allocations of an operation failing from a generated one on; after refusals all records, links, parents, indexes and the list of indexes are compared with the model, then space is released and used again; non-trivial: at least two operations were refused";
  p.assumptions = {"after a field update that reports the documented fatal index error, or a document import that reports an inconsistent database, only the documented guarantees are checked"};
  ps.push_back(p);
  return main_(argc, argv, ps);
}
