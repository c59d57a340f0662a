// World with indexes: model of ordered and hash indexes with templates.
#pragma once
#include "world.h"
extern "C" {
#include "dballoc.h"
wg_int wg_search_hash(void *db, wg_int index_id, wg_int *values, wg_int count);
wg_int wg_search_ttree_index(void *db, wg_int index_id, wg_int key);
}

struct MIdx {
  wg_int id = 0; int type = WG_INDEX_TYPE_TTREE; vector<int> cols; map<int, Val> tmpl;
  bool same(const MIdx &o) const { if (type != o.type || cols != o.cols || tmpl.size() != o.tmpl.size()) return false; for (auto &k : tmpl) { auto it = o.tmpl.find(k.first); if (it == o.tmpl.end() || cmp_val(k.second, it->second)) return false; } return true; }
  string show_() const { string s = type == WG_INDEX_TYPE_TTREE ? "ordered(" : "hash("; for (int c : cols) s += std::to_string(c) + ","; s += ")"; for (auto &k : tmpl) s += " where [" + std::to_string(k.first) + "]=" + show(k.second); return s; }
};

struct IWorld : World {
  vector<MIdx> idx;
  int ncols = 4;
  int base = 0;          // number of columns before those mostly used
  int col(int extra = 0) { return base + (int)src.draw(ncols + extra); }
  int len() { return base && !src.chance(1, 8) ? base + (int)src.range(0, ncols + 2) : (int)src.range(0, ncols + 2); }
  int fieldof(MRec &m) { int n = (int)m.f.size(); return base && n > base && !src.chance(1, 10) ? base + (int)src.draw(std::min(n - base, ncols + 2)) : (int)src.draw(n); }
  int mode = 0;          // value distribution
  i64 counter = 0;
  bool links = true;
  vector<Val> vpool;

  // values with many repetitions
  Val ival() {
    Val v;
    switch (mode) {
      case 0: v.t = WG_INTTYPE; v.i = src.range(0, 8); return v;                         // heavy duplicates
      case 1: v.t = WG_INTTYPE; v.i = src.range(-2000, 2000); return v;
      case 2: v.t = WG_INTTYPE; v.i = counter++; return v;                               // ascending
      case 3: v.t = WG_INTTYPE; v.i = -(counter++); return v;                            // descending
      default:
        if (!vpool.empty() && src.chance(1, 2)) return vpool[src.draw(vpool.size())];
        if (src.chance(1, 4)) { v.t = WG_INTTYPE; v.i = src.range(0, 5); return v; }
        v = gen_val(pool, opt); if (vpool.size() < 12) vpool.push_back(v); return v;
    }
  }
  Val newval() override { return src.chance(1, 3) ? gen_val(pool, opt) : ival(); }
  Val fval() {   // a field value, sometimes a link
    if (links && !r.empty() && src.chance(1, 12)) { Val v; v.t = WG_RECORDTYPE; v.i = pick_id(); return v; }
    if (src.chance(1, 12)) return Val();
    return ival();
  }
  bool member(const MIdx &x, const MRec &m) {
    if ((int)m.f.size() <= x.cols.back()) return false;
    for (auto &k : x.tmpl) { if ((int)m.f.size() <= k.first || mcmp(*this, m.f[k.first], k.second, DEPTH)) return false; }
    return true;
  }
  // builds an encoded match record; longer than needed sometimes (trailing wildcards)
  vector<wg_int> matchrec(const MIdx &x, bool param, int extra = 0) {
    int L = std::min(128, x.tmpl.rbegin()->first + 1 + extra); vector<wg_int> m(L);
    for (int i = 0; i < L; i++) { auto it = x.tmpl.find(i); m[i] = it == x.tmpl.end() ? wg_encode_var(db, i) : param ? encp(db, it->second) : encv(it->second); if (m[i] == WG_ILLEGAL && expect_refusal && !param) full = true; CHECK_(m[i] != WG_ILLEGAL || full, "encoding a template value failed"); }
    return m;
  }
  void free_param(const MIdx &x, vector<wg_int> &m) { for (auto &k : x.tmpl) wg_free_query_param(db, m[k.first]); }
  wg_int lookup(const MIdx &x, int type) {
    vector<wg_int> c(x.cols.begin(), x.cols.end()); wg_int id;
    if (c.size() > 1 && src.chance(1, 2)) std::reverse(c.begin(), c.end());
    if (x.tmpl.empty()) id = c.size() == 1 && src.chance(1, 2) ? wg_column_to_index_id(db, c[0], type, NULL, 0) : wg_multi_column_to_index_id(db, c.data(), c.size(), type, NULL, 0);
    else { auto m = matchrec(x, true, (int)src.draw(2)); id = c.size() == 1 && src.chance(1, 2) ? wg_column_to_index_id(db, c[0], type, m.data(), m.size()) : wg_multi_column_to_index_id(db, c.data(), c.size(), type, m.data(), m.size()); free_param(x, m); }
    return id;
  }
  MIdx gen_idx(bool hash) {
    MIdx x; x.type = hash ? WG_INDEX_TYPE_HASH : WG_INDEX_TYPE_TTREE;
    int n = hash ? (int)src.range(1, std::min(3, ncols)) : 1;
    std::set<int> c; for (int i = 0; i < n; i++) c.insert(std::min(127, base && src.chance(1, 6) ? (int)src.draw(base) : col()));
    x.cols.assign(c.begin(), c.end());
    if (src.chance(1, 3)) { int k = (int)src.range(1, 2); for (int i = 0; i < k; i++) { int col = std::min(127, base && src.chance(1, 4) ? (int)src.draw(base) : base + (int)src.draw(ncols + 1)); if (c.count(col)) continue; Val v = src.chance(1, 5) ? Val() : ival(); if (v.t == WG_VARTYPE || v.t == WG_BLOBTYPE) continue; x.tmpl[col] = v; } }
    return x;
  }
  // reports false when refused
  bool create_index(MIdx x) {
    vector<wg_int> c(x.cols.begin(), x.cols.end()); wg_int rc;
    if (c.size() > 1 && src.chance(1, 2)) std::reverse(c.begin(), c.end());
    bool dup = false; for (auto &o : idx) if (o.same(x)) dup = true;
    if (x.tmpl.empty()) rc = c.size() == 1 && src.chance(1, 2) ? wg_create_index(db, c[0], x.type, NULL, 0) : wg_create_multi_index(db, c.data(), c.size(), x.type, NULL, 0);
    else { auto m = matchrec(x, false, (int)src.draw(2)); if (std::count(m.begin(), m.end(), WG_ILLEGAL)) { T("template value refused"); return false; } rc = c.size() == 1 && src.chance(1, 2) ? wg_create_index(db, c[0], x.type, m.data(), m.size()) : wg_create_multi_index(db, c.data(), c.size(), x.type, m.data(), m.size()); }
    T("create index %s -> %ld", x.show_().c_str(), (long)rc);
    if (dup) { CHECK_(rc == -1, "creating an index identical to an existing one returned %ld", (long)rc); return false; }
    if (rc != 0) { refused("index creation"); return false; }
    x.id = lookup(x, x.type);
    CHECK_(x.id > 0, "index %s cannot be found after creation", x.show_().c_str());
    for (auto &o : idx) CHECK_(o.id != x.id, "two indexes have the same id");
    idx.push_back(x); return true;
  }
  void drop_index(size_t k) {
    MIdx x = idx[k]; wg_int rc = wg_drop_index(db, x.id);
    T("drop index %s -> %ld", x.show_().c_str(), (long)rc);
    if (x.type != WG_INDEX_TYPE_TTREE) { if (rc) return; }  // documented as not implemented
    else CHECK_(rc == 0, "dropping an index returned %ld", (long)rc);
    idx.erase(idx.begin() + k);
  }
  void check_catalog(const char *where) {
    wg_int n = -7; wg_int *all = (wg_int *)wg_get_all_indexes(db, &n); std::set<wg_int> got, want;
    for (auto &x : idx) want.insert(x.id);
    if (idx.empty()) { CHECK_(n == 0, "%s: %ld indexes reported, none exists", where, (long)n); free(all); }
    else {
      CHECK_(all && n == (wg_int)idx.size(), "%s: %ld indexes reported, %zu exist", where, (long)n, idx.size());
      for (wg_int i = 0; i < n; i++) got.insert(all[i]);
      free(all);
      CHECK_(got == want, "%s: list of indexes is wrong", where);
    }
    for (auto &x : idx) {
      CHECK_(wg_get_index_type(db, x.id) == x.type, "%s: type of index %s is %ld", where, x.show_().c_str(), (long)wg_get_index_type(db, x.id));
      CHECK_(lookup(x, x.type) == x.id, "%s: index %s is not found by its columns", where, x.show_().c_str());
      wg_int len = -3; wg_int *m = (wg_int *)wg_get_index_template(db, x.id, &len);
      if (x.tmpl.empty()) { CHECK_(m == NULL, "%s: index without template reports one", where); continue; }
      CHECK_(m && len == x.tmpl.rbegin()->first + 1, "%s: template of %s has length %ld", where, x.show_().c_str(), (long)len);
      for (int i = 0; i < len; i++) {
        auto it = x.tmpl.find(i);
        if (it == x.tmpl.end()) CHECK_(wg_get_encoded_type(db, m[i]) == WG_VARTYPE, "%s: wildcard of a template reads as something else", where);
        else CHECK_(cmp_val(dec(db, m[i]), it->second) == 0, "%s: template value of %s reads as %s", where, x.show_().c_str(), show(dec(db, m[i])).c_str());
      }
    }
    MIdx x = gen_idx(src.chance(1, 2)); bool have = false; for (auto &o : idx) if (o.same(x)) have = true;
    if (!have) CHECK_(lookup(x, x.type) == -1, "%s: a lookup reports index %s which does not exist", where, x.show_().c_str());
  }
  // rows of one ordered index, through range queries covering the whole order
  void check_ttree(MIdx &x, const char *where) {
    int c = x.cols[0]; vector<wg_query_arg> a; vector<wg_int> pars;
    wg_int maxv = wg_encode_var(db, (1LL << 59) - 1);
    if (maxv == WG_ILLEGAL) return;
    a.push_back({c, WG_COND_GTEQUAL, 0}); a.push_back({c, WG_COND_LTEQUAL, maxv});
    for (auto &k : x.tmpl) { wg_int p = encp(db, k.second); pars.push_back(p); a.push_back({k.first, WG_COND_EQUAL, p}); }
    wg_query *q = wg_make_query(db, NULL, 0, a.data(), a.size());
    CHECK_(q, "%s: query over index %s failed", where, x.show_().c_str());
    bool used = q->column == c;
    map<void *, int> got; void *p; const Val *prev = nullptr; wg_uint n = 0; int prevrec = 0;
    while ((p = wg_fetch(db, q))) {
      auto it = by_ptr.find(p);
      CHECK_(it != by_ptr.end(), "%s: index %s returns something that is not a live record", where, x.show_().c_str());
      CHECK_(++got[p] == 1, "%s: index %s contains rec#%d twice", where, x.show_().c_str(), it->second);
      MRec &m = r[it->second];
      CHECK_(member(x, m), "%s: index %s contains rec#%d which does not belong to it", where, x.show_().c_str(), it->second);
      const Val *v = &m.f[c];
      if (used && prev) CHECK_(mcmp(*this, *prev, *v, DEPTH) <= 0, "%s: index %s is out of order between rec#%d (%s) and rec#%d (%s)", where, x.show_().c_str(), prevrec, show(*prev).c_str(), it->second, show(*v).c_str());
      prev = v; prevrec = it->second; n++;
    }
    CHECK_(q->res_count == n, "%s: query counted %lu rows and delivered %lu", where, (unsigned long)q->res_count, (unsigned long)n);
    for (auto &k : r) if (member(x, k.second)) CHECK_(got.count(k.second.p), "%s: index %s does not contain rec#%d", where, x.show_().c_str(), k.first);
    wg_free_query(db, q);
    for (wg_int e : pars) wg_free_query_param(db, e);
    label(used ? "index used by the query" : "query preferred another index");
    // a search for a single value finds a row exactly when there is one
    for (int k = 0; k < 6; k++) {
      Val v; if (!got.empty() && k < 4) v = r[by_ptr[std::next(got.begin(), src.draw(got.size()))->first]].f[c]; else v = fval();
      wg_int e = v.t == WG_RECORDTYPE ? wg_encode_query_param_record(db, r[(int)v.i].p) : has_param(v.t) ? encp(db, v) : WG_ILLEGAL; if (e == WG_ILLEGAL) continue;
      wg_int off = wg_search_ttree_index(db, x.id, e); size_t cnt = 0; for (auto &g : got) if (mcmp(*this, r[by_ptr[g.first]].f[c], v, DEPTH) == 0) cnt++;
      if (off < 1) CHECK_(cnt == 0, "%s: searching index %s for %s finds nothing, %zu rows have it", where, x.show_().c_str(), show(v).c_str(), cnt);
      else {
        void *row = offsettoptr(db, off); auto it = by_ptr.find(row);
        CHECK_(it != by_ptr.end() && got.count(row), "%s: searching index %s for %s returns something that is not a row of it", where, x.show_().c_str(), show(v).c_str());
        CHECK_(mcmp(*this, r[it->second].f[c], v, DEPTH) == 0, "%s: searching index %s for %s returns rec#%d holding %s", where, x.show_().c_str(), show(v).c_str(), it->second, show(r[it->second].f[c]).c_str());
        label("single value found");
      }
      if (v.t != WG_RECORDTYPE) wg_free_query_param(db, e);
    }
    if (x.tmpl.empty()) {  // the search functions walk this index from the start each time
      size_t k = 0; map<void *, int> g2; void *last = NULL; size_t lim = r.size() > 40 ? 6 : r.size() + 1;
      while (k < lim && (p = wg_find_record(db, c, WG_COND_GTEQUAL, 0, last))) { CHECK_(by_ptr.count(p) && ++g2[p] == 1, "%s: searching index %s returned a wrong or repeated record", where, x.show_().c_str()); last = p; k++; }
      if (r.size() <= 40) CHECK_(g2.size() == got.size(), "%s: searching index %s enumerated %zu of %zu rows", where, x.show_().c_str(), g2.size(), got.size());
    }
  }
  static bool hash_eq(const Val &a, const Val &b) { return a.t == WG_RECORDTYPE || b.t == WG_RECORDTYPE ? a.t == b.t && a.i == b.i : cmp_val(a, b) == 0; }
  vector<void *> hash_rows(MIdx &x, const vector<wg_int> &key, const char *where) {
    vector<void *> out; vector<wg_int> k = key;
    wg_int off = wg_search_hash(db, x.id, k.data(), k.size());
    CHECK_(off >= 0, "%s: lookup in %s failed with %ld", where, x.show_().c_str(), (long)off);
    while (off > 0) { gcell *c = (gcell *)((char *)dbmemseg(db) + off); out.push_back((void *)((char *)dbmemseg(db) + c->car)); off = c->cdr; CHECK_(out.size() <= r.size() + 5, "%s: lookup in %s returns too many rows", where, x.show_().c_str()); }
    return out;
  }
  void check_hash_key(MIdx &x, const vector<Val> &key, const char *where, bool param) {
    vector<wg_int> e; bool ok = true; string ks;
    for (auto &v : key) { ks += show(v) + " "; wg_int q = v.t == WG_RECORDTYPE ? wg_encode_record(db, r[(int)v.i].p) : has_param(v.t) ? encp(db, v) : WG_ILLEGAL; e.push_back(q); if (q == WG_ILLEGAL) ok = false; }
    if (ok) {
      auto rows = hash_rows(x, e, where); std::set<void *> got;
      for (void *p : rows) {
        auto it = by_ptr.find(p);
        CHECK_(it != by_ptr.end(), "%s: %s lookup of %s returns something that is not a live record", where, x.show_().c_str(), ks.c_str());
        CHECK_(got.insert(p).second, "%s: %s lookup of %s returns rec#%d twice", where, x.show_().c_str(), ks.c_str(), it->second);
        MRec &m = r[it->second]; bool match = member(x, m);
        if (match) for (size_t i = 0; i < key.size(); i++) if (!hash_eq(m.f[x.cols[i]], key[i])) match = false;
        CHECK_(match, "%s: %s lookup of %s returns rec#%d which does not match", where, x.show_().c_str(), ks.c_str(), it->second);
      }
      for (auto &k : r) {
        if (!member(x, k.second) || got.count(k.second.p)) continue;
        bool match = true; for (size_t i = 0; i < key.size(); i++) if (!hash_eq(k.second.f[x.cols[i]], key[i])) match = false;
        CHECK_(!match, "%s: %s lookup of %s misses rec#%d", where, x.show_().c_str(), ks.c_str(), k.first);
      }
    }
    for (size_t i = 0; i < key.size(); i++) if (key[i].t != WG_RECORDTYPE && e[i] != WG_ILLEGAL) wg_free_query_param(db, e[i]);
  }
  void check_hash(MIdx &x, const char *where) {
    std::set<vector<wg_int>> seen; vector<vector<Val>> keys;
    for (auto &k : r) {
      if ((int)k.second.f.size() <= x.cols.back()) continue;
      vector<wg_int> e; vector<Val> kv; for (int c : x.cols) { e.push_back(wg_get_field(db, k.second.p, c)); kv.push_back(k.second.f[c]); }
      if (!seen.insert(e).second) continue;
      // with the stored values as the key
      bool stored_ok = true;
      if (stored_ok) {
        auto rows = hash_rows(x, e, where); std::set<void *> got(rows.begin(), rows.end());
        CHECK_(got.size() == rows.size(), "%s: %s lookup with the values of rec#%d repeats a row", where, x.show_().c_str(), k.first);
        CHECK_(got.count(k.second.p) == (member(x, k.second) ? 1u : 0u), "%s: %s lookup with its own values %s rec#%d", where, x.show_().c_str(), member(x, k.second) ? "misses" : "returns", k.first);
        for (void *p : rows) CHECK_(by_ptr.count(p), "%s: %s lookup returns a deleted record", where, x.show_().c_str());
      }
      if (keys.size() < 25) keys.push_back(kv);
    }
    for (auto &k : keys) check_hash_key(x, k, where, true);
    for (int i = 0; i < 3; i++) { vector<Val> k; for (size_t j = 0; j < x.cols.size(); j++) { Val v = fval(); while (v.t == WG_BLOBTYPE) { v = Val(); } k.push_back(v); } check_hash_key(x, k, where, true); }
  }
  void check_indexes(const char *where) {
    for (auto &x : idx) if (x.type == WG_INDEX_TYPE_TTREE) check_ttree(x, where); else check_hash(x, where);
  }
  void bulk_create(int n) {
    int L = base + (int)src.range(1, ncols + 1); if (base) n = std::min(n, 12);
    for (int i = 0; i < n && !full; i++) { int id = create(L, false); if (!id) break; for (int c = base; c < L && !full; c++) if (mode >= 2 || c < base + 2) set(id, c, mode > 3 && links ? fval() : ival()); }
  }
};
