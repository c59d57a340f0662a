// C01 C02 C03 C05 C06 C11: values, records, storage, sharing, links, order
#include "world.h"

static World *mkworld(wg_int size) {
  watch_errors(); World *w = new World;
  w->dbsize = size; w->db = wg_attach_local_database(size);
  if (!w->db) discard();
  T("database of %ld bytes", (long)size);
  return w;
}

// ---------------------------------------------------------------- C01
static void c01_illegal(World &w) {
  wg_int e = 0; const char *what = "";
  switch (src.draw(7)) {
    case 0: e = wg_encode_date(w.db, (int)(MAXDATE_ + 1 + src.range(0, 1000))); what = "date above range"; break;
    case 1: e = wg_encode_date(w.db, (int)(-MAXDATE_ - 1 - src.range(0, 1000))); what = "date below range"; break;
    case 2: e = wg_encode_time(w.db, (int)(MAXTIME_ + 1 + src.range(0, 1000))); what = "time above range"; break;
    case 3: e = wg_encode_time(w.db, (int)(-1 - src.range(0, 1000))); what = "negative time"; break;
    case 4: e = wg_encode_fixpoint(w.db, 800.0 + 0.001 * (1 + src.range(0, 100000))); what = "fixpoint above range"; break;
    case 5: e = wg_encode_fixpoint(w.db, -800.0 - 0.001 * (1 + src.range(0, 100000))); what = "fixpoint below range"; break;
    default: e = wg_encode_time(w.db, (int)(INT32_MAX - src.range(0, 9))); what = "huge time"; break;
  }
  T("encode %s", what);
  CHECK_(e == WG_ILLEGAL, "encoding a %s was accepted", what);
}
static void c01() {
  static const int sz[] = {4000000, 1000000, 600000};
  World &w = *mkworld(sz[src.draw(3)]);
  w.opt.nan = true;
  int kinds = 0; set<int> types;
  for (int n = 0; n < 60 && !w.full && src.more(22); n++) {
    Span sp;
    switch (w.r.empty() ? 0 : src.weighted({3, 12, 2, 1, 1, 2})) {
      case 0: w.create((int)src.range(1, 6)); break;
      case 1: {
        int id = w.pick_id(); int f = (int)src.draw(w.r[id].f.size());
        Val v = gen_val(w.pool, w.opt); types.insert(v.t);
        if (v.t == WG_VARTYPE || v.t == WG_INTTYPE) if (src.chance(1, 3)) label("wide int or var");
        if (w.r[id].f[f].t != WG_NULLTYPE) kinds = 1;
        if (w.set(id, f, v, false, (int)src.draw(2))) { w.check_field(id, f, true, "just stored"); label(tname(v.t)); }
        break;
      }
      case 2: { int id = w.pick_id(); int f = (int)src.draw(w.r[id].f.size()); Val v; v.t = WG_RECORDTYPE; v.i = w.pick_id(); w.set(id, f, v); types.insert(v.t); break; }
      case 3: w.del(w.pick_id()); kinds = 1; break;
      case 4: c01_illegal(w); break;
      case 5: {  // value encoded, never stored, released again
        Val v = gen_val(w.pool, w.opt); wg_int e = w.encv(v);
        T("encode and free %s", show(v).c_str());
        if (e == WG_ILLEGAL) { w.refused("encoding"); break; }
        check_val(w.db, e, v, "encoded", true);
        CHECK_(wg_free_encoded(w.db, e) == 0, "freeing an unused encoded %s failed", show(v).c_str());
        break;
      }
    }
  }
  w.check_all(true, "at the end");
  if (types.size() >= 3 && kinds) nontrivial();
}
// every storage boundary length of every string-like type, one by one
static void c01_enum(u64 k) {
  LocalDb db(3000000);
  static const int T_[] = {WG_STRTYPE, WG_XMLLITERALTYPE, WG_URITYPE, WG_BLOBTYPE};
  size_t len = k;
  for (int t : T_) for (int xm = 0; xm < 5; xm++) {
    Val v; v.t = t; v.s.assign(len, 'b'); for (size_t i = 0; i < len; i++) v.s[i] = (char)('!' + (i * 7 + t) % 90);
    if (t == WG_BLOBTYPE) { if (!len) continue; for (size_t i = 0; i < len; i++) v.s[i] = (char)(i * 37); }
    if (xm == 0 && t == WG_XMLLITERALTYPE) continue;
    if (xm) { v.hx = true; v.x.assign(xm == 1 ? 0 : xm == 2 ? 5 : xm == 3 ? 31 + len % 3 : len, 'x'); }
    if (t == WG_BLOBTYPE && !xm) { v.hx = false; }
    T("len %zu type %s extra %d", len, tname(t), xm);
    void *rec = wg_create_record(db, 1); wg_int e = enc(db, v);
    CHECK_(rec && e != WG_ILLEGAL, "encoding %s failed", show(v).c_str());
    CHECK_(wg_set_field(db, rec, 0, e) == 0, "storing %s failed", show(v).c_str());
    check_val(db, wg_get_field(db, rec, 0), v, "stored", true);
    wg_int e2 = enc(db, v);
    check_val(db, e2, v, "encoded again", true);
    Val n; n.t = WG_STRTYPE; n.s.assign(len + 1, 'z');
    void *r2 = wg_create_record(db, 1); wg_int e3 = enc(db, n);
    CHECK_(r2 && e3 != WG_ILLEGAL && wg_set_field(db, r2, 0, e3) == 0, "storing a neighbour failed");
    check_val(db, wg_get_field(db, rec, 0), v, "after a neighbour", true);
    check_val(db, wg_get_field(db, r2, 0), n, "neighbour", true);
  }
  for (i64 i : {(i64)len, (i64)1 << (len % 63), -((i64)1 << (len % 63)), ((i64)1 << (len % 63)) - 1, (i64)(UINT64_MAX >> (1 + len % 63)), ~(i64)(UINT64_MAX >> (1 + len % 63))}) {
    Val v; v.t = WG_INTTYPE; v.i = i; void *rec = wg_create_record(db, 1);
    CHECK_(rec && wg_set_int_field(db, rec, 0, i) == 0, "storing int %lld failed", (long long)i);
    check_val(db, wg_get_field(db, rec, 0), v, "int", false);
  }
  nontrivial();
}

// ---------------------------------------------------------------- C02
static int gen_reclen() {
  switch (src.weighted({8, 3, 2, 1})) {
    case 0: return (int)src.range(0, 8);
    case 1: return (int)src.range(24, 40);     // around the exact bucket limit
    case 2: return (int)src.range(0, 200);
    default: return (int)src.range(0, 3000);
  }
}
static void c02_invalid(World &w) {
  void *db = w.db; static char fake[4096];
  switch (src.draw(6)) {
    case 0: T("create negative length"); CHECK_(wg_create_record(db, -1 - (int)src.draw(5)) == NULL, "record of negative length created"); break;
    case 1: case 2: {
      if (w.r.empty()) return;
      int id = w.pick_id(); MRec &m = w.r[id]; int L = (int)m.f.size();
      int f = src.chance(1, 2) ? L + (int)src.draw(4) : -1 - (int)src.draw(3);
      T("set invalid field %d of length %d", f, L);
      CHECK_(wg_set_field(db, m.p, f, wg_encode_int(db, 5)) < 0, "setting field %d of a %d field record succeeded", f, L);
      CHECK_(wg_set_int_field(db, m.p, f, 5) < 0, "set_int of field %d of a %d field record succeeded", f, L);
      CHECK_(wg_get_field_type(db, m.p, f) == 0, "type of field %d of a %d field record is nonzero", f, L);
      CHECK_(wg_get_field(db, m.p, f) == WG_ILLEGAL, "field %d of a %d field record can be read", f, L);
      break;
    }
    case 3: T("wrong database pointer"); CHECK_(wg_create_record(fake, 3) == NULL && wg_get_first_record(fake) == NULL, "wrong database pointer accepted"); break;
    case 4: {
      if (w.r.empty()) return;
      MRec &m = w.r[w.pick_id()]; T("wrong database pointer on record");
      CHECK_(wg_set_field(fake, m.p, 0, wg_encode_int(db, 5)) < 0, "wrong database pointer accepted by set_field");
      CHECK_(wg_delete_record(fake, m.p) < 0, "wrong database pointer accepted by delete");
      CHECK_(wg_get_record_len(fake, m.p) < 0, "wrong database pointer accepted by record_len");
      break;
    }
    default: {
      wg_int n = w.dbsize / 8 + 1; if (src.chance(1, 2)) n = (wg_int)((((wg_uint)1) << src.range(31, 62)) + (wg_uint)src.draw(3)) - (src.chance(1, 3) ? 1 + (wg_int)src.draw(3) : 0);
      T("huge record of %ld fields", (long)n); CHECK_((src.chance(1, 2) ? wg_create_raw_record(db, n) : wg_create_record(db, n)) == NULL, "record of %ld fields created in a database of %ld bytes", (long)n, (long)w.dbsize); break; }
  }
  label("invalid call");
}
static void c02() {
  static const int sz[] = {2000000, 600000, 5000000};
  World &w = *mkworld(sz[src.draw(3)]);
  w.opt.maxlen = 200;
  int dels = 0, recr = 0; unsigned mean = src.chance(1, 6) ? 150 : 30;
  for (int n = 0; n < 600 && !w.full && src.more(mean); n++) {
    Span sp;
    switch (w.r.empty() ? 0 : src.weighted({8, 8, 6, 1, 1})) {
      case 0: { bool raw = src.chance(1, 6); int l = gen_reclen(); if (raw && l > 40) l = 40; if (w.create(l, raw) && dels) recr++; break; }
      case 1: { int id = w.pick_id(); if (w.r[id].f.empty()) break; int f = (int)src.draw(w.r[id].f.size()); if (src.chance(1, 8)) { Val v; v.t = WG_RECORDTYPE; v.i = w.pick_id(); w.set(id, f, v); } else w.set(id, f, gen_val(w.pool, w.opt), false, (int)src.draw(2)); break; }
      case 2: if (w.del(w.pick_id())) dels++; break;
      case 3: w.check_all(false, "scan"); break;
      case 4: c02_invalid(w); break;
    }
  }
  w.check_all(false, "at the end");
  if (dels && recr) nontrivial();
  if (dels > 20) label("many deletes");
}

// ---------------------------------------------------------------- C03
static void extents(World &w, const char *where) {
  struct E { const char *a, *b; string what; bool operator<(const E &o) const { return a < o.a; } };
  vector<E> v; map<wg_int, const char *> strs;
  for (auto &k : w.r) {
    char *p = (char *)k.second.p;
    v.push_back({p, p + 8 * (k.second.f.size() + RECORD_HEADER_GINTS), "rec#" + std::to_string(k.first)});
    for (size_t i = 0; i < k.second.f.size(); i++) {
      const Val &x = k.second.f[i]; if (!is_strlike(x.t)) continue;
      wg_int e = wg_get_field(w.db, k.second.p, i);
      const char *q = x.t == WG_STRTYPE ? wg_decode_str(w.db, e) : x.t == WG_URITYPE ? wg_decode_uri(w.db, e) : x.t == WG_XMLLITERALTYPE ? wg_decode_xmlliteral(w.db, e) : wg_decode_blob(w.db, e);
      auto it = strs.find(e);
      bool shortstr = x.t == WG_STRTYPE && !x.hx && x.s.size() < 32;
      if (it != strs.end()) { CHECK_(!shortstr, "%s: two fields own the same short string storage", where); continue; }
      strs[e] = q;
      v.push_back({q, q + x.s.size() + (x.t == WG_BLOBTYPE ? 0 : 1), "string of rec#" + std::to_string(k.first)});
    }
  }
  std::sort(v.begin(), v.end());
  for (size_t i = 1; i < v.size(); i++) CHECK_(v[i - 1].b <= v[i].a, "%s: storage of %s overlaps %s by %ld bytes", where, v[i - 1].what.c_str(), v[i].what.c_str(), (long)(v[i - 1].b - v[i].a));
}
static void c03_history() {
  static const int sz[] = {3000000, 700000, 8000000};
  World &w = *mkworld(sz[src.draw(3)]);
  w.opt.maxlen = src.chance(1, 3) ? 3000 : 300;
  int dels = 0; unsigned mean = src.chance(1, 4) ? 200 : 50;
  for (int n = 0; n < 700 && !w.full && src.more(mean); n++) {
    Span sp;
    switch (w.r.empty() ? 0 : src.weighted({8, 8, 6, 1, 2})) {
      case 0: w.create(gen_reclen()); break;
      case 1: { int id = w.pick_id(); if (w.r[id].f.empty()) break; int f = (int)src.draw(std::min<size_t>(w.r[id].f.size(), 12)); w.set(id, f, gen_val(w.pool, w.opt)); break; }
      case 2: if (w.del(w.pick_id())) dels++; break;
      case 3: extents(w, "during the history"); w.check_all(false, "during the history"); break;
      case 4: { auto v = w.ids(); size_t a = src.draw(v.size()); size_t c = src.draw(8); for (size_t i = a; i < v.size() && i < a + c; i++) if (w.del(v[i])) dels++; break; }
    }
  }
  extents(w, "at the end"); w.check_all(false, "at the end");
  if (dels >= 2) nontrivial();
  label("history");
}
// a workload that is created and deleted again and again must not consume space
static void c03_cycle() {
  bool big = src.chance(1, 4);
  wg_int size = big ? 4000000 : 500000;
  World &w = *mkworld(size);
  w.opt.maxlen = big ? 3000 : 300;
  struct Item { int len; vector<pair<int, Val>> sets; };
  vector<Item> items; i64 bytes = 0, limit = big ? size / 6 : 6000;
  while ((int)items.size() < (big ? 80 : 12) && bytes < limit && src.more(big ? 30 : 6)) {
    Span sp; Item it; it.len = big ? gen_reclen() : (int)src.range(1, 40);
    while (it.len && src.more(3)) { Val v = gen_val(w.pool, w.opt); it.sets.push_back({(int)src.draw(it.len), v}); bytes += 60 + v.s.size() + v.x.size(); }
    bytes += 8 * it.len + 40; items.push_back(it);
    T("item: record of %d fields", it.len); for (auto &s : it.sets) T("   [%d]=%s", s.first, show(s.second).c_str());
  }
  if (items.empty()) discard();
  int order = (int)src.draw(3); u64 lcg = src.draw(1 << 30); int links = (int)src.draw(2), unused = (int)src.draw(2);
  int N = big ? 40 : 1500; wg_int warm = 0;
  T("cycles=%d delete order %d links %d", N, order, links);
  for (int c = 0; c < N; c++) {
    vector<void *> recs;
    for (auto &it : items) {
      void *p = wg_create_record(w.db, it.len);
      CHECK_(p, "cycle %d: record creation refused although all earlier cycles were fully deleted", c);
      for (auto &s : it.sets) {
        wg_int e = enc(w.db, s.second);
        CHECK_(e != WG_ILLEGAL, "cycle %d: encoding refused although all earlier cycles were fully deleted", c);
        CHECK_(wg_set_field(w.db, p, s.first, e) == 0, "cycle %d: set refused", c);
        if (unused) { wg_int e2 = enc(w.db, s.second); CHECK_(e2 != WG_ILLEGAL, "cycle %d: encoding refused", c); wg_free_encoded(w.db, e2); }
      }
      if (links && !recs.empty() && it.len) { CHECK_(wg_set_field(w.db, p, it.len - 1, wg_encode_record(w.db, recs.back())) == 0, "cycle %d: link refused", c); }
      recs.push_back(p);
    }
    if (links) for (size_t i = 0; i < recs.size(); i++) { wg_int L = wg_get_record_len(w.db, recs[i]); if (L) CHECK_(wg_set_field(w.db, recs[i], L - 1, 0) == 0, "unlinking failed"); }
    if (order == 1) std::reverse(recs.begin(), recs.end());
    if (order == 2) for (size_t i = recs.size(); i > 1; i--) { lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL; std::swap(recs[i - 1], recs[(lcg >> 33) % i]); }
    for (void *p : recs) { wg_int rc = wg_delete_record(w.db, p); CHECK_(rc == 0, "cycle %d: delete returned %ld", c, (long)rc); }
    CHECK_(wg_get_first_record(w.db) == NULL, "cycle %d: database not empty after deleting everything", c);
    if (c == N / 5) warm = wg_database_freesize(w.db);
  }
  if (!big) { wg_int f = wg_database_freesize(w.db); CHECK_(f == warm, "repeating the same create/delete cycle keeps consuming space: %ld bytes unallocated after %d cycles, %ld after %d", (long)warm, N / 5, (long)f, N); }
  nontrivial(); label(big ? "big cycle" : "leak cycle");
}
static void c03() { if (src.weighted({7, 2})) c03_cycle(); else c03_history(); }

// ---------------------------------------------------------------- C05
static bool long_form(const Val &v) { return is_strlike(v.t) && (v.t != WG_STRTYPE || v.hx || v.s.size() >= 32); }
static void c05_shared(World &w, const char *where) {
  // equal long values share one stored object, unequal ones never do
  struct K { int t; string s; bool hx; string x; bool operator<(const K &o) const { return std::tie(t, s, hx, x) < std::tie(o.t, o.s, o.hx, o.x); } };
  map<K, wg_int> m; map<wg_int, K> inv;
  for (auto &k : w.r) for (size_t i = 0; i < k.second.f.size(); i++) {
    const Val &v = k.second.f[i]; if (!long_form(v)) continue;
    wg_int e = wg_get_field(w.db, k.second.p, i); K key{v.t, v.s, v.hx, v.x};
    auto a = m.find(key); if (a != m.end()) { CHECK_(a->second == e, "%s: equal %s stored twice", where, show(v).c_str()); label("shared"); }
    auto b = inv.find(e); if (b != inv.end()) CHECK_(!(b->second < key) && !(key < b->second), "%s: different strings share storage: %s", where, show(v).c_str());
    m[key] = e; inv.insert({e, key});
  }
}
// Only guides the generator towards strings that meet in one hash chain.
extern "C" int wg_hash_typedstr(void *db, const char *data, const char *extrastr, wg_int type, wg_int length) __attribute__((weak));
static int chain_of(World &w, const Val &v) { return wg_hash_typedstr ? wg_hash_typedstr(w.db, v.s.c_str(), v.hx && v.t != WG_BLOBTYPE ? v.x.c_str() : v.hx ? v.x.c_str() : NULL, v.t, v.s.size() + (v.t != WG_BLOBTYPE)) : -1; }
static bool meet(World &w, Val &v, int chain) {
  if (chain < 0 || v.s.size() < 6) return false;
  u64 k = src.draw(1000);
  for (int i = 0; i < 20000; i++) { char b[8]; snprintf(b, 8, "%06llu", (unsigned long long)((k + i) % 1000000)); memcpy(&v.s[0], b, 6); if (chain_of(w, v) == chain) return true; }
  return false;
}
static void c05_hist() {
  static const int sz[] = {400000, 1000000};   // few hash buckets: collisions are common
  World &w = *mkworld(sz[src.draw(2)]);
  w.opt.maxlen = 400; vector<Val> used; int over = 0, sh = 0;
  int nrec = (int)src.range(2, 5);
  for (int i = 0; i < nrec; i++) if (!w.create((int)src.range(2, 6))) discard();
  unsigned mean = src.chance(1, 4) ? 150 : 45;
  for (int n = 0; n < 400 && !w.full && src.more(mean); n++) {
    Span sp;
    switch (w.r.empty() ? 2 : src.weighted({12, 2, 2, 2})) {
      case 0: {
        int id = w.pick_id(); int f = (int)src.draw(w.r[id].f.size()); Val v;
        if (!used.empty() && src.chance(1, 2)) { v = used[src.draw(used.size())]; sh++; if (src.chance(1, 4)) { if (src.chance(1, 2)) { v.hx = true; v.x = w.pool.text(100); } else if (v.t != WG_BLOBTYPE || !v.s.empty()) v.t = (int[]){WG_STRTYPE, WG_URITYPE, WG_XMLLITERALTYPE}[src.draw(3)]; if (v.t != WG_STRTYPE && v.t != WG_URITYPE) v.hx = true; size_t z = v.s.find('\0'); if (v.t != WG_BLOBTYPE && z != string::npos) v.s.resize(z); } }
        else if (src.chance(1, 3)) {   // a string in the same chain as another, or as its own attached part
          v.t = (int[]){WG_STRTYPE, WG_URITYPE, WG_XMLLITERALTYPE, WG_BLOBTYPE}[src.weighted({4, 2, 2, 1})]; v.s.assign(src.range(32, 60), 'c');
          if (v.t != WG_STRTYPE || src.chance(1, 2)) { v.hx = true; v.x = src.chance(2, 3) ? string(src.range(32, 50), 'x') : string("en"); if (v.x.size() > 20) { char b[8]; snprintf(b, 8, "%04d", (int)src.draw(9999)); memcpy(&v.x[0], b, 4); } }
          int ch = -1; Val o;
          if (v.hx && v.x.size() > 20 && src.chance(2, 3)) { o.t = WG_STRTYPE; o.s = v.x; ch = chain_of(w, o); if (meet(w, v, ch)) { label("string in the chain of its attached part"); if (src.chance(1, 2)) used.push_back(o); } }
          else if (!used.empty()) { o = used[src.draw(used.size())]; if (long_form(o)) { ch = chain_of(w, o); if (meet(w, v, ch)) label("two strings in one chain"); } }
        }
        else do { v = gen_val(w.pool, w.opt); } while (!is_strlike(v.t) && !src.chance(1, 3));
        if (w.r[id].f[f].t != WG_NULLTYPE) over++;
        used.push_back(v);
        if (w.set(id, f, v)) { wg_int e = wg_get_field(w.db, w.r[id].p, f); if (long_form(v)) { wg_int e2 = w.encv(v); CHECK_(e2 == e, "encoding %s again while it is stored gives a different stored value", show(v).c_str()); } }
        break;
      }
      case 1: w.del(w.pick_id()); break;
      case 2: w.create((int)src.range(1, 6)); break;
      case 3: { Val v = !used.empty() && src.chance(2, 3) ? used[src.draw(used.size())] : gen_val(w.pool, w.opt); wg_int e = w.encv(v); T("encode and free %s", show(v).c_str()); if (e != WG_ILLEGAL) { check_val(w.db, e, v, "encoded", false); wg_free_encoded(w.db, e); } break; }
    }
    if (n % 16 == 15) c05_shared(w, "during");
  }
  c05_shared(w, "at the end"); w.check_all(false, "at the end");
  if (over >= 2 && sh >= 2) nontrivial();
}
// sharing count: stored k times, released k times, then its space must come back
static void c05_cycle() {
  World &w = *mkworld(500000);
  int R = (int)src.range(1, 4), F = (int)src.range(1, 4);
  vector<void *> rec; for (int i = 0; i < R; i++) { void *p = wg_create_record(w.db, F); if (!p) discard(); rec.push_back(p); }
  struct Op { int r, f, v, free; }; vector<Op> ops; vector<Val> vals; int nv = (int)src.range(1, 3);
  for (int i = 0; i < nv; i++) { Val v; do { v = gen_val(w.pool, w.opt); } while (!is_strlike(v.t) && src.more(20)); if (!is_strlike(v.t)) { v = Val(); v.t = WG_STRTYPE; v.s.assign(40, 'k'); } if (v.s.size() > 300) v.s.resize(300); if (v.x.size() > 300) v.x.resize(300); vals.push_back(v); T("value %d: %s", i, show(v).c_str()); }
  while (ops.size() < 30 && src.more(10)) { Span sp; Op o{(int)src.draw(R), (int)src.draw(F), (int)src.range(-1, nv - 1), (int)src.chance(1, 6)}; ops.push_back(o); T("op rec%d[%d]=v%d%s", o.r, o.f, o.v, o.free ? " (encode and free only)" : ""); }
  bool vary = src.chance(2, 3); int N = 1200; wg_int warm = 0; T("varying content %d", vary);
  for (int c = 0; c < N; c++) {
    vector<Val> cur = vals;
    if (vary) for (auto &v : cur) { if (v.s.size() >= 6) { char b[8]; snprintf(b, 8, "%06d", c); memcpy(&v.s[0], b, 6); } if (v.x.size() >= 6 && c % 2) { char b[8]; snprintf(b, 8, "%06d", c); memcpy(&v.x[0], b, 6); } }
    for (auto &o : ops) {
      wg_int e = o.v < 0 ? 0 : enc(w.db, cur[o.v]);
      CHECK_(e != WG_ILLEGAL, "cycle %d: encoding refused although everything was released", c);
      if (o.free) { wg_free_encoded(w.db, e); continue; }
      CHECK_(wg_set_field(w.db, rec[o.r], o.f, e) == 0, "cycle %d: set refused", c);
      if (o.v >= 0 && c % 50 == 0) check_val(w.db, wg_get_field(w.db, rec[o.r], o.f), cur[o.v], "in the cycle", false);
    }
    if (c % 2) { for (void *p : rec) for (int f = 0; f < F; f++) CHECK_(wg_set_field(w.db, p, f, 0) == 0, "clearing failed"); }
    else { for (auto &p : rec) { CHECK_(wg_delete_record(w.db, p) == 0, "delete failed"); } for (auto &p : rec) { p = wg_create_record(w.db, F); CHECK_(p, "cycle %d: record creation refused", c); } }
    if (c == N / 4) warm = wg_database_freesize(w.db);
  }
  wg_int f = wg_database_freesize(w.db);
  CHECK_(f == warm, "storing and releasing strings keeps consuming space: %ld bytes unallocated after %d cycles, %ld after %d", (long)warm, N / 4, (long)f, N);
  if (ops.size() >= 3) nontrivial();
  label("release cycle");
}
static void c05() { if (src.weighted({5, 2})) c05_cycle(); else c05_hist(); }

// ---------------------------------------------------------------- C06
static void c06() {
  World &w = *mkworld(2000000);
  w.opt.maxlen = 60; int relink = 0, refused = 0, dup = 0;
  w.raw_links = true;
  int n0 = (int)src.range(1, 6);
  for (int i = 0; i < n0; i++) w.create((int)src.range(1, 5));
  for (int n = 0; n < 150 && !w.full && src.more(40); n++) {
    Span sp;
    switch (w.r.empty() ? 3 : src.weighted({12, 4, 5, 2})) {
      case 0: {
        int id = w.pick_id(); if (w.r[id].f.empty()) break; int f = (int)src.draw(w.r[id].f.size());
        Val v; v.t = WG_RECORDTYPE; v.i = src.chance(1, 8) ? id : w.pick_id();
        if (w.r[id].f[f].t == WG_RECORDTYPE) relink++;
        for (auto &x : w.r[id].f) if (x.t == WG_RECORDTYPE && x.i == v.i) { dup++; break; }
        if (v.i == id) label("self link");
        w.set(id, f, v, false, (int)src.draw(2)); break;
      }
      case 1: { int id = w.pick_id(); if (w.r[id].f.empty()) break; w.set(id, (int)src.draw(w.r[id].f.size()), gen_val(w.pool, w.opt)); break; }
      case 2: { int id = w.pick_id(); bool ok = w.del(id); if (!ok) refused++; break; }
      case 3: { bool raw = src.chance(1, 2); int id = w.create((int)src.range(0, 5), raw); if (id && !raw && src.chance(1, 4)) { for (size_t i = 0; i < w.r[id].f.size(); i++) { Val v; v.t = WG_RECORDTYPE; v.i = w.pick_id(); w.set(id, (int)i, v, false); } } break; }
    }
    if (w.r.size() && n % 3 == 0) w.check_parents("after an operation");
  }
  w.check_parents("at the end"); w.check_all(false, "at the end");
  // unlink everything, then all records must go
  for (auto &k : w.r) for (size_t i = 0; i < k.second.f.size(); i++) if (k.second.f[i].t == WG_RECORDTYPE) { Val v; CHECK_(wg_set_field(w.db, k.second.p, i, 0) == 0, "unlinking failed"); k.second.f[i] = v; }
  for (int id : w.ids()) w.del(id);
  CHECK_(wg_get_first_record(w.db) == NULL, "records left after unlinking and deleting all");
  if (refused && relink) nontrivial();
  if (dup) label("several links between one pair");
}

// ---------------------------------------------------------------- C11
static Val tweak(World &w, const Val &o) {     // a value close to another one
  Val v = o;
  switch (v.t) {
    case WG_INTTYPE: v.i = (i64)((u64)v.i + (u64)src.range(-1, 1)); break;
    case WG_DOUBLETYPE: v.d = src.chance(1, 2) ? std::nextafter(v.d, INFINITY) : -v.d; break;
    case WG_FIXPOINTTYPE: v.i = std::max<i64>(-8000000, std::min<i64>(8000000, v.i + src.range(-1, 1))); break;
    case WG_DATETYPE: v.i = std::max<i64>(-MAXDATE_, std::min<i64>(MAXDATE_, v.i + src.range(-1, 1))); break;
    case WG_TIMETYPE: v.i = std::max<i64>(0, std::min<i64>(MAXTIME_, v.i + src.range(-1, 1))); break;
    case WG_CHARTYPE: v.i = (signed char)(v.i + 1); break;
    case WG_VARTYPE: v.i = v.i ? v.i - 1 : 1; break;
    case WG_STRTYPE: case WG_XMLLITERALTYPE: case WG_URITYPE: case WG_BLOBTYPE:
      switch (src.draw(6)) {
        case 0: v.s += (char)src.range(1, 255); break;
        case 1: if (v.s.size() > 1) v.s.pop_back(); break;
        case 2: if (v.s.size()) { size_t p = src.draw(v.s.size()); v.s[p] = (char)(v.s[p] == 'a' ? 'b' : 'a'); } break;
        case 3: v.hx = true; v.x = v.x + "x"; break;
        case 4: if (v.t == WG_STRTYPE || v.t == WG_URITYPE) { v.hx = !v.hx; v.x = v.hx ? "q" : ""; } break;
        default: break;
      }
      break;
    default: break;
  }
  return v;
}
static void c11() {
  World &w = *mkworld(3000000);
  w.opt.maxlen = 300; vector<Val> vals;
  int holder = w.create(60); if (!holder) discard();
  auto addv = [&](const Val &v) { vals.push_back(v); };
  for (int n = 0; n < 14 && src.more(8); n++) {
    Span sp;
    if (!vals.empty() && src.chance(2, 5)) { Val o = vals[src.draw(vals.size())]; if (o.t != WG_RECORDTYPE) { addv(src.chance(1, 3) ? o : tweak(w, o)); continue; } }
    if (src.chance(1, 3)) {
      // a record, perhaps a near copy of another, perhaps nested
      int id; bool copied = false; vector<int> rs; for (auto &v : vals) if (v.t == WG_RECORDTYPE) rs.push_back((int)v.i);
      if (!rs.empty() && src.chance(1, 2)) {
        int o = rs[src.draw(rs.size())]; int L = (int)w.r[o].f.size(); id = w.create(L); if (!id) break; copied = true;
        for (int i = 0; i < L; i++) { Val v = w.r[o].f[i]; if (v.t == WG_RECORDTYPE && src.chance(1, 2)) { // deep copy one level
              int c = w.create((int)w.r[(int)v.i].f.size()); if (!c) return; for (size_t j = 0; j < w.r[(int)v.i].f.size(); j++) w.set(c, (int)j, w.r[(int)v.i].f[j]); v.i = c; }
          else if (v.t != WG_RECORDTYPE && src.chance(1, 5)) v = tweak(w, v);
          w.set(id, i, v); }
        label("copied record");
      } else {
        int L = (int)src.range(0, 4); id = w.create(L); if (!id) break;
        for (int i = 0; i < L; i++) { if (!rs.empty() && src.chance(1, 2)) { Val v; v.t = WG_RECORDTYPE; v.i = rs[src.draw(rs.size())]; w.set(id, i, v); label("nested record"); } else w.set(id, i, gen_val(w.pool, w.opt)); }
      }
      (void)copied; Val v; v.t = WG_RECORDTYPE; v.i = id; addv(v); continue;
    }
    addv(gen_val(w.pool, w.opt));
  }
  vector<wg_int> e;
  for (size_t i = 0; i < vals.size() && i < 60; i++) { CHECK_(w.set(holder, (int)i, vals[i]), "setup failed"); e.push_back(wg_get_field(w.db, w.r[holder].p, i)); T("v%zu = %s", i, show(vals[i]).c_str()); }
  size_t n = e.size(); int eq = 0, sametype = 0;
  vector<vector<int>> m(n, vector<int>(n));
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
    m[i][j] = (int)wcmp(w.db, e[i], e[j]);
    int want = i == j ? 0 : e[i] == e[j] ? 0 : mcmp(w, vals[i], vals[j], DEPTH);
    CHECK_(m[i][j] == want, "compare(%s, %s) = %d, expected %d", show(vals[i]).c_str(), show(vals[j]).c_str(), m[i][j], want);
    if (i != j && want == 0) eq++; if (i != j && vals[i].t == vals[j].t) sametype++;
    if (has_param(vals[j].t) && vals[j].t != WG_RECORDTYPE && vals[i].t != WG_RECORDTYPE) {
      wg_int q = encp(w.db, vals[j]); CHECK_(q != WG_ILLEGAL, "no query parameter for %s", show(vals[j]).c_str());
      int c = (int)wcmp(w.db, e[i], q), want2 = cmp_val(vals[i], vals[j]);
      CHECK_(c == want2, "compare(%s, parameter %s) = %d, expected %d", show(vals[i]).c_str(), show(vals[j]).c_str(), c, want2);
      wg_free_query_param(w.db, q);
    }
  }
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
    CHECK_(m[i][j] == -m[j][i], "comparison not antisymmetric for %s and %s", show(vals[i]).c_str(), show(vals[j]).c_str());
    for (size_t k = 0; k < n; k++) if (m[i][j] <= 0 && m[j][k] <= 0) CHECK_(m[i][k] <= 0, "comparison not transitive for %s, %s, %s", show(vals[i]).c_str(), show(vals[j]).c_str(), show(vals[k]).c_str());
  }
  if (sametype) nontrivial();
  if (eq) label("equal pair");
}

int main(int argc, char **argv) {
  vector<Property> ps;
  Property p;
  p.id = "C01"; p.run = c01; p.run_enum = c01_enum; p.n_enum = 340; p.quick_cases = 20000; p.thorough_cases = 400000;
  p.rule = "random history of encoding/storing/overwriting/deleting values of all types, plus one enumerated case per text length 0..339 for every string-like type and attached-part shape; non-trivial: at least 3 different value types and an overwrite or delete (enumerated cases always)";
  p.assumptions = {"64-bit build, single process", "values are freed only through field overwrite, record deletion, or wg_free_encoded right after encoding"};
  ps.push_back(p);
  p = Property(); p.id = "C02"; p.run = c02; p.quick_cases = 16000; p.thorough_cases = 300000;
  p.rule = "random history of create (plain and raw), set, delete, scan and invalid calls against a map model; non-trivial: a record is created after a successful delete";
  p.assumptions = {"deleted record pointers are not used again"};
  ps.push_back(p);
  p = Property(); p.id = "C03"; p.run = c03; p.quick_cases = 9000; p.thorough_cases = 150000;
  p.rule = "histories of allocations and frees with an extent disjointness check, and create/delete-all cycles repeated up to 1500 times with constant unallocated space after warm-up; non-trivial: at least 2 deletes, or a cycle workload";
  ps.push_back(p);
  p = Property(); p.id = "C05"; p.run = c05; p.quick_cases = 18000; p.thorough_cases = 150000;
  p.rule = "histories biased to storing equal strings in several fields, overwriting and deleting, on databases with few hash buckets, and store/release cycles with constant unallocated space; non-trivial: at least 2 overwrites and 2 reuses of a value, or a cycle of at least 3 operations";
  ps.push_back(p);
  p = Property(); p.id = "C06"; p.run = c06; p.quick_cases = 16000; p.thorough_cases = 300000;
  p.rule = "histories of links among few records incl. self links, cycles and repeated links; non-trivial: a refused delete and an overwritten link";
  ps.push_back(p);
  p = Property(); p.id = "C11"; p.run = c11; p.quick_cases = 16000; p.thorough_cases = 300000;
  p.rule = "sets of up to 14 values biased to near copies; all pairs compared with a reference order and all triples checked for transitivity; non-trivial: two values of the same type";
  p.assumptions = {"NaN is excluded (unordered)"};
  ps.push_back(p);
  return main_(argc, argv, ps);
}
