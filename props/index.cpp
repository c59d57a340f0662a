// C07 C08 C09 C10: indexes, queries and searches
#include "iworld.h"

static IWorld *mk(wg_int size) {
  watch_errors(); IWorld *w = new IWorld; w->dbsize = size; w->db = wg_attach_local_database(size);
  if (!w->db) discard();
  w->opt.maxlen = 80; w->opt.blob = true;
  w->ncols = (int)src.range(1, 4); w->mode = src.weighted({4, 3, 2, 2, 5}); w->links = src.chance(1, 2); if (src.chance(1, 14)) { static const int bs[] = {124, 125, 126, 127, 60, 9}; w->base = bs[src.draw(6)]; w->links = false; label(w->base > 100 ? "last indexable columns" : "columns behind others"); } w->raw_links = w->links;
  T("columns=%d from %d mode=%d links=%d", w->ncols, w->base, w->mode, (int)w->links);
  return w;
}
static void bad_index(IWorld &w) {
  wg_int rc; wg_int c2[2] = {0, 0}, big[1] = {200}, many[12] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, m[2];
  switch (src.draw(9)) {
    case 8: { wg_int b1 = 128, b2[2] = {128, 0}; bool h = src.chance(1, 2); rc = h ? wg_create_multi_index(w.db, b2, 2, WG_INDEX_TYPE_HASH, NULL, 0) : wg_create_index(w.db, b1, WG_INDEX_TYPE_TTREE, NULL, 0); T("column 128"); break; }
    case 0: rc = wg_create_multi_index(w.db, c2, 2, WG_INDEX_TYPE_HASH, NULL, 0); T("duplicate columns"); break;
    case 1: rc = wg_create_multi_index(w.db, big, 1, WG_INDEX_TYPE_TTREE, NULL, 0); T("column 200"); break;
    case 2: rc = wg_create_multi_index(w.db, many, 12, WG_INDEX_TYPE_HASH, NULL, 0); T("12 columns"); break;
    case 3: rc = wg_create_multi_index(w.db, many, 2, WG_INDEX_TYPE_TTREE, NULL, 0); T("ordered index on 2 columns"); break;
    case 4: m[0] = wg_encode_int(w.db, 1); m[1] = wg_encode_int(w.db, 2); rc = wg_create_index(w.db, 1, WG_INDEX_TYPE_TTREE, m, 2); T("indexed column fixed in the template"); break;
    case 5: rc = wg_create_index(w.db, 0, 77, NULL, 0); T("unknown type"); break;
    case 6: rc = wg_create_multi_index(w.db, many, 0, WG_INDEX_TYPE_HASH, NULL, 0); T("no columns"); break;
    default: m[0] = wg_encode_var(w.db, 0); m[1] = wg_encode_var(w.db, 1); rc = wg_create_index(w.db, 0, WG_INDEX_TYPE_TTREE, m, 2); T("template of wildcards only"); break;
  }
  CHECK_(rc == -1, "an impossible index was created (%ld)", (long)rc);
  wg_int bogus = 12345; CHECK_(wg_drop_index(w.db, bogus) == -1, "dropping a nonexistent index succeeded");
  w.check_catalog("after a refused index");
  label("refused index");
}
static void history(bool hash_only, bool ttree_only) {
  IWorld &w = *mk(8000000);
  int dels = 0, upd = 0, late = 0, checks = 0; unsigned mean = src.chance(1, 4) ? 120 : 40;
  if (src.chance(1, 2)) w.create_index(w.gen_idx(hash_only || (!ttree_only && src.chance(1, 3))));
  for (int n = 0; n < 500 && !w.full && src.more(mean); n++) {
    Span sp;
    switch (w.r.empty() ? src.draw(2) : (u64)src.weighted({6, 2, 10, 6, 2, 1, 2, 1, 1, 1})) {
      case 0: w.create(w.len(), src.chance(1, 5) && w.base < 60); break;
      case 1: w.bulk_create((int)src.range(1, src.chance(1, 3) ? 60 : 20)); break;
      case 2: { int id = w.pick_id(); if (w.r[id].f.empty()) break; int f = w.base ? w.fieldof(w.r[id]) : (int)src.draw(std::min<size_t>(w.r[id].f.size(), w.ncols)); if (w.set(id, f, w.fval())) upd++; break; }
      case 3: if (w.del(w.pick_id())) dels++; break;
      case 4: { auto v = w.ids(); size_t a = src.draw(v.size()), c = src.draw(30); bool back = src.chance(1, 2); for (size_t i = 0; i < c; i++) { size_t k = back ? a - i : a + i; if (k >= v.size()) break; if (w.del(v[k])) dels++; } break; }
      case 5: w.check_catalog("during the history"); break;
      case 6: if (w.idx.size() < 6 && w.create_index(w.gen_idx(hash_only || (!ttree_only && src.chance(1, 3)))) && !w.r.empty()) late++; break;
      case 7: if (!w.idx.empty()) w.drop_index(src.draw(w.idx.size())); break;
      case 8: w.check_indexes("during the history"); checks++; break;
      case 9: bad_index(w); break;
    }
    if (w.full) break;
  }
  w.check_indexes("at the end"); w.check_catalog("at the end"); w.check_all(false, "at the end");
  w.check_parents("at the end");
  // the indexed rows can all be removed again
  if (src.chance(1, 3)) {
    for (auto &k : w.r) for (size_t i = 0; i < k.second.f.size(); i++) if (k.second.f[i].t == WG_RECORDTYPE) { Val v; w.set(k.first, (int)i, v); }
    for (int id : w.ids()) { w.del(id); if (w.r.size() == 3) w.check_indexes("nearly empty"); }
    w.check_indexes("emptied"); label("emptied");
  }
  if (!w.idx.empty() && upd + dels >= 3) nontrivial();
  if (late) label("index over existing rows");
}
static void c07() { history(false, src.chance(3, 4)); }
static void c08() { history(true, false); }

// ---------------------------------------------------------------- C09
struct Cond { int col, cond; Val v; };
static IWorld *table(int maxrows) {
  IWorld *w = mk(8000000);
  int nidx0 = (int)src.draw(3); for (int i = 0; i < nidx0; i++) w->create_index(w->gen_idx(src.chance(1, 6)));
  for (int n = 0; n < 40 && (int)w->r.size() < maxrows && src.more(14); n++) {
    Span sp;
    switch (src.weighted({4, 4, 3, 1})) {
      case 0: w->create(w->len()); break;
      case 1: w->bulk_create((int)src.range(1, src.chance(1, 4) ? 70 : 16)); break;
      case 2: if (!w->r.empty()) { int id = w->pick_id(); if (!w->r[id].f.empty()) w->set(id, w->fieldof(w->r[id]), w->fval()); } break;
      case 3: if (!w->r.empty()) w->del(w->pick_id()); break;
    }
  }
  int nidx1 = (int)src.draw(3); for (int i = 0; i < nidx1; i++) w->create_index(w->gen_idx(false));
  return w;
}
// condition value: mostly something present in the table
static Val qval(IWorld &w, int col) {
  if (!w.r.empty() && src.chance(4, 5)) {
    Val v; MRec &m = w.r[w.pick_id()]; if (col < (int)m.f.size()) v = m.f[col]; else v = w.ival();
    if (v.t == WG_INTTYPE && src.chance(1, 4)) v.i = (i64)((u64)v.i + (u64)src.range(-1, 1));
    if (v.t != WG_BLOBTYPE) return v;
  }
  Val v = w.fval(); if (v.t == WG_BLOBTYPE) v = Val(); return v;
}
static const int CONDS[] = {WG_COND_EQUAL, WG_COND_GTEQUAL, WG_COND_LTEQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_NOT_EQUAL};
static bool sat(IWorld &w, MRec &m, const vector<Cond> &cs) {
  for (auto &c : cs) { if (c.col >= (int)m.f.size()) return false; if (!cond_holds(c.cond, mcmp(w, m.f[c.col], c.v, DEPTH))) return false; }
  return true;
}
static void one_query(IWorld &w, int &interesting) {
  Span sp; void *db = w.db;
  vector<Cond> args, mrec; vector<wg_query_arg> qa; vector<wg_int> pars; string txt;
  auto encq = [&](const Val &v) { wg_int e = v.t == WG_RECORDTYPE ? wg_encode_query_param_record(db, w.r[(int)v.i].p) : encp(db, v); CHECK_(e != WG_ILLEGAL, "no query parameter for %s", show(v).c_str()); if (v.t != WG_RECORDTYPE) pars.push_back(e); return e; };
  int na = src.weighted({1, 5, 5, 2, 1});
  for (int i = 0; i < na; i++) {
    Cond c; c.col = !args.empty() && src.chance(1, 2) ? args.back().col : w.col(src.chance(1, 8) ? 3 : 0);
    c.cond = CONDS[src.weighted({4, 3, 3, 3, 3, 2})]; c.v = args.size() && args.back().col == c.col && src.chance(1, 3) ? args.back().v : qval(w, c.col);
    args.push_back(c); qa.push_back({c.col, c.cond, encq(c.v)}); txt += " [" + std::to_string(c.col) + "]" + cname(c.cond) + show(c.v);
  }
  // make the query eligible for some template index now and then
  if (!w.idx.empty() && src.chance(1, 4)) { MIdx &x = w.idx[src.draw(w.idx.size())]; for (auto &k : x.tmpl) { args.push_back({k.first, WG_COND_EQUAL, k.second}); qa.push_back({k.first, WG_COND_EQUAL, encq(k.second)}); txt += " [" + std::to_string(k.first) + "]=" + show(k.second); } }
  vector<wg_int> ma; void *mr = NULL; wg_int mlen = 0; bool recmatch = false;
  if (src.chance(1, 4)) {
    int L = w.base + (int)src.range(1, w.ncols); bool any = false;
    for (int i = 0; i < L; i++) { if (i >= w.base && src.chance(1, 2)) { Cond c{i, WG_COND_EQUAL, qval(w, i)}; if (c.v.t == WG_VARTYPE) { ma.push_back(wg_encode_var(db, 1)); continue; } mrec.push_back(c); ma.push_back(encq(c.v)); any = true; txt += " match[" + std::to_string(i) + "]=" + show(c.v); } else ma.push_back(wg_encode_var(db, i)); }
    mr = ma.data(); mlen = L; (void)any; label("match record");
  } else if (!w.r.empty() && src.chance(1, 10)) {
    int id = w.pick_id(); MRec &m = w.r[id];
    if (!m.f.empty()) { mr = m.p; mlen = 0; recmatch = true; for (size_t i = 0; i < m.f.size(); i++) if (m.f[i].t != WG_VARTYPE) mrec.push_back({(int)i, WG_COND_EQUAL, m.f[i]}); txt += " match=rec#" + std::to_string(id); label("database record as match record"); }
  }
  vector<Cond> all = args; all.insert(all.end(), mrec.begin(), mrec.end());
  wg_uint limit = src.chance(1, 5) ? (wg_uint)src.range(1, 8) : 0; if (limit && src.chance(1, 4)) limit = (wg_uint)src.range(60, 130);
  bool rc = limit || src.chance(1, 2);
  if (!qa.empty() && src.chance(1, 40)) {   // an argument list with an argument that means nothing is refused
    auto bad = qa; auto &b = bad[src.draw(bad.size())];
    if (src.chance(1, 2)) b.column = -1 - (wg_int)src.draw(100); else b.cond = src.chance(1, 2) ? 0 : (wg_int)src.range(33, 5000);
    T("query with column %ld condition %ld", (long)b.column, (long)b.cond);
    CHECK_(wg_make_query(db, mr, mlen, bad.data(), bad.size()) == NULL, "query with column %ld, condition %ld accepted", (long)b.column, (long)b.cond); label("bad query argument");
  }
  T("query%s limit %lu", txt.c_str(), (unsigned long)limit);
  wg_query *q = rc ? wg_make_query_rc(db, mr, mlen, qa.empty() ? NULL : qa.data(), qa.size(), limit) : wg_make_query(db, mr, mlen, qa.empty() ? NULL : qa.data(), qa.size());
  CHECK_(q, "query%s failed", txt.c_str());
  size_t want = 0; for (auto &k : w.r) if (sat(w, k.second, all)) want++;
  std::set<void *> got; void *p; wg_int col = q->column; const Val *prev = nullptr;
  while ((p = wg_fetch(db, q))) {
    auto it = w.by_ptr.find(p);
    CHECK_(it != w.by_ptr.end(), "query%s returned something that is not a live record", txt.c_str());
    CHECK_(got.insert(p).second, "query%s returned rec#%d twice", txt.c_str(), it->second);
    MRec &m = w.r[it->second];
    CHECK_(sat(w, m, all), "query%s returned rec#%d which does not satisfy it", txt.c_str(), it->second);
    if (col >= 0 && col < (wg_int)m.f.size()) { const Val *v = &m.f[col]; if (prev) CHECK_(mcmp(w, *prev, *v, DEPTH) <= 0, "query%s over the index of column %ld returned rows out of order", txt.c_str(), (long)col); prev = v; }
  }
  size_t exp = limit ? std::min<size_t>(limit, want) : want;
  CHECK_(got.size() == exp, "query%s limit %lu returned %zu rows, %zu match", txt.c_str(), (unsigned long)limit, got.size(), want);
  CHECK_(q->res_count == got.size(), "query%s reports %lu rows and delivers %zu", txt.c_str(), (unsigned long)q->res_count, got.size());
  CHECK_(wg_fetch(db, q) == NULL, "query%s delivers rows after its end", txt.c_str());
  if (col >= 0) label("index used");
  if (got.size() > 63) label("more than a page of rows");
  if (got.size() && got.size() < w.r.size()) interesting++;
  wg_free_query(db, q);
  for (wg_int e : pars) wg_free_query_param(db, e);
}
static void c09() {
  IWorld &w = *table(240); int in = 0;
  if (w.full) discard();
  int nq = 3 + (int)src.draw(10);
  for (int i = 0; i < nq; i++) {
    one_query(w, in);
    if (!w.r.empty() && src.chance(1, 3)) { Span sp; int id = w.pick_id(); if (src.chance(1, 3)) w.del(id); else if (!w.r[id].f.empty()) w.set(id, w.fieldof(w.r[id]), w.fval()); }
  }
  if (in >= 2) nontrivial();
}

// ---------------------------------------------------------------- C10
static void c10() {
  IWorld &w = *table(60); void *db = w.db; int in = 0; if (w.full) discard();
  int nq = 3 + (int)src.draw(8);
  for (int k = 0; k < nq; k++) {
    Span sp; int col = w.col(1), cond = CONDS[src.draw(6)]; Val v = qval(w, col);
    int form = (int)src.draw(3);
    if (v.t == WG_STRTYPE && v.hx && form == 1) { v.hx = false; v.x = ""; }
    if (form == 1 && v.t == WG_INTTYPE && (v.i > INT32_MAX || v.i < INT32_MIN)) form = 0;
    T("find column %d %s %s, form %d", col, cname(cond), show(v).c_str(), form);
    wg_int par = 0; bool havepar = false;
    if (form != 1) { if (v.t == WG_RECORDTYPE) par = wg_encode_record(db, w.r[(int)v.i].p); else { par = encp(db, v); havepar = true; } CHECK_(par != WG_ILLEGAL, "no parameter for %s", show(v).c_str()); }
    auto next = [&](void *last) -> void * {
      if (form != 1) return wg_find_record(db, col, cond, par, last);
      switch (v.t) {
        case WG_NULLTYPE: return wg_find_record_null(db, col, cond, NULL, last);
        case WG_RECORDTYPE: return wg_find_record_record(db, col, cond, w.r[(int)v.i].p, last);
        case WG_CHARTYPE: return wg_find_record_char(db, col, cond, (char)v.i, last);
        case WG_FIXPOINTTYPE: return wg_find_record_fixpoint(db, col, cond, v.i / 10000.0, last);
        case WG_DATETYPE: return wg_find_record_date(db, col, cond, (int)v.i, last);
        case WG_TIMETYPE: return wg_find_record_time(db, col, cond, (int)v.i, last);
        case WG_VARTYPE: return wg_find_record_var(db, col, cond, v.i, last);
        case WG_INTTYPE: return wg_find_record_int(db, col, cond, (int)v.i, last);
        case WG_DOUBLETYPE: return wg_find_record_double(db, col, cond, v.d, last);
        case WG_STRTYPE: return wg_find_record_str(db, col, cond, v.s.c_str(), last);
        case WG_XMLLITERALTYPE: return wg_find_record_xmlliteral(db, col, cond, v.s.c_str(), v.x.c_str(), last);
        case WG_URITYPE: return wg_find_record_uri(db, col, cond, v.s.c_str(), v.hx ? v.x.c_str() : NULL, last);
      }
      return NULL;
    };
    std::set<void *> got; void *last = NULL, *p; size_t want = 0; vector<Cond> cs{{col, cond, v}};
    while ((p = next(last))) {
      auto it = w.by_ptr.find(p);
      CHECK_(it != w.by_ptr.end(), "search returned something that is not a live record");
      CHECK_(got.insert(p).second, "search returned rec#%d twice", it->second);
      CHECK_(sat(w, w.r[it->second], cs), "search returned rec#%d which does not satisfy the condition", it->second);
      last = p;
    }
    for (auto &m : w.r) if (sat(w, m.second, cs)) want++;
    CHECK_(got.size() == want, "search for column %d %s %s found %zu of %zu records", col, cname(cond), show(v).c_str(), got.size(), want);
    if (want && want < w.r.size()) in++;
    if (havepar) wg_free_query_param(db, par);
    bool ix = false; for (auto &x : w.idx) if (x.type == WG_INDEX_TYPE_TTREE && x.cols[0] == col && x.tmpl.empty()) ix = true;
    if (ix && cond != WG_COND_NOT_EQUAL) label("through an index");
    label(tname(v.t));
  }
  if (in >= 2) nontrivial();
}

int main(int argc, char **argv) {
  vector<Property> ps; Property p;
  p.id = "C07"; p.run = c07; p.quick_cases = 24000; p.thorough_cases = 250000;
  p.rule = "history of record and index operations (duplicates, ascending/descending/bulk inserts and deletes, mixed types, links, raw records, templates); every index compared with the model table; non-trivial: an index exists at the end and at least 3 updates or deletes happened";
  p.assumptions = {"NaN is excluded (unordered)", "an index on a database with external references is not supported"};
  ps.push_back(p);
  p = Property(); p.id = "C08"; p.run = c08; p.quick_cases = 24000; p.thorough_cases = 250000;
  p.rule = "as C07 with single and multi column hash indexes; every key occurring in the table and some absent ones are looked up; non-trivial: an index exists and at least 3 updates or deletes happened";
  p.assumptions = {"record links are keyed by identity in hash indexes"};
  ps.push_back(p);
  p = Property(); p.id = "C09"; p.run = c09; p.quick_cases = 36000; p.thorough_cases = 300000;
  p.rule = "random tables and index configurations, several random queries each (repeated and contradictory conditions, match records, row limits), compared with a scan of the model; non-trivial: at least 2 queries select some but not all rows";
  ps.push_back(p);
  p = Property(); p.id = "C10"; p.run = c10; p.quick_cases = 40000; p.thorough_cases = 300000;
  p.rule = "random tables and index configurations, exhaustive enumeration through wg_find_record and its typed forms; non-trivial: at least 2 searches select some but not all rows";
  ps.push_back(p);
  return main_(argc, argv, ps);
}
