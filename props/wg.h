// Value model shared by the property harnesses.
#pragma once
#include "../engine/pbt.h"
#include <cmath>
#include <climits>
#include <memory>
extern "C" {
#include "dbapi.h"
#include "indexapi.h"
int wg_set_error_callback(void *errcallback);
wg_int wg_compare(void *db, wg_int a, wg_int b, int depth);
}
using namespace pbt;
using std::string; using std::vector; using std::map; using std::set; using std::pair;

enum { DEPTH = 7 };

struct Val {
  int t = WG_NULLTYPE;
  i64 i = 0;            // int, char, date, time, var, fixpoint*10000; record: model id
  double d = 0;
  string s;             // main text / blob bytes
  bool hx = false;      // attached part present
  string x;
};

static inline const char *tname(int t) {
  static const char *n[] = {"?", "null", "record", "int", "double", "str", "xml", "uri", "blob", "char", "fixpoint", "date", "time", "anon", "var"};
  return t >= 0 && t <= 14 ? n[t] : "illegal";
}
static inline string show(const Val &v) {
  char b[80];
  switch (v.t) {
    case WG_NULLTYPE: return "null";
    case WG_RECORDTYPE: snprintf(b, 80, "rec#%lld", (long long)v.i); return b;
    case WG_DOUBLETYPE: snprintf(b, 80, "double %.17g", v.d); return b;
    case WG_STRTYPE: case WG_XMLLITERALTYPE: case WG_URITYPE: case WG_BLOBTYPE:
      return string(tname(v.t)) + "(" + std::to_string(v.s.size()) + ")" + quote(v.s, 40) + (v.hx ? " extra " + quote(v.x, 40) : "");
    default: snprintf(b, 80, "%s %lld", tname(v.t), (long long)v.i); return b;
  }
}

static const i64 MAXDATE_ = 128LL * 255 * 255, MAXTIME_ = 24LL * 60 * 60 * 100;

static inline i64 gen_int() {
  switch (src.weighted({6, 4, 3, 3, 2})) {
    case 0: return src.range(0, 12) - 3;
    case 1: return src.range(-1000, 1000);
    case 2: { int sh = (int)src.range(0, 63); i64 v = (i64)((u64)1 << sh); v += src.range(-2, 2); return src.chance(1, 2) ? (i64)(0 - (u64)v) : v; }
    case 3: return (i64)src.draw(UINT64_MAX);
    default: { static const i64 k[] = {0, INT32_MAX, INT32_MIN, (i64)INT32_MAX + 1, (i64)INT32_MIN - 1, INT64_MAX, INT64_MIN, (1LL << 60) - 1, 1LL << 60, -(1LL << 60), -(1LL << 60) - 1, 1LL << 32, -(1LL << 32)}; return k[src.draw(13)]; }
  }
}
static inline double gen_double(bool nan_ok = false) {
  switch (src.weighted({5, 3, 3, 3})) {
    case 0: return (double)src.range(-8, 8) / (double)(1 << src.range(0, 3));
    case 1: return (double)src.range(-1000000000000LL, 1000000000000LL) / 1000.0;
    case 2: { static const double k[] = {0.0, -0.0, 1e308, -1e308, 5e-324, 2.2250738585072014e-308, INFINITY, -INFINITY, 0.1, 1e71, 123456.789, 1e-10}; return k[src.draw(12)]; }
    default: { u64 b = src.draw(UINT64_MAX); double d; memcpy(&d, &b, 8); if (!nan_ok && std::isnan(d)) return 1.5; return d; }
  }
}
// length biased to the storage boundaries
static inline size_t gen_len(size_t max) {
  size_t l;
  switch (src.weighted({5, 5, 3, 2, 1})) {
    case 0: l = src.range(0, 8); break;
    case 1: l = src.range(24, 40); break;
    case 2: l = src.range(0, 120); break;
    case 3: l = src.range(200, 320); break;
    default: l = src.range(0, 3000); break;
  }
  return std::min(l, max);
}
static inline string gen_bytes(size_t len, bool zero_ok) {
  string s(len, 'a');
  int mode = src.weighted({4, 3, 2});
  if (mode == 0) { if (len) { u64 r = src.draw(26 * 26); s[0] = 'a' + r % 26; s[len - 1] = 'a' + r / 26; } }
  else {
    // one choice fills a whole string from a small generator so that shrinking stays cheap
    u64 r = src.draw(1ULL << 32);
    for (size_t k = 0; k < len; k++) {
      r = r * 6364136223846793005ULL + 1442695040888963407ULL;
      unsigned char c = (unsigned char)(r >> 33);
      if (mode == 1) c = 32 + c % 95;
      if (!c && !zero_ok) c = 1;
      s[k] = (char)c;
    }
  }
  return s;
}
static inline string gen_text(size_t max = 4000) { return gen_bytes(gen_len(max), false); }

// pool: strings already used in this case, so that sharing really happens
struct Pool {
  vector<string> s;
  string text(size_t max = 4000) {
    if (!s.empty() && src.chance(2, 5)) { string t = s[src.draw(s.size())]; if (t.size() <= max) return t; }
    string t = gen_text(max); s.push_back(t); return t;
  }
};

struct GenOpt { bool rec = false; bool blob = true; bool var = true; bool nan = false; size_t maxlen = 4000; };

static inline Val gen_val(Pool &pool, const GenOpt &o = GenOpt()) {
  Val v;
  static const int T[] = {WG_INTTYPE, WG_STRTYPE, WG_NULLTYPE, WG_DOUBLETYPE, WG_FIXPOINTTYPE, WG_DATETYPE, WG_TIMETYPE, WG_CHARTYPE, WG_XMLLITERALTYPE, WG_URITYPE, WG_BLOBTYPE, WG_VARTYPE};
  v.t = T[src.weighted({6, 8, 2, 4, 2, 2, 2, 2, 3, 3, o.blob ? 3 : 0, o.var ? 1 : 0})];
  switch (v.t) {
    case WG_INTTYPE: v.i = gen_int(); break;
    case WG_DOUBLETYPE: v.d = gen_double(o.nan); break;
    case WG_FIXPOINTTYPE: v.i = src.chance(1, 5) ? (src.chance(1, 2) ? 8000000 : -8000000) : src.range(-8000000, 8000000); break;
    case WG_DATETYPE: v.i = src.weighted({5, 1, 1}) ? (src.chance(1, 2) ? MAXDATE_ : -MAXDATE_) : src.range(0, 2 * MAXDATE_) - MAXDATE_; break;
    case WG_TIMETYPE: v.i = src.chance(1, 6) ? MAXTIME_ : src.range(0, MAXTIME_); break;
    case WG_CHARTYPE: v.i = (signed char)src.range(0, 255); break;
    case WG_VARTYPE: v.i = src.weighted({3, 1}) ? src.range(0, (1LL << 59) - 1) : src.range(0, 1000); break;
    case WG_STRTYPE: v.s = pool.text(o.maxlen); if (src.chance(1, 4)) { v.hx = true; v.x = src.chance(1, 4) ? pool.text(o.maxlen) : string(src.chance(1, 2) ? "en" : "et"); } break;
    case WG_XMLLITERALTYPE: v.s = pool.text(o.maxlen); v.hx = true; v.x = src.chance(1, 3) ? pool.text(o.maxlen) : string("xsd:t"); break;
    case WG_URITYPE: v.s = pool.text(o.maxlen); if (src.chance(1, 2)) { v.hx = true; v.x = src.chance(1, 3) ? pool.text(o.maxlen) : string("http://x/"); } break;
    case WG_BLOBTYPE: v.s = src.chance(1, 4) ? pool.text(o.maxlen) : gen_bytes(gen_len(o.maxlen), true); if (v.s.empty()) v.s = "z"; v.hx = true; v.x = src.chance(1, 3) ? pool.text(o.maxlen) : string("png"); break;
  }
  return v;
}

static inline wg_int enc(void *db, const Val &v) {
  switch (v.t) {
    case WG_NULLTYPE: return wg_encode_null(db, 0);
    case WG_INTTYPE: return wg_encode_int(db, v.i);
    case WG_DOUBLETYPE: return wg_encode_double(db, v.d);
    case WG_FIXPOINTTYPE: return wg_encode_fixpoint(db, v.i / 10000.0);
    case WG_DATETYPE: return wg_encode_date(db, (int)v.i);
    case WG_TIMETYPE: return wg_encode_time(db, (int)v.i);
    case WG_CHARTYPE: return wg_encode_char(db, (char)v.i);
    case WG_VARTYPE: return wg_encode_var(db, v.i);
    case WG_STRTYPE: return wg_encode_str(db, v.s.c_str(), v.hx ? v.x.c_str() : NULL);
    case WG_XMLLITERALTYPE: return wg_encode_xmlliteral(db, v.s.c_str(), v.x.c_str());
    case WG_URITYPE: return wg_encode_uri(db, v.s.c_str(), v.hx ? v.x.c_str() : NULL);
    case WG_BLOBTYPE: return wg_encode_blob(db, v.s.data(), v.hx ? v.x.c_str() : NULL, (wg_int)v.s.size());
  }
  return WG_ILLEGAL;
}
// query parameter form (types that have one)
static inline bool has_param(int t) { return t != WG_BLOBTYPE; }
static inline wg_int encp(void *db, const Val &v) {
  switch (v.t) {
    case WG_NULLTYPE: return wg_encode_query_param_null(db, NULL);
    case WG_INTTYPE: return wg_encode_query_param_int(db, v.i);
    case WG_DOUBLETYPE: return wg_encode_query_param_double(db, v.d);
    case WG_FIXPOINTTYPE: return wg_encode_query_param_fixpoint(db, v.i / 10000.0);
    case WG_DATETYPE: return wg_encode_query_param_date(db, (int)v.i);
    case WG_TIMETYPE: return wg_encode_query_param_time(db, (int)v.i);
    case WG_CHARTYPE: return wg_encode_query_param_char(db, (char)v.i);
    case WG_VARTYPE: return wg_encode_query_param_var(db, v.i);
    case WG_STRTYPE: return wg_encode_query_param_str(db, v.s.c_str(), v.hx ? (char *)v.x.c_str() : NULL);
    case WG_XMLLITERALTYPE: return wg_encode_query_param_xmlliteral(db, v.s.c_str(), v.x.c_str());
    case WG_URITYPE: return wg_encode_query_param_uri(db, v.s.c_str(), v.hx ? v.x.c_str() : NULL);
  }
  return WG_ILLEGAL;
}

// Reads the stored value back into the model form using the pointer decoders.
static inline Val dec(void *db, wg_int e) {
  Val v; v.t = (int)wg_get_encoded_type(db, e);
  const char *p;
  switch (v.t) {
    case WG_INTTYPE: v.i = wg_decode_int(db, e); break;
    case WG_DOUBLETYPE: v.d = wg_decode_double(db, e); break;
    case WG_FIXPOINTTYPE: v.i = llround(wg_decode_fixpoint(db, e) * 10000.0); break;
    case WG_DATETYPE: v.i = wg_decode_date(db, e); break;
    case WG_TIMETYPE: v.i = wg_decode_time(db, e); break;
    case WG_CHARTYPE: v.i = (signed char)wg_decode_char(db, e); break;
    case WG_VARTYPE: v.i = wg_decode_var(db, e); break;
    case WG_STRTYPE: v.s.assign(wg_decode_str(db, e)); p = wg_decode_str_lang(db, e); if (p) { v.hx = true; v.x = p; } break;
    case WG_XMLLITERALTYPE: v.s.assign(wg_decode_xmlliteral(db, e)); p = wg_decode_xmlliteral_xsdtype(db, e); if (p) { v.hx = true; v.x = p; } break;
    case WG_URITYPE: v.s.assign(wg_decode_uri(db, e)); p = wg_decode_uri_prefix(db, e); if (p) { v.hx = true; v.x = p; } break;
    case WG_BLOBTYPE: v.s.assign(wg_decode_blob(db, e), wg_decode_blob_len(db, e)); p = wg_decode_blob_type(db, e); if (p) { v.hx = true; v.x = p; } break;
    default: break;
  }
  return v;
}
static inline bool same_val(const Val &a, const Val &b) {
  if (a.t != b.t) return false;
  switch (a.t) {
    case WG_NULLTYPE: return true;
    case WG_DOUBLETYPE: return memcmp(&a.d, &b.d, 8) == 0;
    case WG_STRTYPE: case WG_XMLLITERALTYPE: case WG_URITYPE: case WG_BLOBTYPE: return a.s == b.s && a.hx == b.hx && a.x == b.x;
    default: return a.i == b.i;
  }
}
static inline bool is_strlike(int t) { return t == WG_STRTYPE || t == WG_XMLLITERALTYPE || t == WG_URITYPE || t == WG_BLOBTYPE; }

// Checks a stored encoded value against the model through every decoder.
// Lengths of copies, small buffers included when deep is set.
static inline void check_val(void *db, wg_int e, const Val &v, const char *where, bool deep) {
  int t = (int)wg_get_encoded_type(db, e);
  CHECK_(t == v.t, "%s: type of %s reads as %s", where, show(v).c_str(), tname(t));
  Val r = dec(db, e);
  CHECK_(same_val(r, v), "%s: stored %s but reads back %s", where, show(v).c_str(), show(r).c_str());
  if (!deep || !is_strlike(t)) return;
  wg_int len, xl = 0, n; vector<char> b(v.s.size() + 40, 'Q'), xb(v.x.size() + 40, 'Q');
  auto C = [&](char *buf, wg_int bl) -> wg_int { switch (t) { case WG_STRTYPE: return wg_decode_str_copy(db, e, buf, bl); case WG_XMLLITERALTYPE: return wg_decode_xmlliteral_copy(db, e, buf, bl); case WG_URITYPE: return wg_decode_uri_copy(db, e, buf, bl); default: return wg_decode_blob_copy(db, e, buf, bl); } };
  auto X = [&](char *buf, wg_int bl) -> wg_int { switch (t) { case WG_STRTYPE: return wg_decode_str_lang_copy(db, e, buf, bl); case WG_XMLLITERALTYPE: return wg_decode_xmlliteral_xsdtype_copy(db, e, buf, bl); case WG_URITYPE: return wg_decode_uri_prefix_copy(db, e, buf, bl); default: return wg_decode_blob_type_copy(db, e, buf, bl); } };
  switch (t) {
    case WG_STRTYPE: len = wg_decode_str_len(db, e); xl = wg_decode_str_lang_len(db, e); break;
    case WG_XMLLITERALTYPE: len = wg_decode_xmlliteral_len(db, e); xl = wg_decode_xmlliteral_xsdtype_len(db, e); break;
    case WG_URITYPE: len = wg_decode_uri_len(db, e); xl = wg_decode_uri_prefix_len(db, e); break;
    default: len = wg_decode_blob_len(db, e); xl = wg_decode_blob_type_len(db, e); break;
  }
  CHECK_(len == (wg_int)v.s.size(), "%s: length of %s reported as %ld", where, show(v).c_str(), (long)len);
  CHECK_(xl == (wg_int)v.x.size(), "%s: attached length of %s reported as %ld", where, show(v).c_str(), (long)xl);
  wg_int need = (wg_int)v.s.size() + (t == WG_BLOBTYPE ? 0 : 1);
  n = C(b.data(), need);
  CHECK_(n == (wg_int)v.s.size(), "%s: copy of %s into exact buffer returned %ld", where, show(v).c_str(), (long)n);
  CHECK_(!memcmp(b.data(), v.s.c_str(), need), "%s: copy of %s differs", where, show(v).c_str());
  for (size_t k = need; k < b.size(); k++) CHECK_(b[k] == 'Q', "%s: copy of %s wrote past the buffer", where, show(v).c_str());
  if (need > 1) {
    std::fill(b.begin(), b.end(), 'Q');
    n = C(b.data(), need - 1);
    CHECK_(n < 0, "%s: copy of %s into a buffer one byte short returned %ld", where, show(v).c_str(), (long)n);
    for (size_t k = need - 1; k < b.size(); k++) CHECK_(b[k] == 'Q', "%s: refused copy of %s wrote past the buffer", where, show(v).c_str());
  }
  n = X(xb.data(), (wg_int)v.x.size() + 1);
  CHECK_(n == (wg_int)v.x.size() && !memcmp(xb.data(), v.x.c_str(), v.x.size() + 1), "%s: attached part of %s copied wrongly (%ld)", where, show(v).c_str(), (long)n);
  for (size_t k = v.x.size() + 1; k < xb.size(); k++) CHECK_(xb[k] == 'Q', "%s: attached copy of %s wrote past the buffer", where, show(v).c_str());
  if (v.x.size()) {
    std::fill(xb.begin(), xb.end(), 'Q');
    n = X(xb.data(), (wg_int)v.x.size());
    CHECK_(n < 0, "%s: attached copy of %s into a short buffer returned %ld", where, show(v).c_str(), (long)n);
    for (size_t k = v.x.size(); k < xb.size(); k++) CHECK_(xb[k] == 'Q', "%s: refused attached copy wrote past the buffer", where);
  }
}

// Reference order, written from the documentation of comparison: type codes
// first, then natural order. Record links need the table and are handled by callers.
static inline int sgn(i64 x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static inline int cmp_bytes(const string &a, const string &b) {
  int r = memcmp(a.data(), b.data(), std::min(a.size(), b.size()));
  if (r) return r > 0 ? 1 : -1;
  return sgn((i64)a.size() - (i64)b.size());
}
static inline int cmp_val(const Val &a, const Val &b) {
  if (a.t != b.t) return a.t > b.t ? 1 : -1;
  switch (a.t) {
    case WG_NULLTYPE: return 0;
    case WG_DOUBLETYPE: return a.d == b.d ? 0 : a.d > b.d ? 1 : -1;
    case WG_STRTYPE: case WG_BLOBTYPE: return cmp_bytes(a.s, b.s);
    case WG_XMLLITERALTYPE: case WG_URITYPE: { int r = cmp_bytes(a.hx ? a.x : "", b.hx ? b.x : ""); return r ? r : cmp_bytes(a.s, b.s); }
    case WG_CHARTYPE: return sgn((i64)(unsigned char)a.i - (i64)(unsigned char)b.i);
    default: return a.i == b.i ? 0 : a.i > b.i ? 1 : -1;
  }
}
static inline wg_int wcmp(void *db, wg_int a, wg_int b) { return a == b ? 0 : wg_compare(db, a, b, DEPTH); }
static inline bool cond_holds(int cond, int c) {
  switch (cond) {
    case WG_COND_EQUAL: return c == 0; case WG_COND_NOT_EQUAL: return c != 0;
    case WG_COND_LESSTHAN: return c < 0; case WG_COND_GREATER: return c > 0;
    case WG_COND_LTEQUAL: return c <= 0; case WG_COND_GTEQUAL: return c >= 0;
  }
  return false;
}
static inline const char *cname(int c) { switch (c) { case 1: return "="; case 2: return "!="; case 4: return "<"; case 8: return ">"; case 16: return "<="; case 32: return ">="; } return "?"; }

// The library reports damage it finds in its own structures through the
// error callback; in a correct history that never happens.
static inline void on_library_error(wg_int, const char *msg) { if (msg && strstr(msg, "consistency error")) fail("the library reports %s", msg); }
static inline void watch_errors() { static bool on; if (!on) { on = true; wg_set_error_callback((void *)on_library_error); } }

struct LocalDb {
  void *db;
  LocalDb(wg_int size) { db = wg_attach_local_database(size); if (!db) { fprintf(stderr, "no local db\n"); discard(); } }
  ~LocalDb() { if (db) wg_delete_local_database(db); }
  operator void *() const { return db; }
};
