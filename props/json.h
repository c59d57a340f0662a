// JSON model: values, rendering, strict parsing, access to stored documents.
#pragma once
#include "wg.h"
extern "C" {
wg_int wg_parse_json_param(void *db, const char *buf, void **document);
void wg_print_json_document(void *db, void *cb, void *cb_ctx, void *document);
wg_int wg_delete_document(void *db, void *document);
void *wg_create_array(void *db, wg_int size, wg_int isdocument, wg_int isparam);
typedef struct { wg_int key, value; } json_arg;
wg_query *wg_make_json_query(void *db, json_arg *args, wg_int argc);
}

struct J {
  enum K { OBJ, ARR, STR, INT, DBL, LIT } k = ARR;
  string s; i64 i = 0; double d = 0; bool odd = false;   // odd: content the library does not keep (literals, \u0000, lone surrogates)
  vector<pair<string, J>> m;
  bool cont() const { return k == OBJ || k == ARR; }
};
static inline bool jeq(const J &a, const J &b) {
  if (a.k != b.k) return false;
  switch (a.k) {
    case J::STR: return a.s == b.s;
    case J::INT: return a.i == b.i;
    case J::DBL: return a.d == b.d;
    case J::LIT: return a.s == b.s;
    default: break;
  }
  if (a.m.size() != b.m.size()) return false;
  for (size_t n = 0; n < a.m.size(); n++) if (a.m[n].first != b.m[n].first || !jeq(a.m[n].second, b.m[n].second)) return false;
  return true;
}
static inline int jdepth(const J &j) { if (!j.cont()) return 0; int d = 0; for (auto &e : j.m) d = std::max(d, jdepth(e.second)); return d + 1; }
static inline size_t jrecs(const J &j) { if (!j.cont()) return 0; size_t n = 1; for (auto &e : j.m) n += jrecs(e.second) + (j.k == J::OBJ); return n; }
static inline bool jodd(const J &j) { if (j.odd || j.k == J::LIT) return true; for (auto &e : j.m) if (jodd(e.second)) return true; return false; }
static inline bool jempty(const J &j) { if (!j.cont()) return false; if (j.m.empty()) return true; for (auto &e : j.m) if (jempty(e.second)) return true; return false; }

// ---- strict parser: RFC 8259 plus comments and the lexer's white space
struct JP {
  const string &t; size_t p = 0; bool ok = true; int maxd = 0; string err;
  explicit JP(const string &x) : t(x) {}
  bool bad(const char *e) { if (ok) { ok = false; err = e; } return false; }
  bool ws() {
    for (;;) {
      if (p >= t.size()) return true;
      char c = t[p];
      if (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f') { p++; continue; }
      if (c == '/') {
        if (p + 1 >= t.size()) return bad("lone slash");
        if (t[p + 1] == '/') { size_t e = t.find('\n', p); p = e == string::npos ? t.size() : e + 1; continue; }
        if (t[p + 1] == '*') { size_t e = t.find("*/", p + 2); if (e == string::npos) return bad("unterminated comment"); p = e + 2; continue; }
        return bad("lone slash");
      }
      return true;
    }
  }
  static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  static void utf8(string &o, unsigned c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  }
  bool u4(unsigned &v) { v = 0; for (int k = 0; k < 4; k++) { if (p >= t.size()) return bad("short escape"); int h = hexv(t[p++]); if (h < 0) return bad("bad hex digit"); v = v * 16 + h; } return true; }
  bool str(string &o, bool &odd) {
    p++;
    for (;;) {
      if (p >= t.size()) return bad("unterminated string");
      unsigned char c = t[p++];
      if (c == '"') return true;
      if (c < 0x20) return bad("control character in string");
      if (c == '\\') {
        if (p >= t.size()) return bad("unterminated escape");
        char e = t[p++];
        switch (e) {
          case '"': case '\\': case '/': o += e; break;
          case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
          case 'u': {
            unsigned v, w; if (!u4(v)) return false;
            if (v == 0) odd = true;
            if (v >= 0xd800 && v < 0xdc00) {
              if (p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') { size_t q = p; p += 2; if (!u4(w)) return false; if (w >= 0xdc00 && w < 0xe000) { v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); } else { p = q; v = (unsigned)63; } }
              else v = (unsigned)63;
            } else if (v >= 0xdc00 && v < 0xe000) odd = true;
            utf8(o, v); break;
          }
          default: return bad("bad escape");
        }
      } else if (c < 0x80) o += (char)c;
      else {
        int n = c >> 5 == 6 ? 1 : c >> 4 == 14 ? 2 : c >> 3 == 30 ? 3 : -1;
        if (n < 0) return bad("bad UTF-8");
        o += (char)c;
        while (n--) { if (p >= t.size() || ((unsigned char)t[p] >> 6) != 2) return bad("bad UTF-8"); o += t[p++]; }
      }
    }
  }
  bool dig() { return p < t.size() && t[p] >= '0' && t[p] <= '9'; }
  bool num(J &j) {
    size_t b = p; bool fl = false;
    if (t[p] == '-') p++;
    if (!dig()) return bad("digit expected");
    if (t[p] == '0') p++; else while (dig()) p++;
    if (p < t.size() && t[p] == '.') { fl = true; p++; if (!dig()) return bad("digit expected after point"); while (dig()) p++; }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { fl = true; p++; if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++; if (!dig()) return bad("digit expected in exponent"); while (dig()) p++; }
    string n = t.substr(b, p - b);
    if (fl) { j.k = J::DBL; j.d = strtod(n.c_str(), NULL); if (std::isinf(j.d)) return bad("number out of range"); }
    else {
      j.k = J::INT; size_t q = n[0] == '-' ? 1 : 0; unsigned __int128 v = 0;
      for (; q < n.size(); q++) { v = v * 10 + (n[q] - '0'); if (v > (unsigned __int128)INT64_MAX) return bad("number out of range"); }
      j.i = n[0] == '-' ? -(i64)v : (i64)v;
    }
    return true;
  }
  bool value(J &j, int d) {
    if (!ws()) return false;
    if (p >= t.size()) return bad("value expected");
    char c = t[p];
    if (c == '{' || c == '[') {
      bool obj = c == '{'; char close = obj ? '}' : ']';
      j.k = obj ? J::OBJ : J::ARR; maxd = std::max(maxd, d + 1); p++;
      if (d > 200) return bad("too deep");
      if (!ws()) return false;
      if (p < t.size() && t[p] == close) { p++; return true; }
      for (;;) {
        pair<string, J> e;
        if (obj) {
          if (!ws()) return false;
          if (p >= t.size() || t[p] != '"') return bad("key expected");
          bool odd = false; if (!str(e.first, odd)) return false;
          e.second.odd = odd;
          if (!ws()) return false;
          if (p >= t.size() || t[p] != ':') return bad("colon expected"); p++;
        }
        if (!value(e.second, d + 1)) return false;
        j.m.push_back(e);
        if (!ws()) return false;
        if (p >= t.size()) return bad("unterminated container");
        if (t[p] == ',') { p++; continue; }
        if (t[p] == close) { p++; return true; }
        return bad("comma expected");
      }
    }
    if (c == '"') { j.k = J::STR; bool odd = false; if (!str(j.s, odd)) return false; if (odd) j.odd = true; return true; }
    if (c == '-' || (c >= '0' && c <= '9')) return num(j);
    for (const char *w : {"true", "false", "null"}) if (!t.compare(p, strlen(w), w)) { p += strlen(w); j.k = J::LIT; j.s = w; return true; }
    return bad("unexpected character");
  }
  // a valid document of at most maxdepth nested containers
  bool document(J &j, int maxdepth) {
    if (t.find('\0') != string::npos) return bad("zero byte");
    if (!value(j, 0)) return false;
    if (!ws()) return false;
    if (p != t.size()) return bad("trailing text");
    if (!j.cont()) return bad("not an object or array");
    if (maxd > maxdepth) return bad("nested too deep");
    return true;
  }
};

// ---- generation
struct JGen {
  vector<string> strs; int budget = 60; bool small = false;
  string astr(bool key) {
    if (!strs.empty() && src.chance(1, 3)) return strs[src.draw(strs.size())];
    string o; size_t n;
    switch (src.weighted({8, 3, 2, 1, small ? 0 : 1})) {
      case 0: n = src.range(0, 6); break;
      case 1: n = src.range(20, 40); break;
      case 2: n = src.range(70, 90); break;
      case 3: n = src.range(90, 400); break;
      default: n = src.chance(1, 6) ? src.range(400, 20000) : src.range(400, 1200); break;
    }
    int mode = src.weighted({3, 2, 2}); u64 r = src.draw(1ULL << 32);
    while (o.size() < n) {
      r = r * 6364136223846793005ULL + 1442695040888963407ULL; unsigned x = (unsigned)(r >> 33), c;
      if (mode == 0) c = 'a' + x % 26;
      else if (mode == 1) { static const unsigned k[] = {'"', '\\', '/', '\n', '\t', '\r', '\b', '\f', 1, 31, 127, ' ', 'u', '{', '}', ':', ',', '[', ']', '*', '%', '\''}; c = x % 3 ? k[x / 3 % 22] : 32 + x / 3 % 95; }
      else { static const unsigned k[] = {0x80, 0x7ff, 0x800, 0xffff, 0xd7ff, 0xe000, 0x10000, 0x10ffff, 0x1f600, 0xe9, 0x4e2d, 'x'}; c = x % 3 ? k[x / 3 % 12] : 0xa0 + x / 3 % 0x3000; if (c >= 0xd800 && c < 0xe000) c = 'y'; }
      JP::utf8(o, c);
    }
    if (strs.size() < 8) strs.push_back(o);
    (void)key;
    return o;
  }
  J gen(int depth) {   // depth: containers still allowed
    J j;
    int c = depth <= 0 || budget <= 0 ? 2 + src.weighted({3, 3, 2}) : src.weighted({4, 4, 4, 4, 3});
    budget--;
    switch (c) {
      case 0: case 1: return cont(depth, c == 0);
      case 2: j.k = J::STR; j.s = astr(false); break;
      case 3: j.k = J::INT; j.i = gen_int(); if (j.i == INT64_MIN) j.i++; break;
      default: j.k = J::DBL; j.d = gen_double(); if (!std::isfinite(j.d)) j.d = 2.5; break;
    }
    return j;
  }
  J cont(int depth, bool obj) {
    J j; j.k = obj ? J::OBJ : J::ARR;
    for (int n = 0; n < 30 && budget > 0 && src.more(3); n++) { Span sp; pair<string, J> e; if (obj) e.first = astr(true); e.second = gen(depth - 1); j.m.push_back(e); }
    return j;
  }
};

// ---- rendering with free choice of spelling; doubles are re-read from their spelling
struct JRender {
  string o; u64 r = 0; int style = 0;
  unsigned rnd(unsigned n) { r = r * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(r >> 33) % n; }
  void pad() {
    if (style == 0) return;
    if (style == 1) { if (rnd(3) == 0) o += ' '; return; }
    for (unsigned k = rnd(3); k; k--) switch (rnd(8)) {
      case 0: o += "/* c \"{ * */"; break; case 1: o += "// x ]\n"; break; case 2: o += "\r\n"; break; case 3: o += '\t'; break; case 4: o += "/**/"; break; case 5: o += "/***/"; break; default: o += "  "; break;
    }
  }
  void str(const string &s) {
    o += '"';
    for (size_t p = 0; p < s.size();) {
      unsigned char c = s[p]; unsigned cp = c; int n = c < 0x80 ? 1 : c >> 5 == 6 ? 2 : c >> 4 == 14 ? 3 : 4;
      if (n == 2) cp = (c & 31) << 6 | (s[p + 1] & 63); if (n == 3) cp = (c & 15) << 12 | (s[p + 1] & 63) << 6 | (s[p + 2] & 63); if (n == 4) cp = (c & 7) << 18 | (s[p + 1] & 63) << 12 | (s[p + 2] & 63) << 6 | (s[p + 3] & 63);
      const char *sh = NULL;
      switch (cp) { case '"': sh = "\\\""; break; case '\\': sh = "\\\\"; break; case '/': sh = "\\/"; break; case '\b': sh = "\\b"; break; case '\f': sh = "\\f"; break; case '\n': sh = "\\n"; break; case '\r': sh = "\\r"; break; case '\t': sh = "\\t"; break; }
      bool must = cp < 0x20 || cp == '"' || cp == '\\';
      if (must || (style && rnd(6) == 0)) {
        char b[32];
        if (sh && (rnd(2) || style == 0)) o += sh;
        else if (cp >= 0x10000) { unsigned v = cp - 0x10000; snprintf(b, 32, rnd(2) ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xd800 + (v >> 10), 0xdc00 + (v & 1023)); o += b; }
        else { snprintf(b, 32, rnd(2) ? "\\u%04x" : "\\u%04X", cp); o += b; }
      } else o.append(s, p, n);
      p += n;
    }
    o += '"';
  }
  void num(J &j) {
    char b[400];
    if (j.k == J::INT) { if (j.i == 0 && style && rnd(4) == 0) o += "-0"; else o += std::to_string(j.i); return; }
    switch (style ? rnd(5) : 0) {
      case 0: snprintf(b, 400, "%.17g", j.d); break;
      case 1: snprintf(b, 400, "%.16e", j.d); break;
      case 2: snprintf(b, 400, "%.16E", j.d); break;
      case 3: snprintf(b, 400, "%.3f", j.d); break;
      default: snprintf(b, 400, "%.6g", j.d); break;
    }
    string t = b;
    if (t.find_first_of(".eE") == string::npos) t += rnd(2) ? ".0" : "e0";
    j.d = strtod(t.c_str(), NULL);
    if (!std::isfinite(j.d)) { j.d = 1e300; t = "1e300"; }
    o += t;
  }
  void val(J &j) {
    pad();
    switch (j.k) {
      case J::STR: str(j.s); break;
      case J::INT: case J::DBL: num(j); break;
      case J::LIT: o += j.s; break;
      default:
        o += j.k == J::OBJ ? '{' : '['; pad();
        for (size_t n = 0; n < j.m.size(); n++) { if (n) o += ','; pad(); if (j.k == J::OBJ) { str(j.m[n].first); pad(); o += ':'; } val(j.m[n].second); pad(); }
        o += j.k == J::OBJ ? '}' : ']';
    }
    pad();
  }
};
static inline string jrender(J &j, int style) { JRender R; R.style = style; if (style) R.r = src.draw(1ULL << 32); R.val(j); return R.o; }
static inline string jshow(const J &j) { J c = j; JRender R; R.val(c); return R.o.size() > 200 ? R.o.substr(0, 200) + "..." : R.o; }

// ---- stored documents
static inline void jsink(void *ctx, const char *s, size_t n) { ((string *)ctx)->append(s, n); }
static inline string jprint(void *db, void *doc) { string o; wg_print_json_document(db, (void *)jsink, &o, doc); return o; }
static inline J jread(void *db, void *doc, const char *where) {
  string o = jprint(db, doc); J j; JP P(o);
  CHECK_(P.document(j, 100), "%s: the printed document is not JSON (%s at %zu): %s", where, P.err.c_str(), P.p, quote(o, 200).c_str());
  return j;
}
static inline string jdiff(const J &a, const J &b, const string &path = "$") {
  if (a.k != b.k) return path + ": " + jshow(a) + " became " + jshow(b);
  if (!a.cont()) return jeq(a, b) ? "" : path + ": " + jshow(a) + " became " + jshow(b);
  for (size_t n = 0; n < a.m.size() && n < b.m.size(); n++) {
    if (a.m[n].first != b.m[n].first) return path + ": key " + quote(a.m[n].first) + " became " + quote(b.m[n].first);
    string s = jdiff(a.m[n].second, b.m[n].second, path + (a.k == J::OBJ ? "." + quote(a.m[n].first, 20) : "[" + std::to_string(n) + "]"));
    if (!s.empty()) return s;
  }
  if (a.m.size() != b.m.size()) return path + ": " + std::to_string(a.m.size()) + " elements became " + std::to_string(b.m.size());
  return "";
}
static inline void jsame(const J &want, const J &got, const char *where) { string d = jdiff(want, got); CHECK_(d.empty(), "%s: %s", where, d.c_str()); }

// every record a document consists of, compared with the model on the way
static inline void jwalk(void *db, void *rec, const J &j, set<void *> &recs, const char *where) {
  CHECK_(recs.insert(rec).second, "%s: a record is used twice in a document", where);
  CHECK_(wg_get_record_len(db, rec) == (wg_int)j.m.size(), "%s: container of %zu elements stored in a record of length %ld", where, j.m.size(), (long)wg_get_record_len(db, rec));
  for (size_t n = 0; n < j.m.size(); n++) {
    wg_int e = wg_get_field(db, rec, (wg_int)n); const J &v = j.m[n].second;
    if (j.k == J::OBJ) {
      CHECK_(wg_get_encoded_type(db, e) == WG_RECORDTYPE, "%s: object element is not a record", where);
      void *kv = wg_decode_record(db, e);
      CHECK_(recs.insert(kv).second, "%s: a key-value record is used twice", where);
      CHECK_(wg_get_record_len(db, kv) == 3, "%s: key-value record of length %ld", where, (long)wg_get_record_len(db, kv));
      wg_int k = wg_get_field(db, kv, 1);
      CHECK_(wg_get_encoded_type(db, k) == WG_STRTYPE && j.m[n].first == wg_decode_str(db, k), "%s: key %s stored wrongly", where, quote(j.m[n].first).c_str());
      e = wg_get_field(db, kv, 2);
    }
    int t = (int)wg_get_encoded_type(db, e);
    switch (v.k) {
      case J::STR: CHECK_(t == WG_STRTYPE && v.s == wg_decode_str(db, e), "%s: string %s stored wrongly", where, quote(v.s).c_str()); break;
      case J::INT: CHECK_(t == WG_INTTYPE && v.i == wg_decode_int(db, e), "%s: integer %lld stored as %s %ld", where, (long long)v.i, tname(t), (long)(t == WG_INTTYPE ? wg_decode_int(db, e) : 0)); break;
      case J::DBL: CHECK_(t == WG_DOUBLETYPE && v.d == wg_decode_double(db, e), "%s: number %.17g stored wrongly", where, v.d); break;
      case J::LIT: break;
      default: CHECK_(t == WG_RECORDTYPE, "%s: element is %s, expected a record", where, tname(t)); jwalk(db, wg_decode_record(db, e), v, recs, where);
    }
  }
}
static inline vector<void *> jscan(void *db) { vector<void *> v; for (void *p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) { v.push_back(p); CHECK_(v.size() < 2000000, "the scan does not end"); } return v; }
