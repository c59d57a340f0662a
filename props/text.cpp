// C24 C25 C26: CSV files, text conversion, calendar
#include "wg.h"
#include <cerrno>
#include <ctime>

static const int MDAYS[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static bool leap(int y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }
static int mdays(int y, int m) { return MDAYS[m - 1] + (m == 2 && leap(y)); }
// day number counted from 0001-01-01 = 1, computed by a different route than the library
static i64 daynum(int y, int m, int d) { i64 n = 0; int q = y - 1; n = 365LL * q + q / 4 - q / 100 + q / 400; for (int k = 1; k < m; k++) n += mdays(y, k); return n + d; }
static void *g_db; // one small database for conversions that do not store anything

static bool isd(char c) { return c >= '0' && c <= '9'; }
static bool form(const string &s, const char *f) { if (s.size() != strlen(f)) return false; for (size_t k = 0; k < s.size(); k++) if (f[k] == 'd' ? !isd(s[k]) : s[k] != f[k]) return false; return true; }
// the reference reading of a text; d_or_s: both a double and a string are acceptable
static Val classify(const string &s, bool &d_or_s) {
  Val v; d_or_s = false;
  if (s.empty()) return v;
  if (form(s, "dddd-dd-dd")) { int y = atoi(s.substr(0, 4).c_str()), m = atoi(s.substr(5, 2).c_str()), d = atoi(s.substr(8, 2).c_str()); if (y >= 1 && m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m)) { v.t = WG_DATETYPE; v.i = daynum(y, m, d); return v; } }
  bool t1 = form(s, "dd:dd:dd"), t2 = form(s, "dd:dd:dd.d"), t3 = form(s, "dd:dd:dd.dd");
  if (t1 || t2 || t3) {
    int h = atoi(s.substr(0, 2).c_str()), m = atoi(s.substr(3, 2).c_str()), q = atoi(s.substr(6, 2).c_str()), p = t1 ? 0 : t2 ? 10 * (s[9] - '0') : atoi(s.substr(9).c_str());
    if (m <= 59 && q <= 60 && (h < 24 || (h == 24 && !m && !q && !p))) { v.t = WG_TIMETYPE; v.i = ((h * 60LL + m) * 60 + q) * 100 + p; return v; }
  }
  size_t k = s[0] == '-' ? 1 : 0, dots = 0; bool num = k < s.size() && isd(s[k]);
  for (size_t j = k; j < s.size() && num; j++) { if (s[j] == '.') dots++; else if (!isd(s[j])) num = false; }
  if (num && dots == 0) {
    unsigned __int128 n = 0; bool big = false; for (size_t j = k; j < s.size(); j++) { n = n * 10 + (s[j] - '0'); if (n > (unsigned __int128)INT64_MAX + k) { big = true; break; } }
    if (!big) { v.t = WG_INTTYPE; v.i = k ? (i64)(0 - (u64)n) : (i64)n; return v; }
  }
  if (num && dots == 1) {
    errno = 0; double d = strtod(s.c_str(), NULL); bool er = errno == ERANGE; errno = 0;
    if (!std::isinf(d)) { v.t = WG_DOUBLETYPE; v.d = d; d_or_s = er; return v; }
  }
  v.t = WG_STRTYPE; v.s = s; return v;
}
static void expect(void *db, wg_int e, const string &s, const char *where) {
  bool ds; Val w = classify(s, ds), g = dec(db, e);
  if (ds && g.t == WG_STRTYPE) { CHECK_(g.s == s, "%s: text %s became %s", where, quote(s).c_str(), show(g).c_str()); return; }
  CHECK_(g.t == w.t && (w.t == WG_DOUBLETYPE ? g.d == w.d : same_val(w, g)), "%s: text %s became %s, expected %s", where, quote(s).c_str(), show(g).c_str(), show(w).c_str());
}

// ---- text generator: near-numeric, near-date and arbitrary
static string gen_num() {
  string s; if (src.chance(1, 3)) s = "-";
  switch (src.weighted({4, 2, 3, 2, 2})) {
    case 0: return s + std::to_string(src.range(0, 1000));
    case 1: { static const char *k[] = {"9223372036854775807", "9223372036854775808", "2147483647", "2147483648", "4294967296", "0", "00", "007", "18446744073709551616", "99999999999999999999"}; return s + k[src.draw(10)]; }
    case 2: { int n = (int)src.range(1, src.chance(1, 5) ? 120 : 25); u64 r = src.draw(1ULL << 32); while (n--) { r = r * 6364136223846793005ULL + 1442695040888963407ULL; s += (char)('0' + (r >> 33) % 10); } return s; }
    case 3: return s + std::to_string(src.range(0, 1000)) + "." + std::to_string(src.range(0, 1000000));
    default: { int a = (int)src.range(1, src.chance(1, 5) ? 330 : 20), b = (int)src.range(0, src.chance(1, 5) ? 340 : 20); u64 r = src.draw(1ULL << 32); bool z = src.chance(1, 4); for (int k = 0; k <= a + b; k++) { r = r * 6364136223846793005ULL + 1442695040888963407ULL; if (k == a) s += '.'; else s += (char)('0' + (z && k < a + b ? 0 : (r >> 33) % 10)); } return s; }
  }
}
static string gen_dt() {
  char b[64];
  if (src.chance(1, 2)) snprintf(b, 64, "%04d-%02d-%02d", (int)(src.chance(1, 3) ? src.range(0, 9999) : src.range(1890, 2030)), (int)src.range(src.chance(1, 6) ? 0 : 1, src.chance(1, 6) ? 13 : 12), (int)(src.chance(1, 3) ? src.range(27, 32) : src.range(1, 28)));
  else {
    int h = (int)src.range(0, src.chance(1, 6) ? 25 : 23), m = (int)src.range(0, src.chance(1, 6) ? 61 : 59), s = (int)src.range(0, src.chance(1, 6) ? 62 : 59);
    if (src.chance(1, 12)) { h = 24; m = 0; s = 0; }
    switch (src.draw(4)) { case 0: snprintf(b, 64, "%02d:%02d:%02d", h, m, s); break; case 1: snprintf(b, 64, "%02d:%02d:%02d.%02d", h, m, s, (int)src.draw(100)); break; case 2: snprintf(b, 64, "%02d:%02d:%02d.%d", h, m, s, (int)src.draw(10)); break; default: snprintf(b, 64, "%02d:%02d:%02d.%03d", h, m, s, (int)src.draw(1000)); }
  }
  return b;
}
static string mut(string s) {
  static const char *t[] = {" ", ".", "-", ":", "0", "9", "e5", "x", "T", "+", ",", "abc", "\n", "/", "Z", "d", "f", "%"};
  size_t n = s.size();
  switch (src.draw(4)) { case 0: if (n) s.erase(src.draw(n), 1); break; case 1: s += t[src.draw(18)]; break; case 2: s.insert(src.draw(n + 1), t[src.draw(18)]); break; default: if (n) s[src.draw(n)] = (char)(1 + src.draw(255)); }
  return s;
}
static string gen_str() {
  string s;
  switch (src.weighted({4, 3, 2, 3})) { case 0: s = gen_num(); break; case 1: s = gen_dt(); break; case 2: s = gen_text(300); break; default: s = src.chance(1, 2) ? gen_num() : gen_dt(); s = mut(s); if (src.chance(1, 4)) s = mut(s); }
  return s;
}

// ---------------------------------------------------------------- C25
static void c25_print(void *db) {
  Pool pool; void *rec = NULL; vector<Val> fs;
  int n = (int)src.range(1, 5); rec = wg_create_record(db, n);
  for (int k = 0; k < n; k++) { Val v = gen_val(pool); if (v.t == WG_DATETYPE && (v.i < 1 || v.i > 3652059)) v.i = 1 + (u64)v.i % 3652059; fs.push_back(v); wg_int e = enc(db, v); CHECK_(e != WG_ILLEGAL && wg_set_field(db, rec, k, e) == 0, "storing %s failed", show(v).c_str()); }
  for (int k = 0; k <= n; k++) {
    wg_int e = k == n ? wg_encode_record(db, rec) : wg_get_field(db, rec, k);
    string full; { vector<char> b(20000, 'Q'); wg_snprint_value(db, e, b.data(), 20000); full = b.data(); }
    for (int q = 0; q < 6; q++) {
      int sz = q == 0 ? 1 + (int)src.draw(4) : q == 1 ? (int)full.size() + (int)src.range(0, 4) : (int)src.range(1, full.size() + 10);
      if (sz < 1) sz = 1;
      std::unique_ptr<char[]> b(new char[sz]); memset(b.get(), 'Q', sz);   // exact size: the sanitizer sees any write past it
      wg_snprint_value(db, e, b.get(), sz);
      CHECK_(memchr(b.get(), 0, sz), "printing into %d bytes left no terminator", sz);
      string got = b.get();
      if (k < n) {
        CHECK_(full.compare(0, got.size(), got) == 0, "printing %s into %d bytes gave %s, not a beginning of %s", show(fs[k]).c_str(), sz, quote(got).c_str(), quote(full).c_str());
        CHECK_((int)got.size() >= std::min((int)full.size(), sz - 2), "printing %s into %d bytes gave only %zu", show(fs[k]).c_str(), sz, got.size());
      }
    }
    if (k == n) continue;
    const Val &v = fs[k]; string want; char b[80]; bool exact = true;
    switch (v.t) {
      case WG_INTTYPE: want = std::to_string(v.i); break;
      case WG_STRTYPE: want = "\"" + v.s + "\""; break;
      case WG_NULLTYPE: want = "NULL"; break;
      case WG_DOUBLETYPE: exact = false; if (std::isfinite(v.d)) CHECK_(fabs(strtod(full.c_str(), NULL) - v.d) <= 1e-6 + fabs(v.d) * 1e-9, "%s printed as %s", show(v).c_str(), full.c_str()); break;
      case WG_FIXPOINTTYPE: exact = false; CHECK_(fabs(strtod(full.c_str(), NULL) - v.i / 10000.0) < 1e-5, "%s printed as %s", show(v).c_str(), full.c_str()); break;
      case WG_DATETYPE: case WG_TIMETYPE: { exact = false; char iso[80]; wg_strf_iso_datetime(db, v.t == WG_DATETYPE ? (int)v.i : 1, v.t == WG_TIMETYPE ? (int)v.i : 0, iso); if (v.t == WG_DATETYPE) iso[10] = 0; const char *t = v.t == WG_DATETYPE ? iso : iso + 11; snprintf(b, 80, "<raw %s %lld>%s", v.t == WG_DATETYPE ? "date" : "time", (long long)v.i, t); CHECK_(full.find(t) != string::npos, "%s printed as %s, without %s", show(v).c_str(), full.c_str(), t); break; }
      case WG_URITYPE: want = v.hx ? v.x + ":" + v.s : v.s; break;
      case WG_CHARTYPE: want = v.i ? string(1, (char)v.i) : string(); break;
      default: exact = false;
    }
    if (exact) CHECK_(full == want.substr(0, 19998), "%s printed as %s", show(v).c_str(), quote(full).c_str());
    label(tname(v.t));
  }
}
static void c25() {
  if (!g_db) { watch_errors(); }
  void *db = wg_attach_local_database(1000000); if (!db) discard();
  int good = 0; set<int> kinds;
  for (int n = 0; n < 12 && (n < 2 || src.more(5)); n++) {
    Span sp; string s = gen_str(); bool ds; Val w = classify(s, ds);
    int er = src.chance(1, 3) ? (src.draw(2) ? ERANGE : EINVAL) : 0;
    T("text %s (errno %d) expected %s", quote(s, 100).c_str(), er, show(w).c_str());
    errno = er; wg_int e = wg_parse_and_encode(db, (char *)s.c_str());
    errno = er; wg_int p = wg_parse_and_encode_param(db, (char *)s.c_str()); errno = 0;
    CHECK_(e != WG_ILLEGAL && p != WG_ILLEGAL, "text %s was not converted", quote(s).c_str());
    expect(db, e, s, "stored form"); expect(db, p, s, "parameter form");
    CHECK_(wcmp(db, e, p) == 0, "the parameter for %s does not compare equal to the stored value", quote(s).c_str());
    void *r = wg_create_record(db, 1); CHECK_(r && wg_set_field(db, r, 0, e) == 0, "storing failed");
    expect(db, wg_get_field(db, r, 0), s, "field"); wg_free_query_param(db, p);
    CHECK_(wg_find_record(db, 0, WG_COND_EQUAL, wg_get_field(db, r, 0), NULL), "the stored value is not found");
    kinds.insert(w.t); if (s.size() >= 2) good++; label(tname(w.t)); if (ds) label("out of double range");
  }
  if (src.chance(1, 3)) { Span sp; c25_print(db); label("printed"); good++; }
  if (good >= 2 && kinds.size() >= 2) nontrivial();
  wg_delete_local_database(db);
}

// ---------------------------------------------------------------- C26
static void check_date(void *db, int y, int m, int d, bool text) {
  int n = wg_ymd_to_date(db, y, m, d); i64 want = daynum(y, m, d);
  CHECK_(n == want, "date %04d-%02d-%02d is day %d, expected %lld", y, m, d, n, (long long)want);
  int a = 0, b = 0, c = 0; wg_date_to_ymd(db, n, &a, &b, &c);
  CHECK_(a == y && b == m && c == d, "day %d (%04d-%02d-%02d) converts back to %d-%d-%d", n, y, m, d, a, b, c);
  if (!text) return;
  char buf[80]; memset(buf, 'Q', 80); wg_strf_iso_datetime(db, n, 0, buf); char w[80]; snprintf(w, 80, "%04d-%02d-%02dT00:00:00.00", y, m, d);
  CHECK_(!strcmp(buf, w), "day %d prints as %s, expected %s", n, buf, w);
  CHECK_(wg_strp_iso_date(db, buf) == n, "%s parses as day %d, expected %d", buf, wg_strp_iso_date(db, buf), n);
  wg_int e = wg_encode_date(db, n); CHECK_(e != WG_ILLEGAL && wg_decode_date(db, e) == n, "day %d encodes to %d", n, wg_decode_date(db, e));
}
static void check_time(void *db, int h, int m, int s, int p, bool text) {
  int n = wg_hms_to_time(db, h, m, s, p), want = ((h * 60 + m) * 60 + s) * 100 + p;
  CHECK_(n == want, "time %02d:%02d:%02d.%02d is %d, expected %d", h, m, s, p, n, want);
  int a = -1, b = -1, c = -1, d = -1; wg_time_to_hms(db, n, &a, &b, &c, &d);
  CHECK_(a == h && b == m && c == s && d == p, "time %d converts back to %d:%d:%d.%d", n, a, b, c, d);
  if (!text) return;
  char buf[80], w[80]; wg_strf_iso_datetime(db, 1, n, buf); snprintf(w, 80, "0001-01-01T%02d:%02d:%02d.%02d", h, m, s, p);
  CHECK_(!strcmp(buf, w), "time %d prints as %s, expected %s", n, buf, w);
  CHECK_(wg_strp_iso_time(db, buf + 11) == n, "%s parses as %d, expected %d", buf + 11, wg_strp_iso_time(db, buf + 11), n);
  snprintf(w, 80, "%02d:%02d:%02d", h, m, s); CHECK_(wg_strp_iso_time(db, w) == n - p, "%s parses as %d", w, wg_strp_iso_time(db, w));
  if (p % 10 == 0) { snprintf(w, 80, "%02d:%02d:%02d.%d", h, m, s, p / 10); CHECK_(wg_strp_iso_time(db, w) == n, "%s parses as %d, expected %d", w, wg_strp_iso_time(db, w), n); }
  wg_int e = wg_encode_time(db, n); CHECK_(e != WG_ILLEGAL && wg_decode_time(db, e) == n, "time %d encodes wrongly", n);
}
static void c26() {
  void *db = wg_attach_local_database(1000000); if (!db) discard();
  int good = 0;
  for (int q = 0; q < 20; q++) {
    Span sp; char b[80];
    switch (src.weighted({3, 3, 3, 3, 1, 1})) {
      case 0: { int y = (int)src.range(1, 9999), m = (int)src.range(1, 12), d = (int)src.range(1, mdays(y, m)); T("date %d-%d-%d", y, m, d); check_date(db, y, m, d, true); good++; break; }
      case 1: { int h = (int)src.range(0, 23), m = (int)src.range(0, 59), s = (int)src.range(0, 59), p = (int)src.range(0, 99); T("time %d:%d:%d.%d", h, m, s, p); check_time(db, h, m, s, p, true); good++; break; }
      case 2: {   // dates that do not exist
        int y = (int)src.range(0, 9999), m = (int)src.range(0, 15), d = (int)src.range(0, 40); if (src.chance(1, 4)) { m = 2; d = (int)src.range(28, 31); } if (src.chance(1, 8)) y = -(int)src.range(0, 100); if (src.chance(1, 8)) m = -(int)src.range(1, 12); if (src.chance(1, 8)) d = -(int)src.range(1, 31);
        bool ok = y >= 1 && m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m); T("date %d-%d-%d %s", y, m, d, ok ? "exists" : "does not exist");
        if (ok) check_date(db, y, m, d, true);
        else { CHECK_(wg_ymd_to_date(db, y, m, d) == -1, "the date %d-%d-%d which does not exist converts to %d", y, m, d, wg_ymd_to_date(db, y, m, d)); if (y >= 0 && m >= 0 && d >= 0) { snprintf(b, 80, "%04d-%02d-%02d", y, m, d); CHECK_(wg_strp_iso_date(db, b) == -1, "%s which does not exist parses as %d", b, wg_strp_iso_date(db, b)); } label("invalid date"); good++; }
        break; }
      case 3: {
        int h = (int)src.range(0, 30), m = (int)src.range(0, 70), s = (int)src.range(0, 70), p = (int)src.range(0, 99); if (src.chance(1, 3)) { h = 24; m = (int)src.draw(2); s = (int)src.draw(2); p = (int)src.draw(2); }
        if (src.chance(1, 8)) h = -h - 1; if (src.chance(1, 8)) m = -m - 1; if (src.chance(1, 8)) s = -s - 1; if (src.chance(1, 8)) p = src.draw(2) ? -p - 1 : 100 + p;
        bool bad = h < 0 || h > 24 || m < 0 || m > 59 || s < 0 || s > 60 || p < 0 || p > 99 || (h == 24 && (m || s || p)), good1 = !bad && h < 24 && s < 60; T("time %d:%d:%d.%d", h, m, s, p);
        if (good1) check_time(db, h, m, s, p, true);
        if (bad) { CHECK_(wg_hms_to_time(db, h, m, s, p) == -1, "the time %d:%d:%d.%d which does not exist converts to %d", h, m, s, p, wg_hms_to_time(db, h, m, s, p)); if (h >= 0 && m >= 0 && s >= 0 && p >= 0 && p < 100) { snprintf(b, 80, "%02d:%02d:%02d.%02d", h, m, s, p); CHECK_(wg_strp_iso_time(db, b) == -1, "%s which does not exist parses as %d", b, wg_strp_iso_time(db, b)); } label("invalid time"); good++; }
        break; }
      case 4: {   // texts which are not of the form at all
        string s = gen_dt(); size_t k = s.find_first_of("-:"); static const char *r[] = {"", "x", " x", "/", ".", "T"};
        if (k != string::npos) { s.replace(k, 1, r[src.draw(6)]); if (src.chance(1, 3)) s = ""; T("text %s", quote(s).c_str()); CHECK_(wg_strp_iso_date(db, (char *)s.c_str()) == -1, "%s parses as a date", quote(s).c_str()); CHECK_(wg_strp_iso_time(db, (char *)s.c_str()) == -1, "%s parses as a time", quote(s).c_str()); label("not ISO"); }
        break; }
      default: {   // the clock
        time_t t0 = time(NULL); int d = wg_current_utcdate(db), t = wg_current_utctime(db), ld = wg_current_localdate(db), lt = wg_current_localtime(db); time_t t1 = time(NULL); bool ok = false, lok = false;
        for (time_t k = t0 - 1; k <= t1 + 1; k++) { struct tm g, l; gmtime_r(&k, &g); localtime_r(&k, &l); ok = ok || (d == daynum(g.tm_year + 1900, g.tm_mon + 1, g.tm_mday) && t / 100 == g.tm_hour * 3600 + g.tm_min * 60 + g.tm_sec); lok = lok || (ld == daynum(l.tm_year + 1900, l.tm_mon + 1, l.tm_mday) && lt / 100 == l.tm_hour * 3600 + l.tm_min * 60 + l.tm_sec); }
        if (t / 100 > 5 && t / 100 < 86395) { CHECK_(ok, "the current UTC date and time read as %d, %d", d, t); CHECK_(lok, "the current local date and time read as %d, %d", ld, lt); } label("clock"); }
    }
  }
  if (good >= 5) nontrivial();
  wg_delete_local_database(db);
}
// all dates of years 1-9999 in 100 blocks, all times of day in 24 blocks
static void c26_enum(u64 n) {
  void *db = wg_attach_local_database(1000000); if (!db) discard();
  if (n < 100) {
    T("all dates of years %d to %d", (int)n * 100, (int)n * 100 + 99);
    for (int y = (int)n * 100; y < (int)n * 100 + 100; y++) if (y) for (int m = 1; m <= 12; m++) {
      for (int d = 1; d <= mdays(y, m); d++) check_date(db, y, m, d, d == 1 || d >= 28 || (y + m + d) % 7 == 0);
      CHECK_(wg_ymd_to_date(db, y, m, mdays(y, m) + 1) == -1 && wg_ymd_to_date(db, y, m, 0) == -1, "a day outside of %d-%02d is accepted", y, m);
    }
  } else {
    int h = (int)n - 100; T("all times of hour %d", h);
    for (int m = 0; m < 60; m++) for (int s = 0; s < 60; s++) for (int p = 0; p < 100; p++) check_time(db, h, m, s, p, (m + s + p) % 17 == 0);
    CHECK_(wg_hms_to_time(db, h, 60, 0, 0) == -1 && wg_hms_to_time(db, h, 0, 61, 0) == -1 && wg_hms_to_time(db, h, 0, 0, 100) == -1, "a time outside of the hour is accepted");
  }
  label("enumerated"); nontrivial();
  wg_delete_local_database(db);
}

// ---------------------------------------------------------------- C24
static string csvf() { return string(scratch) + "/t.csv"; }
static string csv_text() {   // text with separators, quotes and line breaks, of any length
  string s; size_t n;
  switch (src.weighted({8, 4, 2, 1})) { case 0: n = src.range(1, 12); break; case 1: n = src.range(12, 80); break; case 2: n = src.range(80, 400); break; default: n = src.chance(1, 3) ? src.range(4080, 4110) : src.chance(1, 2) ? src.range(2040, 2060) : src.range(400, 12000); }
  int mode = src.weighted({3, 3, 2}); u64 r = src.draw(1ULL << 32); bool allq = src.chance(1, 12);
  for (size_t k = 0; k < n; k++) { r = r * 6364136223846793005ULL + 1442695040888963407ULL; unsigned x = (unsigned)(r >> 33); unsigned char c; if (allq) c = '"'; else if (mode == 0) c = (unsigned char)('a' + x % 26); else if (mode == 1) { static const char t[] = "\",\n\r ;ab1.-\t"; c = (unsigned char)t[x % 12]; } else c = (unsigned char)(1 + x % 255); s += (char)c; }
  return s;
}
// rows in any order: the order of records in the database is not specified
static void compare_rows(void *db, const vector<vector<Val>> &want, void *skip, const char *where) {
  vector<char> used(want.size()); size_t n = 0;
  for (void *p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) {
    if (p == skip) continue;
    vector<Val> g; for (wg_int k = 0; k < wg_get_record_len(db, p); k++) g.push_back(dec(db, wg_get_field(db, p, k)));
    size_t j = 0;
    for (; j < want.size(); j++) {
      if (used[j] || want[j].size() != g.size()) continue;
      bool ok = true; for (size_t k = 0; k < g.size() && ok; k++) { const Val &w = want[j][k]; ok = w.t == -1 ? g[k].t == WG_STRTYPE : w.t == g[k].t && (w.t == WG_DOUBLETYPE ? (w.hx ? fabs(w.d - g[k].d) <= 6e-7 + fabs(w.d) * 1e-12 : w.d == g[k].d) : same_val(w, g[k])); }
      if (ok) break;
    }
    if (j == want.size()) {
      string t; for (auto &v : g) t += " " + show(v); string m; for (size_t q = 0; q < want.size(); q++) if (!used[q]) { m = "; not found so far:"; for (auto &v : want[q]) m += " " + show(v); break; }
      fail("%s: a row (%zu fields) that is not in the data:%s%s", where, g.size(), t.substr(0, 600).c_str(), m.substr(0, 600).c_str());
    }
    used[j] = 1; n++;
  }
  CHECK_(n == want.size(), "%s: %zu rows, expected %zu", where, n, want.size());
}
static void c24() {
  watch_errors(); void *db = wg_attach_local_database(4000000); if (!db) discard();
  vector<vector<Val>> rows; bool rich = false; bool ds; set<int> kinds;
  if (src.chance(1, 2)) {
    label("round trip");
    int nr = (int)src.range(1, src.chance(1, 8) ? 60 : 8), maxf = (int)src.range(1, src.chance(1, 6) ? 40 : 6);
    for (int q = 0; q < nr; q++) {
      Span sp; vector<Val> r; int nf = (int)src.range(1, maxf); void *rec = wg_create_record(db, nf); CHECK_(rec, "creating a row failed");
      for (int k = 0; k < nf; k++) {
        Val v, w; wg_int e; char b[2] = {0, 0};
        switch (src.weighted({8, 12, 4, 4, 4, 2, 2, 2, 1, 1, 1})) {
          case 0: v.t = WG_INTTYPE; v.i = gen_int(); break;
          case 1: v.t = WG_STRTYPE; v.s = csv_text(); if (classify(v.s, ds).t != WG_STRTYPE) v.s = "x" + v.s; break;
          case 2: break;
          case 3: v.t = WG_DATETYPE; v.i = src.range(1, 3652059); break;
          case 4: v.t = WG_TIMETYPE; v.i = src.range(0, MAXTIME_ - 1); break;
          case 5: v.t = WG_DOUBLETYPE; v.d = gen_double(); if (!std::isfinite(v.d) || fabs(v.d) > 1e300) v.d = 0.125; v.hx = true; break;
          case 6: v.t = WG_URITYPE; v.s = csv_text(); if (src.chance(1, 2)) { v.hx = true; v.x = "http://a\"b,/"; } else v.s = "u" + v.s; break;
          case 8: v.t = WG_FIXPOINTTYPE; v.i = src.range(-8000000, 8000000); break;
          case 9: v.t = WG_XMLLITERALTYPE; v.s = csv_text(); v.hx = true; v.x = "xsd:\"t\",x"; break;
          case 10: switch (src.draw(3)) { case 0: v.t = WG_VARTYPE; v.i = src.range(0, 1000); break; case 1: v.t = WG_BLOBTYPE; v.s = csv_text(); v.hx = true; v.x = "b,\""; break; default: v.t = WG_RECORDTYPE; } break;
          default: v.t = WG_CHARTYPE; v.i = (signed char)src.range(1, 255); b[0] = (char)v.i; break;
        }
        e = v.t == WG_RECORDTYPE ? wg_encode_record(db, rec) : enc(db, v); CHECK_(e != WG_ILLEGAL && wg_set_field(db, rec, k, e) == 0, "storing %s failed", show(v).c_str());
        w = v;
        if (v.t == WG_URITYPE) { w = Val(); w.t = WG_STRTYPE; w.s = v.x + v.s; w = classify(w.s, ds); }
        if (v.t == WG_CHARTYPE) w = classify(b, ds);
        if (v.t == WG_XMLLITERALTYPE) w = classify(v.s, ds);
        if (v.t == WG_FIXPOINTTYPE) { w = Val(); w.t = WG_DOUBLETYPE; w.d = v.i / 10000.0; w.hx = true; }
        if (v.t == WG_VARTYPE || v.t == WG_BLOBTYPE || v.t == WG_RECORDTYPE) { w = Val(); w.t = -1; label("value without a CSV form"); }
        if (v.t == WG_STRTYPE && v.s.find_first_of("\",\n\r") != string::npos) rich = true;
        kinds.insert(v.t); r.push_back(w); T("row %d field %d: %s", q, k, show(v).c_str()); if (v.s.size() > 2000) label("long text");
      }
      rows.push_back(r);
    }
    wg_export_db_csv(db, csvf().c_str());
    void *db2 = wg_attach_local_database(8000000); if (!db2) discard();
    wg_int rc = wg_import_db_csv(db2, csvf().c_str()); CHECK_(rc == 0, "importing an exported file returned %ld", (long)rc);
    compare_rows(db2, rows, NULL, "after export and import");
    // the imported table exports to the same file, as far as types are kept
    wg_delete_local_database(db2);
    if (rich && kinds.size() >= 2) nontrivial();
  } else {
    label("foreign file"); string f; int nr = (int)src.range(1, src.chance(1, 8) ? 40 : 6); bool crlf = src.chance(1, 3); const char *eol = crlf ? "\r\n" : "\n"; bool quoted = false;
    void *last = NULL; if (src.chance(1, 4)) { last = wg_create_record(db, 2); label("added to existing rows"); }
    int maxf = (int)src.range(1, src.chance(1, 6) ? 30 : 5);
    for (int q = 0; q < nr; q++) {
      Span sp; if (src.chance(1, 10)) { f += eol; label("empty line"); }
      int nf = (int)src.range(1, maxf); vector<Val> r; string line;
      for (int k = 0; k < nf; k++) {
        string t; switch (src.weighted({3, 3, 2})) { case 0: t = gen_str(); break; case 1: t = csv_text(); break; default: break; }
        bool must = t.find_first_of("\",\n\r") != string::npos || (nf == 1 && t.empty()), qt = must || src.chance(1, 4);
        if (k) line += ',';
        if (qt) { quoted = true; line += '"'; for (char c : t) { line += c; if (c == '"') line += '"'; } line += '"'; } else line += t;
        bool d2; Val w = classify(t, d2); if (d2) { label("out of double range"); t = "z"; line += "z"; w.t = WG_STRTYPE; discard(); }
        r.push_back(w);
      }
      T("line %s", quote(line, 200).c_str()); f += line; rows.push_back(r);
      if (q + 1 < nr || !src.chance(1, 3)) f += eol; else label("no line end at the end");
    }
    FILE *o = fopen(csvf().c_str(), "wb"); if (!o || fwrite(f.data(), 1, f.size(), o) != f.size()) { perror("scratch"); exit(3); } fclose(o);
    wg_int rc = wg_import_db_csv(db, csvf().c_str()); CHECK_(rc == 0, "importing a well-formed file returned %ld", (long)rc);
    if (last) { CHECK_(wg_get_record_len(db, last) == 2 && wg_get_field(db, last, 0) == 0, "an existing row changed"); }
    compare_rows(db, rows, last, "imported file");
    if (quoted && nr >= 2) nontrivial();
  }
  wg_delete_local_database(db);
}

int main(int argc, char **argv) {
  vector<Property> ps; Property p;
  p.id = "C24"; p.run = c24; p.quick_cases = 30000; p.thorough_cases = 400000; p.batch = 10;
  p.rule = "random tables exported and imported (text with separators, quotes, line breaks, any byte except zero, lengths around the buffer size), and random well-formed files written by an independent writer; non-trivial: text with special characters and two value types, or a file of two lines with a quoted field";
  p.assumptions = {"text that reads as a number, date or time is outside the domain", "doubles keep six decimals", "empty lines are skipped"};
  ps.push_back(p);
  p = Property(); p.id = "C25"; p.run = c25; p.quick_cases = 150000; p.thorough_cases = 2000000; p.batch = 20;
  p.rule = "random texts near numbers, dates and times with any errno left behind, compared with a reference reading; printing of random values into buffers of every size; non-trivial: at least two texts of two kinds";
  p.assumptions = {"a decimal text beyond the range of doubles may stay a string"};
  ps.push_back(p);
  p = Property(); p.id = "C26"; p.run = c26; p.quick_cases = 60000; p.thorough_cases = 1500000; p.batch = 20;
  p.n_enum = 124; p.run_enum = c26_enum;
  p.rule = "all dates of years 1-9999 and all times of day enumerated in 124 blocks, plus random valid, impossible and malformed dates and times; non-trivial: at least 5 conversions judged";
  p.assumptions = {"second 60 is accepted as a leap second and not judged"};
  ps.push_back(p);
  return main_(argc, argv, ps);
}
