// C20 C21 C22 C23: JSON import, rejection, queries, deletion
#include "json.h"

enum { MAXD = 6 };

static void *newdb(wg_int size) { watch_errors(); void *db = wg_attach_local_database(size); if (!db) discard(); return db; }

// plain rows whose content must never change
struct Rows {
  struct R { void *p; vector<Val> f; };
  vector<R> r;
  void add(void *db, const vector<Val> &f) {
    R x; x.p = wg_create_record(db, (wg_int)f.size()); x.f = f;
    CHECK_(x.p, "creating a row failed");
    for (size_t i = 0; i < f.size(); i++) { wg_int e = enc(db, f[i]); CHECK_(e != WG_ILLEGAL && wg_set_field(db, x.p, (wg_int)i, e) == 0, "writing a row failed"); }
    r.push_back(x);
  }
  void check(void *db, const char *where) {
    for (auto &x : r) {
      CHECK_(wg_get_record_len(db, x.p) == (wg_int)x.f.size(), "%s: length of a row changed", where);
      for (size_t i = 0; i < x.f.size(); i++) { Val v = dec(db, wg_get_field(db, x.p, (wg_int)i)); CHECK_(same_val(v, x.f[i]), "%s: field %zu of a row changed from %s to %s", where, i, show(x.f[i]).c_str(), show(v).c_str()); }
    }
  }
};
static Val vstr(const string &s) { Val v; v.t = WG_STRTYPE; v.s = s; return v; }
static Val vint(i64 i) { Val v; v.t = WG_INTTYPE; v.i = i; return v; }

struct Doc { void *p = nullptr; J j; set<void *> recs; };

static string tmpf() { return string(scratch) + "/in.json"; }
static void writef(const string &t) { FILE *f = fopen(tmpf().c_str(), "wb"); if (!f || fwrite(t.data(), 1, t.size(), f) != t.size()) { perror("scratch"); exit(3); } fclose(f); }

// the records which are new in the scan; the scan before is given
static vector<void *> fresh(void *db, const vector<void *> &before) {
  set<void *> b(before.begin(), before.end()); vector<void *> n; size_t old = 0;
  for (void *p : jscan(db)) if (b.count(p)) old++; else n.push_back(p);
  CHECK_(old == before.size(), "import removed %zu of %zu records", before.size() - old, before.size());
  return n;
}
static void *root_of(void *db, const vector<void *> &n) {
  void *root = NULL; for (void *p : n) if (!wg_get_first_parent(db, p)) { CHECK_(!root, "import created two unlinked records"); root = p; }
  CHECK_(root, "import created no top-level record"); return root;
}

// ---------------------------------------------------------------- C20
// lengthens the text with white space so that a 16384 byte boundary falls at a chosen place
static string pad_to_chunk(const string &t, bool exact) {
  size_t chunk = 16384 * (size_t)src.range(1, 3);
  if (exact) { if (t.size() > chunk) chunk = (t.size() + 16383) / 16384 * 16384; if (t.size() == chunk) return t; }
  else { size_t at = src.draw(t.size() + 1); if (at > chunk) return t; chunk = chunk - at; }
  size_t n = exact ? chunk - t.size() : chunk;
  string p;
  switch (src.weighted({3, 1, 1})) {
    case 0: p.assign(n, ' '); break;
    case 1: p = n >= 4 ? "/*" + string(n - 4, 'x') + "*/" : string(n, '\n'); break;
    default: p = n >= 3 ? "//" + string(n - 3, 'x') + "\n" : string(n, '\n'); break;
  }
  return exact && src.chance(1, 2) ? t + p : p + t;
}
static void c20() {
  void *db = newdb(8000000); Rows rows; vector<Doc> docs;
  for (int n = (int)src.draw(4); n > 0; n--) rows.add(db, {vint(src.range(0, 9)), vstr("a"), vint(1), vstr("row")});
  if (src.chance(1, 6)) { wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0); }
  if (src.chance(1, 6)) { wg_int c[2] = {1, 2}; wg_create_multi_index(db, c, 2, WG_INDEX_TYPE_HASH_JSON, NULL, 0); }
  JGen G; int nd = 1 + (int)src.draw(3); bool rich = false;
  for (int q = 0; q < nd; q++) {
    Span sp;
    G.budget = src.chance(1, 10) ? 300 : 40;
    J j = G.cont(MAXD, !src.chance(1, 3));
    int wrap = src.chance(1, 4) ? MAXD - jdepth(j) : 0;
    for (; wrap > 0; wrap--) { J k; k.k = src.draw(2) ? J::ARR : J::OBJ; pair<string, J> e; if (k.k == J::OBJ) e.first = G.astr(true); e.second = j; k.m.push_back(e); j = k; }
    int style = (int)src.draw(3); string t = jrender(j, style);
    int padm = src.weighted({5, 2, 1});
    if (padm) { t = pad_to_chunk(t, padm == 2); label(padm == 2 ? "length a multiple of the chunk" : "token across a chunk"); }
    if (jdepth(j) == MAXD) label("deepest");
    vector<void *> before = jscan(db);
    int how = src.weighted({4, 3, 2, 2});
    T("import %zu bytes (%s): %s", t.size(), how == 0 ? "document" : how == 1 ? "file" : how == 2 ? "fragment" : "parameter", quote(t, 300).c_str());
    CHECK_(wg_check_json(db, t.c_str()) == 0, "the checker rejects a valid document: %s", quote(t, 200).c_str());
    Doc d; d.j = j; wg_int rc; void *p = NULL; size_t want = jrecs(j);
    switch (how) {
      case 0: rc = wg_parse_json_document(db, t.c_str(), src.chance(1, 8) ? NULL : &p); break;
      case 1: writef(t); rc = wg_parse_json_file(db, tmpf().c_str()); break;
      case 2: rc = wg_parse_json_fragment(db, t.c_str(), &p); break;
      default: rc = wg_parse_json_param(db, t.c_str(), &p); break;
    }
    CHECK_(rc == 0, "importing a valid document (%d) returned %ld: %s", how, (long)rc, quote(t, 200).c_str());
    vector<void *> n = fresh(db, before);
    if (how == 3) {
      CHECK_(n.empty(), "importing a parameter made %zu records visible", n.size());
      label("parameter");
    } else {
      CHECK_(n.size() == want, "import of a document of %zu records created %zu", want, n.size());
      void *root = root_of(db, n);
      if (p) CHECK_(p == root, "the document pointer is not the top-level record");
      p = root;
    }
    CHECK_(p, "no document pointer returned");
    d.p = p; jwalk(db, p, j, d.recs, "after import");
    CHECK_(d.recs.size() == want, "document of %zu records has %zu", want, d.recs.size());
    if (how == 2) {   // a fragment is printed as part of a document
      void *doc = wg_create_array(db, 1, 1, 0); CHECK_(doc, "creating an array failed");
      CHECK_(wg_set_field(db, doc, 0, wg_encode_record(db, p)) == 0, "inserting a fragment failed");
      J a; a.k = J::ARR; a.m.push_back({"", j}); d.j = a; d.p = doc; d.recs.insert(doc); label("fragment");
    }
    J back = jread(db, d.p, "after import"); jsame(d.j, back, "printed document");
    if (how != 3 && q == nd - 1) {   // the printed text imports again
      string o = jprint(db, d.p); void *p2 = NULL;
      if (jdepth(d.j) <= MAXD) { CHECK_(wg_check_json(db, o.c_str()) == 0 && wg_parse_json_document(db, o.c_str(), &p2) == 0 && p2, "a printed document cannot be imported"); CHECK_(jprint(db, p2) == o, "a printed document imports as a different one"); }
    }
    if (jdepth(j) >= 2 && want >= 4) rich = true;
    if (how == 3) { CHECK_(wg_delete_document(db, d.p) == 0, "deleting a parameter document failed"); }
    else docs.push_back(d);
  }
  for (auto &d : docs) { set<void *> rs; jwalk(db, d.p, d.j, rs, "at the end"); jsame(d.j, jread(db, d.p, "at the end"), "at the end"); }
  rows.check(db, "after imports");
  if (rich) nontrivial();
  wg_delete_local_database(db);
}
static bool kf_literals() { void *db = wg_attach_local_database(500000), *d = NULL; bool bad = wg_parse_json_document(db, "{\"a\":true,\"b\":null,\"c\":[false,1]}", &d) == 0 && d && wg_get_record_len(db, d) == 1; wg_delete_local_database(db); return bad; }
static bool kf_nul() { void *db = wg_attach_local_database(500000), *d = NULL; bool bad = wg_parse_json_document(db, "[\"a\\u0000b\"]", &d) == 0 && d && wg_decode_str_len(db, wg_get_field(db, d, 0)) == 1; wg_delete_local_database(db); return bad; }

// ---------------------------------------------------------------- C21
static void mutate(string &t) {
  static const char *tok[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "/", "//", "/*", "*/", "0", "-", ".", "e", "1", "null", "tru", "true", "fals", "nul", "\\u", "\\uD800", "\\u12", "\\x", "\n", "\t", "\x01", "\x1f", "\x7f", "\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xff", "\xfe", "\xf8\x88\x80\x80\x80", "+1", "01", "1.", ".5", "1e", "1e+", "-", "0x1", "1e999", "-1e999", "9223372036854775808", "9223372036854775807", "-9223372036854775807", "9223372036854775850", "99999999999999999999999", "1E400", "1.7976931348623159e308", "5e-324", "1e-999", "NaN", "Infinity", "'a'", "\"a\":1", "[]", "{}", " ", "\"abc", "\"a\"\"b\"", "[1,]", "{,}", "{\"a\"}", "{\"a\":}", "{1:2}", "\"\n\"", "\"\t\"", "#", ";", "(", "=", "\xef\xbb\xbf"};
  size_t n = t.size();
  switch (src.weighted({3, 4, 2, 2, 1, 1, 1, 1})) {
    case 0: if (n) t.erase(src.draw(n), 1 + src.weighted({6, 1, 1})); break;
    case 1: t.insert(src.draw(n + 1), tok[src.draw(sizeof tok / sizeof *tok)]); break;
    case 2: if (n) t[src.draw(n)] = (char)src.draw(256); break;
    case 3: t.resize(src.draw(n + 1)); break;
    case 4: { size_t a = src.draw(n + 1), l = src.draw(std::min<size_t>(n - a, 40) + 1); t.insert(src.draw(n + 1), t.substr(a, l)); break; }
    case 5: { int k = (int)src.range(1, 9); for (int q = 0; q < k; q++) { bool o = src.draw(2); t = (o ? "{\"k\":" : "[") + t + (o ? "}" : "]"); } break; }
    case 6: { if (src.chance(1, 2)) t += tok[src.draw(sizeof tok / sizeof *tok)]; else t = tok[src.draw(sizeof tok / sizeof *tok)] + t; break; }
    default: { size_t a = src.draw(n + 1); for (size_t k = a; k < n; k++) if (t[k] == '"' || (t[k] >= '0' && t[k] <= '9')) { size_t e = t[k] == '"' ? t.find('"', k + 1) : k; if (e != string::npos) t.replace(k, e - k + 1, tok[src.draw(sizeof tok / sizeof *tok)]); break; } }
  }
}
static string snapshot(void *db) {
  string s;
  for (void *p : jscan(db)) {
    wg_int l = wg_get_record_len(db, p); char b[64]; snprintf(b, 64, "%p %ld:", p, (long)l); s += b;
    for (wg_int i = 0; i < l; i++) { wg_int e = wg_get_field(db, p, i); if (wg_get_encoded_type(db, e) == WG_RECORDTYPE) { snprintf(b, 64, "->%p;", wg_decode_record(db, e)); s += b; } else s += show(dec(db, e)) + ";"; }
    for (void *q = wg_get_first_parent(db, p); q; q = wg_get_next_parent(db, p, q)) { snprintf(b, 64, "<%p", q); s += b; }
    s += "\n";
  }
  return s;
}
static void c21() {
  void *db = newdb(3000000); Rows rows; void *d0 = NULL;
  rows.add(db, {vint(1), vstr("a"), vint(2)});
  CHECK_(wg_parse_json_document(db, "{\"a\":[1,\"x\",{\"b\":2.5}]}", &d0) == 0, "import failed");
  if (src.chance(1, 4)) { wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0); }
  string before = snapshot(db);
  JGen G; G.small = true; G.budget = src.chance(1, 6) ? 60 : 10;
  string t;
  if (src.chance(1, 12)) t = src.chance(1, 3) ? "" : src.chance(1, 2) ? "17" : "\"s\"";
  else { J j = G.cont((int)src.range(1, MAXD), !src.chance(1, 3)); t = jrender(j, (int)src.draw(3)); }
  bool chunky = src.chance(1, 12); if (chunky) t = pad_to_chunk(t, src.chance(1, 2));
  for (int n = src.weighted({1, 6, 2, 1}); n > 0; n--) { Span sp; mutate(t); }
  bool nul = t.find('\0') != string::npos;
  J j; JP P(t); bool valid = P.document(j, MAXD);
  T("%s text (%s at %zu): %s", valid ? "valid" : "invalid", P.err.c_str(), P.p, quote(t, 400).c_str());
  if (!nul) {
    wg_int rc = wg_check_json(db, t.c_str());
    if (valid) CHECK_(rc == 0, "the checker rejects valid text: %s", quote(t, 200).c_str());
    else CHECK_(rc != 0, "the checker accepts invalid text (%s at %zu): %s", P.err.c_str(), P.p, quote(t, 200).c_str());
    CHECK_(snapshot(db) == before, "checking a text changed the database");
  }
  // import from a file checks first
  writef(t); vector<void *> b = jscan(db);
  wg_int rc = wg_parse_json_file(db, tmpf().c_str());
  if (!valid) {
    CHECK_(rc != 0, "a file with invalid text (%s at %zu) was imported: %s", P.err.c_str(), P.p, quote(t, 200).c_str());
    CHECK_(snapshot(db) == before, "a rejected file changed the database: %s", quote(t, 200).c_str());
    if (!nul && (P.maxd <= MAXD || P.maxd > MAXD + 1 || P.err != "nested too deep")) {
      void *p = NULL; rc = wg_parse_json_document(db, t.c_str(), &p);
      CHECK_(rc != 0, "a document with invalid text (%s at %zu) was imported: %s", P.err.c_str(), P.p, quote(t, 200).c_str());
      rows.check(db, "after a rejected document"); jread(db, d0, "after a rejected document");
      CHECK_(snapshot(db).size() >= before.size() / 2, "a rejected document removed records");
    }
    if (t.size() > 2) nontrivial();
    label(P.err.c_str());
  } else {
    CHECK_(rc == 0, "a valid file was rejected with %ld: %s", (long)rc, quote(t, 200).c_str());
    void *root = root_of(db, fresh(db, b));
    if (jodd(j)) { excluded("literals, \\u0000 or unpaired low surrogates"); jread(db, root, "after import"); }
    else { jsame(j, jread(db, root, "after import"), "imported text"); set<void *> rs; jwalk(db, root, j, rs, "after import"); }
    label("still valid"); nontrivial();
  }
  rows.check(db, "after the import");
  wg_delete_local_database(db);
}

// ---------------------------------------------------------------- C22 C23
struct Hist {
  void *db = nullptr; vector<Doc> docs; Rows rows; int idx = 0; size_t frag = 0, maxhit = 0; vector<J> frags;
  struct Link { void *row; void *target; size_t doc; }; vector<Link> links;
  static J num(i64 i) { J j; j.k = J::INT; j.i = i; return j; }
  static J scalar() {
    J j;
    switch (src.weighted({5, 4, 2})) {
      case 0: return num(src.range(0, 3));
      case 1: { j.k = J::STR; static const char *k[] = {"x", "y", "a", "", "a longer string which is stored apart from its field"}; j.s = k[src.draw(5)]; return j; }
      default: j.k = J::DBL; j.d = (double)src.range(0, 3) / 2; return j;
    }
  }
  static string key() { static const char *k[] = {"a", "b", "c", "a key that is longer than thirty-one bytes"}; return k[src.weighted({4, 3, 2, 1})]; }
  static J cont(int depth, int &budget) {
    J j; j.k = src.chance(2, 5) ? J::ARR : J::OBJ;
    for (int n = 0; n < 6 && budget > 0 && (n == 0 ? !src.chance(1, 10) : src.more(2)); n++) {
      pair<string, J> e; budget--; if (j.k == J::OBJ) e.first = key();
      e.second = depth > 1 && src.chance(2, 5) ? cont(depth - 1, budget) : scalar(); j.m.push_back(e);
    }
    return j;
  }
  static void collect(const J &j, vector<pair<string, J>> &o) { for (auto &e : j.m) { if (j.k == J::OBJ) o.push_back(e); collect(e.second, o); } }
  static bool has(const J &doc, const string &k, const J &v) {
    vector<pair<string, J>> o; collect(doc, o);
    for (auto &e : o) if (e.first == k) { if (jeq(e.second, v)) return true; if (e.second.k == J::ARR) for (auto &x : e.second.m) if (jeq(x.second, v)) return true; }
    return false;
  }
  void mkindex(int k) {
    wg_int rc = 0;
    if (k & 1) { wg_int c[2] = {1, 2}; rc |= wg_create_multi_index(db, c, 2, WG_INDEX_TYPE_HASH_JSON, NULL, 0); }
    if (k & 2) rc |= wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0);
    if (k & 4) rc |= wg_create_index(db, 2, WG_INDEX_TYPE_TTREE, NULL, 0);
    CHECK_(rc == 0, "creating an index failed"); idx |= k; T("indexes %d", k);
  }
  void insert(int maxd, int budget) {
    Doc d; d.j = src.draw(maxd) == 0 && src.chance(1, 8) ? J() : cont((int)src.range(1, maxd), budget);
    if (src.chance(1, 12)) while (jdepth(d.j) < MAXD) { J k; k.k = J::OBJ; k.m.push_back({key(), d.j}); d.j = k; }
    string t = jrender(d.j, (int)src.draw(2)); vector<void *> b; bool file = src.chance(1, 5);
    T("insert document %s", t.c_str());
    if (file) { b = jscan(db); writef(t); CHECK_(wg_parse_json_file(db, tmpf().c_str()) == 0, "importing %s failed", t.c_str()); d.p = root_of(db, fresh(db, b)); }
    else CHECK_(wg_parse_json_document(db, t.c_str(), &d.p) == 0 && d.p, "importing %s failed", t.c_str());
    jwalk(db, d.p, d.j, d.recs, "after import"); docs.push_back(d);
  }
  // many small documents with few different contents, so that a clause selects hundreds of them
  void bulk(size_t n, u64 seed, int vals) {
    auto rnd = [&](int m) { seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; return (int)((seed >> 33) % (u64)m); };
    T("insert %zu small documents", n);
    while (n--) {
      Doc d; d.j.k = J::OBJ;
      for (int k = 1 + rnd(3); k > 0; k--) {
        pair<string, J> e; static const char *ks[] = {"a", "b", "c"}; e.first = ks[rnd(3)];
        if (rnd(3)) e.second = num(rnd(vals)); else { e.second.k = rnd(4) ? J::ARR : J::OBJ; for (int i = rnd(4); i > 0; i--) e.second.m.push_back({e.second.k == J::OBJ ? ks[rnd(3)] : "", num(rnd(vals))}); }
        d.j.m.push_back(e);
      }
      CHECK_(wg_parse_json_document(db, jrender(d.j, 0).c_str(), &d.p) == 0 && d.p, "importing a document failed");
      jwalk(db, d.p, d.j, d.recs, "after import"); docs.push_back(d);
    }
  }
  bool referenced(size_t n) { for (auto &l : links) if (l.doc == n) return true; return false; }
  void erase(size_t n) {
    bool ref = referenced(n); wg_int rc = wg_delete_document(db, docs[n].p);
    T("delete document %s%s -> %ld", jshow(docs[n].j).c_str(), ref ? " (referenced)" : "", (long)rc);
    if (ref) { CHECK_(rc == -1, "deleting a document that a row refers to returned %ld", (long)rc); label("referenced document"); return; }
    CHECK_(rc == 0, "deleting a document returned %ld", (long)rc);
    if (jdepth(docs[n].j) == MAXD) label("deepest deleted");
    docs.erase(docs.begin() + n); for (auto &l : links) if (l.doc > n) l.doc--;
  }
  // changes one value inside a document
  void update(size_t n) {
    J *j = &docs[n].j; void *rec = docs[n].p;
    for (;;) {
      if (j->m.empty()) return;
      size_t i = src.draw(j->m.size()); J *v = &j->m[i].second; void *holder = rec; wg_int f = (wg_int)i;
      if (j->k == J::OBJ) { holder = wg_decode_record(db, wg_get_field(db, rec, f)); f = 2; }
      if (v->cont()) { rec = wg_decode_record(db, wg_get_field(db, holder, f)); j = v; continue; }
      J s = scalar(); wg_int e = s.k == J::INT ? wg_encode_int(db, s.i) : s.k == J::DBL ? wg_encode_double(db, s.d) : wg_encode_str(db, s.s.c_str(), NULL);
      T("change a value in %s to %s", jshow(docs[n].j).c_str(), jshow(s).c_str());
      CHECK_(wg_set_field(db, holder, f, e) == 0, "changing a value in a document failed");
      *v = s; label("updated"); return;
    }
  }
  void row() {
    vector<Val> f; Val v; J s = scalar(); v = s.k == J::INT ? vint(s.i) : s.k == J::STR ? vstr(s.s) : Val();
    switch (src.draw(3)) { case 0: f = {Val(), vstr(key()), v}; break; case 1: f = {vint(1), vstr(key()), v, vint(3)}; break; default: f = {vstr(key()), v}; }
    rows.add(db, f); T("row of %zu columns like a key-value pair", f.size()); label("row");
  }
  void link(size_t n) {   // a row that refers to a document or to a part of it
    vector<void *> t(docs[n].recs.begin(), docs[n].recs.end()); if (t.empty()) return;
    std::sort(t.begin(), t.end()); void *target = src.chance(1, 2) ? docs[n].p : t[src.draw(t.size())];
    void *r = wg_create_record(db, 2); CHECK_(r && wg_set_field(db, r, 1, wg_encode_record(db, target)) == 0, "linking failed");
    if (target != docs[n].p && src.chance(1, 2)) {   // the part is taken out of the document and put back: now the row is its first parent
      void *up = NULL; int f = 0;
      for (void *p : docs[n].recs) for (int k = 0; k < wg_get_record_len(db, p); k++) if (wg_get_field(db, p, k) == wg_encode_record(db, target)) { up = p; f = k; }
      if (up) { CHECK_(wg_set_field(db, up, f, wg_encode_null(db, 0)) == 0 && wg_set_field(db, up, f, wg_encode_record(db, target)) == 0, "taking a part out of a document and putting it back failed"); label("part put back"); }
    }
    links.push_back({r, target, n}); T("row refers to a record of document %s", jshow(docs[n].j).c_str());
  }
  void unlink(size_t k) { CHECK_(wg_set_field(db, links[k].row, 1, 0) == 0 && wg_delete_record(db, links[k].row) == 0, "removing a referring row failed"); links.erase(links.begin() + k); T("referring row removed"); }
  void fragment() {
    int b = 4; J j = cont(2, b); string t = jrender(j, 0); void *p = NULL;
    T("insert fragment %s", t.c_str());
    CHECK_(wg_parse_json_fragment(db, t.c_str(), &p) == 0 && p, "importing a fragment failed"); frag += jrecs(j); label("fragment");
  }
  void check(const char *where, bool print) {
    size_t want = rows.r.size() + links.size() + frag; for (auto &d : docs) want += jrecs(d.j);
    vector<void *> s = jscan(db); CHECK_(s.size() == want, "%s: %zu records, expected %zu", where, s.size(), want);
    set<void *> all(s.begin(), s.end());
    for (auto &d : docs) { set<void *> rs; jwalk(db, d.p, d.j, rs, where); for (void *p : rs) CHECK_(all.count(p), "%s: a record of a document is not found by the scan", where); if (print) jsame(d.j, jread(db, d.p, where), where); }
    rows.check(db, where);
    for (auto &l : links) CHECK_(wg_decode_record(db, wg_get_field(db, l.row, 1)) == l.target, "%s: a link changed", where);
  }
  // one query; returns 1 if it selects some but not all documents
  int query() {
    int argc = 1 + src.weighted({5, 3, 1}); vector<pair<string, J>> cl; vector<json_arg> a(argc); vector<void *> params; vector<wg_int> encs;
    for (int n = 0; n < argc; n++) {
      pair<string, J> c; vector<pair<string, J>> o;
      if (!docs.empty() && src.chance(2, 3)) collect(docs[src.draw(docs.size())].j, o);
      if (!o.empty()) { c = o[src.draw(o.size())]; if (c.second.k == J::ARR && !c.second.m.empty() && src.chance(1, 2)) { J e = c.second.m[src.draw(c.second.m.size())].second; c.second = e; label("array element"); } }
      else { c.first = key(); int b = 3; c.second = src.chance(1, 4) ? cont(2, b) : scalar(); }
      if (c.second.cont() && jdepth(c.second) > 3) { c.second = scalar(); }
      if (jempty(c.second)) { excluded("empty containers in queries"); c.second = scalar(); }
      cl.push_back(c);
    }
    T("query %d clauses", argc); for (auto &c : cl) T("  %s = %s", quote(c.first).c_str(), jshow(c.second).c_str());
    for (int n = 0; n < argc; n++) {
      J &v = cl[n].second; a[n].key = wg_encode_query_param_str(db, cl[n].first.c_str(), NULL);
      switch (v.k) {
        case J::INT: a[n].value = wg_encode_query_param_int(db, v.i); break;
        case J::DBL: a[n].value = wg_encode_query_param_double(db, v.d); break;
        case J::STR: a[n].value = wg_encode_query_param_str(db, v.s.c_str(), NULL); break;
        default: { void *p = NULL; string t = jrender(v, 0); CHECK_(wg_parse_json_param(db, t.c_str(), &p) == 0 && p, "importing parameter %s failed", t.c_str()); params.push_back(p); a[n].value = wg_encode_record(db, p); label("complex value"); }
      }
      CHECK_(a[n].key != WG_ILLEGAL && a[n].value != WG_ILLEGAL, "encoding a parameter failed");
    }
    wg_query *q = wg_make_json_query(db, a.data(), argc); CHECK_(q, "the query failed");
    set<void *> got; size_t want = 0;
    for (void *p; (p = wg_fetch(db, q));) {
      size_t n = 0; while (n < docs.size() && docs[n].p != p) n++;
      CHECK_(n < docs.size(), "the query returned a record that is not a document");
      CHECK_(got.insert(p).second, "the query returned document %s twice", jshow(docs[n].j).c_str());
      for (auto &c : cl) CHECK_(has(docs[n].j, c.first, c.second), "the query returned %s, which has no %s = %s", jshow(docs[n].j).c_str(), quote(c.first).c_str(), jshow(c.second).c_str());
    }
    for (auto &d : docs) { bool m = true; for (auto &c : cl) m = m && has(d.j, c.first, c.second); if (m) { want++; CHECK_(got.count(d.p), "the query (%d clauses, indexes %d) misses %s", argc, idx, jshow(d.j).c_str()); } }
    wg_free_query(db, q);
    for (int n = 0; n < argc; n++) { wg_free_query_param(db, a[n].key); if (!cl[n].second.cont()) wg_free_query_param(db, a[n].value); }
    for (void *p : params) CHECK_(wg_delete_document(db, p) == 0, "deleting a parameter failed");
    maxhit = std::max(maxhit, want); return want && want < docs.size();
  }
};
static void c22() {
  Hist h; h.db = newdb(3000000); static const int ix[] = {0, 1, 2, 3, 4, 6, 7, 5};
  int cfg = ix[src.draw(8)]; bool late = src.chance(1, 3); if (cfg && !late) h.mkindex(cfg);
  int good = 0, maxd = (int)src.range(1, 4), big = src.chance(1, 15); if (big) label("many documents");
  if (src.chance(1, 25)) { size_t n = (size_t)src.range(10, src.chance(1, 4) ? 1500 : 150); u64 sd = src.draw(1u << 30); h.bulk(n, sd, (int)src.range(1, 4)); }
  for (int n = 0; n < (big ? 150 : 30) && (n < 4 || src.more(big ? 120 : 16)); n++) {
    Span sp;
    switch (src.weighted({8, h.docs.empty() ? 0 : 2, h.docs.empty() ? 0 : 2, 2, 1, 3, h.docs.empty() ? 0 : 1, h.links.empty() ? 0 : 1})) {
      case 0: h.insert(maxd, 14); break;
      case 6: h.link(src.draw(h.docs.size())); label("row linked to a document"); break;
      case 7: h.unlink(src.draw(h.links.size())); break;
      case 1: h.erase(src.draw(h.docs.size())); break;
      case 2: h.update(src.draw(h.docs.size())); break;
      case 3: h.row(); break;
      case 4: h.fragment(); break;
      default: good += h.query();
    }
  }
  if (cfg && late) h.mkindex(cfg);
  for (int n = 3; n > 0; n--) { Span sp; good += h.query(); }
  h.check("at the end", false);
  if (h.docs.size() >= 25) label("25 or more documents"); if (h.docs.size() >= 200) label("200 or more documents"); if (h.maxhit >= 20) label("a query selects 20 or more"); if (h.maxhit >= 200) label("a query selects 200 or more");
  if (good) nontrivial();
  wg_delete_local_database(h.db);
}
static bool kf_empty() {
  void *db = wg_attach_local_database(500000), *d = NULL, *p = NULL; json_arg a; bool bad = false;
  wg_parse_json_document(db, "{\"a\":{}}", &d); wg_parse_json_param(db, "[]", &p);
  a.key = wg_encode_query_param_str(db, "a", NULL); a.value = wg_encode_record(db, p);
  wg_query *q = wg_make_json_query(db, &a, 1); bad = q && wg_fetch(db, q) == d; wg_delete_local_database(db); return bad;
}
static void c23() {
  Hist h; h.db = newdb(3000000); if (src.chance(1, 2)) h.mkindex((int)src.range(1, 7));
  int dels = 0; wg_int cycle = 0;
  for (int n = 0; n < 40 && (n < 5 || src.more(14)); n++) {
    Span sp;
    switch (src.weighted({8, h.docs.empty() ? 0 : 6, h.docs.empty() ? 0 : 2, h.docs.empty() ? 0 : 2, h.links.empty() ? 0 : 2, 1, 1, 1})) {
      case 0: h.insert(MAXD, 30); break;
      case 1: { size_t before = h.docs.size(); h.erase(src.draw(before)); dels += h.docs.size() < before; h.check("after deleting a document", false); break; }
      case 2: h.update(src.draw(h.docs.size())); break;
      case 3: h.link(src.draw(h.docs.size())); break;
      case 4: h.unlink(src.draw(h.links.size())); break;
      case 5: h.row(); break;
      case 6: h.fragment(); break;
      default: h.query();
    }
  }
  (void)cycle;
  h.check("at the end", true);
  if (h.idx && src.chance(1, 2)) h.query();
  // afterwards every document that nothing refers to can be removed
  while (!h.links.empty()) h.unlink(h.links.size() - 1);
  while (!h.docs.empty()) { h.erase(h.docs.size() - 1); dels++; }
  h.check("after removing all documents", false);
  if (dels >= 3) nontrivial();
  wg_delete_local_database(h.db);
}
// the same document inserted and deleted until a small database would have overflowed many times
static void c23_enum(u64 n) {
  static const char *t[] = {"{}", "[]", "{\"a\":1}", "[1,\"a string that is longer than thirty-one bytes\"]", "{\"a\":{\"b\":{\"c\":{\"d\":{\"e\":5.5}}}}}", "[[[[[[1.5]]]]]]", "{\"a\":[1,2,{\"b\":\"x\"}],\"c\":[]}", "{\"a key that is longer than thirty-one bytes\":\"a value that is longer than thirty-one bytes\"}"};
  void *db = newdb(400000); string text = t[n % 8]; bool ix = n >= 8;
  if (ix) { wg_int c[2] = {1, 2}; CHECK_(wg_create_multi_index(db, c, 2, WG_INDEX_TYPE_HASH_JSON, NULL, 0) == 0 && wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0) == 0, "creating an index failed"); }
  T("20000 times insert and delete %s, indexes: %d", text.c_str(), ix);
  for (int k = 0; k < 20000; k++) {
    void *d = NULL; wg_int rc = wg_parse_json_document(db, text.c_str(), &d);
    CHECK_(rc == 0 && d, "import number %d of %s into an otherwise empty database returned %ld", k + 1, text.c_str(), (long)rc);
    CHECK_(wg_delete_document(db, d) == 0, "deletion number %d failed", k + 1);
  }
  CHECK_(!wg_get_first_record(db), "records remain"); nontrivial(); label("cycles");
  wg_delete_local_database(db);
}

int main(int argc, char **argv) {
  vector<Property> ps; Property p;
  p.id = "C20"; p.run = c20; p.quick_cases = 30000; p.thorough_cases = 400000; p.batch = 10;
  p.rule = "random documents up to the supported depth with random spelling (escapes, comments, white space, number forms, 16384-byte boundaries), imported as document, file, fragment or parameter, then walked record by record and printed; non-trivial: a document of depth 2 or more with at least 4 records";
  p.assumptions = {"-9223372036854775808 is not representable in the parser", "lone surrogates are outside the domain"};
  p.known = {{"json-literals-dropped", "true, false and null vanish from imported documents", kf_literals}, {"json-u0000-truncates", "a string with \\u0000 is cut at that character", kf_nul}};
  ps.push_back(p);
  p = Property(); p.id = "C21"; p.run = c21; p.quick_cases = 80000; p.thorough_cases = 1000000; p.batch = 20;
  p.rule = "valid documents with 0-3 mutations (deleted, inserted and replaced bytes, truncation, wrong numbers, bad UTF-8, extra nesting, chunk boundaries), judged by an independent strict parser; non-trivial: an invalid text of more than two bytes or a mutation that stayed valid and was compared";
  p.assumptions = {"comments and vertical white space are part of the accepted grammar", "UTF-8 is judged by its sequence structure", "texts nested one level deeper than the checker allows are not judged for wg_parse_json_document, which is documented to leave parts behind"};
  ps.push_back(p);
  p = Property(); p.id = "C22"; p.run = c22; p.quick_cases = 20000; p.thorough_cases = 300000; p.batch = 10;
  p.rule = "histories of document inserts, deletes, updates, look-alike rows and fragments under 8 index configurations, queries of 1-3 clauses compared with the model; non-trivial: a query selects some but not all documents";
  p.assumptions = {"complex values are at most 3 levels deep (record comparison depth)", "members of object values are compared in stored order"};
  p.known = {{"json-empty-containers-equal", "the query value [] matches {} and the reverse", kf_empty}};
  ps.push_back(p);
  p = Property(); p.id = "C23"; p.run = c23; p.quick_cases = 20000; p.thorough_cases = 300000; p.batch = 10;
  p.n_enum = 16; p.run_enum = c23_enum;
  p.rule = "histories of document inserts and deletes with referring rows, fragments, updates and indexes, every remaining record compared after each deletion; plus 16 long insert/delete cycles; non-trivial: at least 3 documents deleted";
  p.assumptions = {"documents do not share records"};
  ps.push_back(p);
  return main_(argc, argv, ps);
}
