// C29 C30 C31: the reasoner (verdicts, term operations, clause texts)
#include "wg.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <errno.h>
#include <sys/time.h>
extern "C" {
void *rs_new(void *db); void rs_free(void *g);
int rs_import(void *g, char *text, void **out, int max, int *n); int rs_import_file(void *g, char *name);
int rs_isrule(void *g, void *cl), rs_isfact(void *g, void *cl), rs_natoms(void *g, void *cl), rs_neg(void *g, void *cl, int i), rs_first(void *g);
wg_int rs_atom(void *g, void *cl, int i);
int rs_unify_build(void *g, wg_int a, wg_int b, int rename, wg_int *ia, wg_int *ib), rs_funpos(void *g); wg_int rs_operator(int plus);
int rs_equal(void *g, wg_int a, wg_int b), rs_unify(void *g, wg_int a, wg_int b), rs_match(void *g, wg_int a, wg_int b), rs_subsume(void *g, void *a, void *b);
void rs_clear_all(void *g); int rs_is_clear(void *g);
int wg_run_reasoner(void *db, int argc, char **argv);
int wg_import_otter_file(void *db, char *filename);
void *wg_get_first_raw_record(void *db); void *wg_get_next_raw_record(void *db, void *r);
}
// the reasoner narrates on standard output
struct Quiet {
  int save;
  Quiet() { fflush(stdout); save = dup(1); int n = open(getenv("PBT_LOUD") ? "/dev/stderr" : "/dev/null", O_WRONLY); dup2(n, 1); close(n); }
  ~Quiet() { fflush(stdout); dup2(save, 1); close(save); }
};

// ---- terms: var | int | double | string | name | date | time | compound (a[0] is the functor)
enum { VAR, INT, DBL, STR, NAME, DATE, TIME, CMP };
struct Tm { int k = NAME; string s; vector<Tm> a; };     // s: var name, digits, text
struct Lit { bool neg = false; Tm t; };
typedef vector<Lit> Cl;
static Tm leaf(int k, const string &s) { Tm t; t.k = k; t.s = s; return t; }
static bool is_ident(const string &s) {
  if (s.empty() || !isalpha((unsigned char)s[0])) return false;
  for (char c : s) if (!(isalnum((unsigned char)c) || strchr("_:+-*/<>=", c)) || !c) return false;
  return s.find("/*") == string::npos;
}
static bool is_op(const string &s) { return s == "+" || s == "*" || s == "/" || s == "<" || s == ">" || s == "=" || s == "<=" || s == ">="; }
static string quoted(const string &s, char q) {
  string r(1, q);
  for (char c : s) { if (c == q) { r += '\\'; r += q; } else if (c == '\n' && src.chance(1, 2)) r += "\\n"; else if (c == '\t' && src.chance(1, 2)) r += "\\t"; else r += c; }
  return r + q;
}
typedef vector<string> Toks;
static void tok(const Tm &t, Toks &o) {
  switch (t.k) {
    case VAR: o.push_back("?" + t.s); break;
    case STR: o.push_back(quoted(t.s, '"')); break;
    case NAME: if ((is_ident(t.s) || is_op(t.s)) && !src.chance(1, 8)) o.push_back(t.s); else o.push_back(quoted(t.s, '\'')); break;
    case CMP:
      if (t.a[0].k == NAME && t.a[0].s == "\1not") { o.push_back("-"); tok(t.a[1], o); break; }
      tok(t.a[0], o); o.push_back("("); for (size_t i = 1; i < t.a.size(); i++) { if (i > 1) o.push_back(","); tok(t.a[i], o); } o.push_back(")"); break;
    default: o.push_back(t.s);
  }
}
static Toks tok(const Cl &c) { Toks o; for (size_t i = 0; i < c.size(); i++) { if (i) o.push_back("|"); if (c[i].neg) o.push_back("-"); if (c[i].t.k == CMP && c[i].t.a.size() == 1 && src.chance(2, 3)) { tok(c[i].t.a[0], o); continue; } tok(c[i].t, o); }   // p is p()
  o.push_back("."); return o; }
static string spaces(bool need) {
  if (src.chance(1, 12)) { static const char *k[] = {" /* a comment */ ", " % p(a).\n", " /**/", " /* * ** / \n */", "\t", "\r\n", "\n\n"}; string r = k[src.draw(7)]; return r; }
  return need || src.chance(1, 3) ? " " : "";
}
static string text(const vector<Toks> &v) {
  string s = spaces(true);
  for (auto &c : v) { for (size_t i = 0; i < c.size(); i++) { bool need = i + 1 < c.size() && !strchr("().,|", c[i][0]) && !(c[i + 1].size() == 1 && strchr("(),|", c[i + 1][0])); if (c[i] == "." || (i + 1 < c.size() && c[i + 1] == ".")) need = true; s += c[i] + spaces(need); } s += "\n"; }
  return s;
}
static string simple_text(const vector<Cl> &v) { string s; for (auto &c : v) { for (auto &t : tok(c)) s += (t == "|" ? " | " : t); s += "\n"; } return s; }

// canonical form: variables numbered by first occurrence in the clause
typedef map<string, int> VM;
static string dkey(double d) { char b[40]; snprintf(b, 40, "%a", d); return b; }
static i64 day_nr(const string &s) { int y = atoi(s.substr(0, 4).c_str()), m = atoi(s.substr(5, 2).c_str()), d = atoi(s.substr(8, 2).c_str()); y -= m <= 2; i64 era = y / 400; int yoe = (int)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 305; }
static string canon(const Tm &t, VM &vm) {
  switch (t.k) {
    case VAR: { auto it = vm.emplace(t.s, (int)vm.size()).first; return "?" + std::to_string(it->second); }
    case INT: return "i" + std::to_string(strtoll(t.s.c_str(), NULL, 10));
    case DBL: return "d" + dkey(strtod(t.s.c_str(), NULL));
    case STR: return "s" + quote(t.s, 100000);
    case NAME: if (t.s[0] == '\2') return "!" + t.s.substr(1); return t.s == "\1not" ? string("u\"not\"") : "u" + quote(t.s, 100000);
    case DATE: return "D" + std::to_string(day_nr(t.s));
    case TIME: return "T" + std::to_string(((atoi(t.s.c_str()) * 60 + atoi(t.s.c_str() + 3)) * 60 + atoi(t.s.c_str() + 6)) * 100);
    default: { string r = "("; for (size_t i = 0; i < t.a.size(); i++) r += (i ? " " : "") + canon(t.a[i], vm); return r + ")"; }
  }
}
static string canon(const Cl &c) { VM vm; string r; for (auto &l : c) r += (l.neg ? " -" : " +") + canon(l.t, vm); return r; }
static void *g_db, *g_g;
static string canon_db(wg_int e, map<wg_int, int> &vm, int depth = 0) {
  CHECK_(depth < 200, "a stored term is nested without end");
  void *db = g_db;
  switch (wg_get_encoded_type(db, e)) {
    case WG_VARTYPE: { auto it = vm.emplace(wg_decode_var(db, e), (int)vm.size()).first; return "?" + std::to_string(it->second); }
    case WG_INTTYPE: return "i" + std::to_string((i64)wg_decode_int(db, e));
    case WG_DOUBLETYPE: return "d" + dkey(wg_decode_double(db, e));
    case WG_STRTYPE: { char *p = wg_decode_str(db, e); CHECK_(p, "a stored string cannot be read"); return "s" + quote(p, 100000); }
    case WG_URITYPE: { char *p = wg_decode_uri(db, e), *x = wg_decode_uri_prefix(db, e); CHECK_(p, "a stored name cannot be read"); return "u" + quote(x ? string(x) + p : string(p), 100000); }
    case WG_ANONCONSTTYPE: return string("!") + (e == rs_operator(1) ? "+" : e == rs_operator(0) ? "=" : e == rs_operator(2) ? "true" : e == rs_operator(3) ? "false" : "other");
    case WG_DATETYPE: return "D" + std::to_string(wg_decode_date(db, e));
    case WG_TIMETYPE: return "T" + std::to_string(wg_decode_time(db, e));
    case WG_NULLTYPE: return "null";
    case WG_RECORDTYPE: { void *r = wg_decode_record(db, e); int n = (int)wg_get_record_len(db, r); string s = "("; for (int i = rs_first(g_g); i < n; i++) s += (i > rs_first(g_g) ? " " : "") + canon_db(wg_get_field(db, r, i), vm, depth + 1); return s + ")"; }
    default: return "<" + std::to_string(wg_get_encoded_type(db, e)) + ">";
  }
}
static string canon_cl(void *cl) { map<wg_int, int> vm; string r; for (int i = 0, n = rs_natoms(g_g, cl); i < n; i++) r += (rs_neg(g_g, cl, i) ? " -" : " +") + canon_db(rs_atom(g_g, cl, i), vm); return r; }
static vector<void *> stored() { vector<void *> v; for (void *r = wg_get_first_raw_record(g_db); r; r = wg_get_next_raw_record(g_db, r)) if (rs_isrule(g_g, r) || rs_isfact(g_g, r)) v.push_back(r); return v; }

// ---- generators
static string gen_name() {
  switch (src.weighted({12, 2, 2, 1, 1})) {
    case 0: { static const char *k[] = {"a", "b", "c", "f", "g", "h", "p", "q"}; return k[src.draw(8)]; }
    case 1: { static const char *k[] = {"+", "=", "<", "*", ">=", "<=", ">", "/"}; return k[src.draw(8)]; }
    case 2: { string s(1, (char)('a' + src.draw(26))); static const string al = "abXYZ019_:+-*<>="; while (src.more(4)) s += al[src.draw(al.size())]; return s; }
    case 3: { string s = src.chance(1, 2) ? "long" : "v"; int n = (int)src.range(1, src.chance(1, 4) ? 1500 : 40); for (int i = 0; i < n; i++) s += (char)('a' + (i * 7 + n) % 26); return s; }
    default: { string s; static const string al = "a b\t(),.|-?%\"/*\nZ"; do s += al[src.draw(al.size())]; while (src.more(5)); return s; }
  }
}
static string gen_rtext() {
  string s; static const string al = "abc XYZ.,()|-?'%/*\n\t!\xc3\xa4" "\"0";
  switch (src.weighted({6, 3, 2, 1})) {
    case 0: while (src.more(3)) s += (char)('a' + src.draw(3)); return s;
    case 1: while (src.more(8)) s += al[src.draw(al.size())]; return s;
    case 2: { int n = (int)src.range(28, 36); for (int i = 0; i < n; i++) s += (char)('a' + i % 3); return s; }
    default: { int n = (int)src.range(100, src.chance(1, 3) ? 5000 : 1100); for (int i = 0; i < n; i++) s += (char)('a' + i % 23); return s; }
  }
}
static string gen_digits() {
  switch (src.weighted({8, 2, 2, 1})) {
    case 0: return std::to_string(src.range(0, 3));
    case 1: return std::to_string(src.range(0, 100000));
    case 2: { i64 v = (i64)1 << src.range(20, 62); return std::to_string(v + src.range(-1, 1)); }
    default: return "00" + std::to_string(src.range(0, 20));
  }
}
struct Sig { int vars = 3; bool rich = true; int depth = 3; bool ops = false; };
static Tm gen_term(const Sig &z, int depth) {
  int k = src.weighted({5, z.vars ? 4 : 0, 2, depth > 0 ? 4 : 0, z.rich ? 1 : 0, z.rich ? 1 : 0, z.rich ? 1 : 0});
  switch (k) {
    case 0: { if (z.rich && src.chance(1, 5)) return leaf(NAME, gen_name()); return leaf(NAME, string(1, (char)('a' + src.draw(3)))); }
    case 1: return leaf(VAR, z.rich && src.chance(1, 10) ? "v_" + std::to_string(src.draw(30)) : string(1, (char)('X' + src.draw((u64)std::min(z.vars, 3)))));
    case 2: return leaf(INT, z.rich ? gen_digits() : std::to_string(src.range(0, 2)));
    case 3: { Tm t; t.k = CMP; if (z.ops && src.chance(1, 2)) { t.a.push_back(leaf(NAME, src.chance(2, 3) ? "+" : "=")); for (int i = 0; i < 2; i++) t.a.push_back(src.chance(1, 3) ? gen_term(z, depth - 1) : src.chance(1, 2) ? leaf(VAR, string(1, (char)('X' + src.draw((u64)std::max(1, std::min(z.vars, 3)))))) : src.chance(1, 3) ? leaf(DBL, std::to_string(src.range(0, 3)) + ".5") : leaf(INT, std::to_string(src.range(0, 5)))); return t; } if (z.rich && src.chance(1, 12)) { t.a.push_back(leaf(NAME, "\1not")); t.a.push_back(gen_term(z, depth - 1)); return t; } t.a.push_back(leaf(NAME, z.rich && src.chance(1, 5) ? gen_name() : string(1, (char)('f' + src.draw(2))))); int n = (int)src.range(1, 3); if (z.rich && src.chance(1, 12)) n = 0; for (int i = 0; i < n; i++) t.a.push_back(gen_term(z, depth - 1)); return t; }
    case 4: return leaf(STR, gen_rtext());
    case 5: { char b[40]; snprintf(b, 40, "%lld.%0*lld", (long long)src.range(0, 30), (int)src.range(1, 6), (long long)src.range(0, 9)); return leaf(DBL, b); }
    default: { char b[40]; if (src.chance(1, 2)) { static const int dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int m = (int)src.range(1, 12); snprintf(b, 40, "%04d-%02d-%02d", (int)src.range(1, 9999), m, (int)src.range(1, dm[m - 1])); return leaf(DATE, b); } snprintf(b, 40, "%02d:%02d:%02d", (int)src.range(0, 23), (int)src.range(0, 59), (int)src.range(0, 59)); return leaf(TIME, b); }
  }
}
static Tm gen_atom(const Sig &z, int npred, int ar_lo, int ar_hi) {
  Tm t; t.k = CMP; t.a.push_back(leaf(NAME, z.rich && src.chance(1, 4) ? gen_name() : string(1, (char)('p' + src.draw((u64)npred)))));
  int n = (int)src.range(ar_lo, ar_hi); for (int i = 0; i < n; i++) t.a.push_back(gen_term(z, z.depth - 1)); return t;
}
static Cl gen_clause(const Sig &z, int maxlit, int npred, int ar_lo, int ar_hi) { Cl c; int n = (int)src.range(1, maxlit); for (int i = 0; i < n; i++) { Lit l; l.neg = src.chance(1, 2); l.t = gen_atom(z, npred, ar_lo, ar_hi); c.push_back(l); } return c; }

static void open_db(wg_int size) { g_db = wg_attach_local_database(size); if (!g_db) discard(); g_g = rs_new(g_db); if (!g_g) discard(); rs_clear_all(g_g); }

// ---------------------------------------------------------------- C31
// the grammar: sentence := term ('|' term)* '.'; term := '-' term | prim [ '(' [term (',' term)*] ')' ]
struct P { const Toks &t; size_t i; int lits = 0; bool flat = false, deep = false; };
static bool is_prim(const string &s) { return !(s.size() == 1 && strchr("().,|-", s[0])); }
static bool p_term(P &p, int depth) {
  if (p.i >= p.t.size()) return false;
  if (p.t[p.i] == "-") { p.i++; if (depth == 0 && p.i < p.t.size() && p.t[p.i] == "-") p.deep = true; return p_term(p, depth == 0 ? 0 : depth + 1); }
  if (!is_prim(p.t[p.i])) return false;
  p.i++;
  if (p.i >= p.t.size() || p.t[p.i] != "(") { if (depth == 0) p.flat = true; return true; }
  p.i++; if (p.i < p.t.size() && p.t[p.i] == ")") { p.i++; return true; }
  for (;;) { if (!p_term(p, depth + 1)) return false; if (p.i >= p.t.size()) return false; if (p.t[p.i] == ",") { p.i++; continue; } if (p.t[p.i] == ")") { p.i++; return true; } return false; }
}
// 0 malformed, 1 well formed, 2 well formed with a literal that is no predicate application
static int grammatical(const Toks &t) {
  P p{t, 0}; if (t.empty()) return 0;
  while (p.i < t.size()) { for (;;) { if (!p_term(p, 0)) return 0; if (p.i >= t.size()) return 0; if (t[p.i] == "|") { p.i++; continue; } if (t[p.i] == ".") { p.i++; break; } return 0; } }
  return p.flat ? 2 : 1;
}
static bool import_text(const string &s, int how) {
  Quiet q; string copy = s; int n = 0; static void *out[3000]; errno = src.chance(1, 4) ? ERANGE : 0;
  if (how == 0) return rs_import(g_g, &copy[0], out, 2900, &n) == 0;
  string f = string(scratch) + "/cl.txt"; FILE *o = fopen(f.c_str(), "w"); fwrite(s.data(), 1, s.size(), o); fclose(o);
  int r = how == 1 ? wg_import_otter_file(g_db, &f[0]) : rs_import_file(g_g, &f[0]); unlink(f.c_str());
  return r == 0;
}
static void c31() {
  watch_errors(); open_db(4000000); Sig z; vector<Cl> cs; vector<Toks> ts; vector<string> want;
  int n = (int)src.range(1, src.chance(1, 6) ? 30 : 5), mode = src.weighted({6, 3, 2, 1});
  for (int i = 0; i < n; i++) { Span sp; z.depth = (int)src.range(1, src.chance(1, 6) ? 8 : 4); Cl c; if (src.chance(1, 25)) { Lit l; l.t.k = CMP; l.t.a.push_back(leaf(NAME, "p")); int m = (int)src.range(20, 990); for (int k = 0; k < m; k++) l.t.a.push_back(leaf(VAR, "V" + std::to_string(k))); c.push_back(l); label("many variables"); } else c = gen_clause(z, src.chance(1, 8) ? 12 : 4, 3, src.chance(1, 5) ? 0 : 1, 3); cs.push_back(c); ts.push_back(tok(c)); want.push_back(canon(c)); }
  int how = src.weighted({4, 1, 1});
  if (mode == 0) {
    string s = text(ts); T("text: %s", quote(s, 2000).c_str());
    CHECK_(import_text(s, how), "a well-formed text is refused (%s)", how ? "file" : "string");
    vector<string> got; for (void *c : stored()) got.push_back(canon_cl(c));
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    for (size_t i = 0; i < std::max(want.size(), got.size()); i++) CHECK_(i < want.size() && i < got.size() && want[i] == got[i], "%zu clauses written, %zu stored; written: %s stored: %s", want.size(), got.size(), i < want.size() ? want[i].substr(0, 300).c_str() : "(none)", i < got.size() ? got[i].substr(0, 300).c_str() : "(none)");
    label(how ? "read from a file" : "read from a string"); nontrivial();
  } else if (mode == 1) {
    Toks all; for (auto &t : ts) all.insert(all.end(), t.begin(), t.end());
    int m = (int)src.range(1, 3);
    for (int k = 0; k < m && !all.empty(); k++) { size_t i = src.draw(all.size()); switch (src.draw(4)) { case 0: all.erase(all.begin() + i); break; case 1: all.insert(all.begin() + i, all[src.draw(all.size())]); break; case 2: std::swap(all[i], all[src.draw(all.size())]); break; default: { static const char *k2[] = {"(", ")", ",", ".", "|", "-"}; all.insert(all.begin() + i, k2[src.draw(6)]); } } }
    int g = grammatical(all); vector<Toks> one{all}; string s = text(one); T("text (%s): %s", g == 1 ? "well formed" : g == 2 ? "flat literal" : "malformed", quote(s, 2000).c_str());
    bool ok = import_text(s, how);
    if (g == 0) { CHECK_(!ok, "a malformed text is accepted"); label("malformed"); }
    else { CHECK_(ok, "a well-formed text is refused"); label(g == 1 ? "mutated, well formed" : "mutated, literal without arguments"); }
    nontrivial();
    for (void *c : stored()) canon_cl(c);   // whatever is stored can be read
  } else if (mode == 2) {
    string s = text(ts); int m = (int)src.range(1, 4); static const string al = "().,|-?\"'%/*\\ \n!#{}[]0aZ\x80\xff";
    for (int k = 0; k < m && !s.empty(); k++) { size_t i = src.draw(s.size()); switch (src.draw(3)) { case 0: s.erase(i, src.range(1, 4)); break; case 1: s.insert(i, 1, al[src.draw(al.size())]); break; default: s[i] = al[src.draw(al.size())]; } }
    T("text: %s", quote(s, 2000).c_str()); bool ok = import_text(s, how); label(ok ? "noise accepted" : "noise refused"); nontrivial();
    for (void *c : stored()) canon_cl(c);
  } else {
    // numbers out of range and too many variables are refused
    Cl c; Lit l; l.t.k = CMP; l.t.a.push_back(leaf(NAME, "p")); bool big = src.chance(1, 2);
    if (big) { string d = "1"; for (int k = (int)src.range(19, 40); k > 0; k--) d += (char)('0' + src.draw(10)); l.t.a.push_back(leaf(INT, d)); }
    else { int m = (int)src.range(1001, 1100); for (int k = 0; k < m; k++) l.t.a.push_back(leaf(VAR, "V" + std::to_string(k))); }
    if (src.chance(1, 2)) { Lit l2 = l; l2.t.a.resize(1); l2.t.a.push_back(leaf(VAR, "X")); c.push_back(l2); }
    c.push_back(l); ts.push_back(tok(c)); string s = text(ts); T("text: %s", quote(s, 500).c_str());
    CHECK_(!import_text(s, how), "%s is accepted", big ? "an integer out of range" : "a clause with more variables than supported"); label(big ? "integer out of range" : "too many variables"); nontrivial();
    { Quiet q; string f = string(scratch) + "/nosuchfile"; if (src.chance(1, 3)) CHECK_(wg_import_otter_file(g_db, &f[0]) != 0, "reading a missing file succeeds"); }
    for (void *cl : stored()) canon_cl(cl);
  }
}

// ---------------------------------------------------------------- C30
// reference unification over terms with named variables
typedef map<string, Tm> Sub;
static bool same(const Tm &a, const Tm &b) { VM x, y; if (a.k != b.k) return false; if (a.k == VAR) return a.s == b.s; if (a.k == CMP) { if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!same(a.a[i], b.a[i])) return false; return true; } return canon(a, x) == canon(b, y); }
static Tm walk(Tm t, Sub &s) { while (t.k == VAR && s.count(t.s)) { Tm n = s[t.s]; t = n; } return t; }
static bool occurs(const string &v, const Tm &t0, Sub &s) { Tm t = walk(t0, s); if (t.k == VAR) return t.s == v; if (t.k == CMP) for (auto &x : t.a) if (occurs(v, x, s)) return true; return false; }
static bool ref_unify(const Tm &a0, const Tm &b0, Sub &s) {
  Tm a = walk(a0, s), b = walk(b0, s);
  if (a.k == VAR && b.k == VAR && a.s == b.s) return true;
  if (a.k == VAR) { if (occurs(a.s, b, s)) return false; s[a.s] = b; return true; }
  if (b.k == VAR) { if (occurs(b.s, a, s)) return false; s[b.s] = a; return true; }
  if (a.k != CMP || b.k != CMP) return same(a, b);
  if (a.a.size() != b.a.size()) return false;
  for (size_t i = 0; i < a.a.size(); i++) if (!ref_unify(a.a[i], b.a[i], s)) return false;
  return true;
}
static bool ref_match(const Tm &a, const Tm &b, Sub &s) {   // variables of b are constants
  if (a.k == VAR) { auto it = s.find(a.s); if (it == s.end()) { s[a.s] = b; return true; } return same(it->second, b); }
  if (a.k != CMP || b.k != CMP) return same(a, b);
  if (a.a.size() != b.a.size()) return false;
  for (size_t i = 0; i < a.a.size(); i++) if (!ref_match(a.a[i], b.a[i], s)) return false;
  return true;
}
static bool ref_subsume(const Cl &a, const Cl &b, size_t i, unsigned used, const Sub &s) {
  if (i == a.size()) return true;
  for (size_t j = 0; j < b.size(); j++) if (!(used & (1u << j)) && a[i].neg == b[j].neg) { Sub s2 = s; if (ref_match(a[i].t, b[j].t, s2) && ref_subsume(a, b, i + 1, used | (1u << j), s2)) return true; }
  return false;
}
// a term close to t: a copy, an instance, or a copy with one place changed
static Tm mutate(const Sig &z, const Tm &t, int depth, int *budget) {
  if (*budget > 0 && src.chance(1, 5)) { (*budget)--; return gen_term(z, depth); }
  if (t.k != CMP) return t;
  Tm r = t; for (size_t i = 1; i < r.a.size(); i++) r.a[i] = mutate(z, t.a[i], depth - 1, budget); return r;
}
static Tm inst(const Tm &t, const Sub &s) { if (t.k == VAR) { auto it = s.find(t.s); return it == s.end() ? t : it->second; } Tm r = t; for (auto &x : r.a) x = inst(x, s); return r; }
static Sub gen_sub(const Sig &z) { Sub s; for (char c = 'X'; c <= 'Z'; c++) if (!src.chance(1, 3)) s[string(1, c)] = gen_term(z, 1); return s; }
static Tm derive(const Sig &z, const Tm &t) { int b = (int)src.range(0, 2); switch (src.weighted({3, 3, 2, 1})) { case 0: return mutate(z, t, 3, &b); case 1: return inst(t, gen_sub(z)); case 2: { Tm x = inst(t, gen_sub(z)); return mutate(z, x, 3, &b); } default: { Tm x = gen_atom(z, 2, 1, 3); return x; } } }
// operators: + and = over two arguments; a stored + or = becomes the operator
static void make_ops(wg_int e) {
  if (wg_get_encoded_type(g_db, e) != WG_RECORDTYPE) return;
  void *r = wg_decode_record(g_db, e); int n = (int)wg_get_record_len(g_db, r), f = rs_first(g_g);
  for (int i = f; i < n; i++) make_ops(wg_get_field(g_db, r, i));
  if (n != f + 3) return;
  wg_int h = wg_get_field(g_db, r, rs_funpos(g_g)); if (wg_get_encoded_type(g_db, h) != WG_URITYPE) return;
  char *p = wg_decode_uri(g_db, h), *x = wg_decode_uri_prefix(g_db, h);
  if (!x && p && (!strcmp(p, "+") || !strcmp(p, "="))) { wg_int *q = (wg_int *)r; for (int i = 0;; i++) if (wg_get_field(g_db, r, rs_funpos(g_g)) != h) break; else { CHECK_(i < 64, "the function of a term is not found"); if (q[i] == h) { q[i] = rs_operator(*p == '+'); } } }
}
static Tm ops(const Tm &t) { Tm r = t; for (auto &x : r.a) x = ops(x); if (r.k == CMP && r.a.size() == 3 && r.a[0].k == NAME && (r.a[0].s == "+" || r.a[0].s == "=")) r.a[0].s = "\2" + r.a[0].s; return r; }
static bool has_op(const Tm &t) { if (t.k == NAME && t.s[0] == '\2') return true; for (auto &x : t.a) if (has_op(x)) return true; return false; }
static int n_computed;
static Tm compute(const Tm &t0, Sub &s) {
  Tm t = walk(t0, s); if (t.k != CMP) return t;
  for (auto &x : t.a) x = compute(x, s);
  if (t.a.size() != 3 || t.a[0].k != NAME || t.a[0].s[0] != '\2') return t;
  const Tm &a = t.a[1], &b = t.a[2]; bool an = a.k == INT || a.k == DBL, bn = b.k == INT || b.k == DBL;
  if (t.a[0].s == "\2+") {
    if (!an || !bn) return t;
    n_computed++;
    if (a.k == INT && b.k == INT) return leaf(INT, std::to_string((i64)((u64)strtoll(a.s.c_str(), NULL, 10) + (u64)strtoll(b.s.c_str(), NULL, 10))));
    double x = a.k == INT ? (double)strtoll(a.s.c_str(), NULL, 10) : strtod(a.s.c_str(), NULL), y = b.k == INT ? (double)strtoll(b.s.c_str(), NULL, 10) : strtod(b.s.c_str(), NULL);
    char buf[400]; snprintf(buf, 400, "%a", x + y); return leaf(DBL, buf);
  }
  if (same(a, b)) { n_computed++; return leaf(NAME, "\2true"); }
  if (a.k == VAR || b.k == VAR || a.k == CMP || b.k == CMP || a.k == NAME || b.k == NAME) return t;
  n_computed++; return leaf(NAME, "\2false");
}
static Tm as_atom(const Tm &t) { if (t.k == CMP) return t; Tm r; r.k = CMP; r.a.push_back(t); return r; }   // p is p()
static void c30() {
  watch_errors(); open_db(4000000); Sig z; z.rich = src.chance(1, 3); z.depth = (int)src.range(1, 4); z.vars = 3;
  int mode = src.weighted({3, 3, 3, 4}); Quiet *q = NULL; void *out[20]; int n = 0;
  if (mode < 3) {
    z.ops = src.chance(1, 3); int ar = (int)src.range(1, 4); Tm a = gen_atom(z, 2, ar, ar), b = as_atom(derive(z, a));
    if (z.ops && mode == 1 && src.chance(2, 3)) { Sub s; for (char ch = 'X'; ch <= 'Z'; ch++) if (src.chance(1, 2)) s[string(1, ch)] = leaf(INT, std::to_string(src.range(0, 5))); b = inst(a, s); }
    if (src.chance(1, 2)) std::swap(a, b);
    // one clause, so that both atoms share their variables
    Cl c; Lit l; l.t = a; c.push_back(l); l.t = b; c.push_back(l); vector<Cl> cs{c}; string s = simple_text(cs); T("%s", s.c_str());
    q = new Quiet; int r = rs_import(g_g, &s[0], out, 10, &n); delete q;
    CHECK_(r == 0 && n == 1 && rs_isrule(g_g, out[0]), "the clause is not read");
    wg_int x = rs_atom(g_g, out[0], 0), y = rs_atom(g_g, out[0], 1); int got, want; Sub sb; const char *op; wg_int bx = 0, by = 0;
    if (z.ops) { make_ops(x); make_ops(y); a = ops(a); b = ops(b); if (has_op(a) || has_op(b)) label("operators"); }
    string ca = canon_cl(out[0]); q = new Quiet;
    if (mode == 0) { op = "equal"; want = same(a, b); got = rs_equal(g_g, x, y); if (!got == !want) got = rs_equal(g_g, y, x); }
    else if (mode == 1) { op = "unify"; want = ref_unify(a, b, sb); got = src.chance(1, 4) ? rs_unify(g_g, x, y) : rs_unify_build(g_g, x, y, src.chance(1, 2), &bx, &by); }
    else { op = "match"; want = ref_match(a, b, sb); got = rs_match(g_g, x, y); }
    delete q;
    CHECK_(!got == !want, "%s answers %d, expected %d", op, got, want);
    CHECK_(rs_is_clear(g_g), "%s leaves variables bound", op);
    CHECK_(canon_cl(out[0]) == ca, "%s changes the terms", op);
    if (got && mode == 1 && bx) {   // the instances
      VM vm; map<wg_int, int> dm; n_computed = 0; string wa = canon(compute(a, sb), vm), wb = canon(compute(b, sb), vm), ga = canon_db(bx, dm), gb = canon_db(by, dm);
      CHECK_(wa == ga && wb == gb, "the instances built are %s and %s, expected %s and %s", ga.c_str(), gb.c_str(), wa.c_str(), wb.c_str());
      label("instances built"); if (n_computed) label("operators computed");
    }
    label(op); label(want ? "succeeds" : "fails"); if (!sb.empty()) nontrivial();
    if (mode == 0) nontrivial();
    return;
  }
  Cl a = gen_clause(z, 4, 2, 1, 2), b;
  if (src.chance(4, 5)) {   // an instance of a with further literals, shuffled, perhaps with one place changed
    Sub s = gen_sub(z); for (auto &l : a) { Lit m = l; int bd = src.chance(1, 4) ? 1 : 0; m.t = as_atom(mutate(z, inst(l.t, s), 2, &bd)); if (!src.chance(1, 10)) b.push_back(m); }
    while (src.more(1) && b.size() < 7) b.push_back(gen_clause(z, 1, 2, 1, 2)[0]);
    for (size_t k = b.size(); k > 1; k--) std::swap(b[k - 1], b[src.draw(k)]);
    if (b.empty()) b = a;
    if (src.chance(1, 6)) { size_t k = src.draw(a.size()); a.push_back(a[k]); }
  } else b = gen_clause(z, 5, 2, 1, 2);
  if (src.chance(1, 8)) std::swap(a, b);
  string s1, s2; { vector<Cl> v{a}; s1 = simple_text(v); } { vector<Cl> v{b}; s2 = simple_text(v); } T("%s", (s1 + s2).c_str());
  q = new Quiet; int r1 = rs_import(g_g, &s1[0], out, 10, &n); int r2 = rs_import(g_g, &s2[0], out + 1, 10, &n); delete q;
  CHECK_(r1 == 0 && r2 == 0 && n == 1, "the clauses are not read"); string c1 = canon_cl(out[0]), c2 = canon_cl(out[1]);
  bool want = ref_subsume(a, b, 0, 0, Sub()); q = new Quiet; int got = rs_subsume(g_g, out[0], out[1]); delete q;
  CHECK_(!got == !want, "subsumption answers %d, expected %d", got, (int)want);
  CHECK_(rs_is_clear(g_g), "subsumption leaves variables bound");
  CHECK_(canon_cl(out[0]) == c1 && canon_cl(out[1]) == c2, "subsumption changes the clauses");
  label("subsumes"); label(want ? "succeeds" : "fails"); if (a.size() > 1 || want) nontrivial();
}

// ---------------------------------------------------------------- C29
static int run_reasoner(const vector<Cl> &cs, int limit_ms) {   // 0 proof, 1 no proof, <0 error, 99 no answer in time
  g_db = wg_attach_local_database(6000000); if (!g_db) discard();
  string s = simple_text(cs); int p[2]; if (pipe(p)) discard(); fflush(NULL);
  { Quiet q; g_g = rs_new(g_db); if (!g_g) discard(); void *out[200]; int n = 0; int r = rs_import(g_g, &s[0], out, 190, &n); CHECK_(r == 0, "the clause set is not read"); rs_free(g_g); g_g = NULL; }
  if (!limit_ms) { Quiet q; close(p[0]); close(p[1]); return wg_run_reasoner(g_db, 0, NULL); }
  pid_t c = fork();
  if (!c) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(p[0]); struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = limit_ms / 1000; it.it_value.tv_usec = limit_ms % 1000 * 1000; signal(SIGPROF, SIG_DFL); setitimer(ITIMER_PROF, &it, NULL); int r = wg_run_reasoner(g_db, 0, NULL); if (write(p[1], &r, sizeof r) < 0) {} _exit(0); }
  close(p[1]); int r = 0; bool ok = read(p[0], &r, sizeof r) == sizeof r; close(p[0]); int st = 0; waitpid(c, &st, 0);
  if (ok) return r;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) return 99;
  fail("the reasoner %s", WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exited");
}
static void collect(const Tm &t, set<string> &consts) { if (t.k == CMP) { for (size_t i = 1; i < t.a.size(); i++) collect(t.a[i], consts); return; } VM vm; if (t.k != VAR) consts.insert(canon(t, vm)); }
// ground instance over canonical strings
static string ground(const Tm &t, map<string, string> &s) { if (t.k == VAR) return s[t.s]; VM vm; if (t.k != CMP) return canon(t, vm); string r = "("; for (size_t i = 0; i < t.a.size(); i++) r += (i ? " " : "") + ground(t.a[i], s); return r + ")"; }
static void vars_of(const Tm &t, set<string> &v) { if (t.k == VAR) v.insert(t.s); for (auto &x : t.a) vars_of(x, v); }
struct Cnf { map<string, int> id; vector<vector<int>> cl; };
static bool ground_all(const vector<Cl> &cs, Cnf &f, size_t limit) {
  set<string> cons; for (auto &c : cs) for (auto &l : c) collect(l.t, cons); if (cons.empty()) cons.insert("uc0"); vector<string> cv(cons.begin(), cons.end());
  for (auto &c : cs) {
    set<string> vs; for (auto &l : c) vars_of(l.t, vs); vector<string> v(vs.begin(), vs.end()); size_t n = 1; for (size_t i = 0; i < v.size(); i++) { n *= cv.size(); if (n > limit) return false; }
    for (size_t k = 0; k < n; k++) {
      map<string, string> s; size_t q = k; for (auto &x : v) { s[x] = cv[q % cv.size()]; q /= cv.size(); }
      vector<int> g; for (auto &l : c) { string a = ground(l.t, s); int id = f.id.emplace(a, (int)f.id.size() + 1).first->second; g.push_back(l.neg ? -id : id); } f.cl.push_back(g);
    }
    if (f.cl.size() > limit) return false;
  }
  return true;
}
static bool dpll(const vector<vector<int>> &cl, vector<signed char> &as) {
  for (;;) {
    bool unit = false;
    for (auto &c : cl) { int un = 0, last = 0; bool sat = false; for (int l : c) { signed char a = as[abs(l)]; if (!a) { if (last != l) { un++; last = l; } } else if ((a > 0) == (l > 0)) { sat = true; break; } } if (sat) continue; if (!un) return false; if (un == 1) { as[abs(last)] = last > 0 ? 1 : -1; unit = true; } }
    if (!unit) break;
  }
  for (size_t v = 1; v < as.size(); v++) if (!as[v]) { bool used = false; for (auto &c : cl) for (int l : c) if ((size_t)abs(l) == v) used = true; if (!used) { as[v] = 1; continue; } vector<signed char> b = as; b[v] = 1; if (dpll(cl, b)) return true; as[v] = -1; return dpll(cl, as); }
  return true;
}
static bool satisfiable(const Cnf &f) { vector<signed char> as(f.id.size() + 1, 0); return dpll(f.cl, as); }
static Tm catom(int p, const vector<Tm> &args) { Tm t; t.k = CMP; t.a.push_back(leaf(NAME, string(1, (char)('p' + p)))); for (auto &x : args) t.a.push_back(x); return t; }
// truth in a finite interpretation
struct Interp { int n; map<string, vector<int>> f; map<string, vector<char>> p; };
static int itab(Interp &m, const string &k, size_t ar, const vector<int> &a, bool pred) {
  size_t sz = 1; for (size_t i = 0; i < ar; i++) sz *= (size_t)m.n; size_t ix = 0; for (int x : a) ix = ix * (size_t)m.n + (size_t)x; string key = k + "/" + std::to_string(ar);
  if (pred) { auto &v = m.p[key]; if (v.empty()) for (size_t i = 0; i < sz; i++) v.push_back((char)src.draw(2)); return v[ix]; }
  auto &v = m.f[key]; if (v.empty()) for (size_t i = 0; i < sz; i++) v.push_back((int)src.draw((u64)m.n)); return v[ix];
}
static int ival(Interp &m, const Tm &t, map<string, int> &as) { if (t.k == VAR) return as[t.s]; VM vm; if (t.k != CMP) return itab(m, canon(t, vm), 0, {}, false); vector<int> a; for (size_t i = 1; i < t.a.size(); i++) a.push_back(ival(m, t.a[i], as)); return itab(m, canon(t.a[0], vm), a.size(), a, false); }
static bool true_in(Interp &m, const Cl &c) {
  set<string> vs; for (auto &l : c) vars_of(l.t, vs); vector<string> v(vs.begin(), vs.end()); size_t n = 1; for (size_t i = 0; i < v.size(); i++) n *= (size_t)m.n;
  for (size_t k = 0; k < n; k++) {
    map<string, int> as; size_t q = k; for (auto &x : v) { as[x] = (int)(q % (size_t)m.n); q /= (size_t)m.n; }
    bool ok = false; for (auto &l : c) { vector<int> a; for (size_t i = 1; i < l.t.a.size(); i++) a.push_back(ival(m, l.t.a[i], as)); VM vm; bool h = itab(m, canon(l.t.a[0], vm), a.size(), a, true); if (h != l.neg) ok = true; }
    if (!ok) return false;
  }
  return true;
}
static string pname(int i) { static map<int, string> names; return string(1, (char)('p' + i)); }
static void rename_preds(vector<Cl> &cs) {   // other names, other hash chains
  map<string, string> m; for (auto &c : cs) for (auto &l : c) { string &n = l.t.a[0].s; auto it = m.find(n); if (it == m.end()) { string nn; do { nn = string(1, (char)('a' + src.draw(26))); while (src.more(3)) nn += (char)('a' + src.draw(26)); bool dup = false; for (auto &q : m) if (q.second == nn) dup = true; if (dup) continue; break; } while (true); it = m.emplace(n, nn).first; } n = it->second; }
}
static void c29() {
  watch_errors(); int fam = src.weighted({4, 4, 3, 3, 2}); vector<Cl> cs; bool want_sat = false, exact = false; int limit = 0; Sig z; z.rich = false;
  static const char *fn[] = {"ground clauses", "Horn clauses without functions", "clauses without functions", "clauses true in a model", "Horn clauses with functions"};
  if (fam == 0) {
    vector<Tm> atoms; int na = (int)src.range(2, 6); z.vars = 0; z.depth = 2; for (int i = 0; i < na; i++) atoms.push_back(gen_atom(z, 3, 1, 2));
    bool hard = src.chance(1, 2); if (hard) { vector<Tm> u; for (auto &x : atoms) { bool d = false; for (auto &y : u) if (same(x, y)) d = true; if (!d && u.size() < 4) u.push_back(x); } atoms = u; label("no unit clauses"); }
    int n = hard ? (int)src.range(4, 6 * (i64)atoms.size()) : (int)src.range(2, 14); for (int i = 0; i < n; i++) { Span sp; Cl c; int k = hard && atoms.size() > 1 ? (int)src.range(2, 4) : (int)src.range(1, 3); for (int j = 0; j < k; j++) { Lit l; l.neg = src.chance(1, 2); l.t = src.pick(atoms); bool dup = false; for (auto &o : c) if (o.neg == l.neg && same(o.t, l.t)) dup = true; if (!dup) c.push_back(l); } cs.push_back(c); }
    exact = true;
  } else if (fam == 1 || fam == 2) {
    z.depth = 1; int np = (int)src.range(1, 3), n = (int)src.range(2, fam == 1 ? 12 : 7); vector<int> ar; for (int i = 0; i < np; i++) ar.push_back((int)src.range(1, 2));
    for (int i = 0; i < n; i++) { Span sp; Cl c; int k = (int)src.range(1, 3); bool pos = false; z.vars = k == 1 && src.chance(2, 3) ? 0 : 3; for (int j = 0; j < k; j++) { Lit l; l.neg = fam == 1 ? (pos || src.chance(2, 3)) : src.chance(1, 2); if (!l.neg) pos = true; int p = (int)src.draw((u64)np); vector<Tm> args; for (int q = 0; q < ar[p]; q++) args.push_back(gen_term(z, 0)); l.t = catom(p, args); c.push_back(l); } for (size_t q = c.size(); q > 1; q--) std::swap(c[q - 1], c[src.draw(q)]); cs.push_back(c); }
    exact = fam == 1; if (!exact) limit = 1500;
  } else if (fam == 3) {
    Interp m; m.n = (int)src.range(1, 3); z.depth = (int)src.range(1, 3); z.vars = 3; int n = (int)src.range(2, 8);
    for (int i = 0; i < n; i++) { Span sp; for (int t = 0; t < 6; t++) { Cl c = gen_clause(z, 3, 2, 1, 2); if (true_in(m, c)) { cs.push_back(c); break; } } }
    if (cs.empty()) discard(); want_sat = true; limit = 1500;
  } else {
    // facts, a rule that builds terms, and a goal some steps away
    int d = (int)src.range(0, 6), e = src.chance(1, 2) ? d : (int)src.range(0, 6); int base = (int)src.draw(2); auto tower = [&](int k, Tm t) { for (int i = 0; i < k; i++) { Tm u; u.k = CMP; u.a = {leaf(NAME, "f"), t}; t = u; } return t; };
    auto lit = [&](bool neg, int p, Tm t) { Lit l; l.neg = neg; l.t = catom(p, {t}); return l; };
    cs.push_back({lit(false, 0, leaf(NAME, "a"))}); if (base) cs.push_back({lit(false, 1, leaf(NAME, "b"))});
    // p(X) & X small -> q(X); q(X) -> p(f(X)) written downwards so that the set is finite: p(f^k(a)) | -p(f^(k-1)(a))
    for (int k = 1; k <= d; k++) cs.push_back({lit(false, 0, tower(k, leaf(NAME, "a"))), lit(true, 0, tower(k - 1, leaf(NAME, "a")))});
    bool general = src.chance(1, 2); if (general) { cs.push_back({lit(false, 2, leaf(VAR, "X")), lit(true, 0, tower(1, leaf(VAR, "X")))}); }
    // goal: p(f^e(a)) or through the general rule
    bool via = general && src.chance(1, 2); cs.push_back({lit(true, via ? 2 : 0, src.chance(1, 3) ? tower(e, leaf(VAR, "Y")) : tower(e, leaf(NAME, "a")))});
    Tm &g = cs.back()[0].t.a[1]; set<string> gv; vars_of(g, gv); int top = via ? d - 1 : d; want_sat = e > top; exact = true; if (via && d < 1) want_sat = true;
    for (size_t q = cs.size(); q > 1; q--) std::swap(cs[q - 1], cs[src.draw(q)]);
  }
  if (src.chance(1, 3)) rename_preds(cs);
  if (src.chance(1, 4)) { cs.push_back(cs[src.draw(cs.size())]); std::swap(cs.back(), cs[src.draw(cs.size())]); }
  if (fam < 3) { Cnf f; if (!ground_all(cs, f, 3000)) discard(); want_sat = satisfiable(f); }
  T("%s, expected %s:\n%s", fn[fam], want_sat ? "satisfiable" : "unsatisfiable", simple_text(cs).c_str());
  int r = run_reasoner(cs, limit); T("result %d", r);
  label(fn[fam]); label(want_sat ? "satisfiable" : "unsatisfiable");
  if (r == 99 || (r < 0 && limit)) { label("no answer"); return; }
  CHECK_(r == 0 || r == 1, "the reasoner fails with code %d", r);
  if (want_sat) CHECK_(r == 1, "a proof is reported for a satisfiable set of clauses (%s)", fn[fam]);
  else if (exact) CHECK_(r == 0, "no proof is found for an unsatisfiable set of clauses (%s)", fn[fam]);
  if (exact || r == 0 || want_sat) nontrivial();
}

int main(int argc, char **argv) {
  vector<Property> P;
  { Property p; p.id = "C29"; p.rule = "the set has a known answer that the verdict was compared with"; p.run = c29; p.quick_cases = 5000; p.thorough_cases = 300000; P.push_back(p); }
  { Property p; p.id = "C30"; p.rule = "variables are bound by a successful operation, or a comparison or a clause of several literals is decided"; p.run = c30; p.quick_cases = 16000; p.thorough_cases = 1500000; P.push_back(p); }
  { Property p; p.id = "C31"; p.rule = "a text was read (or refused) and what is stored was compared or read back"; p.run = c31; p.quick_cases = 16000; p.thorough_cases = 1500000; P.push_back(p); }
  return main_(argc, argv, P);
}
