// C35: memory pools and the lists and atoms built in them
#include "wg.h"
#include <unistd.h>
#include <fcntl.h>
#include <cctype>
extern "C" {
#include "../Db/dbmpool.h"
size_t __sanitizer_get_current_allocated_bytes(void);
}

struct Quiet {   // the library reports refused requests on stderr
  int save;
  Quiet() { fflush(stderr); save = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }
  ~Quiet() { fflush(stderr); dup2(save, 2); close(save); }
};
struct Node { int k = 0; int type = 0; bool n1 = false, n2 = false; string s1, s2; int a = -1, b = -1; void *p = NULL; int pool = 0; };   // k: 0 nil, 1 atom, 2 pair
struct Block { unsigned char *p; size_t n; unsigned seed; bool full; };
static unsigned char pat(unsigned seed, size_t i) { return (unsigned char)((seed * 2654435761u >> 13) + i * 131 + (i >> 8) * 17); }
struct MP { void *p = NULL; vector<Block> blocks; };
struct W {
  vector<MP> pools; vector<Node> nodes; void *db = NULL; int regions = 0;
  void fill(Block &b) { if (b.full) for (size_t i = 0; i < b.n; i++) b.p[i] = pat(b.seed, i); else { b.p[0] = pat(b.seed, 0); b.p[b.n - 1] = pat(b.seed, b.n - 1); } }
  void check_block(const Block &b, const char *when) {
    if (b.full) { for (size_t i = 0; i < b.n; i++) CHECK_(b.p[i] == pat(b.seed, i), "%s: byte %zu of a block of %zu bytes has changed", when, i, b.n); }
    else CHECK_((b.n == 1 || b.p[0] == pat(b.seed, 0)) && b.p[b.n - 1] == pat(b.seed, b.n - 1), "%s: the ends of a block of %zu bytes have changed", when, b.n);
  }
  void check_node(int i, const char *when) {
    Node &n = nodes[i];
    if (n.k == 0) { CHECK_(!wg_ispair(db, n.p) && !wg_isatom(db, n.p), "%s: the empty list is taken for something else", when); return; }
    if (n.k == 2) {
      CHECK_(wg_ispair(db, n.p) && !wg_isatom(db, n.p), "%s: a pair is not recognised", when);
      CHECK_(wg_first(db, n.p) == nodes[n.a].p && wg_rest(db, n.p) == nodes[n.b].p, "%s: a pair has other parts than it was made of", when); return;
    }
    CHECK_(wg_isatom(db, n.p) && !wg_ispair(db, n.p), "%s: an atom is not recognised", when);
    CHECK_(wg_atomtype(db, n.p) == n.type, "%s: an atom of type %d has type %d", when, n.type, wg_atomtype(db, n.p));
    char *a = wg_atomstr1(db, n.p), *b = wg_atomstr2(db, n.p);
    if (n.n1 || n.s1.empty()) CHECK_(!a, "%s: an absent first string is reported as %s", when, quote(a).c_str()); else CHECK_(a && n.s1 == a, "%s: first string %s reads %s", when, quote(n.s1).c_str(), a ? quote(a).c_str() : "NULL");
    if (n.n2 || n.s2.empty()) CHECK_(!b, "%s: an absent second string is reported as %s", when, quote(b).c_str()); else CHECK_(b && n.s2 == b, "%s: second string %s reads %s", when, quote(n.s2).c_str(), b ? quote(b).c_str() : "NULL");
  }
  int count(int i) { return nodes[i].k == 2 ? count(nodes[i].a) + count(nodes[i].b) : 1; }
  static void str(string &o, const string &s) { bool q = s.find_first_of(" \n\t") != string::npos; o += q ? "\"" + s + "\"" : s; }
  void print(int i, string &o) {   // the layout of wg_mpool_print without its white space
    Node &n = nodes[i];
    if (n.k == 0) { o += "()"; return; }
    if (n.k == 1) {
      static const char *pre[] = {"_:", "n:", "r:", "i:", "d:", "s:", "x:", "u:", "b:", "c:", "f:", "date:", "time:", "a:", "?:"}; o += n.type <= 14 ? pre[n.type] : "!:";
      if (n.n1 || n.s1.empty()) o += "\"\""; else str(o, n.s1);
      if (!n.n2 && !n.s2.empty()) { o += "^^"; str(o, n.s2); }
      return;
    }
    o += "("; int c = i; for (; nodes[c].k == 2; c = nodes[c].b) print(nodes[c].a, o);
    if (nodes[c].k == 1) { o += "."; print(c, o); }
    o += ")";
  }
};
static string nospace(const string &s) { string r; for (char c : s) if (c != ' ' && c != '\n' && c != '\t') r += c; return r; }
static string gstr() { string s = gen_text(src.chance(1, 12) ? 3000 : 12); if (src.chance(1, 4) && !s.empty()) s[src.draw(s.size())] = " \n\t\"^.("[src.draw(7)]; return s; }
static int gsize() {
  switch (src.weighted({6, 5, 4, 2, 1})) { case 0: return (int)src.range(1, 40); case 1: return (int)src.range(1, 600); case 2: { int b = 1 << src.range(3, 13); return std::max(1, b + (int)src.range(0, 8) - 4); } case 3: return (int)src.range(1, 40000); default: return (int)src.range(40000, 1500000); }
}
static void c35() {
  W w; size_t before = 0; w.db = src.chance(1, 6) ? NULL : (void *)&w;   // pools are independent of the database
  string cap; cap.reserve(1 << 16);
  { int n = (int)src.range(1, 3); w.pools.resize(n); }
  for (auto &m : w.pools) { int b = src.chance(1, 4) ? (int)src.range(0, 40) - 20 : src.chance(1, 12) ? 1000000 : (int)src.range(1, 5000); m.p = wg_create_mpool(w.db, b); T("pool of %d bytes", b); CHECK_(m.p, "a pool of %d bytes cannot be created", b); }
  (void)before;
  w.nodes.push_back(Node());
  int ops = 0, ext = 0; unsigned seed = 1; bool built = false;
  while (src.more(40) && ops < 400) {
    ops++; Span sp; int pi = (int)src.draw(w.pools.size()); MP &m = w.pools[pi]; if (!m.p) continue;
    switch (src.weighted({10, 8, 10, 2, 1, 1})) {
    case 0: {
      int n = gsize(); Block b; b.p = (unsigned char *)wg_alloc_mpool(w.db, m.p, n); b.n = (size_t)n; b.seed = seed++; b.full = true; T("pool %d: %d bytes", pi, n);
      CHECK_(b.p, "a request for %d bytes fails", n); CHECK_(((uintptr_t)b.p & 3) == 0, "storage is not aligned"); w.fill(b); m.blocks.push_back(b); if (n > 1000) ext++; break;
    }
    case 1: {
      Node n; n.k = 1; n.type = src.chance(1, 20) ? WG_ILLEGAL : (int)src.range(0, 14); n.s1 = gstr(); n.s2 = src.chance(1, 3) ? gstr() : ""; n.n1 = src.chance(1, 10); n.n2 = n.s2.empty() && src.chance(1, 2); n.pool = pi; if (src.chance(1, 4) && !n.n2) n.s2 = string(1, (char)('a' + src.draw(26)));
      string a = n.s1, b = n.s2; n.p = wg_mkatom(w.db, m.p, n.type, n.n1 ? NULL : &a[0], n.n2 ? NULL : &b[0]); T("pool %d: atom %d of type %d %s %s", pi, (int)w.nodes.size(), n.type, n.n1 ? "NULL" : quote(n.s1).c_str(), n.n2 ? "NULL" : quote(n.s2).c_str());
      CHECK_(n.p, "an atom cannot be made"); w.nodes.push_back(n); w.check_node((int)w.nodes.size() - 1, "just made"); break;
    }
    case 2: {
      Node n; n.k = 2; auto pickn = [&]() { for (int t = 0; t < 8; t++) { int i = src.chance(1, 2) ? (int)src.draw(w.nodes.size()) : (int)(w.nodes.size() - 1 - src.draw(std::min<size_t>(4, w.nodes.size()))); if (w.nodes[i].k == 0 || w.pools[w.nodes[i].pool].p) return i; } return 0; };
      n.a = pickn(); n.b = pickn(); if (w.count(n.a) + w.count(n.b) > 300) break; n.pool = pi;
      n.p = wg_mkpair(w.db, m.p, w.nodes[n.a].p, w.nodes[n.b].p); T("pool %d: pair %d of %d and %d", pi, (int)w.nodes.size(), n.a, n.b); CHECK_(n.p, "a pair cannot be made"); w.nodes.push_back(n); w.check_node((int)w.nodes.size() - 1, "just made"); built = true; break;
    }
    case 3: {
      int bad = src.chance(1, 2) ? 0 : -(int)src.range(1, 1000000); if (src.chance(1, 8)) bad = INT32_MIN; Quiet q; CHECK_(!wg_alloc_mpool(w.db, m.p, bad), "a request for %d bytes succeeds", bad); CHECK_(!wg_alloc_mpool(w.db, NULL, 8), "a request from no pool succeeds"); label("refused request"); break;
    }
    case 4: {   // near the integer limit: either refused or real storage
      int n = INT32_MAX - (int)src.range(0, 12); if (w.regions++ > 0) break;
      T("pool %d: %d bytes", pi, n); Quiet q; Block b; b.p = (unsigned char *)wg_alloc_mpool(w.db, m.p, n); b.n = (size_t)n; b.seed = seed++; b.full = false; if (b.p) { w.fill(b); m.blocks.push_back(b); label("huge request"); } else label("huge request refused"); break;
    }
    default:
      if (w.pools.size() > 1 && src.chance(1, 3)) {   // nodes that refer into the freed pool are gone too
        for (auto &b : m.blocks) w.check_block(b, "before the pool is freed");
        for (size_t i = 0; i < w.nodes.size(); i++) if (w.nodes[i].k && w.nodes[i].pool == pi) w.check_node((int)i, "before the pool is freed");
        wg_free_mpool(w.db, m.p); T("pool %d freed", pi); m.p = NULL; m.blocks.clear(); label("pool freed early");
        vector<char> dead(w.nodes.size(), 0); for (size_t i = 1; i < w.nodes.size(); i++) if (w.nodes[i].pool == pi || (w.nodes[i].k == 2 && (dead[w.nodes[i].a] || dead[w.nodes[i].b]))) { dead[i] = 1; }
        for (size_t i = 1; i < w.nodes.size(); i++) if (dead[i]) w.nodes[i] = Node();
      }
    }
  }
  // everything handed out keeps its content, nothing overlaps
  vector<std::pair<uintptr_t, uintptr_t>> iv;
  for (auto &m : w.pools) for (auto &b : m.blocks) { w.check_block(b, "at the end"); iv.push_back({(uintptr_t)b.p, (uintptr_t)b.p + b.n}); }
  for (size_t i = 0; i < w.nodes.size(); i++) { Node &n = w.nodes[i]; if (!n.k) continue; w.check_node((int)i, "at the end"); uintptr_t p = (uintptr_t)n.p; if (n.k == 2) iv.push_back({p, p + 2 * sizeof(wg_int)}); else iv.push_back({p, p + 3 + (n.n1 ? 0 : n.s1.size()) + (n.n2 ? 0 : n.s2.size())}); }
  std::sort(iv.begin(), iv.end()); for (size_t i = 1; i < iv.size(); i++) CHECK_(iv[i].first >= iv[i - 1].second, "two pieces of storage overlap");
  // counting and printing of lists
  size_t lists = 0; for (size_t i = 0; i < w.nodes.size() && lists < 6; i++) {
    size_t j = w.nodes.size() - 1 - i; CHECK_(wg_listtreecount(w.db, w.nodes[j].p) == w.count((int)j), "the leaves of list %zu are counted %d, there are %d", j, wg_listtreecount(w.db, w.nodes[j].p), w.count((int)j));
    if (w.nodes[j].k == 0 && j) continue; lists++;
    fflush(stdout); int save = dup(1); string f = string(scratch) + "/print"; int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); wg_mpool_print(w.db, w.nodes[j].p); fflush(stdout); dup2(save, 1); close(save);
    string out; off_t len = lseek(fd, 0, SEEK_END); lseek(fd, 0, SEEK_SET); out.resize((size_t)len); if (read(fd, &out[0], (size_t)len) != len) discard(); close(fd);
    string want; w.print((int)j, want); CHECK_(nospace(out) == nospace(want), "list %zu is printed as %s, expected %s", j, quote(out).c_str(), quote(want).c_str());
  }
  for (auto &m : w.pools) if (m.p) wg_free_mpool(w.db, m.p);
  if (w.nodes.size() > 1) label("atoms and lists"); if (ext) label("pool extended"); if (built) nontrivial(); else { size_t n = 0; for (auto &m : w.pools) n += m.blocks.size(); if (n > 3 && ext) nontrivial(); }
}
// a freed pool returns all its memory
static void c35_leak() {
  size_t before = __sanitizer_get_current_allocated_bytes(); void *p = wg_create_mpool(NULL, (int)src.range(0, 3000)); CHECK_(p, "a pool cannot be created"); size_t total = 0; int n = 0;
  while (n < 200 && src.more(30)) { int k = gsize(); void *q = wg_alloc_mpool(NULL, p, k); CHECK_(q, "a request for %d bytes fails", k); memset(q, 1, (size_t)k); total += (size_t)k; n++; }
  wg_free_mpool(NULL, p); size_t after = __sanitizer_get_current_allocated_bytes(); CHECK_(after <= before + 65536 || after - before < total / 4, "%zu bytes are still allocated after a pool with %zu bytes of content was freed", after - before, total); label("leak"); if (total > 4000) nontrivial();
}
static void c35_all() { if (src.chance(1, 8)) c35_leak(); else c35(); }
int main(int argc, char **argv) {
  vector<Property> P;
  { Property p; p.id = "C35"; p.rule = "a pair was made, or several blocks were taken beyond the first area"; p.run = c35_all; p.quick_cases = 6000; p.thorough_cases = 600000; P.push_back(p); }
  return main_(argc, argv, P);
}
