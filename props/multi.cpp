// C27 C28 C34: several databases in one process, one database in several processes
#include "wg.h"
#include <sys/ipc.h>
#include <sys/shm.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <sched.h>
#include <poll.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <errno.h>
extern "C" void wg_journal_filename(void *db, char *buf, size_t buflen);
extern "C" wg_int wg_check_dump(void *db, char fileName[], wg_int *minsize, wg_int *maxsize);
extern "C" { int wg_memmode(void *db); int wg_memowner(void *db); }

// Shared memory keys of this harness: 0x5 in the top bits, a number reserved for
// the run, and a counter. The reservation is a segment that stays attached while
// the run lasts (process ids would not do: runs in different process namespaces
// share the kernel's segments). Segments are removed at the end of the run and,
// after a killed run, by a later one.
static int g_tag;
static int key_base() { return 0x50000000 | ((g_tag & 0x3fff) << 13); }
// Removing a segment takes its owner or CAP_SYS_ADMIN, which a container's root may lack.
static bool rm_seg(int id) {
  if (!shmctl(id, IPC_RMID, NULL)) return true;
  struct shmid_ds ds; if (errno != EPERM && errno != EACCES) return false;
  uid_t u = shmctl(id, IPC_STAT, &ds) ? 65534 : ds.shm_perm.uid; pid_t p = fork(); if (!p) (_exit)(setgroups(0, NULL) || setgid(u) || setuid(u) || shmctl(id, IPC_RMID, NULL) ? 1 : 0);
  int st; return waitpid(p, &st, 0) == p && st == 0;
}
static void sweep(bool mine) {
  struct shmid_ds ds; struct shm_info info; int maxi = shmctl(0, SHM_INFO, (struct shmid_ds *)&info);
  for (int k = 0; k <= maxi; k++) {
    int id = shmctl(k, SHM_STAT, &ds); if (id < 0) continue;
    unsigned key = (unsigned)ds.shm_perm.__key; if ((key >> 28) != 5) continue;
    bool me = (int)(key & ~0x1fffu) == key_base();
    if (mine ? me : (!me && ds.shm_nattch == 0 && kill(ds.shm_cpid, 0) && errno == ESRCH && ds.shm_ctime < time(NULL) - 1800)) rm_seg(id);
  }
}
static void reserve() {
  FILE *f = fopen("/dev/urandom", "r"); unsigned r = 0;
  for (int k = 0; k < 2000; k++) {
    if (!f || fread(&r, sizeof r, 1, f) != 1) r = (unsigned)getpid() * 31 + k;
    g_tag = (int)(r & 0x3fff);
    int id = shmget(key_base() | 0x1fff, 4096, IPC_CREAT | IPC_EXCL | 0600); if (id < 0) continue;
    void *m = shmat(id, NULL, 0); bool clean = m != (void *)-1;
    struct shmid_ds ds; struct shm_info info; int maxi = shmctl(0, SHM_INFO, (struct shmid_ds *)&info);
    for (int j = 0; j <= maxi && clean; j++) { int o = shmctl(j, SHM_STAT, &ds); if (o >= 0 && o != id && ((int)ds.shm_perm.__key & ~0x1fff) == key_base()) clean = false; }
    if (clean) { if (f) fclose(f); return; }
    if (m != (void *)-1) shmdt(m);
    shmctl(id, IPC_RMID, NULL);
  }
  fprintf(stderr, "no shared memory keys available\n"); exit(2);
}
static int worker_slot();   // distinguishes the parallel workers of a run
static string keyname(int n) { char b[20]; snprintf(b, 20, "%d", key_base() + worker_slot() * 16 + n); return b; }
static int worker_slot() { static int s = -1; if (s < 0) { const char *p = scratch + strlen(scratch); while (p > scratch && p[-1] >= '0' && p[-1] <= '9') p--; s = atoi(p) & 0x1ff; } return s; }

// ---------------------------------------------------------------- C27
struct Fld { Val v; int ext = -1; int srec = 0, sfld = 0; };   // ext: the database the value lives in, -1: the record's own
struct CRec { void *p; vector<Fld> f; };
struct CDb {
  void *db = NULL; map<int, CRec> r; int next = 1; set<int> reg; string snap; wg_int size = 0; bool indexed = false;
  char *mem() { return *(char **)db; }
};
static vector<CDb> D;
static Pool g_pool; static GenOpt g_opt;
static void take(int i) { D[i].snap.assign(D[i].mem(), (size_t)D[i].size); }
// only the database i may have changed
static void others_same(int i, const char *op) {
  for (size_t j = 0; j < D.size(); j++) if ((int)j != i && D[j].db) CHECK_(!memcmp(D[j].snap.data(), D[j].mem(), (size_t)D[j].size), "%s in database %d changed the memory of database %zu", op, i, j);
  if (i >= 0) take(i);
}
static int owner(int i, const Fld &f) { return f.ext < 0 ? i : f.ext; }
static int xcmp(int i, const Val &a, int j, const Val &b, int depth) {
  if (a.t != WG_RECORDTYPE || b.t != WG_RECORDTYPE) return cmp_val(a, b);
  if (i == j && a.i == b.i) return 0;
  CRec &x = D[i].r[(int)a.i], &y = D[j].r[(int)b.i];
  if (!depth) return (char *)x.p > (char *)y.p ? 1 : -1;
  if (x.f.size() != y.f.size()) return x.f.size() > y.f.size() ? 1 : -1;
  for (size_t k = 0; k < x.f.size(); k++) { int c = xcmp(owner(i, x.f[k]), x.f[k].v, owner(j, y.f[k]), y.f[k].v, depth - 1); if (c) return c; }
  return 0;
}
static bool pinned(int i, int rec, int fld) {   // a value of that field, or a link to that record (fld<0), is used from elsewhere
  for (size_t j = 0; j < D.size(); j++) if ((int)j != i) for (auto &q : D[j].r) for (auto &f : q.second.f) {
    if (f.ext != i) continue;
    if (f.v.t == WG_RECORDTYPE) { if (fld < 0 && f.v.i == rec) return true; }
    if (f.srec == rec && (fld < 0 || f.sfld == fld) && f.srec) return true;
  }
  return false;
}
static int local_refs(int i, int id) { int n = 0; for (auto &q : D[i].r) for (auto &f : q.second.f) if (f.ext < 0 && f.v.t == WG_RECORDTYPE && f.v.i == id) n++; return n; }
static int pick_rec(int i) { auto it = D[i].r.begin(); std::advance(it, src.draw(D[i].r.size())); return it->first; }
static wg_int enc_in(int i, const Val &v) { return v.t == WG_RECORDTYPE ? wg_encode_record(D[i].db, D[i].r[(int)v.i].p) : enc(D[i].db, v); }
static void check_fld(int i, int id, int k, bool deep, const char *where) {
  CRec &m = D[i].r[id]; Fld &f = m.f[k]; wg_int e = wg_get_field(D[i].db, m.p, k); char w[120]; snprintf(w, 120, "%s, database %d record #%d field %d%s", where, i, id, k, f.ext >= 0 ? " (external)" : "");
  if (f.v.t == WG_RECORDTYPE) {
    CHECK_(wg_get_field_type(D[i].db, m.p, k) == WG_RECORDTYPE, "%s: type %ld, expected record", w, (long)wg_get_field_type(D[i].db, m.p, k));
    CHECK_(wg_decode_record(D[i].db, e) == D[owner(i, f)].r[(int)f.v.i].p, "%s: the link does not lead to the record", w);
  } else { CHECK_(wg_get_field_type(D[i].db, m.p, k) == f.v.t, "%s: field type %ld, expected %s", w, (long)wg_get_field_type(D[i].db, m.p, k), tname(f.v.t)); check_val(D[i].db, e, f.v, w, deep); }
}
static void check_db(int i, bool deep, const char *where) {
  set<void *> live; for (auto &q : D[i].r) live.insert(q.second.p);
  size_t n = 0; for (void *p = wg_get_first_record(D[i].db); p; p = wg_get_next_record(D[i].db, p), n++) CHECK_(live.count(p) && n < live.size(), "%s: the scan of database %d returns something else", where, i);
  CHECK_(n == live.size(), "%s: the scan of database %d returns %zu of %zu records", where, i, n, live.size());
  for (auto &q : D[i].r) {
    CHECK_(wg_get_record_len(D[i].db, q.second.p) == (wg_int)q.second.f.size(), "%s: length of a record of database %d changed", where, i);
    for (size_t k = 0; k < q.second.f.size(); k++) check_fld(i, q.first, (int)k, deep, where);
    // backlinks of local links only
    set<void *> want, got; for (auto &z : D[i].r) for (auto &f : z.second.f) if (f.ext < 0 && f.v.t == WG_RECORDTYPE && f.v.i == q.first) want.insert(z.second.p);
    size_t c = 0; for (void *p = wg_get_first_parent(D[i].db, q.second.p); p && c < 200; p = wg_get_next_parent(D[i].db, q.second.p, p), c++) got.insert(p);
    CHECK_(got == want, "%s: database %d record #%d has %zu parents, %zu listed", where, i, q.first, want.size(), got.size());
  }
}
// everything that can be reached from database i is registered in it
static bool closed(int i) { for (size_t j = 0; j < D.size(); j++) if ((int)j == i || D[i].reg.count((int)j)) for (int q : D[j].reg) if (!D[i].reg.count(q) && q != i) return false; return true; }
static char prb[2][400];
static string desc(const Fld &f) { return (f.ext >= 0 ? "external " + std::to_string(f.ext) + ":" : string("")) + show(f.v) + (f.v.t == WG_RECORDTYPE ? " #" + std::to_string(f.v.i) : ""); }
static void c27() {
  watch_errors(); D.clear(); g_pool = Pool(); g_opt = GenOpt(); g_opt.maxlen = src.chance(1, 4) ? 3000 : 200;
  int nd = (int)src.range(2, 4); D.resize(nd); int shared_db = src.chance(1, 3) ? (int)src.range(1, nd - 1) : -1;
  // order of creation decides the order in memory
  vector<int> ord(nd); for (int k = 0; k < nd; k++) ord[k] = k; for (int k = nd - 1; k > 0; k--) std::swap(ord[k], ord[src.draw(k + 1)]);
  for (int i : ord) {
    wg_int size = (wg_int)src.range(400000, src.chance(1, 4) ? 3000000 : 700000);
    if (i == shared_db) { wg_delete_database(keyname(0).c_str()); D[i].db = wg_attach_database(keyname(0).c_str(), size); label("shared database"); if (D[i].db) wg_delete_database(keyname(0).c_str()); }
    else D[i].db = wg_attach_local_database(size);
    if (!D[i].db) discard(); D[i].size = wg_database_size(D[i].db); take(i);
    T("database %d%s size %ld", i, i == shared_db ? " (shared)" : "", (long)size);
  }
  // registration: from lower to higher numbers; the last one may stay unregistered
  bool idx_first = src.chance(1, 5); if (idx_first) { wg_int c = 0; CHECK_(wg_create_index(D[0].db, 0, WG_INDEX_TYPE_TTREE, NULL, 0) == 0, "index creation failed"); c = wg_column_to_index_id(D[0].db, 0, WG_INDEX_TYPE_TTREE, NULL, 0); take(0); CHECK_(wg_register_external_db(D[0].db, D[1].db) < 0, "an indexed database accepts an external database"); others_same(0, "registering"); CHECK_(wg_drop_index(D[0].db, c) == 0, "dropping the index failed"); label("registering with an index"); take(0); }
  int unreg = src.chance(1, 2) && nd > 2 ? (int)src.range(1, nd - 1) : -1;
  for (int i = 0; i < nd; i++) for (int j = i + 1; j < nd; j++) {
    if (i && !src.chance(1, 3)) continue;
    if (i == shared_db) { CHECK_(wg_register_external_db(D[i].db, D[j].db) < 0, "a shared database accepts an external database"); others_same(i, "registering"); continue; }
    if (j == unreg) continue;
    CHECK_(wg_register_external_db(D[i].db, D[j].db) == 0, "registering database %d in %d failed", j, i); D[i].reg.insert(j); others_same(i, "registering"); T("database %d registers %d", i, j);
  }
  if (D[0].reg.size()) { CHECK_(wg_create_index(D[0].db, 0, WG_INDEX_TYPE_TTREE, NULL, 0) < 0, "an index is created in a database with external references"); CHECK_(wg_create_index(D[0].db, 0, WG_INDEX_TYPE_HASH, NULL, 0) < 0, "a hash index is created in a database with external references"); others_same(0, "refused index creation"); }
  // chains of references need the third database to be known everywhere
  int extset = 0, overw = 0, mixed = 0;
  for (int n = 0; n < 120 && (n < 8 || src.more(40)); n++) {
    Span sp; int i = src.chance(1, 2) ? 0 : (int)src.draw(nd); CDb &d = D[i];
    switch (d.r.empty() ? 0 : src.weighted({4, 6, 12, 4, 2, 2, 3, 1, 1})) {
      case 0: { int len = (int)src.range(1, 5); void *p = wg_create_record(d.db, len); T("database %d: create #%d len %d", i, d.next, len); if (!p) break; CRec c; c.p = p; c.f.resize(len); int nid = d.next++;
        for (int k = 0; k < len; k++) { if (!src.chance(3, 4)) continue; Fld f; f.v = gen_val(g_pool, g_opt); wg_int e = enc(d.db, f.v); if (e == WG_ILLEGAL) continue; CHECK_(wg_set_field(d.db, p, k, e) == 0, "setting a local value failed"); c.f[k] = f; T("   [%d] = %s", k, desc(f).c_str()); }
        d.r[nid] = c; others_same(i, "creation"); break; }
      case 1: {   // local value
        int id = pick_rec(i), k = (int)src.draw(d.r[id].f.size()); if (pinned(i, id, k)) break;
        Fld f; if (src.chance(1, 4)) { f.v.t = WG_RECORDTYPE; f.v.i = pick_rec(i); if (f.v.i == id && src.chance(1, 2)) break; } else f.v = gen_val(g_pool, g_opt);
        wg_int e = enc_in(i, f.v); if (e == WG_ILLEGAL) break; T("database %d: #%d[%d] = %s", i, id, k, desc(f).c_str());
        if (d.r[id].f[k].ext >= 0) overw++;
        wg_int rc = wg_set_field(d.db, d.r[id].p, k, e); CHECK_(rc == 0, "setting a local value returned %ld", (long)rc); d.r[id].f[k] = f; others_same(i, "setting a field"); check_fld(i, id, k, true, "after setting it"); break; }
      case 2: {   // value of another database
        int j = (int)src.draw(nd); if (j == i || D[j].r.empty()) break;
        bool known = d.reg.count(j); int id = pick_rec(i), k = (int)src.draw(d.r[id].f.size()); if (pinned(i, id, k)) break;
        Fld f; f.ext = j; wg_int je;
        int q = pick_rec(j);
        switch (src.weighted({4, 4, 2})) {
          case 0: f.v.t = WG_RECORDTYPE; f.v.i = q; je = wg_encode_record(D[j].db, D[j].r[q].p); break;
          case 1: { int z = (int)src.draw(D[j].r[q].f.size()); Fld &o = D[j].r[q].f[z]; if (o.ext >= 0) { break; } f.v = o.v; f.srec = q; f.sfld = z; je = wg_get_field(D[j].db, D[j].r[q].p, z); goto have; }
          default: { Val v = gen_val(g_pool, g_opt); if (is_strlike(v.t)) { v = Val(); v.t = WG_DOUBLETYPE; v.d = 1.5; } f.v = v; je = enc(D[j].db, v); if (je == WG_ILLEGAL) break; take(j); goto have; }
        }
        if (f.v.t != WG_RECORDTYPE) break;
       have:
        wg_int e = wg_encode_external_data(d.db, D[j].db, je); bool ptr = e != je;
        T("database %d: #%d[%d] = %s%s", i, id, k, desc(f).c_str(), known ? "" : " (not registered)");
        // the encoded value can be used right away
        if (known || !ptr) {
          CHECK_((int)wg_get_encoded_type(d.db, e) == f.v.t, "the type of external %s reads as %ld", show(f.v).c_str(), (long)wg_get_encoded_type(d.db, e));
          if (f.v.t == WG_RECORDTYPE) CHECK_(wg_decode_record(d.db, e) == D[j].r[(int)f.v.i].p, "an external record decodes to another address"); else check_val(d.db, e, f.v, "external value", true);
          if (!closed(i) || !closed(j)) goto store;
          char *b1 = prb[0], *b2 = prb[1]; wg_snprint_value(d.db, e, b1, 400); wg_snprint_value(D[j].db, je, b2, 400); CHECK_(!strcmp(b1, b2), "external %s prints as %s, its database prints %s", show(f.v).c_str(), quote(b1).c_str(), quote(b2).c_str());
        }
       store:
        wg_int rc = wg_set_field(d.db, d.r[id].p, k, e);
        if (!known && ptr) { CHECK_(rc == -5, "storing a reference into a database that is not registered returned %ld", (long)rc); CHECK_(!memcmp(d.snap.data(), d.mem(), (size_t)d.size), "a refused external reference changed the database"); label("not registered"); check_fld(i, id, k, true, "after a refused reference"); break; }
        CHECK_(rc == 0, "storing an external value returned %ld", (long)rc);
        if (d.r[id].f[k].ext >= 0 || d.r[id].f[k].v.t != WG_NULLTYPE) overw++;
        d.r[id].f[k] = f; if (!ptr) { d.r[id].f[k].ext = -1; d.r[id].f[k].srec = 0; } else { extset++; if (f.v.t == WG_RECORDTYPE) label("external record"); else if (is_strlike(f.v.t)) label("external text"); else label("external number"); }
        others_same(i, "setting an external value"); check_fld(i, id, k, true, "after setting it");
        if (i) label("chain"); break; }
      case 3: {   // deletion
        int id = pick_rec(i); if (pinned(i, id, -1)) break; int n = local_refs(i, id); bool hasext = false; for (auto &f : d.r[id].f) if (f.ext >= 0) hasext = true;
        wg_int rc = wg_delete_record(d.db, d.r[id].p); T("database %d: delete #%d (%d links) -> %ld", i, id, n, (long)rc);
        CHECK_(rc == (n ? -1 : 0), "deleting a record with %d links returned %ld", n, (long)rc); if (!n) { d.r.erase(id); if (hasext) { mixed++; label("deleted record with external fields"); } } others_same(i, "deletion"); break; }
      case 4: {   // deleting and freeing what belongs to another database
        int j = (int)src.draw(nd); if (j == i || D[j].r.empty()) break; int q = pick_rec(j);
        wg_int rc = wg_delete_record(d.db, D[j].r[q].p); T("database %d: delete #%d of database %d -> %ld", i, q, j, (long)rc); bool linked = local_refs(j, q) > 0; CHECK_(rc == -2 || (linked && rc < 0), "deleting a record of another database returned %ld", (long)rc); others_same(-1, "deleting a record of another database");
        if (d.reg.count(j)) { int z = (int)src.draw(D[j].r[q].f.size()); if (D[j].r[q].f[z].ext < 0) { wg_int je = wg_get_field(D[j].db, D[j].r[q].p, z), e = wg_encode_external_data(d.db, D[j].db, je); if (e != je) { wg_free_encoded(d.db, e); others_same(-1, "freeing an external value"); label("free of an external value"); } } }
        break; }
      case 5: check_db(i, true, "during the history"); others_same(-1, "reading"); break;
      case 6: {   // comparison of any two fields visible from database i
        auto any = [&](int &o, Val &v, wg_int &e) -> bool { int id = pick_rec(i), k = (int)src.draw(d.r[id].f.size()); if (src.chance(1, 3)) { v.t = WG_RECORDTYPE; v.i = id; o = i; e = wg_encode_record(d.db, d.r[id].p); return true; } Fld &f = d.r[id].f[k]; o = owner(i, f); v = f.v; e = wg_get_field(d.db, d.r[id].p, k); return v.t != WG_DOUBLETYPE || v.d == v.d; };
        // everything reachable must be registered in i
        if (!closed(i)) break;
        int o1, o2; Val v1, v2; wg_int e1, e2; if (!any(o1, v1, e1) || !any(o2, v2, e2)) break;
        if (v1.t != v2.t && src.chance(2, 3)) break;
        int want = xcmp(o1, v1, o2, v2, DEPTH); wg_int got = wcmp(d.db, e1, e2); int g = sgn(got);
        CHECK_(g == want, "database %d compares %s of database %d with %s of database %d as %d, expected %d", i, show(v1).c_str(), o1, show(v2).c_str(), o2, g, want); if (o1 != o2) label("comparison across databases"); others_same(-1, "comparing");
        // and with a local copy of the same value
        if (v1.t != WG_RECORDTYPE && has_param(v1.t) && o1 != i) { wg_int p = encp(d.db, v1); CHECK_(wg_compare(d.db, p, e1, DEPTH) == 0, "external %s does not compare equal to a local copy", show(v1).c_str()); wg_free_query_param(d.db, p); label("local copy"); }
        break; }
      case 7: {   // query over a column that holds local and external values
        if (!closed(i)) break;
        int id = pick_rec(i), k = (int)src.draw(d.r[id].f.size()); Fld f = d.r[id].f[k]; if (f.v.t == WG_RECORDTYPE || !has_param(f.v.t)) break; static const int cs[] = {WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL}; int c = cs[src.draw(6)];
        wg_query_arg a; a.column = k; a.cond = c; a.value = encp(d.db, f.v); T("database %d: query column %d %s %s", i, k, cname(c), show(f.v).c_str());
        wg_query *qq = wg_make_query(d.db, NULL, 0, &a, 1); CHECK_(qq, "making a query failed"); set<void *> got, want; size_t c2 = 0; for (void *p = wg_fetch(d.db, qq); p && c2 < 10000; p = wg_fetch(d.db, qq), c2++) got.insert(p);
        for (auto &z : d.r) if ((int)z.second.f.size() > k && cond_holds(c, xcmp(owner(i, z.second.f[k]), z.second.f[k].v, i, f.v, DEPTH))) want.insert(z.second.p);
        CHECK_(got == want && c2 == want.size(), "a query over local and external values returned %zu rows (%zu different), expected %zu", c2, got.size(), want.size()); wg_free_query(d.db, qq); wg_free_query_param(d.db, a.value); label("query"); take(i); others_same(-1, "querying"); break; }
      default: {
        if (d.reg.empty() || i == shared_db) break; int j = *d.reg.begin(); int ok = 0; while (ok < 40 && wg_register_external_db(d.db, D[j].db) == 0) ok++; CHECK_(ok < 40, "external databases are accepted without end"); others_same(i, "registering"); label("table of external databases full"); check_db(i, false, "after a full table"); break; }
    }
  }
  for (int i = 0; i < nd; i++) check_db(i, true, "at the end");
  others_same(-1, "reading");
  if (src.chance(1, 4)) { string f = string(scratch) + "/d.dump"; if (!D[0].reg.empty()) { CHECK_(wg_dump(D[0].db, (char *)f.c_str()) < 0, "a database with registered external databases was dumped"); label("dump refused"); check_db(0, false, "after a refused dump"); } }
  // the first database goes away, the others stay
  wg_delete_local_database(D[0].db); D[0].db = NULL;
  for (int i = 1; i < nd; i++) { CHECK_(!memcmp(D[i].snap.data(), D[i].mem(), (size_t)D[i].size), "deleting a local database changed another one"); }
  if (extset >= 2 && overw >= 1) nontrivial();
  (void)mixed;
}

// ---------------------------------------------------------------- C28
struct Agent { pid_t pid = 0; int fd = -1; int uid = 0; FILE *in = NULL; };
static void agent_loop(int fd) {
  void *h[4] = {0, 0, 0, 0}; FILE *in = fdopen(fd, "r"); char line[20000], name[100], text[9000]; int slot, var, mode, id; long size;
  while (fgets(line, sizeof line, in)) {
    string out;
    if (sscanf(line, "A %d %d %99s %ld %d", &slot, &var, name, &size, &mode) == 5) {
      const char *n = !strcmp(name, "NULL") ? NULL : name; void *db = NULL;
      switch (var) { case 0: db = wg_attach_database(n, size); break; case 1: db = wg_attach_existing_database(n); break; case 2: db = wg_attach_database_mode(n, size, mode); break; case 3: db = wg_attach_logged_database(n, size); break; default: db = wg_attach_logged_database_mode(n, size, mode); }
      h[slot] = db; char b[100]; if (db) snprintf(b, 100, "1 %ld %d\n", (long)wg_database_size(db), wg_memmode(db)); else snprintf(b, 100, "0 0 0\n"); out = b;
    } else if (sscanf(line, "T %d", &slot) == 1) { int rc = wg_detach_database(h[slot]); h[slot] = NULL; out = std::to_string(rc) + "\n"; }
    else if (sscanf(line, "D %99s", name) == 1) { out = std::to_string(wg_delete_database(!strcmp(name, "NULL") ? NULL : name)) + "\n"; }
    else if (sscanf(line, "W %d %d %8999s", &slot, &id, text) == 3) {
      void *r = wg_create_record(h[slot], 2); int rc = -9; if (r) { wg_int e = wg_encode_str(h[slot], text, NULL); rc = (int)wg_set_field(h[slot], r, 0, wg_encode_int(h[slot], id)); if (!rc) rc = e == WG_ILLEGAL ? -8 : (int)wg_set_field(h[slot], r, 1, e); } out = std::to_string(rc) + "\n";
    } else if (sscanf(line, "X %d %d", &slot, &id) == 2) { void *r = wg_find_record_int(h[slot], 0, WG_COND_EQUAL, id, NULL); out = std::to_string(r ? (int)wg_delete_record(h[slot], r) : -9) + "\n"; }
    else if (sscanf(line, "L %d", &slot) == 1) { for (void *r = wg_get_first_record(h[slot]); r; r = wg_get_next_record(h[slot], r)) { out += std::to_string((long)wg_decode_int(h[slot], wg_get_field(h[slot], r, 0))) + "=" + wg_decode_str(h[slot], wg_get_field(h[slot], r, 1)) + ";"; if (out.size() > 200000) break; } out += "\n"; }
    else if (sscanf(line, "O %d %8999s", &slot, text) == 2) { out = std::to_string(wg_dump(h[slot], text)) + "\n"; }
    else if (sscanf(line, "I %d %8999s", &slot, text) == 2) { out = std::to_string(wg_import_dump(h[slot], text)) + "\n"; }
    else if (sscanf(line, "N %d", &slot) == 1) { wg_journal_filename(h[slot], text, 1000); out = std::to_string((long)wg_database_size(h[slot])) + " " + std::to_string(wg_memmode(h[slot])) + " " + text + "\n"; }
    else if (line[0] == 'Q') _exit(0);
    else out = "?\n";
    size_t k = 0; while (k < out.size()) { ssize_t q = write(fd, out.data() + k, out.size() - k); if (q <= 0) _exit(1); k += (size_t)q; }
  }
  _exit(0);
}
static Agent spawn(int uid) {
  Agent a; int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(3); } a.uid = uid;
  a.pid = fork();
  if (a.pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(sv[0]); for (int k = 3; k < 64; k++) if (k != sv[1]) close(k); if (uid) { if (setgroups(0, NULL) || setgid(uid) || setuid(uid)) _exit(5); } agent_loop(sv[1]); }
  close(sv[1]); a.fd = sv[0]; a.in = fdopen(sv[0], "r"); return a;
}
static string ask(Agent &a, const string &cmd) {
  string c = cmd + "\n"; size_t k = 0; while (k < c.size()) { ssize_t q = write(a.fd, c.data() + k, c.size() - k); if (q <= 0) fail("the process died before: %s", cmd.substr(0, 100).c_str()); k += (size_t)q; }
  string r; int ch; while ((ch = fgetc(a.in)) != EOF && ch != '\n') r += (char)ch;
  if (ch == EOF) { int st = 0; waitpid(a.pid, &st, 0); fail("the process died (status %x) during: %s", st, cmd.substr(0, 100).c_str()); }
  return r;
}
static void quit(Agent &a) { if (!a.pid) return; if (write(a.fd, "Q\n", 2) != 2) {} int st; waitpid(a.pid, &st, 0); fclose(a.in); a.pid = 0; }
struct Seg { int key; long size; int shmid; int mode, uid; bool logged = false, dead = false, foreign = false; map<int, string> rows; int attached = 0; };
static int shm_of(int key) { return shmget(key, 0, 0); }
static int g_can_drop = 0; static bool g_root_rm = true;
// what this root may do with the segments of another user
static void probe_rights() {
  int pp[2], id = -1; if (pipe(pp)) return;
  pid_t p = fork(); if (!p) { int i2 = -1; if (!setgroups(0, NULL) && !setgid(65534) && !setuid(65534)) i2 = shmget(IPC_PRIVATE, 4096, 0600); if (write(pp[1], &i2, sizeof i2) < 0) {} (_exit)(i2 < 0); }
  int st = -1; if (p > 0) { if (read(pp[0], &id, sizeof id) != sizeof id) id = -1; waitpid(p, &st, 0); } close(pp[0]); close(pp[1]);
  g_can_drop = st == 0 && id >= 0; if (!g_can_drop) return;
  void *m = shmat(id, NULL, 0); if (m != (void *)-1) shmdt(m); else g_can_drop = 0;   // not even attach: no case with another user
  g_root_rm = !shmctl(id, IPC_RMID, NULL); if (!g_root_rm) rm_seg(id);
}
static void c28() {
  vector<Agent> ag; vector<Seg *> segs; map<int, Seg *> byk; Seg *slot_seg[4][4] = {{0}}; int nextid = 1, creations = 0, shared = 0;
  bool ns = src.chance(1, 4); if (ns) { if (unshare(CLONE_NEWUSER | CLONE_NEWIPC)) { ns = false; label("no namespace"); } else label("own namespace"); }
  uid_t me = geteuid();
  struct Nm { string text; int key; }; vector<Nm> names;
  if (ns) { names = {{"1001", 1001}, {"NULL", 1000}, {"1000", 1000}, {"abc", 1000}, {"0", 1000}, {"-7", 1000}, {"2147483646", 2147483646}, {"1", 1}, {"1000x", 1000}}; }
  else for (int k = 0; k < 3; k++) { names.push_back({keyname(k), atoi(keyname(k).c_str())}); int id = shm_of(names[k].key); if (id >= 0 && !rm_seg(id)) discard(); }
  if (chdir(scratch)) {}
  if (!ns && g_can_drop) label(g_root_rm ? "root with all rights" : "root with few rights");
  ag.push_back(spawn(0)); ag.push_back(spawn(0)); if (!ns && g_can_drop && src.chance(1, 2)) { ag.push_back(spawn(65534)); label("unprivileged process"); }
  auto stat_seg = [&](Seg *s, const char *op) {
    struct shmid_ds ds; int rc = shmctl(s->shmid, IPC_STAT, &ds);
    if (s->dead && !s->attached) { CHECK_(rc < 0 || (ds.shm_perm.mode & 01000 && ds.shm_nattch == 0), "after %s: a deleted database which nobody uses still exists", op); return; }
    CHECK_(rc == 0, "after %s: the segment of a database is gone (%d)", op, errno);
    CHECK_((int)ds.shm_nattch == s->attached, "after %s: %d attachments of the segment, expected %d", op, (int)ds.shm_nattch, s->attached);
  };
  auto check_list = [&](int a, int sl) {
    Seg *s = slot_seg[a][sl]; string r = ask(ag[a], "L " + std::to_string(sl)); map<int, string> got; size_t k = 0;
    while (k < r.size()) { size_t e = r.find('=', k), q = r.find(';', k); CHECK_(e != string::npos && q != string::npos, "unreadable listing"); int id = atoi(r.c_str() + k); CHECK_(!got.count(id), "row %d is listed twice", id); got[id] = r.substr(e + 1, q - e - 1); k = q + 1; }
    CHECK_(got == s->rows, "process %d sees %zu rows in database %d, expected %zu", a, got.size(), s->key, s->rows.size());
  };
  for (int n = 0; n < 60 && (n < 6 || src.more(25)); n++) {
    Span sp; int a = (int)src.draw(ag.size()), sl = (int)src.draw(3); Seg *cur = slot_seg[a][sl]; char cmd[200], op[200];
    int what = src.weighted({6, 2, 2, 8, 2, 4, 1, 1, 1, 2}); if (!cur && what >= 3 && what <= 5) what = 0; if (cur && what == 0) what = 5; if (!cur && what == 1) continue;
    switch (what) {
      case 0: {
        auto &nm = names[src.draw(names.size())]; int var = src.weighted({4, 3, 3, 1, 1}); if (ag[a].uid && var >= 3) var = 0;
        static const long sizes[] = {0, 400000, 700000, 1200000, 3000000}; long size = src.chance(1, 10) ? src.range(1, 100000) : sizes[src.draw(5)]; static const int modes[] = {0, 0600, 0660, 0666, 0606, 0644, 0640, 0777, 0622, 0444, 0066}; int mode = var == 2 || var == 4 ? modes[src.draw(11)] : 0;
        Seg *s = byk.count(nm.key) ? byk[nm.key] : NULL;
        snprintf(cmd, 200, "A %d %d %s %ld %d", sl, var, nm.text.c_str(), size, mode); long rs; int ok, rm; string r = ask(ag[a], cmd); if (sscanf(r.c_str(), "%d %ld %d", &ok, &rs, &rm) != 3) fail("bad reply %s", r.c_str());
        static const char *vn[] = {"attach", "attach_existing", "attach_mode", "attach_logged", "attach_logged_mode"};
        snprintf(op, 200, "%s(%s, %ld, %o) by process %d", vn[var], nm.text.c_str(), size, mode, a); T("%s -> %d", op, ok);
        if (var == 1) size = 0;
        if (s) {
          bool perm = ns || !ag[a].uid || s->uid == ag[a].uid || (s->mode & 06) == 06, want = perm && !s->foreign && (size <= s->size) && (var < 3 || s->logged);
          if (!perm) label("no permission"); else if (s->foreign) label("foreign segment"); else if (size > s->size) label("too small"); else if (!want) label("no journal");
          CHECK_(ok == want, "%s %s although the database %s", op, ok ? "succeeds" : "fails", !perm ? "is not accessible" : s->foreign ? "is not a database" : size > s->size ? "is smaller" : !want ? "has no journal" : "exists");
          if (ok) { CHECK_(rs == s->size, "%s: size %ld, the database was created with %ld", op, rs, s->size); CHECK_((rm & 0777) == s->mode, "%s: mode reads as %o, expected %o", op, rm & 0777, s->mode); slot_seg[a][sl] = s; s->attached++; check_list(a, sl); if (s->attached > 1) shared++; }
          stat_seg(s, op);
        } else {
          int id = shm_of(nm.key); bool small = size && size < 300000, must = var != 1 && !small; if (var == 1) CHECK_(!ok, "%s succeeds although no database exists", op); if (must) CHECK_(ok, "%s fails", op);
          CHECK_(ok == (id >= 0), "%s %s but %s", op, ok ? "succeeds" : "fails", ok ? "there is no segment" : "leaves a segment behind");
          if (!ok) { if (var != 1) label("creation refused"); break; }
          creations++; struct shmid_ds ds; CHECK_(shmctl(id, IPC_STAT, &ds) == 0, "%s: no segment", op);
          s = new Seg(); s->key = nm.key; s->size = rs; s->shmid = id; s->mode = ds.shm_perm.mode & 0777; s->uid = ns ? (int)me : ag[a].uid; s->logged = var >= 3; segs.push_back(s); byk[nm.key] = s; slot_seg[a][sl] = s; s->attached = 1;
          CHECK_(rs >= size && (long)ds.shm_segsz >= rs, "%s: requested %ld bytes, got %ld in a segment of %ld", op, size, rs, (long)ds.shm_segsz); if (!size) CHECK_(rs >= 10000000, "%s: default size is %ld", op, rs);
          int want = 0600; if ((mode & 060) == 060) want |= 060; if ((mode & 06) == 06) want |= 06; CHECK_((s->mode & want) == want && !(s->mode & ~(0600 | mode)) && !(s->mode & 0111) && ((s->mode & 060) == 060 || !(s->mode & 060)) && ((s->mode & 06) == 06 || !(s->mode & 06)), "%s: created with mode %o", op, s->mode); CHECK_((rm & 0777) == s->mode, "%s: mode reads as %o, is %o", op, rm & 0777, s->mode);
          if (ag[a].uid == 0 || !ns) CHECK_(ns || (int)ds.shm_perm.uid == ag[a].uid, "%s: owner is %d", op, (int)ds.shm_perm.uid);
          if (s->logged) { label("logged"); struct stat sb; string jf = "wgdb.journal." + std::to_string(nm.key); CHECK_(stat(jf.c_str(), &sb) == 0, "%s: there is no journal", op); CHECK_((int)(sb.st_mode & 0777) == s->mode, "%s: the journal has mode %o, the database %o", op, (int)(sb.st_mode & 0777), s->mode); }
          check_list(a, sl); stat_seg(s, op);
        }
        break; }
      case 1: { string r = ask(ag[a], "T " + std::to_string(sl)); T("detach by process %d from %d", a, cur->key); CHECK_(r == "0", "detaching returned %s", r.c_str()); cur->attached--; slot_seg[a][sl] = NULL; stat_seg(cur, "detaching"); label("detach"); break; }
      case 2: {
        auto &nm = names[src.draw(names.size())]; Seg *s = byk.count(nm.key) ? byk[nm.key] : NULL; string r = ask(ag[a], "D " + nm.text); T("delete %s by process %d -> %s", nm.text.c_str(), a, r.c_str());
        bool perm = s && (ns || (!ag[a].uid && g_root_rm) || s->uid == ag[a].uid); CHECK_((r == "0") == perm, "deleting %s returned %s although it %s", nm.text.c_str(), r.c_str(), !s ? "does not exist" : perm ? "exists" : "belongs to somebody else");
        if (perm) { s->dead = true; byk.erase(nm.key); label(s->attached ? "deleted while attached" : "deleted"); CHECK_(shm_of(nm.key) < 0, "the name is still taken after the deletion"); stat_seg(s, "deleting"); } else if (s) stat_seg(s, "refused deletion");
        break; }
      case 3: {
        if (cur->logged && (cur->dead || ag[a].uid)) break; int id = nextid++; string t; int len = src.chance(1, 8) ? (int)src.range(200, 3000) : (int)src.range(1, 40); for (int k = 0; k < len; k++) t += (char)('a' + (id * 7 + k * k) % 26);
        string r = ask(ag[a], "W " + std::to_string(sl) + " " + std::to_string(id) + " " + t); T("process %d adds row %d (%d bytes) to %d -> %s", a, id, len, cur->key, r.c_str()); if (r != "0") { CHECK_(cur->rows.size() > 20 || cur->size < 300000, "adding a row failed with %s", r.c_str()); break; } cur->rows[id] = t; break; }
      case 4: { if (cur->rows.empty() || (cur->logged && (cur->dead || ag[a].uid))) break; auto it = cur->rows.begin(); std::advance(it, src.draw(cur->rows.size())); string r = ask(ag[a], "X " + std::to_string(sl) + " " + std::to_string(it->first)); T("process %d removes row %d", a, it->first); CHECK_(r == "0", "removing a row which another process can see returned %s", r.c_str()); cur->rows.erase(it); break; }
      case 5: check_list(a, sl); if (cur->dead) label("used after deletion"); break;
      case 6: {   // a process ends and another one starts
        int uid = ag[a].uid; T("process %d ends", a); quit(ag[a]); set<Seg *> had; for (int k = 0; k < 4; k++) if (slot_seg[a][k]) { slot_seg[a][k]->attached--; had.insert(slot_seg[a][k]); slot_seg[a][k] = NULL; } for (Seg *s : had) stat_seg(s, "the end of a process"); ag[a] = spawn(uid); label("process ends"); break; }
      case 7: {   // a segment of some other program under the same key
        auto &nm = names[src.draw(names.size())]; if (byk.count(nm.key)) break; long sz = (long)src.range(8000, 500000); int id = shmget(nm.key, sz, IPC_CREAT | IPC_EXCL | 0666); if (id < 0) break; char *m = (char *)shmat(id, NULL, 0); if (m == (char *)-1) break; unsigned x = (unsigned)src.draw(1 << 30); int kind = src.weighted({2, 1, 2});
        if (kind == 0) memset(m, (int)(x & 255), (size_t)sz); else if (kind == 2) { void *t = wg_attach_local_database(300000); if (t) { size_t hs = 4096; memcpy(m, *(char **)t, hs); ((int *)m)[1] ^= 1 + (int)(x & 7); ((int *)m)[1] &= 0x7fffffff; wg_delete_local_database(t); label("other version"); } }
        shmdt(m); Seg *s = new Seg(); s->key = nm.key; s->size = 1L << 60; s->shmid = id; s->mode = 0666; s->uid = ns ? (int)me : 0; s->foreign = true; segs.push_back(s); byk[nm.key] = s; T("foreign segment at %d (kind %d)", nm.key, kind); break; }
      case 9: {   // the content of one database is copied to another one by a dump
        if (!cur || ag[a].uid) break; int a2 = (int)src.draw(ag.size()), s2 = (int)src.draw(3); Seg *dst = slot_seg[a2][s2]; if (!dst || ag[a2].uid || dst == cur || dst->logged || cur->logged) break;
        string f = string(scratch) + "/copy"; string r = ask(ag[a], "O " + std::to_string(sl) + " " + f); CHECK_(r == "0", "dumping returned %s", r.c_str()); struct stat sb; CHECK_(!stat(f.c_str(), &sb), "there is no dump");
        bool fits = sb.st_size <= dst->size; r = ask(ag[a2], "I " + std::to_string(s2) + " " + f); T("database %d dumped by process %d and imported into %d by process %d -> %s", cur->key, a, dst->key, a2, r.c_str()); CHECK_(r == (fits ? "0" : "-1"), "importing %ld bytes into %ld returned %s", (long)sb.st_size, dst->size, r.c_str());
        if (fits) dst->rows = cur->rows; label(fits ? "copied" : "copy does not fit"); unlink(f.c_str());
        for (size_t q = 0; q < ag.size(); q++) for (int k = 0; k < 3; k++) if (slot_seg[q][k] == dst) {
          check_list((int)q, k); long size; int mode; char j[1000]; r = ask(ag[q], "N " + std::to_string(k)); if (sscanf(r.c_str(), "%ld %d %999s", &size, &mode, j) != 3) fail("bad reply %s", r.c_str());
          CHECK_(size == dst->size, "after importing a dump of database %d the size of database %d is %ld, it was created with %ld", cur->key, dst->key, size, dst->size); if (!dst->dead) CHECK_((mode & 0777) == dst->mode, "after importing a dump the mode reads as %o, expected %o", mode & 0777, dst->mode);
          CHECK_(!strcmp(j, ("./wgdb.journal." + std::to_string(dst->key)).c_str()), "after importing a dump of database %d the journal of database %d is %s", cur->key, dst->key, j);
        }
        check_list(a, sl); break; }
      default: {   // names beyond the range of keys must not lead to a valid name's database
        if (cur) break; auto &nm = names[0]; if (!byk.count(nm.key)) break; Seg *s = byk[nm.key]; long long big = (long long)nm.key + (1LL << 32) * (src.chance(1, 2) ? 1 : 256); snprintf(cmd, 200, "A %d 1 %lld 0 0", sl, big); string r = ask(ag[a], cmd); T("attach_existing(%lld) -> %s", big, r.c_str()); label("name out of range");
        if (r[0] == '1') { stat_seg(s, "attaching to a name out of range"); CHECK_(ask(ag[a], "T " + std::to_string(sl)) == "0", "detaching failed"); } break; }
    }
  }
  if (src.chance(1, 3)) { long sz = src.range(1, 300000); T("local database of %ld bytes", sz); void *l = wg_attach_local_database(sz); CHECK_(l || sz < 300000, "a local database of %ld bytes is refused", sz); if (l) { CHECK_(wg_database_size(l) >= sz, "a local database of %ld bytes has size %ld", sz, (long)wg_database_size(l)); for (int k = 0; k < 20; k++) { void *r = wg_create_record(l, 3); if (!r) break; wg_set_field(l, r, 0, wg_encode_int(l, k)); } wg_delete_local_database(l); } else label("local database refused"); }
  for (size_t a = 0; a < ag.size(); a++) for (int k = 0; k < 4; k++) if (slot_seg[a][k]) check_list((int)a, k);
  for (auto &a : ag) quit(a);
  for (auto *s : segs) { s->attached = 0; stat_seg(s, "the end of all processes"); }
  for (auto *s : segs) { if (!s->dead) rm_seg(s->shmid); delete s; }
  if (creations >= 1 && shared >= 1 && nextid > 2) nontrivial();
}

// ---------------------------------------------------------------- C34
// Transactions of real processes append themselves to a common log while they
// hold the write lock; the log order is replayed on a model afterwards.
enum { NACC = 6, MAXTX = 4000 };
struct Tx { int proc, kind, a, b; long amount; int found; u64 sseed; int slen; };
struct DumpObs { int proc, k; long v1, v2; int rc; };
struct Obs { int proc; long v1, v2; u64 hash; long sum, rows; };
enum { MAXDUMP = 40 };
struct Common { volatile long n, nobs, ndump; DumpObs dump[MAXDUMP]; volatile long go, lockfail; volatile long err[8]; Tx tx[MAXTX]; Obs obs[MAXTX]; };
static Common *CM;
static u64 mixu(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 29; x *= 0xc4ceb9fe1a85ec53ULL; return x ^ (x >> 32); }
static string tx_text(u64 seed, int len) { string t; for (int k = 0; k < len; k++) { seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; t += (char)('a' + (seed >> 40) % 26); } return t; }
static u64 hstr(const string &s) { u64 h = 1469598103934665603ULL; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ULL; return h; }
static u64 row_hash(long key, long num, const string &s, long link) { return mixu((u64)key * 1000003 + 17) * 3 + mixu((u64)num + 99) * 7 * (u64)(key + 1) + mixu(hstr(s) + (u64)key) + mixu((u64)link * 31 + (u64)key * 7 + 5); }
// fields of a row: key, text, number, link
static u64 db_hash(void *db, long &sum, long &rows) {
  u64 h = 0; sum = 0; rows = 0;
  for (void *r = wg_get_first_record(db); r; r = wg_get_next_record(db, r)) {
    long key = (long)wg_decode_int(db, wg_get_field(db, r, 0)), num = (long)wg_decode_int(db, wg_get_field(db, r, 2)), link = -1; string s = wg_get_field_type(db, r, 1) == WG_STRTYPE ? wg_decode_str(db, wg_get_field(db, r, 1)) : "";
    wg_int l = wg_get_field(db, r, 3); if (wg_get_encoded_type(db, l) == WG_RECORDTYPE) { void *t = wg_decode_record(db, l); link = (long)wg_decode_int(db, wg_get_field(db, t, 0)); }
    h += row_hash(key, num, s, link); if (key < NACC) sum += num; if (++rows > 100000) break;
  }
  return h;
}
struct Plan { string name; u64 seed; int ntx, wpc, keys, nap; bool reattach; long big; int dumps = 0; };
static string dump_name(int proc, int k) { return string(scratch) + "/c34." + std::to_string(proc) + "." + std::to_string(k); }
static void worker(int me, const Plan &p) {
  u64 r = p.seed * 977 + (u64)me * 7919 + 1; auto rnd = [&](u64 n) { r = r * 6364136223846793005ULL + 1442695040888963407ULL; return (r >> 33) % n; };
  auto nap = [&] { if (p.nap && rnd(3) == 0) { if (rnd(2)) sched_yield(); else usleep((useconds_t)rnd(p.nap)); } };
  auto bad = [&](long c) { if (!CM->err[me]) CM->err[me] = c; };
  for (u64 k = rnd(6); k > 0; k--) mmap(0, 4096 * (1 + rnd(900)), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);   // other addresses in every process
  void *db = wg_attach_existing_database(p.name.c_str()); if (!db) { bad(1); return; }
  __sync_fetch_and_add(&CM->go, 1);
  int dumped = 0;
  for (int n = 0; n < p.ntx; n++) {
    if (dumped < p.dumps && (int)rnd((u64)p.ntx) < p.dumps * 2) {
      DumpObs o; o.proc = me; o.k = dumped++; o.v1 = CM->n; o.rc = (int)wg_dump(db, (char *)dump_name(me, o.k).c_str()); o.v2 = CM->n; long j = __sync_fetch_and_add(&CM->ndump, 1); if (j < MAXDUMP) CM->dump[j] = o;
    }
    if (p.reattach && rnd(10) == 0) { if (wg_detach_database(db)) bad(2); db = wg_attach_existing_database(p.name.c_str()); if (!db) { bad(3); return; } }
    bool wr = (int)rnd(100) < p.wpc; wg_int id = 0; for (int t = 0; t < 10 && !id; t++) id = wr ? wg_start_write(db) : wg_start_read(db);
    if (!id) { __sync_fetch_and_add(&CM->lockfail, 1); continue; }
    if (!wr) {
      Obs o; o.proc = me; o.v1 = CM->n; nap(); o.hash = db_hash(db, o.sum, o.rows); nap();
      // a lookup through the index agrees with itself
      long k = (long)rnd((u64)p.keys); void *q = wg_find_record_int(db, 0, WG_COND_EQUAL, (int)k, NULL); if (k < NACC && !q) bad(20); if (q && wg_decode_int(db, wg_get_field(db, q, 0)) != k) bad(21);
      o.v2 = CM->n; long j = __sync_fetch_and_add(&CM->nobs, 1); if (j < MAXTX) CM->obs[j] = o;
      if (!wg_end_read(db, id)) bad(4);
    } else {
      Tx x; memset(&x, 0, sizeof x); x.proc = me; x.kind = (int)rnd(6); x.a = (int)rnd((u64)p.keys); x.b = (int)rnd((u64)p.keys); x.amount = (long)rnd(1000); x.sseed = rnd(6); x.slen = rnd(6) == 0 ? (int)rnd(900) + 40 : (int)rnd(60);
      auto find = [&](int k) { return wg_find_record_int(db, 0, WG_COND_EQUAL, k, NULL); };
      if (x.kind == 0) {   // move an amount between two accounts
        x.a %= NACC; x.b %= NACC; void *p1 = find(x.a), *p2 = find(x.b); if (!p1 || !p2) bad(5);
        else { long n1 = (long)wg_decode_int(db, wg_get_field(db, p1, 2)); nap(); if (wg_set_field(db, p1, 2, wg_encode_int(db, n1 - x.amount))) bad(6); nap(); long n2 = (long)wg_decode_int(db, wg_get_field(db, p2, 2)); nap(); if (wg_set_field(db, p2, 2, wg_encode_int(db, n2 + x.amount))) bad(7); x.found = 1; }
      } else if (x.kind <= 2) {   // insert or update by key
        void *q = find(x.a); x.found = q != NULL; nap(); if (!q) { q = wg_create_record(db, 4); if (!q) bad(8); else { if (wg_set_field(db, q, 0, wg_encode_int(db, x.a))) bad(9); nap(); wg_set_field(db, q, 2, wg_encode_int(db, x.amount)); } }
        if (q) { string t = tx_text(x.sseed, x.slen); wg_int e = wg_encode_str(db, t.c_str(), NULL); nap(); if (e == WG_ILLEGAL || wg_set_field(db, q, 1, e)) bad(10); }
      } else if (x.kind == 3) {   // delete by key, accounts stay
        x.a = NACC + (p.keys > NACC ? x.a % (p.keys - NACC) : 0); void *q = find(x.a); if (q) { nap(); wg_int rc = wg_delete_record(db, q); if (rc != 0 && rc != -1) bad(11); x.found = rc == 0 ? 1 : 2; }
      } else if (x.kind == 4) {   // link
        void *p1 = find(x.a), *p2 = find(x.b); if (p1 && p2) { nap(); if (wg_set_field(db, p1, 3, wg_encode_record(db, p2))) bad(12); x.found = 1; }
      } else {   // unlink and big number
        void *p1 = find(x.a); if (p1) { if (wg_set_field(db, p1, 3, wg_encode_null(db, 0))) bad(13); if (x.a >= NACC && wg_set_field(db, p1, 2, wg_encode_int(db, x.amount + p.big))) bad(14); x.found = 1; }
      }
      long j = CM->n; nap(); if (j < MAXTX) CM->tx[j] = x; CM->n = j + 1;
      if (!wg_end_write(db, id)) bad(15);
    }
    if (p.nap && rnd(4) == 0) sched_yield();
  }
  if (wg_detach_database(db)) bad(16);
}
static void c34() {
  if (!CM) { CM = (Common *)mmap(0, sizeof(Common), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (CM == MAP_FAILED) { perror("mmap"); exit(3); } }
  memset((void *)CM, 0, offsetof(Common, tx));
  Plan p; p.name = keyname(5); int np = (int)src.range(2, 5); p.seed = src.draw(1ULL << 32); p.ntx = (int)src.range(20, 120); p.wpc = (int)src.range(20, 90); p.keys = NACC + (int)src.range(2, 60); p.nap = src.chance(1, 2) ? (int)src.range(1, 60) : 0; p.reattach = src.chance(1, 3); p.big = src.chance(1, 2) ? 1L << 40 : 0; p.dumps = src.chance(1, 3) ? (int)src.range(1, 4) : 0;
  bool logged = src.chance(1, 8); if (chdir(scratch)) {}
  wg_delete_database(p.name.c_str()); void *db = logged ? wg_attach_logged_database(p.name.c_str(), 3000000) : wg_attach_database(p.name.c_str(), 3000000); if (!db) discard();
  if (logged) label("with a journal");
  int idx = src.weighted({1, 2, 1, 1}); if (idx & 1) CHECK_(wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0) == 0, "index creation failed"); if (idx & 2) { wg_int c[1] = {0}; CHECK_(wg_create_multi_index(db, c, 1, WG_INDEX_TYPE_HASH, NULL, 0) == 0, "hash index creation failed"); } if (src.chance(1, 2)) CHECK_(wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0) == 0, "index creation failed");
  struct Row { long num; string s; long link = -1; }; map<long, Row> m;
  for (int k = 0; k < NACC; k++) { void *r = wg_create_record(db, 4); wg_set_field(db, r, 0, wg_encode_int(db, k)); wg_set_field(db, r, 2, wg_encode_int(db, 1000)); m[k] = Row{1000, ""}; }
  T("%d processes, %d transactions each, %d%% writers, %d keys, pauses up to %d us%s, indexes %d", np, p.ntx, p.wpc, p.keys, p.nap, p.reattach ? ", reattaching" : "", idx);
  vector<pid_t> pids; for (int k = 0; k < np; k++) { pid_t q = fork(); if (!q) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(k, p); _exit(0); } pids.push_back(q); }
  int died = 0, st; for (pid_t q : pids) { waitpid(q, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) died = st; }
  CHECK_(!died, "a process died with status %x", died);
  for (int k = 0; k < np; k++) CHECK_(!CM->err[k], "an operation inside a transaction of process %d failed (point %ld)", k, (long)CM->err[k]);
  if (CM->lockfail) { label("lock timeouts"); }
  // replay
  auto rh = [&](long k) { Row &r = m[k]; return row_hash(k, r.num, r.s, r.link); };
  long n = CM->n; CHECK_(n <= MAXTX, "too many transactions"); vector<u64> H; vector<long> R, S; u64 h = 0; for (auto &q : m) h += rh(q.first);
  auto total = [&] { long t = 0; for (long k = 0; k < NACC; k++) t += m[k].num; return t; };
  H.push_back(h); R.push_back((long)m.size()); S.push_back(total()); map<int, int> procs; int kinds = 0;
  for (long j = 0; j < n; j++) {
    Tx &x = CM->tx[j]; procs[x.proc]++; kinds |= 1 << x.kind;
    switch (x.kind) {
      case 0: m[x.a].num -= x.amount; m[x.b].num += x.amount; break;
      case 1: case 2: { bool has = m.count(x.a); CHECK_(has == (x.found != 0), "transaction %ld of process %d %s row %d, which %s at that time", j, x.proc, x.found ? "found" : "did not find", x.a, has ? "exists" : "does not exist"); if (!has) m[x.a] = Row{x.amount, ""}; m[x.a].s = tx_text(x.sseed, x.slen); break; }
      case 3: { bool has = m.count(x.a), linked = false; for (auto &q : m) if (q.second.link == x.a) linked = true; int want = !has ? 0 : linked ? 2 : 1; CHECK_(x.found == want, "transaction %ld of process %d deleting row %d: outcome %d, expected %d", j, x.proc, x.a, x.found, want); if (want == 1) m.erase(x.a); break; }
      case 4: { bool ok = m.count(x.a) && m.count(x.b); CHECK_(ok == (x.found != 0), "transaction %ld of process %d linking %d to %d: rows %s", j, x.proc, x.a, x.b, x.found ? "found" : "not found"); if (ok) m[x.a].link = x.b; break; }
      default: { bool ok = m.count(x.a); CHECK_(ok == (x.found != 0), "transaction %ld of process %d updating %d: row %s", j, x.proc, x.a, x.found ? "found" : "not found"); if (ok) { m[x.a].link = -1; if (x.a >= NACC) m[x.a].num = x.amount + p.big; } }
    }
    h = 0; for (auto &q : m) h += rh(q.first);
    H.push_back(h); R.push_back((long)m.size()); S.push_back(total());
  }
  long no = std::min<long>((long)CM->nobs, (long)MAXTX);
  for (long j = 0; j < no; j++) {
    Obs &o = CM->obs[j]; CHECK_(o.v1 == o.v2, "a reader of process %d ran while %ld write transactions were completed", o.proc, o.v2 - o.v1); CHECK_(o.v1 >= 0 && o.v1 <= n, "bad observation");
    CHECK_(o.sum == S[o.v1], "a reader of process %d saw accounts adding up to %ld, expected %ld", o.proc, o.sum, S[o.v1]); CHECK_(o.rows == R[o.v1], "a reader of process %d saw %ld rows, expected %ld after %ld transactions", o.proc, o.rows, R[o.v1], o.v1); CHECK_(o.hash == H[o.v1], "a reader of process %d saw other content than %ld transactions left", o.proc, o.v1);
  }
  // dumps made meanwhile hold the content between two transactions
  long nd = std::min<long>((long)CM->ndump, (long)MAXDUMP);
  for (long j = 0; j < nd; j++) {
    DumpObs o = CM->dump[j]; string f = dump_name(o.proc, o.k); CHECK_(o.rc == 0 || o.rc == -1, "a dump by process %d returned %d", o.proc, o.rc); if (o.rc) { label("dump refused"); continue; } wg_int mn = 0, mx = 0; wg_int rc = wg_check_dump(db, (char *)f.c_str(), &mn, &mx); CHECK_(rc == 0, "checking a dump made by process %d while others worked returned %ld", o.proc, (long)rc);
    void *t = wg_attach_local_database(mn + 400000); if (!t) discard(); rc = wg_import_dump(t, (char *)f.c_str()); CHECK_(rc == 0, "importing a dump made by process %d while others worked returned %ld", o.proc, (long)rc);
    long s2, r2; u64 dh = db_hash(t, s2, r2); bool hit = false; for (long v = o.v1; v <= o.v2 && v <= n; v++) if (H[v] == dh && R[v] == r2 && S[v] == s2) hit = true;
    CHECK_(hit, "a dump made by process %d holds %ld rows with accounts adding up to %ld, which is not the content after any of the transactions %ld to %ld", o.proc, r2, s2, o.v1, o.v2);
    if (idx & 1) for (long k = 0; k < NACC; k++) { void *r = wg_find_record_int(t, 0, WG_COND_EQUAL, (int)k, NULL); CHECK_(r && wg_decode_int(t, wg_get_field(t, r, 0)) == k, "account %ld is not found in the imported dump", k); }
    if (o.v2 > o.v1) label("dumped during writes");
    wg_delete_local_database(t); unlink(f.c_str()); label("dumped");
  }
  long sum, rows; wg_int id = wg_start_read(db); CHECK_(id, "the lock is not available after all processes ended"); u64 fh = db_hash(db, sum, rows); wg_end_read(db, id);
  CHECK_(rows == (long)m.size() && sum == S.back() && fh == h, "the final content (%ld rows, sum %ld) is not that of any order of the transactions (%zu rows, sum %ld)", rows, sum, m.size(), S.back());
  id = wg_start_write(db); CHECK_(id && wg_end_write(db, id), "the write lock is not available after all processes ended");
  for (auto &q : m) { void *r = wg_find_record_int(db, 0, WG_COND_EQUAL, (int)q.first, NULL); CHECK_(r && wg_decode_int(db, wg_get_field(db, r, 2)) == q.second.num, "row %ld is not found by key at the end", q.first); CHECK_(!wg_find_record_int(db, 0, WG_COND_EQUAL, (int)q.first, r), "key %ld is found twice", q.first); }
  if (n >= 20 && procs.size() >= 2 && no >= 3 && kinds == 63) nontrivial();
  if (n) label("writes"); if (no) label("reads");
  wg_detach_database(db); wg_delete_database(p.name.c_str());
}

int main(int argc, char **argv) {
  no_aslr(argv); sweep(false); reserve(); probe_rights();
  vector<Property> ps; Property p;
  p.id = "C27"; p.run = c27; p.quick_cases = 9000; p.thorough_cases = 150000; p.batch = 4;
  p.rule = "histories over two to four databases (one possibly shared) placed in any order in memory, with local and external values set, overwritten, compared, queried and deleted; every operation is followed by a byte comparison of all other databases; non-trivial: at least two external references stored and one field overwritten";
  p.assumptions = {"the owner of referenced data keeps it, as documented: data that is referenced from elsewhere is not overwritten or deleted by its own database"};
  ps.push_back(p);
  p = Property(); p.id = "C28"; p.run = c28; p.quick_cases = 7000; p.thorough_cases = 100000; p.batch = 1;
  p.rule = "histories of attach (all variants, sizes, modes), detach, delete, reading and writing by two or three real processes over several names, with foreign segments and an unprivileged process; the segment list of the kernel is compared after each operation; non-trivial: a database was created, attached more than once and written";
  p.assumptions = {"System V shared memory of this kernel; creation races of simultaneous first attaches are not judged", "names are integers from 1 to 2147483646"};
  ps.push_back(p);
  p = Property(); p.id = "C34"; p.run = c34; p.quick_cases = 7000; p.thorough_cases = 100000; p.batch = 2; p.hang_cpu_s = 60;
  p.rule = "two to five real processes run random read and write transactions on one shared database with generated indexes and pauses; writers log themselves under the lock and the log is replayed on a model, readers' observations are compared with the model at their version; non-trivial: at least 20 write transactions of all kinds by two processes and 3 observations";
  p.assumptions = {"schedules are those of the operating system with random pauses; exhaustive control of lock interleavings is in C17-C19", "no process dies inside a transaction"};
  ps.push_back(p);
  int rc = main_(argc, argv, ps);
  sweep(true);
  return rc;
}
