// C17, C18 locks and C19 atomic updates under generated schedules.
#include "sim.h"

#define FNS(P) extern "C" { void *P##wg_attach_local_database(wg_int); void P##wg_delete_local_database(void *); wg_int P##wg_start_write(void *); wg_int P##wg_end_write(void *, wg_int); wg_int P##wg_start_read(void *); wg_int P##wg_end_read(void *, wg_int); wg_int P##wg_database_size(void *); void *P##wg_create_record(void *, wg_int); wg_int P##wg_set_field(void *, void *, wg_int, wg_int); wg_int P##wg_get_field(void *, void *, wg_int); wg_int P##wg_get_field_type(void *, void *, wg_int); wg_int P##wg_encode_int(void *, wg_int); wg_int P##wg_update_atomic_field(void *, void *, wg_int, wg_int, wg_int); wg_int P##wg_set_atomic_field(void *, void *, wg_int, wg_int); wg_int P##wg_add_int_atomic_field(void *, void *, wg_int, int); wg_int P##wg_decode_int(void *, wg_int); }
FNS(L1_) FNS(L2_) FNS(L3_)
struct Api { int proto; const char *name; void *(*attach)(wg_int); void (*del)(void *); wg_int (*sw)(void *), (*ew)(void *, wg_int), (*sr)(void *), (*er)(void *, wg_int); };
#define API(P, n, s) {n, s, P##wg_attach_local_database, P##wg_delete_local_database, P##wg_start_write, P##wg_end_write, P##wg_start_read, P##wg_end_read}
static Api api[] = {API(L3_, 3, "task-fair queue"), API(L2_, 2, "writer preference spinlock"), API(L1_, 1, "reader preference spinlock")};
enum { MAXCL = 64 };
// the spinlocks count their own sleeps: a short limit can only be given at this level
extern "C" { __attribute__((weak)) wg_int L1_db_rpspin_wlock(void *, wg_int), L1_db_rpspin_rlock(void *, wg_int), L2_db_wpspin_wlock(void *, wg_int), L2_db_wpspin_rlock(void *, wg_int); }
typedef wg_int (*Limited)(void *, wg_int);
static Limited limited(int proto, bool w) { return proto == 1 ? (w ? L1_db_rpspin_wlock : L1_db_rpspin_rlock) : proto == 2 ? (w ? L2_db_wpspin_wlock : L2_db_wpspin_rlock) : nullptr; }

struct Call { int client; bool write; u64 begin, slept, end; wg_int id; };   // times of one lock call (0: not yet)

static void locks(bool live) {
  Sim &s = *new Sim; sim = &s;
  Api &A = api[src.weighted({6, 2, 2})];
  wg_int size = 300000; void *db = A.attach(size); if (!db) discard();
  s.lo = (char *)(*(void **)db); s.hi = s.lo + size;      // first member of a handle is the segment
  bool crowd = live && A.proto == 3 && src.chance(1, 12);
  int n = crowd ? MAXCL + (int)src.range(-1, 6) : 2 + src.weighted({4, 4, 3, 1, 1});
  if (A.proto == 3) {
    if (src.chance(1, 2)) { s.spurious = (int)src.range(0, 4); s.eintr = (int)src.range(0, 3); }
    if (src.chance(1, 3)) s.timeouts = (int)src.range(1, 4);
  }
  s.style = crowd ? 2 : (int)src.draw(3);
  static const char *st[] = {"mixed", "fine", "coarse"};
  T("%s lock, %d clients, %s preemption%s", A.name, n, st[s.style], s.timeouts ? ", with timeouts" : "");
  label(A.name);
  static int readers, writers, inside, maxin; readers = writers = inside = 0;
  vector<Call> &calls = *new vector<Call>; calls.reserve(1000);
  static int conflicts; conflicts = 0;
  s.t.resize(n);
  int wbias = src.weighted({2, 1, 1});
  bool lim = A.proto != 3 && src.chance(1, 2); if (lim) label("spinlock with short time limits");
  for (int i = 0; i < n; i++) {
    int ops = crowd ? 1 : 1 + (int)src.draw(3);
    vector<pair<bool, int>> script; for (int k = 0; k < ops; k++) { bool w = wbias == 0 ? src.chance(1, 2) : wbias == 1 ? src.chance(1, 5) : src.chance(4, 5); script.push_back({w, crowd ? (int)src.range(0, 400) : (int)src.weighted({3, 3, 1}) * (int)src.range(0, 12) + (lim && src.chance(1, 3) ? 400 * (int)src.range(1, 8) : 0)}); }
    vector<int> ms; for (int k = 0; k < ops; k++) ms.push_back(lim && src.chance(2, 3) ? (int)src.range(1, 4) : 0);
    s.t[i].body = [&s, &A, db, i, script, ms, &calls, n, live]() {
      int at = 0;
      for (auto &op : script) {
        bool w = op.first; int t = ms[at++]; Limited L = t ? limited(A.proto, w) : nullptr; Sim::Task &me = s.t[i];
        sim_point();
        size_t ci = calls.size(); calls.push_back({i, w, ++s.clk, 0, 0, 0});
        me.waited = false; me.timed_out = false; int sl0 = me.sleeps; inside++;
        if (L) T("client %d: %s, at most %d ms", i, w ? "start_write" : "start_read", t); else T("client %d: %s", i, w ? "start_write" : "start_read");
        wg_int id = L ? L(db, t) : w ? A.sw(db) : A.sr(db);
        T("client %d: %s -> %s", i, w ? "start_write" : "start_read", id ? "granted" : "refused");
        calls[ci].end = ++s.clk; calls[ci].id = id; calls[ci].slept = me.waited ? me.wait_time : 0;
        if (!id) {
          inside--;
          // refusals need a reason
          if (live) {
            bool reason = A.proto == 3 ? me.timed_out || n > MAXCL : me.sleeps > sl0;
            CHECK_(reason, "client %d was refused the lock without waiting", i);
            label(me.timed_out ? "refused after a timeout" : A.proto == 3 ? "refused, too many clients" : "refused after waiting");
          }
          continue;
        }
        if (me.sleeps > sl0 || me.waited) conflicts++;
        if (!live) {
          if (w) { CHECK_(!readers && !writers, "client %d was granted a write lock while %d readers and %d writers hold one", i, readers, writers); }
          else CHECK_(!writers, "client %d was granted a read lock while a writer holds one", i);
        }
        (w ? writers : readers)++;
        for (int k = 0; k < op.second; k++) sim_point();
        (w ? writers : readers)--; inside--;
        wg_int rc = w ? A.ew(db, id) : A.er(db, id);
        T("client %d: %s", i, w ? "end_write" : "end_read");
        CHECK_(rc, "client %d: releasing a lock returned %ld", i, (long)rc);
      }
    };
  }
  sim_run();
  if (s.n_spurious) label("interrupted or spurious wakeups");
  if (s.n_timeouts) label("timeouts");
  if (s.n_blocked || s.n_sleep) label("a client had to wait");
  if (conflicts >= 1 && s.n_switch >= 3) nontrivial();
  if (!live) { if (s.deadlock) label("deadlock (judged by C18)"); return; }
  CHECK_(!s.deadlock, "all remaining clients sleep although every lock was released");
  // no overtaking in the queue
  if (A.proto == 3) for (auto &a : calls) if (a.id && a.slept) for (auto &b : calls) if (b.id && b.begin > a.slept && (a.write || b.write))
    CHECK_(b.end > a.end, "client %d asked for a %s lock while client %d was already queued for a %s lock, and got it first", b.client, b.write ? "write" : "read", a.client, a.write ? "write" : "read");
  // the lock is free again
  T("afterwards");
  wg_int id = A.sw(db); CHECK_(id, "write lock refused after all clients have finished"); CHECK_(A.ew(db, id), "release failed");
  vector<wg_int> ids; int many = A.proto == 3 ? MAXCL : 5;
  for (int k = 0; k < many; k++) { id = A.sr(db); CHECK_(id, "read lock %d of %d refused after all clients have finished", k + 1, many); ids.push_back(id); }
  if (A.proto == 3 && src.chance(1, 2)) { CHECK_(!A.sr(db), "a client beyond the supported number was granted a lock"); CHECK_(!A.sw(db), "a client beyond the supported number was granted a lock"); label("limit of clients reached"); }
  while (!ids.empty()) { size_t k = src.chance(1, 4) ? src.draw(ids.size()) : ids.size() - 1; CHECK_(A.er(db, ids[k]), "release failed"); ids.erase(ids.begin() + k); }
  id = A.sw(db); CHECK_(id, "write lock refused after all readers have finished"); A.ew(db, id);
  A.del(db);
}
static void c17() { locks(false); }
static void c18() { locks(true); }


// ---------------------------------------------------------------- C19
extern "C" {
wg_int L3_wg_encode_double(void *, double); wg_int L3_wg_encode_str(void *, char *, char *); wg_int L3_wg_encode_char(void *, char); wg_int L3_wg_encode_date(void *, int); wg_int L3_wg_encode_time(void *, int); wg_int L3_wg_encode_null(void *, char *); wg_int L3_wg_encode_var(void *, wg_int); wg_int L3_wg_encode_fixpoint(void *, double); wg_int L3_wg_encode_record(void *, void *); wg_int L3_wg_encode_blob(void *, char *, char *, wg_int);
wg_int L3_wg_create_index(void *, wg_int, wg_int, wg_int *, wg_int); wg_int L3_wg_drop_index(void *, wg_int); wg_int L3_wg_column_to_index_id(void *, wg_int, wg_int, wg_int *, wg_int);
wg_int L3_wg_start_logging(void *); wg_int L3_wg_stop_logging(void *);
int L3_wg_init_handle_logdata(void *);
}
struct AOp { int kind; int field; wg_int a, b; int d; u64 begin, end; wg_int rc, seen; int client; };  // 0 update, 1 set, 2 add, 3 read
static void *adb; static void *arec, *aprobe; static bool aimm[64]; static vector<wg_int> avals;
static bool immediate(wg_int enc) {     // observed: only immediate values are accepted as new values
  wg_int rc = L3_wg_update_atomic_field(adb, aprobe, 0, enc, L3_wg_get_field(adb, aprobe, 0));
  return rc != -10;
}
static map<wg_int, bool> immcache;
static bool is_imm(wg_int e) { auto it = immcache.find(e); if (it != immcache.end()) return it->second; return immcache[e] = immediate(e); }
// effect of one operation on a field value; false when the result code cannot be right
extern "C" wg_int L3_wg_get_encoded_type(void *, wg_int);
static wg_int L3_enc_type(wg_int e) { return L3_wg_get_encoded_type(adb, e); }
static bool apply(const AOp &o, wg_int &cur, string *why = nullptr) {
  switch (o.kind) {
    case 0:
      if (!is_imm(o.a)) return o.rc == -10;
      if (!is_imm(o.b)) return o.rc == -11;
      if (o.rc == 0) { if (cur != o.b) return false; cur = o.a; return true; }
      return o.rc == -15 && cur != o.b;
    case 1:
      if (!is_imm(o.a)) return o.rc == -10;
      if (!is_imm(cur)) return o.rc == -11;
      if (o.rc == 0) { cur = o.a; return true; }
      return false;
    case 2: {
      bool small = L3_enc_type(cur) == WG_INTTYPE && is_imm(cur);
      if (!small) return o.rc == -11;
      wg_int n = L3_wg_encode_int(adb, L3_wg_decode_int(adb, cur) + (wg_int)o.d); bool fits = is_imm(n);
      if (o.rc == -16) return !fits;
      if (o.rc == 0) { if (!fits) return false; cur = n; return true; }
      return false;
    }
    default: return o.seen == cur;
  }
}
static bool linearizable(const vector<AOp> &h, wg_int init, wg_int fin) {
  int n = h.size(); if (n > 20) fail("harness: history too long");
  std::set<pair<unsigned, wg_int>> seen; vector<pair<unsigned, wg_int>> st{{0u, init}};
  unsigned all = (1u << n) - 1;
  while (!st.empty()) {
    auto [done, cur] = st.back(); st.pop_back();
    if (done == all) { if (cur == fin) return true; continue; }
    if (!seen.insert({done, cur}).second) continue;
    u64 first_end = UINT64_MAX; for (int i = 0; i < n; i++) if (!(done >> i & 1)) first_end = std::min(first_end, h[i].end);
    for (int i = 0; i < n; i++) if (!(done >> i & 1) && h[i].begin <= first_end) { wg_int c = cur; if (apply(h[i], c)) st.push_back({done | 1u << i, c}); }
  }
  return false;
}
static string aname(const AOp &o) { char b[160]; if (o.kind == 0) snprintf(b, 160, "update [%d] %lx -> %lx = %ld", o.field, (long)o.b, (long)o.a, (long)o.rc); else if (o.kind == 1) snprintf(b, 160, "set [%d] %lx = %ld", o.field, (long)o.a, (long)o.rc); else if (o.kind == 2) snprintf(b, 160, "add [%d] %d = %ld", o.field, o.d, (long)o.rc); else snprintf(b, 160, "read [%d] = %lx", o.field, (long)o.seen); return b; }

static wg_int aval(bool imm_bias) {
  int k = src.weighted({8, imm_bias ? 3 : 2, imm_bias ? 0 : 4, 2, imm_bias ? 1 : 3});
  switch (k) {
    case 0: return L3_wg_encode_int(adb, src.range(-2, 6));
    case 1: switch (src.draw(5)) { case 0: return L3_wg_encode_null(adb, 0); case 1: return L3_wg_encode_char(adb, (char)('a' + src.draw(3))); case 2: return L3_wg_encode_date(adb, (int)src.range(0, 3)); case 3: return L3_wg_encode_time(adb, (int)src.range(0, 3)); default: return L3_wg_encode_fixpoint(adb, (double)src.range(-3, 3) / 2); }
    case 2: switch (src.draw(6)) { case 0: return L3_wg_encode_double(adb, 0.5 + src.draw(3)); case 1: return L3_wg_encode_str(adb, (char *)"short", 0); case 2: return L3_wg_encode_str(adb, (char *)"a string that is too long to be kept short", 0); case 3: return L3_wg_encode_record(adb, aprobe); case 4: return L3_wg_encode_blob(adb, (char *)"blob", 0, 4); default: return L3_wg_encode_int(adb, (1LL << 62) + (i64)src.draw(2)); }
    case 3: return L3_wg_encode_int(adb, src.chance(1, 2) ? (i64)INT_MAX - src.range(-2, 2) : (i64)INT_MIN + src.range(-2, 2));
    default: { static const int sh[] = {28, 31, 32, 40, 59, 60, 61}; i64 v = (1LL << sh[src.draw(7)]) + src.range(-2, 2); return L3_wg_encode_int(adb, src.chance(1, 2) ? v : -v); }
  }
}
static void c19() {
  if (chdir(scratch)) _exit(3);
  Sim &s = *new Sim; sim = &s; immcache.clear();
  adb = L3_wg_attach_local_database(300000); if (!adb) discard();
  s.lo = (char *)(*(void **)adb); s.hi = s.lo + 300000;
  int nf = 1 + src.weighted({4, 2, 1});
  for (int i = (int)src.draw(3); i > 0; i--) L3_wg_create_record(adb, 3);
  aprobe = L3_wg_create_record(adb, 1); arec = L3_wg_create_record(adb, nf + 1); CHECK_(aprobe && arec, "record creation failed");
  vector<wg_int> init;
  for (int i = 0; i <= nf; i++) { wg_int v = aval(src.chance(3, 4)); CHECK_(v != WG_ILLEGAL, "encoding failed"); CHECK_(L3_wg_set_field(adb, arec, i, v) == 0, "setting a field failed"); init.push_back(L3_wg_get_field(adb, arec, i)); }
  // refusals
  auto refused = [&](int f, int code, const char *why) {
    wg_int old = 0; if (f >= 0 && f <= nf) old = L3_wg_get_field(adb, arec, f);
    wg_int three = L3_wg_encode_int(adb, 3), z = is_imm(old) ? old : three;
    wg_int r0 = L3_wg_update_atomic_field(adb, arec, f, three, z), r1 = L3_wg_set_atomic_field(adb, arec, f, three), r2 = L3_wg_add_int_atomic_field(adb, arec, f, 1);
    T("%s: update %ld, set %ld, add %ld", why, (long)r0, (long)r1, (long)r2);
    CHECK_(r0 == code, "%s: wg_update_atomic_field returned %ld", why, (long)r0);
    CHECK_(r1 == code || (r1 == -11 && !is_imm(old)), "%s: wg_set_atomic_field returned %ld", why, (long)r1);
    CHECK_(r2 == code || (r2 == -11 && !(is_imm(old) && L3_enc_type(old) == WG_INTTYPE)) || (r2 == -16), "%s: wg_add_int_atomic_field returned %ld", why, (long)r2);
    for (int i = 0; i <= nf; i++) CHECK_(L3_wg_get_field(adb, arec, i) == init[i], "%s: a refused update changed a field", why);
    label(why);
  };
  switch (src.draw(8)) {
    case 1: refused(nf + 1 + (int)src.draw(3), -2, "field out of range"); break;
    case 2: refused(-1 - (int)src.draw(2), -2, "negative field"); break;
    case 3: case 4: {
      int f = (int)src.draw(nf + 1); bool tm = src.chance(1, 3); int type = src.chance(1, 2) ? WG_INDEX_TYPE_TTREE : WG_INDEX_TYPE_HASH;
      wg_int m[8]; wg_int *mp = NULL; int ml = 0;
      if (tm) { for (int i = 0; i < 6; i++) m[i] = L3_wg_encode_var(adb, 0); ml = (f == 0 ? 1 : 0) + 1; m[ml - 1] = L3_wg_encode_int(adb, 4); mp = m; }
      CHECK_(L3_wg_create_index(adb, f, type, mp, ml) == 0, "index creation failed");
      refused(f, -13, tm ? "index with template" : "indexed field");
      if (tm) { if (ml - 1 != f && ml - 1 <= nf) refused(ml - 1, -13, "field of an index template"); }
      if (type == WG_INDEX_TYPE_TTREE && src.chance(2, 3)) { wg_int id = L3_wg_column_to_index_id(adb, f, type, mp, ml); CHECK_(id > 0 && L3_wg_drop_index(adb, id) == 0, "dropping the index failed"); label("index dropped again"); break; }
      return;
    }
    case 5: {
      wg_int rc = L3_wg_start_logging(adb); CHECK_(rc == 0, "starting the journal returned %ld", (long)rc);
      refused((int)src.draw(nf + 1), -14, "journal active");
      CHECK_(L3_wg_stop_logging(adb) == 0, "stopping the journal failed"); break;
    }
  }
  int n = 1 + (int)src.weighted({2, 4, 3, 2});
  s.style = (int)src.draw(2);
  vector<AOp> &ops = *new vector<AOp>; ops.reserve(64);
  vector<wg_int> vals; for (int i = 0; i < 4; i++) vals.push_back(aval(src.chance(5, 6)));
  s.t.resize(n);
  for (int i = 0; i < n; i++) {
    int k = 1 + (int)src.draw(4); vector<AOp> sc;
    for (int j = 0; j < k; j++) {
      AOp o = {}; o.client = i; o.kind = src.weighted({3, 2, 4, 2}); o.field = (int)src.draw(nf);
      o.a = src.chance(1, 8) ? aval(false) : vals[src.draw(4)]; o.b = src.chance(1, 2) ? init[o.field] : vals[src.draw(4)];
      o.d = src.weighted({5, 1, 1}) == 0 ? (int)src.range(-3, 5) : src.chance(1, 2) ? INT_MAX - (int)src.draw(3) : INT_MIN + (int)src.draw(3);
      sc.push_back(o);
    }
    s.t[i].body = [&s, sc, &ops]() {
      for (AOp o : sc) {
        sim_point(); o.begin = ++s.clk;
        switch (o.kind) {
          case 0: o.rc = L3_wg_update_atomic_field(adb, arec, o.field, o.a, o.b); break;
          case 1: o.rc = L3_wg_set_atomic_field(adb, arec, o.field, o.a); break;
          case 2: o.rc = L3_wg_add_int_atomic_field(adb, arec, o.field, o.d); break;
          default: o.seen = L3_wg_get_field(adb, arec, o.field);
        }
        o.end = ++s.clk; ops.push_back(o); T("client %d: %s", o.client, aname(o).c_str());
      }
    };
  }
  sim_run();
  bool overlap = false; int okc = 0;
  for (auto &a : ops) { if (a.kind < 3 && a.rc == 0) okc++; for (auto &b : ops) if (a.client != b.client && a.field == b.field && a.kind < 3 && b.kind < 3 && a.begin < b.end && b.begin < a.end) overlap = true; }
  if (overlap && okc >= 2) nontrivial();
  if (overlap) label("overlapping updates of a field");
  for (auto &o : ops) if (o.kind < 3) label(("result " + std::to_string(o.rc)).c_str());
  for (int f = 0; f <= nf; f++) {
    vector<AOp> h; for (auto &o : ops) if (o.field == f) h.push_back(o);
    wg_int fin = L3_wg_get_field(adb, arec, f);
    T("field %d: %lx at first, %lx in the end", f, (long)init[f], (long)fin);
    CHECK_(linearizable(h, init[f], fin), "field %d: no order of the %zu operations explains their results and the final value", f, h.size());
  }
}

int main(int argc, char **argv) {
  vector<Property> ps; Property p;
  p = Property(); p.id = "C17"; p.run = c17; p.quick_cases = 120000; p.thorough_cases = 6000000; p.batch = 50;
  p.rule = "2 to 6 clients with generated scripts run on generated schedules, switching at any access to the shared memory, for each of the three lock protocols, with interrupted, spurious and timed out waiting; holders are counted at every grant; non-trivial: a client had to wait before it was granted a lock and there were at least three context switches";
  p.assumptions = {"memory accesses of the simulated clients are sequentially consistent", "lock timeouts are compiled in, as in the source"};
  ps.push_back(p);
  p.id = "C18"; p.run = c18;
  p.rule = "as C17, also with up to 70 clients; after every client is done or only sleepers are left, the lock must be free for one writer and for the supported number of readers; non-trivial: as C17";
  ps.push_back(p);
  p.id = "C19"; p.run = c19; p.quick_cases = 100000; p.thorough_cases = 5000000;
  p.rule = "1 to 4 clients perform generated atomic updates, additions, assignments and reads on shared fields of generated content under generated schedules; result codes, reads and final values must be explained by some sequential order that respects real time (exhaustive search per field); refusals for bad fields, indexed fields and an active journal must change nothing; non-trivial: updates of one field by different clients overlapped and at least two succeeded";
  p.assumptions = {"memory accesses of the simulated clients are sequentially consistent"};
  ps.push_back(p);
  return main_(argc, argv, ps);
}
