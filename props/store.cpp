// C12 C13 dumps, C14 C15 C16 journals
#include "store.h"

static SWorld *mk(wg_int size) {
  watch_errors(); SWorld *w = new SWorld; w->dbsize = size; w->db = wg_attach_local_database(size); if (!w->db) discard();
  w->opt.maxlen = src.chance(1, 4) ? 3000 : 200; w->mode = (int)src.range(0, 5); w->ncols = 4;
  T("database of %ld bytes", (long)size); return w;
}
static int history(SWorld &w, int max, int mean, bool j, bool docs, bool index) {
  int n = 0; for (; n < max && !w.full && src.more(mean); n++) { Span sp; w.one(j, docs, index); } return n;
}
// fills a database with records and removes them again, so that storage is
// reused in another order
static void churn(SWorld &w) {
  vector<int> ids; int n = (int)src.range(0, 25);
  for (int i = 0; i < n; i++) { Span sp; int id = w.create((int)src.range(1, 6)); if (!id) break; ids.push_back(id); for (int k = 0; k < 3; k++) w.set(id, 0, gen_val(w.pool, w.opt)); }
  while (!ids.empty()) { size_t k = src.draw(ids.size()); w.del(ids[k]); ids.erase(ids.begin() + k); }
  CHECK_(!wg_get_first_record(w.db), "records remain after deleting all");
}
static string image(void *db) { return string((char *)dbmemseg(db), (size_t)wg_database_size(db)); }

// ---------------------------------------------------------------- C12
static char DUMP[] = "dump.bin", DUMP2[] = "dump2.bin";
static void c12() {
  enter_scratch();
  static const int sz[] = {2000000, 900000, 4000000};
  SWorld &w = *mk(sz[src.draw(3)]);
  bool log = src.chance(1, 4);
  if (log) CHECK_(wg_start_logging(w.db) == 0, "starting the journal failed");
  history(w, 150, src.chance(1, 4) ? 80 : 25, log, true, true);
  w.full = false;
  size_t nrec = w.r.size();
  string before = log ? "" : image(w.db);
  wg_int rc = wg_dump(w.db, DUMP);
  T("dump -> %ld", (long)rc);
  CHECK_(rc == 0, "dumping returned %ld", (long)rc);
  w.check_everything(false, "original after the dump");
  wg_int mn = -1, mx = -1; rc = wg_check_dump(w.db, DUMP, &mn, &mx);
  CHECK_(rc == 0, "checking an intact dump returned %ld", (long)rc);
  CHECK_(mn == file_size(DUMP) && mx == w.dbsize, "check reports sizes %ld and %ld for a dump of %lld bytes of a database of %ld", (long)mn, (long)mx, (long long)file_size(DUMP), (long)w.dbsize);
  if (src.chance(1, 3)) history(w, 20, 8, log, true, true), nrec = SIZE_MAX;   // changes after the dump are not part of it
  bool changed = nrec == SIZE_MAX;
  SWorld snap; if (!changed) snap = w;
  // target
  wg_int ts = src.weighted({2, 2, 1}); ts = ts == 0 ? w.dbsize : ts == 1 ? mn + (wg_int)src.range(0, 3000000) : mn + (wg_int)src.range(0, 16);
  if (ts < 600000) ts = 600000;
  SWorld &t = *mk(ts);
  if (src.chance(1, 2)) { history(t, 30, 10, false, true, true); if (!t.r.empty()) label("target had content"); }
  bool tlog = src.chance(1, 3);
  if (tlog) CHECK_(wg_start_logging(t.db) == 0, "starting the journal failed");
  rc = wg_import_dump(t.db, DUMP);
  T("import into %ld bytes -> %ld", (long)ts, (long)rc);
  CHECK_(rc == 0, "importing a dump of %ld bytes into a database of %ld returned %ld", (long)mn, (long)ts, (long)rc);
  CHECK_(wg_database_size(t.db) == ts, "import changed the size of the database from %ld to %ld", (long)ts, (long)wg_database_size(t.db));
  if (changed) { label("original changed afterwards"); w.check_everything(false, "original at the end"); if (w.r.size() > 3) nontrivial(); return; }
  SWorld b; transplant(w, t.db, b);
  b.check_everything(true, "imported database");
  int links = 0; for (auto &k : w.r) for (auto &v : k.second.f) if (v.t == WG_RECORDTYPE) links++;
  // the imported database goes on like any other
  b.full = false; history(b, 60, 12, tlog, true, true);
  b.check_everything(false, "imported database after more operations");
  w.check_everything(false, "original afterwards");
  if (tlog) CHECK_(wg_stop_logging(b.db) == 0, "stopping the journal failed");
  if (src.chance(1, 2)) {
    rc = wg_dump(b.db, DUMP2); CHECK_(rc == 0, "dumping the import returned %ld", (long)rc);
    CHECK_(wg_check_dump(b.db, DUMP2, &mn, &mx) == 0 && mx == ts, "check of the second dump failed");
    SWorld &u = *mk(mn + (wg_int)src.range(0, 500000));
    rc = wg_import_dump(u.db, DUMP2); CHECK_(rc == 0, "importing the second dump returned %ld", (long)rc);
    SWorld c; transplant(b, u.db, c); c.check_everything(true, "dump of the import"); label("dumped again");
  }
  if (w.r.size() > 3 && links) nontrivial();
}

// ---------------------------------------------------------------- C13
static void c13() {
  enter_scratch();
  SWorld &w = *mk(src.chance(1, 2) ? 900000 : 2500000);
  history(w, 60, 12, false, true, true); w.full = false;
  CHECK_(wg_dump(w.db, DUMP) == 0, "dumping failed");
  string good; if (!read_file(DUMP, good)) fail("the dump file is missing");
  // a database with content of its own, perhaps journaling
  SWorld &t = *mk(src.chance(1, 3) ? 600000 : 2500000);
  bool log = src.chance(1, 3);
  if (log) CHECK_(wg_start_logging(t.db) == 0, "starting the journal failed");
  history(t, 40, 12, log, true, true); t.full = false;
  char J[100]; wg_journal_filename(t.db, J, sizeof J); string jbytes, jnow; if (log) read_file(J, jbytes);
  string img = image(t.db);
  int n = (int)src.range(1, 5);
  for (int k = 0; k < n; k++) {
    Span sp; string bad = good; bool body_only = false, missing = false; string what; char name[] = "bad.bin"; bool checkfails = true;
    size_t hdr = sizeof(db_memsegment_header);
    switch (src.weighted({3, 4, 2, 2, 1, 1, 2, 2})) {
      case 0: { size_t c = src.weighted({3, 1, 1}); c = c == 0 ? src.draw(good.size()) : c == 1 ? src.draw(9000) : good.size() - 1 - src.draw(9); bad.resize(c); what = "truncated to " + std::to_string(c); break; }
      case 1: { size_t at = src.draw(good.size()); unsigned char x = (unsigned char)(1 + src.draw(255)); bad[at] ^= x; body_only = at >= 16 && !(at >= offsetof(db_memsegment_header, free) && at < offsetof(db_memsegment_header, free) + 8); what = "byte " + std::to_string(at) + " changed"; if (at >= 12 && at < 16) body_only = true; break; }
      case 2: { size_t at = src.draw(40); bad[at] ^= (char)(1 << src.draw(8)); body_only = (at >= 12 && at < 24) || at >= 32; what = "header byte " + std::to_string(at) + " changed"; break; }
      case 3: { size_t c = 1 + src.draw(src.chance(1, 2) ? 3 : 20000); bad.append(c, src.chance(1, 2) ? '\0' : 'x'); what = std::to_string(c) + " bytes appended"; break; }
      case 4: { bad = gen_bytes(src.draw(20000), true); what = "foreign file of " + std::to_string(bad.size()) + " bytes"; break; }
      case 5: bad.clear(); missing = src.chance(1, 2); what = missing ? "missing file" : "empty file"; break;
      case 6: { size_t at = 8192 * src.draw(good.size() / 8192 + 1); if (at >= good.size()) at = 0; size_t m = std::min<size_t>(8192, good.size() - at); if (src.chance(1, 2)) { bad.erase(at, m); what = "block at " + std::to_string(at) + " missing"; } else { size_t at2 = 8192 * src.draw(good.size() / 8192); bad.replace(at2, 8192, good.substr(at, std::min<size_t>(m, good.size() - at2)).append(8192 - std::min<size_t>(m, good.size() - at2), '\0')); bad.resize(good.size()); what = "block at " + std::to_string(at) + " copied to " + std::to_string(at2); body_only = true; } break; }
      default: { what = "several bytes changed"; body_only = true; int m = (int)src.range(2, 6); for (int i = 0; i < m; i++) bad[src.range(0, 3) ? hdr + src.draw(good.size() - hdr) : hdr] ^= (char)(1 + src.draw(255)); break; }
    }
    if (bad == good) continue;
    if (missing) unlink(name); else write_file(name, bad);
    T("%s", what.c_str());
    wg_int mn = -1, mx = -1, rc = wg_check_dump(t.db, name, &mn, &mx);
    if (checkfails) CHECK_(rc != 0, "check accepts a dump with %s", what.c_str());
    CHECK_(image(t.db) == img, "checking a dump changed the database");
    if (!body_only) {
      rc = wg_import_dump(t.db, name);
      T("import -> %ld", (long)rc);
      CHECK_(rc != 0, "import accepts a dump with %s", what.c_str());
      CHECK_(rc == -1, "importing a dump with %s returned %ld, the database is untouched", what.c_str(), (long)rc);
      CHECK_(image(t.db) == img, "importing a dump with %s failed and changed the database", what.c_str());
      label("import refused");
    }
  }
  // intact but too large
  wg_int mn = -1, mx = -1;
  CHECK_(wg_check_dump(t.db, DUMP, &mn, &mx) == 0 && mn == (wg_int)good.size() && mx == w.dbsize, "check rejects an intact dump or reports wrong sizes");
  if (mn > t.dbsize) {
    wg_int rc = wg_import_dump(t.db, DUMP);
    CHECK_(rc == -1, "importing a dump of %ld bytes into a database of %ld returned %ld", (long)mn, (long)t.dbsize, (long)rc);
    CHECK_(image(t.db) == img, "a refused import changed the database"); label("too large");
  }
  if (log) { read_file(J, jnow); CHECK_(jnow == jbytes, "refused imports changed the journal"); }
  t.check_everything(false, "after refused imports");
  history(t, 20, 8, log, true, true);
  t.check_everything(false, "after refused imports and more operations");
  if (log) CHECK_(wg_stop_logging(t.db) == 0, "refused imports turned the journal off");
  if (t.r.size() > 2) nontrivial();
}

// ---------------------------------------------------------------- C14
static void c14() {
  enter_scratch();
  static const int sz[] = {2000000, 900000, 4000000};
  SWorld &w = *mk(sz[src.draw(3)]);
  char J[100]; wg_journal_filename(w.db, J, sizeof J); if (!strncmp(J, "./", 2)) memmove(J, J + 2, strlen(J) - 1);
  int mode = src.weighted({3, 2, 2});   // 0 journal only, 1 dump then journal, 2 journal, dump, journal
  SWorld base; string dumpfile; wg_int mn = 0, mx = 0; bool small = src.chance(1, 8);
  if (mode != 1 && src.chance(1, 3)) churn(w);
  if (mode == 1) {
    history(w, 60, 15, false, true, true); w.full = false;
    CHECK_(wg_dump(w.db, DUMP) == 0 && wg_check_dump(w.db, DUMP, &mn, &mx) == 0, "dumping failed"); base = w;
    if (src.chance(1, 2)) w.check_everything(false, "dumped");
  }
  CHECK_(wg_start_logging(w.db) == 0, "starting the journal failed");
  if (mode == 0 && small) { Span sp; for (int i = 0; i < 60; i++) { Val v; v.t = WG_STRTYPE; v.s = string(40, 'q'); v.hx = i & 1; v.x = "en"; enc(w.db, v); } label("same string again and again"); }
  if (mode == 2) {
    history(w, 60, 15, true, true, true); w.full = false;
    CHECK_(wg_dump(w.db, DUMP) == 0 && wg_check_dump(w.db, DUMP, &mn, &mx) == 0, "dumping failed"); base = w;
    CHECK_(file_size(string(J) + ".0") > 0, "the journal of before the dump is gone");
  }
  history(w, 120, src.chance(1, 4) ? 70 : 25, true, true, mode == 0);
  if (src.chance(1, 4)) {   // stopped and continued
    CHECK_(wg_stop_logging(w.db) == 0, "stopping the journal failed");
    CHECK_(wg_start_logging(w.db) == 0, "continuing the journal failed");
    history(w, 30, 10, true, true, false); label("stopped and continued");
  }
  bool wasfull = w.full; w.full = false;
  SWorld chk = w; for (auto &x : chk.idx) (void)x;
  w.check_everything(true, "journaled database");
  CHECK_(wg_stop_logging(w.db) == 0, "stopping the journal failed");
  if (rename(J, "J") != 0 && file_size(J) >= 0) fail("rename");
  CHECK_(file_size("J") >= 4, "there is no journal file");
  wg_int ts; if (mode == 0) ts = wasfull ? w.dbsize * 3 : w.dbsize + (wg_int)src.range(0, 2000000); else ts = (mn > w.dbsize ? mn : w.dbsize) * (wasfull ? 3 : 1) + (wg_int)src.range(0, 1000000);
  SWorld &t = *mk(ts * 2);
  bool tlog = src.chance(1, 4);
  if (mode) {
    wg_int rc = wg_import_dump(t.db, DUMP); CHECK_(rc == 0, "import returned %ld", (long)rc);
    transplant(base, t.db, t);
  } else {
    if (src.chance(1, 2)) { churn(t); label("target reuses storage"); }
    int k = (int)src.range(0, 2); for (int i = 0; i < k; i++) t.create_index(t.gen_idx(src.chance(1, 2)));
  }
  if (tlog) CHECK_(wg_start_logging(t.db) == 0, "starting the journal of the target failed");
  wg_int rc = wg_replay_log(t.db, "J");
  T("replay -> %ld", (long)rc);
  CHECK_(rc == 0, "replaying the journal returned %ld", (long)rc);
  SWorld b; remap(w, t.db, b, 0, "replayed database"); b.idx = t.idx;
  b.check_everything(true, "replayed database");
  if (!b.idx.empty()) label("indexes in the target");
  if (tlog) CHECK_(wg_stop_logging(t.db) == 0, "replay did not restart the journal"); else CHECK_(wg_stop_logging(t.db) != 0, "replay turned the journal on");
  history(b, 40, 10, false, true, true);
  b.check_everything(false, "replayed database after more operations");
  // the earlier journal alone gives the state of the dump
  if (mode == 2 && src.chance(1, 2)) {
    SWorld &u = *mk(w.dbsize * 3);
    rc = wg_replay_log(u.db, (string(J) + ".0").c_str()); CHECK_(rc == 0, "replaying the journal from before the dump returned %ld", (long)rc);
    SWorld c; remap(base, u.db, c, 0, "replay of the journal from before the dump"); c.check_everything(true, "replay of the journal from before the dump"); label("journal from before the dump");
  }
  if (w.r.size() > 2 && file_size("J") > 200) nontrivial();
}

// ---------------------------------------------------------------- C15
static void c15() {
  enter_scratch();
  SWorld &w = *mk(1500000);
  char J[100]; wg_journal_filename(w.db, J, sizeof J); if (!strncmp(J, "./", 2)) memmove(J, J + 2, strlen(J) - 1);
  CHECK_(wg_start_logging(w.db) == 0, "starting the journal failed");
  struct Snap { i64 end; map<int, MRec> r; };
  vector<Snap> snaps; snaps.push_back({file_size(J), {}});
  w.elementary = true; w.step = [&]() { i64 e = file_size(J); if (e == snaps.back().end) snaps.back().r = w.r; else snaps.push_back({e, w.r}); };
  history(w, 40, 14, true, false, false); w.step = nullptr; w.full = false;
  CHECK_(wg_stop_logging(w.db) == 0, "stopping the journal failed");
  // values encoded at the end without being stored leave an entry of their own
  string j; read_file(J, j);
  unlink(J);
  int n = (int)src.range(2, 8); bool mid = false, good = false;
  for (int k = 0; k < n; k++) {
    Span sp; size_t cut;
    switch (src.weighted({3, 2, 2})) {
      case 0: cut = src.draw(j.size() + 1); break;
      case 1: cut = snaps[src.draw(snaps.size())].end; break;
      default: { i64 e = snaps[src.draw(snaps.size())].end + src.range(-12, 12); cut = e < 0 ? 0 : (size_t)e; break; }
    }
    if (cut > j.size()) cut = j.size();
    write_file("cut", j.substr(0, cut));
    SWorld &t = *mk(src.chance(1, 2) ? 1500000 : 5000000);
    if (src.chance(1, 3)) churn(t);
    bool tlog = src.chance(1, 3); if (tlog) CHECK_(wg_start_logging(t.db) == 0, "starting the journal failed");
    wg_int rc = wg_replay_log(t.db, "cut");
    T("journal cut to %zu of %zu bytes, replay -> %ld", cut, j.size(), (long)rc);
    size_t s = 0; bool boundary = false; for (size_t i = 0; i < snaps.size(); i++) { if (snaps[i].end <= (i64)cut) s = i; if (snaps[i].end == (i64)cut) boundary = true; }
    if (cut < 4) { CHECK_(rc == -1, "replay of a journal without its header returned %ld", (long)rc); CHECK_(!wg_get_first_record(t.db), "refused replay left records"); if (tlog) CHECK_(wg_stop_logging(t.db) == 0, "refused replay turned the journal off"); }
    else {
      CHECK_(rc == 0 || rc == -2, "replay of a cut journal returned %ld", (long)rc);
      if (boundary) { CHECK_(rc == 0, "replay of a journal cut between two operations returned %ld", (long)rc); good = true; } else mid = true;
      SWorld a = w, b; a.r = snaps[s].r; a.meta.clear(); a.docs.clear(); a.inner.clear();
      remap(a, t.db, b, 1, "cut journal"); b.meta.clear();
      b.check_all(true, "cut journal"); b.check_parents("cut journal");
      // and on it goes
      if (tlog && rc == 0) CHECK_(wg_stop_logging(t.db) == 0, "replay did not restart the journal");
      else CHECK_(wg_stop_logging(t.db) != 0, "the journal is on although replay failed or it was off before");
      CHECK_(wg_start_logging(t.db) == 0, "the journal cannot be started after a replay");
      b.elementary = false; b.idx.clear(); history(b, 10, 4, true, false, true); b.full = false;
      b.check_all(false, "after the replay of a cut journal"); b.check_indexes("after the replay of a cut journal");
      CHECK_(wg_stop_logging(t.db) == 0, "stopping the journal failed");
    }
    unlink(J);
    if (DIR *d = opendir(".")) { while (dirent *e = readdir(d)) if (!strncmp(e->d_name, "wgdb", 4)) unlink(e->d_name); closedir(d); }
    wg_delete_local_database(t.db);
  }
  if (mid && good && snaps.size() > 4) nontrivial();
}

// ---------------------------------------------------------------- C16
static map<string, string> dir_now() {
  map<string, string> m;
  if (DIR *d = opendir(".")) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') { string s; read_file(e->d_name, s); m[e->d_name] = s; } closedir(d); }
  return m;
}
static map<string, i64> g_mt;
static void set_mtime(const string &f, i64 t) { struct utimbuf u; u.actime = u.modtime = 1000000000 + t; utime(f.c_str(), &u); }
static void c16() {
  enter_scratch(); signal(SIGXFSZ, SIG_IGN);
  SWorld *w = mk(2000000); w->links = true;
  char J[100]; wg_journal_filename(w->db, J, sizeof J); if (!strncmp(J, "./", 2)) memmove(J, J + 2, strlen(J) - 1);
  bool active = false, dirty = false; i64 clock = 1; bool consistent = true;  // journal describes the database from its start
  map<string, string> files; int backups = 0, limited = 0, starts = 0;
  std::unique_ptr<SWorld> dumped;   // the model at the time of the dump in DUMP
  auto h = [&]() -> db_handle * { return (db_handle *)w->db; };
  // a second handle on the same database, as another process would have
  db_handle *second = (db_handle *)calloc(1, sizeof(db_handle)); second->db = h()->db; wg_init_handle_logdata(second);
  db_handle *first = h();
  // what starting a journal does to the files
  auto rotate = [&]() {
    auto it = files.find(J);
    if (it != files.end()) {
      int k = -1; i64 old = 0; for (int i = 0; i < 10 && k < 0; i++) if (!files.count(string(J) + "." + std::to_string(i))) k = i;
      if (k < 0) { for (int i = 0; i < 10; i++) { i64 m = g_mt[string(J) + "." + std::to_string(i)]; if (k < 0 || m < old) { k = i; old = m; } } label("oldest backup replaced"); }
      string b = string(J) + "." + std::to_string(k); files[b] = it->second; g_mt[b] = g_mt[J]; files.erase(J); backups++;
      T("expect backup %s", b.c_str());
    }
    files[J] = "wgdb";
  };
  auto check_files = [&](const char *where) {
    auto now = dir_now();
    for (auto &f : files) {
      auto it = now.find(f.first); CHECK_(it != now.end(), "%s: file %s is gone", where, f.first.c_str());
      if (f.first == J && active) CHECK_(it->second.size() >= f.second.size() && !it->second.compare(0, f.second.size(), f.second), "%s: the journal lost bytes", where);
      else CHECK_(it->second == f.second, "%s: contents of %s changed (%zu bytes, expected %zu)", where, f.first.c_str(), it->second.size(), f.second.size());
    }
    for (auto &f : now) CHECK_(files.count(f.first), "%s: unexpected file %s", where, f.first.c_str());
    // distinct modification times, as if written over days
    for (auto &f : now) { if (f.first == J && now[J] != files[J]) g_mt[f.first] = clock++; if (!g_mt.count(f.first)) g_mt[f.first] = clock++; set_mtime(f.first, g_mt[f.first]); }
    if (now.count(J)) files[J] = now[J];
  };
  g_mt.clear();
  int pre = src.chance(1, 3) ? (int)src.range(1, 11) : 0;   // files of earlier sessions
  for (int i = 0; i < pre; i++) { string n = i == 0 ? string(J) : string(J) + "." + std::to_string(i - 1); if (i && src.chance(1, 8)) continue; files[n] = "wgdb" + gen_bytes(src.draw(50), true); write_file(n, files[n]); g_mt[n] = src.range(1, 1000) * 100 + i; set_mtime(n, g_mt[n]); clock = 200000; }
  for (int n = 0; n < 60 && !w->full && src.more(18); n++) {
    Span sp; if (src.chance(1, 3)) { db_handle *cur = (db_handle *)w->db == first ? second : first; w->db = cur; T("other handle"); }
    switch (src.weighted({5, 3, 8, 2, 1, 2, 3, 1})) {
      case 0: {
        wg_int rc = wg_start_logging(w->db); T("start -> %ld", (long)rc);
        if (active) { CHECK_(rc == -1, "starting an active journal returned %ld", (long)rc); check_files("start refused"); break; }
        if (dirty && !files.count(J)) { CHECK_(rc != 0, "the journal to continue is missing, start returned %ld", (long)rc); files[J] = ""; unlink(J); files.erase(J); break; }
        CHECK_(rc == 0, "starting the journal returned %ld", (long)rc);
        if (!dirty) { rotate(); consistent = w->r.empty(); }
        active = true; starts++; check_files("start"); break;
      }
      case 1: { wg_int rc = wg_stop_logging(w->db); T("stop -> %ld", (long)rc); CHECK_((rc == 0) == active, "stopping a%s journal returned %ld", active ? "n active" : "n inactive", (long)rc); active = false; check_files("stop"); break; }
      case 2: {
        if (!active) { if (src.chance(1, 2)) break; i64 sz = file_size(J); history(*w, 4, 3, false, false, false); consistent = false; CHECK_(file_size(J) == sz, "operations without journaling changed the journal"); check_files("operations without journal"); break; }
        i64 sz = file_size(J); history(*w, 6, 4, true, false, false);
        if (file_size(J) > sz) dirty = true;
        check_files("journaled operations"); break;
      }
      case 3: {   // the journal cannot grow any more
        if (!active || w->r.empty()) break;
        i64 sz = file_size(J); struct rlimit rl, save; getrlimit(RLIMIT_FSIZE, &save); rl = save; i64 room = src.range(0, 60); rl.rlim_cur = sz + room; setrlimit(RLIMIT_FSIZE, &rl);
        T("journal limited to %lld more bytes", (long long)room); i64 cur = sz; int fails = 0;
        for (int k = 0; k < 8; k++) {
          Span s2; wg_int rc; i64 was = file_size(J); CHECK_(was == cur, "harness size"); int kind = src.weighted({3, 3, 2, 2});
          if (kind == 0) { void *p = wg_create_record(w->db, 3); T("  create -> %s", p ? "ok" : "NULL"); rc = p ? 0 : -1; if (p) { int id = w->next_id++; w->reg(id, p, 3); dirty = true; } }
          else if (kind == 1) { int id = w->pick_id(); if (w->r[id].f.size() < 2) continue; Val v; v.t = WG_INTTYPE; v.i = src.range(0, 1000); rc = wg_set_field(w->db, w->r[id].p, 1, enc(w->db, v)); T("  set -> %ld", (long)rc); if (!rc) { w->r[id].f[1] = v; if (file_size(J) > was) dirty = true; } else { CHECK_(rc == -6, "setting a field that cannot be journaled returned %ld", (long)rc); } }
          else if (kind == 2) { Val v; v.t = WG_STRTYPE; v.s = "a longer string that takes its own storage"; if (src.chance(1, 2)) { v.hx = true; v.x = "en"; } wg_int e = enc(w->db, v); T("  encode -> %s", e == WG_ILLEGAL ? "illegal" : "ok"); rc = e == WG_ILLEGAL ? -1 : 0; if (!rc) dirty = true; }
          else { int id = w->pick_id(); int refs = w->refs(id); if (refs) continue; rc = wg_delete_record(w->db, w->r[id].p); T("  delete -> %ld", (long)rc); if (!rc) { w->by_ptr.erase(w->r[id].p); w->r.erase(id); dirty = true; if (w->r.empty()) { cur = file_size(J); break; } } else CHECK_(rc < 0, "delete returned %ld", (long)rc); }
          cur = file_size(J);
          if (rc) { fails++; CHECK_(cur == was, "a refused operation left %lld bytes in the journal", (long long)(cur - was)); }
          else if (kind != 1) CHECK_(cur > was, "an operation succeeded without being journaled");
        }
        setrlimit(RLIMIT_FSIZE, &save); if (fails) { if (!dirty) dirty = dbmemsegh(w->db)->logging.dirty != 0; /* unspecified: continuing or starting anew are both fine */ limited++; label("journal write failed"); }
        // records created here have no tag yet
        for (auto &k : w->r) if (k.second.f[0].t == WG_NULLTYPE) { Val v; v.t = WG_INTTYPE; v.i = TAG + k.first; CHECK_(w->set(k.first, 0, v), "setting a field after the limit was lifted failed"); dirty = true; }
        w->check_all(false, "after failed journal writes"); check_files("failed journal writes"); break;
      }
      case 4: if (!active && !dirty && files.count(J)) { T("journal moved away"); rename(J, "away"); files["away"] = files[J]; g_mt["away"] = g_mt[J]; files.erase(J); g_mt.erase(J); label("journal moved away"); } break;
      case 5: {
        wg_int rc = wg_dump(w->db, DUMP); T("dump -> %ld", (long)rc); CHECK_(rc == 0, "dump returned %ld", (long)rc);
        read_file(DUMP, files[DUMP]); dumped.reset(new SWorld(*w));
        if (active) { rotate(); dirty = false; consistent = w->r.empty(); }
        check_files("dump"); break;
      }
      case 6: {   // importing replaces content and starts a new journal
        if (!files.count(DUMP)) break; bool had = active;
        if (dumped && src.chance(2, 3)) {   // an earlier state of the database
          void *cur = w->db; *w = *dumped; w->db = cur; label("earlier dump imported");
          wg_int rc = wg_import_dump(w->db, DUMP); T("import of the earlier dump -> %ld", (long)rc); CHECK_(rc == 0, "importing the earlier dump returned %ld", (long)rc);
          char J2[100]; wg_journal_filename(w->db, J2, sizeof J2); CHECK_(!strcmp(J2[0] == '.' ? J2 + 2 : J2, J), "after the import the journal is %s", J2);
          dirty = false; if (had) rotate(); consistent = w->r.empty(); check_files("import of the earlier dump"); w->check_all(false, "after importing the earlier dump"); break;
        }
        if (wg_dump(w->db, DUMP2)) fail("dump failed"); if (active) { rotate(); dirty = false; } read_file(DUMP2, files[DUMP2]);
        wg_int rc = wg_import_dump(w->db, DUMP2); T("import -> %ld", (long)rc); CHECK_(rc == 0, "import returned %ld", (long)rc);
        dirty = false; if (had) rotate(); consistent = w->r.empty();
        check_files("import"); break;
      }
      case 7: {   // replay into itself of an empty journal: restarts the journal
        write_file("empty", "wgdb"); files["empty"] = "wgdb";
        wg_int rc = wg_replay_log(w->db, "empty"); T("replay of an empty journal -> %ld", (long)rc); CHECK_(rc == 0, "replaying an empty journal returned %ld", (long)rc);
        dirty = false; if (active) { rotate(); consistent = w->r.empty(); }
        check_files("replay"); break;
      }
    }
  }
  w->full = false;
  w->check_everything(true, "at the end"); check_files("at the end");
  if (active && consistent) {
    CHECK_(wg_stop_logging(w->db) == 0, "stop failed");
    SWorld &t = *mk(4000000); wg_int rc = wg_replay_log(t.db, J); T("final replay -> %ld", (long)rc);
    CHECK_(rc == 0, "replaying the journal at the end returned %ld", (long)rc);
    SWorld b; remap(*w, t.db, b, 0, "final replay"); b.check_all(true, "final replay"); b.check_parents("final replay"); label("replayed at the end");
  }
  if (backups && starts) nontrivial();
}

int main(int argc, char **argv) {
  vector<Property> ps; Property p;
  p = Property(); p.id = "C12"; p.run = c12; p.quick_cases = 12000; p.thorough_cases = 100000;
  p.rule = "history of records, links, all value types, JSON documents and ordered, hash and template indexes; dump; import into databases of other sizes, empty or not; full comparison incl. all indexes, then more operations on both, and a dump of the import; non-trivial: more than 3 records with a link between records";
  ps.push_back(p);
  p = Property(); p.id = "C13"; p.run = c13; p.quick_cases = 8000; p.thorough_cases = 80000;
  p.rule = "up to 5 damaged variants of a dump per case (truncated, bytes changed, blocks lost or moved, appended, foreign, missing, header fields changed) checked and, where the header or size shows the damage, imported over a database with content; non-trivial: the database had more than 2 records";
  p.assumptions = {"a dump whose damage only the checksum reveals is not imported, as the documented procedure is to check first"};
  ps.push_back(p);
  p = Property(); p.id = "C14"; p.run = c14; p.quick_cases = 15000; p.thorough_cases = 100000;
  p.rule = "journaled history of all operations incl. refused ones, encodings never stored, documents, parameter records, dumps in between; replay into databases of other size and allocation history with or without indexes; records matched by tag and compared in full; non-trivial: more than 2 records and more than 200 journal bytes";
  p.assumptions = {"the target has room for the content"};
  ps.push_back(p);
  p = Property(); p.id = "C15"; p.run = c15; p.quick_cases = 12000; p.thorough_cases = 60000;
  p.rule = "journal of up to 40 operations with the model saved after each; replay of the file cut at 2 to 8 generated byte positions; non-trivial: a cut inside an entry and a cut between operations";
  ps.push_back(p);
  p = Property(); p.id = "C16"; p.run = c16; p.quick_cases = 9000; p.thorough_cases = 80000;
  p.rule = "sessions of start, stop, operations through two handles, dumps, imports, replays, moved files, and a file size limit reached at a generated byte; directory contents compared with a model after every step; non-trivial: a journal was started over an existing one";
  ps.push_back(p);
  return main_(argc, argv, ps);
}
