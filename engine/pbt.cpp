#include "pbt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <string>

namespace pbt {

static const size_t MAXC = 1 << 18;
static const int MAXLAB = 160;
static const size_t HSZ = 1 << 18;

struct Shared {                       // one per worker, survives the child
  volatile u64 n;                     // choices drawn by the current case
  u64 c[MAXC];
  volatile u64 nspan;
  uint32_t span[1 << 16][2];
  volatile int status;                // 0 running, 1 ok, 2 failed, 3 discarded
  char msg[4096];
  volatile u64 case_no;               // current case (worker-local)
  volatile u64 evals, nontriv, discards;
  volatile int stop;
  volatile int done;
  struct { char name[48]; u64 count; int seen; int excl; } lab[MAXLAB];
  u64 hset[HSZ]; u64 hcount;
  // samples of non-trivial cases
  volatile int nsamp; u64 samp_off[8], samp_len[8]; u64 samp[1 << 16]; u64 samp_used;
  volatile int cur_nontriv;
};

Src src;
bool tracing = false, thorough = false;
const char *scratch = "/nonexistent";
uint64_t g_case_index = 0;
static Shared *S;
static FILE *trace_out = nullptr;

static u64 splitmix(u64 &x) {
  u64 z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
void Src::seed(u64 x) { s[0] = splitmix(x); s[1] = splitmix(x); replay = false; pos = 0; in.clear(); }
u64 Src::raw() {
  u64 a = s[0], b = s[1], r = a + b;
  b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27);
  return r;
}
u64 Src::draw(u64 n) {
  if (n == 0) { fprintf(stderr, "draw(0)\n"); abort(); }
  u64 v;
  if (replay) { v = pos < in.size() ? in[pos] : 0; pos++; if (v >= n) v %= n; }
  else { v = n == 1 ? 0 : (u64)(((unsigned __int128)raw() * n) >> 64); }
  if (S && S->n < MAXC) { S->c[S->n] = v; S->n = S->n + 1; }
  else if (S) { S->status = 3; _exit(0); }   // too long: discard
  return v;
}
int Src::weighted(const std::vector<int> &w) {
  u64 t = 0; for (int x : w) t += x;
  u64 v = draw(t);
  for (size_t i = 0; i < w.size(); i++) { if (v < (u64)w[i]) return (int)i; v -= w[i]; }
  return (int)w.size() - 1;
}
int Src::weighted(std::initializer_list<int> w) { return weighted(std::vector<int>(w)); }

Span::Span() : b(S ? S->n : 0) {}
Span::~Span() {
  if (S && S->nspan < (1 << 16) && S->n > b) {
    S->span[S->nspan][0] = (uint32_t)b; S->span[S->nspan][1] = (uint32_t)S->n; S->nspan = S->nspan + 1;
  }
}

void trace(const char *fmt, ...) {
  if (!trace_out) return;
  va_list ap; va_start(ap, fmt); vfprintf(trace_out, fmt, ap); va_end(ap);
  fputc('\n', trace_out); fflush(trace_out);
}
void fail(const char *fmt, ...) {
  char buf[3000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (S) { memcpy(S->msg, buf, strlen(buf) + 1); S->status = 2; }
  if (tracing && trace_out) { fprintf(trace_out, "FAIL: %s\n", buf); fflush(trace_out); }
  _exit(42);
}
static void lab_add(const char *name, int excl) {
  if (!S) return;
  for (int i = 0; i < MAXLAB; i++) {
    auto &l = S->lab[i];
    if (!l.name[0]) { strncpy(l.name, name, 47); l.excl = excl; }
    if (!strncmp(l.name, name, 47)) { if (excl) l.count++; else if (!l.seen) { l.seen = 1; l.count++; } return; }
  }
}
void label(const char *name) { lab_add(name, 0); }
void excluded(const char *name) { lab_add(name, 1); }
void nontrivial() { if (S) S->cur_nontriv = 1; }
void discard() { if (S) S->status = 3; _exit(0); }

std::string quote(const std::string &s, size_t max) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i]; char b[8];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c >= 32 && c < 127) o += c;
    else { snprintf(b, 8, "\\x%02x", c); o += b; }
  }
  o += "\"";
  if (s.size() > max) { char b[32]; snprintf(b, 32, "...(%zu)", s.size()); o += b; }
  return o;
}
std::string hex(const std::string &s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); o += b; } return o; }

static u64 hash_choices() {
  u64 h = 1469598103934665603ULL;
  for (u64 i = 0; i < S->n; i++) { h ^= S->c[i] + 0x9e37; h *= 1099511628211ULL; h ^= h >> 29; }
  return h ? h : 1;
}
static void case_begin() {
  S->n = 0; S->nspan = 0; S->status = 0; S->msg[0] = 0; S->cur_nontriv = 0;
  for (int i = 0; i < MAXLAB && S->lab[i].name[0]; i++) S->lab[i].seen = 0;
}
static void case_end() {
  if (S->status == 3) { S->discards = S->discards + 1; return; }
  S->evals = S->evals + 1;
  if (S->cur_nontriv) {
    u64 h = hash_choices(); size_t i = h & (HSZ - 1);
    bool isnew = false;
    for (size_t k = 0; k < HSZ; k++, i = (i + 1) & (HSZ - 1)) {
      if (S->hset[i] == h) break;
      if (!S->hset[i]) { if (S->hcount < HSZ * 3 / 4) { S->hset[i] = h; S->hcount++; } isnew = true; break; }
    }
    if (isnew) S->nontriv = S->nontriv + 1;
    if (isnew && S->nsamp < 8 && S->n < 1500 && S->n >= 10 && S->samp_used + S->n < (1 << 16)) {
      int k = S->nsamp; S->samp_off[k] = S->samp_used; S->samp_len[k] = S->n;
      memcpy(S->samp + S->samp_used, S->c, S->n * 8); S->samp_used += S->n; S->nsamp = k + 1;
    }
  }
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static double proc_cpu(pid_t p) {
  char fn[64]; snprintf(fn, 64, "/proc/%d/stat", (int)p);
  FILE *f = fopen(fn, "r"); if (!f) return 0;
  char buf[1024]; size_t n = fread(buf, 1, 1023, f); buf[n] = 0; fclose(f);
  char *e = strrchr(buf, ')'); if (!e) return 0;
  unsigned long ut = 0, st = 0;
  sscanf(e + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
  return (ut + st) / (double)sysconf(_SC_CLK_TCK);
}

static const Property *P;

static void child_setup(bool verbose) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
  if (!verbose) { int fd = open("/dev/null", O_RDWR); if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); if (fd > 2) close(fd); } }
}

static std::string scratch_root;
static void rmtree(const std::string &d) {
  DIR *h = opendir(d.c_str()); if (!h) return;
  while (dirent *e = readdir(h)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    std::string p = d + "/" + e->d_name; struct stat st;
    if (lstat(p.c_str(), &st) == 0) { if (S_ISDIR(st.st_mode)) rmtree(p); else unlink(p.c_str()); }
  }
  closedir(h); rmdir(d.c_str());
}

// outcome of running one choice sequence in a fresh child
struct Out { int kind; std::string msg; std::vector<u64> c; std::vector<std::pair<uint32_t, uint32_t>> spans; bool hang = false; };
enum { OK = 0, FAILED = 1, DISC = 2 };

static int run_child(pid_t pid, double cpu_limit, double wall_limit, bool *hang) {
  // waits with CPU / wall limits
  *hang = false; int st; double t0 = now(); useconds_t nap = 100;
  double lastcheck = t0;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    if (r < 0 && errno != EINTR) return -1;
    usleep(nap); if (nap < 2000) nap += nap / 2;
    double t = now();
    if (t - lastcheck > 0.3) {
      lastcheck = t;
      if (proc_cpu(pid) > cpu_limit || t - t0 > wall_limit) {
        *hang = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); return st;
      }
    }
  }
}

static void interpret(int st, bool hang, Out &o) {
  if (hang) { o.kind = FAILED; o.hang = true; o.msg = "does not terminate"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.kind = S->status == 3 ? DISC : OK; }
  else if (S->status == 2) { o.kind = FAILED; o.msg = S->msg; }
  else if (WIFSIGNALED(st)) { char b[64]; snprintf(b, 64, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); o.kind = FAILED; o.msg = b; }
  else { char b[64]; snprintf(b, 64, "abnormal exit status %d (sanitizer report or exit)", WEXITSTATUS(st)); o.kind = FAILED; o.msg = b; }
}

static void clean_scratch(const std::string &d) { rmtree(d); mkdir(d.c_str(), 0755); }

static Out run_once(const std::vector<u64> &c, i64 enum_ix, double cpu, double wall, FILE *tr, bool verbose) {
  Out o;
  std::string d = scratch_root + "/r"; clean_scratch(d);
  case_begin();
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    child_setup(verbose);
    setpgid(0, 0);
    scratch = d.c_str();
    tracing = tr != nullptr; trace_out = tr;
    src.replay = true; src.in = c; src.pos = 0;
    if (enum_ix >= 0) P->run_enum((u64)enum_ix); else P->run();
    if (S->status != 3) S->status = 1;
    _exit(0);
  }
  bool hang; int st = run_child(pid, cpu, wall, &hang);
  kill(-pid, SIGKILL);
  interpret(st, hang, o);
  if (tr && o.kind == FAILED && S->status != 2) { fprintf(tr, "FAIL: %s\n", o.msg.c_str()); fflush(tr); }
  o.c.assign(S->c, S->c + S->n);
  for (u64 i = 0; i < S->nspan; i++) o.spans.push_back({S->span[i][0], S->span[i][1]});
  rmtree(d);
  return o;
}

static bool simpler(const std::vector<u64> &a, const std::vector<u64> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

static Out shrink(Out best, double budget) {
  double t_end = now() + budget; int tries = 0;
  double cpu = P->hang_cpu_s, wall = P->hang_cpu_s * 3;
  if (best.hang) { cpu = P->hang_cpu_s / 4.0; wall = cpu * 3; }
  auto attempt = [&](const std::vector<u64> &c) -> bool {
    if (now() > t_end) return false;
    tries++;
    Out o = run_once(c, -1, cpu, wall, nullptr, false);
    if (o.kind == FAILED && o.hang == best.hang && simpler(o.c, best.c)) { best = o; return true; }
    return false;
  };
  while (best.c.size() && best.c.back() == 0) best.c.pop_back();
  bool improved = true;
  while (improved && now() < t_end) {
    improved = false;
    // delete whole operations, largest first, from the back
    auto sp = best.spans;
    std::sort(sp.begin(), sp.end(), [](auto &a, auto &b) { return a.second - a.first > b.second - b.first; });
    for (size_t i = 0; i < sp.size() && now() < t_end; i++) {
      if (sp[i].second > best.c.size()) continue;
      std::vector<u64> c(best.c.begin(), best.c.begin() + sp[i].first);
      c.insert(c.end(), best.c.begin() + sp[i].second, best.c.end());
      bool ok = attempt(c);
      if (!ok && sp[i].first > 0) { c.assign(best.c.begin(), best.c.begin() + sp[i].first - 1); c.insert(c.end(), best.c.begin() + sp[i].second, best.c.end()); ok = attempt(c); }
      if (ok) { improved = true; sp = best.spans; std::sort(sp.begin(), sp.end(), [](auto &a, auto &b) { return a.second - a.first > b.second - b.first; }); i = (size_t)-1; if (tries > 3000) break; }
    }
    for (size_t k = std::min<size_t>(64, best.c.size()); k >= 1 && now() < t_end; k /= 2) {
      for (size_t e = best.c.size(); e >= k && now() < t_end;) {
        std::vector<u64> c(best.c.begin(), best.c.begin() + (e - k));
        c.insert(c.end(), best.c.begin() + e, best.c.end());
        if (attempt(c)) { improved = true; e = std::min(e - k, best.c.size()); } else e = k > 4 ? (e >= k ? e - k : 0) : e - 1;
        if (e == 0) break;
      }
    }
    for (size_t i = 0; i < best.c.size() && now() < t_end; i++) {
      if (best.c[i] == 0) continue;
      std::vector<u64> c = best.c; c[i] = 0;
      if (attempt(c)) { improved = true; continue; }
      u64 lo = 0, hi = best.c[i];
      while (lo + 1 < hi && now() < t_end && i < best.c.size()) {
        u64 mid = lo + (hi - lo) / 2; c = best.c; if (i >= c.size()) break; c[i] = mid;
        if (attempt(c)) { improved = true; hi = mid; } else lo = mid;
      }
    }
  }
  fprintf(stderr, "shrink: %d attempts, %zu choices\n", tries, best.c.size());
  return best;
}

static std::string jesc(const std::string &s) {
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c;
  }
  return o;
}

static std::string traced(const std::vector<u64> &c, i64 ei) {
  char fn[] = "/tmp/pbttrXXXXXX"; int fd = mkstemp(fn); FILE *f = fdopen(fd, "w+"); unlink(fn);
  run_once(c, ei, P->hang_cpu_s, P->hang_cpu_s * 3, f, false);
  std::string o; char buf[4096]; fseek(f, 0, SEEK_SET); size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) o.append(buf, n);
  fclose(f); return o;
}

void no_aslr(char **argv) {
  if (getenv("PBT_NOASLR")) return;
  setenv("PBT_NOASLR", "1", 1);
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
}
int main_(int argc, char **argv, const std::vector<Property> &props) {
  no_aslr(argv);
  std::string id, out, replay, tier = "quick", replay_dir = "."; u64 seed = 1, cases = 0; int W = 8; double wall_cap = 600, shrink_s = 60;
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") id = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--cases") cases = strtoull(nx().c_str(), 0, 10); else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx(); else if (a == "--tier") tier = nx(); else if (a == "--workers") W = atoi(nx().c_str());
    else if (a == "--wall") wall_cap = atof(nx().c_str()); else if (a == "--replay-dir") replay_dir = nx();
    else if (a == "--shrink") shrink_s = atof(nx().c_str()); else if (a == "--list") list = true;
  }
  if (list) { for (auto &p : props) printf("%s\n", p.id); return 0; }
  P = nullptr; for (auto &p : props) if (id == p.id || (id.empty() && props.size() == 1)) P = &p;
  if (!P) { fprintf(stderr, "no property %s\n", id.c_str()); return 2; }
  thorough = tier == "thorough";
  if (!cases) cases = thorough ? P->thorough_cases : P->quick_cases;
  setenv("TZ", "UTC", 1);
  const char *base = getenv("PBT_SCRATCH"); if (!base) base = "/tmp";
  { std::string t = std::string(base) + "/pbt.XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); return 2; } scratch_root = b.data(); }
  struct Cleaner { ~Cleaner() { rmtree(scratch_root); } } cleaner;
  auto mk = []() { return (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };

  if (!replay.empty()) {
    S = mk();
    FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 2; }
    std::vector<u64> c; i64 ei = -1; char line[1 << 16];
    while (fgets(line, sizeof line, f)) {
      if (line[0] == '#') continue;
      if (!strncmp(line, "enum ", 5)) { ei = strtoll(line + 5, 0, 10); continue; }
      if (!strncmp(line, "tier thorough", 13)) { thorough = true; continue; }
      char *p = line, *e; for (;;) { u64 v = strtoull(p, &e, 10); if (e == p) break; c.push_back(v); p = e; }
    }
    fclose(f);
    Out o = run_once(c, ei, P->hang_cpu_s, P->hang_cpu_s * 3, stderr, true);
    fprintf(stderr, "replay: %s %s\n", o.kind == FAILED ? "FAILED" : o.kind == OK ? "ok" : "discarded", o.msg.c_str());
    return o.kind == FAILED ? 1 : 0;
  }

  double t0 = now();
  Shared *ctl = mk(); S = ctl;
  // known findings: run each listed input
  int nknown = 0;
  for (auto &k : P->known) {
    std::string d = scratch_root + "/k"; clean_scratch(d);
    case_begin(); fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) { child_setup(false); scratch = d.c_str(); bool f = k.still_fails(); _exit(f ? 7 : 0); }
    bool hang; int st = run_child(pid, P->hang_cpu_s, P->hang_cpu_s * 3, &hang);
    rmtree(d);
    if (hang || !WIFEXITED(st) || WEXITSTATUS(st) != 0) { nknown++; printf("KNOWN-FINDING: property=%s %s %s\n", P->id, k.id, k.what); fflush(stdout); }
  }
  u64 total = cases + P->n_enum;
  std::vector<Shared *> sh; std::vector<pid_t> pid(W), grp(W);
  std::vector<u64> next(W); std::vector<double> started(W);
  for (int w = 0; w < W; w++) { sh.push_back(mk()); next[w] = w; pid[w] = 0; }
  // persistent per-worker forkserver: each worker forks one child per batch
  struct Ring { volatile u64 cur; volatile double cstart; volatile pid_t child; volatile int failed; volatile int hang; volatile u64 fail_case; volatile int st; volatile int nflaky; };
  Ring *ring = (Ring *)mmap(0, sizeof(Ring) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  volatile int *stop = (volatile int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto seed_of = [&](u64 k) { u64 x = seed * 0x9E3779B97F4A7C15ULL + 0x1234567 * (k + 1); for (const char *q = P->id; *q; q++) x = x * 131 + *q; u64 y = x; return splitmix(y); };
  for (int w = 0; w < W; w++) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p) { pid[w] = p; continue; }
    S = sh[w];
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::string d = scratch_root + "/w" + std::to_string(w); clean_scratch(d);
    for (u64 k = w; k < total && !*stop;) {
      u64 kend = k;
      S->done = 0; S->status = 0;
      // the child advances through its batch and records progress in shared memory
      pid_t c = fork();
      if (c == 0) {
        child_setup(false);
        setpgid(0, 0);
        scratch = d.c_str();
        for (int b = 0; b < P->batch && k < total; b++, k += W) {
          ring[w].cur = k; case_begin(); g_case_index = k;
          if (k < P->n_enum) { src.seed(1); P->run_enum(k); } else { src.seed(seed_of(k)); P->run(); }
          case_end();
          if (S->status == 0) S->status = 1;
        }
        S->done = 1;
        _exit(0);
      }
      bool hang; int st = run_child(c, P->hang_cpu_s, P->hang_cpu_s * 6, &hang);
      kill(-c, SIGKILL);
      if (S->status == 3) { if (!S->done) S->discards = S->discards + 1; kend = ring[w].cur; k = kend + W; continue; }
      if (hang || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        // run the failing case once more, alone: a failure that does not come back is counted and the search goes on
        u64 kf = ring[w].cur;
        if (ring[w].nflaky < 20) {
          Out o0; interpret(st, hang, o0);
          S->done = 0; S->status = 0;
          pid_t c2 = fork();
          if (c2 == 0) {
            child_setup(false); setpgid(0, 0); scratch = d.c_str();
            case_begin(); g_case_index = kf;
            if (kf < P->n_enum) { src.seed(1); P->run_enum(kf); } else { src.seed(seed_of(kf)); P->run(); }
            case_end(); if (S->status == 0) S->status = 1;
            S->done = 1; _exit(0);
          }
          st = run_child(c2, P->hang_cpu_s, P->hang_cpu_s * 6, &hang);
          kill(-c2, SIGKILL);
          if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            ring[w].nflaky = ring[w].nflaky + 1;
            fprintf(stderr, "case %llu failed once (%s) but does not reproduce; not reported\n", (unsigned long long)kf, o0.msg.c_str());
            k = kf + W; continue;
          }
        }
        ring[w].hang = hang; ring[w].st = st; ring[w].fail_case = kf; ring[w].failed = 1; break;
      }
      // clean scratch leftovers now and then
      DIR *h = opendir(d.c_str()); if (h) { int n = 0; while (readdir(h)) n++; closedir(h); if (n > 2) clean_scratch(d); }
      k = k + (u64)W * P->batch;
    }
    _exit(0);
  }
  int fw = -1; int alive = W; bool capped = false; int flaky = 0; int violations = 0;
  std::string flaky_msg;
  while (alive > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) { for (int w = 0; w < W; w++) if (pid[w] == p) { alive--; if (ring[w].failed && (fw < 0 || ring[w].fail_case < ring[fw].fail_case)) { fw = w; *stop = 1; } } continue; }
    if (now() - t0 > wall_cap) { *stop = 1; capped = true; }
    usleep(3000);
  }
  std::string vmsg, vpath;
  for (int w = 0; w < W; w++) flaky += ring[w].nflaky;
  if (fw >= 0) {
    // confirm each worker's failure until one reproduces
    std::vector<int> ord; for (int w = 0; w < W; w++) if (ring[w].failed) ord.push_back(w);
    std::sort(ord.begin(), ord.end(), [&](int a, int b) { return ring[a].fail_case < ring[b].fail_case; });
    for (int w : ord) {
      Out o; S = sh[w]; u64 savedn = S->n; std::vector<u64> c(S->c, S->c + savedn);
      interpret(ring[w].st, ring[w].hang, o); std::string omsg = o.msg;
      S = ctl;
      i64 ei = ring[w].fail_case < P->n_enum ? (i64)ring[w].fail_case : -1;
      auto rep = [&](const std::vector<u64> &cc) { int n = 0; Out last; for (int i = 0; i < 3; i++) { last = run_once(cc, ei, P->hang_cpu_s, P->hang_cpu_s * 6, nullptr, false); if (last.kind == FAILED) n++; else break; } return std::make_pair(n == 3, last); };
      auto r = rep(c);
      if (!r.first) { flaky++; flaky_msg = omsg; fprintf(stderr, "case %llu failed once (%s) but does not reproduce; not reported\n", (unsigned long long)ring[w].fail_case, omsg.c_str()); continue; }
      Out best = r.second;
      if (ei < 0) { Out sbest = shrink(best, shrink_s); auto r2 = rep(sbest.c); if (r2.first) { best = r2.second; best.c = sbest.c; } else best.c = c; }
      std::string tr = traced(best.c, ei);
      mkdir(replay_dir.c_str(), 0755);
      vpath = replay_dir + "/" + P->id + "-" + std::to_string(seed) + ".replay";
      FILE *f = fopen(vpath.c_str(), "w");
      if (f) {
        fprintf(f, "# property %s; replay with: check.py %s --replay <this file>\n# failure: %s\n", P->id, P->id, best.msg.c_str());
        size_t p0 = 0; while (p0 < tr.size()) { size_t e = tr.find('\n', p0); if (e == std::string::npos) e = tr.size(); fprintf(f, "# %s\n", tr.substr(p0, e - p0).c_str()); p0 = e + 1; }
        if (ei >= 0) fprintf(f, "enum %lld\n", (long long)ei);
        if (thorough) fprintf(f, "tier thorough\n");
        for (size_t i = 0; i < best.c.size(); i++) fprintf(f, "%llu%c", (unsigned long long)best.c[i], (i % 20 == 19) ? '\n' : ' ');
        fprintf(f, "\n"); fclose(f);
      }
      vmsg = best.msg; violations = 1; break;
    }
  }
  // evidence
  u64 ev = 0, nt = 0, dc = 0; std::map<std::string, std::pair<u64, int>> labs;
  for (auto *s : sh) { ev += s->evals; nt += s->nontriv; dc += s->discards; for (int i = 0; i < MAXLAB && s->lab[i].name[0]; i++) { labs[s->lab[i].name].first += s->lab[i].count; labs[s->lab[i].name].second = s->lab[i].excl; } }
  std::vector<std::string> samples;
  for (auto *s : sh) { for (int k = 0; k < s->nsamp && samples.size() < 3; k++) { std::vector<u64> c(s->samp + s->samp_off[k], s->samp + s->samp_off[k] + s->samp_len[k]); S = ctl; std::string t = traced(c, -1); if (t.size() > 2500) t = t.substr(0, 2500) + "..."; if (t.size()) samples.push_back(t); break; } }
  if (samples.empty()) samples.push_back("(no non-trivial sampled case)");
  if (!out.empty()) {
    FILE *f = fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 2; }
    fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"%s\",\"coverage\":{\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"discarded\":%llu,\"planned\":%llu,\"stopped_by_time_cap\":%s,\"not_reproducible\":%d,\"known_findings_still_failing\":%d,\"enumerated_cases\":%llu,\n\"rule\":\"%s\",\n\"labels\":{",
      P->id, tier.c_str(), (unsigned long long)seed, P->level, (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)dc, (unsigned long long)total, capped ? "true" : "false", flaky, nknown, (unsigned long long)P->n_enum, jesc(P->rule).c_str());
    bool first = true; for (auto &l : labs) if (!l.second.second) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second.first); first = false; }
    fprintf(f, "},\n\"excluded\":{"); first = true; for (auto &l : labs) if (l.second.second) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second.first); first = false; }
    fprintf(f, "},\n\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
    fprintf(f, "]},\n\"assumptions\":["); for (size_t i = 0; i < P->assumptions.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(P->assumptions[i]).c_str());
    fprintf(f, "],\n\"wall_s\":%.2f,\"violations\":%d}\n", now() - t0, violations); fclose(f);
  }
  fprintf(stderr, "%s %s seed=%llu: %llu cases, %llu distinct non-trivial, %llu discarded, %.1fs%s\n", P->id, tier.c_str(), (unsigned long long)seed, (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)dc, now() - t0, capped ? " (time cap)" : "");
  if (getenv("PBT_LABELS")) for (auto &l : labs) fprintf(stderr, "   %s%-40s %llu\n", l.second.second ? "[excl] " : "", l.first.c_str(), (unsigned long long)l.second.first);
  if (violations) { fprintf(stderr, "failure: %s\n", vmsg.c_str()); printf("VIOLATION property=%s replay=%s\n", P->id, vpath.c_str()); return 1; }
  return 0;
}
}  // namespace pbt
