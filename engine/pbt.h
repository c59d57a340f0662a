// Choice-sequence property engine: every random decision of a case is drawn
// from one recorded sequence, which is what gets shrunk and replayed.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>

namespace pbt {

typedef uint64_t u64;
typedef int64_t i64;

struct Src {
  bool replay = false;
  std::vector<u64> in;   // replayed choices
  size_t pos = 0;
  u64 s[2];
  void seed(u64 x);
  u64 raw();
  // uniform in [0,n); 0 is the simplest outcome
  u64 draw(u64 n);
  i64 range(i64 lo, i64 hi) { return lo + (i64)draw((u64)(hi - lo) + 1); }
  // true with probability num/den; simplest is false
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  // index with given weights; simplest is 0
  int weighted(std::initializer_list<int> w);
  int weighted(const std::vector<int> &w);
  // geometric repetition: true with probability 1-1/mean; simplest is stop
  bool more(unsigned mean) { return draw(mean + 1) != 0; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
};

struct Span { Span(); ~Span(); size_t b; };   // groups the choices of one operation for deletion

extern Src src;
extern bool tracing;
extern bool thorough;
extern const char *scratch;        // per-process scratch directory (exists, removed at the end)
extern uint64_t g_case_index;      // index of the case in the run (not for decisions)

void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void label(const char *name);                 // class of case, counted once per call per case
void excluded(const char *name);              // input skipped because of a known finding
void nontrivial();                            // the case satisfies the property's stated rule
void discard();                               // abandon the case (counted)
bool failed_already();

#define CHECK_(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)
#define T(...) do { if (::pbt::tracing) ::pbt::trace(__VA_ARGS__); } while (0)

struct KnownFinding { const char *id; const char *what; bool (*still_fails)(); };

struct Property {
  const char *id;
  const char *rule;                    // evidence rule
  void (*run)();
  u64 quick_cases, thorough_cases;
  std::vector<std::string> assumptions;
  std::vector<KnownFinding> known;
  // optional: enumerated deterministic cases run first (index given)
  u64 n_enum = 0;
  void (*run_enum)(u64) = nullptr;
  const char *level = "exploration";
  int hang_cpu_s = 20;
  int batch = 1;                       // cases per forked child
};

void no_aslr(char **argv);   // starts the program again without address randomization, once
int main_(int argc, char **argv, const std::vector<Property> &props);

std::string hex(const std::string &s);
std::string quote(const std::string &s, size_t max = 60);

}  // namespace pbt
