// Cooperative scheduler: clients run on their own stacks and may be
// interrupted at every access to the shared memory of the database. Which
// client goes on is decided by the generator. Blocking calls are simulated.
#pragma once
#include "wg.h"
#include <ucontext.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>

struct Sim {
  enum { READY, BLOCKED, DONE };
  struct Task {
    ucontext_t uc; jmp_buf jb; bool started = false; void *stack = nullptr;
    int state = READY; volatile int *addr = nullptr; bool has_timeout = false; int wake = 0;
    std::function<void()> body;
    bool waited = false; int sleeps = 0; u64 points = 0; bool timed_out = false; u64 wait_time = 0;
  };
  vector<Task> t; int cur = -1; bool on = false;
  jmp_buf mainjb;
  char *lo = nullptr, *hi = nullptr;     // shared memory
  u64 points = 0, limit = 6000000; i64 gap = 0; int draws = 0, max_draws = 1500; int rr = 0;
  int spurious = 0, timeouts = 0, eintr = 0;   // budgets of injected events
  int n_spurious = 0, n_timeouts = 0, n_switch = 0, n_blocked = 0, n_sleep = 0;
  bool deadlock = false;
  u64 clk = 0;
  int style = 0;
};
static Sim *sim = nullptr;
static const size_t SIM_STACK = 256 << 10;

static void sim_entry();
static void sim_resume(int k) {
  Sim &s = *sim; Sim::Task &k_ = s.t[k]; s.cur = k;
  if (!k_.started) {
    k_.started = true; getcontext(&k_.uc);
    k_.stack = mmap(0, SIM_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    k_.uc.uc_stack.ss_sp = k_.stack; k_.uc.uc_stack.ss_size = SIM_STACK; k_.uc.uc_link = nullptr;
    makecontext(&k_.uc, sim_entry, 0); setcontext(&k_.uc);
  }
  _longjmp(k_.jb, 1);
}
static void sim_new_gap() {
  Sim &s = *sim;
  if (s.draws >= s.max_draws) { s.gap = 97; return; }
  s.draws++;
  switch (s.style) {
    case 0: { int w = src.weighted({2, 4, 3, 3}); s.gap = w == 0 ? 1 << 30 : w == 1 ? src.range(0, 3) : w == 2 ? src.range(0, 15) : src.range(0, 60); break; }
    case 1: s.gap = src.range(0, 2) == 0 ? 0 : 1 + src.draw(2); break;            // very fine
    default: { int w = src.weighted({8, 2, 1}); s.gap = w == 0 ? 1 << 30 : w == 1 ? src.range(0, 25) : src.range(0, 200); }  // few preemptions
  }
}
// leaves the running client and goes on with another one
static void sim_switch(bool must) {
  Sim &s = *sim; int me = s.cur;
  for (;;) {
    vector<int> ready, blocked;
    for (int i = 0; i < (int)s.t.size(); i++) { if (s.t[i].state == Sim::READY) ready.push_back(i); else if (s.t[i].state == Sim::BLOCKED) blocked.push_back(i); }
    // events at blocked clients
    if (!blocked.empty() && (s.spurious > 0 || s.eintr > 0 || s.timeouts > 0) && s.draws < s.max_draws) {
      s.draws++;
      if (src.chance(1, 5)) {
        Sim::Task &b = s.t[blocked[src.draw(blocked.size())]]; int k = (int)src.draw(3);
        if (k == 0 && s.spurious > 0) { s.spurious--; s.n_spurious++; b.state = Sim::READY; b.wake = 0; T("    client %d wakes up spuriously", (int)(&b - &s.t[0])); continue; }
        if (k == 1 && s.eintr > 0) { s.eintr--; s.n_spurious++; b.state = Sim::READY; b.wake = EINTR; T("    client %d is interrupted", (int)(&b - &s.t[0])); continue; }
        if (k == 2 && s.timeouts > 0 && b.has_timeout) { s.timeouts--; s.n_timeouts++; b.state = Sim::READY; b.wake = ETIMEDOUT; b.timed_out = true; T("    client %d times out", (int)(&b - &s.t[0])); continue; }
      }
    }
    if (ready.empty()) {
      if (blocked.empty()) { if (me >= 0 && s.t[me].state != Sim::DONE && _setjmp(s.t[me].jb)) return; _longjmp(s.mainjb, 1); }
      s.deadlock = true; _longjmp(s.mainjb, 1);
    }
    int nx;
    if (must && ready.size() > 1 && me >= 0) ready.erase(std::remove(ready.begin(), ready.end(), me), ready.end());
    if (s.draws < s.max_draws) { s.draws++; nx = ready[src.draw(ready.size())]; }
    else nx = ready[s.rr++ % ready.size()];
    sim_new_gap();
    if (nx == me) return;
    s.n_switch++;
    if (me >= 0 && s.t[me].state != Sim::DONE) { if (_setjmp(s.t[me].jb)) return; }
    sim_resume(nx);
  }
}
static void sim_entry() {
  Sim &s = *sim; s.t[s.cur].body(); s.t[s.cur].state = Sim::DONE; T("    client %d is finished", s.cur);
  sim_switch(true);
  abort();
}
static inline void sim_point() {
  Sim &s = *sim; s.points++; s.t[s.cur].points++;
  if (s.points > s.limit) fail("clients do not come to an end");
  if (s.gap-- <= 0) sim_switch(false);
}
static void sim_run() {
  Sim &s = *sim; s.on = true; s.cur = -1; s.deadlock = false;
  if (!_setjmp(s.mainjb)) sim_switch(true);
  s.on = false; s.cur = -1;
  for (auto &k : s.t) if (k.stack) munmap(k.stack, SIM_STACK), k.stack = nullptr;
}
static inline bool sim_active() { return sim && sim->on && sim->cur >= 0; }
static inline void sim_access(void *p) { if (sim_active() && (char *)p >= sim->lo && (char *)p < sim->hi) sim_point(); }

// ---- what the compiler inserts before accesses (-fsanitize=thread, own runtime)
extern "C" {
#define HOOK(n) void __tsan_read##n(void *p) { sim_access(p); } void __tsan_write##n(void *p) { sim_access(p); } \
  void __tsan_unaligned_read##n(void *p) { sim_access(p); } void __tsan_unaligned_write##n(void *p) { sim_access(p); } \
  void __tsan_volatile_read##n(void *p) { sim_access(p); } void __tsan_volatile_write##n(void *p) { sim_access(p); } \
  void __tsan_read##n##_pc(void *p, void *) { sim_access(p); } void __tsan_write##n##_pc(void *p, void *) { sim_access(p); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __tsan_read_range(void *p, unsigned long) { sim_access(p); }
void __tsan_write_range(void *p, unsigned long) { sim_access(p); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void *, void *) {}
void __tsan_vptr_read(void *) {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(b, ty) \
  ty __tsan_atomic##b##_load(const volatile ty *p, int) { sim_access((void *)p); return *p; } \
  void __tsan_atomic##b##_store(volatile ty *p, ty v, int) { sim_access((void *)p); *p = v; } \
  ty __tsan_atomic##b##_exchange(volatile ty *p, ty v, int) { sim_access((void *)p); ty o = *p; *p = v; return o; } \
  ty __tsan_atomic##b##_fetch_add(volatile ty *p, ty v, int) { sim_access((void *)p); ty o = *p; *p = o + v; return o; } \
  ty __tsan_atomic##b##_fetch_sub(volatile ty *p, ty v, int) { sim_access((void *)p); ty o = *p; *p = o - v; return o; } \
  ty __tsan_atomic##b##_fetch_and(volatile ty *p, ty v, int) { sim_access((void *)p); ty o = *p; *p = o & v; return o; } \
  ty __tsan_atomic##b##_fetch_or(volatile ty *p, ty v, int) { sim_access((void *)p); ty o = *p; *p = o | v; return o; } \
  ty __tsan_atomic##b##_fetch_xor(volatile ty *p, ty v, int) { sim_access((void *)p); ty o = *p; *p = o ^ v; return o; } \
  ty __tsan_atomic##b##_fetch_nand(volatile ty *p, ty v, int) { sim_access((void *)p); ty o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int, int) { sim_access((void *)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int, int) { sim_access((void *)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p, ty e, ty v, int, int) { sim_access((void *)p); ty o = *p; if (o == e) *p = v; return o; }
ATOM(8, signed char) ATOM(16, short) ATOM(32, int) ATOM(64, long)

// ---- blocking calls
static void sim_sleep() { Sim &s = *sim; s.t[s.cur].sleeps++; s.n_sleep++; if (++s.points > s.limit) fail("clients do not come to an end"); sim_switch(true); }
int __real_nanosleep(const struct timespec *a, struct timespec *b);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (!sim_active()) return __real_nanosleep(a, b); sim_sleep(); return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { if (sim_active()) sim_sleep(); return 0; }
int __wrap_usleep(useconds_t) { if (sim_active()) sim_sleep(); return 0; }
int __wrap_sched_yield(void) { if (sim_active()) sim_sleep(); return 0; }
long __real_syscall(long n, ...);
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (n != 202) return __real_syscall(n, a, b, c, d, e, f);
  volatile int *adr = (volatile int *)a; int op = (int)b & 127;
  if (!sim_active()) {
    // outside of the simulation nobody could ever wake the caller
    if ((op == 0 || op == 9) && *adr == (int)c) { if (sim) { fail("a client goes to sleep although nobody holds a lock"); } errno = ETIMEDOUT; return -1; }
    return 0;
  }
  Sim &s = *sim; Sim::Task &me = s.t[s.cur];
  if (op == 0 || op == 9) {
    sim_point();
    if (*adr != (int)c) { errno = EAGAIN; return -1; }
    me.wake = 0; me.state = Sim::BLOCKED; me.addr = adr; me.has_timeout = d != 0; if (!me.waited) me.wait_time = ++s.clk; me.waited = true; s.n_blocked++;
    T("    client %d sleeps", s.cur);
    sim_switch(true);
    if (me.wake) { errno = me.wake; return -1; }
    return 0;
  }
  if (op == 1 || op == 10) {
    sim_point();
    int n = 0;
    for (;;) {   // which of several sleepers wakes up is generated
      vector<int> w; for (int i = 0; i < (int)s.t.size(); i++) if (s.t[i].state == Sim::BLOCKED && s.t[i].addr == adr) w.push_back(i);
      if (w.empty() || n >= (int)c) break;
      int k = w[w.size() > 1 ? src.draw(w.size()) : 0]; s.t[k].state = Sim::READY; s.t[k].wake = 0; n++; T("    client %d wakes client %d", s.cur, k);
    }
    return n;
  }
  fail("harness: futex operation %d", op);
}
}
