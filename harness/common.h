// Shared parts of the monitoring harnesses: reports, random numbers, hang detection, delay injection control.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <mutex>
#include <string>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <sys/time.h>
#include <sched.h>

namespace vf {
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 operator()() { return next(); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  typedef u64 result_type;
  static constexpr u64 min() { return 0; }
  static constexpr u64 max() { return ~0ull; }
};

inline u64 mix(u64 h, u64 v) {
  h = (h + 0x9E3779B97F4A7C15ull) * 0xbf58476d1ce4e5b9ull + v;  // not symmetric: neighbouring (h, v) pairs must not meet
  h = (h ^ (h >> 32)) * 0xff51afd7ed558ccdull;
  return h ^ (h >> 29);
}
inline u64 hash_bytes(const void* p, size_t n, u64 h = 7) {
  const u8* b = (const u8*)p;
  for (size_t i = 0; i < n; ++i) h = mix(h, b[i]);
  return mix(h, n);
}

struct Args {
  std::map<std::string, std::string> m;
  Args(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto e = a.find('=');
      if (e == std::string::npos) m[a] = "1"; else m[a.substr(0, e)] = a.substr(e + 1);
    }
  }
  u64 num(const char* k, u64 d) const { auto i = m.find(k); return i == m.end() ? d : strtoull(i->second.c_str(), 0, 0); }
  std::string str(const char* k, const char* d) const { auto i = m.find(k); return i == m.end() ? d : i->second; }
};

// ---- reports
inline std::mutex& out_mutex() { static std::mutex m; return m; }
inline void emit(const std::string& s) {
  std::lock_guard<std::mutex> g(out_mutex());
  std::string t = s + "\n";
  fflush(stdout);
  size_t off = 0;
  while (off < t.size()) {
    ssize_t w = write(1, t.data() + off, t.size() - off);
    if (w <= 0) break;
    off += w;
  }
}
inline std::string vfmt(const char* f, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  return buf;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char* f, ...) {
  va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s;
}
[[noreturn]] __attribute__((format(printf, 2, 3))) inline void viol(const char* cls, const char* f, ...) {
  va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
  for (auto& c : s) if (c == '\n') c = ' ';
  emit("@@VIOL " + std::string(cls) + " " + s);
  _exit(1);
}
[[noreturn]] inline void inconclusive(const std::string& s) { emit("@@INCONCLUSIVE " + s); _exit(2); }
inline void stat(const char* k, u64 v) { emit(fmt("@@STAT %s %llu", k, (unsigned long long)v)); }
inline void maxstat(const char* k, u64 v) { emit(fmt("@@MAX %s %llu", k, (unsigned long long)v)); }
inline void sample(const std::string& s) { std::string t = s; for (auto& c : t) if (c == '\n') c = ' '; emit("@@SAMPLE " + t); }

inline std::string hex(const std::string& s, size_t max = 48) {
  std::string o;
  for (size_t i = 0; i < s.size() && i < max; ++i) o += fmt("%02x", (u8)s[i]);
  if (s.size() > max) o += fmt("..(%zu)", s.size());
  return o.empty() ? "<empty>" : o;
}

struct Distinct {
  std::unordered_set<u64> set;
  void add(u64 h) { if (set.size() < 4000000) set.insert(h); }
};
inline Distinct& distinct() { static Distinct d; return d; }
inline u64& evals() { static u64 e; return e; }

// ---- hang detection: progress() is called whenever an operation under test completed
inline std::atomic<u64>& progress_counter() { static std::atomic<u64> c; return c; }
inline void progress() { progress_counter().fetch_add(1, std::memory_order_relaxed); }
inline std::string& current_case() { static std::string s; return s; }
inline double cpu_time() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline double wall_time() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// a hang is reported when nothing completed for `wall` seconds in which the process used `cpu` seconds,
// or for 4 * wall seconds whatever it used
inline void start_watchdog(double wall = 25, double cpu = 60) {
  static std::atomic<bool> started(false);
  if (started.exchange(true)) return;
  std::thread([=] {
    u64 last = progress_counter().load();
    double w0 = wall_time(), c0 = cpu_time();
    for (;;) {
      usleep(200000);
      u64 now = progress_counter().load();
      if (now != last) { last = now; w0 = wall_time(); c0 = cpu_time(); continue; }
      double w = wall_time() - w0, c = cpu_time() - c0;
      if ((w > wall && c > cpu) || w > 4 * wall) {
        if (getenv("VF_GDB")) (void)!system(fmt("gdb -p %d -batch -ex 'thread apply all bt 14' 2>/dev/null >> %s", (int)getpid(), getenv("VF_GDB")).c_str());
        viol("hang", "no operation completed for %.0f s (%.0f s of cpu time); case: %s", w, c, current_case().c_str());
      }
    }
  }).detach();
}
inline void finish() {
  emit(fmt("@@EVAL %llu", (unsigned long long)evals()));
  emit(fmt("@@DISTINCT %llu", (unsigned long long)distinct().set.size()));
  emit("@@DONE");
  fflush(stdout);
  _exit(0);
}

// ---- delay injection (perturb.cc; only effective in builds with -fsanitize-coverage=trace-pc)
extern "C" {
void vf_perturb_thread(u64 seed, u32 mask, u32 tid);  // mask 0: off
u64 vf_perturb_delays();
void vf_perturb_stall(u32 us);  // long stalls (a descheduled thread) of up to us microseconds instead of short delays
u64 vf_perturb_stalls();
void vf_preempt_arm(u64 stop, void (*cb)(u64));
void vf_sched_init(int n, u64 seed, u32 mean);
void vf_sched_start();
void vf_sched_enter(int id);
void vf_sched_run(bool on);
void vf_sched_leave();
u64 vf_sched_hash();
u64 vf_sched_switches();
u64 vf_sched_steals();
void vf_wait_change(std::atomic<int>* a, int v);
void vf_wake(std::atomic<int>* a);
void vf_preempt_hold(bool hold);
u64 vf_preempt_off();
u64 vf_perturb_pcs();
u64 vf_perturb_pairs();
}
// all threads of a controlled schedule share one processor: the turn is passed by a futex
inline void pin_to(int cpu) {
  if (cpu < 0) return;
  cpu_set_t m, all; CPU_ZERO(&m);
  if (sched_getaffinity(0, sizeof all, &all)) return;
  int n = CPU_COUNT(&all), k = cpu % (n ? n : 1);
  for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all) && k-- == 0) CPU_SET(i, &m);
  sched_setaffinity(0, sizeof m, &m);
}
inline void perturb_stats() {
  stat("injected_delays", vf_perturb_delays());
  stat("long_stalls", vf_perturb_stalls());
  maxstat("basic_blocks_seen", vf_perturb_pcs());
  stat("cross_thread_block_pairs", vf_perturb_pairs());
}
}  // namespace vf
