// Delay injection at basic-block granularity: compilers call __sanitizer_cov_trace_pc in every block of the
// code under test when it is built with -fsanitize-coverage=trace-pc. This file is built without it.
#include <atomic>
#include <cstdint>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <linux/futex.h>
#include <sys/syscall.h>
typedef uint64_t u64;
typedef uint32_t u32;
static __thread u64 tl_x;
static __thread u32 tl_mask, tl_tid, tl_busy, tl_stall;
static __thread u64 tl_blocks, tl_stop;
static __thread bool tl_count;
static __thread void (*tl_cb)(u64 pc);
static std::atomic<u64> g_delays, g_stalls;
static std::atomic<u64> g_last[64];
static const u32 PCS = 1 << 16, PAIRS = 1 << 22;
static std::atomic<u64> pcs[PCS / 64], pairs[PAIRS / 64];
static inline void setbit(std::atomic<u64>* m, u64 i) {
  u64 b = 1ull << (i & 63);
  if (!(m[i >> 6].load(std::memory_order_relaxed) & b)) m[i >> 6].fetch_or(b, std::memory_order_relaxed);
}
static u64 count(std::atomic<u64>* m, u32 n) {
  u64 c = 0;
  for (u32 i = 0; i < n / 64; ++i) c += __builtin_popcountll(m[i].load());
  return c;
}
static inline u64 h(u64 x) { x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 32); }
extern "C" {
void vf_perturb_thread(u64 seed, u32 mask, u32 tid) { tl_x = h(seed + 1) | 1; tl_mask = mask; tl_tid = tid & 63; tl_stall = 0; }
void vf_perturb_stall(u32 us) { tl_stall = us; }
u64 vf_perturb_stalls() { return g_stalls.load(); }
u64 vf_perturb_delays() { return g_delays.load(); }
u64 vf_perturb_pcs() { return count(pcs, PCS); }
u64 vf_perturb_pairs() { return count(pairs, PAIRS); }
// counts the blocks of this thread from now on; when the stop-th begins, cb is called with its address (once)
void vf_preempt_arm(u64 stop, void (*cb)(u64)) { tl_blocks = 0; tl_stop = stop; tl_cb = cb; tl_count = false; }
void vf_preempt_hold(bool h) { tl_count = !h && tl_stop; }
u64 vf_preempt_off() { tl_count = false; tl_stop = 0; return tl_blocks; }
// ---- controlled schedules: one of the registered threads runs at a time; after a random number of blocks the turn passes on
struct Sched { alignas(128) std::atomic<int> turn; alignas(128) int n; bool done[32]; u64 x, hash, switches; u32 mean; u64 points, est, chg[8]; int nchg; long prio[32], low; long given; };
static Sched S;
static bool pct() { return S.mean == 200; }
static __thread int tl_sid = -1;
static __thread bool tl_son;
static __thread long tl_budget;
static inline u64 sx() { S.x ^= S.x << 13; S.x ^= S.x >> 7; S.x ^= S.x << 17; return S.x >> 11; }
alignas(128) static std::atomic<u64> S_beats;
alignas(128) static std::atomic<u64> S_steals;
static std::atomic<int> S_sleeping[32];
static void futex_wait_turn(int me) {
  // a thread that holds the turn but sleeps in the kernel (a mutex held by a waiting thread) loses it after some time
  int v, last = -3; u64 beats = 0; int quiet = 0;
  for (int i = 0; i < 30000; ++i) { if (S.turn.load(std::memory_order_acquire) == me) return; __builtin_ia32_pause(); if (i % 512 == 511) sched_yield(); }
  S_sleeping[me] = 1;
  while ((v = S.turn.load()) != me) {
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    ts.tv_nsec += 150000; if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
    long rc = syscall(SYS_futex, (int*)&S.turn, FUTEX_WAIT_BITSET_PRIVATE, v, &ts, 0, 1u << me);
    if (rc == 0 || v < 0) { quiet = 0; continue; }
    u64 b = S_beats.load();
    if (v == last && b == beats) { if (++quiet >= 3 && S.turn.compare_exchange_strong(v, me)) { S_steals++; break; } }
    else quiet = 0;
    last = v; beats = b;
  }
  S_sleeping[me] = 0;
}
static void give(int to) { S.turn.store(to); if (to >= 0 && S_sleeping[to]) syscall(SYS_futex, (int*)&S.turn, FUTEX_WAKE_BITSET_PRIVATE, 64, 0, 0, 1u << to); }
static int pick(int me) {
  if (pct()) {
    if (me >= 0 && !S.done[me]) S.prio[me] = S.low--;
    int b = -1;
    for (int i = 0; i < S.n; ++i) if (!S.done[i] && i != me && (b < 0 || S.prio[i] > S.prio[b])) b = i;
    return b;
  }
  int c[32], k = 0;
  for (int i = 0; i < S.n; ++i) if (!S.done[i] && i != me) c[k++] = i;
  return k ? c[sx() % k] : -1;
}
// mean 200: priorities with a few random change points (the highest runs; one that runs for long falls to the bottom)
static void budget() {
  u64 r = sx();
  if (pct()) {
    long b = 160;
    for (int i = 0; i < S.nchg; ++i) if (S.chg[i] > S.points && (long)(S.chg[i] - S.points) < b) b = S.chg[i] - S.points;
    tl_budget = S.given = b;
    return;
  }
  if (S.mean > 60) { u32 b = (r & 255) % 10; tl_budget = (1u << b) + ((r >> 8) & ((1u << b) - 1)) - 1; return; } tl_budget = r % 16 == 0 ? (r >> 8) % (20 * S.mean + 1) : (r >> 8) % (2 * S.mean + 1); }
void vf_sched_init(int n, u64 seed, u32 mean) { S.turn = -1; S.n = n; for (auto& d : S.done) d = false; S.x = h(seed + 77) | 1; S.hash = 7; S.switches = 0; S.mean = mean;
  if (S.points) S.est = (S.est * 31 + S.points * 2) / 32 + 8;
  S.points = 0; S.nchg = sx() % 6; S.low = -1;
  for (int i = 0; i < S.nchg; ++i) S.chg[i] = 1 + sx() % (S.est + 8);
  for (int i = 0; i < n; ++i) S.prio[i] = sx() & 0xffff;
}
void vf_sched_start() { give(pct() ? pick(-1) : (int)(sx() % S.n)); }
void vf_sched_enter(int id) { tl_sid = id; futex_wait_turn(id); budget(); }
void vf_sched_run(bool on) { tl_son = on; }
void vf_sched_leave() { tl_son = false; if (pct()) S.points += S.given - (tl_budget > 0 ? tl_budget : 0); int me = tl_sid; S.done[me] = true; tl_sid = -1; if (S.turn.load() == me) give(pick(me)); }
u64 vf_sched_steals() { return S_steals.load(); }
static std::atomic<int> S_waiters;
void vf_wait_change(std::atomic<int>* a, int v) {
  for (int i = 0; i < 20000; ++i) { if (a->load(std::memory_order_acquire) != v) return; __builtin_ia32_pause(); if (i % 64 == 63) sched_yield(); }
  S_waiters++;
  while (a->load() == v) syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
  S_waiters--;
}
void vf_wake(std::atomic<int>* a) { if (S_waiters) syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 64, 0, 0, 0); }
u64 vf_sched_hash() { return S.hash; }
u64 vf_sched_switches() { return S.switches; }
static void sched_switch(u64 pc) {
  if (pct()) S.points += S.given - (tl_budget > 0 ? tl_budget : 0);
  int me = tl_sid, t = pick(me);
  if (t >= 0) { S.hash = h(S.hash ^ pc ^ ((u64)t << 56)); S.switches++; give(t); futex_wait_turn(me); }
  budget();
}
static inline __attribute__((always_inline)) void point(u64 pc_) {
  if (tl_son) {
    S_beats.store(S_beats.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
    if (S.turn.load(std::memory_order_relaxed) != tl_sid) { tl_son = false; futex_wait_turn(tl_sid); tl_son = true; }
    if (--tl_budget < 0) { tl_son = false; sched_switch(pc_); tl_son = true; } return; }
  if (tl_count && ++tl_blocks == tl_stop && !tl_busy) {
    tl_busy = 1; tl_count = false;
    tl_cb(pc_);
    tl_busy = 0; tl_count = true;
  }
  if (!tl_mask) return;
  tl_x ^= tl_x << 13; tl_x ^= tl_x >> 7; tl_x ^= tl_x << 17;
  if ((tl_x >> 20) & tl_mask) return;
  if (tl_busy) return;
  tl_busy = 1;
  u64 pc = pc_;
  u64 hp = h(pc);
  setbit(pcs, hp & (PCS - 1));
  g_last[tl_tid].store(hp, std::memory_order_relaxed);
  u32 o = (tl_tid + 1 + (tl_x & 7)) & 63;
  u64 other = g_last[o & 15].load(std::memory_order_relaxed);
  if (other && (o & 15) != tl_tid) setbit(pairs, h(hp ^ (other * 3)) & (PAIRS - 1));
  g_delays.fetch_add(1, std::memory_order_relaxed);
  u32 r = (tl_x >> 40) & 63;
  if (tl_stall) {
    g_stalls.fetch_add(1, std::memory_order_relaxed);
    struct timespec t = {0, (long)(1000 * (1 + (tl_x >> 46) % tl_stall))}; syscall(SYS_nanosleep, &t, 0);
    tl_busy = 0;
    return;
  }
  if (r < 40) sched_yield();
  else if (r < 58) { for (volatile int i = 0, n = 50 + ((tl_x >> 46) & 1023); i < n; i = i + 1) __builtin_ia32_pause(); }
  else if (r < 62) { for (int i = 0; i < 8; ++i) sched_yield(); }
  else { struct timespec t = {0, (long)(1000 + ((tl_x >> 46) & 0x7fff))}; syscall(SYS_nanosleep, &t, 0); }
  tl_busy = 0;
}
void __sanitizer_cov_trace_pc(void) { point((u64)__builtin_return_address(0)); }
}

// a thread with the turn does not sleep: it passes the turn on instead
static bool pass_turn(void* ra) {
  if (!tl_son) return false;
  tl_son = false; sched_switch((u64)ra); tl_son = true;
  return true;
}
#define REAL(f) static auto real = (decltype(&f))dlsym(RTLD_NEXT, #f)
extern "C" {
int nanosleep(const struct timespec* a, struct timespec* b) { if (pass_turn(__builtin_return_address(0))) return 0; long r = syscall(SYS_nanosleep, a, b); return (int)r; }
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (pass_turn(__builtin_return_address(0))) return 0; return syscall(SYS_clock_nanosleep, c, f, a, b) ? errno : 0; }
int usleep(unsigned us) { if (pass_turn(__builtin_return_address(0))) return 0; struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, 0); }
int sched_yield(void) { if (pass_turn(__builtin_return_address(0))) return 0; return (int)syscall(SYS_sched_yield); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (tl_son) { int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) pass_turn(__builtin_return_address(0)); return r; }
  REAL(pthread_mutex_lock); return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
  if (tl_son) { int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) pass_turn(__builtin_return_address(0)); return r; }
  REAL(pthread_rwlock_rdlock); return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
  if (tl_son) { int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) pass_turn(__builtin_return_address(0)); return r; }
  REAL(pthread_rwlock_wrlock); return real(m);
}
}

#ifdef VF_MEM
// The code under test is compiled with -fsanitize=thread but linked with this stand-in for the runtime: every
// memory access and atomic operation is a scheduling point.
#define HERE point((u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
#define ACC(n) void __tsan_read##n(void*) { HERE; } void __tsan_write##n(void*) { HERE; } \
  void __tsan_unaligned_read##n(void*) { HERE; } void __tsan_unaligned_write##n(void*) { HERE; } \
  void __tsan_volatile_read##n(void*) { HERE; } void __tsan_volatile_write##n(void*) { HERE; } \
  void __tsan_unaligned_volatile_read##n(void*) { HERE; } void __tsan_unaligned_volatile_write##n(void*) { HERE; } \
  void __tsan_read##n##_pc(void*, void*) { HERE; } void __tsan_write##n##_pc(void*, void*) { HERE; }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void*, long) { HERE; }
void __tsan_write_range(void*, long) { HERE; }
void __tsan_atomic_thread_fence(int) { HERE; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define SC __ATOMIC_SEQ_CST
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int) { HERE; return __atomic_load_n(a, SC); } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { HERE; __atomic_store_n(a, v, SC); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { HERE; return __atomic_exchange_n(a, v, SC); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { HERE; return __atomic_fetch_add(a, v, SC); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { HERE; return __atomic_fetch_sub(a, v, SC); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { HERE; return __atomic_fetch_and(a, v, SC); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { HERE; return __atomic_fetch_or(a, v, SC); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { HERE; return __atomic_fetch_xor(a, v, SC); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { HERE; return __atomic_fetch_nand(a, v, SC); } \
  bool __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { HERE; return __atomic_compare_exchange_n(a, e, v, false, SC, SC); } \
  bool __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { HERE; return __atomic_compare_exchange_n(a, e, v, true, SC, SC); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int, int) { HERE; __atomic_compare_exchange_n(a, &e, v, false, SC, SC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
#endif
