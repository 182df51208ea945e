// Deterministic preemption for demonstrations: one thread stops at a chosen basic block until others have done their part.
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <sched.h>
static __thread int64_t stop_count = -1;
static std::atomic<int> stopped{0}, resume_it{0};
#define NOCOV __attribute__((no_sanitize_coverage))
NOCOV static bool wait_for(std::atomic<int>& f, int ms) {
  for (int i = 0; i < ms * 10 && !f; i++) std::this_thread::sleep_for(std::chrono::microseconds(100));
  return f != 0;
}
extern "C" NOCOV void __sanitizer_cov_trace_pc(void) {
  if (stop_count < 0) return;
  if (stop_count-- == 0) { stopped = 1; while (!resume_it) sched_yield(); }
}
// runs a() in its own thread, stopped at its n-th block; b() runs meanwhile (or, when it does not end, 30 ms of it); false: a() has less blocks
template <class A, class B> NOCOV bool with_stop(int n, A a, B b) {
  stopped = 0; resume_it = 0;
  std::atomic<int> a_done{0}, b_done{0};
  std::thread ta([&] { stop_count = n; a(); stop_count = -1; a_done = 1; });
  for (int i = 0; !stopped && !a_done; i++) sched_yield();
  bool was = stopped != 0;
  std::thread tb([&] { b(); b_done = 1; });
  wait_for(b_done, 30);
  resume_it = 1;
  ta.join(); tb.join();
  return was;
}
