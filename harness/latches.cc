// P05: every latch kind of OptiQL/latches under contention, watched by a monitor of exclusion, shared access,
// validated optimistic reads, lost updates, hand-over and use of queue nodes after release.
#include <cstddef>
#include <iostream>
#include <cstdlib>
struct NoLog { template <class T> NoLog& operator<<(const T&) { return *this; } };
#define LOG(x) (abort(), NoLog())
#include "common.h"
#if defined(CFG_OMCS)
#define OMCS_LOCK
#include "latches/OMCS.h"
#ifdef OMCS_OFFSET
#include "latches/OMCSOffset.h"
#endif
typedef OMCSLock Wrapped;
typedef OMCSLock::Context Q;
#elif defined(CFG_MCS)
#include "latches/MCS.h"
typedef mcs::MCSQNode Q;
#elif defined(CFG_RW) || defined(CFG_STD)
#define RWLOCK
#ifdef CFG_STD
#define STDRW_LOCK
#else
#define MCSRW_LOCK
#endif
#include "latches/OMCS.h"
#ifdef OMCS_OFFSET
#include "latches/OMCSOffset.h"
#endif
typedef OMCSLock Wrapped;
typedef OMCSLock::Context Q;
#endif
using namespace vf;

enum Style { PLAIN, CTX };   // without and with queue nodes
static const int MAXW = 6;
static int W = MAXW;              // words guarded by a latch
struct alignas(128) Obj {
#ifdef CFG_MCS
  mcs::MCSLock l;
#else
  Wrapped l;
#endif
  Style style;
  alignas(128) std::atomic<u32> owner;
  std::atomic<int> readers;
  std::atomic<u64> d[MAXW];            // all equal outside of a write section
  u64 counter;                      // incremented without synchronisation inside write sections
  std::vector<u8> grants;
};
struct QN {
  alignas(128) unsigned char raw[sizeof(Q)];
  bool used = false;
};
static std::string where;
static thread_local int me;
static std::atomic<u64> n_write, n_upg_ok, n_upg_fail, n_rd, n_rd_fail, n_rd_restart, n_shared, n_shared_overlap, n_try_fail, n_nested, n_opread, n_handover, n_waited;
static thread_local QN* nodes;     // pointer mode
static thread_local u64 node_salt;
#ifdef OMCS_OFFSET
static Q* qn(int i) { return offset::get_qnode(i); }
static void qrelease(int) {}
#else
// nodes hold garbage between uses: an initialisation that is missing or an access by another thread after the
// release shows
static Q* qn(int i) {
  QN& n = nodes[i];
  if (n.used) for (size_t k = 0; k < sizeof n.raw; ++k) if (((volatile unsigned char*)n.raw)[k] != 0xE7)
    viol("qnode-after-release", "%s: byte %zu of the queue node of thread %d changed after it had been released", where.c_str(), k, me);
  node_salt = node_salt * 6364136223846793005ull + 1442695040888963407ull;
  memset(n.raw, (node_salt >> 40) & 1 ? 0xE7 : 0, sizeof n.raw);
  return (Q*)n.raw;
}
static void qrelease(int i) { memset(nodes[i].raw, 0xE7, sizeof nodes[i].raw); nodes[i].used = true; }
#endif
// in controlled schedules the monitor itself is no place to pass the turn
static thread_local bool scripted;
struct Quiet { Quiet() { if (scripted) vf_sched_run(false); } ~Quiet() { if (scripted) vf_sched_run(true); } };
static void enter(Obj& o) {
  Quiet quiet;
  u32 p = o.owner.exchange(me + 1);
  if (p) viol("two-writers", "%s: thread %d got the latch exclusively while thread %d holds it", where.c_str(), me, p - 1);
  int r = o.readers.load();
  if (r) viol("writer-with-readers", "%s: thread %d got the latch exclusively with %d shared holders inside", where.c_str(), me, r);
}
static u64 snap(Obj& o, bool& same) {
  u64 v[MAXW];
  for (int i = 0; i < W; ++i) v[i] = o.d[i].load(std::memory_order_acquire);
  same = true;
  for (int i = 1; i < W; ++i) same &= v[i] == v[0];
  return v[0];
}
static void write_section(Obj& o, u64 stamp) {
  bool same;
  snap(o, same);
  if (!same) viol("torn-write", "%s: thread %d sees a half-done write inside its exclusive section", where.c_str(), me);
  u64 c = *(volatile u64*)&o.counter;
  for (int i = 0; i < W; ++i) o.d[i].store(stamp, std::memory_order_release);
  Quiet quiet;
  *(volatile u64*)&o.counter = c + 1;
  if (!o.grants.empty() && o.grants.back() != me) n_handover++;
  o.grants.push_back(me);
  n_write++;
}
static void leave(Obj& o) {
  Quiet quiet;
  int r = o.readers.load();
  if (r) viol("writer-with-readers", "%s: %d shared holders entered while thread %d holds the latch exclusively", where.c_str(), r, me);
  u32 p = o.owner.exchange(0);
  if (p != (u32)me + 1) viol("two-writers", "%s: another thread entered while thread %d holds the latch exclusively", where.c_str(), me);
}

// ---- the operations
struct Held { Obj* o; int q; u64 v; bool shared; };
static std::atomic<u64> stamps{1};

static Held acquire(Obj& o, int qi, Rng& r) {
  Held h{&o, qi, 0, false};
#if defined(CFG_OMCS)
  if (o.style == PLAIN) { h.v = o.l.writeLock(); enter(o); return h; }
  Q* q = qn(qi);
#if defined(OMCS_OP_READ)
  unsigned m = r() % 3;
  if (m == 0) o.l.writeLock(q), enter(o);
  else if (m == 1) {
    bool waited = o.l.writeLockBegin(q);
    enter(o);
    bool same; u64 a = snap(o, same), b = snap(o, same);
    if (!same || a != b) viol("read-phase", "%s: data changed while thread %d held the latch before turning opportunistic reads off", where.c_str(), me);
    if (waited) { n_waited++; o.l.writeLockTurnOffOpRead(); }
  } else {
    bool ran = false;
    o.l.lock.lock(q, [&] { ran = true; enter(o); bool same; snap(o, same); if (!same) viol("read-phase", "%s: torn data in the read callback", where.c_str()); });
    if (!ran) viol("callback", "%s: the callback of a write lock was not called", where.c_str());
  }
#else
  if (r.chance(1, 3)) { o.l.writeLockBegin(q); o.l.writeLockTurnOffOpRead(); } else o.l.writeLock(q);
  enter(o);
#endif
#elif defined(CFG_MCS)
  o.l.lock(qn(qi)); enter(o);
#elif defined(CFG_STD)
  o.l.writeLock(); enter(o);
#else
  if (o.style == PLAIN) o.l.writeLock(); else o.l.writeLock(qn(qi));
  enter(o);
#endif
  return h;
}
static void release(Held& h, bool by_version) {
  Obj& o = *h.o;
  leave(o);
#if defined(CFG_OMCS)
  if (!o.l.isLocked()) viol("is-locked", "%s: a held latch says it is not locked", where.c_str());
  if (o.style == PLAIN) { if (by_version) o.l.writeUnlock(h.v); else o.l.writeUnlock(); return; }
#ifdef OMCS_OFFSET
  o.l.writeUnlock(&offset::qnodes[h.q]);
#else
  o.l.writeUnlock((Q*)nodes[h.q].raw);
#endif
#elif defined(CFG_MCS)
  o.l.unlock((Q*)nodes[h.q].raw);
#elif defined(CFG_STD)
  o.l.writeUnlock(); return;
#else
  if (o.style == PLAIN) { o.l.writeUnlock(); return; }
#ifdef OMCS_OFFSET
  o.l.writeUnlock(&offset::qnodes[h.q]);
#else
  o.l.writeUnlock((Q*)nodes[h.q].raw);
#endif
#endif
  qrelease(h.q);
}
#if defined(CFG_OMCS)
// a validated optimistic read saw no write; when `upgrade`, the latch is taken if nothing changed
static bool optimistic(Obj& o, int qi, Rng& r, bool upgrade, Held& h) {
  bool restart = false;
  u64 v = o.l.readLockOrRestart(restart);
  if (restart) { n_rd_restart++; return false; }
  bool same;
  u64 a = snap(o, same);
  bool op = v >> 63;
  if (!upgrade) {
    bool same2; u64 b = snap(o, same2);
    bool need = false;
    if (r.chance(1, 2)) o.l.checkOrRestart(v, need); else o.l.readUnlockOrRestart(v, need);
    if (need) { n_rd_fail++; return false; }
#if defined(OMCS_OP_READ) && !defined(OMCS_OFFSET)
    if (op) { n_opread++; return true; }     // documented: without the version in the lock word such a read may pass wrongly
#endif
    if (!same || !same2 || a != b) viol("invalid-read-validated", "%s: thread %d validated an optimistic read (lock word %llx) that saw a write", where.c_str(), me, (unsigned long long)v);
    n_rd++; if (op) n_opread++;
    return true;
  }
  bool need = false;
  u64 vv = v;
  if (o.style == PLAIN) o.l.upgradeToWriteLockOrRestart(vv, need);
  else {
    Q* q = qn(qi);
    o.l.upgradeToWriteLockOrRestart(vv, q, need);
    if (need) qrelease(qi);
  }
  if (need) { n_upg_fail++; return false; }
  enter(o);
  bool s2; u64 b = snap(o, s2);
  if (!same || !s2 || a != b) viol("stale-upgrade", "%s: thread %d upgraded (lock word %llx) although a write happened since its read", where.c_str(), me, (unsigned long long)v);
  n_upg_ok++;
  h = Held{&o, qi, v, false};
  return true;
}
#endif
#if defined(CFG_RW) || defined(CFG_STD)
static void shared(Obj& o, int qi, Rng& r) {
#ifdef CFG_STD
  o.l.readLock();
#else
  if (o.style == PLAIN) o.l.readLock(); else o.l.readLock(qn(qi));
#endif
  u32 w;
  {
    Quiet quiet;
    if (o.readers.fetch_add(1) > 0) n_shared_overlap++;
    w = o.owner.load();
    if (w) viol("reader-with-writer", "%s: thread %d got the latch shared while thread %d holds it exclusively", where.c_str(), me, w - 1);
  }
  bool s1, s2; u64 a = snap(o, s1), b = snap(o, s2);
  if (!s1 || !s2 || a != b) viol("shared-read-torn", "%s: data changed under the shared latch of thread %d", where.c_str(), me);
  Quiet* quiet = new Quiet;
  w = o.owner.load();
  if (w) viol("reader-with-writer", "%s: thread %d entered exclusively while thread %d holds the latch shared", where.c_str(), w - 1, me);
  o.readers.fetch_sub(1);
  delete quiet;
#ifdef CFG_STD
  o.l.readUnlock();
#else
  if (o.style == PLAIN) { o.l.readUnlock(); n_shared++; return; }
#ifdef OMCS_OFFSET
  o.l.readUnlock(&offset::qnodes[qi]);
#else
  o.l.readUnlock((Q*)nodes[qi].raw);
  qrelease(qi);
#endif
#endif
  n_shared++;
}
#endif

static void thread_begin(int t) {
  me = t;
  node_salt = t * 77 + 5;
#ifdef OMCS_OFFSET
  offset::reset_tls_qnodes();
#else
  nodes = new QN[4];
#endif
}
static void thread_end() {
#ifndef OMCS_OFFSET
  delete[] nodes;
#endif
}
// one thread: the contract of each call on a free latch
static void sequential(Obj& o) {
  Rng r(5);
  me = 0;
  for (int i = 0; i < 50; ++i) {
    Held h = acquire(o, 0, r);
#if defined(CFG_OMCS)
    bool restart = false;
    if (!o.l.isLocked()) viol("is-locked", "%s: held, but isLocked() is false", where.c_str());
    o.l.readLockOrRestart(restart);
    if (!restart) viol("read-while-locked", "%s: an optimistic read may begin while the latch is held with no one waiting", where.c_str());
#endif
    write_section(o, stamps++);
    release(h, i & 1);
#if defined(CFG_OMCS)
    if (o.l.isLocked()) viol("is-locked", "%s: released, but isLocked() is true", where.c_str());
    u64 v = o.l.readLock();
    bool need = false;
    o.l.checkOrRestart(v, need);
    if (need) viol("read-fails", "%s: an undisturbed optimistic read does not validate", where.c_str());
    Held u;
    if (!optimistic(o, 1, r, true, u)) viol("upgrade-fails", "%s: an undisturbed upgrade fails", where.c_str());
    write_section(o, stamps++);
    release(u, true);
    o.l.checkOrRestart(v, need);
    if (!need) viol("stale-read", "%s: a read validates although the latch was held exclusively since", where.c_str());
    need = false;
    if (o.style == PLAIN) o.l.upgradeToWriteLockOrRestart(v, need);
    else { Q* q = qn(2); o.l.upgradeToWriteLockOrRestart(v, q, need); qrelease(2); }
    if (!need) viol("stale-upgrade", "%s: an upgrade with an old version succeeds", where.c_str());
#elif defined(CFG_MCS)
    Q* q = qn(1);
    if (!o.l.try_lock(q)) viol("try-lock-fails", "%s: try_lock of a free latch fails", where.c_str());
    enter(o);
    Q* q2 = qn(2);
    if (o.l.try_lock(q2)) viol("two-writers", "%s: try_lock of a held latch succeeds", where.c_str());
    qrelease(2);
    leave(o);
    o.l.unlock(q);
    qrelease(1);
#else
    shared(o, 0, r);
#endif
    progress();
  }
#if defined(CFG_RW) || defined(CFG_STD)
  // shared holders do not exclude each other: the second gets in while the first stays
  std::atomic<int> in{0};
  current_case() = where + " two shared holders";
  auto f = [&](int t) {
    thread_begin(t);
#ifdef CFG_STD
    o.l.readLock();
#else
    if (o.style == PLAIN) o.l.readLock(); else o.l.readLock(qn(0));
#endif
    in++;
    while (in < 2) std::this_thread::yield();
#ifdef CFG_STD
    o.l.readUnlock();
#else
#ifdef OMCS_OFFSET
    if (o.style == PLAIN) o.l.readUnlock(); else o.l.readUnlock(&offset::qnodes[0]);
#else
    if (o.style == PLAIN) o.l.readUnlock(); else o.l.readUnlock((Q*)nodes[0].raw);
#endif
#endif
    thread_end();
  };
  std::thread a(f, 1), b(f, 2);
  a.join(); b.join();
  progress();
#endif
}

static Style style_of(Rng& r) {
#if defined(CFG_MCS) || defined(MCSRW_LOCK_ONLY) || defined(OMCS_OP_READ)
  return CTX;
#elif defined(CFG_STD)
  return PLAIN;
#else
  return r.chance(1, 3) ? PLAIN : CTX;
#endif
}
// Controlled schedules of short scripts: one thread runs at a time, the turn may pass at every memory access.
// The calls on the latch are inside vf_sched_run(true); sections pass the turn too, so that others meet a held latch.
static void scripts(u64 seed, u64 execs, u64 first) {
  W = 2;
  const int MT = 4;
  std::vector<std::thread> ths;
  std::atomic<int> exec{0}, finished{0};
  std::atomic<bool> quit{false};
  int T = 0, K = 1, pw = 50, len = 1;
  u64 c = 0, switches = 0;
  std::vector<Obj> obj(2);
  std::vector<u64> wrote(2 * MT);
  auto done = [&] { if (++finished >= MT) vf_wake(&finished); };
  auto all = [&] { for (int v; (v = finished.load()) < MT;) vf_wait_change(&finished, v); };
  for (int t = 0; t < MT; ++t) ths.emplace_back([&, t] {
    int seen = 0;
    for (;;) {
      vf_wait_change(&exec, seen);
      seen = exec;
      if (quit) return;
      if (t >= T) { done(); continue; }
      thread_begin(t);
      Rng q(seed * 31 + c * 1009 + t);
      done();
      vf_sched_enter(t);
      vf_sched_run(true);
      scripted = true;
      for (int i = 0; i < len; ++i) {
        int k = q() % K;
        Obj& o = obj[k];
        Held h{};
        bool got = false;
        unsigned d = q() % 100;
        if ((int)d < pw) { h = acquire(o, 0, q); got = true; }
        else {
#if defined(CFG_OMCS)
          got = optimistic(o, 0, q, d & 1, h) && (d & 1);
#elif defined(CFG_MCS)
          Q* n = qn(0);
          if (o.l.try_lock(n)) { enter(o); h = Held{&o, 0, 0, false}; got = true; } else { n_try_fail++; qrelease(0); }
#else
          shared(o, 0, q);
#endif
        }
        if (got) { write_section(o, stamps++); wrote[k * MT + t]++; release(h, q() & 1); }
        progress();
      }
      scripted = false;
      vf_sched_run(false);
      vf_sched_leave();
      thread_end();
      done();
    }
  });
  for (c = first; c < first + execs; ++c) {
    Rng r(seed * 104729 + c);
    T = 2 + r() % (MT - 1); K = r.chance(3, 4) ? 1 : 2; len = r.chance(1, 5) ? 2 + r() % 6 : 1 + r() % 2; pw = 20 + r() % 80;
    static const u32 means[] = {2, 6, 20, 60, 100, 100, 200, 200};   // 100: of any scale, 200: priorities
    u32 mean = means[r() % 8];
#ifdef OMCS_OFFSET
    offset::next_node = r.chance(1, 2) ? 0 : 1024 - 4 * (MT + 4);
#endif
    for (auto& o : obj) {
      typedef decltype(o.l) L; o.l.~L(); new (&o.l) L();
      o.owner = 0; o.readers = 0; o.counter = 0; o.grants.clear(); o.grants.reserve(64);
      for (auto& d : o.d) d = 0;
      o.style = style_of(r);
    }
    std::fill(wrote.begin(), wrote.end(), 0);
    where = fmt("%s script seed=%llu exec=%llu threads=%d latches=%d length=%d writes=%d%% mean=%u first=%s", CFG_NAME, (unsigned long long)seed, (unsigned long long)c, T, K, len, pw, mean, obj[0].style == PLAIN ? "plain" : "queue");
    current_case() = where;
    finished = 0;
    vf_sched_init(T, seed * 131 + c, mean);
    exec++; vf_wake(&exec);
    all();
    finished = MT - T;
    vf_sched_start();
    all();
    switches += vf_sched_switches();
    for (int k = 0; k < K; ++k) {
      u64 want = 0;
      for (int t = 0; t < T; ++t) want += wrote[k * MT + t];
      if (obj[k].counter != want) viol("lost-update", "%s: latch %d: %llu exclusive sections ran, %llu increments are there", where.c_str(), k, (unsigned long long)want, (unsigned long long)obj[k].counter);
#if defined(CFG_OMCS)
      if (obj[k].l.isLocked()) viol("left-locked", "%s: latch %d is locked after every thread released it", where.c_str(), k);
#endif
      // the latch is free again: it can be taken
      me = 0; thread_begin(0);
      Rng q(c);
      Held h = acquire(obj[k], 0, q); release(h, false);
#if defined(CFG_RW) || defined(CFG_STD)
      shared(obj[k], 0, q);
#endif
      thread_end();
    }
    ++evals();
    if (vf_sched_switches() > 1) distinct().add(mix(vf_sched_hash(), hash_bytes(CFG_NAME, strlen(CFG_NAME))));
    if (c < first + 3) sample(where + fmt(" switches=%llu", (unsigned long long)vf_sched_switches()));
  }
  quit = true;
  exec++; vf_wake(&exec);
  for (auto& t : ths) t.join();
  stat("controlled_switches", switches); stat("turns_taken_from_sleepers", vf_sched_steals());
}

static void report() {
  stat("exclusive_sections", n_write); stat("upgrades_done", n_upg_ok); stat("upgrades_refused", n_upg_fail); stat("optimistic_reads_validated", n_rd);
  stat("optimistic_reads_refused", n_rd_fail); stat("optimistic_reads_restarted", n_rd_restart); stat("opportunistic_reads_validated", n_opread);
  stat("shared_sections", n_shared); stat("overlapping_shared_sections", n_shared_overlap); stat("try_locks_refused", n_try_fail);
  stat("nested_sections", n_nested); stat("hand_overs", n_handover); stat("waits_before_read_phase", n_waited);
  perturb_stats();
  finish();
}
int main(int argc, char** argv) {
  Args a(argc, argv);
  setvbuf(stdout, 0, _IOLBF, 0);
  start_watchdog(a.num("hang", 25));
  u64 seed = a.num("seed", 1), rounds = a.num("rounds", 100), ops = a.num("ops", 4000), maxt = a.num("threads", 6);
#ifdef OMCS_OFFSET
  offset::init_qnodes();
#endif
  if (a.str("mode", "rounds") == "sched") { scripts(seed, a.num("execs", 20000), a.num("first", 0)); report(); }
  for (u64 c = 0; c < rounds; ++c) {
    Rng r(seed * 7919 + c);
    int T = 2 + r() % (maxt - 1), K = r.chance(1, 2) ? 1 : 1 + r() % 4;
    u32 mask = r.chance(1, 6) ? 0 : (255u >> (r() % 5)) | 7;
    u32 stall = mask && r.chance(1, 6) ? 1u << (r() % 8) : 0;      // long stops at single blocks, few operations
    u64 per = ops / T;
    if (stall) { K = r.chance(3, 4) ? 1 : 2; mask = (31u >> (r() % 4)); per = 30 + 400 / T; }
    int pw = r() % 3 ? 20 + r() % 60 : r.chance(1, 2) ? 3 : 97;
#ifdef OMCS_OFFSET
    offset::next_node = 0;
    if (r.chance(1, 2)) offset::next_node = 1024 - 4 * (T + 20);   // the identifiers with the high bits set
#endif
    std::vector<Obj> obj(K);
    for (auto& o : obj) {
      o.owner = 0; o.readers = 0; o.counter = 0;
      for (auto& d : o.d) d = 0;
      o.style = style_of(r);
    }
    where = fmt("%s seed=%llu round=%llu threads=%d latches=%d writes=%d%% stall=%u first=%s", CFG_NAME, (unsigned long long)seed, (unsigned long long)c, T, K, pw, stall, obj[0].style == PLAIN ? "plain" : "queue");
    current_case() = where;
    if (c < 3 || c % 16 == 0) {
      thread_begin(0);
      Rng q(c);
      for (auto& o : obj) { sequential(o); o.counter = 0; o.grants.clear(); }
      thread_end();
      current_case() = where;
    }
    std::vector<u64> wrote(K * T);
    std::atomic<bool> go{false};
    std::vector<std::thread> ths;
    for (int t = 0; t < T; ++t) ths.emplace_back([&, t] {
      thread_begin(t);
      Rng q(seed * 31 + c * 1009 + t);
      while (!go) std::this_thread::yield();
      vf_perturb_thread(seed * 977 + c * 31 + t, mask, t);
      if (stall && q.chance(3, 4)) vf_perturb_stall(stall);
      for (u64 i = 0; i < per; ++i) {
        int k = q() % K;
        Obj& o = obj[k];
        Held h{};
        bool got = false;
        unsigned d = q() % 100;
        if ((int)d < pw) { h = acquire(o, 0, q); got = true; }
        else {
#if defined(CFG_OMCS)
          got = optimistic(o, 0, q, d & 1, h) && (d & 1);
#elif defined(CFG_MCS)
          Q* n = qn(0);
          if (o.l.try_lock(n)) { enter(o); h = Held{&o, 0, 0, false}; got = true; } else { n_try_fail++; qrelease(0); }
#else
          shared(o, 0, q);
#endif
        }
        if (got) {
          write_section(o, stamps++);
          wrote[k * T + t]++;
          if (k + 1 < K && q.chance(1, 4)) {     // nested, in a fixed order
            int k2 = k + 1 + q() % (K - k - 1);
            Obj& p = obj[k2];
            bool g2 = false;
            Held h2{};
#if defined(CFG_OMCS)
            if (q.chance(1, 3)) g2 = optimistic(p, 1, q, true, h2); else { h2 = acquire(p, 1, q); g2 = true; }
#elif defined(CFG_MCS)
            h2 = acquire(p, 1, q); g2 = true;
#else
            if (q.chance(1, 3)) shared(p, 1, q); else { h2 = acquire(p, 1, q); g2 = true; }
#endif
            if (g2) { write_section(p, stamps++); wrote[k2 * T + t]++; n_nested++; if (q.chance(1, 2)) { release(h2, q() & 1); g2 = false; } }
            release(h, q() & 1);
            if (g2) release(h2, q() & 1);
          } else release(h, q() & 1);
        }
        progress();
      }
      vf_perturb_thread(1, 0, t);
      thread_end();
    });
    go = true;
    for (auto& t : ths) t.join();
    u64 h = hash_bytes(CFG_NAME, strlen(CFG_NAME));
    bool over = false;
    for (int k = 0; k < K; ++k) {
      u64 want = 0;
      for (int t = 0; t < T; ++t) want += wrote[k * T + t];
      if (obj[k].counter != want) viol("lost-update", "%s: latch %d: %llu exclusive sections ran, %llu increments are there", where.c_str(), k, (unsigned long long)want, (unsigned long long)obj[k].counter);
      h = hash_bytes(obj[k].grants.data(), obj[k].grants.size(), h);
      for (size_t i = 1; i < obj[k].grants.size(); ++i) over |= obj[k].grants[i] != obj[k].grants[i - 1];
#if defined(CFG_OMCS)
      if (obj[k].l.isLocked()) viol("left-locked", "%s: latch %d is locked after every thread released it", where.c_str(), k);
#endif
    }
    ++evals();
    if (over) distinct().add(h);
    if (c < 3) sample(where + fmt(" grants=%zu", obj[0].grants.size()));
  }
  report();
}
