// Masstree (basic_table with its cursors, scans and reclamation) and MassTreeWrapper.
#include <atomic>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <thread>
#include <algorithm>
#include <unordered_set>
#include <mutex>
#include <tbb/enumerable_thread_specific.h>
#define private public
#include "kvthread.hh"
#undef private
#include "masstree.hh"
#include "masstree_struct.hh"
#include "masstree_insert.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#define private public
#define class struct
#include "MassTreeWrapper.h"
#undef class
#undef private
#include "driver.h"
using namespace vf;
volatile mrcu_epoch_type globalepoch = 1;
volatile mrcu_epoch_type active_epoch = 1;
static std::mutex g_epoch_mutex;
static void epoch_step() {       // what the SIGALRM handlers of the programs do
  if (!g_epoch_mutex.try_lock()) return;
  globalepoch = globalepoch + 2;
  active_epoch = threadinfo::min_active_epoch();
  g_epoch_mutex.unlock();
}
static std::vector<std::string> g_keys, g_padded;   // readers of keys may touch up to eight bytes around them (string_slice.hh)
static const char* kdata(u32 id) { return g_padded[id].data() + 8; }
static thread_local threadinfo* tls_ti;
static std::vector<threadinfo*> g_tis;
static std::atomic<u64> g_recs, g_steps, g_scanned_leaves;
static thread_local int tls_cnt;
struct Rec {
  u64 magic, id, val, sum;
};
struct U64Val {
  typedef uint64_t T;
  static T make(threadinfo&, u32 id, u64 v) { return v << 20 | id; }
  static void retire(threadinfo&, T) {}
  static u64 get(T v, long id, u32* out = nullptr) {
    if (out) *out = v & 0xfffff;
    else if ((long)(v & 0xfffff) != id) viol("wrong-key", "the value of key #%ld belongs to key #%u", id, (u32)(v & 0xfffff));
    return v >> 20;
  }
};
struct RecVal {
  typedef Rec* T;
  static T make(threadinfo& ti, u32 id, u64 v) {
    Rec* r = (Rec*)ti.allocate(sizeof(Rec), memtag_value);
    r->magic = 0x1234abcd; r->id = id; r->val = v; r->sum = id * 31 + v;
    g_recs++;
    return r;
  }
  static void retire(threadinfo& ti, T r) { ti.deallocate_rcu(r, sizeof(Rec), memtag_value); g_recs--; }
  static u64 get(T r, long id, u32* out = nullptr) {
    if (r->magic != 0x1234abcd || r->sum != r->id * 31 + r->val) viol("freed-value", "a reader sees a value record that was freed");
    if (out) *out = r->id;
    else if ((long)r->id != id) viol("wrong-key", "the value of key #%ld belongs to key #%llu", id, (unsigned long long)r->id);
    return r->val;
  }
};
struct AnyTable {
  virtual ~AnyTable() {}
  virtual u64 op(threadinfo& ti, Kind k, u32 id, u64 arg) = 0;
  virtual void scan(threadinfo& ti, const ScanReq& q, std::vector<std::pair<u32, u64>>& out) { }
  virtual void destroy(threadinfo& ti) = 0;
  virtual const char* name() = 0;
};
template <int LW, int IW, typename V> struct Table : AnyTable {
  struct P : Masstree::nodeparams<LW, IW> { typedef typename V::T value_type; typedef threadinfo threadinfo_type; };
  typedef Masstree::basic_table<P> tree_t;
  tree_t t;
  explicit Table(threadinfo& ti) { t.initialize(ti); }
  const char* name() override { static std::string s = fmt("table<%d,%d,%s>", LW, IW, sizeof(V) && std::is_same<V, U64Val>::value ? "integer" : "pointer"); return s.c_str(); }
  u64 op(threadinfo& ti, Kind k, u32 id, u64 arg) override {
    const std::string& key = g_keys[id];
    typename V::T v;
    switch (k) {
      case LOOKUP: {
        if ((id + tls_cnt) & 1) return t.get(Masstree::Str(kdata(id), key.size()), v, ti) ? V::get(v, id) : 0;
        typename tree_t::unlocked_cursor_type lp(t, kdata(id), key.size());
        return lp.find_unlocked(ti) ? V::get(lp.value(), id) : 0;
      }
      case INSERT: case UPSERT_OLD: {
        typename tree_t::cursor_type lp(t, kdata(id), key.size());
        bool found = lp.find_insert(ti);
        u64 old = found ? V::get(lp.value(), id) : 0;
        if (found && k == INSERT) { lp.finish(0, ti); return 0; }
        typename V::T was = lp.value();
        lp.value() = V::make(ti, id, arg);
        fence();
        if (found) V::retire(ti, was);        // after it was replaced: the epoch may move on in between
        lp.finish(found ? 0 : 1, ti);
        return k == INSERT ? 1 : old;
      }
      case UPDATE_OLD: case REMOVE_OLD: case REMOVE_CAS: {
        typename tree_t::cursor_type lp(t, kdata(id), key.size());
        bool found = lp.find_locked(ti);
        u64 old = found ? V::get(lp.value(), id) : 0;
        if (!found || (k == REMOVE_CAS && old != arg)) { lp.finish(0, ti); return k == REMOVE_CAS ? 0 : old; }
        typename V::T was = lp.value();
        if (k == UPDATE_OLD) { lp.value() = V::make(ti, id, arg); fence(); lp.finish(0, ti); }
        else lp.finish(-1, ti);
        V::retire(ti, was);
        return k == REMOVE_CAS ? 1 : old;
      }
      default: abort();
    }
  }
  struct Scanner {
    const ScanReq& q;
    std::vector<std::pair<u32, u64>>& out;
    template <typename S, typename K> void visit_leaf(const S&, const K&, threadinfo&) { g_scanned_leaves.fetch_add(1, std::memory_order_relaxed); }
    bool visit_value(Masstree::Str key, typename V::T v, threadinfo&) {
      u32 id; u64 val = V::get(v, 0, &id);
      if (id >= g_keys.size()) viol("scan-alien", "a scan returned the value of a key that was never stored");
      if (g_keys[id].size() != (size_t)key.len || memcmp(g_keys[id].data(), key.s, key.len))
        viol("scan-key", "a scan returned key %s with the value of key %s", hex(std::string(key.s, key.len), 300).c_str(), hex(g_keys[id], 300).c_str());
      if (!q.rev ? id >= q.to : id < q.to) return false;
      out.push_back({id, val});
      return out.size() < q.limit;
    }
  };
  void scan(threadinfo& ti, const ScanReq& q, std::vector<std::pair<u32, u64>>& out) override {
    std::string first = g_padded[q.from];       // the caller's buffer is its own
    Scanner s{q, out};
    int n = q.rev ? t.rscan(Masstree::Str(first.data() + 8, first.size() - 16), q.incl, s, ti) : t.scan(Masstree::Str(first.data() + 8, first.size() - 16), q.incl, s, ti);
    if (n < (int)out.size() || n > (int)out.size() + 1) viol("scan-count", "a scan that visited %zu values returned %d", out.size(), n);
  }
  void destroy(threadinfo& ti) override { t.destroy(ti); }
};
template <typename V> struct WrapTable : AnyTable {
  MassTreeWrapper<typename V::T> w;
  const char* name() override { return std::is_same<V, U64Val>::value ? "wrapper<integer>" : "wrapper<pointer>"; }
  u64 op(threadinfo& ti, Kind k, u32 id, u64 arg) override {
    char* key = (char*)kdata(id); int len = g_keys[id].size();
    typename V::T v;
    if (k == LOOKUP) { MassEpochGuard g; return w.search(key, len, v) ? V::get(v, id) : 0; }
    if (k != UPSERT_NEW) abort();
    return w.upsert(key, len, V::make(ti, id, arg));
  }
  void destroy(threadinfo& ti) override { w.tree_.destroy(ti); }
};
static u64 pending();
static void quiesce_all() {      // removing a layer may retire the one above it, and so on
  for (int i = 0; i < 8 || (i < 400 && pending()); ++i) {
    epoch_step();
    for (auto ti : g_tis) { int guard = 0; do { ti->rcu_quiesce(); } while (ti->perform_gc_epoch_ != active_epoch && ++guard < 100000); ti->rcu_stop(); }
  }
}
static u64 pending() {
  u64 n = 0;
  for (auto ti : g_tis) for (auto g = ti->limbo_head_; g; g = g->next_) n += g->tail_ - g->head_;
  return n;
}
struct MtMap : Map {
  std::unique_ptr<AnyTable> t;
  bool wrapper; int variant = 0;
  std::atomic<bool> stop{false}; std::thread ticker; bool conc;
  u64 reclaimed = 0;
  MtMap(bool wrap, bool conc_) : wrapper(wrap), conc(conc_) {
    kinds = wrap ? std::vector<Kind>{LOOKUP, UPSERT_NEW} : std::vector<Kind>{LOOKUP, INSERT, UPSERT_OLD, UPDATE_OLD, REMOVE_OLD, REMOVE_CAS};
    max_value = 1ull << 40; ndists = INT_DISTS + STR_DISTS; has_scan = has_rev = !wrap; max_keys = 1 << 19;
  }
  size_t setup(Rng& r, int dist, size_t n, int T) override {
    g_keys.clear();
    variant = r() % (wrapper ? 2 : 6);
    // a leaf holds all keys with the same eight-byte slice: up to ten, but two when keys have no zero bytes
    bool nozero = !wrapper && variant >= 3;
    if (dist < INT_DISTS) for (auto k : int_keys(r, dist, n)) g_keys.push_back(be64(k));
    else g_keys = str_keys(r, dist - INT_DISTS, n, 200, nozero);
    if (dist >= INT_DISTS && r.chance(1, 5)) { std::string pre(8 * (1 + r() % 6), 'q'); for (auto& k : g_keys) k = pre + k; }
    if (r.chance(1, 12)) { std::string pre(250 - r() % 60, 'z'); for (auto& k : g_keys) { k = pre + k; if (k.size() > 255) k.resize(255); } std::sort(g_keys.begin(), g_keys.end()); g_keys.erase(std::unique(g_keys.begin(), g_keys.end()), g_keys.end()); }
    g_padded.clear();
    for (auto& k : g_keys) g_padded.push_back(std::string(8, 'P') + k + std::string(8, 'S'));
    for (int i = g_tis.size(); i < std::max(T, 1) + 1; ++i) g_tis.push_back(threadinfo::make(i ? threadinfo::TI_PROCESS : threadinfo::TI_MAIN, i - 1));
    threadinfo& ti = *g_tis[0];
    mass_thd_info = g_tis[0];
    if (wrapper) { if (variant) t.reset(new WrapTable<RecVal>); else t.reset(new WrapTable<U64Val>); }
    else switch (variant) {
      case 0: t.reset(new Table<15, 15, U64Val>(ti)); break;
      case 1: t.reset(new Table<15, 15, RecVal>(ti)); break;
      case 2: t.reset(new Table<12, 3, RecVal>(ti)); break;
      case 3: t.reset(new Table<3, 3, U64Val>(ti)); break;
      case 4: t.reset(new Table<4, 5, RecVal>(ti)); break;
      default: t.reset(new Table<3, 4, RecVal>(ti)); break;
    }
    if (conc) { stop = false; ticker = std::thread([this, us = 20 + r() % 300] { while (!stop) { epoch_step(); g_steps++; usleep(us); } }); }
    return g_keys.size();
  }
  void teardown() override {
    if (ticker.joinable()) { stop = true; ticker.join(); }
    quiesce_all();
    if (pending()) viol("never-reclaimed", "%llu retired objects stay after every thread is quiescent for several epochs", (unsigned long long)pending());
    // the values that are still stored
    if (!wrapper) for (u32 id = 0; id < g_keys.size(); ++id) t->op(*g_tis[0], REMOVE_OLD, id, 0);
    t->destroy(*g_tis[0]);
    quiesce_all();
    if (!wrapper) { if (g_recs) viol("value-leak", "%llu value records are neither stored nor retired", (unsigned long long)g_recs); }
    else g_recs = 0;
    t.reset();
    drain_pools();
  }
  void drain_pools() {
#if ENABLE_ASSERTIONS
    for (auto ti : g_tis) drain(*ti);
#endif
  }
  // in the sanitizer builds freed nodes go back to malloc, so that accesses to them are seen
  static void drain(threadinfo& ti) {
    for (auto& p : ti.pool_) while (p) { void* n = *(void**)p; free(p); p = n; }
  }
  void tstart(int t) override { tls_ti = mass_thd_info = g_tis[t % g_tis.size()]; }
  void tend(int) override { tls_ti->rcu_stop(); }
  u64 op(int tid, Kind k, u32 id, u64 arg) override {
    threadinfo& ti = *tls_ti;
    ++tls_cnt;
    if (!conc && tls_cnt % 7 == 0) epoch_step();
    ti.rcu_start();
    u64 res = t->op(ti, k, id, arg);
    ti.rcu_stop();
#if ENABLE_ASSERTIONS
    drain(ti);
#endif
    return res;
  }
  bool scan(int tid, const ScanReq& q, std::vector<std::pair<u32, u64>>& out) override {
    threadinfo& ti = *tls_ti;
    if (!q.limit) return false;
    ti.rcu_start();
    t->scan(ti, q, out);
    ti.rcu_stop();
    return true;
  }
  std::string key_text(u32 id) override { return hex(g_keys[id], 260); }
  std::string config_text() override { return t ? t->name() : ""; }
  void report() override { stat("epoch_steps", g_steps); stat("scanned_leaves", g_scanned_leaves); perturb_stats(); }
};
int main(int argc, char** argv) {
  setenv("_", "valgrind", 1);      // no node pool in builds with assertions
  Args a(argc, argv);
  MtMap m(a.num("wrapper", 0), a.str("mode", "seq") == "conc");
  return map_main(m, argc, argv);
}
