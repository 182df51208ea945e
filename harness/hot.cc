// HOT (Height Optimised Trie, ROWEX): the trie itself with unsigned 16/32/64-bit and C-string keys, and the HotTree wrappers.
#include <memory>
#include <hot.h>
#include "driver.h"
using namespace vf;
inline std::map<std::string, u64> g_layouts;
inline u64 g_maxh;
template <class K> struct Kv { K key; u64 val; u32 id; };
template <class V> struct KeyOf;
template <class K> struct KeyOf<Kv<K>*> { typedef K KeyType; inline K operator()(const Kv<K>* kv) const { return kv->key; } };
inline std::vector<std::string> g_keys;   // byte strings in key order; big endian for integers
template <class K> static K key_of(u32 id) {
  if constexpr (std::is_pointer_v<K>) return g_keys[id].c_str();
  else { K k = 0; for (u8 c : g_keys[id]) k = (K)(k << 8 | c); return k; }
}
struct Core { virtual ~Core() {} virtual u64 op(int, Kind, u32, u64) = 0; virtual bool scan(const ScanReq&, std::vector<std::pair<u32, u64>>&) { return false; } virtual void check(size_t) {} };
template <class K> struct RowexCore : Core {
  typedef Kv<K> E;
  hot::rowex::HOTRowex<E*, KeyOf> t;
  std::vector<std::vector<E*>> made;
  RowexCore(int T) : made(T + 1) {}
  ~RowexCore() { for (auto& v : made) for (auto* e : v) delete e; }
  u64 val(u32 id, E* e) {
    if (e->id != id) viol("wrong-entry", "an operation on key #%u returned the entry of key #%u", id, e->id);
    return e->val;
  }
  u64 op(int tid, Kind k, u32 id, u64 arg) override {
    K key = key_of<K>(id);
    if (k == LOOKUP) { auto r = t.lookup(key); return r.mIsValid ? val(id, r.mValue) : 0; }
    if (k == PROBE) { auto it = t.find(key); if (it == t.end()) return 0; val(id, *it); return 1; }
    E* e = new E{key, arg, id};
    made[tid].push_back(e);
    if (k == INSERT) return t.insert(e);
    auto r = t.upsert(e);
    return r.mIsValid ? val(id, r.mValue) : 0;
  }
  bool scan(const ScanReq& q, std::vector<std::pair<u32, u64>>& out) override {
    size_t n = g_keys.size();
    bool whole = q.from == 0 && q.incl && (++flip & 1);
    auto it = whole ? t.begin() : q.incl ? t.lower_bound(key_of<K>(q.from)) : t.upper_bound(key_of<K>(q.from));
    while (it != t.end() && out.size() < q.limit) {
      E* e = *it;
      if (e->id >= n) viol("scan-alien", "iterator points to an entry that was never stored");
      if (e->id >= q.to) break;
      out.push_back({e->id, e->val});
      if (out.size() < q.limit) ++it;
      if (out.size() % 64 == 0) progress();
    }
    return true;
  }
  u64 flip = 0;
  void check(size_t n) override {
    // scan(key, steps) is the entry that many steps behind the lower bound
    std::vector<std::pair<u32, u64>> all;
    ScanReq q{0, true, false, (u32)n, n + 1};
    scan(q, all);
    for (int i = 0; i < 4 && !all.empty(); ++i) {
      u32 from = (u32)(mix(flip, i) % n); size_t steps = mix(i, flip) % (all.size() + 2);
      auto p = std::lower_bound(all.begin(), all.end(), std::make_pair(from, (u64)0));
      size_t idx = (p - all.begin()) + steps;
      auto r = t.scan(key_of<K>(from), steps);
      if (r.mIsValid != (idx < all.size()) || (r.mIsValid && (r.mValue->id != all[idx].first || r.mValue->val != all[idx].second)))
        viol("scan-mismatch", "scan from #%u by %zu steps over %zu entries: %s", from, steps, all.size(), r.mIsValid ? "wrong entry" : "nothing");
    }
    if (all.empty()) return;
    auto st = t.getStatistics();
    double h = st.second["height"];
    for (auto& e : st.second) if (e.first.find("MASK") != std::string::npos) g_layouts[e.first] += (u64)e.second;
    g_maxh = std::max<u64>(g_maxh, (u64)h);
    if ((size_t)st.second["numberValues"] != all.size()) viol("scan-mismatch", "the trie holds %zu values, iteration saw %zu", (size_t)st.second["numberValues"], all.size());
  }
};
template <class K> struct TreeCore : Core {
  HotTree<K, u64> t;
  u64 op(int, Kind k, u32 id, u64 arg) override {
    u64 v = 0;
    if constexpr (std::is_same_v<K, std::string>) {
      if (k == LOOKUP) return t.search(g_keys[id], v) ? v : 0;
      return t.upsert(g_keys[id], arg);
    } else {
      K key; memset(&key, 0, sizeof key);
      for (size_t i = 0; i < sizeof(K); ++i) ((u8*)&key)[sizeof(K) - 1 - i] = g_keys[id][i];
      if (k == LOOKUP) return t.search(key, v) ? v : 0;
      return t.upsert(key, arg);
    }
  }
};
#define MAKE(n, T) Core* make_##n(int t)
MAKE(k64, ); MAKE(k32, ); MAKE(k16, ); MAKE(kstr, ); MAKE(w64, ); MAKE(wint, ); MAKE(wstr, );
#if PART == 1
Core* make_k64(int t) { return new RowexCore<u64>(t); }
Core* make_w64(int t) { return new TreeCore<u64>; }
#elif PART == 2
Core* make_k32(int t) { return new RowexCore<u32>(t); }
Core* make_wstr(int t) { return new TreeCore<std::string>; }
#elif PART == 3
Core* make_k16(int t) { return new RowexCore<uint16_t>(t); }
Core* make_wint(int t) { return new TreeCore<int>; }
#else
Core* make_kstr(int t) { return new RowexCore<const char*>(t); }
struct HotMap : Map {
  std::unique_ptr<Core> c;
  std::string cfg;
  bool seq;
  HotMap(bool s) : seq(s) { ndists = 3 * INT_DISTS + 2 * STR_DISTS; max_value = 1ull << 60; }
  size_t setup(Rng& r, int dist, size_t n, int T) override {
    g_keys.clear();
    bool wrap = r.chance(1, 4) && (dist < 2 * INT_DISTS || dist >= 3 * INT_DISTS);
    int w = dist < INT_DISTS ? 8 : dist < 2 * INT_DISTS ? 4 : dist < 3 * INT_DISTS ? 2 : 0;
    if (w) {
      u64 hi = w == 8 ? ~0ull : (1ull << 8 * w) - 1;
      if (w == 2) n = std::min<size_t>(n, 8000);
      for (u64 k : int_keys(r, dist % INT_DISTS, n, 0, hi)) g_keys.push_back(be64(k, w));
    } else {
      for (auto& k : str_keys(r, (dist - 3 * INT_DISTS) % STR_DISTS, n, 254, true, true)) g_keys.push_back(k);
      if (r.chance(1, 3)) {   // the longest keys there may be
        std::set<std::string> s;
        for (auto& k : g_keys) s.insert(std::string(254 - std::min<size_t>(254, k.size()), 'p') + k);
        g_keys.assign(s.begin(), s.end());
      }
    }
    n = g_keys.size();
    if (wrap) {
      kinds = {LOOKUP, UPSERT_NEW}; has_scan = false;
      c.reset(w == 8 ? make_w64(T) : w == 4 ? make_wint(T) : make_wstr(T));
    } else {
      kinds = {LOOKUP, PROBE, INSERT, UPSERT_OLD}; has_scan = true;
      c.reset(w == 8 ? make_k64(T) : w == 4 ? make_k32(T) : w == 2 ? make_k16(T) : make_kstr(T));
    }
    cfg = fmt("%s%s", wrap ? "HotTree/" : "trie/", w ? fmt("u%d", w * 8).c_str() : "string");
    return n;
  }
  void teardown() override { c.reset(); }
  void report() override { for (auto& l : g_layouts) stat(("nodes_" + l.first).c_str(), l.second); maxstat("height", g_maxh); }
  u64 op(int tid, Kind k, u32 id, u64 arg) override { return c->op(tid, k, id, arg); }
  bool scan(int, const ScanReq& q, std::vector<std::pair<u32, u64>>& out) override { return q.from < g_keys.size() && c->scan(q, out); }
  void check() override { if (seq) c->check(g_keys.size()); }
  std::string key_text(u32 id) override { return hex(g_keys[id]); }
  std::string config_text() override { return cfg; }
};
int main(int argc, char** argv) {
  Args a(argc, argv);
  HotMap m(a.str("mode", "seq") == "seq");
  return map_main(m, argc, argv);
}
#endif
