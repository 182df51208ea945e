// B-link tree (BLinkTree/b_link_tree.h): both latches, integer and string keys, small and large nodes
#include <cassert>
#include <iostream>
#include "b_link_tree.h"
#include "driver.h"
using namespace vf;
static bool g_seq;
struct Any {
  virtual ~Any() {}
  virtual bool insert(u32, u64) = 0;
  virtual bool update(u32, u64) = 0;
  virtual bool search(u32, u64&, bool unsafe) = 0;
  virtual bool fixed(u32, int, std::vector<std::pair<u32, u64>>&) = 0;
  virtual bool range(u32, u32, std::vector<std::pair<u32, u64>>&) = 0;
  virtual void leaf(std::vector<std::pair<u32, u64>>&) = 0;
  virtual int depth() = 0;
};
template <class K, class L> struct Impl : Any {
  std::vector<K> keys;
  K top;
  std::unique_ptr<BTree<K, u64>> t;
  u32 id(const K& k) {
    auto it = std::lower_bound(keys.begin(), keys.end(), k);
    if (it == keys.end() || *it != k) viol("scan-alien", "a scan returned a key that was never stored");
    return it - keys.begin();
  }
  void conv(std::vector<std::pair<K, u64>>& v, std::vector<std::pair<u32, u64>>& out) { for (auto& p : v) out.push_back({id(p.first), p.second}); }
  bool insert(u32 i, u64 v) override { return t->Insert(keys[i], v); }
  bool update(u32 i, u64 v) override { return t->Update(keys[i], v); }
  bool search(u32 i, u64& v, bool u) override { return u ? t->SearchUnsafe(keys[i], v) : t->Search(keys[i], v); }
  bool fixed(u32 i, int n, std::vector<std::pair<u32, u64>>& out) override { std::vector<std::pair<K, u64>> v; bool r = t->ScanFixed(keys[i], n, v); conv(v, out); return r; }
  bool range(u32 a, u32 b, std::vector<std::pair<u32, u64>>& out) override {
    std::vector<std::pair<K, u64>> v; bool r = t->ScanRange(keys[a], b < keys.size() ? keys[b] : top, v); conv(v, out); return r;
  }
  void leaf(std::vector<std::pair<u32, u64>>& out) override { std::vector<std::pair<K, u64>> v; t->ScanLeaf(v); conv(v, out); }
  int depth() override { return t->GetTreeDepth(); }
};
struct BLinkMap : Map {
  std::unique_ptr<Any> a;
  std::vector<std::string> text;
  size_t n = 0;
  std::string cfg;
  std::atomic<u64> maxdepth{0};
  BLinkMap() { kinds = {LOOKUP, LOOKUP, INSERT, UPDATE}; ndists = INT_DISTS * 2 + STR_DISTS; has_scan = true; }
  template <class K> void make(std::vector<K> keys, K top, bool spin, int in, int ln, double it, double lt) {
    if (spin) { auto* p = new Impl<K, RSpinSharedLatch>; p->keys = keys; p->top = top; p->t.reset(new BLinkTree<K, u64, RSpinSharedLatch>(in, ln, it, 0.25, lt, 0.25)); a.reset(p); }
    else { auto* p = new Impl<K, StandardSharedMutex>; p->keys = keys; p->top = top;
      if (in == 4096) p->t.reset(new BLinkTree<K, u64>()); else p->t.reset(new BLinkTree<K, u64, StandardSharedMutex>(in, ln, it, 0.25, lt, 0.25)); a.reset(p); }
  }
  size_t setup(Rng& r, int dist, size_t want, int) override {
    int in = r.chance(1, 40) ? 4096 : r.chance(2, 3) ? 3 + r() % 8 : 3 + r() % 60, ln = in == 4096 ? 4096 : r.chance(2, 3) ? 2 + r() % 8 : 2 + r() % 60;
    static const double th[] = {0.75, 1.0, 0.5, 0.9, 0.67};
    double it = th[r() % 5], lt = th[r() % 5];
    // a node holds at least one key before it may split, and an inner node at least two
    while (ln * lt <= 1) lt = 1.0;
    while (in * it <= 2) it = 1.0;
    bool spin = r() & 1;
    cfg = fmt("inner=%d(%.2f) leaf=%d(%.2f) %s", in, it, ln, lt, spin ? "spin" : "mutex");
    text.clear();
    if (dist < INT_DISTS) {
      auto k = int_keys(r, dist, want, 0, ~0ull - 1);
      for (auto x : k) text.push_back(fmt("%llu", (unsigned long long)x));
      make<u64>(k, ~0ull, spin, in, ln, it, lt);
    } else if (dist < 2 * INT_DISTS) {
      std::vector<int64_t> k;
      for (auto x : int_keys(r, dist - INT_DISTS, want, 0, ~0ull - 1)) k.push_back((int64_t)(x ^ (1ull << 63)));
      for (auto x : k) text.push_back(fmt("%lld", (long long)x));
      make<int64_t>(k, INT64_MAX, spin, in, ln, it, lt);
    } else {
      text = str_keys(r, dist - 2 * INT_DISTS, want, 100);
      make<std::string>(text, std::string(200, '\xff'), spin, in, ln, it, lt);
    }
    return n = text.size();
  }
  void teardown() override { maxdepth = std::max<u64>(maxdepth, a->depth()); a.reset(); }
  u64 op(int, Kind k, u32 id, u64 arg) override {
    switch (k) {
      case LOOKUP: { u64 v = 0xdead; bool f = a->search(id, v, g_seq && (arg_toggle++ & 1)); if (!f && v != 0xdead) viol("output-touched", "search of an absent key changed the caller's value"); return f ? v : 0; }
      case INSERT: return a->insert(id, arg);
      default: return a->update(id, arg);
    }
  }
  static thread_local u64 arg_toggle;
  bool scan(int, const ScanReq& q, std::vector<std::pair<u32, u64>>& out) override {
    if (!q.incl || q.from >= n) return false;
    bool r;
    if (q.to >= n && q.limit <= n) { r = a->fixed(q.from, q.limit, out); if (!r != out.empty()) viol("scan-result", "a bounded scan returned %d with %zu entries", (int)r, out.size()); }
    else if (q.limit > n || q.to - q.from <= q.limit) { r = a->range(q.from, q.to, out); if (!r && !out.empty()) viol("scan-result", "a range scan returned false with %zu entries", out.size()); }
    else return false;
    return true;
  }
  void check() override {
    std::vector<std::pair<u32, u64>> v;
    a->leaf(v);
    size_t present = 0;
    for (u32 i = 0; i < n; ++i) { u64 x; present += a->search(i, x, false); }
    if (v.size() != present) viol("leaf-scan", "the leaf scan returns %zu entries, %zu keys are found (%s)", v.size(), present, cfg.c_str());
    for (size_t i = 0; i < v.size(); ++i) {
      u64 x = 0;
      if (i && v[i].first <= v[i - 1].first) viol("leaf-scan", "the leaf scan is out of order at %zu (%s)", i, cfg.c_str());
      if (!a->search(v[i].first, x, true) || x != v[i].second) viol("leaf-scan", "the leaf scan and search disagree on %s (%s)", text[v[i].first].c_str(), cfg.c_str());
    }
  }
  std::string key_text(u32 id) override { return id < n ? hex(text[id]) : "top"; }
  std::string config_text() override { return cfg; }
};
thread_local u64 BLinkMap::arg_toggle;
int main(int argc, char** argv) {
  BLinkMap m;
  g_seq = Args(argc, argv).str("mode", "seq") == "seq";
  return map_main(m, argc, argv);
}
