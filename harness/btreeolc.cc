// OLC B+-tree, both node layouts (LAYOUT_HEADER), key and payload types of different sizes
#include LAYOUT_HEADER
#include "driver.h"
using namespace vf;
template <int N> struct BigKey {      // few entries per node: deep trees
  char pad[N];
  u64 k;
  BigKey(u64 v = 0) : k(v) { for (int i = 0; i < N; ++i) pad[i] = (char)(v * 31 + i); }
  bool operator<(const BigKey& o) const { return k < o.k; }
  bool operator>(const BigKey& o) const { return k > o.k; }
  bool operator==(const BigKey& o) const { return k == o.k; }
  bool whole() const { for (int i = 0; i < N; ++i) if (pad[i] != (char)(k * 31 + i)) return false; return true; }
};
struct BigVal { u64 a, b, c, d, e; };
template <class V> struct Val;
template <> struct Val<u64> { static u64 make(u32 id, u64 v) { return v << 20 | id; } static u64 get(u64 x, u32& id) { id = x & 0xfffff; return x >> 20; } };
template <> struct Val<u32> { static u32 make(u32 id, u64 v) { return v << 13 | id; } static u64 get(u32 x, u32& id) { id = x & 0x1fff; return x >> 13; } };
template <> struct Val<BigVal> {
  static BigVal make(u32 id, u64 v) { u64 x = v << 20 | id; return BigVal{x, ~x, x * 3, x + 7, x}; }
  static u64 get(const BigVal& x, u32& id) {
    if (x.b != ~x.a || x.c != x.a * 3 || x.d != x.a + 7 || x.e != x.a) viol("torn-value", "a value made of parts of different writes was returned");
    id = x.a & 0xfffff; return x.a >> 20;
  }
};
struct Any {
  virtual ~Any() {}
  virtual void insert(u32, u64) = 0;
  virtual u64 lookup(u32) = 0;
  virtual size_t scan(u32, int, std::vector<std::pair<u32, u64>>&) = 0;
};
template <class K, class V> struct Impl : Any {
  btreeolc::BTree<K, V> t;
  std::vector<K> keys;
  void insert(u32 i, u64 v) override { t.insert(keys[i], Val<V>::make(i, v)); }
  u64 get(const V& x, u32 want, const char* what) {
    u32 id; u64 v = Val<V>::get(x, id);
    if (id != want) viol("wrong-key", "%s of key #%u returned a value of key #%u", what, want, id);
    return v;
  }
  u64 lookup(u32 i) override { V v = V(); return t.lookup(keys[i], v) ? get(v, i, "lookup") : 0; }
  size_t scan(u32 i, int range, std::vector<std::pair<u32, u64>>& out) override {
    std::vector<V> o(range + 1);
    memset((void*)&o[range], 0x5a, sizeof(V));
    V guard = o[range];
    u64 n = t.scan(keys[i], range, o.data());
    if (n > (u64)range || memcmp(&guard, &o[range], sizeof(V))) viol("scan-overrun", "a scan of %d entries reports %llu or wrote behind its output", range, (unsigned long long)n);
    for (u64 j = 0; j < n; ++j) { u32 id; u64 v = Val<V>::get(o[j], id); if (id >= keys.size()) viol("scan-alien", "a scan returned a value never stored"); out.push_back({id, v}); }
    return n;
  }
  // the tree has no destructor
  void drop(btreeolc::NodeBase* n) {
    if (n->type == btreeolc::PageType::BTreeInner) { auto* p = static_cast<btreeolc::BTreeInner<K>*>(n); for (int i = 0; i <= p->count; ++i) drop(p->children[i]); delete p; }
    else delete static_cast<btreeolc::BTreeLeaf<K, V>*>(n);
  }
  ~Impl() { drop(t.root); }
};
struct OlcMap : Map {
  std::unique_ptr<Any> a;
  std::vector<std::string> text;
  size_t n = 0;
  int typ = 0;
  std::atomic<u64> short_scans{0};
  OlcMap() { kinds = {LOOKUP, UPSERT}; ndists = INT_DISTS; has_scan = false; max_value = 1 << 18; max_keys = 8000; }
  template <class K, class V> void make(const std::vector<u64>& k) { auto* p = new Impl<K, V>; for (auto x : k) p->keys.push_back(K(x)); a.reset(p); }
  size_t setup(Rng& r, int dist, size_t want, int) override {
    typ = r() % 7;
    auto k = int_keys(r, dist, want, typ == 0 ? ~0ull - 0x7fffffff : 0, ~0ull);
    if (typ == 0) { for (auto& x : k) x = (u64)(int64_t)(int)(u32)x; std::sort(k.begin(), k.end(), [](u64 a, u64 b) { return (int)a < (int)b; }); }
    if (typ == 1) std::sort(k.begin(), k.end(), [](u64 a, u64 b) { return (int64_t)a < (int64_t)b; });
    text.clear();
    for (auto x : k) text.push_back(fmt("%llx", (unsigned long long)x));
    switch (typ) {
      case 0: make<int, u32>(k); break;
      case 1: make<int64_t, u64>(k); break;
      case 2: make<u64, u64>(k); break;
      case 3: make<u64, BigVal>(k); break;
      case 4: make<BigKey<240>, u64>(k); break;
      case 5: make<BigKey<500>, u32>(k); break;
      default: make<BigKey<300>, BigVal>(k); break;
    }
    return n = k.size();
  }
  void teardown() override { a.reset(); }
  u64 op(int, Kind k, u32 id, u64 arg) override { if (k == LOOKUP) return a->lookup(id); a->insert(id, arg); return 0; }
  std::string key_text(u32 id) override { return text[id]; }
  std::string config_text() override { return fmt("types=%d", typ); }
};
// a scan may stop at the end of the leaf, so it is compared as a non-empty prefix of what is stored
static void scans_seq(OlcMap& m, u64 seed, u64 cases) {
  u64 nscan = 0, entries = 0;
  for (u64 c = 0; c < cases; ++c) {
    Rng r(seed * 77711 + c);
    size_t n = 1 + r() % (r.chance(1, 3) ? 3000 : 300);
    n = m.setup(r, c % INT_DISTS, n, 1);
    current_case() = fmt("scans seed=%llu case=%llu keys=%zu types=%d", (unsigned long long)seed, (unsigned long long)c, n, m.typ);
    std::map<u32, u64> model;
    int order = r() % 3;
    for (size_t i = 0; i < n * 2; ++i) {
      u32 id = order == 0 ? r() % n : order == 1 ? i % n : n - 1 - i % n;
      if (r.chance(4, 5)) { u64 v = 1 + r() % 200000; m.op(0, UPSERT, id, v); model[id] = v; }
      if (r.chance(1, 4)) {
        u32 from = r() % n; int range = r.chance(1, 8) ? 0 : 1 + r() % (r.chance(1, 2) ? 10 : 400);
        std::vector<std::pair<u32, u64>> out;
        m.a->scan(from, range, out);
        auto it = model.lower_bound(from);
        if (out.empty() && range && it != model.end()) viol("scan-mismatch", "%s: a scan of %d entries from #%u finds nothing, #%u is stored", current_case().c_str(), range, from, it->first);
        for (size_t j = 0; j < out.size(); ++j, ++it)
          if (it == model.end() || it->first != out[j].first || it->second != out[j].second)
            viol("scan-mismatch", "%s: entry %zu of a scan from #%u is #%u=%llx, expected %s", current_case().c_str(), j, from, out[j].first, (unsigned long long)out[j].second,
                 it == model.end() ? "nothing" : fmt("#%u=%llx", it->first, (unsigned long long)it->second).c_str());
        ++nscan; entries += out.size();
        progress();
      }
    }
    m.teardown();
    ++evals(); distinct().add(mix(mix(n, nscan), m.typ));
  }
  stat("scans_checked", nscan); stat("scan_entries", entries);
}
// concurrent scans: ascending, values once stored, and every key stored before the scan began is not skipped
static void scans_conc(OlcMap& m, u64 seed, u64 rounds) {
  u64 total = 0, ent = 0;
  for (u64 c = 0; c < rounds; ++c) {
    Rng r(seed * 5557 + c);
    size_t n = 20 + r() % 400;
    n = m.setup(r, r() % INT_DISTS, n, 4);
    current_case() = fmt("concurrent scans seed=%llu round=%llu keys=%zu types=%d", (unsigned long long)seed, (unsigned long long)c, n, m.typ);
    std::unique_ptr<std::atomic<u32>[]> done(new std::atomic<u32>[n]), started(new std::atomic<u32>[n]);
    for (size_t i = 0; i < n; ++i) done[i] = started[i] = 0;
    std::vector<u32> perm(n);
    for (u32 i = 0; i < n; ++i) perm[i] = i;
    if (r.chance(2, 3)) for (size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[r() % i]);
    std::atomic<u64> next{0}, scans{0}, entries{0};
    std::vector<std::thread> ths;
    u32 mask = r.chance(1, 5) ? 0 : (255u >> (r() % 4)) | 7;
    for (int t = 0; t < 4; ++t) ths.emplace_back([&, t] {
      Rng q(seed * 17 + c * 5 + t);
      vf_perturb_thread(seed + c * 7 + t, mask, t);
      std::vector<std::pair<u32, u64>> out;
      if (t < 2) {
        for (u64 i; (i = next++) < 2 * n;) { u32 id = perm[i % n]; u32 v = i < n ? 1 : 2; u32 e = 0; if (v == 1) started[id].compare_exchange_strong(e, 1); else started[id] = 2; m.op(t, UPSERT, id, v); e = done[id]; if (e < 1) done[id] = 1; progress(); }
      } else while (next < 2 * n) {
        u32 from = q() % n; int range = 1 + q() % 60;
        std::vector<u8> before(n);
        for (size_t i = from; i < n; ++i) before[i] = done[i];
        out.clear();
        m.a->scan(from, range, out);
        long prev = (long)from - 1;
        for (auto& e : out) {
          if ((long)e.first <= prev) viol("scan-order", "%s: a concurrent scan from #%u returned #%u after #%ld", current_case().c_str(), from, e.first, prev);
          for (long k = prev + 1; k < (long)e.first; ++k) if (before[k]) viol("scan-gap", "%s: a concurrent scan from #%u skipped #%ld, stored before it began, and returned #%u", current_case().c_str(), from, k, e.first);
          if (!started[e.first] || e.second < 1 || e.second > 2) viol("scan-alien", "%s: a concurrent scan returned #%u=%llx, which was never stored", current_case().c_str(), e.first, (unsigned long long)e.second);
          prev = e.first;
        }
        if (out.empty()) for (size_t i = from; i < n; ++i) if (before[i]) viol("scan-gap", "%s: a concurrent scan from #%u found nothing, #%zu was stored before it began", current_case().c_str(), from, i);
        scans++; entries += out.size();
        progress();
      }
      vf_perturb_thread(1, 0, t);
    });
    for (auto& t : ths) t.join();
    total += scans; ent += entries;
    m.teardown();
    ++evals(); distinct().add(mix(mix(scans, entries), c));
  }
  stat("concurrent_scans", total); stat("concurrent_scan_entries", ent);
  perturb_stats();
}
int main(int argc, char** argv) {
  OlcMap m;
  Args a(argc, argv);
  std::string mode = a.str("mode", "seq");
  if (mode == "seq" || mode == "conc" || mode == "preempt") return map_main(m, argc, argv);
  setvbuf(stdout, 0, _IOLBF, 0);
  start_watchdog();
  if (mode == "scans") scans_seq(m, a.num("seed", 1), a.num("cases", 100)); else scans_conc(m, a.num("seed", 1), a.num("rounds", 100));
  finish();
}
