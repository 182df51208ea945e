// ART-OLC (ARTOLC/Tree.h)
#include "Tree.cpp"
#include "artkeys.h"
using namespace vf;
static void load_key(TID tid, Key& k) {
  size_t id = tid & 0xfffff;
  if (id >= g_art_keys.size()) viol("alien-identifier", "the tree asked for the key of identifier %llx, which was never stored", (unsigned long long)tid);
  k.set(g_art_keys[id].data(), g_art_keys[id].size());
}
struct ArtMap : Map {
  std::unique_ptr<ART_OLC::Tree> t;
  std::vector<std::unique_ptr<ART::ThreadInfo>> ti;
  ArtMap() { kinds = {LOOKUP, UPSERT, REMOVE_IF}; max_value = 1ull << 40; ndists = ART_DISTS; has_scan = true; scan_concurrent = false; max_keys = 1 << 19; }
  size_t setup(Rng& r, int dist, size_t n, int T) override {
    n = art_setup_keys(r, dist, n);
    t.reset(new ART_OLC::Tree(load_key));
    ti.clear(); ti.resize(T);
    return n;
  }
  void teardown() override { t.reset(); }
  void tstart(int i) override { ti[i].reset(new ART::ThreadInfo(t->getThreadInfo())); }
  void tend(int i) override { ti[i].reset(); }
  u64 op(int tid, Kind k, u32 id, u64 arg) override {
    Key key;
    key.set(g_art_keys[id].data(), g_art_keys[id].size());
    switch (k) {
      case LOOKUP: return art_val(id, t->lookup(key, *ti[tid]));
      case UPSERT: t->insert(key, art_tid(id, arg), *ti[tid]); return 0;
      default: t->remove(key, art_tid(id, arg), *ti[tid]); return 0;
    }
  }
  bool scan(int tid, const ScanReq& q, std::vector<std::pair<u32, u64>>& out) override {
    if (!q.incl || q.from >= g_art_keys.size()) return false;
    Key a, b, cont;
    a.set(g_art_keys[q.from].data(), g_art_keys[q.from].size());
    std::string hi = q.to < g_art_keys.size() ? g_art_keys[q.to] : std::string(900, '\xff');
    b.set(hi.data(), hi.size());
    std::vector<TID> res(q.limit + 1, 0);
    size_t found = 12345;
    const TID guard = 0x123456789;
    res[q.limit] = guard;
    bool more = t->lookupRange(a, b, cont, res.data(), q.limit, found, *ti[tid]);
    if (found > q.limit || res[q.limit] != guard) viol("scan-overrun", "range read of %zu entries reports %zu", q.limit, found);
    for (size_t i = 0; i < found; ++i) {
      u32 id = res[i] & 0xfffff;
      if (id >= g_art_keys.size()) viol("scan-alien", "range read returned identifier %llx", (unsigned long long)res[i]);
      out.push_back({id, res[i] >> 20});
    }
    if (more && found != q.limit) viol("scan-continue", "range read stopped at %zu of %zu entries", found, q.limit);
    if (more && more_check) {   // it names the first entry left out
      Key c2; size_t f2 = 0; TID one[1];
      std::string ck((const char*)&cont[0], cont.getKeyLen());
      auto it = std::lower_bound(g_art_keys.begin(), g_art_keys.end(), ck);
      if (it == g_art_keys.end() || *it != ck) viol("scan-continue", "range read continues at a key that was never stored");
      t->lookupRange(cont, b, c2, one, 1, f2, *ti[tid]);
      if (f2 != 1 || (one[0] & 0xfffff) != (u64)(it - g_art_keys.begin())) viol("scan-continue", "reading on from the reported key #%zu does not return it first", (size_t)(it - g_art_keys.begin()));
      if (found && (u64)(it - g_art_keys.begin()) <= out.back().first) viol("scan-continue", "continue key is not behind the last entry");
    }
    if (!more) full_reads++;
    return true;
  }
  bool more_check = true;
  u64 full_reads = 0;
  std::string key_text(u32 id) override { return hex(g_art_keys[id]); }
};
int main(int argc, char** argv) { ArtMap m; return map_main(m, argc, argv); }
