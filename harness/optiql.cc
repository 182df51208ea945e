// OptiQL ART (OptiQL/Tree.h); one translation unit per variant of the lock definitions
#include <sys/wait.h>
#include "Tree.h"
#include "artkeys.h"
using namespace vf;
static void load_key(TID tid, Key& k) {
  size_t id = tid & 0xfffff;
  if (id >= g_art_keys.size()) viol("alien-identifier", "the tree asked for the key of identifier %llx, which was never stored", (unsigned long long)tid);
  k.set(g_art_keys[id].data(), g_art_keys[id].size());
}
static std::mutex g_rm;
static std::vector<void*> g_removed;
static void remove_node(void* p) { std::lock_guard<std::mutex> g(g_rm); g_removed.push_back(p); }
struct OqMap : Map {
  std::unique_ptr<ART_OLC_OptiQL::Tree> t;
  OqMap() { kinds = {LOOKUP, INSERT, UPDATE, REMOVE_CAS}; max_value = 1ull << 40; ndists = ART_DISTS; has_scan = true; scan_concurrent = false; max_keys = 1 << 19; }
  size_t setup(Rng& r, int dist, size_t n, int T) override {
    n = art_setup_keys(r, dist, n);
#ifdef OMCS_OFFSET
    if (!offset::base_qnode) offset::init_qnodes();
    offset::next_node = 0;
#endif
    t.reset(new ART_OLC_OptiQL::Tree(load_key, remove_node));
    return n;
  }
  void teardown() override {
    t.reset();
    std::sort(g_removed.begin(), g_removed.end());
    for (size_t i = 1; i < g_removed.size(); ++i) if (g_removed[i] == g_removed[i - 1]) viol("double-remove", "one node was handed to the reclaimer twice");
    for (void* p : g_removed) ART_OLC_OptiQL::N::deleteNode((ART_OLC_OptiQL::N*)p);
    removed += g_removed.size();
    g_removed.clear();
  }
  u64 removed = 0;
  void tstart(int) override {
#ifdef OMCS_OFFSET
    offset::reset_tls_qnodes();
#endif
  }
  u64 op(int tid, Kind k, u32 id, u64 arg) override {
    Key key;
    key.set(g_art_keys[id].data(), g_art_keys[id].size());
    switch (k) {
      case LOOKUP: return art_val(id, t->lookup(key));
      case INSERT: return t->insert(key, art_tid(id, arg));
      case UPDATE: return t->update(key, art_tid(id, arg));
      default: return t->remove(key, art_tid(id, arg));
    }
  }
  bool scan(int tid, const ScanReq& q, std::vector<std::pair<u32, u64>>& out) override {
    if (!q.incl || q.from >= g_art_keys.size()) return false;
    Key a, b, cont;
    a.set(g_art_keys[q.from].data(), g_art_keys[q.from].size());
    std::string hi = q.to < g_art_keys.size() ? g_art_keys[q.to] : std::string(900, '\xff');
    b.set(hi.data(), hi.size());
    std::vector<TID> res(q.limit + 1, 0);
    size_t found = 12345;
    const TID guard = 0x123456789;
    res[q.limit] = guard;
    bool more = false, open = q.to >= g_art_keys.size() && (++flip & 1);
    if (open) t->lookupRange(a, res.data(), q.limit, found);
    else more = t->lookupRange(a, b, cont, res.data(), q.limit, found);
    if (found > q.limit || res[q.limit] != guard) viol("scan-overrun", "range read of %zu entries reports %zu", q.limit, found);
    for (size_t i = 0; i < found; ++i) {
      u32 id = res[i] & 0xfffff;
      if (id >= g_art_keys.size()) viol("scan-alien", "range read returned identifier %llx", (unsigned long long)res[i]);
      out.push_back({id, res[i] >> 20});
    }
    if (more) {
      if (found != q.limit) viol("scan-continue", "range read stopped at %zu of %zu entries", found, q.limit);
      std::string ck((const char*)&cont[0], cont.getKeyLen());
      auto it = std::lower_bound(g_art_keys.begin(), g_art_keys.end(), ck);
      if (it == g_art_keys.end() || *it != ck) viol("scan-continue", "range read continues at a key that was never stored");
      if (found && (u64)(it - g_art_keys.begin()) <= out.back().first) viol("scan-continue", "continue key is not behind the last entry");
      Key c2; size_t f2 = 0; TID one[1];
      t->lookupRange(cont, b, c2, one, 1, f2);
      if (f2 != 1 || (one[0] & 0xfffff) != (u64)(it - g_art_keys.begin())) viol("scan-continue", "reading on from the reported key does not return it first");
    }
    return true;
  }
  u64 flip = 0;
  std::string key_text(u32 id) override { return hex(g_art_keys[id]); }
};
// repeated updates of few keys until the tree expands the contended path, then everything but remove (remove=0),
// or remove on the expanded path in a child process (known finding when it aborts)
static int expand_main(OqMap& m, Args& a) {
  the_map() = &m;
  start_watchdog(25);
  u64 expansions = 0, known = 0, removed_ok = 0;
  bool rem = a.num("remove", 0);
  for (u64 c = 0; c < a.num("cases", 10); ++c) {
    Rng r(a.num("seed", 1) * 77 + c);
    size_t n = m.setup(r, r() % ART_DISTS, 20 + r() % 200, 1);
    current_case() = fmt("expand seed=%llu case=%llu keys=%zu", (unsigned long long)a.num("seed", 1), (unsigned long long)c, n);
    m.tstart(0);
    std::vector<u64> val(n, 0);
    u64 next = 1;
    for (u32 i = 0; i < n; ++i) if (r.chance(3, 4) || i == 0) { val[i] = next++; if (!m.op(0, INSERT, i, val[i])) viol("model-mismatch", "%s: insert failed", current_case().c_str()); }
    std::vector<u32> pres;
    for (u32 i = 0; i < n; ++i) if (val[i]) pres.push_back(i);
    for (int hot = 0; hot < 4; ++hot) {
      u32 id = pres[r() % pres.size()];
      for (int i = 0; i < 13000; ++i) { val[id] = next++; if (!m.op(0, UPDATE, id, val[id])) viol("model-mismatch", "%s: update %d of a present key failed", current_case().c_str(), i); if (!(i & 255)) progress(); }
      for (u32 i = 0; i < n; ++i) if (m.op(0, LOOKUP, i, 0) != val[i]) viol("model-mismatch", "%s: key #%u (%s) is wrong after expansion", current_case().c_str(), i, m.key_text(i).c_str());
      std::vector<std::pair<u32, u64>> out;
      std::set<u32> ps(pres.begin(), pres.end());
      ScanReq q{(u32)(r() % n), true, false, (u32)n, n + 1};
      m.scan(0, q, out);
      cmp_scan(m, q, ps, val, n, out, current_case().c_str());
      // more inserts around the expanded path
      for (u32 i = 0; i < n; ++i) if (!val[i] && r.chance(1, 4)) { val[i] = next++; if (!m.op(0, INSERT, i, val[i])) viol("model-mismatch", "%s: insert after expansion failed", current_case().c_str()); pres.push_back(i); }
      ++expansions;
      if (rem) {
        fflush(stdout);
        pid_t p = fork();
        if (!p) {
          freopen("/dev/null", "w", stderr);
          bool ok = m.op(0, REMOVE_CAS, id, val[id]);
          for (u32 i = 0; ok && i < n; ++i) ok = m.op(0, LOOKUP, i, 0) == (i == id ? 0 : val[i]);
          if (ok) ok = m.op(0, INSERT, id, 77) && m.op(0, LOOKUP, id, 0) == 77;
          _exit(ok ? 0 : 3);
        }
        int st = 0;
        waitpid(p, &st, 0);
        progress();
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) ++removed_ok;
        else if ((WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) || (WIFEXITED(st) && (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 1))) ++known;
        else viol("remove-expanded", "%s: remove of a key whose path was expanded gave a wrong result (status %x)", current_case().c_str(), st);
      }
    }
    m.tend(0); m.teardown();
    ++evals(); distinct().add(mix(c, n));
    if (c < 2) sample(current_case());
  }
  stat("expansions_provoked", expansions); stat("removes_after_expansion_ok", removed_ok);
  if (known) emit(fmt("@@KNOWN optiql-remove-after-expand remove aborts (assertion in Tree::remove) for a key whose path was expanded by repeated updates: %llu of %llu", (unsigned long long)known, (unsigned long long)expansions));
  finish();
  return 0;
}
int main(int argc, char** argv) {
  OqMap m;
  Args a(argc, argv);
  if (a.str("mode", "") == "expand") return expand_main(m, a);
  return map_main(m, argc, argv);
}
