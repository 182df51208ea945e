// Wormhole: the wormhole_*, whsafe_*, whunsafe_* and wh_* interfaces and the helpers for maps of 64-bit integers.
#include <atomic>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <thread>
#include <cstring>
#include <execinfo.h>
#include "lib.h"
#include "kv.h"
#include "wh.h"
#undef likely
#undef unlikely
#include "driver.h"
using namespace vf;
extern "C" unsigned sleep(unsigned) {      // the library waits for a debugger when one of its own assertions fails
  void* bt[20]; int k = backtrace(bt, 20); backtrace_symbols_fd(bt, k, 1);
  viol("assertion", "%s: an internal assertion of the library failed", current_case().c_str());
  abort();
}
static std::vector<std::string> g_keys;
static std::vector<u64> g_ints;
static std::atomic<long> g_live;
static std::atomic<u64> g_merges, g_inplace, g_cleans, g_skips;
static bool g_nopad;
static size_t pad_of(u64 v) { if (g_nopad) return 0; return (v * 2654435761u >> 7) % 3 ? v % 9 : v % 70; }
static u8 pat(u64 v, size_t i) { return (u8)(v * 31 + i * 7 + 1); }
static void fill_value(u8* p, u64 v, size_t pad) { memcpy(p, &v, 8); for (size_t i = 0; i < pad; ++i) p[8 + i] = pat(v, i); }
static u64 read_value(const u8* p, size_t len, const char* what) {
  if (len < 8) viol("bad-value", "%s: a value of %zu bytes that was never stored", what, len);
  u64 v; memcpy(&v, p, 8);
  for (size_t i = 0; i + 8 < len; ++i) if (p[8 + i] != pat(v, i)) viol("bad-value", "%s: value %llx has a wrong byte %zu of %zu: torn or freed", what, (unsigned long long)v, i + 8, len);
  return v;
}
static u32 crc(const std::string& k) { return kv_crc32c(k.data(), k.size()); }
static u64 check_kv(const struct kv* kv, u32 id, const char* what) {
  const std::string& k = g_keys[id];
  if (kv->klen != k.size() || memcmp(kv_kptr_c(kv), k.data(), k.size())) viol("wrong-key", "%s of key %s delivers the entry of key %s", what, hex(k, 200).c_str(), hex(std::string((const char*)kv_kptr_c(kv), std::min<u32>(kv->klen, 200)), 200).c_str());
  if (kv->hashlo != crc(k) || kv->hash != kv_crc32c_extend(crc(k))) viol("wrong-hash", "%s of key %s delivers an entry with a wrong hash", what, hex(k, 200).c_str());
  return read_value((const u8*)kv_vptr_c(kv), kv->vlen, what);
}
static struct kv* mm_in(struct kv* kv, void*) {
  struct kv* n = kv_dup(kv);
  if (n) g_live++;
  return n;
}
static void mm_free(struct kv* kv, void*) {
  g_live--;
  memset(kv, 0xdd, kv_size(kv));
  free(kv);
}
static const struct kvmap_mm g_mm = {mm_in, kvmap_mm_out_dup, mm_free, nullptr};

enum Api { SAFE, PLAIN, UNSAFE, UNSAFE_ON_SAFE, WH, KV64, KV64_UNSAFE, NAPI };
static const char* api_name[] = {"whsafe", "wormhole", "whunsafe", "whunsafe on a shared map", "wh", "kv64 whsafe", "kv64 whunsafe"};
struct Ref { void* ref = nullptr; bool active = false; };
struct WhMap : Map {
  bool conc;
  Api api = SAFE;
  const struct kvmap_api* tab = nullptr;
  void* map = nullptr;
  bool own_mm = false;
  std::vector<Ref> refs;
  static inline thread_local Ref* me;
  static inline thread_local u64 cnt;
  explicit WhMap(bool c) : conc(c) {
    kinds = {LOOKUP, LOOKUP, PROBE, INSERT, UPSERT, UPSERT_OLD, UPDATE_OLD, REMOVE, REMOVE};
    max_value = 1ull << 40; ndists = INT_DISTS + STR_DISTS; has_scan = true; has_ranges = true; max_keys = 60000;
  }
  int api_only = -1;
  bool many = false;         // many short executions: the map is used again
  size_t setup(Rng& r, int dist, size_t n, int T) override {
    bool ints = dist < INT_DISTS;
    Api was = api;
    bool keep = map && many && !r.chance(1, 20);
    if (!keep) api = api_only >= 0 ? (Api)api_only : conc ? std::vector<Api>{SAFE, SAFE, PLAIN, PLAIN, WH, KV64}[r() % 6] : (Api)(r() % NAPI);
    if (!ints && (api == KV64 || api == KV64_UNSAFE)) api = api == KV64 ? SAFE : UNSAFE;
    g_nopad = api == KV64 || api == KV64_UNSAFE;
    g_keys.clear(); g_ints.clear();
    if (ints) { g_ints = int_keys(r, dist, n); for (auto k : g_ints) g_keys.push_back(be64(k)); }
    else {
      g_keys = str_keys(r, dist - INT_DISTS, n, 0, false);
      if (r.chance(1, 8)) { std::string pre(r.chance(1, 2) ? r() % 30 : r() % 3000, r.chance(1, 2) ? 0 : 'p'); for (auto& k : g_keys) k = pre + k; }
      if (r.chance(1, 8)) for (auto& k : g_keys) k += std::string(r() % 3, 0);
      if (r.chance(1, 3)) g_keys[0] = "";
      std::sort(g_keys.begin(), g_keys.end());
      g_keys.erase(std::unique(g_keys.begin(), g_keys.end()), g_keys.end());
    }
    if (map && !keep && (was != api || r.chance(1, 2))) destroy();
    if (map && keep && !r.chance(1, 30)) {       // emptied by removing everything
      struct wormref* f = whsafe_ref((struct wormhole*)map);
      struct kref z; kref_ref_hash32(&z, nullptr, 0);
      whsafe_delr(f, &z, nullptr);
      wormhole_unref(f);
      if (own_mm && g_live) viol("entry-leak", "%ld entries are left after all were removed", g_live.load());
    } else if (map) { wormhole_clean((struct wormhole*)map); g_cleans++; if (own_mm && g_live) viol("entry-leak", "%ld entries are left after the map was cleaned", g_live.load()); }
    else {
      own_mm = api != WH;
      if (api == WH) { map = wh_create(); tab = &kvmap_api_whsafe; }
      else if (api == UNSAFE || api == KV64_UNSAFE) { map = whunsafe_create(&g_mm); tab = &kvmap_api_whunsafe; }
      else { map = wormhole_create(&g_mm); tab = api == PLAIN ? &kvmap_api_wormhole : api == UNSAFE_ON_SAFE ? &kvmap_api_whunsafe : &kvmap_api_whsafe; }
      if (!map) viol("no-map", "a map could not be created");
    }
    refs.assign(std::max(T, 1) + 1, Ref());
    for (auto& f : refs) {
      f.ref = api == WH ? (void*)wh_ref((struct wormhole*)map) : kvmap_ref(tab, map);
      if (!f.ref) viol("no-ref", "a reference to the map could not be created");
      if (api == PLAIN) wormhole_park((struct wormref*)f.ref);
    }
    return g_keys.size();
  }
  void destroy() {
    if (!map) return;
    if (api_was_wh) wh_destroy((struct wormhole*)map); else tab->destroy(map);
    map = nullptr;
    if (own_mm && g_live) viol("entry-leak", "%ld entries are left after the map was destroyed", g_live.load());
  }
  bool api_was_wh = false;
  void teardown() override {
    for (auto& f : refs) { if (f.active) viol("harness", "active reference"); if (api == WH) wh_unref((struct wormref*)f.ref); else kvmap_unref(tab, f.ref); }
    refs.clear();
    api_was_wh = api == WH;
  }
  void tstart(int t) override { me = &refs[t % refs.size()]; }
  void tend(int) override { if (me && me->active) { wormhole_park((struct wormref*)me->ref); me->active = false; } }
  void* ref() {
    if (api == PLAIN && !me->active) { wormhole_resume((struct wormref*)me->ref); me->active = true; }
    return me->ref;
  }
  struct Merge { u32 id; u64 arg, old; Kind kind; int style; struct kv* owned; int calls; };
  static struct kv* new_kv(const std::string& k, u64 v) {
    u8 val[100]; size_t pad = pad_of(v);
    fill_value(val, v, pad);
    return kv_create(k.data(), k.size(), val, 8 + pad);
  }
  static struct kv* merge_cb(struct kv* kv0, void* priv) {
    Merge* m = (Merge*)priv;
    if (m->calls++) viol("merge-calls", "the merge function was called twice");
    m->old = kv0 ? check_kv(kv0, m->id, "merge") : 0;
    bool write = m->kind == UPSERT_OLD || (m->kind == INSERT && !kv0) || (m->kind == UPDATE_OLD && kv0);
    if (!write) return m->style & 1 ? kv0 : nullptr;
    if (kv0 && (m->style & 2) && kv0->vlen >= 8) {      // in place
      u8* p = (u8*)kv_vptr(kv0);
      fill_value(p, m->arg, kv0->vlen - 8);
      return m->style & 1 ? kv0 : nullptr;
    }
    return m->owned = new_kv(g_keys[m->id], m->arg);
  }
  struct Inp { u32 id; u64 arg, old; int calls; };
  static void inpr_cb(struct kv* kv, void* priv) { Inp* i = (Inp*)priv; i->calls++; i->old = kv ? check_kv(kv, i->id, "in-place read") : 0; }
  static void inpw_cb(struct kv* kv, void* priv) {
    Inp* i = (Inp*)priv; i->calls++;
    i->old = kv ? check_kv(kv, i->id, "in-place write") : 0;
    if (kv) fill_value((u8*)kv_vptr(kv), i->arg, kv->vlen - 8);
  }
  u64 op(int tid, Kind k, u32 id, u64 arg) override {
    void* f = ref();
    const std::string& key = g_keys[id];
    struct wormref* wr = (struct wormref*)f;
    ++cnt;
    u64 h = mix(cnt, id);
    std::unique_ptr<char[]> exact(new char[key.size()]);     // overreads of keys are seen by AddressSanitizer
    memcpy(exact.get(), key.data(), key.size());
    const char* kp = exact.get(); u32 kl = key.size();
    struct kref kr; kref_ref_hash32(&kr, (const u8*)kp, kl);
    bool wh = api == WH, i64 = (api == KV64 || api == KV64_UNSAFE) && (k == LOOKUP || k == PROBE || k == UPSERT || k == REMOVE);
    switch (k) {
      case LOOKUP: {
        if (i64) { u64 v = 0; return kvmap_kv64_get(tab, f, g_ints[id], &v) ? v : 0; }
        if (h % 3 == 0) {
          Inp i{id, 0, 0, 0};
          bool hit = wh ? wh_inpr(wr, kp, kl, inpr_cb, &i) : h % 2 ? tab->inpr(f, &kr, inpr_cb, &i) : kvmap_raw_inpr(tab, f, kl, (const u8*)kp, inpr_cb, &i);
          if (i.calls != 1 || hit != (i.old != 0)) viol("inp-result", "in-place read of a key %s called the function %d times and returned %d", i.old ? "that is present" : "that is absent", i.calls, hit);
          return i.old;
        }
        if (wh) {
          u8 buf[128]; u32 vl = 0, size = h % 5 == 1 ? 8 : 128;
          memset(buf, 0xee, sizeof buf);
          if (!wh_get(wr, kp, kl, buf, size, &vl)) return 0;
          for (u32 i = std::min(vl, size); i < sizeof buf; ++i) if (buf[i] != 0xee) viol("get-overrun", "wh_get wrote beyond the value or the buffer");
          return read_value(buf, std::min(vl, size), "get");
        }
        if (h % 3 == 1) {
          std::unique_ptr<u64[]> out(new u64[(sizeof(struct kv) + kl + 80 + 15) / 8]);
          struct kv* o = h % 2 ? tab->get(f, &kr, (struct kv*)out.get()) : kvmap_raw_get(tab, f, kl, (const u8*)kp, (struct kv*)out.get());
          if (o && o != (struct kv*)out.get()) viol("get-buffer", "get with a buffer returned another one");
          return o ? check_kv(o, id, "get") : 0;
        }
        struct kv* o = tab->get(f, &kr, nullptr);
        if (!o) return 0;
        u64 v = check_kv(o, id, "get");
        free(o);
        return v;
      }
      case PROBE: return wh ? wh_probe(wr, kp, kl) : i64 ? kvmap_kv64_probe(tab, f, g_ints[id]) : h % 2 ? tab->probe(f, &kr) : kvmap_raw_probe(tab, f, kl, (const u8*)kp);
      case UPSERT: {
        if (i64) { if (!kvmap_kv64_put(tab, f, g_ints[id], arg)) viol("put-refused", "put failed"); return 0; }
        u8 val[100]; size_t pad = pad_of(arg);
        fill_value(val, arg, pad);
        if (wh) { if (!wh_put(wr, kp, kl, val, 8 + pad)) viol("put-refused", "put failed"); return 0; }
        struct kv* kv = kv_create(kp, kl, val, 8 + pad);
        if (!(h % 2 ? tab->put(f, kv) : kvmap_kv_put(tab, f, kv))) viol("put-refused", "put failed");
        memset(kv, 0xcc, kv_size(kv));
        free(kv);
        return 0;
      }
      case INSERT: case UPSERT_OLD: case UPDATE_OLD: {
        if (k == UPDATE_OLD && h % 3 == 0) {
          Inp i{id, arg, 0, 0};
          bool hit = wh ? wh_inpw(wr, kp, kl, inpw_cb, &i) : h % 2 ? tab->inpw(f, &kr, inpw_cb, &i) : kvmap_raw_inpw(tab, f, kl, (const u8*)kp, inpw_cb, &i);
          if (i.calls != 1 || hit != (i.old != 0)) viol("inp-result", "in-place write called the function %d times and returned %d", i.calls, hit);
          g_inplace.fetch_add(1, std::memory_order_relaxed);
          return i.old;
        }
        Merge m{id, arg, 0, k, (int)(h >> 8 & 3), nullptr, 0};
        bool ok = wh ? wh_merge(wr, kp, kl, merge_cb, &m) : tab->merge(f, &kr, merge_cb, &m);
        if (!ok) viol("merge-refused", "merge failed");
        if (m.calls != 1) viol("merge-calls", "the merge function was called %d times", m.calls);
        if (m.owned && !wh) free(m.owned);
        g_merges.fetch_add(1, std::memory_order_relaxed);
        return k == INSERT ? m.old == 0 : m.old;
      }
      case REMOVE: return wh ? wh_del(wr, kp, kl) : i64 ? kvmap_kv64_del(tab, f, g_ints[id]) : h % 2 ? tab->del(f, &kr) : kvmap_raw_del(tab, f, kl, (const u8*)kp);
      default: abort();
    }
  }
  static int find_id(const void* p, size_t len) {
    std::string s((const char*)p, len);
    auto it = std::lower_bound(g_keys.begin(), g_keys.end(), s);
    if (it == g_keys.end() || *it != s) viol("scan-alien", "an iterator delivers key %s, which was never stored", hex(s, 200).c_str());
    return it - g_keys.begin();
  }
  struct ItInp { bool any; int id; u64 val; };
  static void iter_cb(struct kv* kv, void* priv) { ItInp* i = (ItInp*)priv; if (!kv) return; i->any = true; i->id = find_id(kv_kptr_c(kv), kv->klen); i->val = check_kv(kv, i->id, "iterator"); }
  void seek(void* it, u32 id, u64 h) {
    const std::string& k = g_keys[id];
    if (api == WH) wh_iter_seek((struct wormhole_iter*)it, k.data(), k.size());
    else if (api == KV64 || api == KV64_UNSAFE) kvmap_kv64_iter_seek(tab, it, g_ints[id]);
    else if (h % 2) kvmap_raw_iter_seek(tab, it, k.size(), (const u8*)k.data());
    else { struct kref kr; kref_ref_hash32(&kr, (const u8*)k.data(), k.size()); tab->iter_seek(it, &kr); }
  }
  bool current(void* it, int& id, u64& val, u64 h) {
    bool valid = tab->iter_valid(it);
    if (api == KV64 || api == KV64_UNSAFE) {
      u64 k;
      if (!kvmap_kv64_iter_peek(tab, it, &k, &val)) { if (valid) viol("iter-valid", "a valid iterator has no entry"); return false; }
      std::string s = be64(k); id = find_id(s.data(), 8);
      return true;
    }
    bool got = false;
    if (api == WH && h % 2) {
      std::vector<u8> kb(g_keys.back().size() > 4000 ? 70000 : 4096); u8 vb[128]; u32 kl = 0, vl = 0;
      got = wh_iter_peek((struct wormhole_iter*)it, kb.data(), kb.size(), &kl, vb, sizeof vb, &vl);
      if (got) { id = find_id(kb.data(), kl); val = read_value(vb, vl, "iterator"); }
    } else switch (h / 2 % 5) {
      case 0: { ItInp i{false, -1, 0}; got = tab->iter_inp(it, iter_cb, &i); if (got != i.any) viol("iter-inp", "iter_inp returned %d", got); id = i.id; val = i.val; break; }
      case 1: { struct kv* o = tab->iter_peek(it, nullptr); got = o; if (o) { id = find_id(kv_kptr_c(o), o->klen); val = check_kv(o, id, "iterator"); free(o); } break; }
      case 2: { struct kvref r; got = tab->iter_kvref(it, &r); if (got) { id = find_id(r.kptr, r.hdr.klen); val = read_value(r.vptr, r.hdr.vlen, "iterator"); } break; }
      case 3: { struct kv* o = wormhole_iter_kv((struct wormhole_iter*)it); got = o; if (o) { id = find_id(kv_kptr_c(o), o->klen); val = check_kv(o, id, "iterator"); } break; }
      default: {
        struct kref r; got = tab->iter_kref(it, &r);
        if (got) { id = find_id(r.ptr, r.len); ItInp i{false, -1, 0}; tab->iter_inp(it, iter_cb, &i); val = i.val; if (i.id != id) viol("iter-key", "iter_kref and iter_inp disagree"); }
      }
    }
    if (got != valid) viol("iter-valid", "iter_valid is %d but the iterator %s an entry", valid, got ? "has" : "has not");
    return got;
  }
  void skip1(void* it) { if (api == WH) wh_iter_skip1((struct wormhole_iter*)it); else tab->iter_skip1(it); }
  bool scan(int tid, const ScanReq& q, std::vector<std::pair<u32, u64>>& out) override {
    if (!q.limit) return false;
    void* f = ref();
    ++cnt;
    u64 h = mix(cnt, q.from * 77 + q.limit);
    void* it = api == WH ? (void*)wh_iter_create((struct wormref*)f) : tab->iter_create(f);
    if (!it) viol("no-iter", "an iterator could not be created");
    if (h % 7 == 0) { seek(it, h % g_keys.size(), h); if (h % 3) skip1(it); }     // seeking again releases what it held
    seek(it, q.from, h);
    int id = -1; u64 v = 0;
    bool ok = current(it, id, v, h);
    if (ok && !q.incl && id == (int)q.from) { skip1(it); ok = current(it, id, v, h); }
    while (ok && (u32)id < q.to && out.size() < q.limit) {
      out.push_back({(u32)id, v});
      if (out.size() >= q.limit) break;
      if (h % 5 == 0 && api != WH && api != KV64 && api != KV64_UNSAFE) {     // peek and move on in one call
        struct kv* o = tab->iter_next(it, nullptr);
        if (!o || find_id(kv_kptr_c(o), o->klen) != id) viol("iter-next", "iter_next does not return the entry under the iterator");
        free(o);
      } else skip1(it);
      ok = current(it, id, v, mix(h, out.size()));
    }
    if (!conc && out.size() > 1 && q.incl) {      // skipping k entries is k times skipping one
      size_t k = h % (out.size() + 2);
      seek(it, q.from, h >> 3);
      if (api == WH) wh_iter_skip((struct wormhole_iter*)it, k); else tab->iter_skip(it, k);
      int id2 = -1; u64 v2 = 0;
      bool got = current(it, id2, v2, h >> 4);
      g_skips++;
      if (k < out.size() && (!got || id2 != (int)out[k].first || v2 != out[k].second))
        viol("iter-skip", "skipping %zu entries from #%u leads to %s, not to #%u", k, q.from, got ? fmt("#%d", id2).c_str() : "the end", out[k].first);
      if (h % 3 == 0) {    // beyond the end
        if (api == WH) wh_iter_skip((struct wormhole_iter*)it, g_keys.size() + 5); else tab->iter_skip(it, g_keys.size() + 5);
        if (tab->iter_valid(it)) viol("iter-skip", "an iterator is valid after skipping more entries than there are");
        skip1(it);
        if (current(it, id2, v2, h)) viol("iter-end", "an iterator at the end delivers an entry");
      }
    }
    if (h % 2 && tab->iter_park && api != UNSAFE && api != KV64_UNSAFE && api != UNSAFE_ON_SAFE) {
      if (api == WH) wh_iter_park((struct wormhole_iter*)it); else tab->iter_park(it);
      if (tab->iter_valid(it)) viol("iter-park", "a parked iterator is valid");
    }
    if (api == WH) wh_iter_destroy((struct wormhole_iter*)it); else tab->iter_destroy(it);
    return true;
  }
  bool range_remove(int tid, u32 a, u32 b, u64& count) override {
    void* f = ref();
    const std::string& s = g_keys[a];
    if (b >= g_keys.size()) {
      if (api == WH) return false;
      struct kref ks; kref_ref_hash32(&ks, (const u8*)s.data(), s.size());
      count = tab->delr(f, &ks, nullptr);
      return true;
    }
    const std::string& e = g_keys[b];
    if (api == WH) { count = wh_delr((struct wormref*)f, s.data(), s.size(), e.data(), e.size()); return true; }
    struct kref ks, ke; kref_ref_hash32(&ks, (const u8*)s.data(), s.size()); kref_ref_hash32(&ke, (const u8*)e.data(), e.size());
    count = tab->delr(f, &ks, &ke);
    return true;
  }
  std::string key_text(u32 id) override { return id < g_keys.size() ? hex(g_keys[id], 120) : "end"; }
  std::string config_text() override { return api_name[api]; }
  void report() override {
    destroy();
    stat("merges", g_merges); stat("in_place_writes", g_inplace); stat("maps_cleaned", g_cleans); stat("skips_checked", g_skips); perturb_stats();
  }
};
int main(int argc, char** argv) {
  Args a(argc, argv);
  WhMap m(a.str("mode", "seq") != "seq");
  m.many = a.str("mode", "seq") == "preempt" || a.str("mode", "seq") == "sched";
  m.api_only = (int)a.num("api", (u64)-1);
  return map_main(m, argc, argv);
}
