// P17: MassTree's row formats (bag, array, versioned array, string) behind query<R>: put, replace, remove, get, scans,
// checkpoint form; against a model (mode=seq) and with concurrent readers (mode=conc).
#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <mutex>
#define private public
#include "kvthread.hh"
#undef private
#include "masstree.hh"
#include "masstree_struct.hh"
#include "masstree_insert.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include "masstree_get.hh"
#include "query_masstree.hh"
#include "kvrow.hh"
#include "value_array.hh"
#include "value_versioned_array.hh"
#include "value_string.hh"
#include "msgpack.hh"
#include "common.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
extern "C" void vf_perturb_thread(unsigned long seed, unsigned mask, unsigned tid);
extern "C" void vf_perturb_stall(unsigned us);
extern "C" unsigned long vf_perturb_delays();
using namespace vf;
using lcdf::Json;
using lcdf::StringAccum;
typedef std::string S;
typedef std::vector<S> Cols;
volatile mrcu_epoch_type globalepoch = 1;
volatile mrcu_epoch_type active_epoch = 1;
kvepoch_t global_log_epoch, global_wake_epoch;
static std::mutex g_epoch_mutex;
static void epoch_step() {
  if (!g_epoch_mutex.try_lock()) return;
  globalepoch = globalepoch + 2;
  active_epoch = threadinfo::min_active_epoch();
  g_epoch_mutex.unlock();
}
static std::vector<threadinfo*> g_tis;
static void drain(threadinfo& ti) {
#if ENABLE_ASSERTIONS
  for (auto& p : ti.pool_) while (p) { void* n = *(void**)p; free(p); p = n; }
#else
  (void)ti;
#endif
}
static u64 pending() {
  u64 n = 0;
  for (auto ti : g_tis) for (auto g = ti->limbo_head_; g; g = g->next_) n += g->tail_ - g->head_;
  return n;
}
static void quiesce_all() {
  for (int i = 0; i < 8 || (i < 400 && pending()); ++i) {
    epoch_step();
    for (auto ti : g_tis) { int guard = 0; do { ti->rcu_quiesce(); } while (ti->perform_gc_epoch_ != active_epoch && ++guard < 100000); ti->rcu_stop(); drain(*ti); }
  }
}
static std::atomic<u64> n_put, n_replace, n_remove, n_get, n_scan, n_rows, n_ckp, n_colsread, n_held;
static S sv(const lcdf::String& x) { return S(x.data(), x.length()); }
static lcdf::Str tostr(const S& s) { return lcdf::Str(s.data(), (int)s.size()); }
// the tree reads whole words around a key, so keys have padding on both sides
static lcdf::Str tokey(const S& s) { static thread_local char ring[16][640]; static thread_local unsigned at; char* p = ring[at++ % 16]; memset(p, 0, 8); memcpy(p + 8, s.data(), s.size()); memset(p + 8 + s.size(), 0, 16); return lcdf::Str(p + 8, (int)s.size()); }
static lcdf::String tokeystr(const S& s) { S x = S(8, 0) + s + S(16, 0); lcdf::String y(x.data(), (int)x.size()); return y.fast_substring(y.begin() + 8, y.begin() + 8 + s.size()); }
static S clip(const S& s) { return hex(s, 40); }
// a column that is empty or beyond the row may be null in an answer
static bool is_col(const Json& j, const S& want) { return j.is_s() ? sv(j.as_s()) == want : j.is_null() && want.empty(); }

struct Change { unsigned idx; S val; };
// ------------------------------------------------ models
struct ColModel {        // bag, array, versioned array
  static constexpr bool str = false;
  Cols c;
  void put(const std::vector<Change>& ch) { for (auto& x : ch) { if (c.size() <= x.idx) c.resize(x.idx + 1); c[x.idx] = x.val; } }
  void replace(const S& v) { c.assign(1, v); }
  int ncol() const { return (int)c.size(); }
  S col(unsigned i) const { return i < c.size() ? c[i] : S(); }
  size_t bytes() const { size_t n = 0; for (auto& x : c) n += x.size() + 4; return n; }
};
struct StrModel {
  static constexpr bool str = true;
  S s;
  void put(const std::vector<Change>& ch) {
    for (auto& x : ch) if (x.idx == 0) s.resize(x.val.size());   // the value as a whole is replaced
    for (auto& x : ch) { unsigned off = x.idx & 0xFFFF; if (s.size() < off + x.val.size()) s.resize(off + x.val.size()); memcpy(&s[0] + off, x.val.data(), x.val.size()); }
  }
  void replace(const S& v) { s = v; }
  int ncol() const { return 1; }
  S col(unsigned i) const { if (!i) return s; unsigned off = std::min((unsigned)s.size(), i & 0xFFFF); return s.substr(off, i >> 16); }
  size_t bytes() const { return s.size(); }
};
template <typename R> struct ModelOf { typedef ColModel type; };
template <> struct ModelOf<value_string> { typedef StrModel type; };

template <typename R>
struct Sys {
  struct P : Masstree::nodeparams<15, 15> { typedef R* value_type; typedef ::threadinfo threadinfo_type; };
  typedef typename ModelOf<R>::type M;
  typedef Masstree::basic_table<P> Table;
  static query<R>& q() { static query<R> x; return x; }
  Table t;
  std::map<S, M> m;
  std::map<S, kvtimestamp_t> stamp;
  std::vector<S> keys;
  S log;
  threadinfo& ti() { return *g_tis[r->below(conc ? 1 : g_tis.size())]; }
  Rng* r;
  bool conc = false;
  int maxcol;
  size_t maxlen;

  S value(Rng& r) {
    size_t n = r.chance(1, 6) ? 0 : r.chance(1, 12) ? r.below(maxlen) : r.below(24);
    S v(n, 0);
    u64 x = r();
    for (auto& c : v) { c = (char)(x >> 56); x = x * 6364136223846793005ull + 1442695040888963407ull; }
    return v;
  }
  std::vector<Change> change(Rng& r, const M* old) {
    std::vector<Change> ch;
    if (M::str) {
      int n = r.chance(2, 3) ? 1 : 1 + r.below(4);
      for (int i = 0; i < n; ++i) {
        S v = value(r);
        unsigned off = r.chance(1, 3) ? 0 : r.below(std::max<size_t>(8, old ? old->bytes() + 12 : 20)) & 0xFFFF;
        unsigned len = r.chance(3, 4) ? (unsigned)v.size() : r.below(30);
        if (len > 0xFFFF) len = 0xFFFF;
        ch.push_back({value_string::make_index(off, r.chance(1, 5) && !off ? 0 : len), v});
      }
    } else {
      unsigned c = r.chance(1, 3) ? 0 : r.below(maxcol);
      for (int i = 0; i < 1 + (int)r.below(5) * (int)r.below(3); ++i) {
        ch.push_back({c, value(r)});
        // a value of unchanged length is replaced in another way
        if (old && r.chance(1, 3)) { S o = old->col(c); if (o.size() < 300) { ch.back().val.resize(o.size(), 'z'); } }
        c += 1 + (r.chance(1, 2) ? 0 : r.below(6));
      }
    }
    return ch;
  }
  static S text(const std::vector<Change>& ch) { S s; for (auto& c : ch) s += fmt(" %x=%s", c.idx, clip(c.val).c_str()); return s; }
  void begin(threadinfo& ti) { ti.rcu_start(); }
  void end(threadinfo& ti) { ti.rcu_stop(); drain(ti); if (r->chance(1, 4)) epoch_step(); }
  std::vector<unsigned> fields(Rng& r, const M* m) {
    std::vector<unsigned> f;
    if (r.chance(1, 2)) return f;
    int n = r.chance(1, 2) ? 1 : 1 + r.below(5);
    for (int i = 0; i < n; ++i)
      f.push_back(M::str ? (r.chance(1, 4) ? 0u : value_string::make_index(r.below(40), r.below(40))) : r.below((m ? m->ncol() : 3) + (r.chance(1, 3) ? 4 : 0) + 1));
    return f;
  }
  void check_stamp(const S& k) {
    typename Table::unlocked_cursor_type lp(t, tokey(k));
    if (!lp.find_unlocked(*g_tis[0])) viol("lost", "%s: key %s is not found right after it was written", log.c_str(), clip(k).c_str());
    kvtimestamp_t now = lp.value()->timestamp();
    if (row_is_marker(lp.value())) viol("marker", "%s: a live row has a marker's timestamp", log.c_str());
    if (stamp.count(k) && now <= stamp[k]) viol("stamp", "%s: the timestamp of key %s went from %llu to %llu: recovery takes the row for older than the change", log.c_str(), clip(k).c_str(), (unsigned long long)stamp[k], (unsigned long long)now);
    stamp[k] = now;
    if (now != q().query_times().ts) viol("stamp-log", "%s: row stamped %llu but the change was logged with %llu", log.c_str(), (unsigned long long)now, (unsigned long long)q().query_times().ts);
  }
  S judge_whole(const Json& j, size_t first, const M& w) {
    if ((int)(j.size() - first) != w.ncol()) return fmt("%d columns instead of %d", int(j.size() - first), w.ncol());
    for (int i = 0; i < w.ncol(); ++i) {
      ++n_colsread;
      if (!is_col(j[first + i], w.col(i))) return fmt("column %d is %s instead of %s", i, clip(sv(j[first + i].to_s())).c_str(), clip(w.col(i)).c_str());
    }
    return "";
  }
  S judge(const Json& j, size_t first, const M& w, const std::vector<unsigned>& f) {
    if (f.empty()) return judge_whole(j, first, w);
    if (j.size() - first != f.size()) return fmt("%d columns instead of %zu", int(j.size() - first), f.size());
    for (size_t i = 0; i < f.size(); ++i) {
      ++n_colsread;
      if (!is_col(j[first + i], w.col(f[i]))) return fmt("column %x is %s instead of %s", f[i], clip(sv(j[first + i].to_s())).c_str(), clip(w.col(f[i])).c_str());
    }
    return "";
  }
  void op(Rng& r) {
    const S& k = keys[r.below(keys.size())];
    auto it = m.find(k);
    M* w = it == m.end() ? nullptr : &it->second;
    threadinfo& ti = this->ti();
    if (log.size() > 700) log.erase(0, log.find(";", log.size() - 350));
    begin(ti);
    // a reader that found the row before the change below keeps seeing the same columns
    const R* held = nullptr;
    M heldm;
    if (w && !std::is_same<R, value_versioned_array>::value && r.chance(1, 3)) {
      typename Table::unlocked_cursor_type lp(t, tokey(k));
      if (lp.find_unlocked(ti)) { held = lp.value(); heldm = *w; }
    }
    switch (r.below(16)) {
    case 0: case 1: case 2: case 3: case 4: {
      auto ch = change(r, w);
      log += "; put " + clip(k) + text(ch);
      std::vector<Json> req;
      for (auto& c : ch) { req.push_back(Json(c.idx)); req.push_back(Json(r.chance(1, 2) ? lcdf::String(tostr(c.val)) : lcdf::String::make_stable(c.val.data(), c.val.size()))); }
      result_t x = q().run_put(t, tokey(k), req.data(), req.data() + req.size(), ti);
      if (x != (w ? Updated : Inserted)) viol("put-result", "%s: put returned %d", log.c_str(), x);
      m[k].put(ch);
      ++n_put;
      check_stamp(k);
      break;
    }
    case 5: case 6: {
      S v = value(r);
      log += "; replace " + clip(k) + " " + clip(v);
      result_t x = q().run_replace(t, tokey(k), tostr(v), ti);
      if (x != (w ? Updated : Inserted)) viol("replace-result", "%s: replace returned %d", log.c_str(), x);
      m[k].replace(v);
      ++n_replace;
      check_stamp(k);
      break;
    }
    case 7: {
      log += "; remove " + clip(k);
      bool x = q().run_remove(t, tokey(k), ti);
      if (x != (w != nullptr)) viol("remove-result", "%s: remove returned %d", log.c_str(), x);
      if (w) { m.erase(k); if (stamp.count(k) && q().query_times().ts <= stamp[k]) viol("stamp", "%s: the removal is stamped %llu, the row %llu", log.c_str(), (unsigned long long)q().query_times().ts, (unsigned long long)stamp[k]); stamp[k] = q().query_times().ts; }
      ++n_remove;
      break;
    }
    case 8: {
      unsigned c = M::str ? 0 : r.below((w ? w->ncol() : 1) + 2);
      lcdf::Str v;
      bool x = q().run_get1(t, tokey(k), c, v, ti);
      if (x != (w != nullptr)) viol("get1-found", "%s: get1 of %s found=%d", log.c_str(), clip(k).c_str(), x);
      if (x && S(v.s, v.len) != w->col(c)) viol("get1", "%s: get1 of %s.%u is %s instead of %s", log.c_str(), clip(k).c_str(), c, clip(S(v.s, v.len)).c_str(), clip(w->col(c)).c_str());
      ++n_get;
      break;
    }
    case 9: case 10: case 11: case 12: {
      auto f = fields(r, w);
      Json j = Json::array(7, Cmd_Get, tokeystr(k));
      for (auto x : f) j.push_back(Json(x));
      q().run_get(t, j, ti);
      ++n_get;
      if (!w) { if (j.size() > 2) viol("get-absent", "%s: the answer for the absent key %s has a value: %s", log.c_str(), clip(k).c_str(), j.unparse().c_str()); }
      else { S e = judge(j, 2, *w, f); if (!e.empty()) viol("get", "%s: get of %s: %s", log.c_str(), clip(k).c_str(), e.c_str()); }
      break;
    }
    default: {
      bool rev = r.chance(1, 3);
      S from = r.chance(1, 4) ? S() : keys[r.below(keys.size())];
      if (rev && from.empty()) from = S(200, '\xff');
      if (r.chance(1, 4) && from.size() < 200) from += (char)r();
      int n = 1 + (r.chance(1, 3) ? r.below(60) : r.below(6));
      auto f = fields(r, nullptr);
      Json j = Json::array(7, Cmd_Scan, tokeystr(from), n);
      for (auto x : f) j.push_back(Json(x));
      if (rev) q().run_rscan(t, j, ti); else q().run_scan(t, j, ti);
      ++n_scan;
      std::vector<std::pair<S, M*>> want;
      if (!rev) for (auto i = m.lower_bound(from); i != m.end() && (int)want.size() < n; ++i) want.push_back({i->first, &i->second});
      else for (auto i = m.upper_bound(from); i != m.begin() && (int)want.size() < n;) { --i; want.push_back({i->first, &i->second}); }
      S head = fmt("%s; %sscan from %s for %d (%zu fields)", log.c_str(), rev ? "r" : "", clip(from).c_str(), n, f.size());
      if ((size_t)j.size() != 2 + 2 * want.size()) viol("scan-count", "%s: %d rows instead of %zu", head.c_str(), (j.size() - 2) / 2, want.size());
      for (size_t i = 0; i < want.size(); ++i) {
        if (sv(j[2 + 2 * i].as_s()) != want[i].first) viol("scan-key", "%s: key number %zu is %s instead of %s", head.c_str(), i, clip(sv(j[2 + 2 * i].as_s())).c_str(), clip(want[i].first).c_str());
        const Json& x = j[3 + 2 * i];
        M& w = *want[i].second;
        S e;
        if (f.size() == 1 || (f.empty() && w.ncol() == 1)) { S c = w.col(f.empty() ? 0 : f[0]); ++n_colsread; if (!is_col(x, c)) e = fmt("%s instead of %s", x.unparse().c_str(), clip(c).c_str()); }
        else if (!x.is_a()) e = "not an array";
        else e = judge(x, 0, w, f);
        if (!e.empty()) viol("scan", "%s: row of %s: %s", head.c_str(), clip(want[i].first).c_str(), e.c_str());
        ++n_rows;
      }
    }
    }
    if (held) {
      ++n_held;
      if (held->ncol() != heldm.ncol()) viol("held", "%s: the row held from before the change has %d columns instead of %d", log.c_str(), held->ncol(), heldm.ncol());
      for (int i = 0; i < heldm.ncol(); ++i) { auto c = held->col(i); if (S(c.s, c.len) != heldm.col(i)) viol("held", "%s: column %d of the row of %s held from before the change became %s instead of %s", log.c_str(), i, clip(k).c_str(), clip(S(c.s, c.len)).c_str(), clip(heldm.col(i)).c_str()); }
    }
    end(ti);
  }
  // the checkpoint form of each row makes an equal row
  void checkpoint() {
    threadinfo& ti = *g_tis[0];
    for (auto& p : m) {
      typename Table::unlocked_cursor_type lp(t, tokey(p.first));
      if (!lp.find_unlocked(ti)) viol("lost", "%s: key %s is lost", log.c_str(), clip(p.first).c_str());
      const R* row = lp.value();
      StringAccum sa;
      msgpack::unparser<StringAccum> up(sa);
      row->checkpoint_write(up);
      lcdf::String str = sa.take_string();
      msgpack::parser par(str);
      R* copy = R::checkpoint_read(par, row->timestamp(), ti);
      ++n_ckp;
      if (par.position() != str.end()) viol("ckp", "%s: reading the checkpoint form of %s stops %d bytes early", log.c_str(), clip(p.first).c_str(), int(str.end() - par.position()));
      if (copy->timestamp() != row->timestamp()) viol("ckp", "the checkpoint form changes the timestamp");
      if (copy->ncol() != p.second.ncol()) viol("ckp", "%s: the checkpoint form of %s has %d columns instead of %d", log.c_str(), clip(p.first).c_str(), copy->ncol(), p.second.ncol());
      for (int i = 0; i < p.second.ncol(); ++i) { auto c = copy->col(i); if (S(c.s, c.len) != p.second.col(i)) viol("ckp", "%s: column %d of the checkpoint form of %s is %s instead of %s", log.c_str(), i, clip(p.first).c_str(), clip(S(c.s, c.len)).c_str(), clip(p.second.col(i)).c_str()); }
      copy->deallocate(ti);
    }
  }
  u64 run_seq(Rng& rr) {
    r = &rr;
    t.initialize(*g_tis[0]);
    maxcol = rr.chance(1, 8) ? 300 : 1 + rr.below(30);
    maxlen = rr.chance(1, 6) ? 30000 : 200;
    size_t nk = 1 + rr.below(60);
    for (size_t i = 0; i < nk; ++i) { S k; int style = rr.below(3); if (style == 0) k = fmt("%u", rr.below(1000)); else if (style == 1) k = S(8 * rr.below(4), 'p') + fmt("%u", rr.below(50)); else for (int n = rr.below(24); n > 0; --n) k += (char)(rr.chance(1, 2) ? rr() : 'a'); keys.push_back(k); }
    int nops = 30 + rr.below(400);
    log = "";
    u64 h = nops;
    for (int i = 0; i < nops; ++i) op(rr);
    checkpoint();
    for (auto& p : m) { h = mix(h, p.second.bytes()); h = mix(h, hash_bytes(p.first.data(), p.first.size())); }
    for (auto& p : std::map<S, M>(m)) { begin(*g_tis[0]); if (!q().run_remove(t, tokey(p.first), *g_tis[0])) viol("remove-result", "%s: key %s cannot be removed", log.c_str(), clip(p.first).c_str()); end(*g_tis[0]); }
    m.clear();
    quiesce_all();
    t.destroy(*g_tis[0]);
    quiesce_all();
    if (pending()) viol("never-reclaimed", "%llu retired objects stay", (unsigned long long)pending());
    return h;
  }
  // ---------------------------------------------- concurrent: every answer shows one whole write
  static S tagged(u64 tag, int col) { S v = fmt("%llx.", (unsigned long long)tag); v.resize(v.size() + (tag * 7 + col * 3) % 40, (char)('a' + col % 20)); return v; }
  void run_conc(Rng& rr, int T, int ops) {
    r = &rr;
    conc = true;
    t.initialize(*g_tis[0]);
    int nk = 1 + rr.below(rr.chance(1, 2) ? 3 : 40), nc = 2 + rr.below(10);
    for (int i = 0; i < nk; ++i) keys.push_back(fmt("%s%d", rr.chance(1, 3) ? "longer-prefix-" : "k", i));
    std::atomic<bool> stop{false};
    std::thread ticker([&] { while (!stop) { epoch_step(); usleep(100); } });
    std::atomic<u64> torn{0};
    std::mutex seen_mutex;
    std::vector<std::thread> th;
    u64 base = rr();
    for (int i = 0; i < T; ++i) th.emplace_back([&, i] {
      Rng q2(mix(base, i));
      threadinfo& ti = *g_tis[i + 1];
      query<R> qq;
      vf_perturb_thread(q2(), q2.chance(1, 2) ? 16383 : 4095, i);
      if (q2.chance(1, 5)) vf_perturb_stall(20 << q2() % 4);
      bool writer = i % 2 == 0 || q2.chance(1, 3);
      u64 seq = 0;
      std::set<u64> seen;
      auto parse = [&](const Json& j, size_t first, const std::vector<int>& cols, const S& k) {
        u64 tag = 0;
        for (size_t c = 0; c < cols.size(); ++c) {
          ++n_colsread;
          if (!j[first + c].is_s()) viol("conc-type", "get of %s: column %d is no string", k.c_str(), cols[c]);
          S v = sv(j[first + c].as_s());
          u64 x = strtoull(v.c_str(), nullptr, 16);
          if (v.find('.') == S::npos || v != tagged(x, cols[c])) viol("conc-value", "get of %s: column %d is %s, which nobody wrote there", k.c_str(), cols[c], clip(v).c_str());
          if (c && x != tag) viol("conc-torn", "get of %s: column %d is from write %llx, column %d from write %llx, although each write sets all columns", k.c_str(), cols[0], (unsigned long long)tag, cols[c], (unsigned long long)x);
          tag = x;
        }
        seen.insert(tag);
      };
      for (int n = 0; n < ops; ++n) {
        const S& k = keys[q2.below(keys.size())];
        ti.rcu_start();
        if (writer && q2.chance(3, 4)) {
          if (q2.chance(1, 10)) { qq.run_remove(t, tokey(k), ti); ++n_remove; }
          else {
            u64 tag = (u64)(i + 1) << 32 | ++seq;
            std::vector<Json> req;
            if (M::str) { S all; for (int c = 0; c < nc; ++c) all += tagged(tag, c) + "|"; qq.run_replace(t, tokey(k), tostr(all), ti); }
            else { for (int c = 0; c < nc; ++c) { req.push_back(Json(c)); req.push_back(Json(lcdf::String(tostr(tagged(tag, c))))); } qq.run_put(t, tokey(k), req.data(), req.data() + req.size(), ti); }
            ++n_put;
          }
        } else if (q2.chance(1, 5)) {
          Json j = Json::array(7, Cmd_Scan, tokeystr(k), 1 + (int)q2.below(5));
          if (q2.chance(1, 2)) qq.run_scan(t, j, ti); else qq.run_rscan(t, j, ti);
          ++n_scan;
          for (int x = 3; x < j.size(); x += 2) {
            ++n_rows;
            if (M::str) split(parse, j[x], nc, k); else { if (!j[x].is_a() || j[x].size() != nc) viol("conc-scan", "scan: a row of %d columns instead of %d", j[x].is_a() ? j[x].size() : -1, nc); parse(j[x], 0, all(nc), k); }
          }
        } else {
          Json j = Json::array(7, Cmd_Get, tokeystr(k));
          std::vector<int> f;
          if (!M::str && q2.chance(1, 2)) for (int n = 1 + q2.below(3); n > 0; --n) { f.push_back(q2.below(nc)); j.push_back(Json(f.back())); }
          qq.run_get(t, j, ti);
          ++n_get;
          if (j.size() > 2) {
            if (M::str) split(parse, j[2], nc, k);
            else { if (f.empty()) f = all(nc); if (j.size() != 2 + (int)f.size()) viol("conc-get", "get of %s: %d columns instead of %zu", k.c_str(), j.size() - 2, f.size()); parse(j, 2, f, k); }
          }
        }
        ti.rcu_stop();
        drain(ti);
      }
      vf_perturb_thread(1, 0, i);
      std::lock_guard<std::mutex> g(seen_mutex);
      for (u64 x : seen) distinct().add(mix(base, x));
    });
    for (auto& x : th) x.join();
    stop = true;
    ticker.join();
    conc = false;
    for (auto& k : keys) { begin(*g_tis[0]); q().run_remove(t, tokey(k), *g_tis[0]); end(*g_tis[0]); }
    quiesce_all();
    t.destroy(*g_tis[0]);
    quiesce_all();
  }
  static std::vector<int> all(int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
  template <typename F> static void split(F& parse, const Json& x, int nc, const S& k) {
    if (!x.is_s()) viol("conc-type", "get of %s: no string", k.c_str());
    S s = sv(x.as_s());
    Json j = Json::make_array();
    size_t p = 0;
    while (p < s.size()) { size_t e = s.find('|', p); if (e == S::npos) e = s.size(); j.push_back(lcdf::String(s.data() + p, e - p)); p = e + 1; }
    if (j.size() != nc) viol("conc-get", "get of %s: %s", k.c_str(), clip(s).c_str());
    parse(j, 0, all(nc), k);
  }
};
static size_t live() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
template <typename R> static void seq_case(Rng& r) {
  u64 base = r(), h = 0;
  long grown = 0;
  for (int again = 0; again < 3 && (again == 0 || grown > 0); ++again) {
    Rng q(base);
    long before = (long)live();
    { Sys<R> s; h = s.run_seq(q); }
    grown = (long)live() - before;
    if (again == 2 && grown > 0) viol("leak", "%ld bytes are still allocated after all rows were removed and reclaimed", grown);
  }
  distinct().add(mix(h, hash_bytes(R::name(), strlen(R::name()))));
  ++evals();
}
template <typename R> static void conc_case(Rng& r, int T, int ops) { Sys<R> s; s.run_conc(r, T, ops); ++evals(); }
int main(int argc, char** argv) {
  Args args(argc, argv);
  u64 seed = args.num("seed", 1);
  int cases = args.num("cases", 200), first = args.num("first", 0), T = args.num("threads", 6), ops = args.num("ops", 3000), only = args.num("row", -1);
  bool conc = args.num("conc", 0);
  for (int i = 0; i <= T; ++i) g_tis.push_back(threadinfo::make(i ? threadinfo::TI_PROCESS : threadinfo::TI_MAIN, i - 1));
#if ENABLE_ASSERTIONS
  threadinfo::no_pool_value = 1;
#endif
  start_watchdog();
  for (int c = first; c < first + cases; ++c) {
    Rng r(mix(seed, c));
    current_case() = fmt("seed=%llu first=%d cases=1", (unsigned long long)seed, c);
    progress();
    int kind = r.below(4);
    if (only >= 0) kind = only;
    switch (kind) {
    case 0: if (conc) conc_case<row_type>(r, T, ops); else seq_case<row_type>(r); break;
    case 1: if (conc) conc_case<value_array>(r, T, ops); else seq_case<value_array>(r); break;
    case 2: if (conc) conc_case<value_versioned_array>(r, T, ops); else seq_case<value_versioned_array>(r); break;
    default: if (conc) conc_case<value_string>(r, T, ops); else seq_case<value_string>(r); break;
    }
  }
  stat("puts", n_put); stat("replaces", n_replace); stat("removes", n_remove); stat("gets", n_get); stat("scans", n_scan);
  stat("scanned_rows", n_rows); stat("columns_compared", n_colsread); stat("checkpoint_rows", n_ckp); stat("old_rows_reread", n_held);
  stat("injected_delays", vf_perturb_delays());
  finish();
}
