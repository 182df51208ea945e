// Generic sequential (against a model) and concurrent (per-key linearizability) drivers for index adapters.
#pragma once
#include "common.h"
#include "keygen.h"
#include "lin.h"
namespace vf {
struct ScanReq { u32 from; bool incl; bool rev; u32 to; size_t limit; };  // ascending: ids in [from|from+1, to); descending: from down to `to` (inclusive)
struct Map {
  std::vector<Kind> kinds;          // operations offered
  u64 max_value = (1ull << 60);     // values are 1..max_value
  bool has_scan = false, has_rev = false, scan_concurrent = true;
  bool no_sleep = false;            // controlled schedules: prefer locks that spin
  bool scan_checked_as_lookups = true;  // each entry read by a concurrent scan is an atomic read
  int ndists = 1;
  size_t max_keys = 1u << 30;
  virtual ~Map() {}
  virtual size_t setup(Rng& r, int dist, size_t n, int threads) = 0;  // new empty map; number of keys, ids in key order
  virtual void teardown() {}
  virtual void tstart(int) {}
  virtual void tend(int) {}
  virtual u64 op(int tid, Kind k, u32 id, u64 arg) = 0;
  virtual bool scan(int tid, const ScanReq& q, std::vector<std::pair<u32, u64>>& out) { return false; }
  bool has_ranges = false;          // removal of key ranges
  virtual bool range_remove(int tid, u32 a, u32 b, u64& count) { return false; }   // ids in [a, b)
  virtual void check() {}           // structural self check, quiescent
  virtual void report() {}          // statistics at the end
  virtual std::string key_text(u32 id) { return ""; }
  virtual std::string config_text() { return ""; }
};
inline Map*& the_map() { static Map* m; return m; }

inline void cmp_scan(Map& m, const ScanReq& q, const std::set<u32>& present, const std::vector<u64>& val, size_t n,
                     const std::vector<std::pair<u32, u64>>& got, const char* where) {
  std::vector<u32> want;
  if (!q.rev) {
    auto it = q.incl ? present.lower_bound(q.from) : present.upper_bound(q.from);
    for (; it != present.end() && *it < q.to && want.size() < q.limit; ++it) want.push_back(*it);
  } else {
    auto it = q.incl ? present.upper_bound(q.from) : present.lower_bound(q.from);
    while (it != present.begin() && want.size() < q.limit) { --it; if (*it < q.to) break; want.push_back(*it); }
  }
  bool bad = want.size() != got.size();
  size_t i = 0;
  for (; i < want.size() && i < got.size(); ++i) if (want[i] != got[i].first || val[want[i]] != got[i].second) { bad = true; break; }
  if (bad) {
    auto kt = [&](u32 id) { return m.key_text(id); };
    viol("scan-mismatch", "%s: %sscan from #%u (%s, %s) to #%u limit %zu over %zu keys (%s): %zu entries expected, %zu returned; first difference at %zu: expected %s, got %s",
         where, q.rev ? "reverse " : "", q.from, kt(q.from < n ? q.from : 0).c_str(), q.incl ? "inclusive" : "exclusive", q.to, q.limit, present.size(), m.config_text().c_str(), want.size(), got.size(), i,
         i < want.size() ? fmt("#%u(%s)=%llx", want[i], kt(want[i]).c_str(), (unsigned long long)val[want[i]]).c_str() : "end",
         i < got.size() ? fmt("#%u(%s)=%llx", got[i].first, got[i].first < n ? kt(got[i].first).c_str() : "?", (unsigned long long)got[i].second).c_str() : "end");
  }
}

struct SeqParams { u64 seed, cases, ops; size_t maxkeys; int dist_only = -1; size_t nkeys_only = 0; };
inline void seq_drive(Map& m, const SeqParams& P, u64 first_case = 0) {
  the_map() = &m;
  u64 nops = 0, nscan = 0, nhit = 0, nranges = 0, nranged = 0;
  static const size_t sizes[] = {1, 2, 3, 6, 17, 40, 70, 130, 300, 700, 1500, 4000, 12000};
  for (u64 c = first_case; c < first_case + P.cases; ++c) {
    Rng r(P.seed * 1000003 + c);
    int dist = P.dist_only >= 0 ? P.dist_only : (int)(c % m.ndists);
    size_t n = sizes[r() % (sizeof sizes / sizeof *sizes)];
    if (r.chance(1, 2)) n = 1 + n / 2 + r() % n;
    n = std::min({n, P.maxkeys, m.max_keys});
    if (P.nkeys_only) n = P.nkeys_only;
    current_case() = fmt("seq seed=%llu case=%llu dist=%d keys=%zu", (unsigned long long)P.seed, (unsigned long long)c, dist, n);
    n = m.setup(r, dist, n, 1);
    current_case() += " " + m.config_text();
    m.tstart(0);
    std::vector<u64> val(n, 0);
    std::set<u32> present;
    u64 next = 1 + r() % 1000, h = mix(dist, n);
    std::string where = current_case();
    std::string trail;
    auto one = [&](Kind k, u32 id) {
      u64 arg = 0, before = val[id], s = before;
      if (k == REMOVE_IF || k == REMOVE_CAS) arg = r.chance(3, 4) && before ? before : next++;
      else if (is_write(k)) arg = (next++ % m.max_value) + 1;
      Op o; o.kind = k; o.key = id; o.arg = arg; o.tid = 0; o.inv = o.ret = 0;
      o.res = m.op(0, k, id, arg);
      ++nops;
      if ((nops & 63) == 0) progress();
      if (before) ++nhit;
      if (!apply(o, s))
        viol("model-mismatch", "%s: op %llu %s(#%u %s, arg %llx) returned %llx while the key %s %llx", where.c_str(), (unsigned long long)nops, kind_name[k], id,
             m.key_text(id).c_str(), (unsigned long long)arg, (unsigned long long)o.res, before ? "has value" : "is absent", (unsigned long long)before);
      if (s != before) { if (s) present.insert(id); else present.erase(id); val[id] = s; }
    };
    std::vector<std::pair<u32, u64>> out;
    auto do_scan = [&](ScanReq q) {
      out.clear();
      if (!m.scan(0, q, out)) return;
      ++nscan; progress();
      cmp_scan(m, q, present, val, n, out, where.c_str());
    };
    auto random_scan = [&] {
      ScanReq q;
      q.rev = m.has_rev && r.chance(1, 2);
      q.from = r() % n; q.incl = r.chance(2, 3);
      u32 b = r() % (n + 1);
      if (!q.rev) { q.to = r.chance(1, 2) ? n : std::max<u32>(q.from, b); }
      else q.to = r.chance(1, 2) ? 0 : std::min<u32>(q.from, b);
      q.limit = r.chance(1, 3) ? 1 + r() % 4 : r.chance(1, 2) ? 1 + r() % (n + 3) : n + 1;
      do_scan(q);
    };
    auto random_range = [&] {
      u32 a = r() % n, b = r.chance(1, 8) ? r() % (n + 1) : std::min<u64>(n, a + (r.chance(1, 8) ? r() % n : r() % 40));
      u64 cnt = 0, want = 0;
      if (!m.range_remove(0, a, b, cnt)) return;
      progress(); ++nranges;
      for (auto it = present.lower_bound(a); it != present.end() && *it < b;) { val[*it] = 0; it = present.erase(it); ++want; }
      nranged += want;
      if (want != cnt) viol("range-count", "%s: removing the range from #%u (%s) to #%u removed %llu entries, %llu were there", where.c_str(), a, m.key_text(a).c_str(), b, (unsigned long long)cnt, (unsigned long long)want);
      if (m.has_scan && r.chance(1, 3)) do_scan({(u32)(a < b ? a / 2 : b / 2), true, false, (u32)n, r.chance(1, 4) ? n + 1 : 200});
    };
    auto verify = [&] {
      for (u32 id = 0; id < n; ++id) {
        bool has_probe = std::count(m.kinds.begin(), m.kinds.end(), PROBE);
        one(LOOKUP, id);
        if (has_probe && r.chance(1, 4)) one(PROBE, id);
      }
      if (m.has_scan) { do_scan({0, true, false, (u32)n, n + 1}); if (m.has_rev) do_scan({(u32)n - 1, true, true, 0, n + 1}); }
      m.check();
    };
    // empty map
    if (r.chance(1, 2)) { one(LOOKUP, r() % n); if (m.has_scan) random_scan(); }
    u64 budget = std::min<u64>(P.ops, 40 + 6 * n);
    int phases = 2 + r() % 6;
    for (int ph = 0; ph < phases; ++ph) {
      int style = r() % 6;       // 0 grow, 1 shrink, 2 mixed, 3 read mostly, 4 churn window, 5 fill then drain
      int pat = r() % 5;         // uniform, ascending, descending, window, stride
      u32 pos = r() % n, stride = 1 + 2 * (r() % 40), win = 1 + r() % std::min<size_t>(n, 64), w0 = r() % n;
      std::vector<Kind> ins, rem, red;
      for (auto k : m.kinds) (k == LOOKUP || k == PROBE ? red : is_remove(k) ? rem : ins).push_back(k);
      u64 cnt = style == 5 ? n * 2 : 1 + budget / phases;
      if (ph == 0 && style == 1) style = 0;
      h = mix(h, style * 8 + pat);
      for (u64 i = 0; i < cnt; ++i) {
        u32 id;
        switch (pat) {
          case 0: id = r() % n; break;
          case 1: id = pos++ % n; break;
          case 2: id = (pos = (pos + n - 1) % n); break;
          case 3: id = (w0 + r() % win) % n; if (r.chance(1, 200)) w0 = r() % n; break;
          default: id = (pos = (pos + stride) % n);
        }
        unsigned pi, pr;         // insert-like, remove-like of 100
        switch (style) {
          case 0: pi = 75; pr = 5; break;
          case 1: pi = 5; pr = 80; break;
          case 2: pi = 40; pr = 30; break;
          case 3: pi = 8; pr = 6; break;
          case 4: pi = 45; pr = 45; break;
          default: pi = i < cnt / 2 ? 98 : 2; pr = i < cnt / 2 ? 0 : 96;
        }
        unsigned d = r() % 100;
        auto& set = d < pi || red.empty() ? ins : d < pi + pr && !rem.empty() ? rem : red;
        one(set[r() % set.size()], id);
        if (m.has_scan && r.chance(1, style == 3 ? 10 : 60)) random_scan();
        if (m.has_ranges && style != 3 && r.chance(1, style == 1 ? 60 : 400)) random_range();
      }
      if (ph + 1 == phases || r.chance(1, 3)) verify();
    }
    h = mix(h, present.size());
    m.tend(0);
    m.teardown();
    ++evals();
    if (n > 1) distinct().add(mix(h, nops));
    if (c < first_case + 3) sample(where + fmt(" phases=%d entries_at_end=%zu", phases, present.size()));
  }
  stat("model_checked_ops", nops); stat("ops_on_present_keys", nhit); stat("scans_checked", nscan);
  if (m.has_ranges) { stat("range_removals", nranges); stat("entries_removed_by_ranges", nranged); }
}

inline void log_range(u32 a, u32 b, u64 count, u64 inv, u64 ret, int t, std::vector<Op>& log, const std::string& where) {
  if (count > (b > a ? b - a : 0)) viol("range-count", "%s: removing the range from #%u to #%u removed %llu entries", where.c_str(), a, b, (unsigned long long)count);
  for (u32 k = a; k < b; ++k) log.push_back(Op{inv, ret, 0, 0, k, REMOVE_UNK, (u8)t});
}
inline void check_conc_scan(Map& m, const ScanReq& s, const std::vector<std::pair<u32, u64>>& out, size_t n, u64 inv, u64 ret, int t, std::vector<Op>& log, const std::string& where) {
  long prev = -1;
  for (size_t j = 0; j < out.size(); ++j) {
    long x = s.rev ? (long)n - 1 - out[j].first : out[j].first;
    if (out[j].first >= n) viol("scan-alien", "%s: scan returned a key that was never stored", where.c_str());
    if (j && x <= prev) viol("scan-order", "%s: concurrent scan returned #%u after #%u", where.c_str(), out[j].first, out[j - 1].first);
    if (!s.rev ? (out[j].first < s.from || (out[j].first == s.from && !s.incl) || out[j].first >= s.to)
               : (out[j].first > s.from || (out[j].first == s.from && !s.incl) || out[j].first < s.to))
      viol("scan-range", "%s: concurrent scan from #%u returned #%u outside its range", where.c_str(), s.from, out[j].first);
    prev = x;
  }
  if (out.size() > s.limit) viol("scan-limit", "%s: %zu entries for limit %zu", where.c_str(), out.size(), s.limit);
  if (m.scan_checked_as_lookups) {
    long a, b;  // ids covered
    if (!s.rev) { a = s.from + !s.incl; b = out.size() == s.limit ? out.back().first : (long)s.to - 1; }
    else { b = (long)s.from - !s.incl; a = out.size() == s.limit ? out.back().first : (long)s.to; }
    std::map<u32, u64> got(out.begin(), out.end());
    for (long k = a; k <= b && k < (long)n; ++k) {
      auto g = got.find(k);
      log.push_back(Op{inv, ret, 0, g == got.end() ? 0 : g->second, (u32)k, LOOKUP, (u8)t});
    }
  }
}

struct ConcParams { u64 seed, rounds, ops; int threads; size_t maxkeys; u32 mask = 1023; int dist_only = -1; };
inline void conc_drive(Map& m, const ConcParams& P, u64 first_round = 0) {
  the_map() = &m;
  LinStats ls;
  u64 nscan = 0, scanned = 0, nranges = 0;
  for (u64 c = first_round; c < first_round + P.rounds; ++c) {
    Rng r(P.seed * 7368787 + c);
    int dist = P.dist_only >= 0 ? P.dist_only : (int)(r() % m.ndists);
    static const size_t sizes[] = {3, 12, 40, 120, 400, 1200};
    size_t n = std::min({sizes[r() % 6] + r() % 30, P.maxkeys, m.max_keys});
    int T = std::max<int>(2, r.chance(1, 4) ? P.threads : 2 + r() % (P.threads - 1));
    int style = r() % 6;   // 0 mixed on hot window, 1 growth front, 2 churn, 3 uniform mixed, 4 shared key fight, 5 long churn of few keys (memory is retired and reclaimed)
    if (style == 5) { n = std::min(n, r.chance(2, 3) ? 2 + (size_t)(r() % 11) : 6 + (size_t)(r() % 60)); T = std::max(T, 4); }
    u32 mask = P.mask ? (r.chance(1, 5) ? 0 : (P.mask >> (r() % 4)) | 15) : 0;
    int stalled = mask && T > 2 && r.chance(1, style == 5 ? 1 : 3) ? 1 + r() % 2 : 0;   // threads that are descheduled for long in the middle of operations, while the others run freely
    current_case() = fmt("conc seed=%llu round=%llu dist=%d keys=%zu threads=%d style=%d stalled=%d", (unsigned long long)P.seed, (unsigned long long)c, dist, n, T, style, stalled);
    n = m.setup(r, dist, n, T + 1);
    current_case() += " " + m.config_text();
    std::string where = current_case();
    std::vector<u64> init(n, 0);
    m.tstart(T);
    std::vector<Kind> ins, rem, red;
    for (auto k : m.kinds) (k == LOOKUP || k == PROBE ? red : is_remove(k) ? rem : ins).push_back(k);
    unsigned fill = style == 1 ? 0 : r() % 101;
    for (u32 id = 0; id < n; ++id) if (r() % 100 < fill) {
      u64 v = (0xA000000 + id) % m.max_value + 1;
      Kind k = INSERT; for (auto x : ins) if (x == INSERT || x == UPSERT || x == UPSERT_NEW || x == UPSERT_OLD) k = x;
      m.op(T, k, id, v); init[id] = v; progress();
    }
    m.tend(T);      // nothing of this thread holds back the reclamation of memory
    std::vector<std::vector<Op>> logs(T + 1);
    Clock clk;
    std::atomic<int> ready{0}, running{T - stalled};
    std::atomic<bool> go{false};
    std::atomic<u64> front{0};
    u64 w0 = r(), shared = r();
    std::vector<std::thread> ths;
    u64 per = P.ops / T * (style == 5 ? 5 : 1);
    int tpl = style;
    std::atomic<u64> scans{0}, entries{0}, ranges{0};
    for (int t = 0; t < T; ++t) ths.emplace_back([&, t] {
      Rng q(P.seed * 31 + c * 1009 + t);
      m.tstart(t);
      auto& log = logs[t];
      log.reserve(per * 2);
      std::vector<std::pair<u32, u64>> out;
      u64 seq = 0;
      bool reader = tpl == 1 && t == T - 1, scanner = m.has_scan && m.scan_concurrent && q.chance(1, 3);
      ready++;
      while (!go) std::this_thread::yield();
      vf_perturb_thread(P.seed * 977 + c * 31 + t, stalled && t >= stalled && (t & 1) ? 0 : t < stalled ? 63 : mask, t);
      if (t < stalled) vf_perturb_stall(20 << (q() % 6));
      for (u64 i = 0; i < per && (t >= stalled || running); ++i) {
        u32 id; unsigned pi, pr;
        switch (tpl) {
          case 0: id = q.chance(2, 3) ? (w0 + i / 16 + q() % 6) % n : q() % n; pi = 40; pr = 30; break;
          case 1: { u64 f = reader ? front.load() : front.fetch_add(1); id = (f + (reader ? n - q() % 8 : 0)) % n;
                    if (f >= 2 * n) id = q() % n; pi = reader ? 2 : 85; pr = f >= n ? 30 : 2; break; }
          case 2: id = (w0 + q() % 16) % n; pi = 46; pr = 46; break;
          case 3: id = q() % n; pi = 35; pr = 25; break;
          case 5: id = q() % n; pi = t < stalled ? 15 : 47; pr = t < stalled ? 15 : 47; break;
          default: id = (shared + q() % 2) % n; pi = 45; pr = 25;
        }
        Op o; o.tid = t; o.key = id; o.arg = 0;
        if (scanner && q.chance(1, 24)) {
          ScanReq s; s.rev = m.has_rev && q.chance(1, 2); s.from = q.chance(1, 2) ? id : (s.rev ? n - 1 : 0); s.incl = q.chance(3, 4);
          s.to = s.rev ? 0 : n; s.limit = 1 + q() % (q.chance(1, 2) ? 8 : q.chance(7, 8) ? 64 : 500);
          if (!s.rev && q.chance(1, 3)) s.to = std::min<u64>(n, s.from + q() % 40);
          out.clear();
          u64 inv = clk.tick();
          bool did = m.scan(t, s, out);
          u64 ret = clk.tick();
          progress();
          if (did) {
            scans++; entries += out.size();
            check_conc_scan(m, s, out, n, inv, ret, t, log, where);
          }
          continue;
        }
        if (m.has_ranges && q.chance(1, 60)) {
          u32 b = std::min<u64>(n, id + 1 + q() % (q.chance(1, 6) ? n : 12));
          u64 cnt = 0, inv = clk.tick();
          bool did = m.range_remove(t, id, b, cnt);
          u64 ret = clk.tick();
          progress();
          if (did) { log_range(id, b, cnt, inv, ret, t, log, where); ranges++; }
          continue;
        }
        unsigned d = q() % 100;
        auto& set = d < pi || red.empty() ? ins : d < pi + pr && !rem.empty() ? rem : red;
        o.kind = set[q() % set.size()];
        if (o.kind == REMOVE_IF || o.kind == REMOVE_CAS) {   // needs a value that may be there
          u64 v = 0;
          Op l = o; l.kind = LOOKUP; l.inv = clk.tick(); v = l.res = m.op(t, LOOKUP, id, 0); l.ret = clk.tick(); log.push_back(l);
          o.arg = v ? v : 1;
        } else if (is_write(o.kind)) o.arg = (((u64)(t + 1) << 24 | ++seq) % m.max_value) + 1;
        o.inv = clk.tick();
        o.res = m.op(t, o.kind, id, o.arg);
        o.ret = clk.tick();
        log.push_back(o);
        progress();
      }
      vf_perturb_thread(1, 0, t);
      if (t >= stalled) running--;
      m.tend(t);
    });
    while (ready < T) std::this_thread::yield();
    go = true;
    for (auto& t : ths) t.join();
    m.tstart(T);
    for (u32 id = 0; id < n; ++id) { Op o{clk.tick(), 0, 0, 0, id, LOOKUP, (u8)T}; o.res = m.op(T, LOOKUP, id, 0); o.ret = clk.tick(); logs[T].push_back(o); progress(); }
    if (m.has_scan) {   // the final scan agrees with the final lookups
      std::set<u32> present; std::vector<u64> val(n);
      for (auto& o : logs[T]) if (o.res) { present.insert(o.key); val[o.key] = o.res; }
      std::vector<std::pair<u32, u64>> out;
      ScanReq q{0, true, false, (u32)n, n + 1};
      if (m.scan(T, q, out)) cmp_scan(m, q, present, val, n, out, (where + " final").c_str());
      if (m.has_rev) { out.clear(); ScanReq q2{(u32)n - 1, true, true, 0, n + 1}; if (m.scan(T, q2, out)) cmp_scan(m, q2, present, val, n, out, (where + " final").c_str()); }
    }
    m.check();
    check_history(logs, n, init, where, ls, [](u32 k) { return the_map()->key_text(k); });
    m.tend(T);
    m.teardown();
    nscan += scans; scanned += entries; nranges += ranges;
    ++evals();
    if (c < first_round + 3) sample(where + fmt(" ops=%llu", (unsigned long long)per * T));
  }
  lin_report(ls);
  stat("concurrent_scans", nscan); stat("concurrent_scan_entries", scanned);
  if (m.has_ranges) stat("concurrent_range_removals", nranges);
  perturb_stats();
}

// Preemption exploration: one operation A is stopped at a chosen basic block; a second thread then runs a series of
// operations B on the same and neighbouring keys, which may itself be stopped at a block until A completed; when B is
// blocked by something A holds, A goes on after a short time. Histories are checked like those of concurrent rounds.
struct Preempt {
  std::atomic<u64> exec{0};
  std::atomic<int> a_done{0}, b_go{0}, b_done{0}, a_resume{0}, a_paused{0}, b_paused{0};
  std::atomic<u64> bprog{0}, aprog{0};
  u64 a_pc = 0, b_pc = 0;
};
inline Preempt& pre() { static Preempt p; return p; }
inline u64 now_ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
template <class F> inline void wait_until(F f, std::atomic<u64>* prog, u64 limit_ns) {   // until f(), or no progress for the limit
  u64 last = prog ? prog->load() : 0, t0 = now_ns();
  for (int i = 0; !f(); ++i) {
    if (i < 200) __builtin_ia32_pause(); else sched_yield();
    if (prog && (i & 15) == 15) { u64 p = prog->load(), t = now_ns(); if (p != last) { last = p; t0 = t; } else if (t - t0 > limit_ns) return; }
  }
}
inline void pause_a(u64 pc) { Preempt& p = pre(); p.a_pc = pc; p.a_paused = 1; p.b_go = 1; wait_until([&] { return p.b_done || p.a_resume; }, &p.bprog, 150000); }
inline void pause_b(u64 pc) { Preempt& p = pre(); p.b_pc = pc; p.b_paused = 1; p.a_resume = 1; wait_until([&] { return p.a_done.load(); }, &p.aprog, 150000); }

struct PreParams { u64 seed, execs; size_t maxkeys; int dist_only = -1; };
inline void preempt_drive(Map& m, const PreParams& P, u64 first = 0) {
  the_map() = &m;
  LinStats ls;
  Preempt& p = pre();
  struct Todo { Kind kind; u32 id; u64 arg; bool scan; ScanReq s; u32 range = 0; };
  Todo ta; std::vector<Todo> tb; u64 stop_a = 0, stop_b = 0;
  std::vector<std::vector<Op>> logs(4);
  Clock clk; size_t n = 0; std::string where;
  u64 blocks[32] = {}, a_blocks = 0, npaused = 0, nbpaused = 0, nboth = 0, nscan = 0, bops = 0;
  auto run_todo = [&](int t, const Todo& d, std::vector<std::pair<u32, u64>>& out) {
    Op o; o.tid = t; o.key = d.id; o.kind = d.kind; o.arg = d.arg;
    o.inv = clk.tick();
    vf_preempt_hold(false);
    if (d.scan) { out.clear(); bool did = m.scan(t, d.s, out); vf_preempt_hold(true); o.ret = clk.tick(); if (did) check_conc_scan(m, d.s, out, n, o.inv, o.ret, t, logs[t], where); }
    else if (d.range) { u64 cnt = 0; bool did = m.range_remove(t, d.id, d.range, cnt); vf_preempt_hold(true); o.ret = clk.tick(); if (did) log_range(d.id, d.range, cnt, o.inv, o.ret, t, logs[t], where); }
    else { o.res = m.op(t, d.kind, d.id, d.arg); vf_preempt_hold(true); o.ret = clk.tick(); logs[t].push_back(o); }
    progress();
  };
  std::atomic<bool> quit{false};
  std::thread A([&] {
    u64 seen = 0; std::vector<std::pair<u32, u64>> out;
    for (;;) {
      wait_until([&] { return p.exec != seen || quit; }, nullptr, 0);
      if (quit) return;
      seen = p.exec;
      m.tstart(0);
      vf_preempt_arm(stop_a, pause_a);
      run_todo(0, ta, out);
      a_blocks = vf_preempt_off();
      p.aprog++;
      m.tend(0);
      p.b_go = 1;
      p.a_done = 1;
    }
  });
  std::thread B([&] {
    u64 seen = 0; std::vector<std::pair<u32, u64>> out;
    for (;;) {
      wait_until([&] { return p.exec != seen || quit; }, nullptr, 0);
      if (quit) return;
      seen = p.exec;
      m.tstart(1);
      wait_until([&] { return p.b_go.load() != 0; }, nullptr, 0);
      vf_preempt_arm(stop_b ? stop_b : ~0ull, pause_b);
      for (auto& d : tb) { run_todo(1, d, out); p.bprog++; }
      vf_preempt_off();
      m.tend(1);
      p.b_done = 1;
    }
  });
  u64 next = 1;
  for (u64 c = first; c < first + P.execs; ++c) {
    Rng r(P.seed * 5915587277 + c);
    int dist = P.dist_only >= 0 ? P.dist_only : (int)(r() % m.ndists);
    static const size_t sizes[] = {2, 5, 12, 20, 50, 120, 260};
    n = std::min({sizes[r() % 7] + r() % 10, P.maxkeys, m.max_keys});
    where = fmt("preempt seed=%llu exec=%llu dist=%d keys=%zu", (unsigned long long)P.seed, (unsigned long long)c, dist, n);
    current_case() = where;
    n = m.setup(r, dist, n, 3);
    where += " " + m.config_text();
    std::vector<Kind> ins, rem, red;
    for (auto k : m.kinds) (k == LOOKUP || k == PROBE ? red : is_remove(k) ? rem : ins).push_back(k);
    Kind fillk = INSERT; for (auto x : ins) if (x == INSERT || x == UPSERT || x == UPSERT_NEW || x == UPSERT_OLD) fillk = x;
    m.tstart(2);
    std::vector<u64> init(n, 0);
    unsigned fill = r() % 101, kind_of_fill = r() % 3;
    u32 f0 = r() % n;
    for (u32 i = 0; i < n; ++i) {
      bool in = kind_of_fill ? r() % 100 < fill : (i + f0) % n < n * fill / 100;
      if (in) { u64 v = (0xA000 + i) % m.max_value + 1; m.op(2, fillk, i, v); init[i] = v; }
    }
    if (!rem.empty() && r.chance(1, 3)) for (u32 i = 0; i < n; ++i) if (init[i] && r.chance(1, 3)) {
      Kind k = rem[r() % rem.size()]; m.op(2, k, i, init[i]); init[i] = 0;
    }
    m.tend(2);
    auto pick = [&](Todo& d, u32 id, unsigned pi, unsigned pr) {
      unsigned x = r() % 100;
      auto& set = x < pi || red.empty() ? ins : x < pi + pr && !rem.empty() ? rem : red;
      d.kind = set[r() % set.size()]; d.id = id; d.scan = false; d.arg = 0; d.range = 0;
      if (m.has_ranges && is_remove(d.kind) && r.chance(1, 8)) { d.kind = REMOVE_UNK; d.range = std::min<u64>(n, id + 1 + r() % (r.chance(1, 4) ? n : 12)); return; }
      if (d.kind == REMOVE_IF || d.kind == REMOVE_CAS) d.arg = init[id] ? init[id] : 1;
      else if (is_write(d.kind)) d.arg = ((1 << 20) + next++) % m.max_value + 1;
      if (m.has_scan && m.scan_concurrent && !is_write(d.kind) && r.chance(1, 3)) {
        d.scan = true; d.kind = LOOKUP;
        d.s.rev = m.has_rev && r.chance(1, 2); d.s.from = r.chance(1, 2) ? id : (d.s.rev ? n - 1 : 0); d.s.incl = r.chance(3, 4); d.s.to = d.s.rev ? 0 : n; d.s.limit = 1 + r() % (n + 2);
        if (!d.s.rev && r.chance(1, 3)) d.s.to = std::min<u64>(n, d.s.from + r() % 40);
        ++nscan;
      }
    };
    u32 ida = r() % n;
    pick(ta, ida, 40, 25);
    tb.clear();
    int bstyle = r() % 8;   // 0-1 same key, 2-3 run of neighbours inserted, 4 run removed, 5 mix near, 6 mix anywhere, 7 long churn near
    size_t nb = bstyle < 2 ? 1 + r() % 4 : bstyle == 7 ? (r.chance(1, 8) ? 1500 : 100 + r() % 200) : 1 + r() % 60;
    u32 span = 1 + r() % std::min<size_t>(n, 40);
    long pos = (long)ida - (r.chance(1, 2) ? (long)(r() % (nb + 1)) : 0), step = r.chance(3, 4) ? 1 : -1;
    for (size_t i = 0; i < nb; ++i) {
      Todo d; u32 id;
      if (bstyle < 2) id = ida;
      else if (bstyle <= 4) { id = (pos % (long)n + n) % n; pos += step; }
      else if (bstyle == 6) id = r() % n;
      else id = (ida + r() % span + n - span / 2) % n;
      pick(d, id, bstyle == 2 || bstyle == 3 ? 96 : bstyle == 4 ? 2 : 45, bstyle == 2 || bstyle == 3 ? 1 : bstyle == 4 ? 96 : 40);
      tb.push_back(d);
    }
    int slot = ta.scan ? 31 : ta.kind;
    u64 est = blocks[slot] ? blocks[slot] : 40;
    stop_a = r.chance(1, 8) ? 1 + r() % (3 * est) : 1 + r() % (r.chance(1, 2) ? est / 3 + 2 : est + 2);
    stop_b = r.chance(1, 2) ? 0 : 1 + r() % (r.chance(1, 2) ? 40 : std::min<u64>(nb, 30) * 40);
    for (auto& l : logs) l.clear();
    p.a_done = p.b_go = p.b_done = p.a_resume = p.a_paused = p.b_paused = 0;
    p.a_pc = p.b_pc = 0;
    p.exec++;
    wait_until([&] { return p.a_done && p.b_done; }, nullptr, 0);
    blocks[slot] = blocks[slot] ? (blocks[slot] * 15 + a_blocks) / 16 + 1 : a_blocks + 1;
    bops += nb;
    m.tstart(2);
    auto& fin = logs[2];
    for (u32 id = 0; id < n; ++id) { Op o{clk.tick(), 0, 0, 0, id, LOOKUP, 2}; o.res = m.op(2, LOOKUP, id, 0); o.ret = clk.tick(); fin.push_back(o); }
    progress();
    if (m.has_scan) {
      std::set<u32> present; std::vector<u64> val(n);
      for (auto& o : fin) if (o.res) { present.insert(o.key); val[o.key] = o.res; }
      std::vector<std::pair<u32, u64>> out;
      ScanReq q{0, true, false, (u32)n, n + 1};
      if (m.scan(2, q, out)) cmp_scan(m, q, present, val, n, out, (where + " final").c_str());
      if (m.has_rev) { out.clear(); ScanReq q2{(u32)n - 1, true, true, 0, n + 1}; if (m.scan(2, q2, out)) cmp_scan(m, q2, present, val, n, out, (where + " final").c_str()); }
    }
    m.check();
    static Distinct lin_keys;
    std::swap(lin_keys, distinct());       // keeps the histories' hashes apart from the preemption points counted here
    check_history(logs, n, init, where, ls, [](u32 k) { return the_map()->key_text(k); });
    std::swap(lin_keys, distinct());
    m.tend(2);
    m.teardown();
    ++evals();
    if (p.a_paused) { ++npaused; distinct().add(mix(mix(mix(mix(7, p.a_pc), p.b_paused ? p.b_pc : 0), slot), bstyle)); }
    if (p.b_paused) { ++nbpaused; nboth += p.a_paused; }
    if (c < first + 3) sample(where + fmt(" A=%s#%u stopped at block %llu of %llu, B=%zu operations (style %d)%s", ta.scan ? "scan" : kind_name[ta.kind], ida, (unsigned long long)stop_a, (unsigned long long)a_blocks, nb, bstyle, p.b_paused ? ", B stopped too" : ""));
  }
  quit = true;
  A.join(); B.join();
  stat("preempted_executions", npaused); stat("preempted_twice", nboth); stat("operations_run_while_stopped", bops); stat("preempt_scans", nscan);
  lin_report(ls);
}

// Controlled schedules: two to four threads run a few operations each on neighbouring keys; exactly one runs at a time and
// the turn passes on after a random number of basic blocks. Histories are checked like those of concurrent rounds.
struct SchedParams { u64 seed, execs; size_t maxkeys; int maxthreads, cpu; int dist_only = -1; };
inline void sched_drive(Map& m, const SchedParams& P, u64 first = 0) {
  the_map() = &m;
  m.no_sleep = true;
  LinStats ls;
  struct Todo { Kind kind; u32 id; u64 arg; bool scan; ScanReq s; u32 range = 0; };
  const int MT = P.maxthreads;
  std::vector<std::vector<Todo>> todo(MT);
  std::vector<std::vector<Op>> logs(MT + 1);
  Clock clk; size_t n = 0; std::string where; int T = 0;
  std::atomic<int> exec{0};
  std::atomic<int> finished{0};
  u64 switches = 0, nscan = 0, nops = 0;
  auto done = [&] { if (++finished >= MT) vf_wake(&finished); };
  auto all = [&] { for (int v; (v = finished.load()) < MT;) vf_wait_change(&finished, v); };
  std::atomic<bool> quit{false};
  std::vector<std::thread> ths;
  for (int t = 0; t < MT; ++t) ths.emplace_back([&, t] {
    pin_to(P.cpu);
    int seen = 0; std::vector<std::pair<u32, u64>> out;
    for (;;) {
      vf_wait_change(&exec, seen);
      seen = exec;
      if (quit) return;
      if (t >= T) { done(); continue; }
      m.tstart(t);
      done();                       // every thread is ready
      vf_sched_enter(t);
      for (auto& d : todo[t]) {
        Op o; o.tid = t; o.key = d.id; o.kind = d.kind; o.arg = d.arg;
        o.inv = clk.tick();
        vf_sched_run(true);
        if (d.scan) {
          out.clear();
          bool did = m.scan(t, d.s, out);
          vf_sched_run(false);
          o.ret = clk.tick();
          if (did) check_conc_scan(m, d.s, out, n, o.inv, o.ret, t, logs[t], where);
        } else if (d.range) { u64 cnt = 0; bool did = m.range_remove(t, d.id, d.range, cnt); vf_sched_run(false); o.ret = clk.tick(); if (did) log_range(d.id, d.range, cnt, o.inv, o.ret, t, logs[t], where); }
        else { o.res = m.op(t, d.kind, d.id, d.arg); vf_sched_run(false); o.ret = clk.tick(); logs[t].push_back(o); }
        progress();
      }
      vf_sched_leave();
      m.tend(t);
      done();
    }
  });
  pin_to(P.cpu);
  u64 next = 1;
  for (u64 c = first; c < first + P.execs; ++c) {
    Rng r(P.seed * 4256233 + c);
    int dist = P.dist_only >= 0 ? P.dist_only : (int)(r() % m.ndists);
    static const size_t sizes[] = {2, 4, 8, 16, 30, 70, 150};
    n = std::min({sizes[r() % 7] + r() % 10, P.maxkeys, m.max_keys});
    T = 2 + r() % (MT - 1);
    static const u32 means[] = {1, 3, 8, 20, 60, 100, 100, 200};   // 100: of any scale, 200: priorities
    u32 mean = means[r() % 8];
    where = fmt("sched seed=%llu exec=%llu dist=%d keys=%zu threads=%d mean=%u", (unsigned long long)P.seed, (unsigned long long)c, dist, n, T, mean);
    current_case() = where;
    n = m.setup(r, dist, n, MT + 1);
    where += " " + m.config_text();
    std::vector<Kind> ins, rem, red;
    for (auto k : m.kinds) (k == LOOKUP || k == PROBE ? red : is_remove(k) ? rem : ins).push_back(k);
    Kind fillk = INSERT; for (auto x : ins) if (x == INSERT || x == UPSERT || x == UPSERT_NEW || x == UPSERT_OLD) fillk = x;
    m.tstart(MT);
    std::vector<u64> init(n, 0);
    unsigned fill = r() % 101;
    for (u32 i = 0; i < n; ++i) if (r() % 100 < fill) { u64 v = (0xA000 + i) % m.max_value + 1; m.op(MT, fillk, i, v); init[i] = v; }
    if (!rem.empty() && r.chance(1, 3)) for (u32 i = 0; i < n; ++i) if (init[i] && r.chance(1, 3)) { m.op(MT, rem[r() % rem.size()], i, init[i]); init[i] = 0; }
    m.tend(MT);
    u32 base = r() % n, span = 1 + r() % std::min<size_t>(n, r.chance(1, 2) ? 4 : 30);
    unsigned pi = 20 + r() % 70, pr = rem.empty() ? 0 : r() % (100 - pi);
    for (int t = 0; t < T; ++t) {
      todo[t].clear();
      size_t k = r.chance(1, 4) ? 1 + r() % 24 : 1 + r() % 4;
      bool run = r.chance(1, 4); u32 pos = base + r() % span;
      for (size_t i = 0; i < k; ++i) {
        Todo d; d.scan = false; d.arg = 0; d.id = run ? (pos + i) % n : (base + r() % span) % n;
        unsigned x = r() % 100;
        auto& set = x < pi || red.empty() ? ins : x < pi + pr && !rem.empty() ? rem : red;
        d.kind = set[r() % set.size()];
        if (m.has_ranges && is_remove(d.kind) && r.chance(1, 6)) { d.kind = REMOVE_UNK; d.range = std::min<u64>(n, d.id + 1 + r() % (r.chance(1, 4) ? n : 12)); todo[t].push_back(d); continue; }
        if (d.kind == REMOVE_IF || d.kind == REMOVE_CAS) d.arg = init[d.id] ? init[d.id] : 1;
        else if (is_write(d.kind)) d.arg = ((1 << 20) + next++) % m.max_value + 1;
        if (m.has_scan && m.scan_concurrent && !is_write(d.kind) && r.chance(1, 3)) {
          d.scan = true; d.kind = LOOKUP; ++nscan;
          d.s.rev = m.has_rev && r.chance(1, 2); d.s.from = r.chance(2, 3) ? d.id : (d.s.rev ? n - 1 : 0); d.s.incl = r.chance(3, 4); d.s.to = d.s.rev ? 0 : n; d.s.limit = 1 + r() % (n + 2);
          if (!d.s.rev && r.chance(1, 3)) d.s.to = std::min<u64>(n, d.s.from + r() % 40);
        }
        todo[t].push_back(d);
      }
      nops += k;
    }
    for (auto& l : logs) l.clear();
    finished = 0;
    vf_sched_init(T, P.seed * 131 + c, mean);
    exec++; vf_wake(&exec);
    all();
    finished = MT - T;
    vf_sched_start();
    all();
    switches += vf_sched_switches();
    m.tstart(MT);
    auto& fin = logs[MT];
    for (u32 id = 0; id < n; ++id) { Op o{clk.tick(), 0, 0, 0, id, LOOKUP, (u8)MT}; o.res = m.op(MT, LOOKUP, id, 0); o.ret = clk.tick(); fin.push_back(o); }
    progress();
    if (m.has_scan) {
      std::set<u32> present; std::vector<u64> val(n);
      for (auto& o : fin) if (o.res) { present.insert(o.key); val[o.key] = o.res; }
      std::vector<std::pair<u32, u64>> out;
      ScanReq q{0, true, false, (u32)n, n + 1};
      if (m.scan(MT, q, out)) cmp_scan(m, q, present, val, n, out, (where + " final").c_str());
      if (m.has_rev) { out.clear(); ScanReq q2{(u32)n - 1, true, true, 0, n + 1}; if (m.scan(MT, q2, out)) cmp_scan(m, q2, present, val, n, out, (where + " final").c_str()); }
    }
    m.check();
    static Distinct lin_keys;
    std::swap(lin_keys, distinct());
    check_history(logs, n, init, where, ls, [](u32 k) { return the_map()->key_text(k); });
    std::swap(lin_keys, distinct());
    m.tend(MT);
    m.teardown();
    ++evals();
    if (vf_sched_switches() > 1) distinct().add(mix(vf_sched_hash(), T));
    if (c < first + 3) sample(where + fmt(" switches=%llu", (unsigned long long)vf_sched_switches()));
  }
  quit = true;
  exec++; vf_wake(&exec);
  for (auto& t : ths) t.join();
  stat("controlled_switches", switches); stat("controlled_ops", nops); stat("controlled_scans", nscan); stat("turns_taken_from_sleepers", vf_sched_steals());
  lin_report(ls);
}
inline int map_main(Map& m, int argc, char** argv) {
  Args a(argc, argv);
  setvbuf(stdout, 0, _IOLBF, 0);
  start_watchdog(a.num("hang", 25));
  if (a.str("mode", "seq") == "seq") {
    SeqParams p{a.num("seed", 1), a.num("cases", 20), a.num("ops", 20000), a.num("keys", 12000), (int)a.num("dist", (u64)-1), a.num("n", 0)};
    seq_drive(m, p, a.num("first", 0));
  } else if (a.str("mode", "seq") == "preempt") {
    PreParams p{a.num("seed", 1), a.num("execs", 2000), a.num("keys", 2000), (int)a.num("dist", (u64)-1)};
    preempt_drive(m, p, a.num("first", 0));
  } else if (a.str("mode", "seq") == "sched") {
    SchedParams p{a.num("seed", 1), a.num("execs", 2000), a.num("keys", 2000), (int)a.num("threads", 4), (int)a.num("cpu", (u64)-1), (int)a.num("dist", (u64)-1)};
    sched_drive(m, p, a.num("first", 0));
  } else {
    ConcParams p{a.num("seed", 1), a.num("rounds", 20), a.num("ops", 12000), (int)a.num("threads", 8), a.num("keys", 2000), (u32)a.num("mask", 1023), (int)a.num("dist", (u64)-1)};
    conc_drive(m, p, a.num("first", 0));
  }
  m.report();
  finish();
  return 0;
}
}  // namespace vf
