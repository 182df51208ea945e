// Per-key linearizability of recorded histories (just-in-time linearization over the set of possible states).
#pragma once
#include "common.h"
namespace vf {
enum Kind : u8 {
  LOOKUP,       // res: value or 0
  INSERT,       // if absent; res: 1 when it was
  UPSERT,       // no result
  UPSERT_NEW,   // res: 1 when the key was absent
  UPSERT_OLD,   // res: old value or 0
  UPDATE,       // if present; res: 1 when it was
  UPDATE_OLD,   // if present; res: old value or 0
  REMOVE,       // res: 1 when the key was present
  REMOVE_OLD,   // res: old value or 0
  REMOVE_IF,    // when the value is arg; no result
  REMOVE_CAS,   // when the value is arg; res: 1 when it was
  REMOVE_UNK,   // no result
  PROBE,        // res: 1 when present
  NKINDS
};
static const char* const kind_name[] = {"lookup", "insert", "upsert", "upsert", "upsert", "update", "update", "remove", "remove", "remove_if", "remove_if", "remove", "probe"};
inline bool is_remove(Kind k) { return k >= REMOVE && k <= REMOVE_UNK; }
inline bool is_write(Kind k) { return k != LOOKUP && k != PROBE; }
struct Op { u64 inv, ret, arg, res; u32 key; Kind kind; u8 tid; };
// is (kind, arg, res) legal in state s; s becomes the next state
inline bool apply(const Op& o, u64& s) {
  switch (o.kind) {
    case LOOKUP: return o.res == s;
    case PROBE: return o.res == (s != 0);
    case INSERT: if (o.res != (s == 0)) return false; if (!s) s = o.arg; return true;
    case UPSERT: s = o.arg; return true;
    case UPSERT_NEW: if (o.res != (s == 0)) return false; s = o.arg; return true;
    case UPSERT_OLD: if (o.res != s) return false; s = o.arg; return true;
    case UPDATE: if (o.res != (s != 0)) return false; if (s) s = o.arg; return true;
    case UPDATE_OLD: if (o.res != s) return false; if (s) s = o.arg; return true;
    case REMOVE: if (o.res != (s != 0)) return false; s = 0; return true;
    case REMOVE_OLD: if (o.res != s) return false; s = 0; return true;
    case REMOVE_IF: if (s == o.arg) s = 0; return true;
    case REMOVE_CAS: if (o.res != (s == o.arg)) return false; if (s == o.arg) s = 0; return true;
    case REMOVE_UNK: s = 0; return true;
    default: return false;
  }
}
inline std::string op_text(const Op& o) {
  return fmt("[t%u %llu-%llu] %s key#%u arg=%llx res=%llx", o.tid, (unsigned long long)o.inv, (unsigned long long)o.ret,
             kind_name[o.kind], o.key, (unsigned long long)o.arg, (unsigned long long)o.res);
}
struct LinStats { u64 ops = 0, keys = 0, overlapping_keys = 0, overlapping_ops = 0, max_configs = 0, given_up = 0, max_open = 0; };
// ops of one key, any order. At most 64 operations open at a time. Returns the index of the operation that has no
// linearization, or -1.
inline long check_key(const std::vector<Op>& ops, u64 init, LinStats& st) {
  struct Ev { u64 t; u32 op; bool ret; };
  std::vector<Ev> ev;
  ev.reserve(ops.size() * 2);
  for (u32 i = 0; i < ops.size(); ++i) { ev.push_back({ops[i].inv, i, false}); ev.push_back({ops[i].ret, i, true}); }
  std::sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.t < b.t || (a.t == b.t && a.ret < b.ret); });
  std::vector<int> slot(ops.size(), -1);
  std::vector<u32> open(64, 0);
  u64 used = 0;
  typedef std::pair<u64, u64> Cfg;  // linearized open slots, state
  std::vector<Cfg> cur{{0, init}};
  bool overl = false;
  u64 h = 17;
  for (auto& e : ev) {
    const Op& o = ops[e.op];
    if (!e.ret) {
      if (used == ~0ull) { st.given_up++; return -1; }
      int s = __builtin_ctzll(~used);
      if (used) {
        st.overlapping_ops++;
        bool w = is_write(o.kind);
        for (u64 m = used; m && !w; m &= m - 1) w = is_write(ops[open[__builtin_ctzll(m)]].kind);
        overl |= w;
      }
      used |= 1ull << s;
      slot[e.op] = s; open[s] = e.op;
      st.max_open = std::max<u64>(st.max_open, __builtin_popcountll(used));
      h = mix(h, o.kind * 2 + 0);
      continue;
    }
    h = mix(h, o.kind * 64 + slot[e.op] + 1000);
    h = mix(h, o.kind == LOOKUP || o.kind == UPSERT_OLD || o.kind == UPDATE_OLD ? (o.res != 0) : o.res & 1);
    u64 bit = 1ull << slot[e.op];
    std::vector<Cfg> next, work = cur;
    std::set<Cfg> seen(cur.begin(), cur.end());
    while (!work.empty()) {
      Cfg c = work.back(); work.pop_back();
      if (c.first & bit) { next.push_back({c.first & ~bit, c.second}); continue; }
      for (u64 m = used & ~c.first; m; m &= m - 1) {
        int s = __builtin_ctzll(m);
        u64 stt = c.second;
        if (!apply(ops[open[s]], stt)) continue;
        Cfg d{c.first | (1ull << s), stt};
        if (seen.insert(d).second) work.push_back(d);
      }
      if (seen.size() > 300000) { st.given_up++; return -1; }
    }
    if (next.empty()) return e.op;
    std::sort(next.begin(), next.end());
    next.erase(std::unique(next.begin(), next.end()), next.end());
    st.max_configs = std::max<u64>(st.max_configs, next.size());
    cur.swap(next);
    used &= ~bit;
  }
  st.ops += ops.size(); st.keys++;
  if (overl) { st.overlapping_keys++; distinct().add(h); }
  return -1;
}
struct Clock {
  std::atomic<u64> t{1};
  u64 tick() { return t.fetch_add(1); }
};
// logs: one vector per thread. init: state of each key before (0 when shorter)
inline void check_history(std::vector<std::vector<Op>>& logs, size_t nkeys, const std::vector<u64>& init, const std::string& what, LinStats& st,
                          std::string (*key_text)(u32) = nullptr) {
  std::vector<std::vector<Op>> by(nkeys);
  for (auto& l : logs) for (auto& o : l) if (o.key < nkeys) by[o.key].push_back(o);
  for (u32 k = 0; k < nkeys; ++k) {
    if (by[k].empty()) continue;
    long bad = check_key(by[k], k < init.size() ? init[k] : 0, st);
    progress();
    if (bad >= 0) {
      auto& v = by[k];
      Op b = v[bad];
      std::sort(v.begin(), v.end(), [](const Op& x, const Op& y) { return x.inv < y.inv; });
      std::string t;
      size_t pos = 0;
      while (pos < v.size() && !(v[pos].inv == b.inv)) ++pos;
      size_t from = pos > 14 ? pos - 14 : 0;
      printf("history of key#%u (%s), initial value %llx, around the operation that has no linearization:\n", k, key_text ? key_text(k).c_str() : "",
             (unsigned long long)(k < init.size() ? init[k] : 0));
      for (size_t i = from; i < v.size() && i < pos + 8; ++i) printf("  %s%s\n", op_text(v[i]).c_str(), i == pos ? "   <== none" : "");
      fflush(stdout);
      viol("not-linearizable", "%s: %s cannot be ordered with the other %zu operations on its key", what.c_str(), op_text(b).c_str(), v.size() - 1);
    }
  }
}
inline void lin_report(const LinStats& st) {
  stat("lin_ops_checked", st.ops); stat("lin_key_histories", st.keys); stat("lin_overlapping_ops", st.overlapping_ops);
  stat("lin_given_up", st.given_up); maxstat("lin_max_states", st.max_configs); maxstat("lin_max_open", st.max_open);
}
}  // namespace vf
