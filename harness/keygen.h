// Key sets for the index harnesses: sorted, unique, of many shapes.
#pragma once
#include "common.h"
namespace vf {
inline std::string be64(u64 v, int n = 8) {
  std::string s(n, 0);
  for (int i = 0; i < n; ++i) s[n - 1 - i] = (char)(v >> (8 * i));
  return s;
}
enum { INT_DISTS = 7, STR_DISTS = 10 };
inline std::vector<u64> int_keys(Rng& r, int dist, size_t n, u64 lo = 0, u64 hi = ~0ull) {
  std::set<u64> s;
  auto add = [&](u64 v) { if (v >= lo && v <= hi) s.insert(v); };
  u64 base = r();
  if (dist % INT_DISTS == 6) { add(lo); add(hi); add(lo + 1); add(hi - 1); }
  for (size_t guard = 0; s.size() < n && guard < 60 * n + 5000; ++guard) switch (dist % INT_DISTS) {
    case 0: add(lo + guard); break;                                       // dense from the low end
    case 1: add(r()); break;                                              // random
    case 2: add((base & ~0xfffffull) + ((r() % 5) << 40) + (r() & 0x3fff)); break;  // clusters
    case 3: { u64 v = 0; for (int i = 0, k = r() % 4; i <= k; ++i) v |= 1ull << (r() & 63); add(v); break; }  // few bits
    case 4: { u64 v = base; for (int i = 0, k = r() % 3; i <= k; ++i) v ^= 1ull << (r() & 63); add(v); break; }  // near a base
    case 5: add(((u64)(r() % 300) << (8 * (r() % 7))) + r() % 3); break;  // one byte position at a time
    case 6: add(r() >> (r() % 64)); break;                                // all magnitudes
  }
  // whatever the shape could not supply
  for (u64 v = base; s.size() < n; v += 0x1000193) add(lo + (hi - lo == ~0ull ? v : v % (hi - lo + 1)));
  return std::vector<u64>(s.begin(), s.end());
}
// maxlen 0: no limit; nozero: no zero bytes; the keys are not prefix-free
inline std::vector<std::string> str_keys(Rng& r, int dist, size_t n, size_t maxlen = 0, bool nozero = false, bool allow_empty = true) {
  std::set<std::string> s;
  auto add = [&](std::string k) {
    if (maxlen && k.size() > maxlen) k.resize(maxlen);
    if (nozero) for (auto& c : k) if (!c) c = 1;
    if (k.empty() && !allow_empty) return;
    s.insert(k);
  };
  std::vector<std::string> pool;
  auto randstr = [&](size_t len, int alpha) {
    std::string k(len, 0);
    static const u8 A3[] = {0, 1, 255, 'a'};
    for (auto& c : k) c = alpha == 256 ? (char)r() : alpha == 3 ? (char)A3[r() & 3] : (char)('a' + r() % alpha);
    return k;
  };
  std::string shared = randstr(8 + r() % 60, 26);
  for (size_t guard = 0; s.size() < n && guard < 200 * n + 5000; ++guard) switch (dist % STR_DISTS) {
    case 0: add(be64(guard)); break;
    case 1: add(be64(r())); break;
    case 2: add(fmt("%llu", (unsigned long long)(r() % (4 * n + 10)))); break;       // decimal
    case 3: {                                                                        // branching at any depth
      std::string k = pool.empty() || r.chance(1, 30) ? randstr(1 + r() % 40, 26) : pool[r() % pool.size()];
      size_t cut = r() % (k.size() + 1);
      k = k.substr(0, cut) + randstr(1 + r() % 24, 4);
      if (k.size() > 120) k.resize(120);
      pool.push_back(k); add(k); break;
    }
    case 4: { std::string k = pool.empty() || r.chance(1, 10) ? "" : pool[r() % pool.size()];  // nested prefixes
      k += randstr(1 + r() % 3, 2); if (k.size() > 90) k = ""; pool.push_back(k); add(k); break; }
    case 5: add(randstr(r() % 20, 3)); break;                                        // tiny alphabet with 0 and 255
    case 6: add(shared + be64(r() % (2 * n + 10), 2 + r() % 3)); break;              // one long prefix
    case 7: add(std::string("http://") + (r() & 1 ? "www." : "") + randstr(2 + r() % 6, 3 + r() % 10) + "/" + randstr(r() % 30, 26)); break;
    case 8: { std::string k = randstr(8, 2) ; for (int i = 0, m = r() % 5; i < m; ++i) k += randstr(8, 2).replace(1, 7, "xxxxxxx"); k += randstr(r() % 9, 3); add(k); break; }  // 8-byte slices
    case 9: add(randstr(r() % 40, 256)); break;
  }
  for (u64 v = r(); s.size() < n; v += 977) add(be64(v));
  std::vector<std::string> out(s.begin(), s.end());
  return out;
}
// makes keys prefix-free without changing their order: escapes nothing, needs keys without zero bytes
inline void terminate_keys(std::vector<std::string>& v) { for (auto& k : v) k.push_back('\0'); }
}  // namespace vf
