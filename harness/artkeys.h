// Key sets and identifiers shared by the two ART adapters: identifier = value << 20 | key number.
#pragma once
#include "driver.h"
static std::vector<std::string> g_art_keys;
static const int ART_INT = vf::INT_DISTS, ART_DISTS = vf::INT_DISTS + vf::STR_DISTS;
static inline size_t art_setup_keys(vf::Rng& r, int dist, size_t n) {
  g_art_keys.clear();
  if (dist < ART_INT) for (auto k : vf::int_keys(r, dist, n)) g_art_keys.push_back(vf::be64(k));
  else { g_art_keys = vf::str_keys(r, dist - ART_INT, n, r.chance(1, 8) ? 600 : 200, true); vf::terminate_keys(g_art_keys);
    if (r.chance(1, 6)) { std::string pre(200 + r() % 200, 'q'); for (size_t i = 0; i < g_art_keys.size(); ++i) g_art_keys[i] = pre + g_art_keys[i]; } }  // beyond the key's inline buffer
  return g_art_keys.size();
}
static inline uint64_t art_tid(vf::u32 id, vf::u64 v) { return v << 20 | id; }
static inline vf::u64 art_val(vf::u32 id, uint64_t tid) {
  if (!tid) return 0;
  if ((tid & 0xfffff) != id) vf::viol("wrong-key", "lookup of key #%u returned identifier %llx of key #%u", id, (unsigned long long)tid, (unsigned)(tid & 0xfffff));
  return tid >> 20;
}
