// tlx heaps, loser trees, ring buffer, caches, splay tree, simple vector, string view and counting pointer against their abstract types.
#include <algorithm>
#include <bitset>
#include <climits>
#include <deque>
#include <memory>
#include <string_view>
#define VF_NULL_DEALLOC 1
#include "containers.h"
#ifndef PART
#define PART 0
#endif
#include "tlx/container/d_ary_heap.hpp"
#include "tlx/container/d_ary_addressable_int_heap.hpp"
#include "tlx/container/radix_heap.hpp"
#include "tlx/container/loser_tree.hpp"
#include "tlx/container/ring_buffer.hpp"
#include "tlx/container/simple_vector.hpp"
#include "tlx/container/lru_cache.hpp"
#include "tlx/container/splay_tree.hpp"
#include "tlx/container/string_view.hpp"
#include "tlx/counting_ptr.hpp"
static u64 n_aliased, n_deep, n_destroyed;
static u64 shape = 0;     // a digest of what happened in the current case
static void mixin(u64 x) { shape = v::mix(shape, x); }
static void seen() { v::distinct().add(shape); }

#if PART == 0
// ---- plain heap
template <class K, unsigned A> static void heap(Rng& r, const char* name, unsigned ops) {
  typedef StLess<K> C; typedef tlx::DAryHeap<K, A, C> H;
  int rev = r() % 2; C cmp(rev);
  u32 univ = r() % 2 ? 5 + r() % 20 : 20 + r() % 3000, tag = 0;
  v::current_case() = fmt("d-ary heap<%s, arity %u> rev=%d universe=%u ops=%u", name, A, rev, univ, ops); v::sample(v::current_case());
  H* h = new H(cmp);
  typedef std::pair<u32, u32> E;                       // key, tag
  auto less = [&](const E& a, const E& b) { return a.first != b.first ? (rev ? a.first > b.first : a.first < b.first) : a.second < b.second; };
  std::multiset<E, decltype(less)> m(less);
  std::map<u64, int> dummy;
  auto key = [&](const K& k) { if constexpr (Mk<K>::tags) return E(k.k, Mk<K>::tag(k)); else return E((u32)k, 0); };
  auto mkk = [&](u32& kk, u32& t) { kk = r() % univ; t = Mk<K>::tags ? ++tag : 0; return Mk<K>::mk(kk, t); };
  auto top = [&](const K& k, const char* what) {
    E e = key(k);
    CHECK("heap", !m.empty() && m.begin()->first == e.first, "%s returned %u, the smallest key is %u of %zu", what, e.first, m.empty() ? 0 : m.begin()->first, m.size());
    auto it = m.find(e);
    CHECK("heap", it != m.end(), "%s returned element %u/%u that is not in the heap", what, e.first, e.second);
    return it;
  };
  for (unsigned i = 0; i < ops; ++i) {
    ++n_ops; unsigned d = r() % 100; u32 kk, t;
    if (d < 45) { K k = mkk(kk, t); if (r() % 2) h->push(k); else { h->push(std::move(k)); } m.insert(E(kk, t)); }
    else if (d < 47 && !m.empty()) { auto e = *top(h->top(), "top"); ++n_aliased; h->push(h->top()); m.insert(e); }
    else if (d < 70) { if (m.empty()) continue; auto it = top(h->top(), "top"); h->pop(); m.erase(it); }
    else if (d < 92) { if (m.empty()) continue; K k = h->extract_top(); m.erase(top(k, "extract_top")); }
    else if (d < 95) {
      std::vector<K> ks; std::vector<E> es; for (unsigned n = r() % 4 == 0 ? r() % 3 : r() % 300; n; --n) { ks.push_back(mkk(kk, t)); es.push_back(E(kk, t)); }
      m.clear(); m.insert(es.begin(), es.end());
      switch (r() % 4) { case 0: h->build_heap(ks.begin(), ks.end()); break; case 1: h->build_heap(ks); break; case 2: h->build_heap(std::move(ks)); break;
        default: { std::list<K> l(ks.begin(), ks.end()); h->build_heap(l.begin(), l.end()); } }
      mixin(es.size());
    }
    else if (d < 96) h->update_all();
    else if (d < 97) { H* g = r() % 2 ? new H(*h) : new H(std::move(*h)); delete h; h = g; }
    else if (d < 98) { H g(cmp); if (r() % 2) g = *h; else g = std::move(*h); *h = g; }
    else if (d < 99) h->reserve(r() % 500);
    else if (r() % 4 == 0) { h->clear(); m.clear(); }
    CHECK("heap", h->size() == m.size() && h->empty() == m.empty(), "size() is %zu, %zu elements expected", h->size(), m.size());
    if (r() % 32 == 0) { CHECK("heap", h->sanity_check(), "sanity_check() fails with %zu elements", m.size()); mixin(m.size()); seen(); }
  }
  while (!m.empty()) { K k = h->extract_top(); m.erase(top(k, "extract_top")); }
  CHECK("heap", h->empty(), "%zu elements left over", h->size());
  delete h;
}
// ---- heap of unsigned integers addressed by their value; the priorities live outside and change
template <class K, unsigned A> static void aheap(Rng& r, const char* name, u32 univ, unsigned ops) {
  std::vector<u32> prio(univ);
  struct C { const std::vector<u32>* p; bool operator()(K a, K b) const { return (*p)[a] < (*p)[b]; } };
  typedef tlx::DAryAddressableIntHeap<K, A, C> H;
  u32 range = r() % 2 ? 1 + r() % 10 : 100000;
  for (auto& x : prio) x = r() % range;
  v::current_case() = fmt("addressable heap<%s, arity %u> keys=%u priorities=%u ops=%u", name, A, univ, range, ops); v::sample(v::current_case());
  H* h = new H(C{&prio});
  std::set<K> in; std::multiset<u32> pr;
  auto add = [&](K k) { in.insert(k); pr.insert(prio[k]); };
  auto del = [&](K k) { in.erase(k); pr.erase(pr.find(prio[k])); };
  auto chg = [&](K k, u32 p) { if (in.count(k)) { pr.erase(pr.find(prio[k])); pr.insert(p); } prio[k] = p; };
  auto isin = [&](K k, const char* what) {
    CHECK("addressable", in.count(k), "%s returned key %lu which is not in the heap", what, (long)k);
    CHECK("addressable", prio[k] == *pr.begin(), "%s returned key %lu of priority %u, the smallest priority is %u (%zu keys)", what, (long)k, prio[k], *pr.begin(), in.size());
  };
  for (unsigned i = 0; i < ops; ++i) {
    ++n_ops; unsigned d = r() % 100; K k = (K)(r() % univ);
    if (d < 25) { if (in.count(k)) continue; if (r() % 2) h->push(k); else { K c = k; h->push(std::move(c)); } add(k); }
    else if (d < 40) { if (!in.count(k)) { if (in.empty()) continue; auto it = in.lower_bound(k); if (it == in.end()) --it; k = *it; } h->remove(k); del(k); }
    else if (d < 50) { if (in.empty()) continue; K t = h->top(); isin(t, "top"); h->pop(); del(t); CHECK("addressable", !h->contains(t), "pop() left the top key in the heap"); }
    else if (d < 60) { if (in.empty()) continue; K t = h->extract_top(); isin(t, "extract_top"); del(t); }
    else if (d < 82) { chg(k, r() % 3 ? r() % range : prio[k] + (r() % 2 ? 1 : -(prio[k] > 0))); h->update(k); if (!in.count(k)) add(k); }
    else if (d < 85) { for (unsigned n = r() % 50; n; --n) chg((K)(r() % univ), r() % range); h->update_all(); }
    else if (d < 92) { CHECK("addressable", h->contains(k) == !!in.count(k), "contains(%lu) is wrong", (long)k); CHECK("addressable", !h->contains((K)(univ + r() % 50 < std::numeric_limits<K>::max() ? univ + r() % 2 : univ)), "contains() of a key never used"); }
    else if (d < 95) {
      std::set<K> s; for (unsigned n = r() % 4 == 0 ? r() % 3 : r() % 200; n; --n) s.insert((K)(r() % univ));
      std::vector<K> ks(s.begin(), s.end()); for (size_t j = ks.size(); j > 1; --j) std::swap(ks[j - 1], ks[r() % j]);
      in.clear(); pr.clear(); for (K x : ks) add(x);
      switch (r() % 3) { case 0: h->build_heap(ks.begin(), ks.end()); break; case 1: h->build_heap(ks); break; default: h->build_heap(std::move(ks)); }
      for (u32 x = 0; x < univ; ++x) CHECK("addressable", h->contains((K)x) == !!in.count((K)x), "after build_heap() contains(%u) is wrong", x);
      CHECK("addressable", h->sanity_check(), "sanity_check() fails after build_heap() of %zu keys", in.size());
    }
    else if (d < 96) { H* g = r() % 2 ? new H(*h) : new H(std::move(*h)); delete h; h = g; }
    else if (d < 97) { H g(C{&prio}); g = *h; *h = std::move(g); }
    else if (d < 98) h->reserve(r() % 600);
    else if (r() % 3 == 0) { h->clear(); in.clear(); pr.clear(); }
    CHECK("addressable", h->size() == in.size() && h->empty() == in.empty(), "size() is %zu, %zu keys expected", h->size(), in.size());
    if (!in.empty() && r() % 4 == 0) isin(h->top(), "top");
    if (r() % 32 == 0) { CHECK("addressable", h->sanity_check(), "sanity_check() fails with %zu keys", in.size()); mixin(in.size()); seen(); }
  }
  while (!in.empty()) { K t = h->extract_top(); isin(t, "extract_top"); del(t); }
  delete h;
}
// ---- radix heap
template <class K, unsigned R> static void radix(Rng& r, const char* name, unsigned ops) {
  typedef tlx::RadixHeapPair<K, Obj, R> H; typedef std::pair<K, Obj> P;
  v::current_case() = fmt("radix heap<%s, radix %u> ops=%u", name, R, ops); v::sample(v::current_case());
  H* h = new H();
  std::map<K, std::multiset<u32>> m; size_t sz = 0; u32 tag = 0;
  K lo = std::numeric_limits<K>::min(), mx = std::numeric_limits<K>::max(), lim = lo;
  int pat = r() % 4;
  auto ins = [&](K k, u32 t) { m[k].insert(t); ++sz; };
  auto out = [&](const P& p, const char* what) {
    CHECK("radix", !m.empty() && p.first == m.begin()->first, "%s returned key %lld, the smallest is %lld", what, (long long)p.first, (long long)m.begin()->first);
    CHECK("radix", p.second.k == 5 && m.begin()->second.count(p.second.tag), "%s returned element %u which is not among those of key %lld", what, p.second.tag, (long long)p.first);
    lim = p.first;
  };
  auto del = [&](u32 t) { auto it = m.begin(); it->second.erase(it->second.find(t)); --sz; if (it->second.empty()) m.erase(it); };
  for (unsigned i = 0; i < ops; ++i) {
    ++n_ops; unsigned d = r() % 100;
    if (d < 55) {
      typedef typename std::make_unsigned<K>::type U;
      U span = (U)((U)mx - (U)lim), off;
      if (pat == 0) off = span == (U)-1 ? (U)r() : (U)(r() % ((u64)span + 1 ? (u64)span + 1 : 1));
      else if (pat == 1) off = (U)std::min<u64>(span, r() % 40);
      else off = (U)std::min<u64>(span, (u64)r() >> (r() % (8 * sizeof(u64))));
      if (r() % 300 == 0) off = span;
      K k = (K)((U)lim + off); u32 t = ++tag;
      size_t b;
      switch (r() % 5) {
        case 0: b = h->push(P(k, Obj(5, t))); break;
        case 1: b = h->emplace(k, k, Obj(5, t)); break;
        case 2: b = h->emplace_keyfirst(k, Obj(5, t)); break;
        case 3: { P p(k, Obj(5, t)); b = h->get_bucket(p); h->push_to_bucket(b, p); break; }
        default: b = h->get_bucket_key(k); h->emplace_in_bucket(b, k, Obj(5, t));
      }
      CHECK("radix", b == h->get_bucket_key(k), "the bucket returned for key %lld is not its bucket", (long long)k);
      ins(k, t);
    }
    else if (sz == 0) continue;
    else if (d < 60) { CHECK("radix", h->peak_top_key() == m.begin()->first, "peak_top_key() is %lld, not %lld (%zu elements)", (long long)h->peak_top_key(), (long long)m.begin()->first, sz); }
    else if (d < 65) { const P& p = h->top(); out(p, "top()"); }
    else if (d < 92) { const P& p = h->top(); out(p, "top()"); u32 t = p.second.tag; h->pop(); del(t); }
    else if (d < 95) {
      typename H::bucket_data_type b; h->swap_top_bucket(b);
      auto all = m.begin()->second; 
      for (auto& p : b) { out(p, "swap_top_bucket()"); auto it = all.find(p.second.tag); CHECK("radix", it != all.end(), "swap_top_bucket() returned an element twice"); all.erase(it); }
      CHECK("radix", all.empty(), "swap_top_bucket() returned %zu of the %zu elements of the smallest key", b.size(), b.size() + all.size());
      sz -= b.size(); m.erase(m.begin());
    }
    else if (d < 96) { H* g = r() % 2 ? new H(*h) : new H(std::move(*h)); delete h; h = g; }
    else if (d < 97) { H g; g = *h; *h = std::move(g); }
    else if (d < 98 && r() % 8 == 0) { h->clear(); m.clear(); sz = 0; lim = lo; }
    CHECK("radix", h->size() == sz && h->empty() == (sz == 0), "size() is %zu, %zu elements expected", h->size(), sz);
    if (r() % 64 == 0) { mixin(sz * 64 + m.size()); seen(); }
  }
  K last = lo; bool first = true;
  while (sz) { const P& p = h->top(); out(p, "top()"); CHECK("radix", first || p.first >= last, "keys leave the heap out of order"); first = false; last = p.first; u32 t = p.second.tag; h->pop(); del(t); }
  CHECK("radix", h->empty(), "elements are left over");
  delete h;
}
template <size_t N> static void bits(Rng& r) {
  v::current_case() = fmt("bit array of %zu bits", N);
  tlx::radix_heap_detail::BitArray<N>* a = new tlx::radix_heap_detail::BitArray<N>(); std::bitset<N> b;
  a->clear_all();
  for (int i = 0; i < 400; ++i) {
    ++n_ops; size_t j = r() % 3 ? r() % N : r() % std::min<size_t>(N, 70);
    switch (r() % 8) { case 0: case 1: case 2: a->set_bit(j); b.set(j); break; case 3: case 4: case 5: { size_t f = b._Find_first(); if (r() % 2 && f < N) j = f; a->clear_bit(j); b.reset(j); break; }
      case 6: if (r() % 30 == 0) { a->clear_all(); b.reset(); } break; default: { auto* c = new tlx::radix_heap_detail::BitArray<N>(*a); delete a; a = c; } }
    CHECK("bitarray", a->is_set(j) == b[j], "bit %zu is wrong", j);
    CHECK("bitarray", a->empty() == b.none(), "empty() is wrong");
    if (b.any()) CHECK("bitarray", a->find_lsb() == b._Find_first(), "find_lsb() is %zu, not %zu", a->find_lsb(), b._Find_first());
  }
  delete a;
}
template <class K, unsigned R> static void buckets(Rng& r) {
  v::current_case() = fmt("radix heap buckets for %zu-byte keys, radix %u", sizeof(K), R);
  tlx::radix_heap_detail::BucketComputation<R, K> b;
  auto key = [&] { return (K)((u64)r() >> (r() % 64)); };
  for (int i = 0; i < 300; ++i) {
    K x = key(), y = key(); if (x > y) std::swap(x, y);
    size_t bx = b(x, 0), by = b(y, 0);
    CHECK("buckets", bx <= by && by < b.num_buckets, "the buckets of %llu and %llu are %zu and %zu of %zu", (u64)x, (u64)y, bx, by, (size_t)b.num_buckets);
    CHECK("buckets", b.lower_bound(bx) <= x && x <= b.upper_bound(bx), "%llu is not within the bounds of its bucket %zu", (u64)x, bx);
    K l = key(); if (l > x) std::swap(l, x); if (x > y) std::swap(x, y);
    CHECK("buckets", b(x, l) <= b(y, l) && (b(x, l) > 0) == (x != l), "the buckets of %llu and %llu relative to %llu are %zu and %zu", (u64)x, (u64)y, (u64)l, b(x, l), b(y, l));
    typedef typename std::make_signed<K>::type S; typedef tlx::radix_heap_detail::IntegerRank<S> I;
    S s = (S)key(), t = (S)key();
    CHECK("buckets", (s < t) == (I::rank_of_int(s) < I::rank_of_int(t)) && I::int_at_rank(I::rank_of_int(s)) == s, "the ranks of %lld and %lld are wrong", (long long)s, (long long)t);
  }
}
static void one(Rng& r) {
  unsigned ops = 200 + r() % 1500;
  switch (r() % 14) {
    case 0: heap<int, 2>(r, "int", ops); break; case 1: heap<Obj, 3>(r, "object", ops); break; case 2: heap<u64, 1>(r, "u64", std::min(ops, 400u)); break; case 3: heap<Obj, 8>(r, "object", ops); break;
    case 4: aheap<u32, 2>(r, "u32", 1 + r() % 400, ops); break; case 5: aheap<unsigned char, 3>(r, "u8", 1 + r() % 253, ops); break; case 6: aheap<u64, 1>(r, "u64", 1 + r() % 100, ops); break; case 7: aheap<unsigned short, 5>(r, "u16", 1 + r() % 1000, ops); break;
    case 8: switch (r() % 3) { case 0: radix<u32, 8>(r, "u32", ops); break; case 1: radix<unsigned char, 4>(r, "u8", ops); break; default: radix<u64, 64>(r, "u64", ops); } break;
    case 9: switch (r() % 3) { case 0: radix<int, 2>(r, "i32", ops); break; case 1: radix<short, 16>(r, "i16", ops); break; default: radix<long, 32>(r, "i64", ops); } break;
    case 10: switch (r() % 3) { case 0: radix<signed char, 64>(r, "i8", ops); break; case 1: radix<unsigned short, 8>(r, "u16", ops); break; default: radix<long, 2>(r, "i64", ops); } break;
    case 11: switch (r() % 6) { case 0: bits<1>(r); break; case 1: bits<33>(r); break; case 2: bits<64>(r); break; case 3: bits<65>(r); break; case 4: bits<646>(r); break; default: bits<5000>(r); } break;
    case 12: switch (r() % 4) { case 0: buckets<unsigned char, 8>(r); break; case 1: buckets<unsigned short, 64>(r); break; case 2: buckets<u32, 2>(r); break; default: buckets<u64, 16>(r); } break;
    default: switch (r() % 2) { case 0: radix<u64, 8>(r, "u64", ops); break; default: radix<u32, 4>(r, "u32", ops); }
  }
}
#elif PART == 1
// ---- loser trees: merge sorted sequences
template <class T> static u32 kof(const T& x) { if constexpr (Mk<T>::tags) { x.ck(); return x.k; } else if constexpr (std::is_same<T, std::string>::value) return strtoul(x.c_str() + x.size() - 3, 0, 16); else return (u32)x; }
// strings are made of numbers and ordered by them
template <class K> struct Ord { int rev; Ord(int r = 0) : rev(r) {} bool operator()(const K& a, const K& b) const { if constexpr (std::is_same<K, std::string>::value) return rev ? kof(b) < kof(a) : kof(a) < kof(b); else return rev ? b < a : a < b; } };
template <class LT, bool Stable, bool Guarded, class T> static void merge(Rng& r, const char* name) {
  typedef Ord<T> C; int rev = r() % 2; C cmp(rev);
  unsigned k = r() % 3 ? 1 + r() % 9 : 1 + r() % 70; u32 univ = r() % 3 == 0 ? 2 + r() % 3 : 5 + r() % 900; u32 tag = 0;
  v::current_case() = fmt("loser tree %s%s%s k=%u universe=%u rev=%d", name, Stable ? " stable" : "", Guarded ? "" : " unguarded", k, univ, rev); v::sample(v::current_case());
  std::vector<std::vector<T>> s(k); size_t total = 0;
  for (auto& q : s) {
    unsigned n = r() % 4 == 0 ? 0 : r() % 3 == 0 ? r() % 3 : r() % 40;
    std::vector<u32> ks; for (unsigned i = 0; i < n; ++i) ks.push_back(1 + r() % univ);
    std::sort(ks.begin(), ks.end()); if (rev) std::reverse(ks.begin(), ks.end());
    for (u32 x : ks) q.push_back(Mk<T>::mk(x, ++tag));
    total += n;
  }
  T sentinel = Mk<T>::mk(rev ? 0 : univ + 5, 0);
  if (!Guarded) for (auto& q : s) q.push_back(sentinel);
  std::unique_ptr<LT> lt;
  if constexpr (Guarded) lt.reset(new LT(k, cmp)); else lt.reset(new LT(k, sentinel, cmp));
  std::vector<size_t> pos(k, 0);
  auto end = [&](unsigned i) { return Guarded ? pos[i] == s[i].size() : false; };
  auto left = [&](unsigned i) { return s[i].size() - !Guarded - pos[i]; };
  std::vector<unsigned> order(k); for (unsigned i = 0; i < k; ++i) order[i] = i;
  if (r() % 3 == 0) for (unsigned i = k; i > 1; --i) std::swap(order[i - 1], order[r() % i]);
  for (unsigned i : order) lt->insert_start(end(i) ? nullptr : &s[i][0], i, end(i));
  lt->init();
  for (size_t o = 0; o < total; ++o) {
    ++n_ops;
    u32 src = lt->min_source();
    CHECK("losertree", src < k, "min_source() is %u of %u with %zu of %zu elements left", src, k, total - o, total);
    CHECK("losertree", left(src), "min_source() is %u, which has no elements left (%zu of %zu elements done)", src, o, total);
    const T& x = s[src][pos[src]];
    for (unsigned i = 0; i < k; ++i) if (left(i) && i != src) {
      const T& y = s[i][pos[i]];
      CHECK("losertree", !cmp(y, x), "min_source() is %u with key %u, but sequence %u has key %u (element %zu of %zu)", src, kof(x), i, kof(y), o, total);
      if (Stable && i < src) CHECK("losertree", cmp(x, y), "min_source() is %u, but sequence %u has an equal key %u (element %zu of %zu)", src, i, kof(y), o, total);
    }
    ++pos[src];
    mixin(src); 
    lt->delete_min_insert(end(src) ? nullptr : &s[src][pos[src]], end(src));
  }
  mixin(k); seen();
}
template <bool S, class T> static void trees(Rng& r, const char* n) {
  switch (r() % 6) {
    case 0: merge<tlx::LoserTreeCopy<S, T, Ord<T>>, S, true, T>(r, fmt("copy<%s>", n).c_str()); break;
    case 1: merge<tlx::LoserTreePointer<S, T, Ord<T>>, S, true, T>(r, fmt("pointer<%s>", n).c_str()); break;
    case 2: merge<tlx::LoserTreeCopyUnguarded<S, T, Ord<T>>, S, false, T>(r, fmt("copy<%s>", n).c_str()); break;
    case 3: merge<tlx::LoserTreePointerUnguarded<S, T, Ord<T>>, S, false, T>(r, fmt("pointer<%s>", n).c_str()); break;
    case 4: merge<tlx::LoserTree<S, T, Ord<T>>, S, true, T>(r, fmt("default<%s>", n).c_str()); break;
    default: merge<tlx::LoserTreeUnguarded<S, T, Ord<T>>, S, false, T>(r, fmt("default<%s>", n).c_str());
  }
}
// ---- splay tree
template <bool Dup, class K> static void splay(Rng& r, const char* name, unsigned ops) {
  typedef Ord<K> C; typedef tlx::SplayTree<K, C, Dup, Alloc<K>> T;
  int rev = r() % 2; u32 univ = r() % 3 ? 4 + r() % 60 : 500, tag = 0, cur = 0; int pat = r() % 3;
  v::current_case() = fmt("splay tree<%s%s> universe=%u rev=%d pattern=%d ops=%u", name, Dup ? ", duplicates" : "", univ, rev, pat, ops); v::sample(v::current_case());
  T* t = new T(C(rev), Alloc<K>());
  std::map<u32, std::multiset<u32>> m; size_t sz = 0;
  auto full = [&] {
    std::vector<std::pair<u32, u32>> got; t->traverse_preorder([&](const K& k) { got.push_back({kof(k), Mk<K>::tag(k)}); });
    CHECK("splay", got.size() == sz, "traversal visits %zu keys, %zu are in the tree", got.size(), sz);
    if (rev) std::reverse(got.begin(), got.end());
    for (size_t i = 1; i < got.size(); ++i) CHECK("splay", got[i - 1].first < got[i].first + Dup, "traversal is out of order at %zu: %u, %u", i, got[i - 1].first, got[i].first);
    std::map<u32, std::multiset<u32>> g; for (auto& x : got) g[x.first].insert(x.second);
    CHECK("splay", g == m, "traversal visits other elements than are in the tree (%zu)", sz);
    CHECK("splay", t->check(), "check() fails");
    mixin(sz); seen();
  };
  // removes one of the tree's elements of this key from the model, whichever the tree removed
  auto removed = [&](u32 kk) {
    if (!Mk<K>::tags || m[kk].size() == 1) { m[kk].erase(m[kk].begin()); }
    else { std::multiset<u32> g; t->traverse_preorder([&](const K& k) { if (kof(k) == kk) g.insert(Mk<K>::tag(k)); });
      CHECK("splay", g.size() + 1 == m[kk].size() && std::includes(m[kk].begin(), m[kk].end(), g.begin(), g.end()), "erase of key %u left %zu of %zu equal elements", kk, g.size(), m[kk].size()); m[kk] = g; }
    if (m[kk].empty()) m.erase(kk); --sz;
  };
  for (unsigned i = 0; i < ops; ++i) {
    ++n_ops; u32 kk = pat == 0 ? r() % univ : pat == 1 ? cur++ % univ : (cur + univ - 1 + r() % 4) % univ; unsigned d = r() % 100;
    if (d < 40) { u32 tg = Mk<K>::tags ? ++tag : 0; K k = Mk<K>::mk(kk, tg); bool ex = m.count(kk); bool ok = t->insert(k); CHECK("splay", ok == (Dup || !ex), "insert of %s key %u returned %d", ex ? "a present" : "an absent", kk, ok); if (ok) { m[kk].insert(tg); ++sz; } }
    else if (d < 68) { K k = Mk<K>::mk(kk, 0); bool ex = m.count(kk); bool ok = t->erase(k); CHECK("splay", ok == ex, "erase of %s key %u returned %d", ex ? "a present" : "an absent", kk, ok); if (ok) removed(kk); }
    else if (d < 78) { K k = Mk<K>::mk(kk, 0); CHECK("splay", t->exists(k) == !!m.count(kk), "exists of key %u is wrong (%zu keys)", kk, sz); }
    else if (d < 90) {
      K k = Mk<K>::mk(kk, 0); auto* n = t->find(k);
      CHECK("splay", !n == (sz == 0), "find in a tree of %zu keys returned %p", sz, (void*)n);
      if (n) {
        u32 f = kof(n->key);
        if (m.count(kk)) CHECK("splay", f == kk, "find of key %u returned key %u", kk, f);
        else { auto it = m.upper_bound(kk); bool succ = it != m.end() && it->first == f; bool pred = it != m.begin() && std::prev(it)->first == f; CHECK("splay", succ || pred, "find of the absent key %u returned %u, not a neighbour (%zu keys, next below %d, next above %d)", kk, f, m.size(), it != m.begin() ? (int)std::prev(it)->first : -1, it != m.end() ? (int)it->first : -1); }
        if (r() % 4 == 0) { ++n_aliased; CHECK("splay", t->erase(n), "erase of a found node returned false"); removed(f); }
        else if (r() % 8 == 0 && Dup) { ++n_aliased; t->insert(n->key); m[f].insert(Mk<K>::tag(n->key)); ++sz; }
      }
    }
    else if (d < 91 && r() % 4 == 0) { t->clear(); m.clear(); sz = 0; }
    else if (d < 94) full();
    CHECK("splay", t->size() == sz && t->empty() == (sz == 0), "size() is %zu, %zu keys expected", t->size(), sz);
  }
  full(); delete t;
  CHECK("allocator", arena.live.empty() && arena.bytes == 0, "%zu nodes are still allocated", arena.live.size());
}
static void deep(Rng& r) {
  u32 n = 200000 + r() % 200000; bool down = r() % 2;
  v::current_case() = fmt("splay tree of %u keys inserted in %s order", n, down ? "descending" : "ascending"); v::sample(v::current_case());
  tlx::splay_set<u32> t; ++n_deep;
  for (u32 i = 0; i < n; ++i) { CHECK("splay", t.insert(down ? n - i : i), "insert of a new key returned false"); if (i % 4096 == 0) v::progress(); }
  u32 c = 0; bool ok = true; u32 prev = 0; t.traverse_preorder([&](u32 k) { if (c && k <= prev) ok = false; prev = k; ++c; });
  CHECK("splay", ok && c == n, "traversal of a degenerate tree visits %u keys", c);
  if (r() % 2) { t.clear(); CHECK("splay", t.size() == 0 && t.insert(5) && t.exists(5), "a cleared tree is not usable"); }
}
// ---- caches
template <bool IsMap> static void cache(Rng& r, unsigned ops) {
  u32 univ = 2 + r() % 40, cap = 1 + r() % 30, tag = 0;
  v::current_case() = fmt("cache %s keys=%u capacity=%u ops=%u", IsMap ? "map" : "set", univ, cap, ops); v::sample(v::current_case());
  typedef std::string K;
  typedef tlx::LruCacheSet<K, Alloc<K>> S; typedef tlx::LruCacheMap<K, K, Alloc<std::pair<K, K>>> M;
  typename std::conditional<IsMap, M, S>::type c{};
  std::list<std::pair<u32, std::string>> m;       // most recently used first
  auto at = [&](u32 k) { auto it = m.begin(); while (it != m.end() && it->first != k) ++it; return it; };
  auto key = [](u32 k) { return Mk<K>::mk(k, 0); };
  auto front = [&](decltype(m.begin()) it) { m.splice(m.begin(), m, it); };
  for (unsigned i = 0; i < ops; ++i) {
    ++n_ops; u32 k = r() % univ; auto it = at(k); bool ex = it != m.end(); K ks = key(k); unsigned d = r() % 100;
    bool threw = false;
    if (d < 30) {
      std::string val = MkV<std::string>::mk(++tag);
      if constexpr (IsMap) c.put(ks, val); else c.put(ks);
      if (ex) m.erase(it); m.push_front({k, val});
    }
    else if (d < 38) {
      if constexpr (IsMap) if (ex) { // the value is a reference into the cache, to this key's or another one's entry
        auto src = r() % 2 ? it : std::next(m.begin(), r() % m.size()); std::string val = src->second; ++n_aliased;
        u32 sk = src->first; bool tch = r() % 2; K skey = key(sk);
        if (tch) { c.put(ks, c.get_touch(skey)); front(src); } else c.put(ks, c.get(skey));
        m.erase(at(k)); m.push_front({k, val});
      }
    }
    else if (d < 48) { try { c.touch(ks); } catch (std::range_error&) { threw = true; } CHECK("cache", threw == !ex, "touch of %s key", ex ? "a present" : "an absent"); if (ex) front(it); }
    else if (d < 56) { CHECK("cache", c.touch_if_exists(ks) == ex, "touch_if_exists of %s key", ex ? "a present" : "an absent"); if (ex) front(it); }
    else if (d < 62) { try { c.erase(ks); } catch (std::range_error&) { threw = true; } CHECK("cache", threw == !ex, "erase of %s key", ex ? "a present" : "an absent"); if (ex) m.erase(it); }
    else if (d < 66) { CHECK("cache", c.erase_if_exists(ks) == ex, "erase_if_exists of %s key", ex ? "a present" : "an absent"); if (ex) m.erase(it); }
    else if (d < 75) CHECK("cache", c.exists(ks) == ex, "exists of %s key", ex ? "a present" : "an absent");
    else if (d < 90) {
      if constexpr (IsMap) {
        bool tch = r() % 2; std::string got; try { got = tch ? c.get_touch(ks) : c.get(ks); } catch (std::range_error&) { threw = true; }
        CHECK("cache", threw == !ex, "get of %s key", ex ? "a present" : "an absent");
        if (ex) { CHECK("cache", got == it->second, "get returned %s, not %s", got.c_str(), it->second.c_str()); if (tch) front(it); }
      }
    }
    else if (d < 91 && r() % 4 == 0) { c.clear(); m.clear(); }
    else if (d < 99 || m.size() > cap) while (!m.empty() && (m.size() > cap || d % 3 == 0)) {
      auto e = c.pop(); std::string pk, pv;
      if constexpr (IsMap) { pk = e.first; pv = e.second; } else { pk = e; pv = m.back().second; }
      CHECK("cache", pk == key(m.back().first), "pop returned key %s, the least recently used is %s (%zu entries)", pk.c_str(), key(m.back().first).c_str(), m.size());
      CHECK("cache", pv == m.back().second, "pop returned value %s, not %s", pv.c_str(), m.back().second.c_str());
      m.pop_back(); mixin(m.size()); if (d % 3 == 0) break;
    }
    CHECK("cache", c.size() == m.size(), "size() is %zu, %zu entries expected", c.size(), m.size());
  }
  seen();
}
static void one(Rng& r) {
  unsigned ops = 200 + r() % 1500;
  switch (r() % 16) {
    case 0: case 1: splay<false, int>(r, "int", ops); break; case 2: case 3: splay<true, Obj>(r, "object", ops); break; case 4: splay<false, std::string>(r, "string", ops); break; case 5: splay<true, int>(r, "int", ops); break;
    case 6: case 7: cache<true>(r, ops); CHECK("allocator", arena.live.empty(), "%zu blocks are still allocated", arena.live.size()); break; case 8: cache<false>(r, ops); CHECK("allocator", arena.live.empty(), "%zu blocks are still allocated", arena.live.size()); break;
    case 9: if (r() % 8 == 0) deep(r); break;
    case 10: for (int i = 0; i < 20; ++i) trees<true, int>(r, "int"); break; case 11: for (int i = 0; i < 20; ++i) trees<false, int>(r, "int"); break;
    case 12: for (int i = 0; i < 20; ++i) trees<true, Obj>(r, "object"); break; case 13: for (int i = 0; i < 20; ++i) trees<false, Obj>(r, "object"); break;
    case 14: for (int i = 0; i < 20; ++i) trees<true, std::string>(r, "string"); break; default: for (int i = 0; i < 20; ++i) trees<false, std::string>(r, "string");
  }
}
#elif PART == 2
// ---- ring buffer
struct Ar {   // a cereal-like archive
  std::deque<u64>* q; bool out;
  void one(size_t& x) { if (out) q->push_back(x); else { x = q->front(); q->pop_front(); } }
  void one(u32& x) { if (out) q->push_back(x); else { x = q->front(); q->pop_front(); } }
  void one(const size_t& x) { q->push_back(x); }
  void one(Obj& o) { if (out) { q->push_back(o.k); q->push_back(o.tag); } else { o.k = q->front(); q->pop_front(); o.tag = q->front(); q->pop_front(); } }
  void one(const Obj& o) { q->push_back(o.k); q->push_back(o.tag); }
  template <class... X> void operator()(X&&... x) { (one(x), ...); }
};
static void ring(Rng& r, unsigned ops) {
  typedef tlx::RingBuffer<Obj, Alloc<Obj>> B; typedef std::deque<std::pair<u32, u32>> D;
  v::current_case() = fmt("ring buffers ops=%u", ops); v::sample(v::current_case());
  B* b[2] = {nullptr, nullptr}; D m[2]; size_t cap[2] = {0, 0}; bool live[2]; u32 tag = 0;
  auto fresh = [&](int i) { m[i].clear(); if (r() % 4 == 0) { b[i] = new B(); cap[i] = 0; live[i] = false; } else { cap[i] = r() % 3 == 0 ? r() % 4 : r() % 40; b[i] = new B(cap[i]); live[i] = true; } };
  fresh(0); fresh(1);
  auto cmp = [&](int i) {
    CHECK("ring", b[i]->size() == m[i].size() && b[i]->empty() == m[i].empty(), "size() is %zu, %zu elements expected", b[i]->size(), m[i].size());
    if (live[i]) CHECK("ring", b[i]->max_size() == cap[i], "max_size() is %zu, not %zu", b[i]->max_size(), cap[i]);
    for (size_t j = 0; j < m[i].size(); ++j) { const B& cb = *b[i]; const Obj& o = r() % 2 ? cb[j] : (*b[i])[j]; o.ck(); CHECK("ring", o.k == m[i][j].first && o.tag == m[i][j].second, "element %zu of %zu is wrong", j, m[i].size()); }
    if (m[i].size()) { const B& cb = *b[i]; CHECK("ring", cb.front().tag == m[i].front().second && b[i]->front().tag == m[i].front().second && cb.back().tag == m[i].back().second && b[i]->back().tag == m[i].back().second, "front() or back() is wrong"); }
  };
  for (unsigned n = 0; n < ops; ++n) {
    ++n_ops; int i = r() % 2; unsigned d = r() % 100; bool room = live[i] && m[i].size() < cap[i]; u32 k = r() % 100;
    if (d < 25) { if (!room) continue; Obj o(k, ++tag); switch (r() % 3) { case 0: b[i]->push_back(o); break; case 1: b[i]->push_back(std::move(o)); break; default: b[i]->emplace_back(k, tag); } m[i].push_back({k, tag}); }
    else if (d < 45) { if (!room) continue; Obj o(k, ++tag); switch (r() % 3) { case 0: b[i]->push_front(o); break; case 1: b[i]->push_front(std::move(o)); break; default: b[i]->emplace_front(k, tag); } m[i].push_front({k, tag}); }
    else if (d < 50) { if (!room || m[i].empty()) continue; ++n_aliased; if (r() % 2) { b[i]->push_back(b[i]->front()); auto x = m[i].front(); m[i].push_back(x); } else { b[i]->push_front(b[i]->back()); auto x = m[i].back(); m[i].push_front(x); } }
    else if (d < 64) { if (m[i].empty()) continue; b[i]->pop_front(); m[i].pop_front(); }
    else if (d < 78) { if (m[i].empty()) continue; b[i]->pop_back(); m[i].pop_back(); }
    else if (d < 80) { b[i]->clear(); m[i].clear(); }
    else if (d < 82) { std::vector<Obj> o; o.reserve(8); b[i]->copy_to(&o); CHECK("ring", o.size() == m[i].size(), "copy_to copies %zu of %zu", o.size(), m[i].size()); for (size_t j = 0; j < o.size(); ++j) CHECK("ring", o[j].tag == m[i][j].second, "copy_to: element %zu", j); }
    else if (d < 83) { std::vector<Obj> o; b[i]->move_to(&o); CHECK("ring", o.size() == m[i].size(), "move_to moves %zu of %zu", o.size(), m[i].size()); for (size_t j = 0; j < o.size(); ++j) CHECK("ring", o[j].tag == m[i][j].second, "move_to: element %zu", j); m[i].clear(); }
    else if (d < 86) { B* c = new B(*b[i]); delete b[1 - i]; b[1 - i] = c; m[1 - i] = m[i]; cap[1 - i] = cap[i]; live[1 - i] = live[i]; }
    else if (d < 89) { *b[1 - i] = *b[i]; m[1 - i] = m[i]; cap[1 - i] = cap[i]; live[1 - i] = live[i]; }
    else if (d < 91) { B* c = new B(std::move(*b[i])); CHECK("ring", b[i]->empty(), "a buffer moved from is not empty"); delete b[1 - i]; b[1 - i] = c; m[1 - i] = m[i]; cap[1 - i] = cap[i]; live[1 - i] = live[i]; m[i].clear(); live[i] = false; cap[i] = 0; }
    else if (d < 93) { *b[1 - i] = std::move(*b[i]); m[1 - i] = m[i]; cap[1 - i] = cap[i]; live[1 - i] = live[i]; m[i].clear(); live[i] = false; cap[i] = 0; }
    else if (d < 95) { b[i]->deallocate(); m[i].clear(); live[i] = false; cap[i] = 0; }
    else if (d < 98) { if (live[i]) { if (r() % 2) continue; b[i]->deallocate(); } m[i].clear(); cap[i] = r() % 30; b[i]->allocate(cap[i]); live[i] = true; }
    else if (d < 99) { if (!live[i]) continue; std::deque<u64> q; Ar o{&q, true}, in{&q, false}; b[i]->save(o); b[1 - i]->load(in); CHECK("ring", q.empty(), "load does not read what save wrote"); m[1 - i] = m[i]; cap[1 - i] = cap[i]; live[1 - i] = true; }
    else { delete b[i]; fresh(i); }
    if (d >= 80 || r() % 4 == 0) { cmp(0); cmp(1); mixin(m[0].size() * 50 + m[1].size()); seen(); } else cmp(i);
  }
  cmp(0); cmp(1); delete b[0]; delete b[1];
  CHECK("allocator", arena.live.empty(), "%zu buffers are still allocated", arena.live.size());
}
// ---- simple vector
template <class T, tlx::SimpleVectorMode Mode> static void svec(Rng& r, const char* name, unsigned ops) {
  typedef tlx::SimpleVector<T, Mode> V; constexpr bool init = Mode == tlx::SimpleVectorMode::Normal, dtor = Mode != tlx::SimpleVectorMode::NoInitNoDestroy, triv = std::is_trivial<T>::value;
  v::current_case() = fmt("simple vector<%s, mode %d> ops=%u", name, (int)Mode, ops); v::sample(v::current_case());
  long before = live_objs; u32 tag = 0;
  {
    V x[2]; std::vector<u32> m[2];
    auto put = [&](T& slot, u32 t) { if constexpr (triv) slot = (T)t; else slot = T(1, t); };
    auto get = [&](const T& s) { if constexpr (triv) return (u32)s; else { s.ck(); return s.tag; } };
    auto fillnew = [&](int i, size_t from) {      // gives the elements at and after from a value
      for (size_t j = from; j < x[i].size(); ++j) { m[i][j] = ++tag; if constexpr (init || triv) put(x[i][j], tag); else new (&x[i][j]) T(1, tag); }
    };
    auto kill = [&](int i) { if constexpr (!dtor && !triv) for (auto& o : x[i]) o.~T(); m[i].clear(); };
    for (unsigned n = 0; n < ops; ++n) {
      ++n_ops; int i = r() % 2; unsigned d = r() % 100; size_t sz = r() % 4 == 0 ? r() % 3 : r() % 60;
      if (d < 20) { kill(i); x[i] = V(sz); m[i].assign(sz, 0); if (init && !triv) for (auto& o : x[i]) CHECK("simplevector", get(o) == 0, "an element is not default-constructed"); fillnew(i, 0); }
      else if (d < 40) { if (!init && !triv) continue; size_t old = m[i].size(); x[i].resize(sz); m[i].resize(sz); fillnew(i, std::min(old, sz)); }
      else if (d < 50) { if (r() % 2) x[0].swap(x[1]); else std::swap(x[0], x[1]); m[0].swap(m[1]); }
      else if (d < 55) { V t(std::move(x[i])); CHECK("simplevector", x[i].size() == 0 && x[i].begin() == x[i].end(), "a vector moved from is not empty"); kill(1 - i); x[1 - i] = std::move(t); m[1 - i] = m[i]; m[i].clear(); }
      else if (d < 58) { kill(i); x[i].destroy(); }
      else if (d < 62) { x[i].fill(MkV<T>::mk(++tag)); if (triv) for (auto& y : m[i]) y = tag; else for (auto& y : m[i]) y = tag; }
      else if (d < 80) { if (m[i].empty()) continue; size_t j = r() % m[i].size(); m[i][j] = ++tag; put(r() % 2 ? x[i][j] : x[i].at(j), tag); }
      const V& c = x[i];
      CHECK("simplevector", c.size() == m[i].size() && (size_t)(c.end() - c.begin()) == m[i].size() && c.cend() - c.cbegin() == x[i].end() - x[i].begin(), "size() is %zu, not %zu", c.size(), m[i].size());
      for (size_t j = 0; j < m[i].size(); ++j) CHECK("simplevector", get(c[j]) == m[i][j] && get(*(c.begin() + j)) == m[i][j] && get(x[i].data()[j]) == m[i][j], "element %zu of %zu is wrong", j, m[i].size());
      if (!m[i].empty()) CHECK("simplevector", get(c.front()) == m[i].front() && get(x[i].back()) == m[i].back() && get(c.back()) == m[i].back() && get(x[i].front()) == m[i].front() && get(c.at(0)) == m[i][0], "front() or back() is wrong");
      mixin(m[i].size()); if (r() % 16 == 0) seen();
    }
    kill(0); kill(1);
  }
  CHECK("element", live_objs == before, "%ld elements were not destroyed", live_objs - before);
}
// ---- counting pointer
struct Base : public tlx::ReferenceCounter { int id; tlx::CountingPtr<Base> next; int* alive; Base(int i, int* a) : id(i), alive(a) { ++*a; } Base(const Base& o) : tlx::ReferenceCounter(o), id(o.id), next(o.next), alive(o.alive) { ++*alive; } virtual ~Base() { --*alive; ++n_destroyed; } };
struct Derived : public Base { using Base::Base; char pad[40] = {}; };
static void cptr(Rng& r, unsigned ops) {
  v::current_case() = fmt("counting pointers ops=%u", ops); v::sample(v::current_case());
  typedef tlx::CountingPtr<Base> P; typedef tlx::CountingPtr<Derived> Q;
  const int N = 6; std::vector<std::unique_ptr<int>> cnt;                       // how many objects of an identity are alive
  {
    P p[N]; Q q[N]; Base* mp[N] = {}; Derived* mq[N] = {};
    std::map<Base*, std::pair<int, Base*>> obj;                      // references, the object next points to
    std::map<Base*, int> id;
    auto dec = [&](Base* o) { while (o && --obj[o].first == 0) { Base* nx = obj[o].second; obj.erase(o); id.erase(o); o = nx; } };
    auto inc = [&](Base* o) { if (o) ++obj[o].first; };
    auto set = [&](auto& slot, auto* o) { inc(o); auto* old = slot; slot = o; dec(old); };
    auto fresh = [&] { cnt.emplace_back(new int(0)); return (int)cnt.size() - 1; };
    auto reg = [&](Base* o, int i) { obj[o] = {0, nullptr}; id[o] = i; };
    for (unsigned n = 0; n < ops; ++n) {
      ++n_ops; int i = r() % N, j = r() % N;
      switch (r() % 22) {
        case 0: { int x = fresh(); Base* o = new Base(x, cnt[x].get()); reg(o, x); p[i] = P(o); set(mp[i], o); break; }
        case 1: { int x = fresh(); q[i] = tlx::make_counting<Derived>(x, cnt[x].get()); reg(q[i].get(), x); set(mq[i], q[i].get()); break; }
        case 2: p[i] = p[j]; set(mp[i], mp[j]); break;
        case 3: { if (i == j) break; bool same = mp[i] == mp[j]; p[i] = std::move(p[j]); set(mp[i], mp[j]); if (same) { p[j].reset(); } set(mp[j], (Base*)nullptr); CHECK("countingptr", !p[j], "a pointer moved from is not empty"); break; }
        case 4: p[i] = q[j]; set(mp[i], mq[j]); break;
        case 5: { bool same = mp[i] == mq[j]; p[i] = std::move(q[j]); set(mp[i], mq[j]); if (same) q[j].reset(); set(mq[j], (Derived*)nullptr); break; }
        case 6: p[i].reset(); set(mp[i], (Base*)nullptr); break;
        case 7: if (r() % 2) p[i].swap(p[j]); else swap(p[i], p[j]); std::swap(mp[i], mp[j]); break;
        case 8: { P c(p[j]); P d(std::move(c)); p[i] = d; set(mp[i], mp[j]); break; }
        case 9: { P c(q[j]); p[i] = c; set(mp[i], mq[j]); break; }
        case 10: { Q t(q[j]); P c(std::move(t)); p[i] = std::move(c); set(mp[i], mq[j]); break; }
        case 11: p[i] = nullptr; set(mp[i], (Base*)nullptr); break;
        case 12: { // link a fresh object in front of another one
          int x = fresh(); Base* o = new Base(x, cnt[x].get()); reg(o, x); o->next = p[j]; obj[o].second = mp[j]; inc(mp[j]); p[i] = P(o); set(mp[i], o); break; }
        case 13: case 14: if (mp[i]) { ++n_aliased; Base* nx = obj[mp[i]].second; p[i] = p[i]->next; set(mp[i], nx); } break;        // walk a list, dropping it
        case 15: case 16: if (mp[i]) { ++n_aliased; Base* o = mp[i]; Base* nx = obj[o].second; p[i] = std::move(p[i]->next);
          obj[o].second = nullptr; mp[i] = nx; dec(o); } break;         // the reference held by the object's link is now held by the pointer
        case 17: if (mp[i] && !obj[mp[i]].second) { int x = id[mp[i]]; bool shared = obj[mp[i]].first > 1; Base* o = mp[i]; bool der = dynamic_cast<Derived*>(o); if (der) break; p[i].unify();
          if (shared) { Base* c = p[i].get(); CHECK("countingptr", c != o && c->id == o->id, "unify() of a shared object did not copy it"); reg(c, x); set(mp[i], c); } else CHECK("countingptr", p[i].get() == o, "unify() of an unshared object replaced it"); } break;
        case 18: { CHECK("countingptr", (p[i] == p[j]) == (mp[i] == mp[j]) && (p[i] != p[j]) == (mp[i] != mp[j]) && (p[i] < p[j]) == (mp[i] < mp[j]) && (p[i] >= p[j]) == (mp[i] >= mp[j]) && (p[i] <= mp[j]) == (mp[i] <= mp[j]) && (p[i] > mp[j]) == (mp[i] > mp[j]) && (p[i] == mp[j]) == (mp[i] == mp[j]), "comparison is wrong"); break; }
        case 19: { Base local(0, cnt.empty() ? (cnt.emplace_back(new int(0)), cnt[0].get()) : cnt[0].get()); { tlx::CountingPtrNoDelete<Base> a(&local), b(a); CHECK("countingptr", a.use_count() == 2 && b.get() == &local, "use count of a pointer without deleter"); a = b; b.reset(); CHECK("countingptr", a.unique(), "unique()"); } break; }
        default: p[i] = *&p[i]; q[i] = q[j]; set(mq[i], mq[j]);
      }
      for (int x = 0; x < N; ++x) {
        CHECK("countingptr", p[x].get() == mp[x] && q[x].get() == mq[x] && p[x].valid() == !!mp[x] && p[x].empty() == !mp[x] && (bool)q[x] == !!mq[x], "a pointer refers to another object than it should");
        if (mp[x]) CHECK("countingptr", *p[x]->alive > 0 && (int)p[x].use_count() == obj[mp[x]].first && p[x].unique() == (obj[mp[x]].first == 1) && (*p[x]).id == id[mp[x]], "use_count() is %zu, %d references are held", p[x].use_count(), obj[mp[x]].first);
        if (mq[x]) CHECK("countingptr", (int)q[x].use_count() == obj[mq[x]].first, "use_count() is %zu, %d references are held", q[x].use_count(), obj[mq[x]].first);
      }
      long total = 0; if (r() % 8 == 0) { for (auto& c : cnt) total += *c; CHECK("countingptr", total == (long)obj.size(), "%ld objects are alive, %zu are referenced", total, obj.size()); mixin(total); seen(); }
    }
  }
  for (auto& c : cnt) CHECK("countingptr", *c == 0, "%d objects are alive after the last release", *c);
}
static void one(Rng& r) {
  unsigned ops = 200 + r() % 1500;
  switch (r() % 8) {
    case 0: case 1: case 2: { long b = live_objs; ring(r, ops); CHECK("element", live_objs == b, "%ld elements were not destroyed", live_objs - b); break; }
    case 3: svec<Obj, tlx::SimpleVectorMode::Normal>(r, "object", ops); break; case 4: svec<u64, tlx::SimpleVectorMode::NoInitNoDestroy>(r, "u64", ops); break; case 5: svec<Obj, tlx::SimpleVectorMode::NoInitButDestroy>(r, "object", ops); break;
    default: cptr(r, ops);
  }
}
#elif PART == 3
// ---- string view
static int sg(int x) { return (x > 0) - (x < 0); }
static void sview(Rng& r, unsigned ops) {
  static const char alpha[] = {'a', 'b', 'c', 0, (char)0x80, (char)0xff, 'A'};
  int na = r() % 3 == 0 ? 2 : r() % 2 ? 3 : 7;
  v::current_case() = fmt("string views over %d characters ops=%u", na, ops); v::sample(v::current_case());
  typedef tlx::StringView V; typedef std::string_view S;
  auto rs = [&](size_t mx) { std::string s; for (size_t n = r() % (mx + 1); n; --n) s += alpha[r() % na]; return s; };
  auto q = [](const std::string& s) { return v::hex(s); };
  for (unsigned n = 0; n < ops; ++n) {
    ++n_ops;
    // exact allocations: a read outside a string is seen
    std::string as = rs(12), bs = r() % 4 ? rs(4) : r() % 2 ? as : as.substr(0, r() % (as.size() + 1)); if (r() % 6 == 0 && !bs.empty()) bs.back() = alpha[r() % na];
    std::unique_ptr<char[]> ab(new char[as.size()]), bb(new char[bs.size()]); memcpy(ab.get(), as.data(), as.size()); memcpy(bb.get(), bs.data(), bs.size());
    V a(ab.get(), as.size()), b(bb.get(), bs.size()); S x(ab.get(), as.size()), y(bb.get(), bs.size());
    size_t pos = r() % 3 ? r() % (as.size() + 2) : r() % 2 ? V::npos : as.size(), cnt = r() % 3 ? r() % 6 : V::npos; char c = alpha[r() % na];
    std::string ctx = fmt("views %s and %s position %zd count %zd", q(as).c_str(), q(bs).c_str(), pos, cnt);
    #define EQ(what, e, f) CHECK("stringview", (e) == (f), "%s: %s is wrong (%lld, not %lld)", ctx.c_str(), what, (long long)(e), (long long)(f))
    EQ("find", a.find(b, pos), x.find(y, pos)); EQ("find char", a.find(c, pos), x.find(c, pos)); EQ("rfind", a.rfind(b, pos), x.rfind(y, pos)); EQ("rfind", a.rfind(b), x.rfind(y)); EQ("rfind char", a.rfind(c, pos), x.rfind(c, pos));
    EQ("find_first_of", a.find_first_of(b, pos), x.find_first_of(y, pos)); EQ("find_first_of char", a.find_first_of(c, pos), x.find_first_of(c, pos)); EQ("find_last_of", a.find_last_of(b, pos), x.find_last_of(y, pos)); EQ("find_last_of char", a.find_last_of(c), x.find_last_of(c));
    EQ("find_first_not_of", a.find_first_not_of(b, pos), x.find_first_not_of(y, pos)); EQ("find_first_not_of char", a.find_first_not_of(c, pos), x.find_first_not_of(c, pos)); EQ("find_last_not_of", a.find_last_not_of(b, pos), x.find_last_not_of(y, pos)); EQ("find_last_not_of char", a.find_last_not_of(c, pos), x.find_last_not_of(c, pos));
    size_t bn = bs.empty() ? 0 : r() % (bs.size() + 1);
    EQ("find pointer", a.find(bb.get(), pos, bn), x.find(bb.get(), pos, bn)); EQ("rfind pointer", a.rfind(bb.get(), pos, bn), x.rfind(bb.get(), pos, bn)); EQ("find_first_of pointer", a.find_first_of(bb.get(), pos, bn), x.find_first_of(bb.get(), pos, bn)); EQ("find_last_of pointer", a.find_last_of(bb.get(), pos, bn), x.find_last_of(bb.get(), pos, bn));
    EQ("find_first_not_of pointer", a.find_first_not_of(bb.get(), pos, bn), x.find_first_not_of(bb.get(), pos, bn)); EQ("find_last_not_of pointer", a.find_last_not_of(bb.get(), pos, bn), x.find_last_not_of(bb.get(), pos, bn));
    EQ("compare", sg(a.compare(b)), sg(x.compare(y)));
    EQ("==", a == b, x == y); EQ("!=", a != b, x != y); EQ("<", a < b, x < y); EQ(">", a > b, x > y); EQ("<=", a <= b, x <= y); EQ(">=", a >= b, x >= y);
    EQ("== string", a == bs, x == y); EQ("string ==", as == b, x == y); EQ("!= string", a != bs, x != y); EQ("string !=", as != b, x != y); EQ("< string", a < bs, x < y); EQ("string <", as < b, x < y); EQ("> string", a > bs, x > y); EQ("string >", as > b, x > y); EQ("<= string", a <= bs, x <= y); EQ("string <=", as <= b, x <= y); EQ(">= string", a >= bs, x >= y); EQ("string >=", as >= b, x >= y);
    if (bs.find('\0') == std::string::npos && as.find('\0') == std::string::npos) {
      const char *ac = as.c_str(), *bc = bs.c_str();
      EQ("== c string", a == bc, x == y); EQ("c string ==", ac == b, x == y); EQ("!= c string", a != bc, x != y); EQ("c string !=", ac != b, x != y); EQ("< c string", a < bc, x < y); EQ("c string <", ac < b, x < y); EQ("> c string", a > bc, x > y); EQ("c string >", ac > b, x > y); EQ("<= c string", a <= bc, x <= y); EQ("c string <=", ac <= b, x <= y); EQ(">= c string", a >= bc, x >= y); EQ("c string >=", ac >= b, x >= y);
      EQ("compare c string", sg(a.compare(bc)), sg(x.compare(bc))); EQ("find c string", a.find(bc, pos), x.find(bc, pos)); EQ("find_last_of c string", a.find_last_of(bc, pos), x.find_last_of(bc, pos)); EQ("rfind c string", a.rfind(bc, pos), x.rfind(bc, pos)); EQ("constructor", V(bc).size(), bs.size());
      EQ("find_first_of c string", a.find_first_of(bc, pos), x.find_first_of(bc, pos)); EQ("find_first_not_of c string", a.find_first_not_of(bc, pos), x.find_first_not_of(bc, pos)); EQ("find_last_not_of c string", a.find_last_not_of(bc, pos), x.find_last_not_of(bc, pos));
    }
    EQ("starts_with", a.starts_with(b), as.compare(0, bs.size(), bs) == 0); EQ("starts_with char", a.starts_with(c), !as.empty() && as[0] == c); EQ("ends_with char", a.ends_with(c), !as.empty() && as.back() == c); EQ("ends_with", a.ends_with(b), as.size() >= bs.size() && as.compare(as.size() - bs.size(), bs.size(), bs) == 0);
    auto thr = [](auto f) -> long { try { return f(); } catch (std::out_of_range&) { return LONG_MIN; } };
    size_t p2 = r() % (bs.size() + 2), c2 = r() % 5;
    EQ("compare(pos)", thr([&] { return sg(a.compare(pos, cnt, b)); }), thr([&] { return sg(x.compare(pos, cnt, y)); })); EQ("compare(pos, pos)", thr([&] { return sg(a.compare(pos, cnt, b, p2, c2)); }), thr([&] { return sg(x.compare(pos, cnt, y, p2, c2)); }));
    EQ("compare(pos, pointer)", thr([&] { return sg(a.compare(pos, cnt, bb.get(), bn)); }), thr([&] { return sg(x.compare(pos, cnt, bb.get(), bn)); }));
    EQ("substr", thr([&] { V s = a.substr(pos, cnt); return (s.data() - ab.get()) * 100 + (long)s.size(); }), thr([&] { S s = x.substr(pos, cnt); return (s.data() - ab.get()) * 100 + (long)s.size(); }));
    EQ("at", thr([&] { return (long)a.at(pos); }), thr([&] { return (long)x.at(pos); }));
    char buf[16] = {}, buf2[16] = {}; EQ("copy", thr([&] { return (long)a.copy(buf, cnt, pos); }), thr([&] { return (long)x.copy(buf2, cnt, pos); })); EQ("copied bytes", !memcmp(buf, buf2, 16), true);
    EQ("to_string", a.to_string() == as && (std::string)a == as, true); EQ("size", a.size(), x.size()); EQ("empty", a.empty() && a.length() == 0, x.empty());
    EQ("iteration", std::string(a.begin(), a.end()) == as && std::string(a.rbegin(), a.rend()) == std::string(as.rbegin(), as.rend()) && std::string(a.crbegin(), a.crend()) == std::string(as.rbegin(), as.rend()) && a.cend() - a.cbegin() == (long)as.size(), true);
    if (!as.empty()) EQ("front and back", a.front() == as.front() && a.back() == as.back() && a[as.size() / 2] == as[as.size() / 2], true);
    { std::ostringstream o; o << a; EQ("output", o.str() == as, true); }
    { V t = a; size_t k = r() % (as.size() + 3); t.remove_prefix(k); EQ("remove_prefix", t.to_string() == as.substr(std::min(k, as.size())), true); V u = a; u.remove_suffix(k); EQ("remove_suffix", u.to_string() == as.substr(0, as.size() - std::min(k, as.size())), true); t.swap(u); EQ("swap", u.to_string() == as.substr(std::min(k, as.size())), true); u.clear(); EQ("clear", u.empty(), true); }
    { V t(as), u(as.begin(), as.end()), w(as.begin() + std::min(pos, as.size()), as.size() - std::min(pos, as.size())); EQ("construction", t == a && u == a && w.to_string() == as.substr(std::min(pos, as.size())), true); EQ("hash", std::hash<V>()(t), std::hash<V>()(a)); if (a == b) EQ("hash of equal views", std::hash<V>()(a), std::hash<V>()(b)); }
    mixin(as.size() * 20 + bs.size()); mixin(pos); if (r() % 4 == 0) seen();
  }
  V z, e((const char*)nullptr); ++n_ops; std::string ctx = "empty views"; size_t pos = 0; (void)pos;
  EQ("empty", z.empty() && e.empty() && z == e && !(z < e) && z.compare(e) == 0 && z.find("") == 0 && z.rfind("") == 0 && z.find('a') == V::npos && z.find_last_of("a") == V::npos && z.find_last_not_of("a") == V::npos && z.to_string().empty(), true);
}
static void one(Rng& r) { sview(r, 100 + r() % 300); }
#elif PART == 4
// ---- counting pointers shared between threads: destroyed once, by the last release, after every use
struct Node : public tlx::ReferenceCounter { u64 sum = 0; std::atomic<int>* died; explicit Node(std::atomic<int>* d) : died(d) {} ~Node() { sum = ~sum; died->fetch_add(1, std::memory_order_relaxed); } };
static void one(Rng& r) {
  int T = 2 + r() % 6, N = 1 + r() % 6; unsigned ops = 200 + r() % 2000; u64 s = r();
  v::current_case() = fmt("counting pointers threads=%d objects=%d ops=%u", T, N, ops); v::sample(v::current_case());
  typedef tlx::CountingPtr<Node> P;
  std::unique_ptr<std::atomic<int>[]> died(new std::atomic<int>[N]()); std::atomic<u64> uses{0};
  {
    std::vector<P> root; for (int i = 0; i < N; ++i) root.push_back(tlx::make_counting<Node>(&died[i]));
    std::vector<std::vector<P>> mine(T, root); std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
      Rng q(v::mix(s, t)); std::vector<P>& m = mine[t]; P local[4]; ready++; while (ready < T) std::this_thread::yield(); u64 acc = 0, u = 0;
      for (unsigned i = 0; i < ops; ++i) {
        P& l = local[q() % 4]; P& g = m[q() % N];
        switch (q() % 7) { case 0: case 1: l = g; break; case 2: { P c(l); P d(std::move(c)); l = d; break; } case 3: l.reset(); break; case 4: l.swap(local[q() % 4]); break; case 5: if (l) { acc += l->sum; ++u; if (l.use_count() < 1) v::viol("countingptr", "use_count() of a held object is 0"); } break; default: if (q() % 64 == 0) g.reset(); }
      }
      for (auto& l : local) { if (l && l->died->load() != 0) v::viol("countingptr", "a held object was destroyed"); l.reset(); } for (auto& g : m) g.reset(); uses += u + (acc != 0);
    });
    root.clear();
    for (auto& t : th) t.join();
  }
  for (int i = 0; i < N; ++i) CHECK("countingptr", died[i] == 1, "object %d was destroyed %d times", i, died[i].load());
  n_ops += (u64)T * ops; n_destroyed += N; mixin(uses); mixin(T * 10 + N); seen();
}
#endif
int main(int argc, char** argv) {
  v::Args args(argc, argv);
  u64 seed = args.num("seed", 1), n = args.num("n", 100);
  v::start_watchdog();
  for (u64 i = 0; i < n; ++i) { Rng r(v::mix(seed, i)); shape = 0; long before = live_objs; one(r); CHECK("element", live_objs == before, "%ld elements were not destroyed", live_objs - before); v::progress(); }
  v::evals() += n_checks;
  v::stat("operations", n_ops); v::stat("operations_on_own_elements", n_aliased); v::stat("objects_destroyed_at_last_release", n_destroyed); v::stat("degenerate_trees", n_deep);
  v::finish();
  return 0;
}
