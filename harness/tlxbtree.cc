// tlx B+-tree containers (STX/tlx/tlx/container/btree*.hpp) against a sorted-vector model: every operation, several
// slot counts, linear and binary search, comparators with state, counted element lifetimes and allocations.
#include <tlx/container/btree_map.hpp>
#include <tlx/container/btree_multimap.hpp>
#include <tlx/container/btree_set.hpp>
#include <tlx/container/btree_multiset.hpp>
#include "containers.h"
template <int L, int I, int B> struct Tr { static const bool self_verify = false; static const bool debug = false; static const int leaf_slots = L; static const int inner_slots = I; static const size_t binsearch_threshold = B; };
// the four containers
template <class K, class V, class C, class X> struct MapT {
  typedef std::pair<K, V> Val; typedef tlx::btree_map<K, V, C, X, Alloc<Val>> T; typedef C Cmp; typedef K Key; enum { multi = 0, map = 1 };
  static Val val(const K& k, u32 t) { return Val(k, MkV<V>::mk(t)); }
  static const K& key(const Val& x) { return x.first; } static u32 tag(const Val& x) { return MkV<V>::tag(x.second); }
};
template <class K, class V, class C, class X> struct MMapT : MapT<K, V, C, X> { typedef tlx::btree_multimap<K, V, C, X, Alloc<std::pair<K, V>>> T; enum { multi = 1, map = 1 }; };
template <class K, class C, class X> struct SetT {
  typedef tlx::btree_set<K, C, X, Alloc<K>> T; typedef C Cmp; typedef K Key; enum { multi = 0, map = 0 };
  typedef K Val;
  static K val(const K& k, u32) { return k; } static const K& key(const K& x) { return x; } static u32 tag(const K& x) { return Mk<K>::tag(x); }
};
template <class K, class C, class X> struct MSetT : SetT<K, C, X> { typedef tlx::btree_multiset<K, C, X, Alloc<K>> T; enum { multi = 1, map = 0 }; };

static u64 n_bulk;
template <class A> struct Run {
  typedef typename A::T T; typedef typename A::Key K; typedef typename A::Cmp Cmp; typedef typename A::Val Val;
  typedef typename T::iterator It; typedef typename T::const_iterator CIt;
  struct E { u32 k, t; };       // position of the key in the universe, tag of the element
  Rng& r; const char* name; u32 univ; u32 next = 1; std::vector<K> keys;
  struct Slot { T* c = nullptr; std::vector<E> m; int rev = 0; };
  Slot s[3];
  Run(Rng& r_, const char* n, u32 u) : r(r_), name(n), univ(u) { for (u32 i = 0; i < u; ++i) keys.push_back(Mk<K>::mk(i, 0)); }
  // order of two keys in slot x, by asking a comparator of the same state
  bool lt(const Slot& x, u32 a, u32 b) { return MkC<Cmp>::mk(x.rev)(keys[a], keys[b]); }
  size_t lower(const Slot& x, u32 k) { size_t a = 0, b = x.m.size(); while (a < b) { size_t m = (a + b) / 2; if (lt(x, x.m[m].k, k)) a = m + 1; else b = m; } return a; }
  size_t upper(const Slot& x, u32 k) { size_t a = 0, b = x.m.size(); while (a < b) { size_t m = (a + b) / 2; if (!lt(x, k, x.m[m].k)) a = m + 1; else b = m; } return a; }
  bool same(const Val& x, const E& e) { return !MkC<Cmp>::mk(0)(A::key(x), keys[e.k]) && !MkC<Cmp>::mk(0)(keys[e.k], A::key(x)) && A::tag(x) == tagof(e.t); }
  u32 tagof(u32 t) { return A::map || Mk<K>::tags ? t : 0; }
  std::string txt(const E& e) { return Mk<K>::txt(keys[e.k]) + "#" + std::to_string(tagof(e.t)); }
  Val val(const E& e) { return A::val(Mk<K>::tags && !A::map ? Mk<K>::mk(e.k, e.t) : keys[e.k], e.t); }
  // iterator `i` of slot x is at index p (checked with both neighbours)
  void at(const char* what, Slot& x, CIt i, size_t p) { typedef CIt I;
    const T& c = *x.c;
    if (p == x.m.size()) { CHECK("iterator", i == c.end(), "%s: not at the end (of %zu)", what, p); }
    else {
      CHECK("iterator", !(i == c.end()), "%s: at the end instead of index %zu of %zu", what, p, x.m.size());
      if (i == c.end()) return;
      CHECK("iterator", same(*i, x.m[p]), "%s: wrong element at index %zu of %zu (expected %s, is %s#%u)", what, p, x.m.size(), txt(x.m[p]).c_str(), Mk<K>::txt(A::key(*i)).c_str(), A::tag(*i));
      I j = i; ++j;
      if (p + 1 == x.m.size()) CHECK("iterator", j == c.end(), "%s: ++ does not reach the end", what);
      else CHECK("iterator", !(j == c.end()) && same(*j, x.m[p + 1]), "%s: ++ is at a wrong element", what);
      if (!(j == c.end()) || p + 1 == x.m.size()) { --j; CHECK("iterator", j == i, "%s: ++ and -- do not cancel at index %zu of %zu", what, p, x.m.size()); }
    }
    if (p) { I j = i; --j; CHECK("iterator", same(*j, x.m[p - 1]), "%s: -- is at a wrong element", what); j++; CHECK("iterator", j == i, "%s: -- and ++ do not cancel at index %zu of %zu", what, p, x.m.size()); }
    else CHECK("iterator", i == c.begin(), "%s: not begin()", what);
  }
  It iter(Slot& x, size_t p) {   // reach index p from one side
    It i;
    if (p <= x.m.size() / 2) { i = x.c->begin(); while (p--) ++i; } else { i = x.c->end(); for (size_t j = x.m.size(); j > p; --j) --i; }
    return i;
  }
  void full(Slot& x) {
    T& c = *x.c; const T& cc = c;
    c.verify();
    CHECK("size", (size_t)c.size() == x.m.size() && c.empty() == x.m.empty(), "size() is %ld with %zu elements", (long)c.size(), x.m.size());
    size_t p = 0;
    for (CIt i = cc.begin(); i != cc.end() && p < x.m.size(); ++i, ++p) CHECK("content", same(*i, x.m[p]), "element %zu of %zu is %s#%u, should be %s", p, x.m.size(), Mk<K>::txt(A::key(*i)).c_str(), A::tag(*i), txt(x.m[p]).c_str());
    CHECK("content", p == x.m.size(), "iteration stops at %zu of %zu", p, x.m.size());
    p = x.m.size();
    for (typename T::const_reverse_iterator i = cc.rbegin(), e = cc.rend(); i != e && p; i++, --p) CHECK("content", same(*i, x.m[p - 1]), "const reverse element %zu is wrong", p - 1);
    CHECK("content", p == 0, "const reverse iteration stops %zu short", p);
    p = x.m.size();
    for (auto i = c.rbegin(); i != c.rend() && p; ++i, --p) CHECK("content", same(*i, x.m[p - 1]), "reverse element %zu is wrong", p - 1);
    CHECK("content", p == 0, "reverse iteration stops %zu short", p);
    auto& st = cc.get_stats();
    CHECK("size", st.size == x.m.size() && st.nodes() == st.leaves + st.inner_nodes && (st.leaves > 0) == !x.m.empty() && (x.m.empty() || (st.avgfill_leaves() > 0 && st.avgfill_leaves() <= 1)), "node statistics do not add up");
    u32 h = 0; for (u64 y = st.leaves; y > 1; y = (y + T::inner_slotmax) / (T::inner_slotmax + 1)) ++h;
    max_height = std::max<u64>(max_height, h);
    v::distinct().add(v::mix(v::mix(st.leaves, st.inner_nodes), v::mix(x.m.size(), v::hash_bytes(name, strlen(name)))));
  }
  void put(Slot& x, size_t p, E e) { x.m.insert(x.m.begin() + p, e); }
  // after a hinted insertion into a multi container the new element may be anywhere among its equals
  size_t place(Slot& x, E e, It at) {
    size_t a = lower(x, e.k), b = upper(x, e.k);
    if (!A::multi || a == b) return b;
    if (!(A::map || Mk<K>::tags)) { size_t p = std::distance(x.c->begin(), at); CHECK("insert", p >= a && p <= b, "a hinted insertion returned index %zu, the equals are at %zu to %zu", p, a, b); return std::min(std::max(p, a), b); }
    It i = x.c->lower_bound(keys[e.k]);
    for (size_t p = a; p <= b; ++p, ++i) if (!(i == x.c->end()) && A::tag(*i) == e.t) return p;
    v::viol("insert", "the inserted element is not among its equals");
    return b;
  }
  template <class TT> static auto ins_result(std::pair<TT, bool> x) { return x; }
  static std::pair<It, bool> ins_result(It i) { return {i, true}; }
  void insert(Slot& x, E e) {
    Val w = val(e);
    auto res = ins_result(ins(x, w, std::integral_constant<bool, A::map>()));
    size_t p = lower(x, e.k);
    bool fresh = A::multi || p == x.m.size() || lt(x, e.k, x.m[p].k);
    CHECK("insert", res.second == fresh, "insert(%s) says %d", txt(e).c_str(), res.second);
    if (A::multi) p = place(x, e, res.first);
    if (fresh) put(x, p, e);
    at("insert", x, res.first, p);
  }
  auto ins(Slot& x, const Val& w, std::true_type) { return r() % 4 ? x.c->insert(w) : x.c->insert2(w.first, w.second); }
  auto ins(Slot& x, const Val& w, std::false_type) { return x.c->insert(w); }
  It insh(Slot& x, It h, const Val& w, std::true_type) { return r() % 4 ? x.c->insert(h, w) : x.c->insert2(h, w.first, w.second); }
  It insh(Slot& x, It h, const Val& w, std::false_type) { return x.c->insert(h, w); }
  void hinted(Slot& x, E e, size_t h) {
    Val w = val(e);
    It i = insh(x, iter(x, h), w, std::integral_constant<bool, A::map>());
    size_t p = lower(x, e.k);
    if (!A::multi && p < x.m.size() && !lt(x, e.k, x.m[p].k)) { at("insert with hint (present)", x, i, p); return; }
    CHECK("size", (size_t)x.c->size() == x.m.size() + 1, "insert with a hint left size() at %ld", (long)x.c->size());
    p = place(x, e, i); put(x, p, e);
    at("insert with hint", x, i, p);
  }
  void erase_at(Slot& x, size_t p) {
    u32 k = x.m[p].k;
    x.c->erase(iter(x, p)); x.m.erase(x.m.begin() + p);
    CHECK("size", (size_t)x.c->size() == x.m.size(), "erase(iterator) left size() at %ld of %zu", (long)x.c->size(), x.m.size());
    at("lower_bound after erase(iterator)", x, x.c->lower_bound(keys[k]), lower(x, k));
    if (p) at("predecessor after erase(iterator)", x, iter(x, p), p);
  }
  void fresh(Slot& x, int rev) { delete x.c; x.c = new T(MkC<Cmp>::mk(rev), Alloc<Val>(r() % 4)); x.m.clear(); x.rev = rev; }
  void index(Slot& x, u32 k, std::true_type) {
    size_t p = lower(x, k); bool has = p < x.m.size() && !lt(x, k, x.m[p].k);
    auto& ref = (*x.c)[keys[k]];
    CHECK("index", (size_t)x.c->size() == x.m.size() + !has, "operator[] left size() at %ld", (long)x.c->size());
    if (has) CHECK("index", MkV<typename std::decay<decltype(ref)>::type>::tag(ref) == x.m[p].t, "operator[] returns a wrong value");
    else put(x, p, {k, 0});
    u32 t = next++; ref = MkV<typename std::decay<decltype(ref)>::type>::mk(t); x.m[p].t = t;
    at("operator[]", x, x.c->find(keys[k]), p);
  }
  void index(Slot&, u32, std::false_type) {}
  void step(unsigned w, u32 key) {
    Slot& x = s[r() % 8 < 6 ? 0 : 1 + r() % 2]; const T& cc = *x.c;
    u32 k = key; ++n_ops; size_t n = x.m.size();
    switch (w) {
      case 0: insert(x, {k, next++}); break;
      case 1: {                                          // hints: right, near, wrong, ends
        size_t h = r() % 4 == 0 ? r() % (n + 1) : r() % 3 == 0 ? (r() % 2 ? n : 0) : r() % 2 ? lower(x, k) : upper(x, k);
        if (r() % 4 == 0 && h) --h;
        hinted(x, {k, next++}, h); break;
      }
      case 2: {
        size_t a = lower(x, k), b = upper(x, k);
        int got = r() % 2 && a < b ? x.c->erase(A::key(*iter(x, a))) : x.c->erase(keys[k]);   // the key may be one of the container's
        CHECK("erase", (size_t)got == b - a, "erase(key %s) erased %d of %zu", Mk<K>::txt(keys[k]).c_str(), got, b - a);
        x.m.erase(x.m.begin() + a, x.m.begin() + b);
        at("lower_bound after erase(key)", x, x.c->lower_bound(keys[k]), a); break;
      }
      case 3: if (n) erase_at(x, r() % 3 ? lower(x, k) % n : r() % 2 ? 0 : n - 1); break;
      case 4: {
        size_t a = lower(x, k); bool has = a < n && !lt(x, k, x.m[a].k);
        if (r() % 2) {                                   // erase_one removes one of the equals
          size_t b = upper(x, k);
          bool got = r() % 2 && has ? x.c->erase_one(A::key(*iter(x, a))) : x.c->erase_one(keys[k]);
          CHECK("erase", got == has, "erase_one says %d", got);
          if (has) {
            CHECK("size", (size_t)x.c->size() == n - 1, "erase_one left size() at %ld of %zu", (long)x.c->size(), n);
            size_t g = a; It i = x.c->lower_bound(keys[k]);
            if (A::map || Mk<K>::tags) while (g + 1 < b && !(i == x.c->end()) && A::tag(*i) == x.m[g].t) { ++g; ++i; }
            x.m.erase(x.m.begin() + g);
          }
          at("lower_bound after erase_one", x, x.c->lower_bound(keys[k]), a);
        } else {                                         // conversions between the iterator kinds
          size_t p = r() % (n + 1); It i = iter(x, p); typename T::reverse_iterator q(i); typename T::const_reverse_iterator cq(i), cr(q); CIt c(i);
          if (p) { CHECK("iterator", same(*q, x.m[p - 1]) && same(*cq, x.m[p - 1]) && same(*cr, x.m[p - 1]), "a reverse iterator made from index %zu of %zu is at a wrong element", p, n); auto q2 = q; ++q2; --q2; CHECK("iterator", q2 == q, "reverse ++ and -- do not cancel at %zu of %zu", p, n); if (p > 1) { q2 = q; ++q2; CHECK("iterator", same(*q2, x.m[p - 2]), "reverse ++ is at a wrong element"); } }
          else CHECK("iterator", q == x.c->rend(), "a reverse iterator made from begin() is not rend()");
          if (n) { if (p < n) CHECK("iterator", It(q) == i && CIt(q) == c && CIt(cq) == c, "a forward iterator made from a reverse one is at a wrong place (index %zu of %zu)", p, n); }
          // walking
          auto z = x.c->rbegin(); size_t m = n; while (m > p) { if (r() % 2) ++z; else z++; --m; }
          if (p) CHECK("iterator", same(*z, x.m[p - 1]), "reverse walk to %zu of %zu", p, n);
          CHECK("iterator", It(z) == i, "the forward iterator made after a reverse walk is at a wrong place (index %zu of %zu)", p, n);
          if (p < n) { --z; CHECK("iterator", same(*z, x.m[p]), "reverse -- is at a wrong element (index %zu of %zu)", p, n); }
        }
        break;
      }
      case 5: {
        size_t a = lower(x, k), b = upper(x, k); bool has = a < b;
        bool c = r() % 2;
        if (c) { at("lower_bound const", x, cc.lower_bound(keys[k]), a); at("upper_bound const", x, cc.upper_bound(keys[k]), b); auto e = cc.equal_range(keys[k]); at("equal_range const", x, e.first, a); at("equal_range const", x, e.second, b); }
        else { at("lower_bound", x, x.c->lower_bound(keys[k]), a); at("upper_bound", x, x.c->upper_bound(keys[k]), b); auto e = x.c->equal_range(keys[k]); at("equal_range", x, e.first, a); at("equal_range", x, e.second, b); }
        CHECK("count", (size_t)cc.count(keys[k]) == b - a, "count(%s) is %ld of %zu", Mk<K>::txt(keys[k]).c_str(), (long)cc.count(keys[k]), b - a);
        CHECK("find", cc.exists(keys[k]) == has, "exists() of key %s should be %d", Mk<K>::txt(keys[k]).c_str(), has);
        if (!has) CHECK("find", (c ? cc.find(keys[k]) == cc.end() : x.c->find(keys[k]) == x.c->end()), "find of an absent key finds something");
        else if (!A::multi) { at("find", x, x.c->find(keys[k]), a); at("find const", x, cc.find(keys[k]), a); }
        else { It i = x.c->find(keys[k]); CHECK("find", !(i == x.c->end()) && !lt2(x, A::key(*i), keys[k]) && !lt2(x, keys[k], A::key(*i)), "find of key %s is at a wrong element", Mk<K>::txt(keys[k]).c_str()); }
        break;
      }
      case 6: index(x, k, std::integral_constant<bool, A::map && !A::multi>()); break;
      case 7: {                                          // copies and assignment
        Slot& y = s[r() % 3];
        if (r() % 2) { *y.c = *x.c; if (&y != &x) { y.m = x.m; y.rev = x.rev; } }
        else if (&y != &x) { delete y.c; y.c = new T(*x.c); y.m = x.m; y.rev = x.rev; }
        full(y); CHECK("compare", *y.c == *x.c && !(*y.c != *x.c), "a copy differs from its original");
        break;
      }
      case 8: {                                          // comparison of neighbours
        Slot& y = s[r() % 3]; bool eq = y.m.size() == n; std::vector<Val> a, b;
        for (auto& e : x.m) a.push_back(val(e)); for (auto& e : y.m) b.push_back(val(e));
        for (size_t i = 0; eq && i < n; ++i) eq = a[i] == b[i];
        bool l = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()), g = std::lexicographical_compare(b.begin(), b.end(), a.begin(), a.end());
        CHECK("compare", (*x.c == *y.c) == eq && (*x.c != *y.c) != eq, "== of two containers is wrong (should be %d)", eq);
        CHECK("compare", (*x.c < *y.c) == l && (*x.c > *y.c) == g && (*x.c <= *y.c) != g && (*x.c >= *y.c) != l, "the order of two containers is wrong (< should be %d, > %d)", l, g);
        CHECK("compare", x.c->key_comp()(keys[0], keys[univ - 1]) == lt(x, 0, univ - 1), "key_comp() has lost its state");
        break;
      }
      case 9: {
        Slot& y = s[r() % 3]; if (&y == &x) break;
        if (r() % 2) x.c->swap(*y.c); else std::swap(*x.c, *y.c);
        std::swap(x.m, y.m); std::swap(x.rev, y.rev); full(x); full(y); break;
      }
      case 10: if (r() % 4 == 0) { x.c->clear(); x.m.clear(); full(x); } break;
      case 11: {                                         // range insertion, range construction
        std::vector<E> es; std::vector<Val> vs; size_t m = r() % 40;
        for (size_t i = 0; i < m; ++i) { E e{(u32)(r() % univ), next++}; es.push_back(e); vs.push_back(val(e)); }
        if (r() % 4 == 0) {
          Slot& y = s[1 + r() % 2]; delete y.c; y.rev = r() % 2; y.c = new T(vs.begin(), vs.end(), MkC<Cmp>::mk(y.rev), Alloc<Val>(1)); y.m.clear();
          model_range(y, es); break;
        }
        if (r() % 2) x.c->insert(vs.begin(), vs.end()); else { std::list<Val> l(vs.begin(), vs.end()); x.c->insert(l.begin(), l.end()); }
        model_range(x, es); break;
      }
      case 12: if (A::multi && n) {                      // a value that is an element of the container itself
        size_t p = r() % n; E e = x.m[p]; ++n_selfref;
        It i = iter(x, p); It j = ins_result(x.c->insert(*i)).first;
        p = place(x, {e.k, e.t}, j); put(x, p, e); at("insert of an element of the container", x, j, p); break;
      } break;
      case 13: {                                         // bulk load
        if (r() % 8) { if (n) erase_at(x, r() % n); break; }
        size_t m = r() % 3 ? r() % 60 : r() % 2000; std::vector<E> es; std::vector<Val> vs; Slot& y = s[r() % 3];
        for (size_t i = 0; i < m; ++i) es.push_back({(u32)(r() % univ), next++});
        fresh(y, r() % 2); std::stable_sort(es.begin(), es.end(), [&](const E& a, const E& b) { return lt(y, a.k, b.k); });
        if (!A::multi) es.erase(std::unique(es.begin(), es.end(), [](const E& a, const E& b) { return a.k == b.k; }), es.end());
        for (auto& e : es) vs.push_back(val(e));
        if (r() % 2) y.c->bulk_load(vs.begin(), vs.end()); else y.c->bulk_load(vs.data(), vs.data() + vs.size());
        y.m = es; full(y); n_bulk++; break;
      }
    }
  }
  bool lt2(Slot& x, const K& a, const K& b) { return MkC<Cmp>::mk(x.rev)(a, b); }
  void model_range(Slot& x, const std::vector<E>& es) {
    for (auto& e : es) { size_t p = lower(x, e.k); if (A::multi) put(x, upper(x, e.k), e); else if (p == x.m.size() || lt(x, e.k, x.m[p].k)) put(x, p, e); }
    if (A::multi && (A::map || Mk<K>::tags)) {           // the order among equals is the container's choice
      size_t p = 0;
      CHECK("size", (size_t)x.c->size() == x.m.size(), "range insertion left size() at %ld instead of %zu", (long)x.c->size(), x.m.size());
      for (It i = x.c->begin(); !(i == x.c->end()) && p < x.m.size();) {
        size_t q = upper(x, x.m[p].k); std::multiset<u32> want, got;
        std::vector<u32> order;
        for (size_t j = p; j < q && !(i == x.c->end()); ++j, ++i) { want.insert(x.m[j].t); got.insert(A::tag(*i)); order.push_back(A::tag(*i)); }
        CHECK("content", want == got && order.size() == q - p, "range insertion: wrong elements with key %s", Mk<K>::txt(keys[x.m[p].k]).c_str());
        for (size_t j = p; j < q && j - p < order.size(); ++j) x.m[j].t = order[j - p];
        p = q;
      }
    }
    full(x);
  }
  void go(unsigned ops) {
    for (int i = 0; i < 3; ++i) fresh(s[i], i == 0 ? r() % 2 : r() % 2);
    // phases with different mixes and key patterns
    while (ops) {
      unsigned len = std::min<unsigned>(ops, 20 + r() % 200); ops -= len;
      unsigned mix = r() % 6, pat = r() % 5; u32 cur = r() % univ;
      static const unsigned W[6][14] = {{10, 4, 1, 1, 0, 3, 2, 0, 0, 0, 0, 1, 1, 0}, {4, 2, 5, 5, 1, 3, 1, 0, 0, 0, 0, 0, 1, 1}, {1, 1, 6, 6, 1, 2, 0, 0, 0, 0, 0, 0, 1, 2},
                                        {3, 3, 3, 3, 1, 3, 2, 1, 1, 1, 1, 1, 2, 1}, {0, 12, 1, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 2, 10, 0, 1, 0, 0, 0, 0, 0, 0, 0, 2}};
      unsigned tot = 0; for (unsigned y : W[mix]) tot += y;
      for (unsigned i = 0; i < len; ++i) {
        u32 k = pat == 0 ? r() % univ : pat == 1 ? cur++ % univ : pat == 2 ? (cur = (cur + univ - 1) % univ) : pat == 3 ? (cur + r() % 8) % univ : r() % 4 ? cur : r() % univ;
        unsigned d = r() % tot, w = 0; while (d >= W[mix][w]) d -= W[mix][w++];
        step(w, k);
      }
      full(s[0]); if (r() % 4 == 0) { full(s[1]); full(s[2]); }
      v::progress();
    }
    for (int i = 0; i < 3; ++i) { full(s[i]); delete s[i].c; s[i].c = nullptr; }
    CHECK("allocator", arena.live.empty() && arena.bytes == 0, "%zu blocks are still allocated", arena.live.size());
  }
};
template <class A> static void one(Rng& r, const char* kind, const char* name, u32 univ, unsigned ops) {
  long before = live_objs; std::string nm = fmt("%s<%s>", kind, name);
  v::current_case() = nm + fmt(" universe=%u ops=%u", univ, ops);
  v::sample(v::current_case());
  { Run<A> x(r, nm.c_str(), univ); x.go(ops); }
  CHECK("element", live_objs == before, "%ld elements were not destroyed", live_objs - before);
}
#define MAP(K, V, C, L, I, B, ...) one<MapT<K, V, C, Tr<L, I, B>>>(r, "map", __VA_ARGS__)
#define MMAP(K, V, C, L, I, B, ...) one<MMapT<K, V, C, Tr<L, I, B>>>(r, "multimap", __VA_ARGS__)
#define SET(K, C, L, I, B, ...) one<SetT<K, C, Tr<L, I, B>>>(r, "set", __VA_ARGS__)
#define MSET(K, C, L, I, B, ...) one<MSetT<K, C, Tr<L, I, B>>>(r, "multiset", __VA_ARGS__)
int main(int argc, char** argv) {
  v::Args args(argc, argv);
  u64 seed = args.num("seed", 1), n = args.num("n", 100);
  v::start_watchdog();
  for (u64 i = 0; i < n; ++i) {
    Rng r(v::mix(seed, i));
    unsigned ops = r() % 8 == 0 ? 4000 : 200 + r() % 1200;
    u32 univ = r() % 4 == 0 ? 4 + r() % 30 : r() % 3 == 0 ? 2000 : 100 + r() % 400;
    switch (r() % 6) {
#if PART == 0
      case 0: MAP(int, u64, std::less<int>, 4, 4, 0, "int,4,4,binary", univ, ops); break;
      case 1: MMAP(int, u32, std::greater<int>, 5, 4, 9999, "int greater,5,4,linear", univ, ops); break;
      case 2: SET(unsigned char, std::less<unsigned char>, 8, 4, 256, "uchar,8,4", std::min(univ, 256u), ops); break;
      case 3: MSET(int, StLess<int>, 4, 8, 0, "int stateful,4,8,binary", univ, ops); break;
      case 4: one<MapT<u64, u64, std::less<u64>, tlx::btree_default_traits<u64, std::pair<u64, u64>>>>(r, "map", "u64,default", univ, ops); break;
      default: MMAP(short, u32, std::less<short>, 6, 7, 0, "short,6,7,binary", univ, ops); break;
#elif PART == 1
      case 0: MAP(std::string, u32, std::less<std::string>, 8, 8, 256, "string,8,8", univ, ops); break;
      case 1: MMAP(std::string, std::string, std::greater<std::string>, 4, 4, 0, "string greater,4,4,binary", univ, ops); break;
      case 2: SET(std::string, std::less<std::string>, 4, 5, 9999, "string,4,5,linear", univ, ops); break;
      case 3: MSET(std::string, StLess<std::string>, 7, 4, 256, "string stateful,7,4", univ, ops); break;
      default: MMAP(Blob<44>, u32, std::less<Blob<44>>, 16, 5, 256, "44 bytes,16,5", univ, ops); break;
      case 5: one<MSetT<u32, std::greater<u32>, tlx::btree_default_traits<u32, u32>>>(r, "multiset", "u32 greater,default", univ, ops); break;
#else
      case 0: MAP(Obj, Obj, std::less<Obj>, 8, 4, 256, "obj,8,4", univ, ops); break;
      case 1: MMAP(Obj, u32, StLess<Obj>, 4, 4, 0, "obj stateful,4,4,binary", univ, ops); break;
      case 2: SET(Obj, StLess<Obj>, 5, 5, 9999, "obj stateful,5,5,linear", univ, ops); break;
      case 3: MSET(Obj, StLess<Obj>, 4, 6, 256, "obj stateful,4,6", univ, ops); break;
      case 4: SET(Blob<7>, std::less<Blob<7>>, 9, 9, 0, "7 bytes,9,9,binary", univ, ops); break;
      default: MAP(Obj, std::string, StLess<Obj>, 32, 4, 0, "obj stateful,32,4,binary", univ, ops); break;
#endif
    }
  }
  v::evals() += n_checks;
  v::stat("operations", n_ops); v::stat("bulk_loads", n_bulk); v::stat("insertions_of_own_elements", n_selfref); v::maxstat("height", max_height);
  v::finish();
  return 0;
}
