// P24: tlx sorting networks, merges, multisequence selection, merge sort and string sorts, each result judged against std::stable_sort of the input.
// PART 0 sequential algorithms, 1 sequential string sorts, 2 parallel string sorts, 3 parallel merges and merge sort (2 and 3 also built with TSan)
#include "common.h"
#include <functional>
#include <memory>
#include <numeric>
#include <random>
#include <string>
#include <vector>
#include <algorithm>
#include <tlx/algorithm/exclusive_scan.hpp>
#include <tlx/algorithm/is_sorted_cmp.hpp>
#include <tlx/algorithm/merge_advance.hpp>
#include <tlx/algorithm/merge_combine.hpp>
#include <tlx/algorithm/multisequence_partition.hpp>
#include <tlx/algorithm/multisequence_selection.hpp>
#include <tlx/algorithm/multiway_merge.hpp>
#include <tlx/algorithm/parallel_multiway_merge.hpp>
#include <tlx/algorithm/random_bipartition_shuffle.hpp>
#include <tlx/sort/networks/best.hpp>
#include <tlx/sort/networks/bose_nelson.hpp>
#include <tlx/sort/networks/bose_nelson_parameter.hpp>
#include <tlx/sort/parallel_mergesort.hpp>
#include <tlx/sort/strings.hpp>
#include <tlx/sort/strings_parallel.hpp>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define LIVE() __sanitizer_get_current_allocated_bytes()
#else
#define LIVE() size_t(0)
#endif
using namespace vf;
static std::string ctx;
#define BAD(cls, ...) viol(cls, "%s: %s", ctx.c_str(), fmt(__VA_ARGS__).c_str())
static unsigned long seed_, n_, n_strings, n_merged;

// elements: key decides the order, id = (sequence, position)
struct E { int key; unsigned id; };
struct Fat { int key; unsigned id; long pad[5]; };
struct Str { int key; unsigned id; std::string s; Str() : key(0), id(0) {} Str(int k, unsigned i) : key(k), id(i), s(k % 3 ? "x" : "a string that does not fit into its object: " + std::to_string(k)) {} };
template <class T> T mk(int k, unsigned id) { T t{}; t.key = k; t.id = id; return t; }
template <> Str mk<Str>(int k, unsigned id) { return Str(k, id); }
template <class T> bool intact(const T&) { return true; }
template <> bool intact<Str>(const Str& t) { return t.s == Str(t.key, t.id).s; }
template <class T> struct Less { bool operator()(const T& a, const T& b) const { return a.key < b.key; } };
template <class T> struct Greater { bool operator()(const T& a, const T& b) const { return a.key > b.key; } };
// a comparator with state, not default constructible
template <class T> struct Table { const int* w; explicit Table(const int* t) : w(t) {} bool operator()(const T& a, const T& b) const { return w[a.key & 1023] < w[b.key & 1023]; } };
static int weights[1024];
template <class C> struct Make { static C get() { return C(); } };
template <class T> struct Make<Table<T>> { static Table<T> get() { return Table<T>(weights); } };

template <class T, class C> struct Input {
    std::vector<T*> buf; std::vector<std::pair<T*, T*>> seq; std::vector<T> all; C cmp; size_t total = 0;
    Input(Rng& r, int k, int maxlen, int keys, bool nonempty, bool sentinel) : cmp(Make<C>::get()) {
        int style = r() % 4;
        for (int i = 0; i < k; i++) {
            int len = style == 0 ? r.below(maxlen + 1) : style == 1 ? (r.chance(50, 100) ? r.below(3) : r.below(maxlen + 1)) : style == 2 ? maxlen : r.below(r.below(maxlen + 1) + 1);
            if (nonempty && !len) len = 1;
            std::vector<T> v;
            int lo = style == 3 ? i * keys / 2 : 0;
            for (int j = 0; j < len; j++) v.push_back(mk<T>(lo + int(r.below(keys)), 0));
            std::stable_sort(v.begin(), v.end(), cmp);
            for (int j = 0; j < len; j++) v[j].id = unsigned(i) << 20 | j, all.push_back(v[j]);
            T* b = new T[len + (sentinel ? 1 : 0)];
            std::copy(v.begin(), v.end(), b);
            if (sentinel) b[len] = mk<T>(max_key(), ~0u);
            buf.push_back(b); seq.push_back({b, b + len}); total += len;
        }
        std::stable_sort(all.begin(), all.end(), cmp); // by key, then sequence, then position
    }
    static int max_key() { return std::is_same<C, Greater<T>>::value ? -1 : 1 << 30; }
    ~Input() { for (T* b : buf) delete[] b; }
};
template <class T> static std::string show(const std::vector<std::pair<T*, T*>>& s) {
    std::string o;
    for (size_t i = 0; i < s.size() && i < 12; i++) { o += "["; for (T* p = s[i].first; p != s[i].second && p - s[i].first < 10; p++) o += std::to_string(p->key) + " "; o += fmt("(%d)]", int(s[i].second - s[i].first)); }
    return o.substr(0, 400);
}
template <class T, class C> static void check_merge(Input<T, C>& in, const std::vector<std::pair<T*, T*>>& before, const std::vector<std::pair<T*, T*>>& after, T* out, T* end, size_t size, bool stable) {
    if (end != out + size) BAD("merge-end", "returned end is %ld elements after the target, %zu were requested; %s", long(end - out), size, show(before).c_str());
    size_t adv = 0;
    for (size_t i = 0; i < before.size(); i++) {
        if (after[i].second != before[i].second || after[i].first < before[i].first || after[i].first > after[i].second) BAD("merge-advance", "sequence %zu of %zu was left at %ld of %ld", i, before.size(), long(after[i].first - before[i].first), long(before[i].second - before[i].first));
        adv += after[i].first - before[i].first;
    }
    if (adv != size) BAD("merge-advance", "the inputs were advanced by %zu elements, %zu were merged; %s", adv, size, show(before).c_str());
    std::vector<unsigned> ids, want;
    for (size_t i = 0; i < size; i++) {
        if (!intact(out[i])) BAD("merge-value", "element %zu of the output is damaged", i);
        if (stable ? out[i].id != in.all[i].id || out[i].key != in.all[i].key : in.cmp(out[i], in.all[i]) || in.cmp(in.all[i], out[i]))
            BAD(stable ? "merge-stable" : "merge-order", "element %zu of %zu of the output has key %d from sequence %u position %u, expected key %d from %u position %u; %s", i, size, out[i].key, out[i].id >> 20, out[i].id & 0xfffff, in.all[i].key, in.all[i].id >> 20, in.all[i].id & 0xfffff, show(before).c_str());
        ids.push_back(out[i].id);
    }
    for (size_t i = 0; i < before.size(); i++) for (T* p = before[i].first; p != after[i].first; p++) want.push_back(p->id);
    std::sort(ids.begin(), ids.end()); std::sort(want.begin(), want.end());
    if (ids != want) BAD("merge-lost", "the output is not what the inputs were advanced over");
    n_merged += size;
    ++evals();
}
static const char* mwma_name[] = {"LOSER_TREE", "LOSER_TREE_COMBINED", "LOSER_TREE_SENTINEL", "BUBBLE"};
static const tlx::MultiwayMergeAlgorithm mwmas[] = {tlx::MWMA_LOSER_TREE, tlx::MWMA_LOSER_TREE_COMBINED, tlx::MWMA_LOSER_TREE_SENTINEL, tlx::MWMA_BUBBLE};

#if PART == 0
template <class T, class C> static void merges(Rng& r) {
    bool sent = r.chance(40, 100), stable = r.chance(50, 100); int a = r() % 4;
    int k = r.chance(60, 100) ? r.below(7) : r.below(40);
    Input<T, C> in(r, k, r.chance(50, 100) ? 6 : 60, r.chance(30, 100) ? 2 : r.chance(50, 100) ? 12 : 400, false, sent);
    size_t size = r.chance(40, 100) ? in.total : in.total ? r.below(in.total + 1) : 0;
    ctx = fmt("%smultiway_merge%s(%d sequences, %zu of %zu elements, %s, %zu-byte values)", stable ? "stable_" : "", sent ? "_sentinels" : "", k, size, in.total, mwma_name[a], sizeof(T));
    auto seq = in.seq; std::unique_ptr<T[]> out(new T[size]);
    T* e;
    if (sent) e = stable ? tlx::stable_multiway_merge_sentinels(seq.begin(), seq.end(), out.get(), size, in.cmp, mwmas[a]) : tlx::multiway_merge_sentinels(seq.begin(), seq.end(), out.get(), size, in.cmp, mwmas[a]);
    else e = stable ? tlx::stable_multiway_merge(seq.begin(), seq.end(), out.get(), size, in.cmp, mwmas[a]) : tlx::multiway_merge(seq.begin(), seq.end(), out.get(), size, in.cmp, mwmas[a]);
    check_merge(in, in.seq, seq, out.get(), e, size, stable);
    distinct().add(mix(mix(k, in.total), mix(size, a * 4 + sent * 2 + stable)));
    if (k == 2) {
        auto s2 = in.seq; int v = r() % 3;
        ctx = fmt("merge_advance variant %d (%zu of %zu elements)", v, size, in.total);
        T* t = out.get(); auto &p = s2[0], &q = s2[1];
        T* e2 = v == 0 ? tlx::merge_advance(p.first, p.second, q.first, q.second, t, long(size), in.cmp) : v == 1 ? tlx::merge_advance_usual(p.first, p.second, q.first, q.second, t, long(size), in.cmp) : tlx::merge_advance_movc(p.first, p.second, q.first, q.second, t, long(size), in.cmp);
        check_merge(in, in.seq, s2, t, e2, size, true);
    }
}
template <class T, class C> static void selections(Rng& r) {
    int k = 1 + (r.chance(60, 100) ? r.below(6) : r.below(30));
    Input<T, C> in(r, k, r.chance(50, 100) ? 9 : 80, r.chance(30, 100) ? 1 + r.below(3) : r.chance(50, 100) ? 12 : 400, true, false);
    for (int q = 0; q < 6; q++) {
        long rank = q == 0 ? 0 : q == 1 ? in.total : r.below(in.total + 1);
        ctx = fmt("multisequence_partition(%d sequences, rank %ld of %zu)", k, rank, in.total);
        std::vector<T*> off(k);
        if (r.chance(50, 100)) tlx::multisequence_partition(in.seq.begin(), in.seq.end(), rank, off.begin(), in.cmp); else tlx::multisequence_partition(in.seq.begin(), in.seq.end(), int(rank), off.begin(), in.cmp);
        std::vector<long> want(k, 0); for (long i = 0; i < rank; i++) want[in.all[i].id >> 20]++;
        for (int i = 0; i < k; i++) if (off[i] - in.seq[i].first != want[i]) BAD("partition", "sequence %d is split at %ld, expected %ld; %s", i, long(off[i] - in.seq[i].first), want[i], show(in.seq).c_str());
        ++evals(); distinct().add(mix(mix(k, in.total), rank));
        if (rank < (long)in.total) {
            ctx = fmt("multisequence_selection(%d sequences, rank %ld of %zu)", k, rank, in.total);
            long o = -77; T v = tlx::multisequence_selection<T>(in.seq.begin(), in.seq.end(), rank, o, in.cmp);
            if (in.cmp(v, in.all[rank]) || in.cmp(in.all[rank], v) || !intact(v)) BAD("selection", "selected key %d, expected %d; %s", v.key, in.all[rank].key, show(in.seq).c_str());
            long less = 0; while (in.cmp(in.all[less], v)) less++;
            if (o != rank - less) BAD("selection-offset", "offset %ld, expected %ld: %ld elements are less than the selected one; %s", o, rank - less, less, show(in.seq).c_str());
            ++evals();
        } else {
            bool thrown = false; long o; try { tlx::multisequence_selection<T>(in.seq.begin(), in.seq.end(), rank, o, in.cmp); } catch (std::exception&) { thrown = true; }
            if (!thrown) BAD("selection-range", "no exception for a rank out of range");
        }
    }
}
static void small(Rng& r) {
    int n = r.below(30), m = r.below(30), K = 1 + r.below(20);
    std::vector<int> a, b; for (int i = 0; i < n; i++) a.push_back(r.below(K)); for (int i = 0; i < m; i++) b.push_back(r.below(K));
    { ctx = fmt("exclusive_scan of %d", n); std::unique_ptr<long[]> o(new long[n + 1]); long init = r.below(100) - 50; long* e = tlx::exclusive_scan(a.begin(), a.end(), o.get(), init);
      if (e != o.get() + n + 1) BAD("scan", "end at %ld", long(e - o.get())); long s = init; for (int i = 0; i <= n; i++) { if (o[i] != s) BAD("scan", "sum %d is %ld, expected %ld", i, o[i], s); if (i < n) s += a[i]; } }
    { auto c3 = [](int x, int y) { return x < y ? -1 : x > y; }; ctx = "is_sorted_cmp"; std::vector<int> s = a; if (r.chance(50, 100)) std::sort(s.begin(), s.end()); if (r.chance(50, 100) && n) std::swap(s[r.below(n)], s[r.below(n)]);
      if (tlx::is_sorted_cmp(s.begin(), s.end(), c3) != std::is_sorted(s.begin(), s.end()) || tlx::is_sorted_until_cmp(s.begin(), s.end(), c3) != std::is_sorted_until(s.begin(), s.end())) BAD("sorted-cmp", "differs from std::is_sorted of %d values", n); }
    { ctx = "merge_combine"; std::vector<int> x(a), y(b); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); y.erase(std::unique(y.begin(), y.end()), y.end());
      std::vector<std::pair<int, int>> p, q, o, w; for (int v : x) p.push_back({v, 1}); for (int v : y) q.push_back({v, 2});
      tlx::merge_combine(p.begin(), p.end(), q.begin(), q.end(), std::back_inserter(o), [](const std::pair<int, int>& s, const std::pair<int, int>& t) { return s.first - t.first; }, [](const std::pair<int, int>& s, const std::pair<int, int>& t) { return std::make_pair(s.first, s.second + t.second); });
      for (int v = 0; v < K; v++) { int c = std::binary_search(x.begin(), x.end(), v) + 2 * std::binary_search(y.begin(), y.end(), v); if (c) w.push_back({v, c}); }
      if (o != w) BAD("merge-combine", "%zu and %zu values combined to %zu, expected %zu", p.size(), q.size(), o.size(), w.size()); }
    { size_t left = n ? r.below(n + 1) : 0; ctx = fmt("random_bipartition_shuffle(%d, %zu)", n, left); std::vector<int> s(a); std::unique_ptr<int[]> h(new int[n]); std::copy(s.begin(), s.end(), h.get()); std::mt19937 g(r());
      tlx::random_bipartition_shuffle(h.get(), h.get() + n, left, g); std::vector<int> t(h.get(), h.get() + n); std::sort(t.begin(), t.end()); std::sort(s.begin(), s.end()); if (s != t) BAD("bipartition", "not a permutation"); }
    evals() += 4;
}
static void bipartition_uniform(Rng& r) {
    int n = 2 + r.below(9), left = r.below(n + 1), N = 8000; std::vector<int> cnt(n); std::mt19937 g(r()); std::vector<int> pairs(n * n);
    for (int t = 0; t < N; t++) { std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); tlx::random_bipartition_shuffle(v.begin(), v.end(), left, g); for (int i = 0; i < left; i++) { cnt[v[i]]++; for (int j = 0; j < left; j++) pairs[v[i] * n + v[j]]++; } }
    double p = double(left) / n, sd = std::sqrt(N * p * (1 - p) + 1), p2 = left < 2 ? 0 : p * (left - 1) / (n - 1), sd2 = std::sqrt(N * p2 * (1 - p2) + 1);
    for (int i = 0; i < n; i++) { if (std::abs(cnt[i] - N * p) > 7 * sd) viol("bipartition-bias", "random_bipartition_shuffle(%d, %d): element %d is in the left part %d of %d times", n, left, i, cnt[i], N);
      for (int j = 0; j < n; j++) if (i != j && std::abs(pairs[i * n + j] - N * p2) > 7 * sd2) viol("bipartition-bias", "random_bipartition_shuffle(%d, %d): elements %d and %d are together in the left part %d of %d times", n, left, i, j, pairs[i * n + j], N); }
    ++evals();
}
template <class T, class C> static void network(int which, T* b, int n, C c) {
    if (which == 0) tlx::sort_networks::best::sort(b, b + n, c);
    else if (which == 1) tlx::sort_networks::bose_nelson::sort(b, b + n, c);
    else tlx::sort_networks::bose_nelson_parameter::sort(b, b + n, c);
}
static const char* net_name[] = {"best", "bose_nelson", "bose_nelson_parameter"};
// 0-1 principle: a network that sorts all vectors of zeros and ones sorts everything
static void networks_exhaustive() {
    for (int w = 0; w < 3; w++) for (int n = 0; n <= 16; n++) {
        std::unique_ptr<unsigned char[]> b(new unsigned char[n]);
        for (unsigned m = 0; m < 1u << n; m++) {
            for (int i = 0; i < n; i++) b[i] = m >> i & 1;
            network(w, b.get(), n, std::less<unsigned char>());
            int ones = __builtin_popcount(m);
            for (int i = 0; i < n; i++) if (b[i] != (i >= n - ones)) viol("network", "the sorting network %s for %d elements does not sort the pattern %x", net_name[w], n, m);
        }
        evals() += 1u << n; distinct().add(mix(w, n + 1000));
    }
    stat("networks_proved_by_all_01_inputs", 51);
}
template <class T, class C> static void networks_random(Rng& r) {
    int w = r() % 3, n = r.below(17); C c = Make<C>::get();
    std::unique_ptr<T[]> b(new T[n]); std::vector<T> v; for (int i = 0; i < n; i++) { b[i] = mk<T>(r.below(20), i); v.push_back(b[i]); }
    network(w, b.get(), n, c); std::stable_sort(v.begin(), v.end(), c);
    std::vector<unsigned> ids; for (int i = 0; i < n; i++) { if (c(b[i], v[i]) || c(v[i], b[i]) || !intact(b[i])) viol("network", "the sorting network %s leaves %d elements unsorted", net_name[w], n); ids.push_back(b[i].id); }
    std::sort(ids.begin(), ids.end()); for (int i = 0; i < n; i++) if (ids[i] != unsigned(i)) viol("network", "the sorting network %s loses an element of %d", net_name[w], n);
    ++evals();
}

#endif
#if PART == 1 || PART == 2
// ---- strings
typedef unsigned char uc;
static std::vector<std::string> strings(Rng& r, size_t n, bool& longest) {
    std::vector<std::string> v; int style = r() % 7; std::string pre(style == 3 ? r.below(300) : r.below(4), 'p'); longest = false;
    for (size_t i = 0; i < n; i++) {
        std::string s;
        auto rnd = [&](int len, int alpha) { for (int j = 0; j < len; j++) s += char(alpha == 255 ? 1 + r.below(255) : alpha == 2 ? "a\xe9"[r.below(2)] : 'a' + r.below(alpha)); };
        switch (style) {
        case 0: rnd(r.below(8), 255); break;
        case 1: rnd(r.below(20), 2); break;
        case 2: rnd(r.below(3), 3); break;
        case 3: s = pre; rnd(r.below(6), 4); break;
        case 4: if (i && r.chance(60, 100)) { s = v[r.below(i)]; if (r.chance(50, 100)) s.resize(r.below(s.size() + 1)); if (r.chance(70, 100)) rnd(1 + r.below(9), 3); if (s.size() > 400) s.resize(400); } else rnd(r.below(12), 3); break;
        case 5: s.assign(r.below(n < 200 ? 200 : 40), 'z'); if (r.chance(30, 100)) s += char(1 + r.below(255)); break;
        default: s = std::to_string(r.below(n * 2 + 1)); if (r.chance(20, 100)) s = "000000" + s; break;
        }
        if (r.chance(2, 100) && i) s = v[r.below(i)];
        v.push_back(s);
    }
    if (r.chance(30, 100)) std::sort(v.begin(), v.end());
    else if (r.chance(20, 100)) std::sort(v.rbegin(), v.rend());
    return v;
}
struct SmallP : tlx::sort_strings_detail::PS5ParametersDefault { static const unsigned TreeBits = 3; using Classify = tlx::sort_strings_detail::SSClassifyTreeCalcUnrollInterleave<size_t, TreeBits>; static const size_t smallsort_threshold = 64; };
struct RestP : SmallP { static const bool enable_rest_size = true; static const size_t smallsort_threshold = 128; };
struct EqP : tlx::sort_strings_detail::PS5ParametersDefault { static const unsigned TreeBits = 4; typedef uint32_t key_type; using Classify = tlx::sort_strings_detail::SSClassifyEqualUnroll<key_type, TreeBits>; static const size_t smallsort_threshold = 200; static const bool enable_work_sharing = false; };
struct MkP : SmallP { static const bool enable_sequential_sample_sort = false; };
struct UnrP : tlx::sort_strings_detail::PS5ParametersDefault { static const unsigned TreeBits = 5; using Classify = tlx::sort_strings_detail::SSClassifyTreeUnrollInterleave<size_t, TreeBits>; static const size_t smallsort_threshold = 300; };
static const char* alg_name[] = {"radixsort_CE3", "radixsort_CE2", "radixsort_CE0", "radixsort_CI3", "radixsort_CI2", "multikey_quicksort", "insertion_sort", "parallel_sample_sort", "parallel_sample_sort<small>", "parallel_sample_sort<rest size>", "parallel_sample_sort<equal>", "parallel_sample_sort<mkqs>", "parallel_sample_sort<unroll>"};
template <class P> static void run_sort(int a, const P& p, size_t depth, size_t mem) {
    using namespace tlx::sort_strings_detail;
#if PART == 1
    switch (a) {
    case 0: radixsort_CE3(p, depth, mem); break;
    case 1: radixsort_CE2(p, depth, mem); break;
    case 2: radixsort_CE0(p, depth, mem); break;
    case 3: radixsort_CI3(p, depth, mem); break;
    case 4: radixsort_CI2(p, depth, mem); break;
    case 5: multikey_quicksort(p, depth, mem); break;
    case 6: insertion_sort(p, depth, mem); break;
    }
#else
    // each further parameter set with two of the string sets only, to bound the time to compile
    typedef typename P::StringSet Set;
    constexpr bool u = std::is_same<Set, UCharStringSet>::value, s = std::is_same<Set, StdStringSet>::value, x = std::is_same<Set, StringSuffixSet>::value, q = std::is_same<Set, UPtrStdStringSet>::value;
    if constexpr (u || s) if (a == 8) return parallel_sample_sort_params<SmallP>(p, depth, mem);
    if constexpr (u || x) if (a == 9) return parallel_sample_sort_params<RestP>(p, depth, mem);
    if constexpr (s || x) if (a == 10) return parallel_sample_sort_params<EqP>(p, depth, mem);
    if constexpr (q || u) if (a == 11) return parallel_sample_sort_params<MkP>(p, depth, mem);
    if constexpr (q || x) if (a == 12) return parallel_sample_sort_params<UnrP>(p, depth, mem);
    ctx += " (default parameters)";
    parallel_sample_sort(p, depth, mem);
#endif
}
static void check_strings(const std::vector<std::string>& want, const std::vector<std::string>& got, const std::vector<uint32_t>* lcp) {
    for (size_t i = 0; i < want.size(); i++) if (want[i] != got[i]) BAD("string-order", "string %zu of %zu is %s, expected %s", i, want.size(), hex(got[i], 40).c_str(), hex(want[i], 40).c_str());
    if (lcp) for (size_t i = 1; i < want.size(); i++) {
        size_t l = 0; while (l < want[i].size() && l < want[i - 1].size() && want[i][l] == want[i - 1][l]) l++;
        if ((*lcp)[i] != l) BAD("string-lcp", "common prefix of strings %zu and %zu of %zu is %zu bytes, reported %u: %s %s", i - 1, i, want.size(), l, (*lcp)[i], hex(want[i - 1], 40).c_str(), hex(want[i], 40).c_str());
    }
    ++evals();
}
template <class Set, class It> static void set_sort(Set ss, It, bool with_lcp, std::vector<uint32_t>& lcp, int alg, size_t depth, size_t mem) {
    using namespace tlx::sort_strings_detail;
    if (with_lcp) run_sort(alg, StringLcpPtr<Set, uint32_t>(ss, lcp.data()), depth, mem); else run_sort(alg, StringPtr<Set>(ss), depth, mem);
}
static void string_case(Rng& r, bool parallel, size_t maxn) {
    using namespace tlx::sort_strings_detail;
    size_t n = r.chance(30, 100) ? r.below(70) : r.chance(3, 100) && maxn > 70000 ? 65500 + r.below(3000) : r.below(r.below(std::min<size_t>(maxn, 6000)) + 1);
    int alg = parallel ? 7 + r() % 6 : r() % 7; if (alg == 6 && n > 500) n %= 500;
    bool lg; auto v = strings(r, n, lg); bool l = r.chance(50, 100);
    size_t depth = 0, mem = r.chance(50, 100) ? 0 : r.chance(50, 100) ? 1 + r.below(3000) : 1 + r.below(3000000);
    if (r.chance(20, 100)) { depth = 1 + r.below(9); std::string p(depth, 'Q'); for (auto& s : v) s = p + s; }
    std::vector<uint32_t> lcp(n + 1, 0xdeadbeef); auto want = v; std::sort(want.begin(), want.end());
    int set = r() % 6;
    // suffix sorting of a text
    if (set == 5) {
        std::string text; for (auto& s : v) { text += s; if (text.size() > 3000) break; } if (text.size() > 3000) text.resize(3000); for (auto& c : text) if (!c) c = 'x'; depth = 0;
        if (alg == 6 && text.size() > 300) text.resize(300);
        want.clear(); for (size_t i = 0; i < text.size(); i++) want.push_back(text.substr(i)); std::sort(want.begin(), want.end());
        ctx = fmt("%s of the %zu suffixes of a text, lcp %d, memory %zu", alg_name[alg], text.size(), l, mem);
        std::vector<size_t> sa; auto ss = StringSuffixSet::Initialize(text, sa); lcp.assign(text.size() + 1, 0xdeadbeef);
        set_sort(ss, 0, l, lcp, alg, 0, mem);
        std::vector<std::string> got; for (size_t i : sa) { if (i >= text.size()) BAD("string-order", "suffix %zu does not exist", i); got.push_back(text.substr(i)); }
        check_strings(want, got, l ? &lcp : nullptr);
        if (lcp.back() != 0xdeadbeef) BAD("string-lcp", "written past the end"); 
    } else {
        ctx = fmt("%s of %zu strings, set %d, depth %zu, lcp %d, memory %zu", alg_name[alg], n, set, depth, l, mem);
        // every string in a block of its own, so that reading past its end is noticed
        std::vector<std::string> got;
        if (set == 0) {
            std::unique_ptr<std::string[]> a(new std::string[n]); for (size_t i = 0; i < n; i++) a[i] = v[i];
            if (depth == 0 && r.chance(40, 100)) { ctx = fmt("sort_strings%s(std::string*) of %zu, lcp %d, memory %zu", parallel ? "_parallel" : "", n, l, mem); std::vector<std::string> vs(v);
                if (parallel) { if (l) tlx::sort_strings_parallel_lcp(vs, lcp.data(), mem); else tlx::sort_strings_parallel(vs, mem); } else if (l) tlx::sort_strings_lcp(vs, lcp.data(), mem); else tlx::sort_strings(vs, mem); got = vs; }
            else { set_sort(StdStringSet(a.get(), a.get() + n), 0, l, lcp, alg, depth, mem); got.assign(a.get(), a.get() + n); }
        } else if (set == 1) {
            std::unique_ptr<std::unique_ptr<std::string>[]> a(new std::unique_ptr<std::string>[n]); for (size_t i = 0; i < n; i++) a[i].reset(new std::string(v[i]));
            set_sort(UPtrStdStringSet(a.get(), a.get() + n), 0, l, lcp, alg, depth, mem);
            for (size_t i = 0; i < n; i++) { if (!a[i]) BAD("string-order", "string %zu is gone", i); got.push_back(*a[i]); }
        } else {
            std::vector<char*> p(n); for (size_t i = 0; i < n; i++) { p[i] = new char[v[i].size() + 1]; memcpy(p[i], v[i].c_str(), v[i].size() + 1); }
            auto orig = p; std::unique_ptr<char*[]> a(new char*[n]); std::copy(p.begin(), p.end(), a.get());
            if (depth == 0 && r.chance(40, 100)) { bool c = set & 1; ctx = fmt("sort_strings%s(%schar**) of %zu, lcp %d, memory %zu", parallel ? "_parallel" : "", c ? "const " : "", n, l, mem);
                if (c) { auto q = (const char**)a.get(); if (parallel) { if (l) tlx::sort_strings_parallel_lcp(q, n, lcp.data(), mem); else tlx::sort_strings_parallel(q, n, mem); } else if (l) tlx::sort_strings_lcp(q, n, lcp.data(), mem); else tlx::sort_strings(q, n, mem); }
                else { auto q = a.get(); if (parallel) { if (l) tlx::sort_strings_parallel_lcp(q, n, lcp.data(), mem); else tlx::sort_strings_parallel(q, n, mem); } else if (l) tlx::sort_strings_lcp(q, n, lcp.data(), mem); else tlx::sort_strings(q, n, mem); } }
            else if (set == 2) set_sort(UCharStringSet((uc**)a.get(), (uc**)a.get() + n), 0, l, lcp, alg, depth, mem);
            else set_sort(CUCharStringSet((const uc**)a.get(), (const uc**)a.get() + n), 0, l, lcp, alg, depth, mem);
            std::vector<char*> now(a.get(), a.get() + n); std::sort(now.begin(), now.end()); std::sort(orig.begin(), orig.end());
            if (now != orig) BAD("string-order", "the pointers are not a permutation of the input");
            for (size_t i = 0; i < n; i++) got.push_back(a[i]);
            for (char* q : orig) delete[] q;
        }
        check_strings(want, got, l ? &lcp : nullptr);
        if (lcp[n] != 0xdeadbeef) BAD("string-lcp", "written past the end");
    }
    distinct().add(mix(mix(n, alg * 12 + set * 2 + l), mix(depth, mem)));
    n_strings += want.size();
}

#endif
#if PART == 3
// ---- parallel merges and merge sort
template <class T, class C> static void parallel_merge(Rng& r) {
    int k = r.chance(70, 100) ? r.below(7) : r.below(20), t = 1 + r.below(r.chance(80, 100) ? 5 : 12), a = r() % 4; bool stable = r.chance(50, 100), exact = r.chance(60, 100);
    Input<T, C> in(r, k, r.chance(40, 100) ? 6 : r.chance(80, 100) ? 100 : 1500, r.chance(30, 100) ? 2 : r.chance(50, 100) ? 12 : 400, false, false);
    size_t size = r.chance(50, 100) ? in.total : in.total ? r.below(in.total + 1) : 0;
    ctx = fmt("%sparallel_multiway_merge(%d sequences, %zu of %zu elements, %s, %s splitting, %d threads)", stable ? "stable_" : "", k, size, in.total, mwma_name[a], exact ? "exact" : "sampling", t);
    auto seq = in.seq; std::unique_ptr<T[]> out(new T[size]); auto sp = exact ? tlx::MWMSA_EXACT : tlx::MWMSA_SAMPLING;
    tlx::parallel_multiway_merge_force_parallel = true;
    T* e = stable ? tlx::stable_parallel_multiway_merge(seq.begin(), seq.end(), out.get(), long(size), in.cmp, mwmas[a], sp, t) : tlx::parallel_multiway_merge(seq.begin(), seq.end(), out.get(), long(size), in.cmp, mwmas[a], sp, t);
    check_merge(in, in.seq, seq, out.get(), e, size, stable);
    distinct().add(mix(mix(k, in.total), mix(size, (a * 4 + exact * 2 + stable) * 16 + t)));
}
template <class T, class C> static void mergesort(Rng& r) {
    size_t n = r.chance(40, 100) ? r.below(12) : r.chance(80, 100) ? r.below(300) : r.below(5000); int t = 1 + r.below(r.chance(80, 100) ? 5 : 12), K = r.chance(30, 100) ? 1 + r.below(3) : r.chance(50, 100) ? 30 : 100000; bool stable = r.chance(50, 100), exact = r.chance(50, 100);
    ctx = fmt("%sparallel_mergesort(%zu elements, %d keys, %s splitting, %d threads)", stable ? "stable_" : "", n, K, exact ? "exact" : "sampling", t);
    C c = Make<C>::get(); auto sp = exact ? tlx::MWMSA_EXACT : tlx::MWMSA_SAMPLING;
    size_t live = 0;
    for (int round = 0; round < 2; round++) {
        size_t before = LIVE();
        {
            std::unique_ptr<T[]> a(new T[n]); std::vector<T> v; for (size_t i = 0; i < n; i++) { a[i] = mk<T>(r.below(K), unsigned(i)); v.push_back(a[i]); }
            if (stable) tlx::stable_parallel_mergesort(a.get(), a.get() + n, c, t, sp); else tlx::parallel_mergesort(a.get(), a.get() + n, c, t, sp);
            std::stable_sort(v.begin(), v.end(), c); std::vector<unsigned> ids;
            for (size_t i = 0; i < n; i++) {
                if (!intact(a[i])) BAD("sort-value", "element %zu of the output is damaged", i);
                if (stable ? a[i].id != v[i].id : c(a[i], v[i]) || c(v[i], a[i])) BAD("sort-order", "element %zu of the output is %d (input position %u), expected %d (%u)", i, a[i].key, a[i].id, v[i].key, v[i].id);
                ids.push_back(a[i].id);
            }
            std::sort(ids.begin(), ids.end()); for (size_t i = 0; i < n; i++) if (ids[i] != unsigned(i)) BAD("sort-lost", "input element %zu is missing or doubled", i);
        }
        size_t d = LIVE() - before; if (round && d >= 24 && d < (1u << 30) && live >= 24) BAD("sort-leak", "%zu and %zu bytes stay allocated after two sorts", live, d);
        live = d < (1u << 30) ? d : 0;
        if (!live) break;
    }
    ++evals(); distinct().add(mix(mix(n, K), t * 4 + exact * 2 + stable));
}
#endif
int main(int argc, char** argv) {
    Args a(argc, argv); seed_ = a.num("seed", 1); n_ = a.num("n", 100); const int part = PART; unsigned long first = a.num("first", 0);
    start_watchdog(60, 200);
    for (int i = 0; i < 1024; i++) weights[i] = (i * 37) % 11;
#if PART == 0
    if (!first) networks_exhaustive();
#endif
    for (unsigned long i = first; i < first + n_; i++) {
        current_case() = fmt("seed=%lu first=%lu n=1", seed_, i); progress();
        Rng r(seed_ * 1000003 + i * 7919 + part);
#define FOR(f) switch (r() % 6) { case 0: f<E, Less<E>>(r); break; case 1: f<E, Greater<E>>(r); break; case 2: f<Fat, Less<Fat>>(r); break; case 3: f<Str, Less<Str>>(r); break; case 4: f<Str, Greater<Str>>(r); break; case 5: f<E, Table<E>>(r); break; }
#define FORC(f) switch (r() % 5) { case 0: f<E, Less<E>>(r); break; case 1: f<E, Greater<E>>(r); break; case 2: f<Fat, Less<Fat>>(r); break; case 3: f<Str, Less<Str>>(r); break; case 4: f<Str, Greater<Str>>(r); break; }
#if PART == 0
        for (int j = 0; j < 4; j++) FORC(merges) FOR(selections) FOR(networks_random) small(r);
        if (i % 50 == 0) bipartition_uniform(r);
#elif PART == 3
        if (r.chance(50, 100)) FOR(parallel_merge) else FOR(mergesort)
#else
        string_case(r, PART == 2, i % 40 == 7 ? 80000 : 6000);
#endif
        if (i - first < 3) sample(ctx);
    }
    if (n_strings) stat("strings_sorted", n_strings);
    if (n_merged) stat("elements_merged", n_merged);
    finish();
}
