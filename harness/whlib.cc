// Wormhole's helper library: key-value records and encodings (kv.c), bits, strings, checksums, slabs, coroutines,
// locks and the quiescent-state reclaimer (lib.c).
#include <pthread.h>
#include <immintrin.h>
#include <cmath>
#include "lib.h"
#include "kv.h"
#include "common.h"
#include "keygen.h"
namespace v = vf;
using v::Rng; using v::fmt; using v::hex; using v::vf_perturb_thread; using v::vf_perturb_stall; using v::vf_perturb_delays;
typedef std::string S;
static u64 n_checks, n_pairs, n_shapes;
#define CHECK(cls, cond, ...) do { ++n_checks; if (!(cond)) v::viol(cls, __VA_ARGS__); } while (0)
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int cmp(const S& a, const S& b) { size_t n = std::min(a.size(), b.size()); int r = n ? memcmp(a.data(), b.data(), n) : 0; return r ? sgn(r) : a.size() < b.size() ? -1 : a.size() > b.size(); }
static u32 lcp(const S& a, const S& b) { u32 i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return i; }
static u32 crc_tab[256];
static void crc_init() { for (u32 i = 0; i < 256; ++i) { u32 c = i; for (int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0x82F63B78u : c >> 1; crc_tab[i] = c; } }
static u32 crc(const void* p, size_t n, u32 c) { const u8* b = (const u8*)p; while (n--) c = crc_tab[(c ^ *b++) & 255] ^ (c >> 8); return c; }
static u64 khash(const S& k) { u32 lo = crc(k.data(), k.size(), 0xDEADBEEFu); return ((u64)~lo << 32) | lo; }
// an exactly sized copy, so that the sanitizer sees any access outside it
struct Buf {
  u8* p; size_t n;
  explicit Buf(const S& s) : p((u8*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
  explicit Buf(size_t n_) : p((u8*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, 0xA5, n); }
  ~Buf() { free(p); }
  Buf(const Buf&) = delete;
};
static kv* mk(const S& k, const S& val) { Buf a(k), b(val); return kv_create(a.p, k.size(), b.p, val.size()); }
static S skey(const kv* x) { return S((const char*)x->kv, x->klen); }
static S sval(const kv* x) { return S((const char*)x->kv + x->klen, x->vlen); }
static S bytes(Rng& r, size_t n, int style) {
  S s(n, 0);
  for (auto& c : s) c = style == 0 ? r() : style == 1 ? "\x00\x01\x7f\x80\xff"[r() % 5] : style == 2 ? 'a' + r() % 2 : 'k';
  return s;
}
static void expect(const kv* x, const S& k, const S& val, const char* what, bool hash = true) {
  CHECK("record", x && skey(x) == k, "%s: key %s became %s", what, hex(k).c_str(), x ? hex(skey(x)).c_str() : "null");
  CHECK("record", sval(x) == val, "%s: value %s became %s", what, hex(val).c_str(), hex(sval(x)).c_str());
  if (hash) CHECK("record-hash", x->hash == khash(k), "%s: hash of %s is %lx, the definition gives %lx", what, hex(k).c_str(), x->hash, khash(k));
  CHECK("record-size", kv_size(x) == sizeof(kv) + k.size() + val.size() && key_size(x) == sizeof(kv) + k.size(), "%s: wrong size", what);
}
static void run_kv(Rng r, u64 cases) {
  for (u64 c = 0; c < cases; ++c) {
    v::current_case() = fmt("kv case %lu", c);
    int style = r() % 4;
    static const size_t lens[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 33, 64, 127, 128, 129, 255, 300, 16383, 16384, 20000};
    auto len = [&] { return r.chance(1, 3) ? lens[r() % (r.chance(1, 60) ? 25 : 22)] : r() % 40; };
    S a = bytes(r, len(), style), b;
    switch (r() % 6) {          // related keys
      case 0: b = bytes(r, len(), style); break;
      case 1: b = a; break;
      case 2: b = a.substr(0, r() % (a.size() + 1)); break;
      case 3: b = a + bytes(r, 1 + r() % 4, style); break;
      case 4: b = a; if (b.size()) b[r() % b.size()] ^= 1 << r() % 8; break;
      default: b = a.substr(0, r() % (a.size() + 1)) + bytes(r, r() % 20, style);
    }
    S va = bytes(r, r.chance(1, 2) ? r() % 20 : len(), 0), vb = r.chance(1, 3) ? va : bytes(r, r() % 20, 0);
    v::distinct().add(v::mix(v::hash_bytes(a.data(), a.size()), v::hash_bytes(b.data(), b.size())));
    kv *x = mk(a, va), *y = mk(b, vb);
    expect(x, a, va, "kv_create"); expect(y, b, vb, "kv_create");
    S d = fmt("keys %s and %s", hex(a, 60).c_str(), hex(b, 60).c_str());
    int e = cmp(a, b); u32 l = lcp(a, b);
    Buf ba(a), bb(b);
    kref ra, rb;
    kref_ref_hash32(&ra, ba.p, a.size()); kref_ref_raw(&rb, bb.p, b.size()); kref_update_hash32(&rb);
    CHECK("hash", ra.hash32 == (u32)khash(a) && rb.hash32 == (u32)khash(b), "kref hash of %s", d.c_str());
    CHECK("order", sgn(kv_compare(x, y)) == e && sgn(kv_compare(y, x)) == -e, "kv_compare of %s is %d, byte order gives %d", d.c_str(), kv_compare(x, y), e);
    CHECK("order", sgn(kref_compare(&ra, &rb)) == e, "kref_compare of %s is %d, byte order gives %d", d.c_str(), kref_compare(&ra, &rb), e);
    CHECK("order", sgn(kref_kv_compare(&ra, y)) == e, "kref_kv_compare of %s is %d, byte order gives %d", d.c_str(), kref_kv_compare(&ra, y), e);
    CHECK("match", kv_match(x, y) == !e && kv_match_hash(x, y) == !e, "kv_match of %s", d.c_str());
    CHECK("match", kref_match(&ra, &rb) == !e && kref_kv_match(&ra, y) == !e, "kref_match of %s", d.c_str());
    CHECK("match", kv_match_full(x, y) == (!e && va == vb), "kv_match_full of %s", d.c_str());
    CHECK("lcp", kv_key_lcp(x, y) == l && kref_lcp(&ra, &rb) == l && kref_kv_lcp(&ra, y) == l, "common prefix of %s is %u, reported %u %u %u", d.c_str(), l, kv_key_lcp(x, y), kref_lcp(&ra, &rb), kref_kv_lcp(&ra, y));
    u32 skip = l ? r() % (l + 1) : 0;
    CHECK("lcp", kv_key_lcp_skip(x, y, skip) == l, "common prefix of %s from %u", d.c_str(), skip);
    CHECK("lcp", memlcp(ba.p, bb.p, std::min(a.size(), b.size())) == l, "memlcp of %s", d.c_str());
    // the compact encoding
    size_t est = kv128_estimate_kv(y), used = 0;
    {
      Buf out(est);
      u8* p = kv128_encode_kv(y, out.p, &used);
      CHECK("kv128", p == out.p && used == est, "encoding of a record with a key of %zu and a value of %zu bytes uses %zu bytes, the estimate is %zu", b.size(), vb.size(), used, est);
      CHECK("kv128", kv128_size(out.p) == est, "kv128_size gives %zu of %zu", kv128_size(out.p), est);
      CHECK("kv128-order", sgn(kv_kv128_compare(x, out.p)) == e && sgn(kref_kv128_compare(&ra, out.p)) == e, "comparison with the encoded record: %s", d.c_str());
      CHECK("kv128-match", kv_match_kv128(x, out.p) == !e, "match with the encoded record: %s", d.c_str());
      size_t got = 0;
      kv* z = kv128_decode_kv(out.p, nullptr, &got);
      CHECK("kv128", got == est, "decoding used %zu of %zu bytes", got, est);
      expect(z, b, vb, "kv128 decode", false);
      free(z);
      size_t u2 = 0;
      u8* q = kv128_encode_kv(y, nullptr, &u2);
      CHECK("kv128", q && u2 == est && !memcmp(q, out.p, est), "encoding into a new buffer");
      free(q);
      S k128; { u8 t[8]; u8* te = vi128_encode_u32(t, b.size()); k128.assign((char*)t, te - t); }
      Buf kb(k128 + b);
      CHECK("kv128-order", sgn(kv_k128_compare(x, kb.p)) == e && sgn(kref_k128_compare(&ra, kb.p)) == e, "comparison with the encoded key: %s", d.c_str());
    }
    // copies
    kv* t = kv_dup(x); expect(t, a, va, "kv_dup"); free(t);
    t = kv_dup_key(x); expect(t, a, "", "kv_dup_key"); free(t);
    kv* big = (kv*)malloc(sizeof(kv) + std::max(a.size() + va.size(), b.size() + vb.size()));
    CHECK("dup", kv_dup2(x, big) == big, "kv_dup2"); expect(big, a, va, "kv_dup2");
    CHECK("dup", kv_dup2_key(y, big) == big, "kv_dup2_key"); expect(big, b, "", "kv_dup2_key");
    u32 pl = r() % (a.size() + 1);
    CHECK("dup", kv_dup2_key_prefix(x, big, pl) == big, "kv_dup2_key_prefix"); expect(big, a.substr(0, pl), "", "kv_dup2_key_prefix");
    t = kv_dup2(y, nullptr); expect(t, b, vb, "kv_dup2"); free(t);
    t = kv_dup2_key(y, nullptr); expect(t, b, "", "kv_dup2_key"); free(t);
    t = kv_dup2_key_prefix(x, nullptr, pl); expect(t, a.substr(0, pl), "", "kv_dup2_key_prefix"); free(t);
    kvref vr; kvref_ref_kv(&vr, x);
    t = kvref_dup2_kv(&vr, nullptr); expect(t, a, va, "kvref_dup2_kv"); free(t);
    t = kvref_dup2_key(&vr, nullptr); expect(t, a, "", "kvref_dup2_key"); free(t);
    CHECK("order", sgn(kvref_kv_compare(&vr, y)) == e, "kvref_kv_compare of %s", d.c_str());
    CHECK("order", kv_vptr(x) == x->kv + a.size() && kv_kptr(x) == x->kv && kv_vptr_c(x) == kv_vptr(x) && kv_kptr_c(x) == kv_kptr(x), "key and value pointers");
    kref kr = kv_kref(x), kr2, kr3; kref_ref_kv(&kr2, x); kref_ref_kv_hash32(&kr3, x);
    for (kref* k : {&kr, &kr2, &kr3}) CHECK("kref", k->len == a.size() && k->ptr == x->kv && k->hash32 == (u32)khash(a), "reference to a record");
    { kv* q = kvmap_mm_in_dup(x, nullptr); expect(q, a, va, "mm_in_dup"); CHECK("mm", kvmap_mm_in_noop(x, nullptr) == x, "mm_in_noop"); kvmap_mm_free_noop(q, nullptr); kv* o = kvmap_mm_out_dup(q, nullptr); expect(o, a, va, "mm_out_dup"); free(o); kvmap_mm_free_free(q, nullptr); }
    for (u64 al : {1, 8, 16, 64, 4096}) {
      size_t s = kv_size_align(x, al), s2 = key_size_align(x, al);
      CHECK("align", s % al == 0 && s >= kv_size(x) && s - kv_size(x) < al && s2 % al == 0 && s2 >= key_size(x) && s2 - key_size(x) < al, "aligned size");
    }
    // refills
    u64 num = r() >> r() % 64;
    { Buf bv(va); kv* f = (kv*)malloc(sizeof(kv) + 64 + va.size() + a.size());
      kv_refill(f, ba.p, a.size(), bv.p, va.size()); expect(f, a, va, "kv_refill");
      { Buf nv(vb); if (vb.size() <= va.size()) { kv_refill_value(f, nv.p, vb.size()); expect(f, a, vb, "kv_refill_value"); } }
      kv_refill_u64(f, num, bv.p, va.size()); expect(f, v::be64(num), va, "kv_refill_u64");
      kv_refill_hex32(f, num, bv.p, va.size()); expect(f, fmt("%08x", (u32)num), va, "kv_refill_hex32");
      kv_refill_hex64(f, num, bv.p, va.size()); expect(f, fmt("%016lx", num), va, "kv_refill_hex64");
      u32 kl = r() % 64; kv_refill_hex64_klen(f, num, kl, bv.p, va.size());
      expect(f, fmt("%016lx", num) + S(kl > 16 ? kl - 16 : 0, '!'), va, "kv_refill_hex64_klen");
      kv_refill_kref(f, &ra); expect(f, a, "", "kv_refill_kref");
      kv_refill_kref_v(f, &ra, bv.p, va.size()); expect(f, a, va, "kv_refill_kref_v");
      S sa = a, sv = va; for (auto& ch : sa) if (!ch) ch = 1; for (auto& ch : sv) if (!ch) ch = 1;
      kv_refill_str(f, sa.c_str(), bv.p, va.size()); expect(f, sa, va, "kv_refill_str");
      kv_refill_str_str(f, sa.c_str(), sv.c_str()); expect(f, sa, sv, "kv_refill_str_str");
      free(f);
      f = kv_create_str(sa.c_str(), bv.p, va.size()); expect(f, sa, va, "kv_create_str"); free(f);
      f = kv_create_str_str(sa.c_str(), sv.c_str()); expect(f, sa, sv, "kv_create_str_str"); free(f);
      f = kv_create_kref(&ra, bv.p, va.size()); expect(f, a, va, "kv_create_kref"); free(f);
    }
    free(big); free(x); free(y);
    ++n_pairs; v::progress();
    // sorting
    if (c % 8 == 0) {
      size_t n = 1 + r() % (r.chance(1, 10) ? 400 : 40);
      std::vector<kv*> k(n); std::vector<S> m(n);
      int alpha = 1 + r() % 4, mode = r() % 4;
      for (size_t i = 0; i < n; ++i) { S s = bytes(r, r() % 6, alpha == 4 ? 0 : alpha == 3 ? 1 : 2); if (mode == 0) s = v::be64(i); else if (mode == 1) s = v::be64(n - i); m[i] = s; k[i] = mk(s, v::be64(i)); }
      auto k0 = k; std::sort(k0.begin(), k0.end());
      std::sort(m.begin(), m.end(), [](const S& p, const S& q) { return cmp(p, q) < 0; });
      u64 lo = 0, hi = n - 1;
      bool part = r.chance(1, 2);
      if (part) { lo = r() % n; hi = lo + r() % (n - lo); kv_psort(k.data(), n, lo, hi); } else kv_qsort(k.data(), n);
      for (u64 i = lo; i <= hi; ++i) CHECK("sort", skey(k[i]) == m[i], "%s of %zu keys (positions %lu to %lu): position %lu has %s, a sorted array %s", part ? "kv_psort" : "kv_qsort", n, lo, hi, i, hex(skey(k[i])).c_str(), hex(m[i]).c_str());
      auto k1 = k; std::sort(k1.begin(), k1.end());
      CHECK("sort-permutation", k0 == k1, "sorting %zu keys lost or doubled some", n);
      for (auto p : k) free(p);
      ++n_shapes;
    }
  }
  expect(kv_null(), "", "", "kv_null");
  CHECK("kref", kref_null()->len == 0 && kref_null()->hash32 == (u32)khash(""), "kref_null");
}
static S dec(u64 x, int w) { S s = std::to_string(x); return S(w - s.size(), '0') + s; }
template <typename T> static T rnd(Rng& r) {
  switch (r() % 5) {
    case 0: return (T)r();
    case 1: return (T)(r() >> r() % 64);
    case 2: return (T)1 << r() % (8 * sizeof(T));
    case 3: return ((T)1 << r() % (8 * sizeof(T))) - 1;
    default: return ((T)1 << r() % (8 * sizeof(T))) + r() % 3;
  }
}
static int varlen(u64 x) { int n = 1; while (x >>= 7) ++n; return n; }
static void run_lib(Rng r, u64 cases) {
  for (u64 c = 0; c < cases; ++c) {
    v::current_case() = fmt("lib case %lu", c);
    u64 a = rnd<u64>(r), b = rnd<u64>(r); u32 s = rnd<u32>(r); int n = r() % 256;
    v::distinct().add(v::mix(a, s));
    u64 rv = 0; for (int i = 0; i < 64; ++i) if (a >> i & 1) rv |= 1ull << (63 - i);
    u32 rs = 0; for (int i = 0; i < 32; ++i) if (s >> i & 1) rs |= 1u << (31 - i);
    CHECK("bits", bits_reverse_u64(a) == rv && bits_reverse_u32(s) == rs, "bit reversal of %lx, %x", a, s);
    int m = n % 64, m2 = n % 32;
    if (m) CHECK("bits", bits_rotl_u64(a, n) == (a << m | a >> (64 - m)) && bits_rotr_u64(a, n) == (a >> m | a << (64 - m)), "rotation of %lx by %d", a, n);
    if (m2) CHECK("bits", bits_rotl_u32(s, n) == (s << m2 | s >> (32 - m2)) && bits_rotr_u32(s, n) == (s >> m2 | s << (32 - m2)), "rotation of %x by %d", s, n);
    u64 up = 1; while (up && up < a) up <<= 1;
    u64 dn = a; while (dn & (dn - 1)) dn &= dn - 1;
    if (a && up) CHECK("bits", bits_p2_up_u64(a) == up, "power of two not below %lx is %lx, got %lx", a, up, bits_p2_up_u64(a));
    if (a) CHECK("bits", bits_p2_down_u64(a) == dn, "power of two not above %lx", a);
    u32 up2 = 1; while (up2 && up2 < s) up2 <<= 1;
    u32 dn2 = s; while (dn2 & (dn2 - 1)) dn2 &= dn2 - 1;
    if (s && up2) CHECK("bits", bits_p2_up_u32(s) == up2, "power of two not below %x", s);
    if (s) CHECK("bits", bits_p2_down_u32(s) == dn2, "power of two not above %x", s);
    int pw = r() % 63; u64 al = 1ull << pw, w = a >> 2;
    if (pw < 61) { u64 q = (w + al - 1) / al * al;
      CHECK("bits", bits_round_up(w, pw) == q && bits_round_down(w, pw) == w / al * al, "rounding of %lx to 2^%d", w, pw);
      u64 an = 1 + (b >> 4); if (w < ~0ull - an) CHECK("bits", bits_round_up_a(w, an) == (w + an - 1) / an * an && bits_round_down_a(w, an) == w / an * an, "rounding of %lx to %lx", w, an); }
    u64 g = a, h = b; while (h) { u64 t = g % h; g = h; h = t; }
    if (a && b) CHECK("gcd", gcd64(a, b) == g, "gcd of %lu and %lu is %lu, got %lu", a, b, g, gcd64(a, b));
    { u8 t[16]; memset(t, 0xEE, 16); u8* e = vi128_encode_u64(t, a); u64 o = 1; const u8* q = vi128_decode_u64(t, &o);
      CHECK("vi128", e - t == vi128_estimate_u64(a) && q == e && o == a && *e == 0xEE, "variable-length encoding of %lx: %ld bytes, estimate %u, read back %lx from %ld", a, (long)(e - t), vi128_estimate_u64(a), o, (long)(q - t));
      CHECK("vi128", !a || (int)(e - t) == varlen(a), "length of the encoding of %lx", a);
      memset(t, 0xEE, 16); e = vi128_encode_u32(t, s); u32 o2 = 1; q = vi128_decode_u32(t, &o2);
      CHECK("vi128", e - t == vi128_estimate_u32(s) && q == e && o2 == s && *e == 0xEE, "variable-length encoding of %x", s);
      Buf bad(10); for (int i = 0; i < 10; ++i) bad.p[i] = 0x80 | r();
      CHECK("vi128", vi128_decode_u64(bad.p, &o) == nullptr && vi128_decode_u32(bad.p, &o2) == nullptr, "an encoding without an end was accepted"); }
    { alignas(16) char t[32]; memset(t, '#', 32); strdec_32(t, s); CHECK("str", S(t, 10) == dec(s, 10) && t[10] == '#', "decimal text of %u", s);
      memset(t, '#', 32); strdec_64(t, a); CHECK("str", S(t, 20) == dec(a, 20) && t[20] == '#', "decimal text of %lu", a);
      memset(t, '#', 32); strhex_32(t, s); CHECK("str", S(t, 8) == fmt("%08x", s) && t[8] == '#', "hexadecimal text of %x", s);
      memset(t, '#', 32); strhex_64(t, a); CHECK("str", S(t, 16) == fmt("%016lx", a) && t[16] == '#', "hexadecimal text of %lx", a);
      CHECK("str", a2u64(std::to_string(a).c_str()) == a && a2u32(std::to_string(s).c_str()) == s && a2s64(std::to_string((long)a).c_str()) == (long)a && a2s32(std::to_string((int)s).c_str()) == (int)s, "text to number: %lu", a); }
    { S x = bytes(r, r() % 70, r() % 3); Buf bx(x); u32 c0 = r();
      CHECK("crc32c", crc32c_inc(bx.p, x.size(), c0) == crc(x.data(), x.size(), c0), "checksum of %s", hex(x, 80).c_str());
      size_t cut = r() % (x.size() + 1);
      CHECK("crc32c", crc32c_inc(bx.p + cut, x.size() - cut, crc32c_inc(bx.p, cut, c0)) == crc(x.data(), x.size(), c0), "checksum in two parts of %s", hex(x, 80).c_str());
      CHECK("crc32c", kv_crc32c(bx.p, x.size()) == crc(x.data(), x.size(), 0xDEADBEEFu), "key checksum");
      CHECK("crc32c", crc32c_u8(c0, (u8)a) == crc(&a, 1, c0) && crc32c_u16(c0, (u16)a) == crc(&a, 2, c0) && crc32c_u32(c0, (u32)a) == crc(&a, 4, c0) && crc32c_u64(c0, a) == crc(&a, 8, c0), "checksum of integer %lx", a);
      if (x.size() >= 4) CHECK("crc32c", crc32c_inc_x4(bx.p, x.size() & ~3u, c0) == crc(x.data(), x.size() & ~3u, c0) && crc32c_inc_123(bx.p, 1 + a % 3, c0) == crc(x.data(), 1 + a % 3, c0), "checksum parts"); }
    { u16 e1 = a; u64 e3 = b >> 16; struct entry13 e = ::entry13(e1, e3); CHECK("entry13", e.e1 == e1 && e.e3 == e3, "entry13(%x, %lx)", e1, e3);
      u64 f3 = r() >> 16; entry13_update_e3(&e, f3); CHECK("entry13", e.e1 == e1 && e.e3 == f3, "entry13 update"); }
    if (c % 4 == 0) {     // tokens
      static const char* dl[] = {" ", ",", " ,;", "\t\n"};
      const char* delim = dl[r() % 4]; S text; int nt = r.chance(1, 3) ? 28 + r() % 10 : r.chance(1, 20) ? 60 + r() % 10 : r() % 40;
      std::vector<S> want;
      for (int i = 0; i < nt; ++i) { S t = bytes(r, 1 + r() % 4, 2); want.push_back(t); text += t; for (int k = 1 + (r.chance(1, 4) ? r() % 3 : 0); k--;) text += delim[r() % strlen(delim)]; }
      if (r.chance(1, 2) && nt) { while (text.size() && strchr(delim, text.back())) text.pop_back(); }
      if (r.chance(1, 3)) text = delim + text;
      char** t = strtoks(text.c_str(), delim);
      CHECK("strtoks", t, "no tokens");
      size_t i = 0; for (; t[i]; ++i) CHECK("strtoks", i < want.size() && want[i] == t[i], "token %zu of '%s' is '%s'", i, text.c_str(), t[i]);
      CHECK("strtoks", i == want.size(), "%zu of %zu tokens", i, want.size());
      free(t);
      FILE* f = tmpfile();
      if (f) {
        S x = bytes(r, 1 + r() % 20, 0), hx, dx; Buf bx(x);
        str_print_hex(f, bx.p, x.size()); str_print_dec(f, bx.p, x.size());
        for (u8 q : x) { hx += fmt(" %02x", q); dx += fmt(" %03u", q); }
        S got(hx.size() + dx.size() + 1, 0); rewind(f); got.resize(fread(&got[0], 1, got.size(), f));
        CHECK("str", got == hx + dx, "printing bytes %s: '%s'", hex(x).c_str(), got.c_str());
        fclose(f);
      }
    }
    if (c % 64 == 0) {
      size_t nr = 1 + r() % 9, sz = 1 + r() % 70; char** t2 = (char**)calloc_2d(nr, sz); char** t3 = (char**)malloc_2d(nr, sz);
      for (size_t i = 0; i < nr; ++i) { for (size_t j = 0; j < sz; ++j) CHECK("calloc_2d", t2[i][j] == 0, "not zero"); memset(t3[i], i, sz); memset(t2[i], i, sz); }
      for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < sz; ++j) CHECK("malloc_2d", t3[i][j] == (char)i && t2[i][j] == (char)i, "rows of %zu bytes overlap", sz);
      free(t2); free(t3);
      u64 alg = 8ull << r() % 9; void* xa = xalloc(alg, 1 + r() % 5000); CHECK("xalloc", xa && (u64)xa % alg == 0, "alignment %lu", alg); free(xa);
      double dd = random_double(); CHECK("random", dd >= 0 && dd <= 1, "random_double %f", dd);
      srandom_u64(a); u64 r1 = random_u64(), r2 = random_u64(); srandom_u64(a); CHECK("random", r1 == random_u64() && r2 == random_u64(), "the same seed %lx gives other numbers", a);
    }
    v::progress();
  }
}
// slabs: no object is given out twice; counts add up
static void run_slab(Rng r, u64 cases, int T, bool perturb) {
  static std::atomic<u64> allocs;
  for (u64 c = 0; c < cases; ++c) {
    v::current_case() = fmt("slab case %lu threads %d", c, T);
    u64 osz = 8 * (1 + r() % (r.chance(1, 4) ? 512 : 20)), bsz = 4096ull << r() % 5;
    struct slab* sl = slab_create(osz, bsz);
    if (!sl) { CHECK("slab-create", osz * 2 > bsz, "no slab for objects of %lu bytes in blocks of %lu", osz, bsz); continue; }
    int rounds = 1 + r() % 3;
    for (int rd = 0; rd < rounds; ++rd) {
      std::vector<std::vector<u64*>> own(T);
      std::atomic<bool> go{false};
      auto work = [&](int t, bool safe) {
        Rng q(r.s + t * 77 + 1);
        if (perturb) vf_perturb_thread(q(), 1023, t);
        while (!go) sched_yield();
        u64 ops = 200 + q() % 1500, keep = q() % 200;
        for (u64 i = 0; i < ops; ++i) {
          if (own[t].size() < keep ? q.chance(2, 3) : q.chance(1, 3)) {
            u64* p = (u64*)(safe ? slab_alloc_safe(sl) : slab_alloc_unsafe(sl));
            CHECK("slab", p && (u64)p % 8 == 0, "no memory");
            if (!(osz & (osz - 1)) && osz <= 4096 && (u64)p % osz) v::viol("slab-align", "an object of %lu bytes at %p", osz, (void*)p);
            u64 tag = (u64)t << 32 | i; for (u64 k = 0; k < osz / 8; ++k) p[k] = tag;
            own[t].push_back(p); allocs.fetch_add(1, std::memory_order_relaxed);
          } else if (!own[t].empty()) {
            size_t k = q() % own[t].size(); u64* p = own[t][k];
            for (u64 j = 1; j < osz / 8; ++j) if (p[j] != p[0]) v::viol("slab-shared", "an object of %lu bytes in use was changed by somebody else", osz);
            own[t][k] = own[t].back(); own[t].pop_back();
            if (safe) slab_free_safe(sl, p); else slab_free_unsafe(sl, p);
          }
          v::progress();
        }
        if (perturb) vf_perturb_thread(1, 0, t);
      };
      bool safe = T > 1 || r.chance(1, 2);
      if (!safe && r.chance(1, 2)) CHECK("slab", slab_reserve_unsafe(sl, r() % 300), "reserve");
      std::vector<std::thread> th;
      for (int t = 0; t < T; ++t) { if (T == 1) { go = true; work(t, safe); } else th.emplace_back(work, t, safe); }
      go = true;
      for (auto& t : th) t.join();
      std::set<u64*> all; u64 total = 0;
      for (auto& o : own) for (auto p : o) { total++; CHECK("slab-double", all.insert(p).second, "an object is given out twice"); for (u64 j = 1; j < osz / 8; ++j) CHECK("slab-shared", p[j] == p[0], "an object in use was changed by somebody else"); }
      u64* prev = nullptr; for (auto p : all) { if (prev) CHECK("slab-overlap", (u64)p - (u64)prev >= osz, "objects overlap"); prev = p; }
      CHECK("slab-count", slab_get_nalloc(sl) == total, "%lu objects are in use, slab_get_nalloc says %lu", total, slab_get_nalloc(sl));
      slab_free_all(sl);
      CHECK("slab-count", slab_get_nalloc(sl) == 0, "objects in use after slab_free_all");
    }
    slab_destroy(sl);
    v::distinct().add(v::mix(osz, v::mix(bsz, T)));
  }
  v::stat("slab_allocations", allocs);
}
// coroutines
struct CoT { struct co* c; int id; };
static std::vector<CoT> g_cos; static u64 co_host; static Rng* cor; static u64 co_switches;
static u64 checksum_frame(volatile u64* f, int n) { u64 h = 0; for (int i = 0; i < n; ++i) h = h * 31 + f[i]; return h; }
static void co_body() {
  struct co* me = co_self();
  int id = ((CoT*)co_priv())->id;
  CHECK("co", g_cos[id].c == me, "co_self of coroutine %d", id);
  volatile u64 frame[16]; double dv = id * 1.5;
  int steps = (*cor)() % 6;
  for (int i = 0; i < steps; ++i) {
    for (int k = 0; k < 16; ++k) frame[k] = (*cor)();
    u64 h = checksum_frame(frame, 16), token = (*cor)();
    u64 got;
    ++co_switches;
    std::vector<int> live; for (auto& x : g_cos) if (x.c != me && co_valid(x.c)) live.push_back(x.id);
    if (live.empty() || (*cor).chance(1, 2)) { got = co_back(token); }
    else got = co_switch_to(g_cos[live[(*cor)() % live.size()]].c, token);
    (void)got;
    CHECK("co", co_self() == me, "coroutine %d resumed as another", id);
    CHECK("co-frame", checksum_frame(frame, 16) == h && dv == id * 1.5, "the local variables of coroutine %d changed while it was away", id);
  }
}
static std::vector<int> corr_log;
struct CorrT { struct corr* c; int id, steps; };
static void corr_body() {
  CorrT* t = (CorrT*)co_priv();
  volatile u64 f[8]; for (int i = 0; i < t->steps; ++i) { for (int k = 0; k < 8; ++k) f[k] = t->id * 100 + i + k; corr_log.push_back(t->id); corr_yield(); ++co_switches; for (int k = 0; k < 8; ++k) CHECK("corr-frame", f[k] == (u64)(t->id * 100 + i + k), "the local variables of coroutine %d changed", t->id); }
  corr_log.push_back(t->id);
}
static u64 echo_n;
static void echo_body() { u64 x = 0; for (u64 i = 0; i < echo_n; ++i) { u64 got = co_back(x); CHECK("co-value", got == i * 7 + 3, "co_enter sent %lu, co_back returned %lu", i * 7 + 3, got); x = got + 1; ++co_switches; } co_exit(x); }
static void run_co(Rng r, u64 cases) {
  cor = &r;
  for (u64 c = 0; c < cases; ++c) {
    v::current_case() = fmt("coroutine case %lu", c);
    int n = 1 + r() % 8;
    g_cos.assign(n, CoT{});
    for (int i = 0; i < n; ++i) { g_cos[i].id = i; g_cos[i].c = co_create(8192 + r() % 8192, (void*)co_body, &g_cos[i], &co_host); CHECK("co", g_cos[i].c && co_valid(g_cos[i].c), "co_create"); }
    for (;;) {
      std::vector<int> live; for (auto& x : g_cos) if (co_valid(x.c)) live.push_back(x.id);
      if (live.empty()) break;
      (void)co_enter(g_cos[live[r() % live.size()]].c, r());
      CHECK("co", co_self() == nullptr, "the host runs as a coroutine");
      v::progress();
    }
    if (r.chance(1, 2)) { int k = r() % n; co_reuse(g_cos[k].c, (void*)co_body, &g_cos[k], &co_host); for (int g = 0; g < 100 && co_valid(g_cos[k].c); ++g) (void)co_enter(g_cos[k].c, 0); CHECK("co", !co_valid(g_cos[k].c), "a reused coroutine does not end"); }
    for (auto& x : g_cos) co_destroy(x.c);
    // values travel both ways
    echo_n = r() % 20;
    struct co* e = co_create(8192, (void*)echo_body, nullptr, &co_host);
    u64 got = co_enter(e, 99);
    for (u64 i = 0; i < echo_n; ++i) { CHECK("co-value", got == (i ? (i - 1) * 7 + 4 : 0), "co_back value arrived as %lu in step %lu", got, i); got = co_enter(e, i * 7 + 3); }
    CHECK("co-value", !co_valid(e) && got == (echo_n ? (echo_n - 1) * 7 + 4 : 0), "co_exit value");
    co_destroy(e);
    // round-robin coroutines
    int m = 1 + r() % 7; std::vector<CorrT> t(m); u64 host;
    for (int i = 0; i < m; ++i) { t[i].id = i; t[i].steps = r() % 6; }
    corr_log.clear();
    for (int i = 0; i < m; ++i) t[i].c = i ? corr_link(8192, (void*)corr_body, &t[i], t[i - 1].c) : corr_create(8192, (void*)corr_body, &t[0], &host);
    corr_enter(t[0].c);
    std::vector<int> want, left(m); std::vector<int> ring; for (int i = 0; i < m; ++i) { left[i] = t[i].steps + 1; ring.push_back(i); }
    for (size_t p = 0; !ring.empty();) { int x = ring[p]; want.push_back(x); if (--left[x] == 0) { ring.erase(ring.begin() + p); if (!ring.empty()) p %= ring.size(); } else p = (p + 1) % ring.size(); }
    CHECK("corr-order", want == corr_log, "%d coroutines that take turns ran in another order", m);
    for (auto& x : t) corr_destroy(x.c);
    v::distinct().add(v::mix(n * 64 + m, v::hash_bytes(want.data(), want.size() * 4)));
  }
  v::stat("coroutine_switches", co_switches);
}
// locks
static void run_locks(Rng r, u64 rounds) {
  std::atomic<u64> acq[3] = {}, tries{0}, shared_seen{0}, fails{0};
  for (u64 c = 0; c < rounds; ++c) {
    int kind = r() % 3, T = 2 + r() % 7;    // spin, rw, mutex
    v::current_case() = fmt("lock round %lu kind %d threads %d", c, kind, T);
    union { spinlock s; rwlock w; mutex m; u64 pad[8]; } L;
    memset(&L, 0x5a, sizeof L);
    if (kind == 0) spinlock_init(&L.s); else if (kind == 1) rwlock_init(&L.w); else mutex_init(&L.m);
    std::atomic<int> nw{0}, nr{0};
    volatile u64 d1 = 0, d2 = 0;
    u64 done = 0;
    auto quiet = [&](const char* when) {
      if (kind == 0) { CHECK("lock-free", spinlock_trylock(&L.s), "%s: a free spin lock cannot be taken", when); CHECK("lock-held", !spinlock_trylock(&L.s), "%s: a held spin lock is taken again", when); spinlock_unlock(&L.s); }
      else if (kind == 2) { CHECK("lock-free", mutex_trylock(&L.m), "%s: a free mutex cannot be taken", when); CHECK("lock-held", !mutex_trylock(&L.m), "%s: a held mutex is taken again", when); mutex_unlock(&L.m); }
      else {
        CHECK("lock-free", rwlock_trylock_write(&L.w), "%s: a free lock cannot be taken for writing", when);
        CHECK("lock-held", !rwlock_trylock_read(&L.w) && !rwlock_trylock_read_lp(&L.w) && !rwlock_trylock_read_nr(&L.w, 5) && !rwlock_trylock_write(&L.w) && !rwlock_trylock_write_hp(&L.w) && !rwlock_trylock_write_nr(&L.w, 3), "%s: a lock held for writing is taken again", when);
        rwlock_write_to_read(&L.w);
        CHECK("lock-shared", rwlock_trylock_read(&L.w), "%s: two readers exclude each other", when);
        CHECK("lock-held", !rwlock_trylock_write(&L.w) && !rwlock_trylock_write_nr(&L.w, 3), "%s: a lock held for reading is taken for writing", when);
        rwlock_unlock_read(&L.w); rwlock_unlock_read(&L.w);
        CHECK("lock-free", rwlock_trylock_write_hp(&L.w), "%s: a free lock cannot be taken for writing (high priority)", when);
        CHECK("lock-held", !rwlock_trylock_read(&L.w), "%s: a lock held for writing is taken for reading", when); rwlock_unlock_write(&L.w);
        CHECK("lock-free", rwlock_trylock_read_lp(&L.w), "%s: a free lock cannot be taken for reading (low priority)", when); rwlock_unlock_read(&L.w);
        CHECK("lock-free", rwlock_trylock_write_nr(&L.w, 3), "%s: free", when); rwlock_unlock_write(&L.w);
        CHECK("lock-free", rwlock_trylock_read_nr(&L.w, 3), "%s: free", when); rwlock_unlock_read(&L.w);
        CHECK("lock-free", rwlock_trylock_write_hp_nr(&L.w, 3), "%s: free", when); rwlock_unlock_write(&L.w);
      }
    };
    quiet("before");
    auto writer = [&](Rng& q) {
      int o = nw.fetch_add(1), s = nr.load();
      if (o || s) v::viol("exclusion", "%s: a writer is inside with %d other writers and %d readers", v::current_case().c_str(), o, s);
      u64 a = d1; for (int k = q() % 4; k--;) (void)nr.load(); d1 = a + 1; d2 = d2 + 1; ++done;
      nw.fetch_sub(1);
    };
    auto reader = [&](Rng& q) {
      int s = nr.fetch_add(1), o = nw.load();
      if (o) v::viol("exclusion", "%s: a reader is inside with %d writers", v::current_case().c_str(), o);
      if (s) shared_seen.fetch_add(1, std::memory_order_relaxed);
      u64 a = d1, b = d2; if (a != b) v::viol("torn", "%s: a reader sees half of a write", v::current_case().c_str());
      nr.fetch_sub(1);
    };
    u64 per = 3000 / T; std::atomic<int> ready{0};
    bool hp = r.chance(1, 2);      // readers that yield to high-priority writers use the low-priority form
    u64 seed = r();
    std::vector<std::thread> th; std::vector<u64> wr(T);
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
      Rng q(seed + t);
      ready++; while (ready < T) sched_yield();
      vf_perturb_thread(q(), q.chance(1, 2) ? 1023 : 127, t);
      if (q.chance(1, 5)) vf_perturb_stall(20 << q() % 4);
      u64 w = 0;
      for (u64 i = 0; i < per; ++i) {
        bool tr = q.chance(1, 3), got = true, wrt = true;
        if (kind == 0) { if (tr) got = spinlock_trylock(&L.s); else spinlock_lock(&L.s); if (got) { writer(q); spinlock_unlock(&L.s); } }
        else if (kind == 2) { if (tr) got = mutex_trylock(&L.m); else mutex_lock(&L.m); if (got) { writer(q); mutex_unlock(&L.m); } }
        else if (q.chance(1, 3)) {
          if (tr) switch (q() % (hp ? 4 : 2)) { case 0: got = rwlock_trylock_write(&L.w); break; case 1: got = rwlock_trylock_write_nr(&L.w, q() % 20); break; case 2: got = rwlock_trylock_write_hp(&L.w); break; default: got = rwlock_trylock_write_hp_nr(&L.w, q() % 20); }
          else if (hp && q.chance(1, 2)) rwlock_lock_write_hp(&L.w); else rwlock_lock_write(&L.w);
          if (got) { writer(q); if (q.chance(1, 4)) { rwlock_write_to_read(&L.w); reader(q); rwlock_unlock_read(&L.w); } else rwlock_unlock_write(&L.w); }
        } else {
          wrt = false;
          if (hp) { while (!(got = rwlock_trylock_read_lp(&L.w)) && !tr) sched_yield(); }
          else if (tr) got = q.chance(1, 2) ? rwlock_trylock_read(&L.w) : rwlock_trylock_read_nr(&L.w, q() % 20); else rwlock_lock_read(&L.w);
          if (got) { reader(q); rwlock_unlock_read(&L.w); }
        }
        if (tr) tries.fetch_add(1, std::memory_order_relaxed);
        if (!got) fails.fetch_add(1, std::memory_order_relaxed); else { acq[kind].fetch_add(1, std::memory_order_relaxed); w += wrt; }
        v::progress();
      }
      vf_perturb_thread(1, 0, t);
      wr[t] = w;
    });
    for (auto& t : th) t.join();
    u64 w = 0; for (auto x : wr) w += x;
    CHECK("lost-update", d1 == w && d2 == w && done == w, "%s: %lu writers were inside, the data saw %lu and %lu", v::current_case().c_str(), w, (u64)d1, (u64)d2);
    quiet("after");
    if (kind == 2) mutex_deinit(&L.m);
    ++v::evals(); v::distinct().add(v::mix(seed, kind));
  }
  v::stat("spin_acquired", acq[0]); v::stat("rw_acquired", acq[1]); v::stat("mutex_acquired", acq[2]); v::stat("try_calls", tries); v::stat("failed_tries", fails); v::stat("readers_together", shared_seen);
}
// the reclaimer: what a reader holds is not declared dead before it passes a quiescent state
struct Obj { std::atomic<u64> alive, ver; u64 pad[6]; };
static Obj objs[1024];
static void run_qsbr(Rng r, u64 rounds, u64 waits) {
  std::atomic<u64> reads{0}, regs{0}, held{0}; u64 nwaits = 0;
  for (u64 c = 0; c < rounds; ++c) {
    int R = 1 + r() % 3, C = r() % 3; bool pert = r.chance(1, 3);
    if (r.chance(1, 4)) C = 1 + r() % 2, R = r() % 2;
    v::current_case() = fmt("qsbr round %lu readers %d registering %d perturbed %d", c, R, C, pert);
    u64 W = C ? waits / 40 : pert ? waits / 20 : waits;
    struct qsbr* q = qsbr_create();
    for (auto& o : objs) o.alive = 0;
    std::atomic<Obj*> cur{&objs[0]}; objs[0].alive = 1; objs[0].ver = 1;
    std::atomic<bool> stop{false}; std::atomic<int> ready{0};
    auto chk = [&](Obj* p, const char* what) { if (!p->alive.load(std::memory_order_relaxed)) v::viol("reclaimed-early", "%s: %s holds an object whose wait has ended", v::current_case().c_str(), what); };
    std::vector<std::thread> th; u64 seed = r();
    for (int t = 0; t < R; ++t) th.emplace_back([&, t] {
      Rng x(seed + t); qsbr_ref ref; u64 n = 0, h = 0;
      CHECK("qsbr-register", qsbr_register(q, &ref), "a reader cannot register");
      qsbr_park(&ref); ready++;
      if (pert) { vf_perturb_thread(x(), 255, t); if (x.chance(1, 2)) vf_perturb_stall(20 << x() % 3); }
      while (!stop.load(std::memory_order_relaxed)) {
        qsbr_resume(&ref);
        Obj* p = cur.load(std::memory_order_acquire);
        for (int k = 0; k < 3; ++k) chk(p, "a reader that resumed");
        for (u64 k = n & 64 ? x() % 8 : 0; k--;) {
          qsbr_update(&ref, p->ver.load(std::memory_order_relaxed));
          // having announced this version, the reader may keep objects from then on
          for (int j = 0; j < 2; ++j) chk(p, "a reader that announced its version");
          p = cur.load(std::memory_order_acquire);
          chk(p, "a reader"); h++;
        }
        qsbr_park(&ref);
        for (volatile int i = 0; i < (int)(n % 13); i = i + 1);
        ++n;
      }
      vf_perturb_thread(1, 0, t);
      qsbr_unregister(q, &ref);
      reads += n; held += h;
    });
    for (int t = 0; t < C; ++t) th.emplace_back([&, t] {
      Rng x(seed + 100 + t); u64 n = 0; ready++;
      if (pert) vf_perturb_thread(x(), 255, t + 8);
      while (!stop.load(std::memory_order_relaxed)) {
        size_t k = 1 + x() % 20; Buf mem(k * sizeof(qsbr_ref)); qsbr_ref* refs = (qsbr_ref*)mem.p;   // freed after unregistering
        size_t m = 0;
        for (; m < k; ++m) { if (!qsbr_register(q, &refs[m])) break; Obj* p = cur.load(std::memory_order_acquire); chk(p, "a reader that registered"); if (x.chance(2, 3)) qsbr_park(&refs[m]); else { qsbr_park(&refs[m]); qsbr_resume(&refs[m]); p = cur.load(std::memory_order_acquire); chk(p, "a reader that resumed"); qsbr_park(&refs[m]); } }
        for (size_t i = 0; i < m; ++i) qsbr_unregister(q, &refs[i]);
        n += m;
        if (x.chance(1, 3)) sched_yield();
      }
      vf_perturb_thread(1, 0, t + 8);
      regs += n;
    });
    while (ready < R + C) sched_yield();
    u64 ver = 1;
    for (u64 i = 0; i < W; ++i) {
      Obj* old = cur.load(); Obj* nw = &objs[++ver % 1024];
      nw->ver.store(ver, std::memory_order_relaxed); nw->alive.store(1, std::memory_order_relaxed);
      cur.store(nw, std::memory_order_release);
      qsbr_wait(q, ver);
      old->alive.store(0, std::memory_order_relaxed);
      for (volatile int k = 0; k < (int)(i % 17); k = k + 1);
      v::progress();
    }
    stop = true;
    for (auto& t : th) t.join();
    qsbr_destroy(q);
    nwaits += W; ++v::evals(); v::distinct().add(seed);
  }
  v::stat("qsbr_waits", nwaits); v::stat("qsbr_read_sections", reads); v::stat("qsbr_announcements", held); v::stat("qsbr_registrations", regs);
}
static std::atomic<u64> fj_seen[64]; static std::atomic<u64> fj_calls;
static void* fj_fn(void* p) { fj_seen[(u64)p].fetch_add(1); fj_calls++; return nullptr; }
static void run_threads(Rng r, u64 cases) {
  for (u64 c = 0; c < cases; ++c) {
    u32 nr = 1 + r() % 40; v::current_case() = fmt("fork_join %u", nr);
    for (auto& x : fj_seen) x = 0;
    fj_calls = 0;
    std::vector<void*> a(nr); for (u32 i = 0; i < nr; ++i) a[i] = (void*)(u64)i;
    thread_fork_join(nr, fj_fn, true, a.data());
    for (u32 i = 0; i < nr; ++i) CHECK("fork-join", fj_seen[i] == 1, "thread_fork_join(%u) ran function %u %lu times", nr, i, fj_seen[i].load());
    CHECK("fork-join", fj_calls == nr, "thread_fork_join(%u) ran %lu functions", nr, fj_calls.load());
    thread_fork_join(nr, fj_fn, false, (void*)63);
    CHECK("fork-join", fj_seen[63] == nr, "thread_fork_join(%u) with one argument ran %lu functions", nr, fj_seen[63].load());
    v::progress(); v::distinct().add(nr);
  }
}
int main(int argc, char** argv) {
  v::Args a(argc, argv);
  v::start_watchdog();
  crc_init();
  S mode = a.str("mode", "kv"); u64 seed = a.num("seed", 1), n = a.num("n", 1000);
  Rng r(seed * 977 + 5);
  if (mode == "kv") { run_kv(r, n); v::evals() = n; }
  else if (mode == "lib") { run_lib(r, n); v::evals() = n; run_slab(Rng(seed), n / 100, 1, false); run_threads(Rng(seed + 9), n / 400 + 1); }
  else if (mode == "co") { run_co(r, n); v::evals() = n; }
  else if (mode == "locks") run_locks(r, n);
  else if (mode == "slab") { for (u64 i = 0; i < n; ++i) { Rng q(seed * 31 + i); run_slab(q, 1, 2 + q() % 6, true); } v::evals() = n; }
  else if (mode == "qsbr") run_qsbr(r, n, a.num("waits", 200000));
  v::sample(fmt("%s seed=%lu n=%lu last: %s", mode.c_str(), seed, n, v::current_case().c_str()));
  v::stat("checks", n_checks); if (n_pairs) v::stat("key_pairs", n_pairs); if (n_shapes) v::stat("sorted_arrays", n_shapes);
  v::stat("injected_delays", vf_perturb_delays());
  v::finish();
}
