// Parts shared by the container harnesses: tracked allocations and elements, key and value factories, comparators.
#pragma once
#include <cstdint>
#include <string>
#include <map>
#include <set>
#include <list>
#include <sstream>
#include <unordered_map>
#include <vector>
#include "common.h"
namespace v = vf;
using v::Rng; using v::fmt;
typedef uint64_t u64;
typedef uint32_t u32;
static u64 n_checks, n_ops, max_height, n_selfref;
#define CHECK(cls, cond, ...) do { ++n_checks; if (__builtin_expect(!(cond), 0)) fail(cls, __VA_ARGS__); } while (0)
template <class... X> __attribute__((noinline, cold)) static void fail(const char* cls, const char* f, X... x) { v::viol(cls, "%s", vf::fmt(f, x..., 0).c_str()); }
// allocations: every pointer has to come back with the size it was asked for
struct Arena { std::unordered_map<void*, size_t> live; u64 bytes = 0; };
static Arena arena;
template <class T> struct Alloc {
  typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference;
  typedef size_t size_type; typedef ptrdiff_t difference_type;
  template <class U> struct rebind { typedef Alloc<U> other; };
  int id = 0;
  Alloc(int i = 0) : id(i) {}
  template <class U> Alloc(const Alloc<U>& o) : id(o.id) {}
  template <class U> bool operator==(const Alloc<U>&) const { return true; }
  template <class U> bool operator!=(const Alloc<U>&) const { return false; }
  T* allocate(size_t n) { T* p = (T*)malloc(n * sizeof(T)); arena.live[p] = n * sizeof(T); arena.bytes += n * sizeof(T); return p; }
  void deallocate(T* p, size_t n) {
#ifdef VF_NULL_DEALLOC      // as std::allocator does
    if (!p && !n) return;
#endif
    auto it = arena.live.find(p);
    CHECK("allocator", it != arena.live.end(), "deallocate of a pointer that is not allocated");
    if (it == arena.live.end()) return;
    CHECK("allocator", it->second == n * sizeof(T), "deallocate of %zu bytes for a block of %zu", n * sizeof(T), it->second);
    arena.bytes -= it->second; arena.live.erase(it); free(p);
  }
};
// an element that notices being used before construction, after destruction or after a bitwise move
static long live_objs;
struct Obj {
  u32 k = 0, tag = 0; const Obj* self;
  void ck() const { if (self != this) { v::viol("element", "an element is used that is not alive"); } }
  Obj() : self(this) { ++live_objs; }
  Obj(u32 k_, u32 t) : k(k_), tag(t), self(this) { ++live_objs; }
  Obj(const Obj& o) : k(o.k), tag(o.tag), self(this) { o.ck(); ++live_objs; }
  Obj& operator=(const Obj& o) { ck(); o.ck(); k = o.k; tag = o.tag; return *this; }
  ~Obj() { ck(); *(const Obj* volatile*)&self = nullptr; --live_objs; }     // volatile: a plain store to a dying object is optimised away
};
inline bool operator<(const Obj& a, const Obj& b) { a.ck(); b.ck(); return a.k < b.k; }
inline bool operator==(const Obj& a, const Obj& b) { a.ck(); b.ck(); return a.k == b.k && a.tag == b.tag; }
inline bool operator!=(const Obj& a, const Obj& b) { return !(a == b); }
template <int N> struct Blob { unsigned char b[N]; Blob() { memset(b, 0, N); } bool operator<(const Blob& o) const { return memcmp(b, o.b, N) < 0; } bool operator==(const Blob& o) const { return !memcmp(b, o.b, N); } bool operator!=(const Blob& o) const { return !(*this == o); } };
template <class K> struct Mk { static K mk(u32 i, u32) { return (K)i; } static u32 tag(const K&) { return 0; } static std::string txt(const K& k) { return std::to_string((long)k); } enum { tags = 0 }; };
template <> struct Mk<std::string> { static std::string mk(u32 i, u32) { char b[32]; snprintf(b, sizeof b, "%s%03x", i % 3 ? "k" : "a long common prefix, ", i); return b; } static u32 tag(const std::string&) { return 0; } static std::string txt(const std::string& s) { return s; } enum { tags = 0 }; };
template <> struct Mk<Obj> { static Obj mk(u32 i, u32 t) { return Obj(i, t); } static u32 tag(const Obj& o) { o.ck(); return o.tag; } static std::string txt(const Obj& o) { return std::to_string(o.k) + "/" + std::to_string(o.tag); } enum { tags = 1 }; };
template <int N> struct Mk<Blob<N>> { static Blob<N> mk(u32 i, u32) { Blob<N> b; for (int j = 0; j < N; ++j) b.b[j] = j == 0 ? i >> 8 : j == N - 1 ? i : 0; return b; } static u32 tag(const Blob<N>&) { return 0; } static std::string txt(const Blob<N>& b) { return std::to_string(b.b[0] << 8 | b.b[N - 1]); } enum { tags = 0 }; };
// comparators
template <class K> struct StLess { int rev; StLess(int r = 0) : rev(r) {} bool operator()(const K& a, const K& b) const { return rev ? b < a : a < b; } };
template <class C> struct MkC { static C mk(int) { return C(); } };
template <class K> struct MkC<StLess<K>> { static StLess<K> mk(int r) { return StLess<K>(r); } };
template <class V> struct MkV { static V mk(u32 t) { return (V)t; } static u32 tag(const V& x) { return x; } };
template <> struct MkV<std::string> { static std::string mk(u32 t) { return "value number " + std::to_string(t); } static u32 tag(const std::string& x) { return x.size() > 13 ? atoi(x.c_str() + 13) : 0; } };
template <> struct MkV<Obj> { static Obj mk(u32 t) { return Obj(77, t); } static u32 tag(const Obj& o) { o.ck(); return o.tag; } };
