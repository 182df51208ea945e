// P16: Json and MessagePack of MassTree against an independent model: text round trips (whole and in fragments),
// malformed and truncated input, MessagePack round trips, and programs that manipulate values.
#include "common.h"
#include "json.hh"
#include "msgpack.hh"
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#ifdef __SANITIZE_ADDRESS__
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
using namespace lcdf;
extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=2000"; }
using namespace vf;
typedef std::string S;
static S hex(const char* p, size_t n) { return vf::hex(S(p, n), 220); }

// ---------------------------------------------------------------- the model
struct V {
  enum T { N, B, I, U, D, STR, A, O } t = N;
  bool b = false;
  int64_t i = 0;
  uint64_t u = 0;
  double d = 0;
  S s;
  std::vector<V> a;
  std::vector<std::pair<S, V>> o;
  bool container() const { return t == A || t == O; }
  V* find(const S& k) {
    for (auto& p : o) if (p.first == k) return &p.second;
    return nullptr;
  }
  const V* find(const S& k) const { return const_cast<V*>(this)->find(k); }
  V& get_insert(const S& k) {
    if (V* p = find(k)) return *p;
    o.emplace_back(k, V());
    return o.back().second;
  }
  static V boolean(bool x) { V v; v.t = B; v.b = x; return v; }
  static V str(const S& x) { V v; v.t = STR; v.s = x; return v; }
  static V integer(int64_t x) { V v; v.t = I; v.i = x; return v; }
  static V uinteger(uint64_t x) { V v; v.t = U; v.u = x; return v; }
  static V dbl(double x) { V v; v.t = D; v.d = x; return v; }
  static V arr() { V v; v.t = A; return v; }
  static V obj() { V v; v.t = O; return v; }
};

static S dump(const V& v, int budget = 400) {
  switch (v.t) {
  case V::N: return "null";
  case V::B: return v.b ? "true" : "false";
  case V::I: return fmt("%lldi", (long long)v.i);
  case V::U: return fmt("%lluu", (unsigned long long)v.u);
  case V::D: return fmt("%.17gd", v.d);
  case V::STR: return "'" + hex(v.s.data(), v.s.size()) + "'";
  case V::A: {
    S r = "[";
    for (auto& x : v.a) { if ((int)r.size() > budget) { r += "..."; break; } r += dump(x, budget / 2) + ","; }
    return r + "]";
  }
  default: {
    S r = "{";
    for (auto& x : v.o) { if ((int)r.size() > budget) { r += "..."; break; } r += "'" + hex(x.first.data(), x.first.size()) + "':" + dump(x.second, budget / 2) + ","; }
    return r + "}";
  }
  }
}

// builds an object without looking through all keys for each
struct Builder {
  V& v;
  std::unordered_map<S, size_t> at;
  explicit Builder(V& x) : v(x) {}
  V& operator()(const S& k) {
    auto it = at.try_emplace(k, v.o.size());
    if (it.second) v.o.emplace_back(k, V());
    return v.o[it.first->second].second;
  }
};
static S sstr(const String& x) { return S(x.data(), x.length()); }
static Str toStr(const S& s) { return Str(s.data(), (int)s.size()); }

// Compare a Json with its model. exact: number kinds must match (int and unsigned may stand for each other); otherwise a
// number is compared by value. Returns "" or a description of the first difference.
static uint64_t n_compared = 0;
static S differ(const Json& j, const V& v, bool exact, const S& path = "$") {
  ++n_compared;
  auto bad = [&](const char* what) { return path + ": " + what + ", expected " + dump(v); };
  int kinds = int(j.is_null()) + j.is_bool() + j.is_int() + j.is_double() + j.is_string() + j.is_array() + j.is_object();
  if (kinds != 1) return bad("the value has not exactly one kind");
  switch (v.t) {
  case V::N: return j.is_null() ? "" : bad("not null");
  case V::B: return j.is_b() && j.as_b() == v.b ? "" : bad("not this boolean");
  case V::I: case V::U: {
    bool neg = v.t == V::I && v.i < 0;
    uint64_t bits = v.t == V::I ? (uint64_t)v.i : v.u;
    if (!j.is_int()) return bad("not an integer");
    if (j.as_u() != bits) return bad(fmt("integer is %lld", (long long)j.as_i()).c_str());
    if (neg && (j.is_nonnegint())) return bad("negative integer reported non-negative");
    if (!neg && !j.is_nonnegint()) return bad("non-negative integer reported negative");
    return "";
  }
  case V::D: {
    if (exact && !j.is_double()) return bad("not a double");
    if (!j.is_number()) return bad("not a number");
    double x = j.as_d();
    if (exact ? memcmp(&x, &v.d, 8) != 0 : x != v.d) return bad(fmt("double is %.17g", x).c_str());
    if (!j.is_double() && j.is_int()) {  // read back as an integer: must be that integer
      long double y = j.is_nonnegint() ? (long double)j.as_u() : (long double)j.as_i();
      if (y != (long double)v.d) return bad("integer differs from the double");
    }
    return "";
  }
  case V::STR:
    if (!j.is_string()) return bad("not a string");
    if (sstr(j.as_s()) != v.s) return path + ": string is " + hex(j.as_s().data(), j.as_s().length()) + " expected " + hex(v.s.data(), v.s.size());
    return "";
  case V::A: {
    if (!j.is_array()) return bad("not an array");
    if ((size_t)j.size() != v.a.size()) return bad(fmt("array size %d instead of %zu", j.size(), v.a.size()).c_str());
    if (j.empty() != v.a.empty()) return bad("empty() wrong");
    int n = 0;
    for (auto it = j.cabegin(); it != j.caend(); ++it, ++n) {
      if (&*it != &j.get(n)) return bad("iteration and get() disagree");
      S r = differ(*it, v.a[n], exact, path + fmt("[%d]", n));
      if (!r.empty()) return r;
    }
    if (n != (int)v.a.size()) return bad("iteration ends early");
    if (!j.get((int)v.a.size()).is_null()) return bad("element past the end is not null");
    return "";
  }
  default: {
    if (!j.is_object()) return bad("not an object");
    if ((size_t)j.size() != v.o.size()) return bad(fmt("object size %d instead of %zu", j.size(), v.o.size()).c_str());
    if (j.empty() != v.o.empty()) return bad("empty() wrong");
    size_t n = 0;
    for (auto it = j.cobegin(); it != j.coend(); ++it, ++n) {
      if (n >= v.o.size()) return bad("iteration is too long");
      const S& k = v.o[n].first;
      if (sstr(it.key()) != k) return path + ": key number " + fmt("%zu", n) + " is " + hex(it.key().data(), it.key().length()) + " expected " + hex(k.data(), k.size());
      if (&j.get(toStr(k)) != &it.value() || j.count(toStr(k)) != 1) return bad("lookup does not find a key that iteration shows");
      S r = differ(it.value(), v.o[n].second, exact, path + "." + k.substr(0, 8));
      if (!r.empty()) return r;
    }
    if (n != v.o.size()) return bad("iteration ends early");
    if (!v.find("\x01no such key")) {
      if (j.count("\x01no such key") || !j.get("\x01no such key").is_null()) return bad("an absent key is found");
    }
    return "";
  }
  }
}

// ---------------------------------------------------------------- generation
static S utf8(uint32_t c) {
  S r;
  if (c < 0x80) r += (char)c;
  else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
  else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
  return r;
}
static uint32_t gen_char(Rng& r) {
  static const uint32_t special[] = {0, 1, 8, 9, 10, 12, 13, 27, 31, 32, '"', '\\', '/', '<', 127, 128, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2027, 0x2028, 0x2029, 0x202A,
                                     0x7FFF, 0x8000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF, 0xFFFFF, 0x40000, 0x3FFFF};
  for (;;) {
    uint32_t c;
    switch (r.below(8)) {
    case 0: c = r.below(32); break;
    case 1: c = special[r.below(sizeof special / 4)]; break;
    case 2: c = 0x80 + r.below(0x780); break;
    case 3: c = 0x800 + r.below(0xF800); break;
    case 4: c = 0x10000 + r.below(0x100000); break;
    default: c = 32 + r.below(95); break;
    }
    if ((c >= 0xD800 && c < 0xE000) || (c & 0xFFFE) == 0xFFFE) continue;
    return c;
  }
}
static S gen_string(Rng& r, bool bytes) {
  size_t n;
  switch (r.below(12)) {
  case 0: n = 0; break;
  case 1: n = 28 + r.below(8); break;
  case 2: n = 100 + r.below(200); break;
  case 3: n = r.chance(1, 8) ? 65500 + r.below(80) : 254 + r.below(4); break;
  default: n = 1 + r.below(9); break;
  }
  S s;
  int style = r.below(3);
  while (s.size() < n) {
    if (bytes) s += (char)r();
    else if (style == 0) s += (char)('a' + r.below(26));
    else s += utf8(gen_char(r));
  }
  return s;
}
static double gen_double(Rng& r) {
  for (;;) {
    double d;
    uint64_t bits = r();
    switch (r.below(8)) {
    case 0: memcpy(&d, &bits, 8); break;
    case 1: d = (double)(int64_t)r.below(1000) / 10.0; break;
    case 2: d = (double)(int64_t)bits; break;
    case 3: d = std::ldexp((double)(r.below(1u << 20) + 1), (int)r.below(200) - 100); break;
    case 4: d = r.chance(1, 2) ? 0.1 : 1e300; break;
    case 5: d = (double)(r() >> 11) * 0x1p-53; break;
    case 6: d = -(double)(r() >> 11) * 0x1p-30; break;
    default: d = r.chance(1, 2) ? 5e-324 : 1.7976931348623157e308; break;
    }
    if (std::isfinite(d)) return d;
  }
}
static int64_t gen_int(Rng& r) {
  switch (r.below(6)) {
  case 0: return (int64_t)r.below(20) - 10;
  case 1: { static const int64_t e[] = {-32, -33, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, INT64_MAX, INT64_MIN, INT64_MIN + 1, 1000000000000000000LL};
    return e[r.below(sizeof e / 8)]; }
  case 2: return (int64_t)r();
  default: return (int64_t)(r() >> r.below(64)) * (r.chance(1, 2) ? 1 : -1);
  }
}
static S gen_key(Rng& r, bool bytes) {
  switch (r.below(6)) {
  case 0: return fmt("%d", (int)r.below(12));
  case 1: case 2: return S(1, (char)('a' + r.below(8)));
  case 3: return "";
  default: return gen_string(r, bytes).substr(0, 40);
  }
}
static S valid_key(Rng& r, bool bytes) {
  for (;;) {
    S k = gen_key(r, bytes);
    if (bytes) return k;
    // substr may have cut a character in half
    bool ok = true;
    size_t i = 0;
    while (i < k.size()) { uint8_t c = k[i]; size_t w = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; if (i + w > k.size()) ok = false; i += w; }
    if (ok) return k;
  }
}
static V gen_value(Rng& r, int depth, bool bytes, int wide = 0) {
  int k = r.below(depth > 0 ? 11 : 7);
  switch (k) {
  case 0: return V();
  case 1: return V::boolean(r.chance(1, 2));
  case 2: return V::integer(gen_int(r));
  case 3: { uint64_t u = (uint64_t)gen_int(r); return V::uinteger(u); }
  case 4: return V::dbl(gen_double(r));
  case 5: case 6: return V::str(gen_string(r, bytes));
  case 7: case 8: {
    V v = V::arr();
    int n = r.chance(1, 8) ? r.below(wide + 1) : r.below(6);
    for (int i = 0; i < n; ++i) v.a.push_back(gen_value(r, n > 20 ? 0 : depth - 1, bytes, wide));
    return v;
  }
  default: {
    V v = V::obj();
    int n = r.chance(1, 8) ? r.below(wide + 1) : r.below(6);
    Builder put(v);
    for (int i = 0; i < n; ++i) put(n > 20 ? fmt("k%d", (int)r.below(4 * n)) : valid_key(r, bytes)) = gen_value(r, n > 20 ? 0 : depth - 1, bytes, wide);
    return v;
  }
  }
}

static Json to_json(const V& v, Rng& r) {
  switch (v.t) {
  case V::N: return r.chance(1, 2) ? Json() : Json(Json::null);
  case V::B: return Json(v.b);
  case V::I: return r.chance(1, 2) ? Json((long)v.i) : v.i == (int)v.i ? Json((int)v.i) : Json((long long)v.i);
  case V::U: return r.chance(1, 2) ? Json((unsigned long)v.u) : v.u == (unsigned)v.u ? Json((unsigned)v.u) : Json((unsigned long long)v.u);
  case V::D: return Json(v.d);
  case V::STR: switch (r.below(4)) {
    case 0: return Json(String(v.s));
    case 1: return Json(v.s);
    case 2: return Json(toStr(v.s));
    default: return Json::make_string(v.s.data(), (int)v.s.size());
    }
  case V::A: {
    Json j = r.chance(1, 2) ? Json::make_array() : Json::make_array_reserve((int)r.below(20));
    int style = r.below(4);
    if (style == 3) {
      std::vector<Json> x;
      for (auto& e : v.a) x.push_back(to_json(e, r));
      return Json(x.begin(), x.end());
    }
    for (size_t i = 0; i < v.a.size(); ++i)
      switch (style) {
      case 0: j.push_back(to_json(v.a[i], r)); break;
      case 1: j[(int)i] = to_json(v.a[i], r); break;
      default: j.get_insert((int)i) = to_json(v.a[i], r); break;
      }
    return j;
  }
  default: {
    Json j = Json::make_object();
    int style = r.below(4);
    for (auto& p : v.o)
      switch (style) {
      case 0: j.set(String(p.first), to_json(p.second, r)); break;
      case 1: j[String(p.first)] = to_json(p.second, r); break;
      case 2: j.get_insert(toStr(p.first)) = to_json(p.second, r); break;
      default: j[p.first] = to_json(p.second, r); break;
      }
    return j;
  }
  }
}

// ---------------------------------------------------------------- reference text writer
static void ref_string(const S& s, S& out, Rng& r, int escapes) {
  out += '"';
  size_t i = 0;
  while (i < s.size()) {
    uint8_t c = s[i];
    int w = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    uint32_t cp = w == 1 ? c : w == 2 ? c & 31 : w == 3 ? c & 15 : c & 7;
    for (int k = 1; k < w; ++k) cp = cp << 6 | (s[i + k] & 63);
    bool must = cp < 32 || cp == '"' || cp == '\\';
    if (must || (int)r.below(4) < escapes) {
      const char* sh = nullptr;
      switch (cp) { case '"': sh = "\\\""; break; case '\\': sh = "\\\\"; break; case '/': sh = "\\/"; break; case 8: sh = "\\b"; break; case 12: sh = "\\f"; break; case 10: sh = "\\n"; break; case 13: sh = "\\r"; break; case 9: sh = "\\t"; break; }
      if (sh && r.chance(2, 3)) out += sh;
      else {
        auto u = [&](uint32_t x) {
          char b[8];
          snprintf(b, 8, r.chance(1, 2) ? "%04x" : "%04X", x);
          out += "\\u";
          out += b;
        };
        if (cp >= 0x10000) { u(0xD800 + ((cp - 0x10000) >> 10)); u(0xDC00 + ((cp - 0x10000) & 0x3FF)); }
        else u(cp);
      }
    } else out.append(s, i, w);
    i += w;
  }
  out += '"';
}
static void ref_space(S& out, Rng& r, int ws) {
  if (ws) for (int n = r.below(ws + 1); n > 0; --n) out += " \t\n\r"[r.below(4)];
}
static void ref_write(const V& v, S& out, Rng& r, int escapes, int ws) {
  ref_space(out, r, ws);
  switch (v.t) {
  case V::N: out += "null"; break;
  case V::B: out += v.b ? "true" : "false"; break;
  case V::I: out += fmt("%lld", (long long)v.i); break;
  case V::U: out += fmt("%llu", (unsigned long long)v.u); break;
  case V::D: {
    S t = fmt(r.chance(1, 4) ? "%.17e" : r.chance(1, 8) && std::fabs(v.d) < 1e18 && std::fabs(v.d) > 1e-5 ? "%.30f" : "%.17g", v.d);
    if (r.chance(1, 4)) for (auto& c : t) if (c == 'e') c = 'E';
    out += t;
    break;
  }
  case V::STR: ref_string(v.s, out, r, escapes); break;
  case V::A:
    out += '[';
    for (size_t i = 0; i < v.a.size(); ++i) { if (i) out += ','; ref_write(v.a[i], out, r, escapes, ws); }
    if (v.a.empty()) ref_space(out, r, ws);
    out += ']';
    break;
  default:
    out += '{';
    for (size_t i = 0; i < v.o.size(); ++i) {
      if (i) out += ',';
      ref_space(out, r, ws);
      ref_string(v.o[i].first, out, r, escapes);
      ref_space(out, r, ws);
      out += ':';
      ref_write(v.o[i].second, out, r, escapes, ws);
    }
    if (v.o.empty()) ref_space(out, r, ws);
    out += '}';
    break;
  }
  ref_space(out, r, ws);
}

// ---------------------------------------------------------------- reference text parser (RFC 8259, UTF-8)
struct RefParser {
  const uint8_t *p, *e;
  int depth = 0, maxdepth = 0;
  bool unsure = false;  // \ufffe, \uffff and other noncharacters in escapes: the parser may refuse them
  void ws() { while (p != e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
  bool lit(const char* s) { size_t n = strlen(s); if ((size_t)(e - p) < n || memcmp(p, s, n)) return false; p += n; return true; }
  bool hex4(uint32_t& x) {
    if (e - p < 4) return false;
    x = 0;
    for (int i = 0; i < 4; ++i, ++p) {
      if (*p >= '0' && *p <= '9') x = x * 16 + *p - '0';
      else if (*p >= 'a' && *p <= 'f') x = x * 16 + *p - 'a' + 10;
      else if (*p >= 'A' && *p <= 'F') x = x * 16 + *p - 'A' + 10;
      else return false;
    }
    return true;
  }
  bool string(S& out) {
    ++p;
    for (;;) {
      if (p == e) return false;
      uint8_t c = *p;
      if (c == '"') { ++p; return true; }
      if (c < 32) return false;
      if (c == '\\') {
        if (++p == e) return false;
        c = *p++;
        switch (c) {
        case '"': case '\\': case '/': out += (char)c; break;
        case 'b': out += '\b'; break;
        case 'f': out += '\f'; break;
        case 'n': out += '\n'; break;
        case 'r': out += '\r'; break;
        case 't': out += '\t'; break;
        case 'u': {
          uint32_t x, y;
          if (!hex4(x)) return false;
          if (x >= 0xDC00 && x < 0xE000) return false;
          if (x >= 0xD800 && x < 0xDC00) {
            if (e - p < 2 || p[0] != '\\' || p[1] != 'u') return false;
            p += 2;
            if (!hex4(y) || y < 0xDC00 || y >= 0xE000) return false;
            x = 0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00);
          }
          if ((x & 0xFFFE) == 0xFFFE) unsure = true;
          out += utf8(x);
          break;
        }
        default: return false;
        }
        continue;
      }
      if (c < 0x80) { out += (char)c; ++p; continue; }
      int w = c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
      if (!w || e - p < w) return false;
      uint32_t cp = w == 2 ? c & 31 : w == 3 ? c & 15 : c & 7;
      for (int k = 1; k < w; ++k) { if ((p[k] & 0xC0) != 0x80) return false; cp = cp << 6 | (p[k] & 63); }
      if ((w == 3 && cp < 0x800) || (w == 4 && (cp < 0x10000 || cp > 0x10FFFF)) || (cp >= 0xD800 && cp < 0xE000)) return false;
      out.append((const char*)p, w);
      p += w;
    }
  }
  bool number(V& v) {
    const uint8_t* b = p;
    bool neg = false, frac = false;
    if (*p == '-') { neg = true; ++p; }
    if (p == e || *p < '0' || *p > '9') return false;
    if (*p == '0') ++p; else while (p != e && *p >= '0' && *p <= '9') ++p;
    if (p != e && *p == '.') { frac = true; ++p; if (p == e || *p < '0' || *p > '9') return false; while (p != e && *p >= '0' && *p <= '9') ++p; }
    if (p != e && (*p == 'e' || *p == 'E')) {
      frac = true;
      ++p;
      if (p != e && (*p == '+' || *p == '-')) ++p;
      if (p == e || *p < '0' || *p > '9') return false;
      while (p != e && *p >= '0' && *p <= '9') ++p;
    }
    S t((const char*)b, p - b);
    errno = 0;
    if (!frac) {
      if (neg) { long long x = strtoll(t.c_str(), nullptr, 10); if (!errno) { v = V::integer(x); return true; } }
      else { unsigned long long x = strtoull(t.c_str(), nullptr, 10); if (!errno) { v = V::uinteger(x); return true; } }
    }
    v = V::dbl(strtod(t.c_str(), nullptr));
    return true;
  }
  bool value(V& v) {
    ws();
    if (p == e) return false;
    switch (*p) {
    case 'n': v = V(); return lit("null");
    case 't': v = V::boolean(true); return lit("true");
    case 'f': v = V::boolean(false); return lit("false");
    case '"': v = V::str(""); return string(v.s);
    case '[':
      v = V::arr();
      if (++depth > maxdepth) maxdepth = depth;
      ++p;
      ws();
      if (p != e && *p == ']') { ++p; --depth; return true; }
      for (;;) {
        v.a.emplace_back();
        if (!value(v.a.back())) return false;
        ws();
        if (p == e) return false;
        if (*p == ']') { ++p; --depth; return true; }
        if (*p++ != ',') return false;
      }
    case '{':
      v = V::obj();
      if (++depth > maxdepth) maxdepth = depth;
      ++p;
      ws();
      if (p != e && *p == '}') { ++p; --depth; return true; }
      for (;;) {
        ws();
        if (p == e || *p != '"') return false;
        S k;
        if (!string(k)) return false;
        ws();
        if (p == e || *p++ != ':') return false;
        V x;
        if (!value(x)) return false;
        v.get_insert(k) = std::move(x);
        ws();
        if (p == e) return false;
        if (*p == '}') { ++p; --depth; return true; }
        if (*p++ != ',') return false;
      }
    default:
      if (*p == '-' || (*p >= '0' && *p <= '9')) return number(v);
      return false;
    }
  }
};
static bool ref_parse(const S& t, V& v, bool* unsure = nullptr, int* maxdepth = nullptr) {
  RefParser rp{(const uint8_t*)t.data(), (const uint8_t*)t.data() + t.size()};
  bool ok = rp.value(v);
  rp.ws();
  if (unsure) *unsure = rp.unsure;
  if (maxdepth) *maxdepth = rp.maxdepth;
  return ok && rp.p == rp.e;
}
static bool same_model(const V& x, const V& y) {
  auto num = [](const V& v) { return v.t == V::I || v.t == V::U || v.t == V::D; };
  if (num(x) && num(y)) {
    long double a = x.t == V::I ? x.i : x.t == V::U ? (long double)x.u : x.d, b = y.t == V::I ? y.i : y.t == V::U ? (long double)y.u : y.d;
    return a == b;
  }
  if (x.t != y.t) return false;
  switch (x.t) {
  case V::N: return true;
  case V::B: return x.b == y.b;
  case V::STR: return x.s == y.s;
  case V::A:
    if (x.a.size() != y.a.size()) return false;
    for (size_t i = 0; i < x.a.size(); ++i) if (!same_model(x.a[i], y.a[i])) return false;
    return true;
  default:
    if (x.o.size() != y.o.size()) return false;
    for (size_t i = 0; i < x.o.size(); ++i) if (x.o[i].first != y.o[i].first || !same_model(x.o[i].second, y.o[i].second)) return false;
    return true;
  }
}

static S clip(const S& s) { return hex(s.data(), s.size() > 200 ? 200 : s.size()) + (s.size() > 200 ? "..." : ""); }

// Every buffer handed to the code is a heap block of exactly its size.
struct Exact {
  char* b;
  size_t n;
  explicit Exact(const S& s) : b((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(b, s.data(), n); }
  ~Exact() { free(b); }
};

// Feed a text in fragments; ok = accepted
static bool stream_text(const S& t, Json& out, Rng& r, int& frags) {
  Json::streaming_parser sp;
  int style = r.below(4);
  size_t pos = 0;
  if (r.chance(1, 4)) {  // a parser that has been used before
    S junk = r.chance(1, 2) ? "{\"a\":[1,\"x" : "[1,{\"b\":2}]";
    sp.consume(junk.data(), junk.size());
    sp.reset();
  }
  while (pos < t.size() && !sp.done()) {
    size_t n = style == 0 ? 1 : style == 1 ? 1 + r.below(3) : style == 2 ? 1 + r.below(20) : 1 + r.below(t.size());
    if (t.size() > 4000) n *= 1 + r.below(t.size() / 500);
    if (n > t.size() - pos) n = t.size() - pos;
    ++frags;
    size_t used;
    if (r.chance(1, 3)) {
      String s(t.data() + pos, (int)n);
      used = sp.consume(s.begin(), s.end(), s, false) - s.begin();
    } else {
      Exact x(t.substr(pos, n));
      used = sp.consume(x.b, x.n);
    }
    if (used > n) viol("stream-overrun", "the streaming parser reports %zu bytes used of %zu", used, n);
    if (!sp.done() && used != n) viol("stream-stuck", "the streaming parser used %zu of %zu bytes of %s and is neither done nor in error", used, n, clip(t).c_str());
    pos += used;
  }
  if (!sp.done()) {
    Exact x("");
    sp.consume(x.b, x.b, String(), true);
  }
  if (!sp.success()) return false;
  for (; pos < t.size(); ++pos)
    if (!strchr(" \t\r\n", t[pos]) || !t[pos]) return false;
  out = sp.result();
  return true;
}

struct Counts { uint64_t text = 0, accepted = 0, rejected = 0, msg = 0, macc = 0, mrej = 0, prog = 0, ops = 0, frags = 0; } cnt;

// judge one text: want/v are the reference's verdict and value
static void judge_text(const S& t, bool want, const V& v, bool exact, Rng& r, const char* what) {
  ++cnt.text;
  ++evals();
  (want ? cnt.accepted : cnt.rejected)++;
  Json j = Json::object("unchanged", 1);
  bool ok;
  {
    bool viastr = r.chance(1, 2);
    if (viastr) { String s(t); ok = j.assign_parse(s); }
    else { Exact x(t); ok = j.assign_parse(x.b, x.b + x.n); }
  }
  if (ok != want) viol(want ? "text-rejected" : "text-accepted", "%s: %s of %zu bytes was %s: %s%s", what, "the text", t.size(), ok ? "accepted" : "rejected", clip(t).c_str(), ok ? "" : (" value " + dump(v)).c_str());
  if (!ok && !(j.is_o() && j.size() == 1 && j.get("unchanged") == Json(1))) viol("text-failed-modifies", "%s: a failed assign_parse changed the value (%s)", what, clip(t).c_str());
  if (ok) { S d = differ(j, v, exact); if (!d.empty()) viol("text-value", "%s: text %s read as another value: %s", what, clip(t).c_str(), d.c_str()); }
  Json k;
  int frags = 0;
  bool ok2 = stream_text(t, k, r, frags);
  cnt.frags += frags;
  if (ok2 != want) viol(want ? "stream-rejected" : "stream-accepted", "%s: %s in %d fragments was %s", what, clip(t).c_str(), frags, ok2 ? "accepted" : "rejected");
  if (ok2) { S d = differ(k, v, exact); if (!d.empty()) viol("stream-value", "%s: text %s in %d fragments read as another value: %s", what, clip(t).c_str(), frags, d.c_str()); }
}

// Numbers of the model as text gives them back: U for non-negative, I for negative.
static void mutate(S& t, Rng& r) {
  static const char* bits[] = {"\\", "\"", "\\u", "\\ud83d", "\\uDE00", "\\u00", "[", "]", "{", "}", ",", ":", "-", "0", "1", ".", "e", "e+", "E-", "null", "true", "fals", " ", "\n", "\xC3", "\xA9", "\xE0\xA0", "\xED\xA0\x80", "\xF0\x90", "\xF4\x90\x80\x80", "\xC0\x80", "\x1f", "\x7f", "18446744073709551615", "18446744073709551616", "99999999999999999999", "-9223372036854775808", "-9223372036854775809", "\"a\":", "/", "\f"};
  for (int n = 1 + r.below(3); n > 0; --n) {
    size_t p = r.below(t.size() + 1);
    switch (r.below(6)) {
    case 0: t.resize(p); break;
    case 1: if (p < t.size()) t[p] = (char)r(); break;
    case 2: if (p < t.size()) t.erase(p, 1 + r.below(3)); break;
    case 3: t.insert(p, 1, (char)r()); break;
    case 4: t.insert(p, bits[r.below(sizeof bits / sizeof *bits)]); break;
    default: { size_t q = r.below(t.size() + 1); if (q > p) t.insert(r.below(t.size() + 1), t.substr(p, std::min<size_t>(q - p, 30))); break; }
    }
  }
}

static void text_case(Rng& r) {
  V v = gen_value(r, r.below(6), false, 60);
  // 1. written by the code
  Json j = to_json(v, r);
  { S d = differ(j, v, true); if (!d.empty()) viol("build", "a value built through the interface differs: %s", d.c_str()); }
  Json::unparse_manipulator m;
  if (r.chance(1, 2)) m = m.indent_depth(r.below(5)).tab_width(r.below(10)).newline_terminator(r.chance(1, 2)).space_separator(r.chance(1, 2));
  S t;
  if (r.chance(1, 2)) t = sstr(j.unparse(m));
  else { StringAccum sa; sa << "xx"; j.unparse(sa, m); t = S(sa.data() + 2, sa.length() - 2); }
  V back;
  if (!ref_parse(t, back)) viol("unparse-malformed", "unparse of %s is not a JSON text: %s", dump(v).c_str(), clip(t).c_str());
  if (!same_model(v, back)) viol("unparse-value", "unparse of %s denotes another value: %s", dump(v).c_str(), clip(t).c_str());
  if (m.newline_terminator() && (t.empty() || t.back() != '\n')) viol("unparse-newline", "no newline at the end of %s", clip(t).c_str());
  judge_text(t, true, v, false, r, "text written by unparse");
  // 2. written by the reference
  S u;
  ref_write(v, u, r, r.below(5), r.below(3));
  V v2;
  if (!ref_parse(u, v2) || !same_model(v, v2)) viol("harness", "reference writer and parser disagree: %s", clip(u).c_str());
  judge_text(u, true, v2, false, r, "text written by the reference");
  // 3. mutated
  for (int k = 0; k < 6; ++k) {
    S w = k & 1 ? u : t;
    if (w.size() > 3000) w.resize(3000);
    mutate(w, r);
    V x;
    bool unsure = false;
    int md = 0;
    bool ok = ref_parse(w, x, &unsure, &md);
    if (unsure) { ++cnt.text; Exact e(w); Json z; z.assign_parse(e.b, e.b + e.n); continue; }
    judge_text(w, ok, x, false, r, "mutated text");
  }
  distinct().add(hash_bytes(t.data(), t.size()));
}

static void deep_case(Rng& r) {
  // nesting up to and beyond the documented limit
  for (int k = 0; k < 2; ++k) {
    int depth = r.chance(1, 2) ? 100 + r.below(1900) : 2100 + r.below(30000);
    bool obj = r.chance(1, 2);
    S t;
    for (int i = 0; i < depth; ++i) t += obj ? "{\"k\":" : "[";
    t += "1";
    for (int i = 0; i < depth; ++i) t += obj ? "}" : "]";
    bool want = depth < 1000;
    if (!want && depth < 2100) { Exact e(t); Json j; j.assign_parse(e.b, e.b + e.n); continue; }
    Exact e(t);
    Json j;
    bool ok = j.assign_parse(e.b, e.b + e.n);
    if (ok != want) viol("depth", "a text nested %d deep was %s", depth, ok ? "accepted" : "rejected");
    if (ok) { if (sstr(j.unparse()) != t) viol("depth-value", "a text nested %d deep does not survive", depth); }
    maxstat("text_depth", depth);
  }
}

// ---------------------------------------------------------------- MessagePack reference
static void be(S& out, uint64_t x, int n) { for (int i = n - 1; i >= 0; --i) out += (char)(x >> (8 * i)); }
static void mp_len(S& out, size_t n, Rng& r, int fix, int nfix, int c8, int c16, int c32) {
  int w = (int)r.below(4);
  if (w == 0 && (int)n < nfix) out += (char)(fix + n);
  else if (w <= 1 && c8 && n < 256) { out += (char)c8; be(out, n, 1); }
  else if (w <= 2 && n < 65536) { out += (char)c16; be(out, n, 2); }
  else { out += (char)c32; be(out, n, 4); }
}
static void mp_write(const V& v, S& out, Rng& r, bool wide) {
  switch (v.t) {
  case V::N: out += '\xC0'; break;
  case V::B: out += v.b ? '\xC3' : '\xC2'; break;
  case V::I: case V::U: {
    bool neg = v.t == V::I && v.i < 0;
    uint64_t u = v.t == V::I ? (uint64_t)v.i : v.u;
    int64_t s = (int64_t)u;
    bool sok = neg || s >= 0;  // representable as int64
    for (;;) {
      switch (r.below(9)) {
      case 0: if (!neg && u < 128) { out += (char)u; return; } break;
      case 1: if (neg && s >= -32) { out += (char)s; return; } break;
      case 2: if (!neg && u < 256) { out += '\xCC'; be(out, u, 1); return; } break;
      case 3: if (!neg && u < 65536) { out += '\xCD'; be(out, u, 2); return; } break;
      case 4: if (!neg && u < (1ull << 32)) { out += '\xCE'; be(out, u, 4); return; } break;
      case 5: if (!neg) { out += '\xCF'; be(out, u, 8); return; } break;
      case 6: if (sok && s == (int8_t)s) { out += '\xD0'; be(out, u, 1); return; } break;
      case 7: if (sok && s == (int16_t)s) { out += '\xD1'; be(out, u, 2); return; } break;
      default: if (sok && s == (int32_t)s && r.chance(1, 2)) { out += '\xD2'; be(out, u, 4); return; } else if (sok) { out += '\xD3'; be(out, u, 8); return; } break;
      }
    }
  }
  case V::D: {
    float f = (float)v.d;
    if (std::isfinite(f) && (double)f == v.d && std::signbit(f) == std::signbit(v.d) && r.chance(1, 2)) { uint32_t b; memcpy(&b, &f, 4); out += '\xCA'; be(out, b, 4); }
    else { uint64_t b; memcpy(&b, &v.d, 8); out += '\xCB'; be(out, b, 8); }
    break;
  }
  case V::STR:
    if (r.chance(1, 3)) mp_len(out, v.s.size(), r, 0, 0, 0xC4, 0xC5, 0xC6);
    else mp_len(out, v.s.size(), r, 0xA0, 32, 0xD9, 0xDA, 0xDB);
    out += v.s;
    break;
  case V::A:
    mp_len(out, v.a.size(), r, 0x90, 16, 0, 0xDC, 0xDD);
    for (auto& x : v.a) mp_write(x, out, r, wide);
    break;
  default:
    mp_len(out, v.o.size(), r, 0x80, 16, 0, 0xDE, 0xDF);
    for (auto& p : v.o) {
      // an integer key stands for its decimal text
      if (!p.first.empty() && p.first.size() < 9 && p.first == fmt("%d", atoi(p.first.c_str())) && r.chance(1, 2)) mp_write(V::integer(atoi(p.first.c_str())), out, r, wide);
      else mp_write(V::str(p.first), out, r, wide);
      mp_write(p.second, out, r, wide);
    }
    break;
  }
}
struct MpRef {
  const uint8_t *p, *e;
  enum R { OK, BAD, SHORT, HUGE_ };
  int depth = 0;
  uint64_t get(int n) { uint64_t x = 0; for (int i = 0; i < n; ++i) x = x << 8 | *p++; return x; }
  R value(V& v, bool key = false) {
    if (p == e) return SHORT;
    if (depth > 900) return HUGE_;
    uint8_t c = *p;
    uint64_t n = 0;
    enum { none, raw, arr, map } k = none;
    static const int extra[32] = {0, -1, 0, 0, 1, 2, 4, -1, -1, -1, 4, 8, 1, 2, 4, 8, 1, 2, 4, 8, -1, -1, -1, -1, -1, 1, 2, 4, 2, 4, 2, 4};
    if (c < 0x80 || c >= 0xE0) { ++p; v = V::integer((int8_t)c); }
    else if (c < 0x90) { ++p; n = c - 0x80; k = map; }
    else if (c < 0xA0) { ++p; n = c - 0x90; k = arr; }
    else if (c < 0xC0) { ++p; n = c - 0xA0; k = raw; }
    else {
      int x = extra[c - 0xC0];
      if (x < 0) return BAD;
      if (e - p < 1 + x) return SHORT;
      ++p;
      uint64_t b = get(x);
      switch (c) {
      case 0xC0: v = V(); break;
      case 0xC2: v = V::boolean(false); break;
      case 0xC3: v = V::boolean(true); break;
      case 0xC4: case 0xC5: case 0xC6: case 0xD9: case 0xDA: case 0xDB: n = b; k = raw; break;
      case 0xCA: { uint32_t w = (uint32_t)b; float f; memcpy(&f, &w, 4); v = V::dbl(f); break; }
      case 0xCB: { double d; memcpy(&d, &b, 8); v = V::dbl(d); break; }
      case 0xCC: case 0xCD: case 0xCE: case 0xCF: v = V::uinteger(b); break;
      case 0xD0: v = V::integer((int8_t)b); break;
      case 0xD1: v = V::integer((int16_t)b); break;
      case 0xD2: v = V::integer((int32_t)b); break;
      case 0xD3: v = V::integer((int64_t)b); break;
      case 0xDC: case 0xDD: n = b; k = arr; break;
      default: n = b; k = map; break;
      }
    }
    if (k == raw) {
      if (n >= (1u << 31)) return HUGE_;
      if ((uint64_t)(e - p) < n) return SHORT;
      v = V::str(S((const char*)p, n));
      p += n;
    } else if (k == arr || k == map) {
      if (n >= (1u << 31)) return HUGE_;
      if (key) return BAD;  // read as a container first, refused once complete or at once: never a success
      ++depth;
      v = k == arr ? V::arr() : V::obj();
      Builder put(v);
      for (uint64_t i = 0; i < n; ++i) {
        V x, y;
        if (k == map) {
          R q = value(x, true);
          if (q != OK) return q;
          if (x.t == V::I || x.t == V::U) x = V::str(x.t == V::I ? fmt("%lld", (long long)x.i) : fmt("%llu", (unsigned long long)x.u));
          if (x.t != V::STR) return BAD;
        }
        R q = value(y);
        if (q != OK) return q;
        if (k == arr) v.a.push_back(std::move(y)); else put(x.s) = std::move(y);
      }
      --depth;
    }
    return OK;
  }
};
// Feed bytes; returns 1 success, 0 not finished, -1 error; used = bytes consumed at success
static int mp_stream(msgpack::streaming_parser& sp, const S& t, Rng& r, size_t& pos, int style, int& frags) {
  pos = 0;
  int idle = 0;
  while (pos < t.size() && !sp.done()) {
    size_t n = style == 0 ? t.size() - pos : style == 1 ? 1 : style == 2 ? 1 + r.below(4) : 1 + r.below(t.size());
    if (t.size() > 4000) n *= 1 + r.below(t.size() / 500);
    if (n > t.size() - pos) n = t.size() - pos;
    ++frags;
    size_t used;
    if (r.chance(1, 3)) {
      String s(t.data() + pos, (int)n);
      used = sp.consume(s.begin(), s.end(), s) - s.begin();
    } else {
      Exact x(t.substr(pos, n));
      used = sp.consume(x.b, x.n);
    }
    if (used > n) viol("mp-overrun", "the MessagePack parser reports %zu bytes used of %zu", used, n);
    if (used == 0 && !sp.done()) { if (++idle > 4) viol("mp-stuck", "the MessagePack parser makes no progress at byte %zu of %s", pos, clip(t).c_str()); }
    else idle = 0;
    pos += used;
  }
  return sp.success() ? 1 : sp.error() ? -1 : 0;
}
static void judge_msg(const S& t, MpRef::R want, const V& v, size_t end, bool finite, Rng& r, const char* what) {
  ++cnt.msg;
  ++evals();
  (want == MpRef::OK ? cnt.macc : cnt.mrej)++;
  for (int pass = 0; pass < 2; ++pass) {
    msgpack::streaming_parser sp;
    int style = pass == 0 ? 0 : 1 + r.below(3), frags = 0;
    size_t pos;
    if (r.chance(1, 4)) {
      S junk = r.chance(1, 2) ? S("\x82\xA1" "a\x93\x01", 5) : S("\x81\xA1" "a\x92\x01\x02", 6);
      size_t q;
      mp_stream(sp, junk, r, q, 1, frags);
      sp.reset();
    }
    int got = mp_stream(sp, t, r, pos, style, frags);
    cnt.frags += frags;
    if (want == MpRef::OK) {
      if (got != 1) viol("mp-rejected", "%s: message %s in %d fragments was %s; value %s", what, clip(t).c_str(), frags, got < 0 ? "rejected" : "left unfinished", dump(v).c_str());
      if (pos != end) viol("mp-end", "%s: message %s ends at byte %zu, the parser stopped at %zu", what, clip(t).c_str(), end, pos);
      if (finite) { S d = differ(sp.result(), v, true); if (!d.empty()) viol("mp-value", "%s: message %s in %d fragments read as another value: %s", what, clip(t).c_str(), frags, d.c_str()); }
    } else if (got == 1)
      viol("mp-accepted", "%s: %s message %s was accepted as %s", what, want == MpRef::SHORT ? "truncated" : "malformed", clip(t).c_str(), S(sp.result().unparse().data(), std::min(200, sp.result().unparse().length())).c_str());
  }
}
static bool has_nan(const V& v) {
  if (v.t == V::D) return std::isnan(v.d);
  for (auto& x : v.a) if (has_nan(x)) return true;
  for (auto& x : v.o) if (has_nan(x.second)) return true;
  return false;
}
static void msg_case(Rng& r) {
  V v = gen_value(r, r.below(6), true, r.chance(1, 40) ? 70000 : 60);
  Json j = to_json(v, r);
  // written by the code
  S t;
  int how = r.below(3);
  if (how == 0) t = sstr(msgpack::unparse(j));
  else if (how == 1) { StringAccum sa; msgpack::unparse(sa, j); t = S(sa.data(), sa.length()); }
  else { StringAccum sa; msgpack::unparser<StringAccum> up(sa); up << j; t = S(sa.data(), sa.length()); }
  V back;
  MpRef ref{(const uint8_t*)t.data(), (const uint8_t*)t.data() + t.size()};
  MpRef::R q = ref.value(back);
  if (q != MpRef::OK || ref.p != ref.e) viol("mp-unparse-malformed", "MessagePack written for %s is not one message: %s", dump(v).c_str(), clip(t).c_str());
  if (!same_model(v, back)) viol("mp-unparse-value", "MessagePack written for %s denotes another value: %s", dump(v).c_str(), clip(t).c_str());
  judge_msg(t, MpRef::OK, v, t.size(), true, r, "written by unparse");
  // by the reference, followed by other bytes
  S u;
  mp_write(v, u, r, true);
  size_t end = u.size();
  for (int n = r.below(4); n > 0; --n) u += (char)r();
  judge_msg(u, MpRef::OK, v, end, true, r, "written by the reference");
  for (int k = 0; k < 6; ++k) {
    S w = k & 1 ? u : t;
    if (w.size() > 2000) w.resize(2000);
    for (int n = 1 + r.below(3); n > 0; --n) {
      size_t p = r.below(w.size() + 1);
      switch (r.below(5)) {
      case 0: w.resize(p); break;
      case 1: if (p < w.size()) w[p] = (char)r(); break;
      case 2: if (p < w.size()) w.erase(p, 1 + r.below(3)); break;
      case 3: w.insert(p, 1, (char)r()); break;
      default: { static const uint8_t c[] = {0xC1, 0xC4, 0xC6, 0xC7, 0xD4, 0xD9, 0xDB, 0xDC, 0xDD, 0xDE, 0xDF, 0x80, 0x90, 0xA0, 0xCF, 0xCB}; if (p < w.size()) w[p] = (char)c[r.below(16)]; break; }
      }
    }
    V x;
    MpRef m{(const uint8_t*)w.data(), (const uint8_t*)w.data() + w.size()};
    MpRef::R q = m.value(x);
    if (q == MpRef::HUGE_) {
      // lengths beyond what the sandbox can hold: only the impossible ones (2^31 and more) are tried
      continue;
    }
    judge_msg(w, q, x, m.p - (const uint8_t*)w.data(), !has_nan(x), r, "mutated message");
  }
  // 32-bit lengths with the top bit set
  if (r.chance(1, 4)) {
    static const uint8_t c[] = {0xC6, 0xDB, 0xDD, 0xDF};
    S w;
    if (r.chance(1, 2)) w += '\x91';
    w += (char)c[r.below(4)];
    be(w, 0x80000000u | (uint32_t)r(), 4);
    for (int n = r.below(40); n > 0; --n) w += r.chance(1, 3) ? '\0' : (char)r.below(128);
    V x;
    judge_msg(w, MpRef::SHORT, x, 0, false, r, "message with a huge length");
  }
  // the in-place parser on what unparse wrote (it trusts its input)
  {
    S padded = t;
    Json k;
    String ps(padded);
    msgpack::parser p(ps);
    p >> k;
    S d = differ(k, v, true);
    if (!d.empty()) viol("mp-parser-value", "msgpack::parser reads %s as another value: %s", clip(t).c_str(), d.c_str());
    if (p.position() != ps.end()) viol("mp-parser-end", "msgpack::parser stops %ld bytes before the end of %s", (long)(ps.end() - p.position()), clip(t).c_str());
  }
  distinct().add(hash_bytes(t.data(), t.size()));
}
static void msg_deep_case(Rng& r) {
  int depth = r.chance(1, 2) ? 1 + r.below(1500) : 100000 + r.below(400000);
  bool map = r.chance(1, 2);
  S t;
  for (int i = 0; i < depth; ++i) { if (map) t += S("\x81\xA1k", 3); else t += '\x91'; }
  t += '\x01';
  int frags = 0;
  size_t pos;
  msgpack::streaming_parser sp;
  int got = mp_stream(sp, t, r, pos, r.chance(1, 2) ? 0 : 3, frags);
  if (depth <= 1500 && got != 1) viol("mp-depth", "a message nested %d deep was rejected", depth);
  if (depth >= 100000 && got == 1) viol("mp-depth", "a message nested %d deep was accepted: using or destroying the value overflows the stack", depth);
  if (got == 1) { S u = sstr(msgpack::unparse(sp.result())); if (u != t) viol("mp-depth-value", "a message nested %d deep does not survive", depth); }
  maxstat("msg_depth", depth);
}

// ---------------------------------------------------------------- programs
// Pool of variables. A destination is reached through references that the interface hands out, a source through const
// references; both may lie in the same variable.
static const int NV = 5;
struct Prog {
  Json j[NV];
  V v[NV];
  Rng& r;
  S log;
  explicit Prog(Rng& rr) : r(rr) {}
  S key() { return r.chance(1, 4) ? fmt("%d", (int)r.below(6)) : S(1, (char)('a' + r.below(r.chance(1, 8) ? 26 : 5))); }
  static S ids(size_t i) { return fmt("%zu", i); }
  static void to_object(V& m) {
    if (m.t == V::O) return;
    V n = V::obj();
    if (m.t == V::A) for (size_t i = 0; i < m.a.size(); ++i) n.get_insert(ids(i)) = std::move(m.a[i]);
    m = std::move(n);
  }
  static V& at_key(V& m, const S& k) { to_object(m); return m.get_insert(k); }
  static V& at_idx(V& m, size_t i) {
    if (m.t == V::O) return m.get_insert(ids(i));
    if (m.t != V::A) m = V::arr();
    if (m.a.size() <= i) m.a.resize(i + 1);
    return m.a[i];
  }
  static const V* look(const V& m, const S& k) {
    static const V null;
    if (m.t == V::O) { const V* p = m.find(k); return p ? p : &null; }
    if (m.t == V::A && !k.empty() && k.find_first_not_of("0123456789") == S::npos && (k == "0" || k[0] != '0') && k.size() < 5 && (size_t)atoi(k.c_str()) < m.a.size()) return &m.a[atoi(k.c_str())];
    return &null;
  }
  static const V* look(const V& m, size_t i) {
    static const V null;
    if (m.t == V::O) return look(m, ids(i));
    if (m.t == V::A && i < m.a.size()) return &m.a[i];
    return &null;
  }
  // descend into an existing element
  void dest(int x, Json*& jp, V*& vp, int depth) {
    jp = &j[x];
    vp = &v[x];
    while (depth-- > 0 && r.chance(2, 3)) {
      if (vp->t == V::A && !vp->a.empty()) {
        size_t i = r.below(vp->a.size());
        switch (r.below(4)) {
        case 0: jp = &jp->get_insert((int)i); break;
        case 1: jp = &(*jp)[(int)i].value(); break;
        case 2: { Json::array_iterator it = jp->abegin(); it += (int)i; jp = &*it; break; }
        default: jp = &jp->array_data()[i]; break;
        }
        vp = &vp->a[i];
        log += fmt("[%zu]", i);
      } else if (vp->t == V::O && !vp->o.empty()) {
        size_t i = r.below(vp->o.size());
        const S& k = vp->o[i].first;
        switch (r.below(3)) {
        case 0: jp = &jp->get_insert(toStr(k)); break;
        case 1: jp = &(*jp)[String(k)].value(); break;
        default: { Json::object_iterator it = jp->obegin(); for (size_t q = 0; q < i; ++q) ++it; jp = &it.value(); break; }
        }
        log += "." + k;
        vp = &vp->o[i].second;
      } else break;
    }
  }
  void src(int x, const Json*& jp, const V*& vp, int depth) {
    jp = &j[x];
    vp = &v[x];
    while (depth-- > 0 && r.chance(2, 3)) {
      if (vp->t == V::A && !vp->a.empty()) { size_t i = r.below(vp->a.size()); jp = &jp->get((int)i); vp = &vp->a[i]; log += fmt("[%zu]", i); }
      else if (vp->t == V::O && !vp->o.empty()) { size_t i = r.below(vp->o.size()); jp = &jp->get(toStr(vp->o[i].first)); log += "." + vp->o[i].first; vp = &vp->o[i].second; }
      else break;
    }
  }
  void run(int nops) {
    for (int k = 0; k < nops; ++k) {
      ++cnt.ops;
      int x = r.below(NV), y = r.chance(1, 3) ? x : (int)r.below(NV);
      Json* a;
      V* m;
      log = fmt("op %d: v%d", k, x);
      int kind = r.below(34);
      // Copies share structure, so a reference to an element must not be held while its container is copied: the source is
      // copied first.
      Json sj;
      V sv;
      if (kind == 4 || kind == 13 || kind == 14 || kind == 15 || kind == 18 || (y != x && (kind == 2 || kind == 3 || kind == 5 || kind == 8 || kind == 24))) {
        const Json* c; const V* w;
        S keep = log;
        src(y, c, w, 3);
        sj = *c;
        sv = *w;
        log = "source " + log.substr(keep.size()) + "; " + keep;
      } else if (y == x && (kind == 2 || kind == 3)) {
        const Json* c; const V* w;
        src(y, c, w, 3);
        sj = *c;
        sv = *w;
      }
      dest(x, a, m, r.below(4));
      // sizes stay bounded
      if ((m->t == V::A && m->a.size() > 40) || (m->t == V::O && m->o.size() > 40)) { *a = Json(); *m = V(); }
      switch (kind) {
      case 0: case 1: { log += " = value"; V n = gen_value(r, 3, true, 30); *a = to_json(n, r); *m = n; break; }
      case 2: case 3: {  // r = c, where c does not contain r
        const Json* c; const V* w;
        if (y == x && &j[x] != a) {  // source inside the destination
          c = a; w = m;
          log += " = inside";
          if (w->t == V::A && !w->a.empty()) { size_t i = r.below(w->a.size()); c = &c->get((int)i); w = &w->a[i]; }
          else if (w->t == V::O && !w->o.empty()) { size_t i = r.below(w->o.size()); c = &c->get(toStr(w->o[i].first)); w = &w->o[i].second; }
        } else { log += fmt(" = v%d", y); c = &sj; w = &sv; }
        V n = *w;
        *a = *c;
        *m = std::move(n);
        break;
      }
      case 4: {  // set(key, value)
        const Json* c; const V* w; S q = key();
        log += " set " + q + fmt(" v%d", y);
        c = &sj; w = &sv;
        V n = *w;
        Json cc(*c);
        if (r.chance(1, 2)) a->set(String(q), cc); else a->set(String(q), std::move(cc));
        at_key(*m, q) = std::move(n);
        break;
      }
      case 5: {  // proxy = const Json&, source anywhere, also an ancestor or a sibling
        S q = key();
        const Json* c; const V* w;
        log += " [" + q + fmt("] = v%d", y);
        // the source must stay valid: in another variable, or the destination itself or one of its parts
        if (y == x) { if (r.chance(1, 3)) { c = a; w = m; log += "(itself)"; } else if (m->t == V::A && !m->a.empty()) { size_t i = r.below(m->a.size()); c = &a->get((int)i); w = &m->a[i]; if (!a->is_array()) viol("harness", "kind"); }
          else if (m->t == V::O && !m->o.empty()) { size_t i = r.below(m->o.size()); c = &((const Json*)a)->get(toStr(m->o[i].first)); w = &m->o[i].second; log += "(part " + m->o[i].first + ")"; } else { c = a; w = m; } }
        else { c = &sj; w = &sv; }
        V n = *w;
        switch (r.below(3)) {
        case 0: (*a)[String(q)] = *c; break;
        case 1: (*a)[toStr(q)] = *c; break;
        default: (*a)[q] = *c; break;
        }
        at_key(*m, q) = std::move(n);
        break;
      }
      case 6: {  // proxy = proxy within one value
        S q = key(), p = key();
        log += " [" + q + "] = [" + p + "]";
        V n = *look(*m, p);
        switch (r.below(3)) {
        case 0: (*a)[String(q)] = (*a)[String(p)]; break;
        case 1: (*a)[toStr(q)] = (*a)[toStr(p)]; break;
        default: (*a)[String(q)] = (*a)[toStr(p)]; break;
        }
        at_key(*m, q) = std::move(n);
        break;
      }
      case 7: {  // array proxy = array proxy
        int q = r.below(12), p = r.below(8);
        log += fmt(" [%d] = [%d]", q, p);
        V n = *look(*m, (size_t)p);
        (*a)[q] = (*a)[p];
        at_idx(*m, q) = std::move(n);
        break;
      }
      case 8: {  // array proxy = value
        int q = r.below(20);
        const Json* c; const V* w;
        log += fmt(" [%d] = v%d", q, y);
        if (y == x) { c = a; w = m; log += "(itself)"; if (m->t == V::A && !m->a.empty() && r.chance(2, 3)) { size_t i = r.below(m->a.size()); c = &((const Json*)a)->get((int)i); w = &m->a[i]; log += fmt(" part %zu", i); } }
        else { c = &sj; w = &sv; }
        V n = *w;
        (*a)[q] = *c;
        at_idx(*m, q) = std::move(n);
        break;
      }
      case 9: {  // set(key, proxy)
        S q = key(), p = key();
        log += " set " + q + " [" + p + "]";
        V n = *look(*m, p);
        a->set(String(q), (*a)[String(p)]);
        at_key(*m, q) = std::move(n);
        break;
      }
      case 10: { S q = key(); log += " unset " + q; a->unset(toStr(q)); if (m->t == V::O) for (size_t i = 0; i < m->o.size(); ++i) if (m->o[i].first == q) { m->o.erase(m->o.begin() + i); break; } break; }
      case 11: {
        if (m->t != V::O) break;
        S q = key();
        log += " erase " + q;
        int got = a->erase(toStr(q)), want = 0;
        for (size_t i = 0; i < m->o.size(); ++i) if (m->o[i].first == q) { m->o.erase(m->o.begin() + i); want = 1; break; }
        if (got != want) viol("prog-erase", "%s returned %d", log.c_str(), got);
        break;
      }
      case 12: {
        if (m->t != V::O || m->o.empty()) break;
        size_t i = r.below(m->o.size());
        log += fmt(" erase iterator %zu", i);
        Json::object_iterator it = a->obegin();
        for (size_t q = 0; q < i; ++q) ++it;
        it = a->erase(it);
        m->o.erase(m->o.begin() + i);
        if (i == m->o.size() ? it != a->oend() : !it.live() || sstr(it.key()) != m->o[i].first) viol("prog-erase-next", "%s: wrong next element", log.c_str());
        break;
      }
      case 13: {
        if (m->t != V::O) break;
        S q = key();
        const Json* c; const V* w;
        log += " insert " + q + fmt(" v%d", y);
        c = &sj; w = &sv;
        V n = *w;
        std::pair<const String, Json> pr(String(q), *c);
        auto res = a->insert(pr);
        bool fresh = !m->find(q);
        if (res.second != fresh || sstr(res.first.key()) != q) viol("prog-insert", "%s returned %d", log.c_str(), (int)res.second);
        if (fresh) m->get_insert(q) = std::move(n);
        break;
      }
      case 14: case 15: {  // push_back
        if (m->t != V::A && m->t != V::N) break;
        const Json* c; const V* w;
        log += fmt(" push_back v%d", y);
        if (y == x && r.chance(1, 2)) { c = a; w = m; log += "(itself)"; } else { c = &sj; w = &sv; }
        V n = *w;
        a->push_back(*c);
        if (m->t == V::N) *m = V::arr();
        m->a.push_back(std::move(n));
        break;
      }
      case 16: {  // push_back(proxy)
        if (m->t != V::A && m->t != V::N) break;
        int p = r.below(m->a.size() + 2);
        log += fmt(" push_back [%d]", p);
        V n = *look(*m, (size_t)p);
        a->push_back((*a)[p]);
        if (m->t == V::N) *m = V::arr();
        m->a.push_back(std::move(n));
        break;
      }
      case 17: if (m->t == V::A && !m->a.empty()) { log += " pop_back"; a->pop_back(); m->a.pop_back(); } break;
      case 18: {  // insert(position, value)
        if (m->t != V::A) break;
        size_t i = r.below(m->a.size() + 1);
        const Json* c; const V* w;
        log += fmt(" insert %zu v%d", i, y);
        if (y == x && r.chance(1, 3)) { c = a; w = m; log += "(itself)"; } else { c = &sj; w = &sv; }
        V n = *w;
        auto it = a->insert(a->abegin() + (int)i, *c);
        m->a.insert(m->a.begin() + i, std::move(n));
        if (it - a->abegin() != (int)i) viol("prog-insert-pos", "%s: wrong iterator", log.c_str());
        break;
      }
      case 19: {  // insert(position, proxy)
        if (m->t != V::A) break;
        size_t i = r.below(m->a.size() + 1), p = r.below(m->a.size() + 2);
        log += fmt(" insert %zu [%zu]", i, p);
        V n = *look(*m, p);
        a->insert(a->abegin() + (int)i, (*a)[(int)p]);
        m->a.insert(m->a.begin() + i, std::move(n));
        break;
      }
      case 20: {
        if (m->t != V::A) break;
        size_t i = r.below(m->a.size() + 1), l = r.below(m->a.size() - i + 1);
        log += fmt(" erase %zu..%zu", i, i + l);
        auto it = a->erase(a->abegin() + (int)i, a->abegin() + (int)(i + l));
        m->a.erase(m->a.begin() + i, m->a.begin() + i + l);
        if (it - a->abegin() != (int)i) viol("prog-erase-pos", "%s: wrong iterator", log.c_str());
        break;
      }
      case 21: { if (m->t != V::A && m->t != V::N) break; int n = r.below(25); log += fmt(" resize %d", n); a->resize(n); if (m->t == V::N) *m = V::arr(); m->a.resize(n); break; }
      case 22: { if (m->t != V::A && m->t != V::N) break; log += " reserve"; a->reserve(r.below(50)); if (m->t == V::N) *m = V::arr(); break; }
      case 23: log += " clear"; a->clear(); m->a.clear(); m->o.clear(); if (!m->container()) *m = V(); break;
      case 24: {  // merge
        if (m->t != V::O && m->t != V::N) break;
        const Json* c; const V* w;
        log += fmt(" merge v%d", y);
        if (y == x && r.chance(1, 4)) { c = a; w = m; log += "(itself)"; }
        else if (y == x) { c = a; w = m; if (!m->o.empty()) { size_t i = r.below(m->o.size()); c = &((const Json*)a)->get(toStr(m->o[i].first)); w = &m->o[i].second; log += "(part " + m->o[i].first + ")"; } }
        else { c = &sj; w = &sv; }
        if (w->t != V::O && w->t != V::N) break;
        V n = *w;
        bool proxied = false;
        if (y == x && c != a && m->t == V::O) for (auto& p : m->o) if (&p.second == w) { if (r.chance(1, 2)) { a->merge((*a)[String(p.first)]); proxied = true; } break; }
        if (!proxied) a->merge(*c);
        if (n.t == V::O) { to_object(*m); for (auto& p : n.o) m->get_insert(p.first) = p.second; }
        break;
      }
      case 25: { if (x == y) break; Json* b; V* w; log += fmt(" swap v%d", y); dest(y, b, w, 3); if (r.chance(1, 2)) a->swap(*b); else swap(*a, *b); std::swap(*m, *w); break; }
      case 26: { if (x == y) break; Json* b; V* w; log += fmt(" = move v%d", y); dest(y, b, w, 3); Json tmp(std::move(*b)); if (!b->is_null()) viol("prog-move", "%s: the source of a move is not null", log.c_str()); V n = std::move(*w); *w = V(); *a = std::move(tmp); *m = std::move(n); break; }
      case 27: {  // move a part over the whole
        if (m->t == V::A && !m->a.empty()) { size_t i = r.below(m->a.size()); log += fmt(" = move [%zu]", i); V n = m->a[i]; *a = std::move(a->get_insert((int)i)); *m = std::move(n); }
        else if (m->t == V::O && !m->o.empty()) { size_t i = r.below(m->o.size()); log += " = move ." + m->o[i].first; V n = m->o[i].second; *a = std::move(a->get_insert(toStr(m->o[i].first))); *m = std::move(n); }
        break;
      }
      case 28: {  // arithmetic
        if (m->t != V::N && m->t != V::I && m->t != V::U && m->t != V::D) break;
        int how = r.below(6);
        if (m->t == V::I || m->t == V::U) { uint64_t z = m->t == V::I ? (uint64_t)m->i : m->u; *m = a->is_unsigned() ? V::uinteger(z) : V::integer((int64_t)z); }
        log += fmt(" arithmetic %d", how);
        int64_t d = how == 0 ? 1 : how == 1 ? -1 : (int64_t)r.below(2000) - 1000;
        bool sub = how == 3 || how == 5;
        switch (how) {
        case 0: ++*a; break;
        case 1: --*a; break;
        case 2: *a += (long)d; break;
        case 3: *a -= (long)d; break;
        case 4: *a += Json((long)d); break;
        default: *a -= Json((long)d); break;
        }
        if (m->t == V::N) *m = V::integer(0);
        if (m->t == V::D) m->d = sub ? m->d - d : m->d + d;
        else {
          uint64_t z = (m->t == V::I ? (uint64_t)m->i : m->u);
          z = sub ? z - (uint64_t)d : z + (uint64_t)d;
          if (m->t == V::I) m->i = (int64_t)z; else m->u = z;
        }
        break;
      }
      case 29: {  // strings of a value
        if (m->t != V::STR) break;
        log += " string";
        switch (r.below(4)) {
        case 0: *a = a->as_s(); break;
        case 1: { String& s = a->as_s(); s += "xyz"; m->s += "xyz"; break; }
        case 2: { String s = a->as_s(); s.append("q", 1); if (sstr(a->as_s()) != m->s) viol("prog-string", "%s: appending to a copy of the string changed the value", log.c_str()); *a = s; m->s += "q"; break; }
        default: { String t = a->to_s(); String s = t.substring(t.begin(), t.begin() + m->s.size() / 2); *a = s; m->s = m->s.substr(0, m->s.size() / 2); break; }
        }
        break;
      }
      case 30: {  // text and MessagePack round trip of the variable (no doubles that text cannot hold)
        log += " msgpack copy";
        String t = msgpack::unparse(*a);
        Json b = msgpack::parse(t);
        S d = differ(b, *m, true);
        if (!d.empty()) viol("prog-msgpack", "%s: %s", log.c_str(), d.c_str());
        *a = b;
        break;
      }
      case 31: {  // const views and conversions
        log += " views";
        const Json& c = *a;
        if (m->container() && (c.to_i() != (int64_t)(m->a.size() + m->o.size()) || c.to_b() != !(m->a.empty() && m->o.empty()))) viol("prog-conv", "%s: a container converts to another number", log.c_str());
        if (m->t == V::N && (c.to_i() != 0 || c.to_b() || c.to_s().length() != 0)) viol("prog-conv", "%s: null converts to something", log.c_str());
        if (m->t == V::STR && (sstr(c.to_s()) != m->s)) viol("prog-conv", "%s: to_s", log.c_str());
        if (m->t == V::B && (c.to_i() != m->b || c.to_b() != m->b || sstr(c.to_s()) != (m->b ? "true" : "false"))) viol("prog-conv", "%s: a boolean converts to something else", log.c_str());
        for (int q = 0; q < 3; ++q) { S p = key(); S d = differ(c[toStr(p)], *look(*m, p), true); if (!d.empty()) viol("prog-get", "%s get %s: %s", log.c_str(), p.c_str(), d.c_str()); size_t i = r.below(8); d = differ(c[(int)i], *look(*m, i), true); if (!d.empty()) viol("prog-get", "%s get %zu: %s", log.c_str(), i, d.c_str()); }
        if (m->t == V::O) { S p = key(); Json out = 17; bool ok = bool(c.get(toStr(p), out)); if (ok != (m->find(p) != nullptr)) viol("prog-getx", "%s get %s", log.c_str(), p.c_str()); S d = ok ? differ(out, *m->find(p), true) : differ(out, V::integer(17), true); if (!d.empty()) viol("prog-getx", "%s get %s: %s", log.c_str(), p.c_str(), d.c_str()); }
        break;
      }
      case 32: {  // assignment of primitives and self
        log += " primitive";
        switch (r.below(7)) {
        case 0: *a = 3; *m = V::integer(3); break;
        case 1: *a = 4u; *m = V::uinteger(4); break;
        case 2: *a = -5L; *m = V::integer(-5); break;
        case 3: *a = 1.5; *m = V::dbl(1.5); break;
        case 4: *a = true; *m = V::boolean(true); break;
        case 5: *a = String("str"); *m = V::str("str"); break;
        default: { const Json& self = *a; *a = self; break; }
        }
        break;
      }
      default: {  // many keys: exercises growth and rehashing
        if (m->t != V::O || a != &j[x]) break;
        log += " many keys";
        int n = r.below(60);
        for (int q = 0; q < n; ++q) {
          S p = r.chance(1, 2) ? fmt("m%d", (int)r.below(80)) : hex((const char*)&q, 4) + S(1, (char)('a' + r.below(3)));
          if (r.chance(1, 4)) { a->unset(toStr(p)); for (size_t i = 0; i < m->o.size(); ++i) if (m->o[i].first == p) { m->o.erase(m->o.begin() + i); break; } }
          else { a->set(String(p), q); m->get_insert(p) = V::integer(q); }
        }
        break;
      }
      }
      // every variable still is what its model says: a change shows nowhere else
      for (int q = 0; q < NV; ++q) {
        S d = differ(j[q], v[q], true, fmt("v%d", q));
        if (!d.empty()) viol("program", "after %s: %s", log.c_str(), d.c_str());
      }
      size_t total = 0;
      for (int q = 0; q < NV; ++q) total += j[q].is_null() ? 0 : j[q].unparse().length();
      if (total > 60000) for (int q = 0; q < NV; ++q) if (r.chance(1, 2)) { j[q] = Json(); v[q] = V(); }
    }
  }
};

static size_t live_bytes() {
#ifdef __SANITIZE_ADDRESS__
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

// Many keys with one hash value must not make the object grow without bound. Blocks that collide in the middle of a key
// are found by search: 2^n keys with equal hash values follow from n such pairs.
static void collide_case(Rng& r) {
  static std::vector<S> keys;
  if (keys.empty()) {
    const int NB = 6;
    std::vector<std::pair<S, S>> blocks;
    auto hash = [](const S& k) { return String::hashcode(k.data(), k.data() + k.size()); };
    S prefix;
    for (int b = 0; b < NB; ++b) {
      S suffix((NB - 1 - b) * 8, 'z');
      std::unordered_map<uint32_t, S> seen;
      for (int t = 0;; ++t) {
        if (t > 4000000) return;
        S x;
        for (int q = 0; q < 8; ++q) x += (char)('0' + r.below(70));
        S k = prefix + x + suffix;
        auto res = seen.emplace(hash(k), x);
        if (!res.second && res.first->second != x) { blocks.emplace_back(res.first->second, x); break; }
      }
      prefix += blocks.back().first;
    }
    for (int m = 0; m < 1 << NB; ++m) { S k; for (int b = 0; b < NB; ++b) k += m >> b & 1 ? blocks[b].second : blocks[b].first; if (hash(k) == hash(prefix)) keys.push_back(k); }
  }
  size_t before = live_bytes(), n = 0;
  {
    Json j = Json::make_object();
    for (auto& k : keys) {
      j.set(String(k), (int)n++);
      if (live_bytes() - before > (4u << 20)) viol("collide", "an object with %zu short keys that share a hash value takes %zu bytes: each further key doubles it", n, live_bytes() - before);
    }
    n = 0;
    for (auto& k : keys) if (j.get(toStr(k)) != Json((int)n++)) viol("collide", "a key with a common hash value is lost");
  }
  maxstat("colliding_keys", n);
}

int main(int argc, char** argv) {
  Args args(argc, argv);
  uint64_t seed = args.num("seed", 1);
  int cases = args.num("cases", 200), first = args.num("first", 0);
  start_watchdog();
  for (int c = first; c < first + cases; ++c) {
    Rng r(mix(seed, c));
    current_case() = fmt("seed=%llu first=%d cases=1", (unsigned long long)seed, c);
    progress();
    switch (r.below(8)) {
    case 0: case 1: text_case(r); break;
    case 2: case 3: msg_case(r); break;
    case 4: if (r.chance(1, 8)) deep_case(r); else if (r.chance(1, 8)) msg_deep_case(r); else text_case(r); break;
    case 5: if (r.chance(1, 20)) collide_case(r); else msg_case(r); break;
    default: { ++cnt.prog; ++evals(); 
      uint64_t h, base = r();
      long grown = 0;
      for (int again = 0; again < 2 && (again == 0 || grown > 0); ++again) {  // a leak shows twice
        Rng q(base);
        long before = (long)live_bytes();
        { Prog p(q); p.run(20 + q.below(150)); S all; for (auto& x : p.v) all += dump(x); h = hash_bytes(all.data(), all.size()); }
        grown = (long)live_bytes() - before;
        if (again && grown > 0) viol("leak", "%ld bytes are still allocated after all values of a program are gone; %s", grown, current_case().c_str());
      }
      distinct().add(h);
      break;
    }
    }
  }
  stat("texts", cnt.text);
  stat("texts_accepted", cnt.accepted);
  stat("texts_rejected", cnt.rejected);
  stat("messages", cnt.msg);
  stat("messages_accepted", cnt.macc);
  stat("messages_rejected", cnt.mrej);
  stat("fragments", cnt.frags);
  stat("programs", cnt.prog);
  stat("operations", cnt.ops);
  stat("values_compared", n_compared);
  finish();
}
