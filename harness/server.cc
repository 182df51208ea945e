// P14/P15: the Masstree server (mtd), run as a child process and observed over its sockets and files.
//   mode=serve    requests of every kind, fragmented and pipelined, on several connections; hostile peers; against a model
//   mode=recover  clients write, the server is killed (its logs optionally cut short, as by a power failure), the restarted
//                 server must show a state that is a consistent prefix of the history and keeps all that was durable
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <deque>
#include <functional>
#include "common.h"
extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=2000"; }
using namespace vf;
typedef std::string S;
typedef int64_t i64;
int mtd_main(int argc, char** argv);   // mtd.cc's main under another name

// ------------------------------------------------------------ MessagePack, written anew
struct V {
  enum T { NIL, BOOL, INT, STR, ARR, MAP, DBL, RAW } t = NIL;
  i64 i = 0; double d = 0; S s; std::vector<V> a;
  V() {}
  V(int x) : t(INT), i(x) {}
  V(i64 x) : t(INT), i(x) {}
  V(unsigned x) : t(INT), i(x) {}
  V(const S& x) : t(STR), s(x) {}
  V(const char* x) : t(STR), s(x) {}
  static V arr(std::vector<V> v) { V x; x.t = ARR; x.a = std::move(v); return x; }
  static V raw(const S& s) { V x; x.t = RAW; x.s = s; return x; }
  static V boolean(bool b) { V x; x.t = BOOL; x.i = b; return x; }
  bool str() const { return t == STR; }
};
static void be(S& o, u64 v, int n) { for (int k = n - 1; k >= 0; --k) o += (char)(v >> (8 * k)); }
static void enc(S& o, const V& v, Rng* r) {
  auto wide = [&](int lo) { return r && r->chance(1, 6) ? lo + (int)r->below(3) : lo; };
  switch (v.t) {
  case V::NIL: o += (char)0xc0; break;
  case V::BOOL: o += (char)(0xc2 + v.i); break;
  case V::DBL: { o += (char)0xcb; u64 x; memcpy(&x, &v.d, 8); be(o, x, 8); break; }
  case V::RAW: o += v.s; break;
  case V::INT:
    if (v.i >= 0) {
      int k = v.i < 128 ? 0 : v.i < 256 ? 1 : v.i < 65536 ? 2 : v.i < (1ll << 32) ? 3 : 4;
      k = std::min(4, wide(k));
      if (k == 0) o += (char)v.i; else { bool sgn = r && r->chance(1, 4) && v.i < (k == 1 ? 128 : k == 2 ? 32768 : k == 3 ? (1ll << 31) : INT64_MAX); o += (char)((sgn ? 0xcf : 0xcb) + k); be(o, v.i, 1 << (k - 1)); }
    } else {
      int k = v.i >= -32 ? 0 : v.i >= -128 ? 1 : v.i >= -32768 ? 2 : v.i >= -(1ll << 31) ? 3 : 4;
      k = std::min(4, wide(k));
      if (k == 0) o += (char)v.i; else { o += (char)(0xcf + k); be(o, v.i, 1 << (k - 1)); }
    }
    break;
  case V::STR: {
    size_t n = v.s.size();
    int k = n < 32 ? 0 : n < 256 ? 1 : n < 65536 ? 2 : 3;
    k = std::min(3, wide(k));
    bool bin = r && r->chance(1, 8);
    if (bin && k == 0) k = 1;
    if (k == 0) o += (char)(0xa0 + n); else { o += (char)((bin ? 0xc3 : 0xd8) + k); be(o, n, 1 << (k - 1)); }
    o += v.s;
    break;
  }
  case V::ARR: {
    size_t n = v.a.size();
    int k = n < 16 ? 0 : n < 65536 ? 1 : 2;
    k = std::min(2, wide(k));
    if (k == 0) o += (char)(0x90 + n); else { o += (char)(0xdb + k); be(o, n, k == 1 ? 2 : 4); }
    for (auto& x : v.a) enc(o, x, r);
    break;
  }
  case V::MAP: {
    size_t n = v.a.size() / 2;
    if (n < 16) o += (char)(0x80 + n); else { o += (char)0xde; be(o, n, 2); }
    for (auto& x : v.a) enc(o, x, r);
    break;
  }
  }
}
// 1 read, 0 more bytes needed, -1 malformed
static int dec(const S& b, size_t& p, V& v, int depth = 0) {
  if (p >= b.size()) return 0;
  if (depth > 8) return -1;
  u8 c = b[p];
  auto num = [&](int n, u64& x) { if (p + 1 + n > b.size()) return false; x = 0; for (int k = 0; k < n; ++k) x = x << 8 | (u8)b[p + 1 + k]; return true; };
  auto str = [&](size_t head, u64 n) { if (p + head + n > b.size()) return 0; v.t = V::STR; v.s = b.substr(p + head, n); p += head + n; return 1; };
  auto many = [&](size_t head, u64 n, V::T t) { size_t q = p; p += head; v.t = t; v.a.clear(); for (u64 k = 0; k < n; ++k) { V x; int r = dec(b, p, x, depth + 1); if (r <= 0) { p = q; return r; } v.a.push_back(std::move(x)); } return 1; };
  u64 x;
  v = V();
  if (c < 0x80) { v = V((int)c); ++p; return 1; }
  if (c >= 0xe0) { v = V((int)(int8_t)c); ++p; return 1; }
  if (c >= 0xa0 && c < 0xc0) return str(1, c & 31);
  if (c >= 0x90 && c < 0xa0) return many(1, c & 15, V::ARR);
  if (c >= 0x80 && c < 0x90) return many(1, 2 * (c & 15), V::MAP);
  switch (c) {
  case 0xc0: ++p; return 1;
  case 0xc2: case 0xc3: v = V::boolean(c & 1); ++p; return 1;
  case 0xcb: if (!num(8, x)) return 0; v.t = V::DBL; memcpy(&v.d, &x, 8); p += 9; return 1;
  case 0xcc: case 0xcd: case 0xce: case 0xcf: { int n = 1 << (c - 0xcc); if (!num(n, x)) return 0; v = V((i64)x); p += 1 + n; return 1; }
  case 0xd0: case 0xd1: case 0xd2: case 0xd3: { int n = 1 << (c - 0xd0); if (!num(n, x)) return 0; v = V(n == 8 ? (i64)x : (i64)(x << (64 - 8 * n)) >> (64 - 8 * n)); p += 1 + n; return 1; }
  case 0xc4: case 0xc5: case 0xc6: { int n = 1 << (c - 0xc4); if (!num(n, x)) return 0; return str(1 + n, x); }
  case 0xd9: case 0xda: case 0xdb: { int n = 1 << (c - 0xd9); if (!num(n, x)) return 0; return str(1 + n, x); }
  case 0xdc: case 0xdd: { int n = 2 << (c - 0xdc); if (!num(n, x)) return 0; return many(1 + n, x, V::ARR); }
  case 0xde: case 0xdf: { int n = 2 << (c - 0xde); if (!num(n, x)) return 0; return many(1 + n, 2 * x, V::MAP); }
  }
  return -1;
}
static S show(const V& v) {
  switch (v.t) {
  case V::NIL: return "nil"; case V::BOOL: return v.i ? "true" : "false"; case V::INT: return fmt("%lld", (long long)v.i); case V::DBL: return fmt("%g", v.d);
  case V::RAW: return "raw:" + hex(v.s, 20);
  case V::STR: { bool pr = true; for (u8 c : v.s) pr = pr && c > 32 && c < 127; return pr && v.s.size() < 40 ? "\"" + v.s + "\"" : hex(v.s, 24); }
  default: { S o = "["; size_t n = 0; for (auto& x : v.a) { if (n++ == 12) { o += ".."; break; } o += show(x) + " "; } return o + fmt("](%zu)", v.a.size()); }
  }
}

// ------------------------------------------------------------ the server process
static S g_dir, g_self;
static pid_t g_pid = -1;
static int g_port, g_threads = 2, g_speed = 1;
static std::atomic<bool> g_failing{false};
static void clean() { if (!g_dir.empty() && g_dir.compare(0, 12, "/tmp/vf-mtd-") == 0) (void)!system(("rm -rf " + g_dir).c_str()); }
static S slurp(const S& f) { S o; FILE* h = fopen(f.c_str(), "r"); if (!h) return o; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) o.append(b, n); fclose(h); return o; }
static S server_words() {
  S t = slurp(g_dir + "/err");
  for (const char* w : {"ERROR: AddressSanitizer", "runtime error", "ssertion", "precondition", "invariant", "terminate called"}) {
    size_t p = t.find(w);
    if (p != S::npos) { p = t.rfind('\n', p); return t.substr(p == S::npos ? 0 : p + 1, 1100); }
  }
  return t.size() > 300 ? t.substr(t.size() - 300) : t;
}
template <typename... A> [[noreturn]] static void bad(const char* cls, const char* f, A... a) {
  if (g_failing.exchange(true)) for (;;) pause();
  S m = fmt(f, a...);   // a format without arguments is a literal
  if (g_pid > 0) { int st; usleep(300000); if (waitpid(g_pid, &st, WNOHANG) == g_pid) { m += fmt("; the server ended with status %x: %s", st, server_words().c_str()); } else { kill(g_pid, SIGKILL); S w = server_words(); if (w.find("Sanitizer") != S::npos) m += "; " + w; } }
  if (getenv("VF_KEEP")) m += " dir " + g_dir; else clean();
  viol(cls, "%s", m.c_str());
}
static bool port_free(int p) {
  for (int type : {SOCK_STREAM, SOCK_DGRAM}) {
    int s = socket(AF_INET, type, 0), y = 1;
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(p); a.sin_addr.s_addr = 0;
    if (type == SOCK_STREAM) setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &y, sizeof y);
    int e = bind(s, (sockaddr*)&a, sizeof a);
    close(s);
    if (e) return false;
  }
  return true;
}
// a block of 16 ports that no other run of this harness uses: the holder of an abstract socket's name owns it
static void take_ports() {
  static int lock = -1;
  static unsigned next = getpid() * 37;
  if (lock >= 0) close(lock);
  for (int tries = 0; tries < 2000; ++tries) {
    unsigned b = next++ % 700;
    lock = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_un a{}; a.sun_family = AF_UNIX;
    int n = snprintf(a.sun_path + 1, 90, "vf-mtd-ports-%u", b);
    g_port = 20000 + 16 * b;
    bool ok = bind(lock, (sockaddr*)&a, offsetof(sockaddr_un, sun_path) + 1 + n) == 0;
    for (int i = 0; ok && i < 16; ++i) ok = port_free(g_port + i);
    if (ok) return;
    close(lock);
  }
  inconclusive("no free ports");
}
static int tcp_connect() {
  int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), y = 1;
  sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(g_port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (connect(s, (sockaddr*)&a, sizeof a)) { close(s); return -1; }
  setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &y, sizeof y);
  return s;
}
static void check_alive(const char* when) {
  int st;
  if (g_pid > 0 && waitpid(g_pid, &st, WNOHANG) == g_pid) { g_pid = -1; bad("server-died", "the server ended (status %x) %s: %s; case %s", st, when, server_words().c_str(), current_case().c_str()); }
}
static std::atomic<u64> n_starts, n_kills;
static std::vector<S> dirs_of(const char* opt, const std::vector<S>& d, const S& def) { std::vector<S> o; if (d.empty()) { mkdir(def.c_str(), 0700); o = {opt, def}; } else for (auto& x : d) { o.push_back(opt); o.push_back(x); } return o; }
static std::vector<S> g_logdirs, g_ckpdirs;
// at: the process kills itself at its at-th operation on a file; self: at that many operations after it started to listen.
// False if it ended by its own kill before it listened.
static bool g_self_kill;
static bool start_server(std::vector<S> extra, int at = 0, int self = 0) {
  for (int tries = 0;; ++tries) {
    bool ok = true;
    for (int i = 0; i < g_threads; ++i) ok = ok && port_free(g_port + i);
    if (ok) break;
    if (tries > 200) inconclusive("no free port");
    take_ports();
  }
  std::vector<S> v = {g_self, "--mtd", "-j", fmt("%d", g_threads), "--port", fmt("%d", g_port)};
  for (auto& x : dirs_of("--ld", g_logdirs, g_dir + "/log")) v.push_back(x);
  for (auto& x : dirs_of("--cd", g_ckpdirs, g_dir + "/ckp")) v.push_back(x);
  for (auto& x : extra) v.push_back(x);
  g_self_kill = at || self;
  g_pid = fork();
  if (g_pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPIPE, SIG_DFL);
    int o = open((g_dir + "/out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open((g_dir + "/err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), n = open("/dev/null", O_RDONLY);
    dup2(o, 1); dup2(e, 2); dup2(n, 0);
    setenv("_", "valgrind", 1);   // no pools: every row is an allocation of its own
    setenv("VF_SPEED", fmt("%d", g_speed).c_str(), 1);
    setenv("VF_KILL_AT", fmt("%d", at).c_str(), 1);
    setenv("VF_KILL_SELF", fmt("%d", self).c_str(), 1);
    std::vector<char*> a; for (auto& x : v) a.push_back((char*)x.c_str()); a.push_back(nullptr);
    execv(g_self.c_str(), a.data());
    _exit(99);
  }
  ++n_starts;
  double t0 = wall_time();
  for (;;) {
    int s = tcp_connect(), st;
    if (s >= 0) { close(s); return true; }
    if (g_self_kill && waitpid(g_pid, &st, WNOHANG) == g_pid) {
      g_pid = -1;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { ++n_kills; return false; }
      bad("server-died", "the server ended (status %x) while it started: %s; case %s", st, server_words().c_str(), current_case().c_str());
    }
    if (!g_self_kill) check_alive("while it started");
    if (wall_time() - t0 > 60) bad("start", "the server did not listen within 60 s: %s", server_words().c_str());
    usleep(2000);
  }
}
// true if it had killed itself before
static bool kill_server() {
  bool self = false;
  int st;
  if (g_self_kill) { if (waitpid(g_pid, &st, WNOHANG) == g_pid) self = true; } else check_alive("before it was killed");
  if (!self) { kill(g_pid, SIGKILL); waitpid(g_pid, &st, 0); }
  g_pid = -1;
  ++n_kills;
  if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGKILL) bad("server-died", "the server ended by itself (status %x): %s; case %s", st, server_words().c_str(), current_case().c_str());
  S w = server_words();
  if (w.find("Sanitizer") != S::npos || w.find("runtime error") != S::npos) bad("server-report", "%s", w.c_str());
  return self;
}

// ------------------------------------------------------------ inside the server process: faster time, and death in the middle of a file operation
static double g_rate = 1;
static timeval g_t0;
static std::atomic<int> g_kill_at{0};
static int g_kill_self;
extern "C" {
int __real_gettimeofday(timeval*, void*);
int __real_nanosleep(const timespec*, timespec*);
unsigned __real_sleep(unsigned);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*);
ssize_t __real_write(int, const void*, size_t);
int __real_fsync(int);
int __real_ftruncate(int, off_t);
int __real_rename(const char*, const char*);
int __real_unlink(const char*);
int __real_listen(int, int);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
static bool file_op() { return g_kill_at > 0 && --g_kill_at == 0; }
[[noreturn]] static void die() { for (;;) { kill(getpid(), SIGKILL); pause(); } }
static bool regular(int fd) { struct stat s; return fd > 2 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode); }
int __wrap_gettimeofday(timeval* t, void* z) {
  int r = __real_gettimeofday(t, z);
  if (g_rate != 1) { i64 d = ((i64)t->tv_sec - g_t0.tv_sec) * 1000000 + t->tv_usec - g_t0.tv_usec; d = (i64)(d * g_rate); t->tv_sec = g_t0.tv_sec + d / 1000000; t->tv_usec = d % 1000000; }
  return r;
}
int __wrap_nanosleep(const timespec* t, timespec* rem) { i64 n = (i64)((t->tv_sec * 1000000000ll + t->tv_nsec) / g_rate); timespec x{n / 1000000000, n % 1000000000}; return __real_nanosleep(&x, rem); }
unsigned __wrap_sleep(unsigned s) { if (g_rate == 1) return __real_sleep(s); timespec t{(time_t)s, 0}; return __wrap_nanosleep(&t, nullptr); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  if (g_rate == 1) return __real_pthread_cond_timedwait(c, m, t);
  i64 d = (i64)(((t->tv_sec - g_t0.tv_sec) * 1000000000ll + t->tv_nsec - g_t0.tv_usec * 1000ll) / g_rate) + g_t0.tv_usec * 1000ll;
  timespec x{g_t0.tv_sec + d / 1000000000, d % 1000000000};
  return __real_pthread_cond_timedwait(c, m, &x);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (g_kill_at && regular(fd) && file_op()) { size_t k = n ? (hash_bytes(b, n) ^ getpid() * 7919) % (n + 1) : 0; (void)!__real_write(fd, b, k); die(); } return __real_write(fd, b, n); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { if (g_kill_at && regular(fd) && file_op()) die(); return __real_pwrite(fd, b, n, o); }
int __wrap_fsync(int fd) { if (g_kill_at && file_op()) die(); return __real_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n) { if (g_kill_at && file_op()) die(); return __real_ftruncate(fd, n); }
int __wrap_rename(const char* a, const char* b) { if (g_kill_at && file_op()) die(); return __real_rename(a, b); }
int __wrap_unlink(const char* a) { if (g_kill_at && file_op()) die(); return __real_unlink(a); }
int __wrap_listen(int s, int n) { if (g_kill_self) g_kill_at = g_kill_self; return __real_listen(s, n); }
}
static void child_setup() {
  auto num = [](const char* k) { const char* v = getenv(k); return v ? atoi(v) : 0; };
  g_rate = std::max(1, num("VF_SPEED"));
  g_t0.tv_sec = 1700000000;   // scaled time only ever grows, also across restarts
  g_kill_at = num("VF_KILL_AT");
  g_kill_self = num("VF_KILL_SELF");
}

// ------------------------------------------------------------ a connection
static std::atomic<bool> g_stop, g_pause;
static bool g_stop_connecting() { siginfo_t si{}; return g_stop || (waitid(P_PID, g_pid, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid); }
struct Conn {
  int fd = -1;
  S in;
  size_t pos = 0;
  bool dead = false;     // the peer closed
  ~Conn() { if (fd >= 0) close(fd); }
  void close_now() { if (fd >= 0) close(fd); fd = -1; }
  bool send_all(const char* p, size_t n) { while (n) { ssize_t w = ::send(fd, p, n, MSG_NOSIGNAL); if (w <= 0) return false; p += w; n -= w; } return true; }
  // in pieces of random sizes
  bool send_parts(const S& b, Rng& r, int style) {
    size_t p = 0;
    while (p < b.size()) {
      size_t n = style == 0 ? b.size() - p : style == 1 ? 1 + r.below(16) : 1 + r.below(style == 2 ? 900 : 30000);
      n = std::min(n, b.size() - p);
      if (!send_all(b.data() + p, n)) return false;
      p += n;
      if (style && p < b.size() && r.chance(1, style == 1 ? 60 : 6)) usleep(r.below(400));
    }
    return true;
  }
  // 1 a value, 0 the peer closed, -1 nothing within the time
  int recv(V& v, double seconds = 60) {
    double t0 = wall_time();
    for (;;) {
      int k = dec(in, pos, v);
      if (k > 0) { if (pos > 1 << 16) { in.erase(0, pos); pos = 0; } return 1; }
      if (k < 0) bad("reply-malformed", "the server sent bytes that are no MessagePack value: %s", hex(in.substr(pos), 24).c_str());
      if (dead) return 0;
      pollfd f{fd, POLLIN, 0};
      poll(&f, 1, 200);
      if (f.revents) {
        char b[65536];
        ssize_t n = ::recv(fd, b, sizeof b, MSG_DONTWAIT);
        if (n > 0) in.append(b, n);
        else if (n == 0 || (errno != EAGAIN && errno != EINTR)) dead = true;
      } else if (wall_time() - t0 > seconds) return -1;
    }
  }
  bool open(int core, bool must = true) {
    for (int tries = 0; tries < 100 && (fd = tcp_connect()) < 0; ++tries) { if (must) check_alive("while a client connected"); else if (kill(g_pid, 0) || g_stop_connecting()) return false; usleep(20000); }
    if (fd < 0) { if (must) bad("connect", "no connection to the server: %s", strerror(errno)); return false; }
    S b;
    V m; m.t = V::MAP;
    if (core >= 0) m.a = {V("core"), V(core), V("maxkeylen"), V(255)};
    enc(b, V::arr({V(0), V(14), m}), nullptr);
    send_all(b.data(), b.size());
    V v;
    int k = recv(v);
    if (k != 1) { if (must) bad("handshake", "no answer to the handshake (%d)", k); return false; }
    if (v.t != V::ARR || v.a.size() < 3 || v.a[1].t != V::INT || v.a[1].i != 15 || v.a[2].t != V::BOOL || !v.a[2].i) bad("handshake", "the answer to the handshake is %s", show(v).c_str());
    return true;
  }
};

// ------------------------------------------------------------ model and requests
typedef std::vector<S> Row;
typedef std::map<S, Row> Model;
static std::atomic<u64> n_req[16], n_bytes, n_rows, n_rejected, n_udp, n_lost, n_hostile;
static int g_result_inserted = 1, g_result_updated = 2;
static const char* const kind_name[16] = {"", "", "gets", "", "scans", "", "puts", "", "replaces", "", "removes", "", "checkpoints", "", "handshakes", ""};
static bool is_col(const V& v, const S& w) { return v.t == V::STR ? v.s == w : v.t == V::NIL && w.empty(); }
struct Req { int seq, cmd; S key; int count = 0; std::vector<unsigned> fields; std::vector<std::pair<unsigned, S>> cols; S value; };
static V to_v(const Req& q) {
  std::vector<V> a = {V(q.seq), V(q.cmd)};
  if (q.cmd != 12) a.push_back(V(q.key));
  if (q.cmd == 4) a.push_back(V(q.count));
  for (auto f : q.fields) a.push_back(V(f));
  for (auto& c : q.cols) { a.push_back(V(c.first)); a.push_back(V(c.second)); }
  if (q.cmd == 8) a.push_back(V(q.value));
  return V::arr(a);
}
static S row_text(const Row& r) { S o; for (auto& c : r) o += " " + show(V(c)); return o; }
static S text(const Req& q) { return show(to_v(q)); }
static void apply_req(Model& m, const Req& q) {
  if (q.cmd == 6) { Row& r = m[q.key]; for (auto& c : q.cols) { if (r.size() <= c.first) r.resize(c.first + 1); r[c.first] = c.second; } }
  else if (q.cmd == 8) m[q.key].assign(1, q.value);
  else if (q.cmd == 10) m.erase(q.key);
}
static S judge_row(const std::vector<V>& a, size_t first, const Row& w, const std::vector<unsigned>& f) {
  size_t n = f.empty() ? w.size() : f.size();
  if (a.size() - first != n) return fmt("%zu columns instead of %zu", a.size() - first, n);
  for (size_t i = 0; i < n; ++i) { unsigned c = f.empty() ? i : f[i]; S want = c < w.size() ? w[c] : S(); if (!is_col(a[first + i], want)) return fmt("column %u is %s instead of %s", c, show(a[first + i]).c_str(), show(V(want)).c_str()); }
  return "";
}
// own: every key with this prefix is written by this connection only
static S judge(const Req& q, const V& v, Model& m, const S& own) {
  if (v.t != V::ARR || v.a.size() < 2 || v.a[0].t != V::INT || v.a[1].t != V::INT) return "no answer of the protocol";
  if (v.a[0].i != q.seq) return fmt("answer to request %lld instead of %d", (long long)v.a[0].i, q.seq);
  if (v.a[1].i != q.cmd + 1) return fmt("answer of kind %lld", (long long)v.a[1].i);
  auto it = m.find(q.key);
  bool have = it != m.end();
  ++n_req[q.cmd & 15];
  switch (q.cmd) {
  case 2: if (!have) return v.a.size() == 2 ? "" : "a value for an absent key"; return judge_row(v.a, 2, it->second, q.fields);
  case 6: case 8: if (v.a.size() != 3 || v.a[2].t != V::INT || v.a[2].i != (have ? g_result_updated : g_result_inserted)) return fmt("result instead of %s", have ? "updated" : "inserted"); return "";
  case 10: if (v.a.size() != 3 || v.a[2].t != V::BOOL || (bool)v.a[2].i != have) return fmt("result instead of %s", have ? "true" : "false"); return "";
  case 12: return v.a.size() == 2 ? "" : "extra elements";
  case 4: {
    if (v.a.size() % 2) return "a key without a row";
    size_t rows = v.a.size() / 2 - 1, i = 0;
    if ((int)rows > q.count) return fmt("%zu rows instead of %d", rows, q.count);
    S last;
    for (size_t k = 0; k < rows; ++k) { const V& key = v.a[2 + 2 * k]; if (!key.str()) return "a key that is no string"; if (key.s < q.key || (k && key.s <= last)) return fmt("key %s out of order", show(key).c_str()); last = key.s; }
    it = m.lower_bound(q.key);
    for (; i < rows && v.a[2 + 2 * i].s < own; ++i) ;   // keys of others
    for (; i < rows; ++i, ++it) {
      const V &key = v.a[2 + 2 * i], &row = v.a[3 + 2 * i];
      if (key.s.compare(0, own.size(), own)) { if (it != m.end()) return fmt("key %s is missing", show(V(it->first)).c_str()); return ""; }
      if (it == m.end()) return fmt("key %s does not exist", show(key).c_str());
      if (it->first != key.s) return fmt("key %s instead of %s", show(key).c_str(), show(V(it->first)).c_str());
      ++n_rows;
      S e;
      if (q.fields.size() == 1 || (q.fields.empty() && it->second.size() == 1)) { unsigned c = q.fields.empty() ? 0 : q.fields[0]; S w = c < it->second.size() ? it->second[c] : S(); if (!is_col(row, w)) e = show(row) + " instead of " + show(V(w)); }
      else if (row.t != V::ARR) e = "no array";
      else e = judge_row(row.a, 0, it->second, q.fields);
      if (!e.empty()) return fmt("row of %s: %s", show(key).c_str(), e.c_str());
    }
    if ((int)rows < q.count && it != m.end()) return fmt("key %s is missing after %zu rows", show(V(it->first)).c_str(), rows);
    return "";
  }
  }
  return "?";
}
struct Gen {
  Rng& r;
  S own;
  std::vector<S> keys;
  int maxcol, seq = 1;
  size_t big;
  Gen(Rng& r, const S& own, int nk) : r(r), own(own) {
    maxcol = r.chance(1, 6) ? 60 : 1 + r.below(12);
    big = r.chance(1, 3) ? 60000 : 300;
    for (int i = 0; i < nk; ++i) {
      S k = own;
      switch (r.below(4)) {
      case 0: k += fmt("%d", (int)r.below(500)); break;
      case 1: k += S(8 * r.below(4), 'p') + fmt("%d", (int)r.below(40)); break;
      case 2: for (int n = r.below(20); n > 0; --n) k += (char)(r.chance(1, 2) ? r() : 'a'); break;
      default: for (int n = r.below(250 - own.size()); n > 0; --n) k += (char)('a' + r.below(2)); break;
      }
      keys.push_back(k);
    }
  }
  S value() {
    size_t n = r.chance(1, 8) ? 0 : r.chance(1, 25) ? r.below(big) : r.below(30);
    S v(n, 0);
    u64 x = r();
    for (auto& c : v) { c = (char)(x >> 56); x = x * 6364136223846793005ull + 1442695040888963407ull; }
    return v;
  }
  void fields(Req& q) { if (r.chance(1, 2)) return; for (int n = 1 + r.below(4); n > 0; --n) q.fields.push_back(r.below(maxcol + 2)); }
  Req next(bool writes_only = false) {
    Req q;
    q.seq = seq++;
    q.key = keys[r.below(keys.size())];
    int k = writes_only ? r.below(8) : r.below(16);
    if (k < 5) {
      q.cmd = 6;
      unsigned c = r.chance(1, 2) ? 0 : r.below(maxcol);
      for (int n = 1 + r.below(4) * r.below(3); n > 0; --n) { q.cols.push_back({c, value()}); c += 1 + (r.chance(1, 2) ? 0 : r.below(4)); }
    } else if (k < 6) { q.cmd = 8; q.value = value(); }
    else if (k < 8) q.cmd = 10;
    else if (k < 13) { q.cmd = 2; fields(q); }
    else { q.cmd = 4; q.count = 1 + (r.chance(1, 4) ? r.below(200) : r.below(8)); fields(q); if (r.chance(1, 3)) q.key += (char)r(); if (q.key.size() > 255) q.key.resize(255); if (r.chance(1, 6)) q.key = own; }
    return q;
  }
};
// ------------------------------------------------------------ mode=serve
static std::atomic<u64> g_hash;
static void run_client(u64 seed, int id, int nreq, Model& m) {
  Rng r(seed);
  S own = fmt("c%d/", id);
  Gen g(r, own, 1 + r.below(80));
  std::deque<Req> pend;
  int done = 0, core = (int)r.below(g_threads + 2) - 1;
  S trace;
  while (done < nreq) {
    Conn c;
    c.open(core);
    int until = std::min(nreq, done + 20 + (int)r.below(400));
    while (done < until) {
      S b;
      int n = r.chance(1, 2) ? 1 : 1 + r.below(40), style = r.below(5);
      bool wide = r.chance(1, 3);
      size_t replies = 0;
      for (int i = 0; i < n && b.size() < 200000 && replies < 300000; ++i) {
        pend.push_back(g.next());
        const Req& q = pend.back();
        enc(b, to_v(q), wide ? &r : nullptr);
        replies += q.cmd == 2 ? 2000 : q.cmd == 4 ? 1500 * q.count : 10;   // the server writes while we are still sending
      }
      n_bytes += b.size();
      // the server answers while it reads, so a second thread sends
      bool sent = true;
      if (style > 4 || b.size() > 30000) {
        Rng r2(r());
        std::thread t([&] { sent = c.send_parts(b, r2, style); });
        while (!pend.empty()) { V v; int k = c.recv(v); if (k != 1) break; S e = judge(pend.front(), v, m, own); if (!e.empty()) bad("answer", "%s: request %s was answered by %s: %s; row before%s; case %s", own.c_str(), text(pend.front()).c_str(), show(v).c_str(), e.c_str(), m.count(pend.front().key) ? row_text(m[pend.front().key]).c_str() : " absent", current_case().c_str()); apply_req(m, pend.front()); pend.pop_front(); ++done; progress(); }
        if (!pend.empty()) { check_alive("while it served requests"); bad("no-answer", "%s: the connection ended or was silent for 60 s; first open request %s; case %s", own.c_str(), text(pend.front()).c_str(), current_case().c_str()); }
        t.join();
      } else sent = c.send_parts(b, r, style);
      while (!pend.empty()) {
        V v;
        int k = c.recv(v);
        if (k != 1) { check_alive("while it served requests"); bad("no-answer", "%s: %s instead of an answer to %s (sent %d); case %s", own.c_str(), k ? "60 s of silence" : "end of connection", text(pend.front()).c_str(), sent, current_case().c_str()); }
        S e = judge(pend.front(), v, m, own);
        if (!e.empty()) bad("answer", "%s: request %s was answered by %s: %s; row before%s; case %s", own.c_str(), text(pend.front()).c_str(), show(v).c_str(), e.c_str(), m.count(pend.front().key) ? row_text(m[pend.front().key]).c_str() : " absent", current_case().c_str());
        apply_req(m, pend.front());
        pend.pop_front();
        ++done;
        progress();
      }
    }
    V v;
    if (c.recv(v, 0) == 1) bad("extra-answer", "%s: an answer without a request: %s", own.c_str(), show(v).c_str());
  }
  u64 h = 1;
  for (auto& p : m) { h = mix(h, hash_bytes(p.first.data(), p.first.size())); for (auto& x : p.second) h = mix(h, hash_bytes(x.data(), x.size())); }
  g_hash = mix(g_hash, h);
}
// a peer that sends what no client should: the server goes on for the others
static V junk(Rng& r, int depth = 0) {
  switch (r.below(depth > 2 ? 7 : 9)) {
  case 0: return V(); case 1: return V::boolean(r.chance(1, 2)); case 2: return V((int)r.below(20)); case 3: return V((i64)r());
  case 4: { V v; v.t = V::DBL; v.d = 1.5; return v; } case 5: return V(S(r.below(40), 'x')); case 6: return V(S(r.chance(1, 3) ? 70000 : 255 + r.below(60), 'k'));
  case 7: { V v; v.t = V::ARR; for (int n = r.below(4); n > 0; --n) v.a.push_back(junk(r, depth + 1)); return v; }
  default: { V v; v.t = V::MAP; for (int n = r.below(3); n > 0; --n) { v.a.push_back(V("k")); v.a.push_back(junk(r, depth + 1)); } return v; }
  }
}
static V hostile_request(Rng& r, Gen& g) {
  V v = to_v(g.next());
  switch (r.below(6)) {
  case 0: if (!v.a.empty()) v.a[r.below(v.a.size())] = junk(r); break;
  case 1: v.a.resize(r.below(v.a.size() + 1)); break;
  case 2: v.a.push_back(junk(r)); break;
  case 3: v.a[1] = V((int)r.below(20) - 2); break;
  case 4: if (v.a.size() > 2) v.a[2] = V(S(200 + r.below(400), 'L')); break;
  default: v.a[2 + r.below(std::max<size_t>(1, v.a.size() - 2)) % v.a.size()] = V((i64)(r.chance(1, 2) ? -(i64)r.below(1000) : (i64)r.below(1ull << 40))); break;
  }
  return v;
}
static void run_hostile(u64 seed, std::atomic<bool>& stop) {
  Rng r(seed);
  Gen g(r, "h/", 20);
  while (!stop) {
    ++n_hostile;
    progress();
    Conn c;
    switch (r.below(8)) {
    case 0: {   // a bad handshake
      c.fd = tcp_connect();
      if (c.fd < 0) break;
      S b;
      V h = V::arr({V(0), V(14)});
      if (r.chance(3, 4)) h.a.push_back(junk(r));
      if (r.chance(1, 3)) h.a[r.below(2)] = junk(r);
      enc(b, h, &r);
      if (r.chance(1, 4)) b = S(r.below(30), (char)r());
      if (b.empty()) b = "x";
      c.send_all(b.data(), b.size());
      if (r.chance(1, 2)) { V v; c.recv(v, 0.2); }
      break;
    }
    case 1: case 2: case 3: {   // requests that are none
      if (!c.open(-1, false)) break;
      for (int n = 1 + r.below(10); n > 0; --n) { S b; enc(b, hostile_request(r, g), &r); if (!c.send_all(b.data(), b.size())) break; }
      V v;
      while (r.chance(7, 8) && c.recv(v, 0.05) == 1) ++n_rejected;
      break;
    }
    case 4: {   // bytes that are no requests
      if (!c.open(-1, false)) break;
      S b(1 + r.below(200), 0);
      for (auto& x : b) x = (char)r();
      c.send_all(b.data(), b.size());
      V v;
      char t[4096];
      if (r.chance(1, 2)) { pollfd f{c.fd, POLLIN, 0}; poll(&f, 1, 20); (void)!::recv(c.fd, t, sizeof t, MSG_DONTWAIT); }
      break;
    }
    case 5: {   // leaves in the middle of a request
      if (!c.open(-1, false)) break;
      S b;
      enc(b, to_v(g.next()), &r);
      b.resize(r.below(b.size()));
      c.send_all(b.data(), b.size());
      if (r.chance(1, 2)) usleep(r.below(2000));
      break;
    }
    case 6: {   // leaves without reading its answers
      if (!c.open(-1, false)) break;
      S b;
      for (int n = 20 + r.below(200); n > 0; --n) enc(b, to_v(g.next()), nullptr);
      if (b.size() > 60000) b.resize(60000);
      c.send_all(b.data(), b.size());
      if (r.chance(1, 2)) usleep(r.below(3000));
      if (r.chance(1, 2)) { linger l{1, 0}; setsockopt(c.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
      break;
    }
    default: {   // datagrams
      int s = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
      sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(g_port + r.below(g_threads)); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      for (int n = 1 + r.below(6); n > 0; --n) {
        S b;
        enc(b, r.chance(1, 2) ? hostile_request(r, g) : to_v(g.next()), &r);
        if (r.chance(1, 4)) b.resize(r.below(b.size()));
        if (b.size() > 4096) b.resize(4096);
        sendto(s, b.data(), b.size(), 0, (sockaddr*)&a, sizeof a);
      }
      close(s);
    }
    }
  }
}
// the same requests by datagram: an answer that arrives is the right one
static void run_udp(u64 seed, int nreq, Model& m) {
  Rng r(seed);
  Gen g(r, "u/", 1 + r.below(30));
  g.big = 2000;
  int s = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
  sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(g_port + r.below(g_threads)); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  connect(s, (sockaddr*)&a, sizeof a);
  static thread_local char buf[70000];
  // the answer to q, or to the probe that follows q when q was not answered for a second (datagrams may get lost)
  auto ask = [&](const Req* q, V& v) {
    S b, pr;
    if (q) enc(b, to_v(*q), r.chance(1, 3) ? &r : nullptr);
    enc(pr, V::arr({V(0), V(2), V("u/-probe")}), nullptr);
    if (q) ::send(s, b.data(), b.size(), 0); else ::send(s, pr.data(), pr.size(), 0);
    for (int tries = 0; tries < 60; ++tries) {
      for (;;) {
        pollfd f{s, POLLIN, 0};
        poll(&f, 1, 1000);
        ssize_t n = ::recv(s, buf, sizeof buf, MSG_DONTWAIT);
        if (n < 0) { if (errno == ECONNREFUSED) usleep(100000); break; }
        size_t p = 0;
        if (dec(S(buf, n), p, v) != 1 || p != (size_t)n || v.t != V::ARR || v.a.size() < 2 || v.a[0].t != V::INT) bad("udp-answer", "a datagram of %zd bytes is no answer", n);
        if (v.a[0].i == 0 && q && !tries) continue;   // an old probe
        return v.a[0].i != 0 || !q;
      }
      check_alive("while it served datagrams");
      progress();
      ::send(s, pr.data(), pr.size(), 0);
    }
    bad("udp-silence", "datagrams are not answered any more; case %s", current_case().c_str());
  };
  int lost = 0;
  V v;
  ask(nullptr, v);
  for (int i = 0; i < nreq; ++i) {
    Req q = g.next();
    S b;
    enc(b, to_v(q), nullptr);
    if (b.size() > 2500) continue;
    if (r.chance(1, 10)) {   // part of a request: nothing may happen
      Req x = g.next(true);
      S t;
      enc(t, to_v(x), nullptr);
      t.resize(r.below(t.size()));
      ::send(s, t.data(), t.size(), 0);
    }
    if (!ask(&q, v)) {
      ++lost; ++n_lost;
      if (q.cmd == 2 || q.cmd == 4) continue;
      // done or not?
      Req get; get.seq = g.seq++; get.cmd = 2; get.key = q.key;
      while (!ask(&get, v)) ;
      Model old = m;
      S e = judge(get, v, m, "u/");
      if (!e.empty()) { apply_req(m, q); e = judge(get, v, m, "u/"); }
      if (!e.empty()) bad("udp-answer", "after the unanswered datagram %s: %s", text(q).c_str(), e.c_str());
      continue;
    }
    S e = judge(q, v, m, "u/");
    if (!e.empty()) bad("udp-answer", "datagram %s was answered by %s: %s; row before%s; case %s", text(q).c_str(), show(v).c_str(), e.c_str(), m.count(q.key) ? row_text(m[q.key]).c_str() : " absent", current_case().c_str());
    apply_req(m, q);
    ++n_udp;
    progress();
  }
  if (lost > nreq / 4 && nreq > 40) bad("udp-silence", "%d of %d datagrams were not answered; case %s", lost, nreq, current_case().c_str());
  close(s);
}
// keys that one connection writes and all read: an answer shows the row after some number of the writes, not fewer than were
// acknowledged (or shown to anyone) before the question was sent, not more than were sent before the answer came
struct Shared {
  S key;
  std::vector<Req> ops;
  std::vector<std::pair<bool, Row>> states;   // after i writes
  std::atomic<int> started{0}, acked{0}, seen{0};
};
static std::atomic<u64> n_shared_reads, n_shared_behind, n_shared_writes;
static void make_shared(Shared& s, Rng& r, const S& key, int n) {
  s.key = key;
  Model m;
  s.states.push_back({false, {}});
  for (int i = 1; i <= n; ++i) {
    Req q;
    q.key = key;
    q.seq = 0;
    q.cmd = r.chance(1, 8) ? 10 : r.chance(1, 8) ? 8 : 6;
    S v = fmt("%d.", i);
    auto pad = [&] { return v + S(r.chance(1, 20) ? r.below(3000) : r.below(20), 'a' + i % 26); };
    if (q.cmd == 8) q.value = pad();
    if (q.cmd == 6) { unsigned c = r.below(2); for (int k = 1 + r.below(4); k > 0; --k, c += 1 + r.below(2)) q.cols.push_back({c, pad()}); }
    s.ops.push_back(q);
    apply_req(m, q);
    auto it = m.find(key);
    s.states.push_back({it != m.end(), it != m.end() ? it->second : Row()});
  }
}
static void run_shared(u64 seed, int id, std::vector<std::unique_ptr<Shared>>& keys, int per, const S& prefix) {
  Rng r(seed);
  Conn c;
  c.open((int)r.below(g_threads + 2) - 1);
  int seq = 1;
  struct Open { int seq, cmd, key, from, to; std::vector<int> lo; };
  auto fits = [&](Shared& s, int lo, int hi, const Row* row) {
    for (int i = lo; i <= hi; ++i) if (s.states[i].first == (row != nullptr) && (!row || s.states[i].second == *row)) { if (i < hi) ++n_shared_behind; int o = s.seen; while (o < i && !s.seen.compare_exchange_weak(o, i)) ; return true; }
    return false;
  };
  auto check = [&](int k, int lo, int hi, const Row* row, const char* what) {
    ++n_shared_reads;
    Shared& s = *keys[k];
    if (!fits(s, lo, hi, row)) bad("order", "%s of %s shows %s, but %d writes were certain before it and %d begun after it: states%s to%s; case %s", what, s.key.c_str(), row ? row_text(*row).c_str() : "no row", lo, hi, s.states[lo].first ? row_text(s.states[lo].second).c_str() : " absent", s.states[hi].first ? row_text(s.states[hi].second).c_str() : " absent", current_case().c_str());
  };
  int left = per * (int)keys[0]->ops.size();
  while (left > 0) {
    if (r.chance(1, 30)) { c.close_now(); c.in.clear(); c.pos = 0; c.open((int)r.below(g_threads + 2) - 1); }
    std::deque<Open> open;
    S b;
    for (int n = r.chance(1, 2) ? 1 : 1 + r.below(12); n > 0; --n) {
      Open o{seq++, 0, 0, 0, 0, {}};
      int kind = r.below(8);
      if (kind < 3) {
        o.key = id * per + r.below(per);
        Shared& s = *keys[o.key];
        int i = s.started;
        if (i == (int)s.ops.size()) { --seq; continue; }
        --left;
        Req q = s.ops[i];
        q.seq = o.seq;
        o.cmd = q.cmd; o.from = i + 1;
        s.started = i + 1;
        enc(b, to_v(q), nullptr);
        ++n_shared_writes;
      } else if (kind < 6) {
        o.key = r.below(keys.size());
        o.cmd = 2;
        o.lo = {o.key / per == id ? keys[o.key]->started.load() : std::max<int>(keys[o.key]->acked, keys[o.key]->seen)};
        enc(b, V::arr({V(o.seq), V(2), V(keys[o.key]->key)}), nullptr);
      } else {
        o.key = r.below(keys.size());
        o.cmd = 4;
        o.to = 1 + r.below(keys.size());
        for (auto& k : keys) o.lo.push_back(std::max<int>(k->acked, k->seen));
        enc(b, V::arr({V(o.seq), V(4), V(keys[o.key]->key), V(o.to)}), nullptr);
      }
      open.push_back(o);
    }
    if (open.empty()) { --left; continue; }
    if (!c.send_all(b.data(), b.size())) { check_alive("while it served requests"); bad("no-answer", "shared client: the connection ended"); }
    for (auto& o : open) {
      V v;
      if (c.recv(v) != 1) { check_alive("while it served requests"); bad("no-answer", "shared client: no answer to request %d of kind %d; case %s", o.seq, o.cmd, current_case().c_str()); }
      progress();
      if (v.t != V::ARR || v.a.size() < 2 || v.a[0].t != V::INT || v.a[0].i != o.seq || v.a[1].t != V::INT || v.a[1].i != o.cmd + 1) bad("answer", "request %d of kind %d was answered by %s", o.seq, o.cmd, show(v).c_str());
      auto row = [](const V* a, const V* e) { Row w; for (; a != e; ++a) w.push_back(a->t == V::STR ? a->s : S()); return w; };
      if (o.cmd == 2) {
        Row w = row(v.a.data() + 2, v.a.data() + v.a.size());
        check(o.key, o.lo[0], keys[o.key]->started, v.a.size() > 2 ? &w : nullptr, "get");
      } else if (o.cmd == 4) {
        size_t k = o.key;
        bool beyond = false;
        for (size_t i = 2; i + 1 < v.a.size(); i += 2) {
          if (v.a[i].s.compare(0, prefix.size(), prefix)) { beyond = true; break; }
          while (k < keys.size() && keys[k]->key < v.a[i].s) { check(k, o.lo[k], keys[k]->started, nullptr, "scan"); ++k; }
          if (k == keys.size() || keys[k]->key != v.a[i].s) bad("answer", "scan shows the key %s", hex(v.a[i].s).c_str());
          Row w = v.a[i + 1].t == V::ARR ? row(v.a[i + 1].a.data(), v.a[i + 1].a.data() + v.a[i + 1].a.size()) : row(&v.a[i + 1], &v.a[i + 1] + 1);
          check(k, o.lo[k], keys[k]->started, &w, "scan");
          ++k;
        }
        if (beyond || (int)v.a.size() / 2 - 1 < o.to) for (; k < keys.size(); ++k) check(k, o.lo[k], keys[k]->started, nullptr, "scan");
      } else {
        Shared& s = *keys[o.key];
        bool had = s.states[o.from - 1].first;
        bool ok = v.a.size() == 3 && (o.cmd == 10 ? v.a[2].t == V::BOOL && (bool)v.a[2].i == had : v.a[2].t == V::INT && v.a[2].i == (had ? g_result_updated : g_result_inserted));
        if (!ok) bad("answer", "write %d of %s was answered by %s", o.from, s.key.c_str(), show(v).c_str());
        s.acked = o.from;
      }
    }
  }
}
static bool read_all(std::function<void(const S&, const V&)> f) {
  Conn c;
  if (!c.open(-1, !g_self_kill)) return false;
  S from;
  for (int seq = 1;; ++seq) {
    S b;
    enc(b, V::arr({V(seq), V(4), V(from), V(100)}), nullptr);
    c.send_all(b.data(), b.size());
    V v;
    int k = c.recv(v);
    if (k == 0 && g_self_kill) return false;
    if (k != 1 || v.t != V::ARR || v.a.size() < 2 || v.a[0].i != seq || v.a[1].i != 5) { check_alive("while its content was read"); bad("read-all", "scan from %s: %s", hex(from).c_str(), show(v).c_str()); }
    size_t n = v.a.size() / 2 - 1;
    for (size_t i = 0; i < n; ++i) { if (!v.a[2 + 2 * i].str() || (v.a[2 + 2 * i].s < from)) bad("read-all", "scan from %s returns key %s", hex(from).c_str(), show(v.a[2 + 2 * i]).c_str()); f(v.a[2 + 2 * i].s, v.a[3 + 2 * i]); from = v.a[2 + 2 * i].s; }
    progress();
    if (n < 100) return true;
    // the smallest key after the last one
    if (from.size() < 255) from += '\0';
    else { while (!from.empty() && (u8)from.back() == 255) from.pop_back(); ++from.back(); }
  }
}
static Row to_row(const S& key, const V& v) {
  Row r;
  if (v.t == V::ARR) { for (auto& x : v.a) { if (x.t != V::STR && x.t != V::NIL) bad("row", "row of %s: %s", hex(key).c_str(), show(v).c_str()); r.push_back(x.s); } }
  else if (v.t == V::STR || v.t == V::NIL) r.push_back(v.s);
  else bad("row", "row of %s: %s", hex(key).c_str(), show(v).c_str());
  return r;
}
static void serve_case(Rng& r, int nreq) {
  g_threads = 1 + r.below(4);
  (void)!system(("rm -rf " + g_dir + "/log " + g_dir + "/ckp").c_str());
  std::vector<S> extra = {"--epoch-interval", r.chance(1, 2) ? "10" : "100"};
  if (r.chance(1, 4)) extra.push_back("--no-log");
  if (r.chance(1, 2)) extra.push_back(fmt("--checkpoint=%d", 1));
  start_server(extra);
  int nc = 1 + r.below(5);
  std::vector<Model> m(nc + 1);
  std::vector<std::thread> th;
  std::atomic<bool> stop{false};
  for (int i = 0; i < nc; ++i) th.emplace_back([&, i, s = r()] { run_client(s, i, nreq, m[i]); });
  std::vector<std::unique_ptr<Shared>> shared;
  int ns = r.below(5), per = 1 + r.below(4), nw = 30 + r.below(200);
  for (int i = 0; i < ns * per; ++i) { shared.emplace_back(new Shared()); make_shared(*shared.back(), r, fmt("s/%s%d/%d", per > 2 ? "longer-than-8-bytes/" : "", i / per, i % per), nw); }
  for (int i = 0; i < ns; ++i) th.emplace_back([&, i, s = r()] { run_shared(s, i, shared, per, "s/"); });
  if (r.chance(2, 3)) th.emplace_back([&, s = r()] { run_udp(s, nreq / 2, m[nc]); });
  std::vector<std::thread> bad_ones;
  if (r.chance(2, 3)) for (int i = 0; i < 2; ++i) bad_ones.emplace_back([&, s = r()] { run_hostile(s, stop); });
  for (auto& t : th) t.join();
  stop = true;
  for (auto& t : bad_ones) t.join();
  Model all, now;
  for (auto& x : m) all.insert(x.begin(), x.end());
  read_all([&](const S& k, const V& v) { if (k.compare(0, 2, "h/") && k.find('/') != S::npos && !k.empty() && (k[0] == 'c' || k[0] == 'u')) now[k] = to_row(k, v); ++n_rows; });
  for (auto& p : all) { if (!now.count(p.first)) bad("final", "key %s is missing", hex(p.first).c_str()); S e = ""; if (now[p.first] != p.second) bad("final", "the row of %s is%s instead of%s; case %s", hex(p.first).c_str(), row_text(now[p.first]).c_str(), row_text(p.second).c_str(), current_case().c_str()); }
  for (auto& p : now) if (!all.count(p.first)) bad("final", "key %s exists", hex(p.first).c_str());
  kill_server();
  if (evals() < 3) sample(fmt("%s: %d server threads, %d clients with own keys, %d with %zu shared keys, %zu keys in the end", current_case().c_str(), g_threads, nc, ns, shared.size(), all.size()));
  distinct().add(g_hash);
  ++evals();
}
#include "server_recover.h"
int main(int argc, char** argv) {
  if (argc > 1 && S(argv[1]) == "--mtd") { child_setup(); argv[1] = argv[0]; return mtd_main(argc - 1, argv + 1); }
  Args args(argc, argv);
  u64 seed = args.num("seed", 1);
  int cases = args.num("cases", 5), first = args.num("first", 0), nreq = args.num("ops", 600);
  S mode = args.str("mode", "serve");
  signal(SIGPIPE, SIG_IGN);
  char self[4096];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  self[n] = 0;
  g_self = self;
  char dir[] = "/tmp/vf-mtd-XXXXXX";
  g_dir = mkdtemp(dir);
  take_ports();
  g_speed = args.num("speed", mode == "recover" ? 20 : 1);
  start_watchdog(60, 1e9);
  for (int c = first; c < first + cases; ++c) {
    Rng r(mix(seed, c));
    current_case() = fmt("seed=%llu first=%d cases=1", (unsigned long long)seed, c);
    progress();
    if (mode == "serve") serve_case(r, nreq); else recover_case(r, nreq);
  }
  clean();
  for (int i = 0; i < 16; ++i) if (*kind_name[i] && n_req[i]) stat(kind_name[i], n_req[i]);
  stat("server_starts", n_starts); stat("server_kills", n_kills); stat("datagrams", n_udp); stat("unanswered_datagrams", n_lost); stat("hostile_sessions", n_hostile); stat("hostile_answers", n_rejected); stat("scanned_rows", n_rows); stat("shared_reads", n_shared_reads); stat("shared_reads_behind", n_shared_behind); stat("shared_writes", n_shared_writes); stat("request_bytes", n_bytes);
  report_recover();
  finish();
}
