// mode=recover: generations of one store, each ended by a crash at some moment (a kill from outside, or the process killing itself in
// the middle of a system call on its files), the logs then possibly cut. What the next generation shows is judged against the history.
struct Hist { Req q; bool shared; u64 start, ack; };
static std::atomic<u64> g_clock{1};
static std::atomic<u64> n_gens, n_cut, n_zeroed, n_self, n_start_crash, n_recovered_ops, n_history_ops, n_lost_ops, n_durable_ops, n_commits, n_checkpoints_seen, n_log_records, n_order_edges, n_shared_cols, n_idle, n_all_durable;
static const int NSHARED = 6;
static S shared_key(int i) { static const char* k[] = {"s/a", "s/longer-than-8-bytes/1", "s/longer-than-8-bytes/2", "", "s/b", "s/a\0a"}; if (i == 5) return S("s/a\0a", 5); if (i == 4) return "s/" + S(253, 'k'); return k[i]; }
struct Client {
  int id = 0, gen = 0;
  S own;
  Model m;            // own keys as they are now
  Model base;         // and as they were when the generation began
  std::vector<S> keys;
  std::vector<Hist> h;
  int maxcol = 4;
};
static S make_tag(int gen, int c, size_t i) { return fmt("\x01g%d.c%d.i%zu;", gen, c, i); }
static bool read_tag(const char* p, const char* e, int& gen, int& c, size_t& i) {
  char b[64];
  size_t n = std::min<size_t>(e - p, 63);
  memcpy(b, p, n); b[n] = 0;
  unsigned long x;
  char semi;
  if (sscanf(b, "\x01g%d.c%d.i%lu%c", &gen, &c, &x, &semi) != 4 || semi != ';') return false;
  i = x;
  return true;
}
static void run_writer(Client& cl, u64 seed) {
  Rng r(seed);
  Gen g(r, cl.own, 0);
  g.keys = cl.keys;
  g.maxcol = cl.maxcol;
  int mode = r.below(3);
  while (!g_stop) {
    Conn c;
    if (!c.open((int)r.below(g_threads + 1) - 1, false)) return;
    for (int left = r.chance(1, 3) ? 20 : 2000; left > 0 && !g_stop; ) {
      while (g_pause && !g_stop && !r.chance(1, 400)) usleep(500);
      std::deque<std::pair<Req, size_t>> open;   // with the place in the history
      S b;
      for (int n = mode == 0 ? 1 : 1 + r.below(mode == 1 ? 6 : 30); n > 0; --n, --left) {
        Req q = g.next(r.chance(4, 5));
        bool shared = false;
        if (q.cmd == 6 || q.cmd == 8 || q.cmd == 10) {
          if (r.chance(1, 4)) { shared = true; q.key = shared_key(r.below(NSHARED)); if (q.cmd == 10 && r.chance(1, 2)) { q.cmd = 6; q.cols = {{0u, ""}, {1u, ""}}; } for (auto& x : q.cols) x.first %= 4; std::sort(q.cols.begin(), q.cols.end(), [](auto& a, auto& b) { return a.first < b.first; }); q.cols.erase(std::unique(q.cols.begin(), q.cols.end(), [](auto& a, auto& b) { return a.first == b.first; }), q.cols.end()); }
          S t = make_tag(cl.gen, cl.id, cl.h.size());
          for (auto& x : q.cols) if (shared || !x.second.empty() || r.chance(1, 2)) x.second = t + x.second;
          if (q.cmd == 8) q.value = t + q.value;
          cl.h.push_back({q, shared, g_clock++, ~0ull});
          open.push_back({q, cl.h.size() - 1});
        } else open.push_back({q, ~0ull});
        enc(b, to_v(q), r.chance(1, 6) ? &r : nullptr);
        if (r.chance(1, 300)) { Req k; k.seq = g.seq++; k.cmd = 12; enc(b, V::arr({V(k.seq), V(12)}), nullptr); open.push_back({k, ~0ull}); }
      }
      n_history_ops += open.size();
      if (r.chance(1, 6) ? !c.send_parts(b, r, 1 + r.below(3)) : !c.send_all(b.data(), b.size())) return;
      for (auto& p : open) {
        V v;
        int k = c.recv(v, 30);
        if (k < 0) bad("no-answer", "silence instead of an answer to %s; case %s", text(p.first).c_str(), current_case().c_str());
        if (k == 0) return;   // the server is gone
        progress();
        bool shared = p.second != ~0ull && cl.h[p.second].shared;
        if (!shared) {
          S e = judge(p.first, v, cl.m, cl.own);
          if (!e.empty()) bad("answer", "%s generation %d: request %s was answered by %s: %s; row before%s; case %s", cl.own.c_str(), cl.gen, text(p.first).c_str(), show(v).c_str(), e.c_str(), cl.m.count(p.first.key) ? row_text(cl.m[p.first.key]).c_str() : " absent", current_case().c_str());
          apply_req(cl.m, p.first);
        } else if (v.t != V::ARR || v.a.size() != 3 || v.a[0].i != p.first.seq || v.a[1].i != p.first.cmd + 1) bad("answer", "request %s was answered by %s", text(p.first).c_str(), show(v).c_str());
        if (p.second != ~0ull) cl.h[p.second].ack = g_clock++;
      }
      if (mode == 0 && r.chance(1, 8)) usleep(r.below(3000));
    }
  }
}
// ---- the log files, read independently of the server's code
struct LogFile { S path, data; u64 last_epoch = 0; std::vector<std::pair<S, u64>> recs; bool quiet = false; };
static u64 le(const S& s, size_t p, int n) { u64 x = 0; memcpy(&x, s.data() + p, n); return x; }

static std::vector<LogFile> read_logs() {
  std::vector<LogFile> out;
  for (int i = 0; i < g_threads; ++i) {
    LogFile f;
    f.path = g_logdirs[i % g_logdirs.size()] + fmt("/kvd-log-%d", i);
    f.data = slurp(f.path);
    for (size_t p = 0; p + 8 <= f.data.size(); ) {
      u32 cmd = le(f.data, p, 4), size = le(f.data, p + 4, 4);
      if (size < 8 || size > f.data.size() - p) break;
      f.quiet = cmd == 0x4955516B;
      if (cmd == 0x4F50456B && size >= 16) f.last_epoch = le(f.data, p + 8, 8);
      else if (cmd == 0x5455506B || cmd == 0x3155506B || cmd == 0x444F4D6B) f.recs.push_back({f.data.substr(p, size), f.last_epoch}), ++n_log_records;
      p += size;
    }
    out.push_back(std::move(f));
  }
  return out;
}
static S gen_file() { return slurp(g_ckpdirs[0] + "/kvd-ckp-gen"); }
static std::vector<size_t> log_sizes() { std::vector<size_t> s; for (int i = 0; i < g_threads; ++i) { struct stat b; S p = g_logdirs[i % g_logdirs.size()] + fmt("/kvd-log-%d", i); s.push_back(stat(p.c_str(), &b) == 0 ? b.st_size : 0); } return s; }
// ---- judging a recovered state
static void judge_state(std::vector<Client>& cs, Model& shared, const Model& now, const std::vector<LogFile>& logs, int gen) {
  const S& cc = current_case();
  size_t n = cs.size();
  std::vector<Model> own(n);
  Model sh;
  for (auto& p : now) {
    bool is = false;
    for (int i = 0; i < NSHARED; ++i) is = is || p.first == shared_key(i);
    if (is) { sh[p.first] = p.second; continue; }
    for (size_t c = 0; c < n && !is; ++c) if (p.first.compare(0, cs[c].own.size(), cs[c].own) == 0) { own[c][p.first] = p.second; is = true; }
    if (!is) bad("recovered-key", "generation %d: the key %s was never written; case %s", gen, hex(p.first).c_str(), cc.c_str());
  }
  // prefixes of each client's writes that its own keys allow
  std::vector<std::vector<char>> fits(n);
  for (size_t c = 0; c < n; ++c) {
    Model m = cs[c].base;
    int wrong = 0;
    auto same = [&](const S& k) { auto a = m.find(k), b = own[c].find(k); return a == m.end() ? b == own[c].end() : b != own[c].end() && a->second == b->second; };
    std::set<S> ks;
    for (auto& p : m) ks.insert(p.first);
    for (auto& p : own[c]) ks.insert(p.first);
    for (auto& k : ks) wrong += !same(k);
    fits[c].push_back(wrong == 0);
    bool any = wrong == 0;
    int least = wrong;
    size_t least_at = 0;
    for (size_t i = 0; i < cs[c].h.size(); ++i) {
      const Req& q = cs[c].h[i].q;
      if (!cs[c].h[i].shared) { wrong -= !same(q.key); apply_req(m, q); wrong += !same(q.key); }
      fits[c].push_back(wrong == 0);
      any = any || wrong == 0;
      if (wrong < least) least = wrong, least_at = i + 1;
    }
    if (!any) {
      Model b = cs[c].base;
      for (size_t i = 0; i < least_at; ++i) if (!cs[c].h[i].shared) apply_req(b, cs[c].h[i].q);
      S diff;
      for (auto& k : ks) { bool x = b.count(k), y = own[c].count(k); if (x != y || (x && b[k] != own[c][k])) { diff = hex(k) + " is" + (y ? row_text(own[c][k]) : " absent") + " instead of" + (x ? row_text(b[k]) : " absent"); break; } }
      for (auto& p : b) if (diff.empty() && !own[c].count(p.first)) diff = hex(p.first) + " is absent instead of" + row_text(p.second);
      bad("recovered-state", "generation %d: the keys of %s are in no state that they went through: after its first %zu of %zu writes %d keys differ: %s; case %s", gen, cs[c].own.c_str(), least_at, cs[c].h.size(), least, diff.c_str(), cc.c_str());
    }
  }
  // what must be there: everything in epochs that every log has left behind
  std::vector<size_t> p(n, 0);
  std::vector<S> why(n, "nothing");
  auto need = [&](size_t c, size_t k, const S& w) {
    size_t q = std::max(p[c], k);
    while (q < fits[c].size() && !fits[c][q]) ++q;
    if (q >= fits[c].size()) {
      size_t hi = 0; for (size_t i = 0; i < fits[c].size(); ++i) if (fits[c][i]) hi = i;
      bad("recovered-prefix", "generation %d: of the %zu writes of %s at most %zu are recovered, but %zu must be, because %s (write %zu: %s); case %s", gen, cs[c].h.size(), cs[c].own.c_str(), hi, k, w.c_str(), hi, hi < cs[c].h.size() ? text(cs[c].h[hi].q).c_str() : "", cc.c_str());
    }
    if (q > p[c]) { p[c] = q; why[c] = w; return true; }
    return false;
  };
  for (size_t c = 0; c < n; ++c) need(c, 0, "of nothing");
  u64 low = ~0ull;
  for (auto& f : logs) low = std::min(low, f.last_epoch);
  std::vector<size_t> durable(n, 0);
  for (auto& f : logs)
    for (auto& rec : f.recs) if (rec.second && rec.second < low) {
      const char *b = rec.first.data(), *e = b + rec.first.size();
      for (const char* x = b; (x = (const char*)memchr(x, 1, e - x)); ++x) { int g, c; size_t i; if (read_tag(x, e, g, c, i) && g == gen - 1 && c >= 0 && c < (int)n && i < cs[c].h.size()) durable[c] = std::max(durable[c], i + 1); }
    }
  for (size_t c = 0; c < n; ++c) if (durable[c]) { n_durable_ops += durable[c]; need(c, durable[c], "all logs contain a later epoch than the one of its record"); }
  for (auto& k : sh)
    for (size_t col = 0; col < k.second.size(); ++col) {
      const S& x = k.second[col];
      if (x.empty()) continue;
      ++n_shared_cols;
      int g, c; size_t i;
      if (!read_tag(x.data(), x.data() + x.size(), g, c, i) || g >= gen || c < 0 || c >= (int)n) bad("recovered-value", "generation %d: column %zu of shared key %s is %s; case %s", gen, col, hex(k.first).c_str(), hex(x, 30).c_str(), cc.c_str());
      if (g < gen - 1) { auto it = shared.find(k.first); if (it == shared.end() || it->second.size() <= col || it->second[col] != x) bad("recovered-value", "generation %d: column %zu of shared key %s is of generation %d, but was not there when generation %d began; case %s", gen, col, hex(k.first).c_str(), g, gen - 1, cc.c_str()); }
      else {
        const Req* q = i < cs[c].h.size() ? &cs[c].h[i].q : nullptr;
        bool ok = q && q->key == k.first && (q->cmd == 8 ? col == 0 && q->value == x : q->cmd == 6);
        if (ok && q->cmd == 6) { ok = false; for (auto& y : q->cols) ok = ok || (y.first == col && y.second == x); }
        if (!ok) bad("recovered-value", "generation %d: column %zu of shared key %s is %s, which write %zu of client %d did not put there; case %s", gen, col, hex(k.first).c_str(), hex(x, 30).c_str(), i, c, cc.c_str());
        need(c, i + 1, fmt("shared key %s shows it", hex(k.first).c_str()));
      }
    }
  // closed under real-time order
  for (bool more = true; more; ) {
    more = false;
    for (size_t d = 0; d < n; ++d) if (p[d]) {
      u64 start = cs[d].h[p[d] - 1].start;
      for (size_t c = 0; c < n; ++c) if (c != d) {
        size_t k = std::partition_point(cs[c].h.begin(), cs[c].h.end(), [&](const Hist& x) { return x.ack < start; }) - cs[c].h.begin();
        if (k > p[c]) { ++n_order_edges; more = need(c, k, fmt("write %zu of %s, which must be recovered (%s), began after it was acknowledged", p[d] - 1, cs[d].own.c_str(), why[d].c_str())) || more; }
      }
    }
  }
  // shared keys: nothing that a recovered later write has replaced
  std::vector<size_t> top(n);
  for (size_t c = 0; c < n; ++c) for (size_t i = 0; i < fits[c].size(); ++i) if (fits[c][i]) top[c] = i;
  for (int s = 0; s < NSHARED; ++s) {
    S k = shared_key(s);
    auto it = sh.find(k);
    const Row* row = it == sh.end() ? nullptr : &it->second;
    size_t width = row ? row->size() : 0;
    // each column (or the row's existence, col = -1): the write that shows, and writes that must come after it
    for (int col = -1; col < 6; ++col) {
      bool empty = col < 0 ? !row : (size_t)col >= width || (*row)[col].empty();
      if (col < 0 && row) continue;   // exists: judged by its columns
      u64 shown_ack = 0;              // the base state
      if (!empty) { int g, c; size_t i; read_tag((*row)[col].data(), (*row)[col].data() + (*row)[col].size(), g, c, i); if (g == gen - 1) shown_ack = cs[c].h[i].ack; }
      else {   // emptied by a remove (or, for a column above 0, a replace) that may be recovered, or never filled
        for (size_t c = 0; c < n; ++c) for (size_t i = 0; i < top[c]; ++i) { const Hist& x = cs[c].h[i]; if (x.q.key == k && (x.q.cmd == 10 || (x.q.cmd == 8 && col > 0))) shown_ack = std::max(shown_ack, x.ack); }
      }
      if (shown_ack == ~0ull) continue;
      for (size_t c = 0; c < n; ++c) for (size_t i = 0; i < p[c]; ++i) {
        const Hist& x = cs[c].h[i];
        if (!x.shared || x.q.key != k || x.start <= shown_ack) continue;
        bool writes = x.q.cmd == 8 ? empty ? col <= 0 : true : x.q.cmd == 10 ? !empty : false;
        if (x.q.cmd == 6) { if (col < 0) writes = true; else for (auto& y : x.q.cols) writes = writes || (int)y.first == col; }
        if (writes) bad("recovered-stale", "generation %d: column %d of shared key %s is %s, but write %zu of %s (%s), which is recovered, began after that was certain; case %s", gen, col, hex(k).c_str(), empty ? "empty" : hex((*row)[col], 30).c_str(), i, cs[c].own.c_str(), text(x.q).c_str(), cc.c_str());
      }
    }
  }
  bool all = true;
  for (size_t c = 0; c < n; ++c) { n_recovered_ops += p[c]; n_lost_ops += cs[c].h.size() - p[c]; all = all && p[c] == cs[c].h.size(); }
  n_all_durable += all;
  // the next generation builds on what is there
  for (size_t c = 0; c < n; ++c) { cs[c].m = cs[c].base = own[c]; cs[c].h.clear(); u64 h = 1; for (auto& q : own[c]) { h = mix(h, hash_bytes(q.first.data(), q.first.size())); for (auto& x : q.second) h = mix(h, hash_bytes(x.data(), x.size())); } g_hash = mix(g_hash, h); }
  shared = sh;
}
static void recover_case(Rng& r, int) {
  g_threads = 1 + r.below(4);
  (void)!system(("rm -rf " + g_dir + "/l* " + g_dir + "/c* " + g_dir + "/save* " + g_dir + "/full*").c_str());
  g_logdirs.clear(); g_ckpdirs.clear();
  for (int i = 1 + (r.chance(1, 3) ? r.below(3) : 0); i > 0; --i) g_logdirs.push_back(g_dir + fmt("/l%d", i));
  for (int i = 1 + (r.chance(1, 3) ? r.below(3) : 0); i > 0; --i) g_ckpdirs.push_back(g_dir + fmt("/c%d", i));
  for (auto& d : g_ckpdirs) mkdir(d.c_str(), 0700);
  std::vector<S> extra = {"--epoch-interval", "10"};
  int ck = r.below(4);
  extra.push_back(ck == 0 ? S("--no-checkpoint") : ck == 1 ? S("--checkpoint=1000") : fmt("--checkpoint=%.2f", 0.2 + r.below(30) / 10.0));
  std::vector<Client> cs(1 + r.below(5));
  for (size_t i = 0; i < cs.size(); ++i) {
    Client& c = cs[i];
    c.id = i;
    c.own = fmt("c%zu/", i);
    Gen g(r, c.own, 1 + r.below(r.chance(1, 3) ? 300 : 20));
    c.keys = g.keys;
    c.maxcol = g.maxcol;
  }
  Model shared;
  int gens = 2 + r.below(5);
  std::vector<LogFile> logs;
  for (int gen = 0; gen <= gens; ++gen) {
    int at_start = r.chance(1, 5) ? 1 + r.below(30) : 0;   // crashes while recovering
    while (at_start && !start_server(extra, at_start)) { ++n_start_crash; at_start = r.chance(1, 2) ? 1 + r.below(12) : 0; }
    if (at_start) { if (kill_server()) ++n_start_crash; }
    int self = gen < gens && r.chance(1, 3) ? 1 + r.below(r.chance(1, 2) ? 20 : 150) : 0;
    if (!start_server(extra, 0, self)) { ++n_start_crash; --gen; continue; }
    Model now;
    if (!read_all([&](const S& k, const V& v) { now[k] = to_row(k, v); ++n_rows; })) { ++n_start_crash; kill_server(); --gen; continue; }
    if (gen) judge_state(cs, shared, now, logs, gen);
    else if (!now.empty()) bad("recovered-key", "a new store is not empty");
    if (gen == gens) { kill_server(); break; }
    ++n_gens;
    std::vector<size_t> floor = log_sizes();
    S seen = gen_file();
    g_stop = g_pause = false;
    std::vector<std::thread> th;
    for (auto& c : cs) { c.gen = gen; th.emplace_back([&, s = r()] { run_writer(c, s); }); }
    int phases = 1 + r.below(3);
    bool gone = false;
    for (int ph = 0; ph < phases && !gone; ++ph) {
      int ms = r.chance(1, 4) ? r.below(15) : 10 + r.below(90);
      bool idle = r.chance(1, 3);
      g_pause = idle;
      n_idle += idle;
      for (int i = 0; i < ms && !gone; ++i) {
        usleep(1000);
        S g = gen_file();
        if (g != seen) { seen = g; ++n_commits; floor = log_sizes(); }
        siginfo_t si{};
        gone = waitid(P_PID, g_pid, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid;
      }
    }
    g_stop = true;
    if (kill_server()) ++n_self;
    for (auto& t : th) t.join();
    S g = gen_file();
    if (g != seen) { ++n_commits; floor = log_sizes(); }
    logs = read_logs();
    if (getenv("VF_KEEP")) { S f; for (auto x : floor) f += fmt(" %zu", x); (void)!system(fmt("cd %s && rm -rf full%d && mkdir full%d && cp -r l* c* err full%d/; echo '%s' > full%d/floor", g_dir.c_str(), gen, gen, gen, f.c_str(), gen).c_str()); }
    if (r.chance(1, 2)) {   // the tails of the logs are lost
      for (size_t i = 0; i < logs.size(); ++i) if (r.chance(3, 4) && logs[i].data.size() > floor[i]) {
        size_t n = floor[i] + r.below(logs[i].data.size() - floor[i] + 1);
        if (r.chance(1, 2) && logs[i].data.size() - floor[i] > 400) n = logs[i].data.size() - r.below(400);
        bool zero = r.chance(1, 4);
        if (zero) { size_t p = 0; for (; p + 8 <= logs[i].data.size() && (p < floor[i] || p < n); ) { u32 size = le(logs[i].data, p + 4, 4); if (size < 8 || size > logs[i].data.size() - p) { zero = false; break; } p += size; } n = p; }   // a tail of zeros after a whole record
        (void)!truncate(logs[i].path.c_str(), n);
        if (zero) { (void)!truncate(logs[i].path.c_str(), n + 1 + r.below(5000)); ++n_zeroed; }
        ++n_cut;
      }
      logs = read_logs();
    }
    if (getenv("VF_KEEP")) (void)!system(fmt("cd %s && rm -rf save%d && mkdir save%d && cp -r l* c* err save%d/", g_dir.c_str(), gen, gen, gen).c_str());
  }
  distinct().add(g_hash);
  ++evals();
  if (evals() < 3) sample(fmt("%s: %d threads, %zu clients, %d generations, %zu log directories, checkpoints: %s", current_case().c_str(), g_threads, cs.size(), gens, g_logdirs.size(), extra.back().c_str()));
}
static void report_recover() {
  if (!n_gens) return;
  stat("generations", n_gens); stat("logs_cut", n_cut); stat("logs_with_zero_tail", n_zeroed); stat("crashes_inside_a_file_operation", n_self); stat("crashes_while_recovering", n_start_crash); stat("history_operations", n_history_ops);
  stat("writes_recovered", n_recovered_ops); stat("writes_lost_with_the_crash", n_lost_ops); stat("writes_certainly_durable", n_durable_ops); stat("checkpoints_committed", n_commits); stat("log_records_read", n_log_records); stat("order_constraints", n_order_edges); stat("shared_columns_judged", n_shared_cols); stat("idle_phases", n_idle); stat("generations_recovered_completely", n_all_durable);
}
