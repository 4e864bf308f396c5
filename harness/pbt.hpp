// A small property-based-testing kernel: seeded generators, generic cases,
// crash-proof execution (every case runs in a forked worker that journals the
// current case in shared memory), shrinking in forked children, replay files.
#pragma once
#include <algorithm>
#include <array>
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

typedef std::vector<int64_t> Arr;

struct Rng {  // xoshiro256**, seeded by splitmix64
  uint64_t s[4];
  static uint64_t mix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed) { for (auto &v : s) v = mix(seed); }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  // uniform in [lo, hi]
  int64_t in(int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
    if (span == 0) return (int64_t)next();
    return (int64_t)((uint64_t)lo + (uint64_t)(((unsigned __int128)next() * span) >> 64));
  }
  bool chance(int num, int den) { return in(0, den - 1) < num; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[(size_t)in(0, (int64_t)v.size() - 1)]; }
  int64_t pick(std::initializer_list<int64_t> v) { return *(v.begin() + in(0, (int64_t)v.size() - 1)); }
};

struct Case {
  std::string target;
  Arr s;                 // scalars
  std::vector<Arr> a;    // arrays
  std::string text() const {
    std::ostringstream o;
    o << "target " << target << "\n";
    o << "scalars " << s.size();
    for (auto x : s) o << " " << x;
    o << "\narrays " << a.size() << "\n";
    for (auto &v : a) { o << v.size(); for (auto x : v) o << " " << x; o << "\n"; }
    return o.str();
  }
  static bool parse(std::istream &in, Case &c) {
    std::string w; size_t n;
    c = Case();
    while (in >> w) {
      if (w == "target") in >> c.target;
      else if (w == "scalars") { in >> n; c.s.resize(n); for (auto &x : c.s) in >> x; }
      else if (w == "arrays") {
        in >> n; c.a.resize(n);
        for (auto &v : c.a) { size_t m; in >> m; v.resize(m); for (auto &x : v) in >> x; }
        return !c.target.empty() && bool(in);
      }
    }
    return false;
  }
  uint64_t hash() const {
    uint64_t h = 1469598103934665603ULL;
    auto f = [&](uint64_t x) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; };
    for (char ch : target) f((unsigned char)ch);
    f(s.size()); for (auto x : s) f((uint64_t)x);
    for (auto &v : a) { f(v.size()); for (auto x : v) f((uint64_t)x); }
    return h;
  }
  std::string brief(size_t lim = 24) const {
    std::ostringstream o;
    o << target << " scalars=[";
    for (size_t i = 0; i < s.size() && i < lim; i++) o << (i ? "," : "") << s[i];
    o << "]";
    for (auto &v : a) {
      o << " array(" << v.size() << ")=[";
      for (size_t i = 0; i < v.size() && i < lim; i++) o << (i ? "," : "") << v[i];
      if (v.size() > lim) o << ",...";
      o << "]";
    }
    return o.str();
  }
};

struct Target {
  std::string name;
  uint64_t quick = 0, thorough = 0;                         // cases over all shards
  std::function<Case(Rng &)> gen;                           // generate
  std::function<bool(const Case &)> valid;                  // in the property's domain (used when shrinking)
  std::function<bool(const Case &, std::string &)> run;     // the oracle: true = holds
  std::function<bool(const Case &)> nontrivial;             // default: some array element or scalar differs from 0
  bool enumerated = false;                                  // gen is called with the case index (see genx)
  std::function<Case(uint64_t)> genx;
  std::function<std::vector<Case>(const Case &)> shrinkers; // extra candidates
  std::function<uint64_t(const Case &)> evals;              // how many evaluations one case stands for (default 1)
  int limit_s = 60;                                         // hang limit of one case
};

struct Shared {
  volatile uint64_t done, evals, nontriv, index, heartbeat, target_idx;
  volatile uint64_t len;       // length of the journalled case
  volatile uint64_t failed;    // the worker found an oracle mismatch
  char msg[2048];
  volatile uint64_t counts[512];
};

inline std::string fmt(const char *f, ...) {
  char b[1024];
  va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  return b;
}

struct Runner {
  std::vector<Target> T;
  std::string prop;
  uint64_t seed = 1;
  int shard = 0, nshards = 1;
  bool thorough = false;
  double scale = 1.0;
  uint64_t thin = 1;   // enumerated targets visit one case in so many
  std::string out, replay, lib;
  Shared *sh = nullptr;
  char *buf = nullptr;           // journal
  static constexpr size_t BUF = 64u << 20;

  void add(Target t) { T.push_back(std::move(t)); }
  Target *find(const std::string &n) { for (auto &t : T) if (t.name == n) return &t; return nullptr; }

  void journal(const Case &c) {
    size_t p = 0;
    auto put = [&](const void *d, size_t n) { if (p + n <= BUF) { memcpy(buf + p, d, n); p += n; } };
    uint64_t n = c.target.size(); put(&n, 8); put(c.target.data(), n);
    n = c.s.size(); put(&n, 8); put(c.s.data(), n * 8);
    n = c.a.size(); put(&n, 8);
    for (auto &v : c.a) { n = v.size(); put(&n, 8); put(v.data(), n * 8); }
    sh->len = p;
  }
  Case unjournal() {
    Case c; size_t p = 0; uint64_t n;
    auto get = [&](void *d, size_t k) { memcpy(d, buf + p, k); p += k; };
    get(&n, 8); c.target.assign(buf + p, n); p += n;
    get(&n, 8); c.s.resize(n); get(c.s.data(), n * 8);
    get(&n, 8); c.a.resize(n);
    for (auto &v : c.a) { get(&n, 8); v.resize(n); get(v.data(), n * 8); }
    return c;
  }

  // Run one case in a child. 0 = holds, 1 = fails (msg says how)
  int run_isolated(const Case &c, std::string &msg, int limit) {
    sh->msg[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      quiet();
      std::string m;
      Target *t = find(c.target);
      bool ok = t->run(c, m);
      if (!ok) { snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str()); _exit(1); }
      _exit(0);
    }
    auto t0 = std::chrono::steady_clock::now();
    int st = 0;
    for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) break;
      if (r < 0) { st = 0; break; }
      double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (el > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); msg = fmt("no result after %d s (hang)", limit); return 1; }
      usleep(el < 0.01 ? 100 : 1000);
    }
    if (WIFSIGNALED(st)) { msg = fmt("crashed: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return 1; }
    if (WEXITSTATUS(st) == 0) return 0;
    msg = sh->msg[0] ? sh->msg : fmt("the code under test ended the process with exit status %d", WEXITSTATUS(st));
    return 1;
  }
  std::string logfile;
  void quiet() {   // stdout/stderr of the code under test go to a log
    if (logfile.empty()) return;
    int fd = open(logfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
  }

  Case shrink(Case c, std::string &msg, double budget_s) {
    auto t0 = std::chrono::steady_clock::now();
    Target *t = find(c.target);
    auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s; };
    auto attempt = [&](const Case &d) {
      if (over()) return false;
      if (t->valid && !t->valid(d)) return false;
      std::string m;
      if (run_isolated(d, m, std::min(t->limit_s, 10)) == 1) { c = d; msg = m; return true; }
      return false;
    };
    for (bool progress = true; progress && !over();) {
      progress = false;
      if (t->shrinkers) for (bool more = true; more && !over();) {
        more = false;
        for (auto &d : t->shrinkers(c)) if (attempt(d)) { progress = more = true; break; }
      }
      for (size_t i = 0; i < c.s.size() && !over(); i++)
        for (int64_t v : {(int64_t)0, (int64_t)1, c.s[i] / 2, c.s[i] > 0 ? c.s[i] - 1 : c.s[i] + 1}) {
          if (v == c.s[i] || std::llabs(v) > std::llabs(c.s[i])) continue;
          Case d = c; d.s[i] = v;
          if (attempt(d)) { progress = true; break; }
        }
      for (size_t k = 0; k < c.a.size() && !over(); k++) {
        size_t n = c.a[k].size();
        for (size_t w = n; w >= 1 && !over(); w /= 2) {
          for (size_t i = 0; i < n && !over(); i += w) {
            bool any = false;
            for (size_t j = i; j < std::min(n, i + w); j++) any |= c.a[k][j] != 0;
            if (!any) continue;
            Case d = c;
            for (size_t j = i; j < std::min(n, i + w); j++) d.a[k][j] = 0;
            if (attempt(d)) { progress = true; continue; }
            if (w == 1) for (int64_t v : {(int64_t)1, (int64_t)-1, c.a[k][i] / 2, c.a[k][i] > 0 ? c.a[k][i] - 1 : c.a[k][i] + 1}) {
              if (v == c.a[k][i] || std::llabs(v) > std::llabs(c.a[k][i])) continue;
              Case e = c; e.a[k][i] = v;
              if (attempt(e)) { progress = true; break; }
            }
          }
          if (w == 1) break;
        }
      }
    }
    return c;
  }

  static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
      if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
      else if (ch == '\n') o += "\\n";
      else if (ch < 32 || ch > 126) o += fmt("\\u%04x", ch);
      else o += (char)ch;
    }
    return o + "\"";
  }

  static bool default_nontrivial(const Case &c) {
    for (auto &v : c.a) for (auto x : v) if (x) return true;
    for (auto x : c.s) if (x) return true;
    return false;
  }

  uint64_t quota(const Target &t) const {
    uint64_t total = thorough ? t.thorough : t.quick;
    if (!t.enumerated) total = (uint64_t)((double)total * scale);
    else if (thin > 1) total = (total + thin - 1) / thin;
    return total / nshards + ((uint64_t)shard < total % nshards ? 1 : 0);
  }
  // the idx-th case of target ti in this shard
  Case make(size_t ti, uint64_t idx) {
    Target &t = T[ti];
    if (t.enumerated) {
      uint64_t j = idx * nshards + shard;
      if (thin > 1) { uint64_t m = (j + seed) * 0x9e3779b97f4a7c15ULL; j = std::min((thorough ? t.thorough : t.quick) - 1, j * thin + (m >> 33) % thin); }
      Case c = t.genx(j); c.target = t.name; return c;
    }
    uint64_t h = seed * 0x9e3779b97f4a7c15ULL + shard * 0xd1342543de82ef95ULL + 77;
    for (char ch : t.name) h = h * 1099511628211ULL + (unsigned char)ch;
    h += idx * 0xa0761d6478bd642fULL;
    Rng r(h);
    Case c = t.gen(r);
    c.target = t.name;
    return c;
  }

  void worker(uint64_t first_target, uint64_t first_index, uint64_t stop_target, uint64_t stop_index) {
    quiet();
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    for (size_t ti = first_target; ti < T.size(); ti++) {
      Target &t = T[ti];
      uint64_t n = quota(t);
      for (uint64_t i = ti == first_target ? first_index : 0; i < n; i++) {
        if (ti > stop_target || (ti == stop_target && i > stop_index)) goto end;
        Case c = make(ti, i);
        sh->target_idx = ti; sh->index = i; sh->heartbeat = sh->heartbeat + 1;
        journal(c);
        std::string m;
        bool ok = t.run(c, m);
        if (!ok) { snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str()); sh->failed = 1; _exit(3); }
        sh->done = sh->done + 1;
        sh->evals = sh->evals + (t.evals ? t.evals(c) : 1);
        sh->counts[ti] = sh->counts[ti] + 1;
        bool nt = t.nontrivial ? t.nontrivial(c) : default_nontrivial(c);
        if (nt && seen.insert(c.hash()).second) sh->nontriv = sh->nontriv + 1;
        if (nt && (i == n / 2 || (i == 0 && samples.size() < 2))) samples.push_back(c.brief());
      }
    }
  end:
    if (!out.empty()) {
      std::ofstream h(out + ".hash", std::ios::binary);
      for (auto x : seen) h.write((const char *)&x, 8);
      std::ofstream s(out + ".samples");
      for (auto &x : samples) s << x << "\n";
    }
    _exit(0);
  }

  // returns 0 if the run completed, 1 if it failed; fills sh
  int run_range(uint64_t st, uint64_t si, std::string &msg, bool &hang) {
    memset((void *)sh, 0, sizeof *sh);
    hang = false;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) worker(0, 0, st, si);
    uint64_t hb = ~0ULL; auto last = std::chrono::steady_clock::now();
    int status = 0;
    for (;;) {
      pid_t r = waitpid(p, &status, WNOHANG);
      if (r == p) break;
      if (sh->heartbeat != hb) { hb = sh->heartbeat; last = std::chrono::steady_clock::now(); }
      int lim = T.empty() ? 60 : T[std::min<size_t>((size_t)sh->target_idx, T.size() - 1)].limit_s;
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - last).count() > lim) {
        kill(p, SIGKILL); waitpid(p, &status, 0); hang = true; msg = fmt("no result after %d s (hang)", lim); return 1;
      }
      usleep(5000);
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return 0;
    if (sh->failed) msg = sh->msg;
    else if (WIFSIGNALED(status)) msg = fmt("crashed: signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
    else msg = fmt("the code under test ended the process with exit status %d", WEXITSTATUS(status));
    return 1;
  }

  std::function<void(Runner &)> setup;   // registers the targets once the options are known
  int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
      std::string k = argv[i]; auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (k == "--seed") seed = strtoull(v().c_str(), 0, 10);
      else if (k == "--shard") { shard = atoi(v().c_str()); }
      else if (k == "--shards") nshards = atoi(v().c_str());
      else if (k == "--tier") thorough = v() == "thorough";
      else if (k == "--out") out = v();
      else if (k == "--scale") scale = atof(v().c_str());
      else if (k == "--thin") thin = strtoull(v().c_str(), 0, 10);
      else if (k == "--replay") replay = v();
      else if (k == "--log") logfile = v();
      else if (k == "--lib") lib = v();
      else if (k == "--prop") prop = v();
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (setup) setup(*this);
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    buf = (char *)mmap(0, BUF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    memset((void *)sh, 0, sizeof *sh);
    if (!replay.empty()) {
      std::ifstream f(replay);
      std::string mode;
      f >> mode;
      if (mode == "case") {
        Case c;
        if (!Case::parse(f, c) || !find(c.target)) { fprintf(stderr, "bad replay file\n"); return 2; }
        std::string m;
        int r = run_isolated(c, m, find(c.target)->limit_s);
        printf("%s %s\n", r ? "FAIL" : "PASS", m.c_str());
        return r;
      }
      if (mode == "history") {  // seed shard nshards tier scale target index
        std::string tier, tn; uint64_t idx;
        f >> seed >> shard >> nshards >> tier >> scale >> tn >> idx;
        thorough = tier == "thorough";
        size_t ti = 0; while (ti < T.size() && T[ti].name != tn) ti++;
        std::string m; bool hang;
        int r = run_range(ti, idx, m, hang);
        printf("%s %s\n", r ? "FAIL" : "PASS", m.c_str());
        return r;
      }
      fprintf(stderr, "bad replay file\n");
      return 2;
    }
    std::string msg; bool hang;
    int r = run_range(T.size(), ~0ULL, msg, hang);
    std::ofstream o(out);
    o << "{\"cases\":" << sh->done << ",\"evaluations\":" << sh->evals << ",\"nontrivial\":" << sh->nontriv << ",\"per_target\":{";
    for (size_t i = 0; i < T.size(); i++) o << (i ? "," : "") << jstr(T[i].name) << ":" << sh->counts[i];
    o << "}";
    if (r) {
      Case c = unjournal();
      uint64_t ti = sh->target_idx, idx = sh->index;
      std::string hist = fmt("history\n%" PRIu64 " %d %d %s %.17g %s %" PRIu64 "\n", seed, shard, nshards, thorough ? "thorough" : "quick", scale, T[ti].name.c_str(), idx);
      std::string m2;
      bool alone = run_isolated(c, m2, T[ti].limit_s) == 1;
      Case small = c;
      if (alone) { msg = m2; small = shrink(c, msg, getenv("VP_SHRINK") ? atof(getenv("VP_SHRINK")) : hang ? 30 : 40); }
      o << ",\"failure\":{\"target\":" << jstr(T[ti].name) << ",\"index\":" << idx << ",\"message\":" << jstr(msg)
        << ",\"alone\":" << (alone ? "true" : "false") << ",\"hang\":" << (hang ? "true" : "false")
        << ",\"case\":" << jstr("case\n" + small.text()) << ",\"brief\":" << jstr(small.brief(40)) << ",\"history\":" << jstr(hist) << "}";
    }
    o << "}\n";
    return 0;
  }
};

// ---------------------------------------------------------------- generators
// A vector of n values in [lo, hi]: mixes uniform, boundary-heavy, constant, sparse,
// periodic, alternating-extreme, ramp and block patterns.
inline Arr gen_vec(Rng &r, size_t n, int64_t lo, int64_t hi, const std::vector<int64_t> &special) {
  Arr v(n);
  auto uni = [&] { return r.in(lo, hi); };
  auto spec = [&] { return special.empty() ? r.pick({lo, hi}) : r.pick(special); };
  auto any = [&] { return r.chance(1, 2) ? uni() : spec(); };
  switch (r.in(0, 13)) {
    case 0: case 1: case 2: for (auto &x : v) x = uni(); break;
    case 3: for (auto &x : v) x = spec(); break;
    case 4: for (auto &x : v) x = any(); break;
    case 5: { int64_t c = any(); for (auto &x : v) x = c; break; }
    case 6: { int64_t z = (lo <= 0 && 0 <= hi) ? 0 : lo; for (auto &x : v) x = z; int k = (int)r.in(0, 4); for (int i = 0; i < k && n; i++) v[(size_t)r.in(0, (int64_t)n - 1)] = any(); break; }
    case 7: { size_t p = (size_t)1 << r.in(0, 10); Arr q(p); for (auto &x : q) x = any(); for (size_t i = 0; i < n; i++) v[i] = q[i % p]; break; }
    case 8: { int64_t a = any(), b = any(); size_t w = (size_t)1 << r.in(0, 9); for (size_t i = 0; i < n; i++) v[i] = ((i / w) & 1) ? a : b; break; }
    case 9: for (auto &x : v) x = r.chance(1, 2) ? lo : hi; break;
    case 10: { int64_t c = uni(), d = r.in(-3, 3); for (auto &x : v) { x = c; c += d; if (c > hi) c = lo; if (c < lo) c = hi; } break; }
    case 11: { int64_t c = any(); for (auto &x : v) x = c; int k = (int)r.in(1, 3); for (int i = 0; i < k && n; i++) v[(size_t)r.in(0, (int64_t)n - 1)] = any(); break; }
    case 12: { size_t a = n ? (size_t)r.in(0, (int64_t)n) : 0; int64_t c = any(); for (size_t i = 0; i < n; i++) v[i] = i < a ? c : any(); break; }
    default: { int64_t a = spec(); int den = (int)r.in(2, 64); for (auto &x : v) x = r.chance(1, den) ? uni() : a; break; }
  }
  return v;
}

// int32 buffer ending exactly at an unmapped page (guard = 1), or starting right after one (guard = -1),
// or plain with offset words (guard = 0)
struct Buf {
  void *base = nullptr; size_t len = 0; char *p = nullptr;
  size_t bytes = 0;
  Buf(size_t nbytes, int guard, size_t off = 0) {
    size_t pg = 4096, body = (nbytes + off + pg - 1) / pg * pg; if (!body) body = pg;
    len = body + 2 * pg; bytes = nbytes;
    base = mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); _exit(99); }
    mprotect(base, pg, PROT_NONE);
    mprotect((char *)base + pg + body, pg, PROT_NONE);
    if (guard > 0) p = (char *)base + pg + body - nbytes;
    else if (guard < 0) p = (char *)base + pg;
    else p = (char *)base + pg + off;
    memset((char *)base + pg, 0xA5, body);
  }
  Buf(const Buf &) = delete;
  ~Buf() { if (base) munmap(base, len); }
  template <class T> T *as() { return (T *)p; }
  // the bytes around the buffer (inside its pages) are untouched
  bool canary_ok() const {
    const unsigned char *q = (const unsigned char *)base + 4096, *e = (const unsigned char *)base + len - 4096;
    for (; q < (const unsigned char *)p; q++) if (*q != 0xA5) return false;
    for (q = (const unsigned char *)p + bytes; q < e; q++) if (*q != 0xA5) return false;
    return true;
  }
  void readonly() { mprotect((char *)base + 4096, len - 8192, PROT_READ); }
};

}  // namespace pbt
