// C18: the table generators on valid and invalid arguments; C29: with injected failures. Each run in a fresh scratch directory.
#include "lib.hpp"
#include <dirent.h>
#include <spawn.h>
#include <sys/stat.h>
using namespace pbt;
extern char **environ;
static const int64_t Q = ref::Q;
static std::string GEN, SCR;
static const char *TOOL[] = {"make_tables", "make_red_tables", "make_bitrev_table"};

static std::string dec(const Arr &a) { std::string s; for (auto x : a) s += (char)x; return s; }
static Arr enc(const std::string &s) { Arr a; for (unsigned char ch : s) a.push_back(ch); return a; }
// a plain decimal number in the range of long long; anything else is not a number
static bool number(const std::string &s, __int128 &v) {
  size_t i = 0; bool neg = false; if (i < s.size() && s[i] == '-') { neg = true; i++; }
  if (i == s.size() || s.size() - i > 30) return false;
  v = 0; for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); }
  if (neg) v = -v; return true;
}
static bool accepts(int tool, const std::vector<std::string> &a, int64_t &n) {
  if (a.size() != (tool == 2 ? 1u : 2u)) return false;
  __int128 x, y = 0;
  if (!number(a[0], x) || x < 2 || x >= (tool == 2 ? 65535 : 100000) || (x & (x - 1))) return false;
  n = (int64_t)x;
  if (tool == 2) return true;
  if (!number(a[1], y) || y < 2 || y >= Q) return false;
  return ref::pw((int64_t)y, n) == Q - 1;
}
static std::map<std::string, std::string> listing(const std::string &d) {
  std::map<std::string, std::string> m;
  DIR *p = opendir(d.c_str()); if (!p) return m;
  while (auto *e = readdir(p)) { std::string f = e->d_name; if (f == "." || f == "..") continue; std::ifstream i(d + "/" + f, std::ios::binary); std::stringstream s; s << i.rdbuf(); m[f] = s.str(); }
  closedir(p); return m;
}

// C29. scalars: tool (3 to 5: the copies among the verifier's benchmarks), n, psi, fault, its parameter, prior contents of the files, which file
enum { NONE, LIMIT, LIMIT_KILL, DIRECTORY, FULL, MALLOC };
static const char *FAULT[] = {"no fault", "file size limit", "file size limit (signal)", "the name is a directory", "full device", "failing allocation"};
struct Res { int st; std::map<std::string, std::string> files; };
static void wipe(const std::string &d) {
  DIR *p = opendir(d.c_str()); if (!p) return;
  while (auto *e = readdir(p)) { std::string f = e->d_name; if (f == "." || f == "..") continue; f = d + "/" + f; if (unlink(f.c_str())) rmdir(f.c_str()); }
  closedir(p);
}
static std::pair<std::string, std::string> names(int tool, int64_t n) {
  std::string b = (tool % 3 == 0 ? "ntt" : tool % 3 == 1 ? "ntt_red" : "bitrev") + std::to_string(n) + (tool % 3 == 2 ? "_table." : "_tables.");
  return {b + "h", b + "c"};
}
static std::string prior(int kind, size_t len) { return kind == 1 ? "old\n" : std::string(len + 5000, 'x') + "\n"; }
static Res generate(int tool, int64_t n, int64_t psi, int fault, int64_t par, int old, int which) {
  Res r; std::string d = SCR + "/" + std::to_string(getpid()); mkdir(d.c_str(), 0755); wipe(d);
  auto f = names(tool, n); std::string target = d + "/" + (which ? f.second : f.first);
  if (old) { std::ofstream(d + "/keep.txt") << "keep\n"; for (auto &x : {f.first, f.second}) std::ofstream(d + "/" + x) << prior(old, 300000); }
  if (fault == DIRECTORY || fault == FULL) { unlink(target.c_str()); if (fault == DIRECTORY) mkdir(target.c_str(), 0755); else if (symlink("/dev/full", target.c_str())) abort(); }
  std::string exe = GEN + (tool >= 3 ? "/bench/" : "/") + TOOL[tool % 3], a1 = std::to_string(n), a2 = std::to_string(psi);
  const char *av[] = {TOOL[tool % 3], a1.c_str(), tool % 3 == 2 ? nullptr : a2.c_str(), nullptr};
  std::string pre = "LD_PRELOAD=" + GEN + "/failmalloc.so", k = "FAILMALLOC=" + std::to_string(par);
  const char *ev[] = {"LANG=C", fault == MALLOC ? pre.c_str() : nullptr, k.c_str(), nullptr};
  pid_t p = fork();
  if (p == 0) {
    if (chdir(d.c_str())) _exit(126);
    struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = fault == LIMIT || fault == LIMIT_KILL ? (rlim_t)par : 64u << 20; setrlimit(RLIMIT_FSIZE, &rl);
    struct rlimit nc = {0, 0}; setrlimit(RLIMIT_CORE, &nc);
    signal(SIGXFSZ, fault == LIMIT ? SIG_IGN : SIG_DFL);
    int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); dup2(fd, 2); execve(exe.c_str(), (char **)av, (char **)ev); _exit(127);
  }
  waitpid(p, &r.st, 0);
  if (fault == DIRECTORY) rmdir(target.c_str());
  else if (fault == FULL) { struct stat sb; if (!lstat(target.c_str(), &sb) && S_ISLNK(sb.st_mode)) unlink(target.c_str()); }   // never read from the device
  r.files = listing(d); wipe(d); rmdir(d.c_str()); return r;
}
static void faults(Runner &R) {
  static std::map<std::array<int64_t, 3>, Res> cache;
  auto fault_free = [](int64_t tool, int64_t n, int64_t psi) -> const Res & {
    std::array<int64_t, 3> k = {tool, n, psi}; auto it = cache.find(k); if (it != cache.end()) return it->second;
    if (cache.size() > 64) cache.clear();
    return cache[k] = generate((int)tool, n, psi, NONE, 0, 0, 0); };
  auto valid = [](const Case &c) {
    if (c.s.size() != 7 || c.s[0] < 0 || c.s[0] > 5 || c.s[1] < 2 || c.s[1] > 32768 || (c.s[1] & (c.s[1] - 1)) || c.s[3] < 0 || c.s[3] > MALLOC || c.s[4] < 0 || c.s[4] > 64 << 20 || c.s[5] < 0 || c.s[5] > 2 || (c.s[6] & ~1)) return false;
    return c.s[0] % 3 == 2 || (c.s[1] <= 2048 && c.s[2] >= 2 && c.s[2] < Q && ref::pw(c.s[2], c.s[1]) == Q - 1); };
  auto run = [=](const Case &c, std::string &msg) {
    int tool = (int)c.s[0], fault = (int)c.s[3], old = (int)c.s[5]; int64_t n = c.s[1];
    const Res &want = fault_free(tool, n, c.s[2]);
    auto f = names(tool, n);
    std::string cmd = std::string(tool >= 3 ? "verifier " : "") + TOOL[tool % 3] + " " + std::to_string(n) + (tool % 3 == 2 ? "" : " " + std::to_string(c.s[2]));
    auto w1 = want.files.find(f.first), w2 = want.files.find(f.second);
    if (!WIFEXITED(want.st) || WEXITSTATUS(want.st) || w1 == want.files.end() || w2 == want.files.end()) { msg = cmd + ": fails without any fault"; return false; }
    Res r = generate(tool, n, c.s[2], fault, c.s[4], old, (int)c.s[6]);
    if (old && r.files["keep.txt"] != "keep\n") { msg = cmd + ": changed another file"; return false; }
    bool zero = WIFEXITED(r.st) && WEXITSTATUS(r.st) == 0;
    bool none = fault == NONE || ((fault == LIMIT || fault == LIMIT_KILL) && c.s[4] >= (int64_t)std::max(w1->second.size(), w2->second.size()) + 1);
    if (none && !zero) { msg = cmd + fmt(": nothing failed, but it ended with status 0x%x", r.st); return false; }
    if (zero) for (auto &w : {w1, w2}) {
      auto g = r.files.find(w->first);
      if (g == r.files.end() || g->second != w->second) {
        msg = cmd + ": exit status 0, but " + w->first + (g == r.files.end() ? " was not written" : fmt(" has %zu bytes and not the %zu of its contents", g->second.size(), w->second.size())) + " (" + FAULT[fault] + (fault == LIMIT || fault == LIMIT_KILL || fault == MALLOC ? fmt(" %lld", (long long)c.s[4]) : "") + ")"; return false; }
    }
    return true; };
  Target t; t.name = "faults"; t.quick = 16000; t.thorough = 400000; t.run = run; t.valid = valid;
  t.nontrivial = [](const Case &c) { return c.s[3] != NONE; };
  t.gen = [=](Rng &r) {
    Case c; int64_t tool = r.in(0, 5), n = (int64_t)1 << (tool % 3 == 2 ? r.in(1, 15) : r.in(1, 11)), psi = 0;
    if (r.chance(1, 2)) n = std::min<int64_t>(n, 64);
    if (tool % 3 != 2) { auto &ro = ref::roots((uint32_t)n); psi = ro[(size_t)r.in(0, std::min<int64_t>(3, (int64_t)ro.size() - 1))]; }
    int64_t fault = r.chance(1, 2) ? LIMIT : r.in(NONE, MALLOC), par = 0, which = r.in(0, 1);
    if (fault == MALLOC) par = r.in(0, 8);
    if (fault == LIMIT || fault == LIMIT_KILL) {
      auto &w = fault_free(tool, n, psi); auto f = names((int)tool, n); auto it = w.files.find(which ? f.second : f.first); int64_t len = it == w.files.end() ? 100 : (int64_t)it->second.size();
      switch (r.in(0, 3)) { case 0: par = len + r.in(-3, 3); break; case 1: par = r.in(0, len / 4096 + 1) * 4096 + r.in(-1, 1); break; default: par = r.in(0, len); }
      par = std::max<int64_t>(0, par); }
    c.s = {tool, n, psi, fault, par, r.in(0, 2), which}; return c; };
  t.shrinkers = [](const Case &c) { std::vector<Case> v; auto put = [&](int i, int64_t x) { if (c.s[i] != x) { Case d = c; d.s[i] = x; v.push_back(d); } };
    put(5, 0); put(0, c.s[0] % 3);
    if (c.s[0] % 3 == 2) { put(1, 2); put(1, c.s[1] / 2); } else for (int64_t n : {(int64_t)2, c.s[1] / 2}) if (n >= 2 && n < c.s[1]) { Case d = c; d.s[1] = n; d.s[2] = ref::roots((uint32_t)n)[0]; v.push_back(d); }
    put(4, 0); put(4, c.s[4] / 2); put(4, c.s[4] - 1); return v; };
  R.add(t);
}

int main(int argc, char **argv) {
  Runner R;
  R.setup = [](Runner &R) {
    GEN = R.lib; SCR = R.lib + "/scratch";
    mkdir(SCR.c_str(), 0755);
    if (R.prop == "C29") { faults(R); return; }
    // scalars: tool, whether old files are in the way; arrays: the arguments
    auto run = [](const Case &c, std::string &msg) {
      int tool = (int)c.s[0];
      std::vector<std::string> args; for (auto &a : c.a) args.push_back(dec(a));
      int64_t n = 0; bool ok = accepts(tool, args, n);
      std::string d = SCR + "/" + std::to_string(getpid()); mkdir(d.c_str(), 0755);
      for (auto &e : listing(d)) unlink((d + "/" + e.first).c_str());
      std::string b = tool == 0 ? "ntt" : tool == 1 ? "ntt_red" : "bitrev";
      auto fname = [&](const std::string &num, const char *ext) { return b + num + (tool == 2 ? "_table." : "_tables.") + ext; };
      __int128 v;
      bool num = !args.empty() && number(args[0], v) && v >= 0 && v < 1000000;
      if (c.s[1]) {
        std::ofstream(d + "/keep.txt") << "keep\n";
        if (num) { std::ofstream(d + "/" + fname(std::to_string((long)v), "h")) << "old h\n"; std::ofstream(d + "/" + fname(std::to_string((long)v), "c")) << "old c\n"; }
      }
      auto before = listing(d);
      std::string exe = GEN + "/" + TOOL[tool];
      std::vector<char *> av = {(char *)TOOL[tool]}; for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
      pid_t p = vfork();
      if (p == 0) {
        if (chdir(d.c_str())) _exit(126);
        struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl); rl = {64u << 20, 64u << 20}; setrlimit(RLIMIT_FSIZE, &rl);
        int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); dup2(fd, 2); execv(exe.c_str(), av.data()); _exit(127);
      }
      int st = 0; waitpid(p, &st, 0);
      auto after = listing(d);
      for (auto &e : after) unlink((d + "/" + e.first).c_str());
      rmdir(d.c_str());
      std::string cmd = TOOL[tool]; for (auto &a : args) cmd += " '" + a + "'";
      if (WIFSIGNALED(st)) { msg = cmd + fmt(": ended by signal %d", WTERMSIG(st)); return false; }
      int rc = WEXITSTATUS(st);
      if (ok) {
        if (rc) { msg = cmd + fmt(": valid, but the exit status is %d", rc); return false; }
        std::string h = fname(std::to_string(n), "h"), s = fname(std::to_string(n), "c");
        for (auto &e : after) if (e.first != h && e.first != s && before.find(e.first) == before.end()) { msg = cmd + ": also created " + e.first; return false; }
        for (auto &e : before) if (e.first != h && e.first != s && after[e.first] != e.second) { msg = cmd + ": changed " + e.first; return false; }
        if (!after.count(h) || !after.count(s) || after[h].size() < 20 || after[s].size() < 20) { msg = cmd + ": did not write " + h + " and " + s; return false; }
      } else {
        if (!rc) { msg = cmd + ": invalid, but the exit status is 0"; return false; }
        if (before != after) { msg = cmd + ": invalid, but files were created or changed"; return false; }
      }
      return true; };
    auto valid = [](const Case &c) {
      if (c.s.size() != 2 || c.s[0] < 0 || c.s[0] > 2) return false;
      for (auto &a : c.a) { for (auto x : a) if (x < 32 || x > 126) return false;
        std::string s = dec(a); __int128 v; bool digit = false; for (char ch : s) digit |= ch >= '0' && ch <= '9';
        if (digit && !number(s, v)) return false;      // "16abc", " 16", "+16": not claimed
        if (digit && s.size() > 1 && (s[0] == '0' || (s[0] == '-' && s[1] == '0'))) return false; }
      return true; };
    auto size = [](Rng &r, int tool) -> std::string {
      switch (r.in(0, 9)) {
        case 0: case 1: case 2: return std::to_string((int64_t)1 << r.in(0, 17));
        case 3: return std::to_string(((int64_t)1 << r.in(0, 17)) + r.in(-2, 2));
        case 4: return std::to_string(r.in(-10, 70));
        case 5: return std::to_string(r.in(2, 120000));
        case 6: return std::to_string(((int64_t)1 << r.in(16, 62)) + (r.chance(1, 2) ? (int64_t)1 << r.in(1, 11) : r.in(-1, 1)));
        case 7: return std::to_string(-((int64_t)1 << r.in(1, 62)) + (r.chance(1, 2) ? (int64_t)1 << r.in(1, 11) : 0));
        case 8: return std::to_string(3 * ((int64_t)1 << r.in(0, 15)));
        default: { static const std::vector<std::string> w = {"0", "1", "2", "-1", "-16", "65534", "65535", "65536", "65537", "32768", "99999", "100000", "100001", "131072", "4294967298", "4294967312", "18446744073709551632", "99999999999999999999999", "-99999999999999999999999", "abc", "", "-", "x", "psi"}; return r.pick(w); }
      } };
    auto psi = [](Rng &r, const std::string &sz) -> std::string {
      __int128 v = 0; int64_t n = number(sz, v) && v >= 2 && v <= 2048 && !(v & (v - 1)) ? (int64_t)v : (int64_t)1 << r.in(1, 11);
      auto &ro = ref::roots((uint32_t)n); int64_t x = ro[(size_t)r.in(0, (int64_t)ro.size() - 1)];
      switch (r.in(0, 9)) {
        case 0: case 1: case 2: return std::to_string(x);
        case 3: return std::to_string(x + Q * r.in(-2, 2));
        case 4: return std::to_string(r.chance(1, 2) ? x * x % Q : ref::pw(x, r.in(2, 8)));
        case 5: return std::to_string(ref::mod(x * r.pick({2, 3, Q - 1, 49, 7})));
        case 6: return std::to_string(x + r.pick({4294967296LL, -4294967296LL, 65536, -65536, 1, -1}));
        case 7: return std::to_string(r.in(-20, 12400));
        case 8: { auto &r2 = ref::roots((uint32_t)(n < 2048 ? 2 * n : n / 2)); return std::to_string(r2[(size_t)r.in(0, (int64_t)r2.size() - 1)]); }
        default: { static const std::vector<std::string> w = {"0", "1", "2", "-1", "12288", "12289", "12290", "12287", "24577", "-12288", "4294967295", "99999999999999999999999", "abc", "", "-"}; return r.pick(w); }
      } };
    auto nt = [](const Case &c) { return !c.a.empty(); };
    { Target t; t.name = "arguments"; t.quick = 60000; t.thorough = 1000000;
      t.gen = [=](Rng &r) { Case c; int tool = (int)r.in(0, 2); size_t want = tool == 2 ? 1 : 2, k = r.chance(1, 12) ? (size_t)r.in(0, 4) : want;
        std::string s = size(r, tool); for (size_t i = 0; i < k; i++) c.a.push_back(enc(i == 0 ? s : i == 1 ? psi(r, s) : std::to_string(r.in(0, 20)))); c.s = {tool, r.in(0, 1)}; return c; };
      t.run = run; t.valid = valid; t.nontrivial = nt; R.add(t); }
    { Target t; t.name = "every_small_size"; t.enumerated = true; t.quick = 3 * 2200; t.thorough = 3 * 100100;
      t.genx = [](uint64_t i) { Case c; int tool = (int)(i % 3); int64_t n = (int64_t)(i / 3) - 20; c.a = {enc(std::to_string(n))};
        if (tool < 2) c.a.push_back(enc(std::to_string(n >= 2 && n <= 2048 && !(n & (n - 1)) ? ref::roots((uint32_t)n)[0] : Q - 1 - (n & 1)))); c.s = {tool, (int64_t)(i & 1)}; return c; };
      t.run = run; t.valid = valid; t.nontrivial = nt; R.add(t); }
    { Target t; t.name = "every_psi"; t.enumerated = true; t.quick = 2 * (Q + 20); t.thorough = 2 * 16 * (Q + 20);
      uint64_t seed = R.seed; bool th = R.thorough;
      t.genx = [=](uint64_t i) { Case c; int tool = (int)(i % 2); i /= 2; int64_t p = (int64_t)(i % (uint64_t)(Q + 20)) - 10, k = th ? (int64_t)(i / (uint64_t)(Q + 20)) + 1 : 1 + (int64_t)((seed * 7 + (uint64_t)p * 2654435761u) % 12);
        c.a = {enc(std::to_string((int64_t)1 << k)), enc(std::to_string(p))}; c.s = {tool, 0}; return c; };
      t.run = run; t.valid = valid; t.nontrivial = nt; R.add(t); }
  };
  return R.main(argc, argv);
}
