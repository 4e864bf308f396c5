// C22: results depend only on the arguments. The worker never calls the library itself: what a call returns alone is computed in a child
// forked for that one call, and every history or group of threads runs in a child of its own.
#include "lib.hpp"
#include <atomic>
#include <thread>
using namespace pbt;
static const int64_t Q = ref::Q;

struct Mem { int32_t *a, *b, *c; int16_t *t; };
static const size_t CAP = 2048 + 32;
static Mem make_mem(int off) {
  Mem m; char *p = (char *)aligned_alloc(4096, (CAP * 3 * 4 + CAP * 2 + 8191) & ~(size_t)4095);
  m.a = (int32_t *)p + off; m.b = (int32_t *)p + CAP + off; m.c = (int32_t *)p + 2 * CAP + off; m.t = (int16_t *)((int32_t *)p + 3 * CAP) + off; return m;
}
struct In { Arr a, b; std::vector<int16_t> t; int32_t sc; };
struct Op {
  std::string name; int kmin, kmax, fixed;   // log2 of the sizes it takes, or a fixed size
  int dom;                                    // 0: [0, Q-1], 1: +-21499, 2: any int32, 3: [-Q, 2Q-1], 4: bounds functions (arguments from the seed)
  int tab;                                    // -1: none; table kind; +10: scaled and signed; 30: powers of psi
  std::function<void(uint32_t, Mem &, int32_t)> f;
  bool slow = false;
};
static std::vector<Op> ops;

static In input(size_t op, uint32_t n, int64_t seed) {
  auto &o = ops[op];
  In in;
  auto base = [&](int64_t s) {
    Rng r((uint64_t)s * 1000003 + n * 31 + (uint64_t)o.dom);
    int64_t lo = 0, hi = Q - 1;
    if (o.dom == 1) { lo = s & 1 ? -21499 : 0; hi = s & 1 ? 21499 : Q - 1; }
    if (o.dom == 2) { lo = INT32_MIN; hi = INT32_MAX; }
    if (o.dom == 3) { lo = -Q; hi = 2 * Q - 1; }
    if (s == 0) { in.a.assign(n, 0); in.b.assign(n, 0); }
    else if (s == 1) { in.a.assign(n, hi); in.b.assign(n, Q - 1); }
    else { in.a = gen_vec(r, n, lo, hi, {lo, hi, 0, 1}); in.b = gen_vec(r, n, 0, Q - 1, {0, 1, Q - 1}); }
    in.sc = (int32_t)r.in(0, Q - 1);
  };
  // seeds come in families of eight that agree almost everywhere: one element changed (at an end, in the middle), two exchanged or
  // changed such that the sum stays, another table
  int64_t v = seed % 8; seed /= 8;
  base(seed);
  auto &w = v == 2 || v == 6 ? in.b : in.a; Rng rv((uint64_t)seed * 77 + n);
  if ((v == 1 || v == 2 || v == 4) && n) { auto &e = w[v == 1 ? n - 1 : v == 2 ? n / 2 : (size_t)rv.in(n > 2 ? 1 : 0, n > 2 ? n - 2 : n - 1)]; e = e == 5 ? 6 : 5; }
  if ((v == 5 || v == 6) && n > 1) { size_t i = (size_t)rv.in(0, n - 1), j = (i + 1 + (size_t)rv.in(0, n - 2)) % n; for (uint32_t q = 0; q < n && w[i] == w[j]; q++) j = (j + 1) % n; std::swap(w[i], w[j]); }
  if (v == 7 && n > 1) for (uint32_t i = 0; i + 1 < n; i++) if (w[i] > 3 && w[i + 1] < 12000 && w[i + 1] > -12000 && w[i] < 21000) { w[i]--; w[i + 1]++; break; }
  if (o.tab >= 0) {
    auto &ro = ref::roots(n); int64_t psi = ro[(size_t)((v == 3 ? 7 : 0) + seed % 2) % ro.size()];
    std::vector<int64_t> t;
    if (o.tab == 30) { t.resize(n); int64_t x = 1; for (auto &v : t) { v = x; x = x * psi % Q; } }
    else { t = ref::table(n, psi, (ref::Kind)(o.tab % 10), o.tab >= 10 ? ref::inv3() : 1); if (o.tab >= 10) for (auto &v : t) v = ref::centered(v); }
    in.t.assign(t.begin(), t.end());
  }
  return in;
}
typedef std::vector<int32_t> Out;
static Out call(size_t op, uint32_t n, const In &in, Mem &m, bool &table_ok) {
  for (uint32_t i = 0; i < n; i++) { m.a[i] = (int32_t)in.a[i]; m.b[i] = (int32_t)in.b[i]; m.c[i] = -1; }
  for (size_t i = 0; i < in.t.size(); i++) m.t[i] = in.t[i];
  ops[op].f(n, m, in.sc);
  Out o; o.insert(o.end(), m.a, m.a + n); o.insert(o.end(), m.b, m.b + n); o.insert(o.end(), m.c, m.c + n);
  table_ok = in.t.empty() || !memcmp(m.t, in.t.data(), in.t.size() * 2);
  return o;
}
static char *page;   // shared with the children
static const size_t PAGE = 1 << 20;
// run f in a fresh child; false if it died (msg) or returned false (message in the page)
static bool in_child(const std::function<bool()> &f, std::string &msg, unsigned limit = 50) {
  page[0] = 0; memset(page + 4096, 0, 64); fflush(stdout);
  pid_t p = fork();
  if (p == 0) { alarm(limit); _exit(f() ? 0 : 1); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) { msg = fmt("crashed: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return false; }
  if (WEXITSTATUS(st)) { msg = page; if (msg.empty()) msg = fmt("the code under test ended the process with exit status %d", WEXITSTATUS(st)); return false; }
  return true;
}
// what the call returns alone in a fresh process
struct Sum { uint64_t h[2]; int32_t first[4]; bool operator!=(const Sum &o) const { return h[0] != o.h[0] || h[1] != o.h[1]; } };
static Sum sum(const Out &o) {   // the worker keeps little memory, so that forking stays cheap
  Sum s = {{14695981039346656037ULL, 88172645463325252ULL}, {0, 0, 0, 0}};
  for (auto x : o) { s.h[0] = (s.h[0] ^ (uint32_t)x) * 1099511628211ULL; s.h[0] ^= s.h[0] >> 31; s.h[1] = s.h[1] * 6364136223846793005ULL + (uint32_t)x + 1; s.h[1] ^= s.h[1] >> 29; }
  return s;
}
static const Sum *alone(size_t op, uint32_t n, int64_t seed, std::string &msg) {
  static std::map<std::array<int64_t, 3>, Sum> cache;
  std::array<int64_t, 3> k = {(int64_t)op, (int64_t)n, seed};
  auto it = cache.find(k);
  if (it != cache.end()) return &it->second;
  bool ok = in_child([&] { In in = input(op, n, seed); Mem m = make_mem(0); bool t; Out o = call(op, n, in, m, t); if (!t) { snprintf(page, PAGE, "%s changed its table", ops[op].name.c_str()); return false; } Sum s = sum(o); memcpy(page + 4096, &s, sizeof s); memcpy(page + 8192, o.data(), o.size() * 4); return true; }, msg);
  if (!ok) { msg = ops[op].name + " alone: " + msg; return nullptr; }
  return &(cache[k] = *(Sum *)(page + 4096));
}
static uint32_t size_of(const Op &o, int64_t k) { return o.fixed ? (uint32_t)o.fixed : 1u << (o.kmin + (int)((uint64_t)k % (uint64_t)(o.kmax - o.kmin + 1))); }

// the library's own tables: name, address, bytes
struct Tab { std::string name; const char *p; std::vector<char> want; };
static std::vector<Tab> tabs;

int main(int argc, char **argv) {
  Runner R;
  static Lib LD, LN, LR, LA, LI;
  R.setup = [](Runner &R) {
    for (int k = 1; k <= 11; k++) ref::roots(1u << k);
    page = (char *)mmap(0, PAGE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    LD.open(R.lib + "/libdefault.so"); LN.open(R.lib + "/libnaive.so"); LR.open(R.lib + "/libred.so"); LA.open(R.lib + "/libasm.so"); LI.open(R.lib + "/libint.so");
    static const char *T[] = {"ntt_ct_rev2std", "mulntt_ct_rev2std", "ntt_ct_std2rev", "mulntt_ct_std2rev", "ntt_gs_rev2std", "nttmul_gs_rev2std", "ntt_gs_std2rev", "nttmul_gs_std2rev"};
    static const int KIND[] = {ref::STD_OMEGA, ref::STD_MIXED, ref::REV_OMEGA, ref::REV_MIXED, ref::REV_OMEGA, ref::REV_MIXED, ref::STD_OMEGA, ref::STD_MIXED};
    struct L4 { Lib *l; const char *pre, *post, *red; };
    for (auto &x : std::vector<L4>{{&LD, "ntt", "", ""}, {&LN, "naive_ntt", "", "n"}, {&LR, "ntt_red", "", "r"}, {&LA, "ntt_red", "_asm", "a"}}) {
      for (auto n : SIZES) for (int v = 1; v <= 5; v++) {
        std::string s = x.pre + std::to_string(n) + "_product" + std::to_string(v) + x.post; auto f = x.l->fn<prod_f>(s);
        ops.push_back({s, 0, 0, (int)n, 0, -1, [f](uint32_t, Mem &m, int32_t) { f(m.c, m.a, m.b); }});
      }
      for (int i = 0; i < 8; i++) {
        std::string s = T[i]; char k = x.red[0]; size_t u = s.find('_');
        if (k == 'n') s += "_naive"; if (k == 'r' || k == 'a') s = s.substr(0, u) + "_red" + s.substr(u); if (k == 'a') s += "_asm";
        void *f = x.l->sym(s);
        if (k == 0) ops.push_back({s, 1, 11, 0, 0, KIND[i], [f](uint32_t n, Mem &m, int32_t) { ((ntt16u_f *)f)(m.a, n, (uint16_t *)m.t); }});
        else if (k == 'n') ops.push_back({s, 1, 11, 0, 0, KIND[i], [f](uint32_t n, Mem &m, int32_t) { ((ntt16q_f *)f)(m.a, n, (uint16_t *)m.t, 12289); }});
        else ops.push_back({s, k == 'a' ? 4 : 1, 11, 0, 1, KIND[i] + 10, [f](uint32_t n, Mem &m, int32_t) { ((ntt16s_f *)f)(m.a, n, m.t); }});
      }
      std::string p = x.post; char k = x.red[0]; int km = k == 'a' ? 4 : 0;
      if (k == 0 || k == 'n') {
        std::string s = k ? "_naive" : "";
        void *f1 = x.l->sym("mul_array16" + s), *f2 = x.l->sym("mul_array" + s), *f3 = x.l->sym("scalar_mul_array" + s), *f4 = x.l->sym("bitrev_shuffle");
        ops.push_back({"mul_array16" + s, 1, 11, 0, 0, ref::STD_OMEGA, [f1, k](uint32_t n, Mem &m, int32_t) { if (k) ((ntt16q_f *)f1)(m.a, n, (uint16_t *)m.t, 12289); else ((ntt16u_f *)f1)(m.a, n, (uint16_t *)m.t); }});
        ops.push_back({"mul_array" + s, 0, 11, 0, 0, -1, [f2, k](uint32_t n, Mem &m, int32_t) { if (k) ((mulq_f *)f2)(m.c, n, m.a, m.b, 12289); else ((mul_f *)f2)(m.c, n, m.a, m.b); }});
        ops.push_back({"scalar_mul_array" + s, 0, 11, 0, 0, -1, [f3, k](uint32_t n, Mem &m, int32_t c) { if (k) ((smulq_f *)f3)(m.a, n, c, 12289); else ((smul_f *)f3)(m.a, n, c); }});
        ops.push_back({"bitrev_shuffle" + s, 0, 11, 0, 2, -1, [f4](uint32_t n, Mem &m, int32_t) { ((arr_f *)f4)(m.a, n); }});
      } else {
        for (auto q : {"reduce_array", "reduce_array_twice", "shift_array", "correct", "normalize", "normalize_inv3"}) {
          void *f = x.l->sym(q + p, false); if (!f) continue;
          ops.push_back({q + p, km, 11, 0, !strcmp(q, "correct") ? 3 : !strcmp(q, "shift_array") ? 0 : 2, -1, [f](uint32_t n, Mem &m, int32_t) { ((arr_f *)f)(m.a, n); }});
        }
        void *f1 = x.l->sym("mul_reduce_array16" + p), *f2 = x.l->sym("mul_reduce_array" + p), *f3 = x.l->sym("scalar_mul_reduce_array" + p);
        ops.push_back({"mul_reduce_array16" + p, std::max(1, km), 11, 0, 1, 10, [f1](uint32_t n, Mem &m, int32_t) { ((ntt16s_f *)f1)(m.a, n, m.t); }});
        ops.push_back({"mul_reduce_array" + p, km, 11, 0, 1, -1, [f2](uint32_t n, Mem &m, int32_t) { ((mul_f *)f2)(m.c, n, m.a, m.b); }});
        ops.push_back({"scalar_mul_reduce_array" + p, km, 11, 0, 1, -1, [f3](uint32_t n, Mem &m, int32_t c) { ((smul_f *)f3)(m.a, n, c); }});
      }
    }
    { void *f = LD.sym("ntt_ct_rev2std_v1"); ops.push_back({"ntt_ct_rev2std_v1", 1, 11, 0, 0, 30, [f](uint32_t n, Mem &m, int32_t) { ((ntt16u_f *)f)(m.a, n, (uint16_t *)m.t); }}); }
    size_t first_slow = ops.size();
    // bounds: arguments are the first words of a and b, results go to c
    for (auto q : {"max_red", "min_red"}) { auto f = LI.fn<int64_t(int64_t, int64_t, int64_t *)>(q);
      ops.push_back({q, 0, 0, 16, 2, -1, [f](uint32_t, Mem &m, int32_t) { int64_t w = 0, a = std::min(m.a[0], m.a[1]), b = std::max(m.a[0], m.a[1]); int64_t r = f(a, b, &w); memcpy(m.c, &r, 8); memcpy(m.c + 2, &w, 8); }}); }
    for (auto q : {"max_red_mul", "min_red_mul"}) { auto f = LI.fn<int64_t(int64_t, int64_t, int64_t, int64_t *)>(q);
      ops.push_back({q, 0, 0, 16, 2, -1, [f](uint32_t, Mem &m, int32_t) { int64_t w = 0, a = std::min(m.a[0], m.a[1]), b = std::max(m.a[0], m.a[1]); int64_t r = f(a, b, m.a[2] % 6145, &w); memcpy(m.c, &r, 8); memcpy(m.c + 2, &w, 8); }}); }
    for (auto q : {"max_red_mul_interval", "min_red_mul_interval"}) { auto f = LI.fn<int64_t(int64_t, int64_t, int64_t, int64_t, int64_t *, int64_t *)>(q);
      ops.push_back({q, 0, 0, 16, 2, -1, [f](uint32_t, Mem &m, int32_t) { int64_t w = 0, v = 0, a = std::min(m.a[0], m.a[1]), b = std::max(m.a[0], m.a[1]), x = m.a[2] % 100, y = m.a[3] % 100; int64_t r = f(a, b, std::min(x, y), std::max(x, y), &w, &v); memcpy(m.c, &r, 8); memcpy(m.c + 2, &w, 8); memcpy(m.c + 4, &v, 8); }}); }
    for (auto q : {"ntt_ct_bounds", "ntt_gs_bounds"}) { auto f = LI.fn<int64_t(int64_t, uint32_t, const int16_t *, int64_t *)>(q);
      ops.push_back({q, 4, 9, 0, 1, 10, [f](uint32_t n, Mem &m, int32_t c) { int64_t b[16] = {0}; int64_t r = f(c, n, m.t, b); memcpy(m.c, &r, 8); memcpy(m.c + 2, b, std::min<size_t>(8 * ref::lg(n), 56)); }}); }
    typedef void *iv;
    static auto mk = LI.fn<iv(int64_t, int64_t)>("vp_mk"); static auto lo = LI.fn<int64_t(iv)>("vp_min"), hi = LI.fn<int64_t(iv)>("vp_max"); static auto del = LI.fn<void(iv)>("vp_del");
    for (auto q : {"add", "sub", "red_mul", "neg", "red", "red_twice", "normal", "normal_inv3"}) { void *f = LI.sym(q); bool two = strlen(q) == 3 ? strcmp(q, "neg") && strcmp(q, "red") : !strcmp(q, "red_mul");
      ops.push_back({std::string("interval ") + q, 0, 0, 16, 2, -1, [f, two](uint32_t, Mem &m, int32_t) {
        iv a = mk(std::min(m.a[0], m.a[1]), std::max(m.a[0], m.a[1])), b = mk(std::min(m.a[2] % 100, m.a[3] % 100), std::max(m.a[2] % 100, m.a[3] % 100));   // red_mul takes time in the width of b
        iv r = two ? ((iv(*)(iv, iv))f)(a, b) : ((iv(*)(iv))f)(a); int64_t v[2] = {lo(r), hi(r)}; memcpy(m.c, v, 16); del(r); del(a); del(b); }}); }
    for (size_t i = first_slow; i < ops.size(); i++) ops[i].slow = true;
    // the tables of the library
    for (auto n : SIZES) {
      for (const char *t : {"psi_powers", "inv_psi_powers", "scaled_inv_psi_powers", "scaled_inv_psi_powers_var", "omega_powers", "omega_powers_rev", "inv_omega_powers", "inv_omega_powers_rev", "mixed_powers", "mixed_powers_rev", "inv_mixed_powers", "inv_mixed_powers_rev"})
        for (auto &x : std::vector<std::pair<Lib *, std::string>>{{&LD, "ntt"}, {&LN, "ntt"}, {&LR, "ntt_red"}, {&LA, "ntt_red"}}) {
          std::string s = x.second + std::to_string(n) + "_" + t; const char *p = (const char *)x.first->sym(s, false);
          if (p) tabs.push_back({s, p, std::vector<char>(p, p + 2 * n)});
        }
      std::string s = "bitrev" + std::to_string(n); const char *p = (const char *)LD.sym(s, false);
      if (p) tabs.push_back({s, p, std::vector<char>(p, p + 4 * (n - (1 << ((ref::lg((uint32_t)n) + 1) / 2))) / 2)});
    }
    auto tables_ok = [](std::string &m) { for (auto &t : tabs) if (memcmp(t.p, t.want.data(), t.want.size())) { m = "the library's table " + t.name + " changed"; return false; } return true; };

    // scalars: threads (0: one history; -r: one history, repeated r times), then per call: op, size, seed, memory slot
    auto valid = [](const Case &c) { return c.s.size() >= 1 && (c.s.size() - 1) % 4 == 0 && c.s[0] >= -200000 && c.s[0] <= 16; };
    auto run = [=](const Case &c, std::string &msg) {
      int nt = (int)std::max<int64_t>(0, c.s[0]), rounds = (int)(c.s[0] < 0 ? -c.s[0] : nt ? 6 : 1); size_t k = (c.s.size() - 1) / 4;
      struct Call { size_t op; uint32_t n; int64_t seed; const Sum *want; int slot; In in; };
      std::vector<std::vector<Call>> th((size_t)std::max(1, nt));
      for (size_t t = 0; t < th.size(); t++) for (size_t i = 0; i < k; i++) {
        const int64_t *p = &c.s[1 + 4 * ((i + t) % k)];
        size_t op = (uint64_t)p[0] % ops.size(); uint32_t n = size_of(ops[op], p[1]); int64_t seed = (int64_t)(((uint64_t)p[2] + t) % 96);
        const Sum *w = alone(op, n, seed, msg); if (!w) return false;
        th[t].push_back({op, n, seed, w, (int)((uint64_t)p[3] % 3), In()});
      }
      static const int OFF[] = {0, 3, 8};
      bool good = in_child([&] {
        for (auto &v : th) for (auto &q : v) q.in = input(q.op, q.n, q.seed);
        auto go = [&](size_t t, int rounds) {
          Mem m[3]; for (int i = 0; i < 3; i++) m[i] = make_mem(OFF[i]);
          for (int r = 0; r < rounds; r++) for (size_t i = 0; i < th[t].size(); i++) {
            auto &q = th[t][i]; bool tok; Out o = call(q.op, q.n, q.in, m[q.slot], tok);
            if (!tok) { snprintf(page, 2000, "%s (n = %u) changed its table", ops[q.op].name.c_str(), q.n); return false; }
            if (sum(o) != *q.want) {
              static std::atomic<int> once(0);
              if (once++ == 0) {
                int64_t h[4] = {1, (int64_t)q.op, (int64_t)q.n, q.seed}; memcpy(page + 4096, h, sizeof h); memcpy(page + 8192, o.data(), o.size() * 4);
                snprintf(page, 2000, "%s (n = %u), call %zu of %s", ops[q.op].name.c_str(), q.n, i + 1 + (size_t)r * th[t].size(), nt ? fmt("thread %zu", t).c_str() : "the history"); }
              return false; }
          }
          return true; };
        bool ok = true; std::string tm;
        if (!nt) ok = go(0, rounds);
        else {
          std::atomic<int> ready(0), bad(0); std::vector<std::thread> v;
          for (size_t t = 0; t < th.size(); t++) v.emplace_back([&, t] { ready++; while (ready < nt) {} if (!go(t, rounds)) bad = 1; });
          for (auto &x : v) x.join();
          ok = !bad;
        }
        if (ok && !tables_ok(tm)) { snprintf(page, 2000, "%s", tm.c_str()); ok = false; }
        return ok; }, msg, rounds > 100 ? 250 : 50);
      int64_t h[4]; memcpy(h, page + 4096, sizeof h);
      if (!good && msg == page && h[0] == 1) {   // say where it differs
        Out o((int32_t *)(page + 8192), (int32_t *)(page + 8192) + 3 * h[2]); std::string m2 = msg, m3; bool t; size_t op = (size_t)h[1]; uint32_t n = (uint32_t)h[2]; int64_t seed = h[3];
        if (in_child([&] { In in = input(op, n, seed); Mem m = make_mem(0); Out w = call(op, n, in, m, t); memcpy(page + 8192, w.data(), w.size() * 4); return true; }, m3)) {
          const int32_t *w = (const int32_t *)(page + 8192);
          for (size_t j = 0; j < o.size(); j++) if (o[j] != w[j]) { m2 += fmt(": element %zu of array %c is %d, alone it is %d", j % n, "abc"[j / n], o[j], w[j]); break; }
        }
        msg = m2;
      }
      return good;
    };
    auto shr = [](const Case &c) { std::vector<Case> v; size_t k = (c.s.size() - 1) / 4;
      for (size_t w = k / 2; w >= 1; w /= 2) for (size_t i = 0; i + w <= k; i += w) { if (k - w < 1) continue; Case d = c; d.s.erase(d.s.begin() + 1 + 4 * (long)i, d.s.begin() + 1 + 4 * (long)(i + w)); v.push_back(d); }
      for (int64_t r : {-1, -10, -100}) if (c.s[0] < r) { Case d = c; d.s[0] = r; v.push_back(d); }
      if (c.s[0] < -1) for (int64_t r : {c.s[0] / 2, c.s[0] * 3 / 4, c.s[0] + 1}) { Case d = c; d.s[0] = r; v.push_back(d); }
      return v; };
    auto nt = [](const Case &c) { return c.s.size() > 5; };
    auto ev = [](const Case &c) { return (uint64_t)((c.s.size() - 1) / 4 * (c.s[0] > 0 ? c.s[0] * 6 : c.s[0] < 0 ? -c.s[0] : 1)); };
    auto mk2 = [=, &R](const char *name, uint64_t quick, std::function<Case(Rng &)> g) { Target t; t.name = name; t.quick = quick; t.thorough = quick * 25; t.gen = g; t.run = run; t.valid = valid; t.shrinkers = shr; t.nontrivial = nt; t.evals = ev; R.add(t); };
    if (getenv("VP_THREADS")) {
      // few different calls, so that threads meet in the same routine
      mk2("threads_same", 3000, [](Rng &r) { Case c; c.s = {r.pick({2, 4, 8})}; int k = (int)r.in(1, 3); for (int i = 0; i < k; i++) { int64_t op = r.in(0, (int64_t)ops.size() - 1); c.s.insert(c.s.end(), {op, r.chance(1, 2) ? ops[(size_t)op].kmax - ops[(size_t)op].kmin : r.in(0, 12), r.in(0, 95), r.in(0, 2)}); } return c; });
      mk2("threads_mixed", 1500, [](Rng &r) { Case c; c.s = {r.in(2, 8)}; int k = (int)r.in(4, 12); for (int i = 0; i < k; i++) c.s.insert(c.s.end(), {r.in(0, (int64_t)ops.size() - 1), r.in(0, 12), r.in(0, 95), r.in(0, 2)}); return c; });
      return;
    }
    mk2("history", 16000, [](Rng &r) { Case c; c.s = {0}; int k = (int)r.in(2, 60); for (int i = 0; i < k; i++) c.s.insert(c.s.end(), {r.in(0, (int64_t)ops.size() - 1), r.in(0, 12), r.in(0, 95), r.in(0, 2)}); return c; });
    // one routine again and again with related inputs, sizes and memory
    mk2("history_one_routine", 24000, [](Rng &r) { Case c; c.s = {0}; int k = (int)r.in(2, 24); int64_t op = r.in(0, (int64_t)ops.size() - 1), sz = r.in(0, 12), sd = r.in(0, 11) * 8;
      for (int i = 0; i < k; i++) c.s.insert(c.s.end(), {op, r.chance(2, 3) ? sz : r.in(0, 12), r.chance(3, 4) ? sd + r.in(0, 7) : r.in(0, 95), r.chance(2, 3) ? 0 : r.in(0, 2)}); return c; });
    // long histories: a few calls, repeated up to many thousands of times
    mk2("history_long", 640, [](Rng &r) { Case c; c.s = {0}; int k = (int)r.in(1, 4); int64_t op = r.in(0, (int64_t)ops.size() - 1); size_t cost = 0;
      for (int i = 0; i < k; i++) { if (r.chance(1, 2)) op = r.in(0, (int64_t)ops.size() - 1); int64_t sz = r.chance(2, 3) ? 0 : r.in(0, 12); c.s.insert(c.s.end(), {op, sz, r.in(0, 95), r.in(0, 2)}); cost += ops[(size_t)op].slow ? 60000 : 40 + size_of(ops[(size_t)op], sz); }
      c.s[0] = -(int64_t)std::max<size_t>(2, std::min<size_t>(140000, r.chance(1, 2) ? 8000000 / cost : (size_t)r.in(2, 800000) / cost)); return c; });
    {  // every routine of a fixed size, more often than 16 bits count
      Target t; t.name = "history_65536"; t.enumerated = true; t.run = run; t.valid = valid; t.nontrivial = [](const Case &) { return true; }; t.evals = ev; t.shrinkers = shr;
      std::vector<int64_t> fx; for (size_t i = 0; i < ops.size(); i++) if (ops[i].fixed && !ops[i].slow) fx.push_back((int64_t)i);
      std::stable_sort(fx.begin(), fx.end(), [](int64_t a, int64_t b) { return ops[(size_t)a].fixed > ops[(size_t)b].fixed; });
      t.quick = fx.size(); t.thorough = 4 * fx.size(); uint64_t seed = R.seed;
      t.genx = [=](uint64_t i) { Case c; int64_t op = fx[i % fx.size()]; c.s = {-66000, op, 0, (int64_t)((seed * 13 + i * 5) % 96), 0}; return c; };
      R.add(t);
    }
    {  // every ordered pair of routines
      Target t; t.name = "pairs"; t.enumerated = true; t.run = run; t.valid = valid; t.nontrivial = nt; t.evals = ev; t.shrinkers = shr;
      uint64_t N = ops.size(); t.quick = N * N / 4; t.thorough = N * N * 4; uint64_t seed = R.seed; bool full = R.thorough;
      t.genx = [=](uint64_t i) { Rng r(seed * 7 + i); uint64_t x = full ? i : i * 4 + (uint64_t)r.in(0, 3); Case c; int64_t a = (int64_t)(x / N % N), b = (int64_t)(x % N); c.s = {0, a, r.in(0, 12), r.in(0, 95), 0, b, r.in(0, 12), r.in(0, 95), 0, a, r.in(0, 12), r.in(0, 95), 0}; return c; };
      R.add(t);
    }
  };
  return R.main(argc, argv);
}
