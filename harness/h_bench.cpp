// C23: the verifier's benchmark copies against the library, and the benchmark programs on the inputs their assumptions allow.
#include "lib.hpp"
#include "adv.hpp"
#include <glob.h>
using namespace pbt;
static const int64_t Q = ref::Q, WLO = -8796042698752LL, WHI = 8796093026303LL;
static int64_t logmag(Rng &r, int maxbits) { int b = (int)r.in(0, maxbits); int64_t v = b ? r.in((int64_t)1 << (b - 1), ((int64_t)1 << b) - 1) : 0; return r.chance(1, 2) ? v : -v; }
static bool win(int64_t x, int64_t y) { __int128 z = (__int128)x * y; return z >= WLO && z <= WHI; }
static const std::vector<int64_t> SPU = {0, 1, 2, 4095, 4096, 4097, 6143, 6144, 6145, 8191, 8192, 8193, 12287, 12288};
static const std::vector<int64_t> SPS = {0, 1, -1, 21499, -21499, 21498, -21498, 12288, -12288, 12289, -12289, 6144, -6144, 4096, -4096, 4095};

struct Copy {   // one build of the benchmark sources
  Lib l; std::string name; void (*reset)(); long (*fail)();
  void open(const std::string &p, const std::string &n) { l.open(p); name = n; reset = l.fn<void()>("vp_reset"); fail = l.fn<long()>("vp_first_fail"); }
};
static Copy C[2];
static Lib LR, LD, LI, LS;

// all builds and the library leave the same arrays; f(lib) returns the arrays after the call
template <class F> static bool same(const std::string &what, Lib &lib, F f, std::string &msg) {
  std::vector<std::vector<int64_t>> w = f(lib);
  for (auto &c : C) {
    c.reset();
    auto g = f(c.l);
    if (c.fail() >= 0) { msg = what + ": an assertion of the benchmark copy fails (" + c.name + " build)"; return false; }
    for (size_t k = 0; k < w.size(); k++) for (size_t i = 0; i < w[k].size(); i++)
      if (g[k][i] != w[k][i]) { msg = what + fmt(": the benchmark copy (%s build) gives %lld at index %zu of result %zu, the library %lld", c.name.c_str(), (long long)g[k][i], i, k, (long long)w[k][i]); return false; }
  }
  return true;
}
template <class T> static std::vector<int64_t> wide(const std::vector<T> &v) { return std::vector<int64_t>(v.begin(), v.end()); }

static void primitives(Runner &R) {
  static const char *nm[] = {"normalize", "normalize_inv3", "shift_array", "reduce_array", "reduce_array_twice", "correct", "mul_reduce_array16", "mul_reduce_array", "scalar_mul_reduce_array", "mul_array16", "mul_array", "scalar_mul_array", "bitrev_shuffle", "shuffle_with_table"};
  auto range = [](int f, int64_t &lo, int64_t &hi) { lo = INT32_MIN; hi = INT32_MAX; if (f == 2 || (f >= 9 && f <= 11)) lo = 0, hi = Q - 1; if (f == 5) lo = -Q, hi = 2 * Q - 1; };
  auto valid = [range](const Case &c) {
    int f = (int)c.s[0]; if (f < 0 || f > 13 || c.a[0].size() != c.a[1].size() || c.s[1] < 0 || c.s[1] > 15) return false; int64_t lo, hi; range(f, lo, hi); size_t n = c.a[0].size();
    for (size_t i = 0; i < n; i++) { int64_t x = c.a[0][i], y = c.a[1][i]; if (x < lo || x > hi || y < INT32_MIN || y > INT32_MAX) return false;
      if ((f == 6 || f == 9) && (y < INT16_MIN || y > INT16_MAX)) return false;
      if ((f == 9 || f == 10) && (y < 0 || y >= Q)) return false;
      if ((f == 6 || f == 7) && !win(x, y)) return false; if (f == 8 && !win(x, c.s[2])) return false; }
    if (f == 11 && (c.s[2] < 0 || c.s[2] >= Q)) return false;
    if (f >= 12 && (n < 1 || n > 16384 || (n & (n - 1)))) return false;
    return c.s[2] >= INT32_MIN && c.s[2] <= INT32_MAX; };
  auto run = [](const Case &c, std::string &msg) {
    int f = (int)c.s[0]; uint32_t n = (uint32_t)c.a[0].size();
    std::vector<std::array<uint16_t, 2>> t;
    if (f == 13) { uint32_t k = ref::lg(n); for (uint32_t i = 0; i < n; i++) { uint32_t j = ref::rev(i, k); if (i < j) t.push_back({(uint16_t)i, (uint16_t)j}); } }
    return same(nm[f], f < 9 ? LR : LD, [&](Lib &l) {
      std::vector<int32_t> ma(n + 32, 77), b(c.a[1].begin(), c.a[1].end()), d(n + 1, 5); std::vector<int16_t> p(c.a[1].begin(), c.a[1].end()); p.push_back(3); b.push_back(9);
      int32_t *a = ma.data() + 8 + c.s[1]; for (uint32_t i = 0; i < n; i++) a[i] = (int32_t)c.a[0][i];
      void *s = l.sym(nm[f]);
      switch (f) { case 6: ((ntt16s_f *)s)(a, n, p.data()); break; case 7: case 10: ((mul_f *)s)(d.data(), n, a, b.data()); break; case 8: case 11: ((smul_f *)s)(a, n, (int32_t)c.s[2]); break;
        case 9: ((ntt16u_f *)s)(a, n, (uint16_t *)p.data()); break; case 13: ((shuf_f *)s)(a, (const uint16_t(*)[2])t.data(), (uint32_t)t.size()); break; default: ((arr_f *)s)(a, n); }
      return std::vector<std::vector<int64_t>>{wide(ma), wide(b), wide(d), wide(p)}; }, msg); };
  for (int f = 0; f < 14; f++) {
    Target t; t.name = nm[f]; t.quick = 60000; t.thorough = 2000000; t.valid = valid; t.run = run;
    t.gen = [f, range](Rng &r) {
      Case c; int64_t lo, hi; range(f, lo, hi); size_t n = f >= 12 ? (size_t)1 << r.in(0, r.chance(1, 20) ? 14 : 10) : r.chance(1, 10) ? (size_t)r.in(0, 2100) : (size_t)r.in(0, 70);
      std::vector<int64_t> sp = {lo, lo + 1, hi, hi - 1, 0, 1, -1, Q, Q - 1, 6144, 6145, 4095, 4096, -4096, -4097, -Q, 8192}; for (auto &x : sp) x = std::min(hi, std::max(lo, x));
      Arr a = gen_vec(r, n, lo, hi, sp), b(n, 0); int64_t s = 0;
      if (f == 8) s = r.chance(1, 3) ? r.pick({0, 1, -1, 8193, 12288, -6144, 6144}) : logmag(r, 31);
      if (f == 11) s = r.in(0, Q - 1);
      if (f == 9 || f == 10) b = gen_vec(r, n, 0, Q - 1, SPU);
      if (f >= 6 && f <= 8) { bool small = r.chance(1, 3); for (size_t i = 0; i < n; i++) { b[i] = f == 6 ? (r.chance(1, 2) ? r.in(-6144, 6144) : r.in(INT16_MIN, INT16_MAX)) : f == 7 ? logmag(r, 31) : 0; int64_t y = f == 8 ? s : b[i];
        a[i] = small ? r.in(-21499, 21499) : r.chance(1, 3) && y ? std::min<int64_t>(INT32_MAX, std::max<int64_t>(INT32_MIN, r.pick({WLO, WHI}) / y)) : logmag(r, 31); while (!win(a[i], y)) a[i] /= 2; } }
      c.a = {a, b}; c.s = {f, r.in(0, 15), s}; return c; };
    t.nontrivial = [](const Case &c) { return !c.a[0].empty() && Runner::default_nontrivial(c); };
    t.shrinkers = [f](const Case &c) { std::vector<Case> v; size_t n = c.a[0].size(); for (size_t w = n / 2; w >= 1; w /= 2) for (int q = 0; q < 2; q++) { Case d = c; for (auto &x : d.a) { if (q) x.resize(n - w); else x.erase(x.begin(), x.begin() + (long)w); } v.push_back(d); } return v; };
    R.add(t);
  }
}

struct Spec { const char *n; int kind; };
static const Spec S[] = {{"ntt_ct_rev2std", ref::STD_OMEGA}, {"mulntt_ct_rev2std", ref::STD_MIXED}, {"ntt_ct_std2rev", ref::REV_OMEGA}, {"mulntt_ct_std2rev", ref::REV_MIXED}, {"ntt_gs_rev2std", ref::REV_OMEGA}, {"nttmul_gs_rev2std", ref::REV_MIXED}, {"ntt_gs_std2rev", ref::STD_OMEGA}, {"nttmul_gs_std2rev", ref::STD_MIXED}, {"ntt_ct_rev2std_v1", -1}};

static void transforms(Runner &R) {
  for (int red = 0; red < 2; red++) {
    Target t; t.name = red ? "red_transforms" : "default_transforms"; t.quick = red ? 20000 : 10000; t.thorough = t.quick * 30;
    int64_t lo = red ? -21499 : 0, hi = red ? 21499 : Q - 1; int NS = red ? 8 : 9;
    // scalars: n, psi, variant (-1 all); arrays: input, optional table of arbitrary multipliers
    t.gen = [=](Rng &r) { Case c; uint32_t n = 1u << r.in(1, 11); auto &ro = ref::roots(n); c.s = {n, ro[(size_t)r.in(0, (int64_t)ro.size() - 1)], -1}; c.a = {gen_vec(r, n, lo, hi, red ? SPS : SPU), {}};
      if (red && r.chance(1, 4)) c.a[1] = gen_vec(r, n, -6144, 6144, {0, 1, -1, 6144, -6144, 4096, -4096, 6143});
      else if (r.chance(1, 3)) {   // an operand of a variant driven to an extreme or to a chosen magnitude, or a chosen state
        int v = (int)r.in(0, 7); adv::Form f = {v >= 4, v % 4 < 2, (v & 1) != 0}; int64_t psi = c.s[1]; if (r.chance(1, 2)) c.s[2] = v;
        if (!red) c.a[0] = adv::from_state(r, n, f, adv::exact_table(n, psi, f));
        else { auto p = adv::table(n, psi, f); c.a[0] = r.chance(1, 2) ? adv::extreme(r, n, f, p, Arr(n, lo), Arr(n, hi)) : adv::scaled(r, n, f, p, r.chance(1, 6) ? 0 : lo, hi); } }
      return c; };
    t.valid = [=](const Case &c) { int64_t n = c.s[0]; if (n < 2 || n > 2048 || (n & (n - 1)) || (int64_t)c.a[0].size() != n || c.s[1] < 2 || c.s[1] >= Q || ref::pw(c.s[1], n) != Q - 1 || c.s[2] < -1 || c.s[2] >= NS) return false;
      if (!c.a[1].empty() && ((int64_t)c.a[1].size() != n || !red)) return false; for (auto x : c.a[1]) if (x < -6144 || x > 6144) return false; for (auto x : c.a[0]) if (x < lo || x > hi) return false; return true; };
    t.shrinkers = [=](const Case &c) { std::vector<Case> v; if (c.s[2] < 0) for (int k = 0; k < NS; k++) { Case d = c; d.s[2] = k; v.push_back(d); } return v; };
    t.evals = [=](const Case &c) { return (uint64_t)(c.s[2] < 0 ? NS : 1); };
    t.run = [=](const Case &c, std::string &msg) {
      uint32_t n = (uint32_t)c.s[0];
      for (int v = 0; v < NS; v++) {
        if (c.s[2] >= 0 && c.s[2] != v) continue;
        std::vector<int16_t> p(n); 
        if (!c.a[1].empty()) p.assign(c.a[1].begin(), c.a[1].end());
        else if (S[v].kind < 0) { int64_t x = 1; for (auto &y : p) { y = (int16_t)x; x = x * c.s[1] % Q; } }
        else { auto tb = ref::table(n, c.s[1], (ref::Kind)S[v].kind, red ? ref::inv3() : 1); for (uint32_t i = 1; i < n; i++) p[i] = (int16_t)(red ? ref::centered(tb[i]) : tb[i]); }
        std::string nm = S[v].n; if (red) { size_t k = nm.find("_"); nm = nm.substr(0, k) + "_red" + nm.substr(k); }
        bool ok = same(nm + fmt(" (n = %u)", n), red ? LR : LD, [&](Lib &l) { std::vector<int32_t> a(c.a[0].begin(), c.a[0].end()); a.push_back(123); auto q = p; q.push_back(5); l.fn<ntt16s_f>(nm)(a.data(), n, q.data()); return std::vector<std::vector<int64_t>>{wide(a), wide(q)}; }, msg);
        if (!ok) return false;
      }
      return true; };
    R.add(t);
  }
  Target t; t.name = "products"; t.quick = 15000; t.thorough = 400000;
  t.gen = [](Rng &r) { Case c; c.s = {-1};
    if (r.chance(2, 5)) { auto x = r.chance(1, 3) ? adv::product_states(r, 1024) : adv::product_pair(r, 1024); c.a = {x[0], x[1]}; return c; }
    c.a = {gen_vec(r, 1024, 0, Q - 1, SPU), gen_vec(r, 1024, 0, Q - 1, SPU)}; return c; };
  t.valid = [](const Case &c) { for (auto &v : c.a) { if (v.size() != 1024) return false; for (auto x : v) if (x < 0 || x >= Q) return false; } return c.s[0] >= -1 && c.s[0] < 5; };
  t.shrinkers = [](const Case &c) { std::vector<Case> v; if (c.s[0] < 0) for (int k = 0; k < 5; k++) { Case d = c; d.s[0] = k; v.push_back(d); } return v; };
  t.evals = [](const Case &c) { return (uint64_t)(c.s[0] < 0 ? 5 : 1); };
  t.run = [](const Case &c, std::string &msg) {
    for (int k = 0; k < 5; k++) { if (c.s[0] >= 0 && c.s[0] != k) continue; std::string nm = "ntt_red1024_product" + std::to_string(k + 1);
      bool ok = same(nm, LR, [&](Lib &l) { std::vector<int32_t> a(c.a[0].begin(), c.a[0].end()), b(c.a[1].begin(), c.a[1].end()), d(1025, -3); l.fn<prod_f>(nm)(d.data(), a.data(), b.data()); return std::vector<std::vector<int64_t>>{wide(d)}; }, msg);
      if (!ok) return false; }
    return true; };
  R.add(t);
}

static void others(Runner &R) {
  { Target t; t.name = "sort"; t.quick = 40000; t.thorough = 1000000;
    t.gen = [](Rng &r) { Case c; size_t n = r.chance(1, 20) ? (size_t)r.in(0, 3000) : (size_t)r.in(0, 60); Arr a(n); int64_t k = r.in(0, 40); for (auto &x : a) x = r.chance(1, 4) ? r.pick({0, -1, 1, INT64_MIN, INT64_MAX}) : k < 20 ? r.in(0, k) : (int64_t)r.next(); if (r.chance(1, 6)) std::sort(a.begin(), a.end()); if (r.chance(1, 8)) std::sort(a.rbegin(), a.rend()); c.a = {a}; return c; };
    t.run = [](const Case &c, std::string &msg) { return same("sort", LS, [&](Lib &l) { std::vector<uint64_t> a(c.a[0].begin(), c.a[0].end()); uint32_t n = (uint32_t)a.size(); a.push_back(42); l.fn<void(uint64_t *, uint32_t)>("sort")(a.data(), n); return std::vector<std::vector<int64_t>>{wide(a)}; }, msg); };
    R.add(t); }
  // scalars: function, a, b, low, high: values are compared, witnesses are evaluated
  static const char *nm[] = {"max_red", "min_red", "max_red_mul", "min_red_mul", "max_red_mul_interval", "min_red_mul_interval", "ct_bound", "gs_bound", "ct_bound_fixed", "gs_bound_fixed"};
  { Target t; t.name = "bounds"; t.quick = 150000; t.thorough = 4000000;
    t.gen = [](Rng &r) { Case c; int f = (int)r.in(0, 9); auto num = [&](int bits) { return r.chance(1, 3) ? r.in(-40, 40) * 4096 + r.in(-2, 2) : r.chance(1, 3) ? r.pick({0, 1, -1, 4095, 6144, -6144, 12288, 21499, -21499}) : logmag(r, bits); };
      int64_t a = num(f < 2 ? 62 : 40), b = r.chance(1, 3) ? a + r.in(0, 9000) : num(f < 2 ? 62 : 40); if (a > b) std::swap(a, b); if (r.chance(1, 4) && f >= 2) { b = std::llabs(a); a = -b; }
      int64_t w = r.chance(1, 2) ? r.in(-6144, 6144) : r.chance(1, 2) ? r.in(-16, 16) : num(16); c.s = {f, f >= 6 ? std::llabs(a) : a, f >= 6 ? std::llabs(a) : b, w, w + (r.chance(1, 3) ? 0 : r.in(0, 20))}; return c; };
    t.valid = [](const Case &c) { int64_t f = c.s[0]; if (f < 0 || f > 9 || c.s[1] > c.s[2] || c.s[3] > c.s[4] || c.s[4] - c.s[3] > 100) return false; if (f >= 2) for (int i : {1, 2}) if (std::llabs(c.s[i]) > (int64_t)1 << 41) return false; if (f >= 6 && c.s[1] < 0) return false; return std::llabs(c.s[3]) < 1 << 18; };
    t.run = [](const Case &c, std::string &msg) { int f = (int)c.s[0]; int64_t a = c.s[1], b = c.s[2], lo = c.s[3], hi = c.s[4];
      auto red = [](__int128 z) { __int128 m = z % 4096; if (m < 0) m += 4096; return (int64_t)(3 * m - (z - m) / 4096); };
      return same(fmt("%s(%lld, %lld, %lld, %lld)", nm[f], (long long)a, (long long)b, (long long)lo, (long long)hi), LI, [&](Lib &l) { int64_t x = 0, w = lo, v = 0; bool ok = true; void *s = l.sym(nm[f]);
        switch (f) { case 0: case 1: w = 1; v = ((int64_t(*)(int64_t, int64_t, int64_t *))s)(a, b, &x); break; case 2: case 3: v = ((int64_t(*)(int64_t, int64_t, int64_t, int64_t *))s)(a, b, lo, &x); break; case 4: case 5: v = ((int64_t(*)(int64_t, int64_t, int64_t, int64_t, int64_t *, int64_t *))s)(a, b, lo, hi, &x, &w); break;
          case 6: case 7: v = ((int64_t(*)(int64_t, int64_t, int64_t))s)(a, lo, hi); break; default: v = ((int64_t(*)(int64_t, int64_t))s)(a, lo); }
        if (f < 6) ok = x >= a && x <= b && (f < 2 || (w >= lo && w <= hi)) && red((__int128)x * w) == v;
        return std::vector<std::vector<int64_t>>{{v, ok}}; }, msg); };
    t.nontrivial = [](const Case &c) { return c.s[1] || c.s[2]; };
    R.add(t); }
  { Target t; t.name = "round_bounds"; t.quick = 3000; t.thorough = 60000;
    t.gen = [](Rng &r) { Case c; uint32_t n = 1u << (r.chance(1, 12) ? r.in(7, 10) : r.in(1, 6)); Arr p(n); auto &ro = ref::roots(n); auto tb = ref::table(n, ro[(size_t)r.in(0, (int64_t)ro.size() - 1)], (ref::Kind)r.in(0, 3), ref::inv3()); for (uint32_t i = 0; i < n; i++) p[i] = ref::centered(tb[i]);
      if (r.chance(1, 3)) p = gen_vec(r, n, -6144, 6144, {0, 1, -1, 6144, -6144}); c.a = {p}; c.s = {r.chance(1, 2) ? r.pick({0, 1, 6144, 12288, 21499}) : std::llabs(logmag(r, 28))}; return c; };
    t.valid = [](const Case &c) { size_t n = c.a[0].size(); for (auto x : c.a[0]) if (x < -6144 || x > 6144) return false; return n >= 2 && n <= 1024 && !(n & (n - 1)) && c.s[0] >= 0 && c.s[0] < 1 << 29; };
    t.run = [](const Case &c, std::string &msg) { uint32_t n = (uint32_t)c.a[0].size(), K = ref::lg(n); std::vector<int16_t> p(c.a[0].begin(), c.a[0].end());
      for (auto nm : {"ntt_ct_bounds", "ntt_gs_bounds"}) if (!same(nm, LI, [&](Lib &l) { std::vector<int64_t> bd(K + 3, -77); int64_t v = l.fn<int64_t(int64_t, uint32_t, const int16_t *, int64_t *)>(nm)(c.s[0], n, p.data(), bd.data()); return std::vector<std::vector<int64_t>>{{v}, bd}; }, msg)) return false;
      return true; };
    t.nontrivial = [](const Case &c) { return c.s[0] > 0; };
    R.add(t); }
}

// a benchmark program: main with chosen nondeterministic values
struct Prog {
  Lib l; std::string name; int (*mainf)(); int (*run)(int (*)(), const int *, long); long (*used)(), (*fail)(); int64_t (*zmin)(), (*zmax)();
  long n = 0; std::vector<std::pair<long, std::pair<int64_t, int64_t>>> rg;   // from this value on: allowed range
  std::pair<int64_t, int64_t> range(long i) const { auto r = rg[0].second; for (auto &x : rg) if (x.first <= i) r = x.second; return r; }
  bool go(const std::vector<int> &v) { return run(mainf, v.data(), (long)v.size()); }
  void probe() {
    std::vector<int> v(1 << 16, 0);
    if (!go(v)) { // 0 is not allowed everywhere: find something that is
      for (int tries = 0; tries < 100000; tries++) { long i = used() - 1; v[(size_t)i] = v[(size_t)i] <= 0 ? 1 - 2 * v[(size_t)i] : -v[(size_t)i]; if (go(v)) break; }
      if (!go(v)) return;
    }
    n = used(); v.resize((size_t)n);
    std::vector<long> at; for (long b = 0; b < n; b += 512) for (long i : {b, b + 1, b + 511}) if (i < n) at.push_back(i);
    for (long i : at) {
      auto ok = [&](int64_t x) { auto w = v; w[(size_t)i] = (int)x; return go(w); };
      auto edge = [&](int64_t in, int64_t out) { if (ok(out)) return out; while (std::llabs(out - in) > 1) { int64_t m = in + (out - in) / 2; if (ok(m)) in = m; else out = m; } return in; };
      rg.push_back({i, {edge(v[(size_t)i], INT32_MIN), edge(v[(size_t)i], INT32_MAX)}});
    }
  }
};
static std::vector<Prog> P;

static void programs(Runner &R) {
  glob_t g;
  if (glob((R.lib + "/prog/*.so").c_str(), 0, nullptr, &g) == 0) for (size_t i = 0; i < g.gl_pathc; i++) {
    Prog p; p.l.open(g.gl_pathv[i]); p.name = g.gl_pathv[i]; p.name = p.name.substr(p.name.rfind('/') + 1); p.name.resize(p.name.size() - 3);
    p.mainf = p.l.fn<int()>("vp_main"); p.run = p.l.fn<int(int (*)(), const int *, long)>("vp_run"); p.used = p.l.fn<long()>("vp_nd_used"); p.fail = p.l.fn<long()>("vp_first_fail"); p.zmin = p.l.fn<int64_t()>("vp_zmin"); p.zmax = p.l.fn<int64_t()>("vp_zmax");
    P.push_back(p);
  }
  for (size_t k = 0; k < P.size(); k++) {
    Target t; t.name = P[k].name; t.quick = 1600; t.thorough = 40000;
    t.gen = [k](Rng &r) {
      Prog &p = P[k]; if (!p.n) p.probe();
      Case c; Arr v((size_t)p.n);
      auto fill = [&](long from, long to) {
        auto q = p.range(from); size_t m = (size_t)(to - from); Arr x;
        if (r.chance(1, 3)) { x.resize(m); int64_t u[12]; for (auto &y : u) y = r.chance(1, 3) ? q.first : r.chance(1, 2) ? q.second : r.in(q.first, q.second); for (size_t i = 0; i < m; i++) x[i] = u[ref::lg((uint32_t)(i ? i : 1)) % 12]; }   // one value per level
        else x = gen_vec(r, m, q.first, q.second, {q.first, q.second, std::min(q.second, std::max(q.first, (int64_t)0)), (q.first + q.second) / 2});
        for (size_t i = 0; i < m; i++) { auto z = p.range(from + (long)i); v[(size_t)from + i] = std::min(z.second, std::max(z.first, x[i])); } };
      for (long b = 0; b < p.n; b += 1024) fill(b, std::min(p.n, b + 1024));
      if (r.chance(1, 2)) {   // climb towards the ends of the window
        auto fit = [&](const Arr &a) { std::vector<int> w(a.begin(), a.end()); if (!p.go(w)) return -1.0; return std::max((double)p.zmax() / (double)WHI, (double)p.zmin() / (double)WLO); };
        double f = fit(v);
        for (int s = 0; s < 60; s++) { Arr w = v; int kk = r.chance(1, 2) ? 1 : (int)r.in(1, 64); bool stride = r.chance(1, 3); long i0 = r.in(0, p.n - 1), st = 1 << r.in(0, 9);
          if (r.chance(1, 2)) {   // a whole level of a table, or a whole array
            long b0 = r.in(0, (p.n - 1) / 1024) * 1024, lv = r.in(0, 10), from = lv == 10 ? b0 : b0 + (1 << lv), to = lv == 10 ? b0 + 1024 : b0 + (2 << lv); if (to > p.n) to = p.n;
            auto q = p.range(b0); int64_t x = r.chance(1, 3) ? q.first + r.in(0, std::min<int64_t>(400, q.second - q.first)) : r.chance(1, 2) ? q.second - r.in(0, std::min<int64_t>(400, q.second - q.first)) : r.in(q.first, q.second);
            for (long i = from; i < to; i++) { auto z = p.range(i); w[(size_t)i] = std::min(z.second, std::max(z.first, x)); }
          } else for (int j = 0; j < kk; j++) { long i = stride ? (i0 + j * st) % p.n : r.in(0, p.n - 1); auto q = p.range(i); w[(size_t)i] = r.chance(1, 3) ? q.first : r.chance(1, 2) ? q.second : r.in(q.first, q.second); }
          double h = fit(w); if (h >= f) { f = h; v = w; } }
      }
      c.a = {v}; return c; };
    t.valid = [k](const Case &c) { for (auto x : c.a[0]) if (x < INT32_MIN || x > INT32_MAX) return false; return true; };
    t.run = [k](const Case &c, std::string &msg) {
      Prog &p = P[k]; std::vector<int> v(c.a[0].begin(), c.a[0].end());
      if (!p.go(v)) return true;   // not allowed by the assumptions
      if (p.fail() >= 0) { msg = fmt("%s: assertion number %ld of the run fails on an input its assumptions allow", p.name.c_str(), p.fail()); return false; }
      return true; };
    t.nontrivial = [](const Case &c) { for (auto x : c.a[0]) if (x) return true; return false; };
    R.add(t);
  }
}

int main(int argc, char **argv) {
  Runner R;
  R.setup = [](Runner &R) {
    C[0].open(R.lib + "/lib_plain/libbench_safe.so", "plain"); C[1].open(R.lib + "/lib_plain/libbench_crab.so", "intrinsic");
    LR.open(R.lib + "/lib_plain/libred.so"); LD.open(R.lib + "/lib_plain/libdefault.so"); LI.open(R.lib + "/lib_plain/libint.so"); LS.open(R.lib + "/lib_plain/libsort.so");
    primitives(R); transforms(R); others(R); programs(R);
  };
  return R.main(argc, argv);
}
