// C27: no overflow in lazy reduction. Inputs are driven to the extremes by hill climbing on the uninstrumented library, then run in a
// build that stops on assertion failures, signed overflow, bad shifts and value-changing conversions; results are also compared with the
// documented transform or product, since a wrapped intermediate is off by a multiple of 2^32, which is not 0 modulo Q.
#include "adv.hpp"
using namespace pbt;
static const int64_t Q = ref::Q;
struct Spec { const char *name; int kind; bool in_rev, out_rev, pre, post; };
static const Spec S[] = {
  {"ntt_red_ct_rev2std", ref::STD_OMEGA, true, false, false, false},
  {"mulntt_red_ct_rev2std", ref::STD_MIXED, true, false, true, false},
  {"ntt_red_ct_std2rev", ref::REV_OMEGA, false, true, false, false},
  {"mulntt_red_ct_std2rev", ref::REV_MIXED, false, true, true, false},
  {"ntt_red_gs_rev2std", ref::REV_OMEGA, true, false, false, false},
  {"nttmul_red_gs_rev2std", ref::REV_MIXED, true, false, false, true},
  {"ntt_red_gs_std2rev", ref::STD_OMEGA, false, true, false, false},
  {"nttmul_red_gs_std2rev", ref::STD_MIXED, false, true, false, true},
};
static ntt16s_f *FP[8], *FO[8];
static arr_f *redP, *redO; static mul_f *mulO; static ntt16s_f *mul16P, *mul16O; static prod_f *PO[4][5];

static std::vector<int64_t> expect(const Spec &s, uint32_t n, int64_t psi, const std::vector<int64_t> &a) {
  uint32_t k = ref::lg(n); int64_t om = psi * psi % Q;
  std::vector<int64_t> x(n);
  for (uint32_t i = 0; i < n; i++) x[s.in_rev ? ref::rev(i, k) : i] = ref::mod(a[i]);
  if (s.pre) { int64_t p = 1; for (auto &v : x) { v = v * p % Q; p = p * psi % Q; } }
  auto X = ref::fft(x, om);
  if (s.post) { int64_t p = 1; for (auto &v : X) { v = v * p % Q; p = p * psi % Q; } }
  if (!s.out_rev) return X;
  std::vector<int64_t> y(n);
  for (uint32_t i = 0; i < n; i++) y[i] = X[ref::rev(i, k)];
  return y;
}
static std::vector<int16_t> table(const Spec &s, uint32_t n, int64_t psi) {
  auto t = ref::table(n, psi, (ref::Kind)s.kind, ref::inv3());
  std::vector<int16_t> p(n, 0);
  for (uint32_t i = 1; i < n; i++) p[i] = (int16_t)ref::centered(t[i]);
  return p;
}
// choose, for each position, one of two values so that an output of f(pre(x)) becomes as large or small as possible
static Arr climb(Rng &r, uint32_t n, const Arr &lo, const Arr &hi, ntt16s_f *f, const int16_t *p, const int16_t *psi, int passes) {
  std::vector<int32_t> x(n), w(n); std::vector<char> s(n);
  int pat = (int)r.in(0, 5); uint32_t m = (uint32_t)r.in(0, n - 1);
  for (uint32_t i = 0; i < n; i++) s[i] = pat == 0 ? 1 : pat == 1 ? 0 : pat == 2 ? (char)(r.next() & 1) : (char)(__builtin_popcount(i & m) & 1);   // Walsh rows
  int64_t sign = r.chance(1, 2) ? 1 : -1; int64_t idx = r.chance(1, 3) ? -1 : r.chance(1, 3) ? 0 : r.in(0, n - 1);
  auto eval = [&] {
    for (uint32_t i = 0; i < n; i++) w[i] = x[i];
    if (psi) mul16P(w.data(), n, psi);
    f(w.data(), n, p);
    if (idx >= 0) return sign * (int64_t)w[(size_t)idx];
    int64_t best = 0; for (auto v : w) best = std::max<int64_t>(best, std::llabs((int64_t)v)); return best;
  };
  for (uint32_t i = 0; i < n; i++) x[i] = (int32_t)(s[i] ? hi[i] : lo[i]);
  int64_t best = eval();
  if (passes == 0) return Arr(x.begin(), x.end());
  for (int pass = 0; pass < passes; pass++) {
    int64_t before = best;
    uint32_t st = (uint32_t)r.in(0, n - 1) | 1, c = (uint32_t)r.in(0, n - 1);
    for (uint32_t k = 0; k < n; k++) {
      c = (c + st) & (n - 1);
      int32_t old = x[c]; x[c] = (int32_t)(old == hi[c] ? lo[c] : hi[c]);
      int64_t v = eval();
      if (v >= best) best = v; else x[c] = old;
    }
    if (best == before) break;
  }
  return Arr(x.begin(), x.end());
}

int main(int argc, char **argv) {
  Runner R;
  static Lib P, O;
  R.setup = [](Runner &R) {
    std::string base = R.lib;
    P.open(base + "/lib_plain/libred.so"); O.open(base + "/lib_ov/libred.so");
    for (int i = 0; i < 8; i++) { FP[i] = P.fn<ntt16s_f>(S[i].name); FO[i] = O.fn<ntt16s_f>(S[i].name); }
    redP = P.fn<arr_f>("reduce_array"); redO = O.fn<arr_f>("reduce_array"); mulO = O.fn<mul_f>("mul_reduce_array");
    mul16P = P.fn<ntt16s_f>("mul_reduce_array16"); mul16O = O.fn<ntt16s_f>("mul_reduce_array16");
    for (int i = 0; i < 4; i++) for (int v = 0; v < 5; v++) PO[i][v] = O.fn<prod_f>("ntt_red" + std::to_string(SIZES[(size_t)i]) + "_product" + std::to_string(v + 1));
    static const std::vector<int64_t> SPS = {0, 21499, -21499, 21498, -21498, 12288, -12288, 4096, -4096, 4095, 20480, -20480};

    // one transform (scalars n, psi, variant; array x), then the composition: reduce once, multiply with itself
    auto run = [](const Case &c, std::string &msg) {
      uint32_t n = (uint32_t)c.s[0]; int64_t psi = c.s[1]; auto &s = S[c.s[2]];
      auto p = table(s, n, psi);
      std::vector<int32_t> a(n), d(n);
      for (uint32_t i = 0; i < n; i++) a[i] = (int32_t)c.a[0][i];
      FO[c.s[2]](a.data(), n, p.data());
      auto w = expect(s, n, psi, c.a[0]);
      for (uint32_t i = 0; i < n; i++) if (ref::mod(a[i]) != w[i]) { msg = fmt("%s (n = %u, psi = %d): output %u is %d, not congruent to %d: an intermediate wrapped", s.name, n, (int)psi, i, a[i], (int)w[i]); return false; }
      redO(a.data(), n);
      for (uint32_t i = 0; i < n; i++) { if (ref::mod(a[i]) != w[i] * 3 % Q || a[i] < -524287 || a[i] > 536573) { msg = fmt("%s (n = %u, psi = %d): reduced output %u is %d", s.name, n, (int)psi, i, a[i]); return false; } }
      mulO(d.data(), n, a.data(), a.data());
      for (uint32_t i = 0; i < n; i++) if (ref::mod(d[i]) != w[i] * w[i] % Q * 27 % Q) { msg = fmt("%s (n = %u, psi = %d): square of output %u, reduced, is %d", s.name, n, (int)psi, i, d[i]); return false; }
      return true;
    };
    auto valid = [](const Case &c) {
      if (c.s.size() != 3 || c.a.size() != 1) return false;
      int64_t n = c.s[0];
      if (n < 2 || n > 2048 || (n & (n - 1)) || (int64_t)c.a[0].size() != n || c.s[1] < 2 || c.s[1] >= Q || ref::pw(c.s[1], n) != Q - 1 || c.s[2] < 0 || c.s[2] > 7) return false;
      for (auto x : c.a[0]) if (x < -21499 || x > 21499) return false;
      return true;
    };
    auto nt = [](const Case &c) { for (auto &v : c.a) for (auto x : v) if (x) return true; return false; };
    auto mk = [=, &R](const char *name, uint64_t quick, int passes, std::function<uint32_t(Rng &)> size) {
      Target t; t.name = name; t.quick = quick; t.thorough = quick * 40; t.run = run; t.valid = valid; t.nontrivial = nt; t.evals = [](const Case &) { return (uint64_t)3; };
      t.gen = [=](Rng &r) {
        uint32_t n = size(r); auto &ro = ref::roots(n); int64_t psi = ro[(size_t)r.in(0, (int64_t)ro.size() - 1)]; int64_t v = r.in(0, 7);
        Case c; c.s = {n, psi, v};
        if (passes == -2) {
          adv::Form f = {v >= 4, S[v].in_rev, S[v].pre || S[v].post}; int64_t lo = r.pick({-21499, -21499, -21499, 0, -6144, -12288}), hi = r.pick({21499, 21499, 21499, 6144, 12288});
          c.a = {adv::extreme(r, n, f, adv::table(n, psi, f), Arr(n, lo), Arr(n, hi))}; return c; }
        if (passes < 0) { c.a = {gen_vec(r, n, -21499, 21499, SPS)}; return c; }
        auto p = table(S[v], n, psi);
        Arr lo(n, -21499), hi(n, 21499);
        if (r.chance(1, 4)) lo.assign(n, 0);
        c.a = {climb(r, n, lo, hi, FP[v], p.data(), nullptr, passes)};
        return c; };
      R.add(t);
    };
    mk("patterns", 60000, -1, [](Rng &r) { return 1u << r.in(1, 11); });
    mk("gradient", 60000, -2, [](Rng &r) { return 1u << r.in(1, 11); });
    mk("walsh", 60000, 0, [](Rng &r) { return 1u << r.in(1, 11); });
    mk("climb_small", 60000, 3, [](Rng &r) { return 1u << r.in(1, 7); });
    mk("climb_medium", 4000, 2, [](Rng &r) { return 1u << r.in(8, 9); });
    mk("climb_large", 1000, 2, [](Rng &r) { return 1u << r.in(10, 11); });
    {  // every root with the extreme rows
      Target t; t.name = "every_root"; t.enumerated = true; t.run = run; t.valid = valid; t.nontrivial = nt; t.evals = [](const Case &) { return (uint64_t)3; };
      static std::vector<std::pair<uint32_t, int64_t>> all;
      for (uint32_t k = 1; k <= 11; k++) for (auto psi : ref::roots(1u << k)) all.push_back({1u << k, psi});
      t.quick = all.size() * 8; t.thorough = all.size() * 80;
      t.genx = [](uint64_t i) { Case c; uint64_t rep = i / (all.size() * 8); int64_t v = (int64_t)(i % 8); auto &x = all[(i / 8) % all.size()]; Rng r(i * 7919 + rep);
        auto p = table(S[v], x.first, x.second);
        c.s = {x.first, x.second, v}; c.a = {climb(r, x.first, Arr(x.first, -21499), Arr(x.first, 21499), FP[v], p.data(), nullptr, rep || x.first <= 64 ? 1 : 0)}; return c; };
      R.add(t);
    }
    // whole products: both factors driven to extremes after the multiplication by the powers of psi, or a chosen pointwise product
    for (int i = 0; i < 4; i++) {
      uint32_t n = (uint32_t)SIZES[(size_t)i];
      static const int64_t PSI[] = {1212, 1002, 1003, 1014};
      int64_t psi = PSI[i];
      Target t; t.name = "product" + std::to_string(n); t.quick = n == 16 ? 40000 : n == 256 ? 6000 : n == 512 ? 4000 : 2400; t.thorough = t.quick * 30;
      t.nontrivial = nt; t.evals = [](const Case &) { return (uint64_t)5; };
      t.valid = [n](const Case &c) { if (c.a.size() != 2) return false; for (auto &v : c.a) { if (v.size() != n) return false; for (auto x : v) if (x < 0 || x >= Q) return false; } return true; };
      t.gen = [n, psi](Rng &r) {
        Case c;
        if (r.chance(1, 2)) { auto x = adv::product_pair(r, n); c.a = {x[0], x[1]}; return c; }
        // the value that red(a * psi^i / 3) takes for the best and worst a in [0, Q-1]
        static std::map<uint32_t, std::array<Arr, 2>> ext; static std::map<uint32_t, std::vector<int16_t>> pw;
        auto &e = ext[n]; auto &pp = pw[n];
        if (e[0].empty()) {
          int64_t w = 1; pp.resize(n); e[0].resize(n); e[1].resize(n);
          for (uint32_t i = 0; i < n; i++) { pp[i] = (int16_t)ref::centered(w * ref::inv3()); w = w * psi % Q;
            int64_t lo = INT64_MAX, hi = INT64_MIN;
            for (int64_t a = 0; a < Q; a++) { int64_t z = a * pp[i], v = 3 * (z & 4095) - (z >> 12); if (v < lo) { lo = v; e[0][i] = a; } if (v > hi) { hi = v; e[1][i] = a; } } }
        }
        auto one = [&]() {
          int v = (int)r.in(0, 7); auto p = table(S[v], n, r.chance(1, 2) ? psi : ref::inv(psi));
          bool pre = !S[v].pre;
          int passes = n == 16 ? 2 : r.chance(1, 10) ? 1 : 0;
          if (pre) return climb(r, n, e[0], e[1], FP[v], p.data(), pp.data(), passes);
          return climb(r, n, Arr(n, 0), Arr(n, Q - 1), FP[v], p.data(), nullptr, passes);
        };
        if (r.chance(1, 3)) {   // the pointwise product takes chosen values: those of the sign pattern, times a power of 3
          Arr lo(n, 0), hi(n, r.pick({Q - 1, Q - 1, 124, 12159, 6144})), X, Y(n);
          int v = (int)r.in(0, 7); auto p = table(S[v], n, r.chance(1, 2) ? psi : ref::inv(psi));
          X = climb(r, n, lo, hi, FP[v], p.data(), nullptr, n == 16 ? 2 : 0);
          int64_t f = ref::pw(ref::inv3(), r.in(0, 10));
          for (uint32_t i = 0; i < n; i++) { Y[i] = r.in(1, Q - 1); X[i] = X[i] * f % Q * ref::inv(Y[i]) % Q; }
          if (r.chance(1, 2)) { uint32_t k = ref::lg(n); Arr Z(X), W(Y); for (uint32_t i = 0; i < n; i++) { X[i] = Z[ref::rev(i, k)]; Y[i] = W[ref::rev(i, k)]; } }
          c.a = {ref::from_spectrum(X, psi), ref::from_spectrum(Y, psi)};
          return c;
        }
        c.a = {one(), r.chance(1, 2) ? one() : gen_vec(r, n, 0, Q - 1, {0, Q - 1, 1, 6144})};
        if (r.chance(1, 4)) c.a[1] = c.a[0];
        return c; };
      t.run = [n, i](const Case &c, std::string &msg) {
        std::vector<int32_t> a(c.a[0].begin(), c.a[0].end()), b(c.a[1].begin(), c.a[1].end());
        auto want = ref::negacyclic(a, b);
        for (int v = 0; v < 5; v++) {
          auto x = a, y = b; std::vector<int32_t> d(n, 77);
          PO[i][v](d.data(), x.data(), y.data());
          for (uint32_t k = 0; k < n; k++) if (d[k] != want[k]) { msg = fmt("ntt_red%u_product%d: coefficient %u is %d, the product has %d", n, v + 1, k, d[k], want[k]); return false; }
        }
        return true; };
      R.add(t);
    }
  };
  return R.main(argc, argv);
}
