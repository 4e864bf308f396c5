// Adversarial inputs for lazy reduction: red(x * w) is about -x*w/4096 plus up to 12285, so each intermediate value of a transform is
// nearly a linear function of the input. A random intermediate is picked, the linear model is propagated back to the inputs, and each
// input takes the end of its range that pushes the intermediate up (or down).
#pragma once
#include "lib.hpp"
#include <array>
#include <cmath>

namespace adv {
using namespace pbt;
// kind of transform: Cooley-Tukey or Gentleman-Sande, input in bit-reversed order or not, mixed (every block multiplied) or not
struct Form { bool gs, in_rev, mixed; };
// table p (already divided by 3, centred, p[0] unused)
inline std::vector<double> gradient(Rng &r, uint32_t n, Form f, const std::vector<int64_t> &p) {
  uint32_t k = ref::lg(n); uint32_t T = r.chance(1, 4) ? k : (uint32_t)r.in(1, k);   // value after T rounds
  std::vector<double> g(n, 0.0);
  g[(size_t)r.in(0, n - 1)] = 1;
  if (r.chance(1, 6)) { int m = (int)r.in(1, 3); while (m--) g[(size_t)r.in(0, n - 1)] += r.chance(1, 2) ? 1 : -1; }
  for (uint32_t round = T; round-- > 0;) {
    // round `round`: block structure
    uint32_t t, dist; bool strided;   // strided: pairs (s, s+t) with j = s mod t; otherwise pairs (s, s+d), block j at 2dj
    if (!f.gs) { t = 1u << round; dist = f.in_rev ? t : n / (2 * t); strided = f.in_rev; }
    else if (f.in_rev) { dist = 1u << round; t = n / (2 * dist); strided = false; }
    else { t = n >> (round + 1); dist = t; strided = true; }
    for (uint32_t b = 0; b < n / 2; b++) {
      uint32_t s, j;
      if (strided) { s = (b / t) * 2 * t + b % t; j = b % t; }
      else { j = b / dist; s = j * 2 * dist + b % dist; }
      double c = (j == 0 && !f.mixed) ? 1.0 : -(double)p[t + j] / 4096;
      double g0 = g[s], g1 = g[s + dist];
      if (g0 == 0 && g1 == 0) continue;
      if (!f.gs) { g[s] = g0 + g1; g[s + dist] = c * (g0 - g1); }
      else { g[s] = g0 + c * g1; g[s + dist] = g0 - c * g1; }
    }
  }
  return g;
}
inline Arr extreme(Rng &r, uint32_t n, Form f, const std::vector<int64_t> &p, const Arr &lo, const Arr &hi) {
  auto g = gradient(r, n, f, p);
  bool flip = r.chance(1, 2), zero = r.chance(1, 4); int den = r.chance(1, 2) ? 0 : (int)r.in(4, 400);
  Arr x(n);
  for (uint32_t i = 0; i < n; i++) {
    if (g[i] == 0) x[i] = zero ? ((lo[i] <= 0 && hi[i] >= 0) ? 0 : lo[i]) : r.chance(1, 2) ? lo[i] : hi[i];
    else x[i] = (g[i] > 0) != flip ? hi[i] : lo[i];
    if (den && r.chance(1, den)) x[i] = r.in(std::min(lo[i], hi[i]), std::max(lo[i], hi[i]));
  }
  return x;
}
// An operand of a multiplication driven to a chosen magnitude, typically where its product with the multiplier crosses a power of two:
// the aligned input is scaled down, then corrected by simulating the butterflies.
inline Arr scaled(Rng &r, uint32_t n, Form f, const std::vector<int64_t> &p, int64_t lo, int64_t hi) {
  uint32_t k = ref::lg(n), T = (uint32_t)r.in(0, k - 1);
  auto each = [&](uint32_t round, auto fn) {
    uint32_t t, dist; bool strided;
    if (!f.gs) { t = 1u << round; dist = f.in_rev ? t : n / (2 * t); strided = f.in_rev; }
    else if (f.in_rev) { dist = 1u << round; t = n / (2 * dist); strided = false; }
    else { t = n >> (round + 1); dist = t; strided = true; }
    for (uint32_t b = 0; b < n / 2; b++) { uint32_t s, j;
      if (strided) { s = (b / t) * 2 * t + b % t; j = b % t; } else { j = b / dist; s = j * 2 * dist + b % dist; }
      fn(s, s + dist, p[t + j], j == 0 && !f.mixed); } };
  // the butterfly (any, or one with a large multiplier), the linear model of its operand, and the magnitude wanted
  uint32_t U = 0, V = 0; int64_t W = 1; double M = 0, aw = 1, target = 0; std::vector<double> g, L; const double NL = 1e300;
  bool large = r.chance(1, 2); int64_t thr = 6144 - (r.chance(1, 2) ? r.in(0, 30) : r.in(0, 2000)); int what = (int)r.in(0, 5);
  for (int tries = 0; tries < 12; tries++) {
    T = tries == 0 ? T : (uint32_t)r.in(0, k - 1); U = V = 0; int seen = 0; int64_t J = -1;
    if (large && tries < 4) {   // table entries that are large enough and met late enough for the operand to grow
      for (uint32_t q = 0; q < k; q++) { uint32_t t = f.gs ? n >> (q + 1) : 1u << q; double reach = (double)std::max(std::llabs(lo), std::llabs(hi)) * (double)((uint64_t)(f.gs ? 2 : 1) << q);
        for (uint32_t j = f.mixed ? 0 : 1; j < t; j++) { int64_t w = std::llabs(p[t + j]); if (w >= thr && (what > 2 || reach * (double)w >= 2147483648.0) && r.chance(1, ++seen)) { J = t + j; T = q; } } }
      if (J < 0) { thr -= thr / 50; continue; }
    }
    seen = 0; bool first = r.chance(1, 3);
    each(T, [&](uint32_t u, uint32_t v, int64_t w, bool one) { if (one || (J >= 0 && w != p[(size_t)J]) || (first && seen)) return; if (r.chance(1, ++seen)) { U = u; V = v; W = w; } });
    if (U == V) continue;
    g.assign(n, 0.0); g[V] = f.gs ? -1 : 1; if (f.gs) g[U] = 1; L = g;   // L: exact coefficients, NL where a reduction intervenes
    for (uint32_t round = T; round-- > 0;) each(round, [&](uint32_t u, uint32_t v, int64_t w, bool one) {
      double c = one ? 1.0 : -(double)w / 4096, g0 = g[u], g1 = g[v], l0 = L[u], l1 = L[v];
      if (!f.gs) { g[u] = g0 + g1; g[v] = c * (g0 - g1); L[u] = l0 == NL || l1 == NL ? NL : l0 + l1; L[v] = l0 == NL || l1 == NL ? NL : one ? l0 - l1 : l0 == 0 && l1 == 0 ? 0 : NL; }
      else { g[u] = g0 + c * g1; g[v] = g0 - c * g1; if (l0 == NL || l1 == NL || (!one && l1 != 0)) L[u] = L[v] = NL; else { L[u] = l0 + l1; L[v] = l0 - l1; } } });
    M = 0; for (auto x : g) M += std::abs(x) * (double)std::max(std::llabs(lo), std::llabs(hi));
    aw = (double)std::max<int64_t>(1, std::llabs(W));
    switch (what) { case 0: case 1: case 2: target = (double)((int64_t)1 << 31) / aw; break; case 3: target = (double)((int64_t)1 << r.in(26, 36)) / aw; break; case 4: target = (double)((int64_t)1 << r.in(12, 24)); break; default: target = M * (double)r.in(1, 1000) / 1000; }
    if (target <= M) break;
  }
  if (U == V) return gen_vec(r, n, lo, hi, {lo, hi});
  bool flip = r.chance(1, 2);
  target *= 1 + (double)r.in(-1000, 1000) / (r.chance(1, 2) ? 1e6 : 1e5);
  if (r.chance(1, 4)) target += 100 / aw;
  double l = M > 0 ? std::min(1.0, target / M) : 1; if (flip) target = -target;
  Arr x(n); auto clamp = [&](double v) { return std::max(lo, std::min(hi, (int64_t)std::llround(v))); };
  for (uint32_t i = 0; i < n; i++) { double m = (double)std::max(std::llabs(lo), std::llabs(hi)) * l; x[i] = g[i] == 0 ? (r.chance(1, 2) ? 0 : clamp((double)r.in(lo, hi) * l)) : clamp((g[i] > 0) != flip ? m : -m); }
  auto value = [&](const Arr &a) { Arr y(a);
    for (uint32_t round = 0; round < T; round++) each(round, [&](uint32_t u, uint32_t v, int64_t w, bool one) {
      auto mr = [&](int64_t z) { if (one) return z; z *= w; return 3 * (z & 4095) - (z >> 12); };
      int64_t A = y[u], B = y[v]; if (!f.gs) { B = mr(B); y[u] = A + B; y[v] = A - B; } else { y[u] = A + B; y[v] = mr(A - B); } });
    return f.gs ? y[U] - y[V] : y[V]; };
  double err = target - (double)value(x); int m = n <= 128 ? 24 : 10;
  double l0 = 0, l1 = 1;   // the scale at which the operand has the magnitude wanted, by bisection
  for (int it = 0; it < 14 && std::abs(err) > 3; it++) { double lm = it == 0 ? 1 : (l0 + l1) / 2; Arr y(n);
    for (uint32_t i = 0; i < n; i++) { double q = (double)std::max(std::llabs(lo), std::llabs(hi)) * lm; y[i] = g[i] == 0 ? x[i] : clamp((g[i] > 0) != flip ? q : -q); }
    double v = (double)value(y), e = target - v; if (std::abs(e) < std::abs(err)) { err = e; x = y; }
    if (it == 0) { if (std::abs(v) < std::abs(target)) break; } else if (std::abs(v) > std::abs(target) && (v > 0) == (target > 0)) l1 = lm; else l0 = lm; }
  for (int it = 0; it < m && std::abs(err) > 3 && std::abs(err) < 0.3 * std::abs(target) + 30000; it++) { Arr y(x); int c = (int)r.in(1, 4);
    double share = err / c; while (c--) { uint32_t i = (uint32_t)r.in(0, n - 1); if (std::abs(g[i]) > 1e-9) y[i] = clamp((double)y[i] + share / g[i]); }
    double e = target - (double)value(y); if (std::abs(e) < std::abs(err)) { err = e; x = y; } }
  if (err != 0) for (uint32_t i = 0, o = (uint32_t)r.in(0, n - 1); i < n && err != 0; i++) { uint32_t q = (i + o) % n; if (L[q] == NL || L[q] == 0) continue; int64_t z = clamp((double)x[q] + std::round(err / L[q])); err -= (double)(z - x[q]) * L[q]; x[q] = z; }
  return x;
}
inline std::vector<int64_t> table(uint32_t n, int64_t psi, Form f) {
  // Cooley-Tukey from standard order and Gentleman-Sande from reversed order read the table in reversed order
  bool rv = f.gs ? f.in_rev : !f.in_rev;
  auto t = ref::table(n, psi, f.mixed ? (rv ? ref::REV_MIXED : ref::STD_MIXED) : (rv ? ref::REV_OMEGA : ref::STD_OMEGA), ref::inv3());
  for (auto &x : t) x = ref::centered(x);
  return t;
}
// an intermediate state of an exact transform chosen freely: the rounds are invertible modulo Q, so there is an input that reaches it.
// p: table of powers modulo Q (not scaled). The state is special values, or multiplicands whose products in the next round are special.
inline Arr from_state(Rng &r, uint32_t n, Form f, const std::vector<int64_t> &p, uint32_t *rounds = nullptr, Arr *state = nullptr) {
  static const int64_t Q = ref::Q;
  static std::vector<int64_t> inv; if (inv.empty()) { inv.assign((size_t)Q, 0); inv[1] = 1; for (int64_t i = 2; i < Q; i++) inv[(size_t)i] = (Q - (Q / i) * inv[(size_t)(Q % i)] % Q) % Q; }
  static const std::vector<int64_t> sp = {0, 1, 2, 4095, 4096, 6144, 6145, 8191, 8192, 12287, 12288};
  uint32_t k = ref::lg(n), T = (uint32_t)r.in(0, k);
  Arr x = gen_vec(r, n, 0, Q - 1, sp);
  auto each = [&](uint32_t round, auto fn) {
    uint32_t t, dist; bool strided;
    if (!f.gs) { t = 1u << round; dist = f.in_rev ? t : n / (2 * t); strided = f.in_rev; }
    else if (f.in_rev) { dist = 1u << round; t = n / (2 * dist); strided = false; }
    else { t = n >> (round + 1); dist = t; strided = true; }
    for (uint32_t b = 0; b < n / 2; b++) { uint32_t s, j;
      if (strided) { s = (b / t) * 2 * t + b % t; j = b % t; } else { j = b / dist; s = j * 2 * dist + b % dist; }
      fn(s, s + dist, (j == 0 && !f.mixed) ? (int64_t)1 : ref::mod(p[t + j])); } };
  if (T < k && r.chance(1, 2)) {   // operands of round T: the product, the sum or the difference is special
    int64_t c = r.pick(sp); bool same = r.chance(1, 2); int den = (int)r.in(1, 8);
    each(T, [&](uint32_t u, uint32_t v, int64_t w) {
      if (!r.chance(1, den)) return; int64_t z = same ? c : r.pick(sp);
      if (!f.gs) { x[v] = z * inv[(size_t)w] % Q; int64_t m = r.in(0, 4); if (m == 0) x[u] = z; if (m == 1) x[u] = ref::mod(-z); if (m == 2) x[u] = ref::mod(-z - 1); if (m == 3) x[u] = ref::mod(z - 1); }
      else { int64_t d = z * inv[(size_t)w] % Q; if (r.chance(1, 2)) x[u] = ref::mod(x[v] + d); else x[u] = ref::mod(z - x[v]); } });
  }
  if (rounds) { *rounds = T; *state = x; }
  int64_t h = (Q + 1) / 2;
  for (uint32_t round = T; round-- > 0;) each(round, [&](uint32_t u, uint32_t v, int64_t w) {
    int64_t A = x[u], B = x[v], wi = inv[(size_t)w];
    if (!f.gs) { x[u] = (A + B) * h % Q; x[v] = (A - B + Q) * h % Q * wi % Q; }
    else { B = B * wi % Q; x[u] = (A + B) * h % Q; x[v] = (A - B + Q) * h % Q; } });
  return x;
}
inline std::vector<int64_t> exact_table(uint32_t n, int64_t psi, Form f) {
  bool rv = f.gs ? f.in_rev : !f.in_rev;
  return ref::table(n, psi, f.mixed ? (rv ? ref::REV_MIXED : ref::STD_MIXED) : (rv ? ref::REV_OMEGA : ref::STD_OMEGA), 1);
}
// factors of a product such that a forward transform, or the inverse one, passes through a chosen state
inline std::array<Arr, 2> product_states(Rng &r, uint32_t n) {
  static const int64_t Q = ref::Q;
  int64_t psi = n == 16 ? 1212 : n == 256 ? 1002 : n == 512 ? 1003 : 1014; uint32_t k = ref::lg(n);
  auto un = [&](Arr &a, int64_t w) { int64_t z = 1; for (auto &x : a) { x = x * z % Q; z = z * w % Q; } };
  auto one = [&]() -> Arr {
    bool gs = r.chance(1, 3), mixed = !gs && r.chance(1, 2), rev = r.chance(1, 6); Form f = {gs, rev, mixed};
    Arr a = from_state(r, n, f, exact_table(n, psi, f));
    if (rev) { Arr b(a); for (uint32_t i = 0; i < n; i++) a[i] = b[ref::rev(i, k)]; }
    if (!mixed) un(a, ref::inv(psi));
    return a; };
  if (r.chance(1, 2)) {
    bool gs = r.chance(1, 2), mixed = gs && r.chance(1, 2), rev = !r.chance(1, 6); Form f = {gs, rev, mixed};
    Arr X = from_state(r, n, f, exact_table(n, ref::inv(psi), f)), Y(n);
    int64_t s = r.chance(1, 2) ? 1 : ref::inv((int64_t)n);
    for (uint32_t i = 0; i < n; i++) { Y[i] = r.in(1, Q - 1); X[i] = X[i] * s % Q * ref::inv(Y[i]) % Q; }
    if (rev) { Arr Z(X), W(Y); for (uint32_t i = 0; i < n; i++) { X[i] = Z[ref::rev(i, k)]; Y[i] = W[ref::rev(i, k)]; } }
    return {ref::from_spectrum(X, psi), ref::from_spectrum(Y, psi)};
  }
  Arr a = one(), b = r.chance(1, 4) ? a : r.chance(1, 2) ? one() : gen_vec(r, n, 0, Q - 1, {0, Q - 1, 1, 6144, 6145});
  return {a, b};
}
// factors in [0, Q-1] for a product: the forward transform of a factor, or the inverse transform of the pointwise product, driven to an extreme
inline std::array<Arr, 2> product_pair(Rng &r, uint32_t n) {
  static const int64_t Q = ref::Q;
  int64_t psi = n == 16 ? 1212 : n == 256 ? 1002 : n == 512 ? 1003 : 1014;
  struct Ext { Arr lo, hi; };
  static std::map<std::pair<uint32_t, bool>, Ext> ext;   // arguments of the least and greatest red(a * psi^i / 3), a in [0, Q-1] or centred
  auto one = [&]() -> Arr {
    bool shifted = r.chance(1, 2), gs = r.chance(1, 2), mixed = !gs && r.chance(1, 2), rev = r.chance(1, 8);
    Form f = {gs, rev, mixed};
    auto p = table(n, psi, f);
    if (mixed && r.chance(1, 3)) { Arr a = scaled(r, n, f, p, shifted ? -6144 : 0, shifted ? 6144 : Q - 1); for (auto &x : a) x = ref::mod(x); return a; }
    if (mixed) return shifted ? extreme(r, n, f, p, Arr(n, 6145), Arr(n, 6144)) : extreme(r, n, f, p, Arr(n, 0), Arr(n, Q - 1));
    auto &e = ext[{n, shifted}];
    if (e.lo.empty()) {
      int64_t w = ref::inv3(); e.lo.resize(n); e.hi.resize(n);
      for (uint32_t i = 0; i < n; i++, w = w * psi % Q) {
        int64_t c = ref::centered(w), lo = INT64_MAX, hi = INT64_MIN;
        for (int64_t a = 0; a < Q; a++) { int64_t z = (shifted ? ref::centered(a) : a) * c, v = 3 * (z & 4095) - (z >> 12); if (v < lo) { lo = v; e.lo[i] = a; } if (v > hi) { hi = v; e.hi[i] = a; } }
      }
    }
    return extreme(r, n, f, p, e.lo, e.hi);
  };
  if (r.chance(1, 2)) {   // a chosen pointwise product, hence a chosen input of the inverse transform
    bool gs = r.chance(1, 2), mixed = gs && r.chance(1, 2), rev = !r.chance(1, 8); Form f = {gs, rev, mixed};
    auto p = table(n, ref::inv(psi), f);
    Arr X = r.chance(1, 4) ? scaled(r, n, f, p, -130, 12413) : extreme(r, n, f, p, Arr(n, r.pick({0, 0, 124, 129, 1, -130})), Arr(n, r.pick({Q - 1, Q - 1, 12413, 12159, 6144}))), Y(n);
    int64_t s = ref::pw(ref::inv3(), r.chance(1, 2) ? 5 : r.in(0, 10)); uint32_t k = ref::lg(n);
    for (uint32_t i = 0; i < n; i++) { Y[i] = r.in(1, Q - 1); X[i] = ref::mod(X[i]) * s % Q * ref::inv(Y[i]) % Q; }
    // X is in the order the inverse reads; the spectrum is indexed in standard order
    if (rev) { Arr Z(X), W(Y); for (uint32_t i = 0; i < n; i++) { X[i] = Z[ref::rev(i, k)]; Y[i] = W[ref::rev(i, k)]; } }
    return {ref::from_spectrum(X, psi), ref::from_spectrum(Y, psi)};
  }
  Arr a = one(), b = r.chance(1, 4) ? a : r.chance(1, 2) ? one() : gen_vec(r, n, 0, Q - 1, {0, Q - 1, 1, 6144, 6145});
  return {a, b};
}
}  // namespace adv
