// Reference models, written from the definitions in the documentation (no code of the library).
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <vector>

namespace ref {
static const int64_t Q = 12289;

inline int64_t mod(int64_t x) { x %= Q; return x < 0 ? x + Q : x; }
inline int64_t pw(int64_t b, int64_t e) { int64_t r = 1; b = mod(b); e %= (Q - 1); if (e < 0) e += Q - 1; while (e) { if (e & 1) r = r * b % Q; b = b * b % Q; e >>= 1; } return r; }
inline int64_t inv(int64_t x) { return pw(x, Q - 2); }
inline int64_t inv3() { return inv(3); }
inline int64_t centered(int64_t x) { x = mod(x); return x > (Q - 1) / 2 ? x - Q : x; }
inline uint32_t rev(uint32_t i, uint32_t k) { uint32_t x = 0; for (uint32_t j = 0; j < k; j++) { x = (x << 1) | (i & 1); i >>= 1; } return x; }
inline uint32_t lg(uint32_t n) { uint32_t k = 0; while ((1u << k) < n) k++; return k; }

// floor-based Longa-Naehrig reduction over unbounded (128-bit) integers
typedef __int128 I;
inline I red(I x) { I m = x % 4096; if (m < 0) m += 4096; return 3 * m - (x - m) / 4096; }

// a * b modulo X^n + 1 and Q, coefficients anywhere in int32 (schoolbook)
inline std::vector<int32_t> negacyclic(const std::vector<int32_t> &a, const std::vector<int32_t> &b) {
  size_t n = a.size();
  std::vector<int32_t> bb(2 * n);   // bb[n + k] = b[k], bb[k] = -b[k]: c[k] = sum_i a[i] * bb[n + k - i]
  for (size_t i = 0; i < n; i++) { int32_t v = (int32_t)mod(b[i]); bb[n + i] = v; bb[i] = -v; }
  std::vector<int64_t> acc(n, 0);
  for (size_t i = 0; i < n; i++) {
    int32_t x = (int32_t)mod(a[i]);
    if (!x) continue;
    const int32_t *p = &bb[n - i];
    for (size_t k = 0; k < n; k++) acc[k] += (int64_t)(x * p[k]);   // |x * p[k]| < 2^28
  }
  std::vector<int32_t> c(n);
  for (size_t i = 0; i < n; i++) c[i] = (int32_t)mod(acc[i]);
  return c;
}

// all psi with psi^n = -1
inline const std::vector<int64_t> &roots(uint32_t n) {
  static std::map<uint32_t, std::vector<int64_t>> m;
  auto &v = m[n];
  if (v.empty()) for (int64_t x = 1; x < Q; x++) if (pw(x, n) == Q - 1) v.push_back(x);
  return v;
}

enum Kind { STD_OMEGA, REV_OMEGA, STD_MIXED, REV_MIXED };
// p[t + j] = (psi^(n/2t) if mixed) * omega^((n/2t) * (j or bitrev(j))) * factor, for the given psi
inline std::vector<int64_t> table(uint32_t n, int64_t psi, Kind k, int64_t factor = 1) {
  std::vector<int64_t> p(n, 0);
  int64_t om = psi * psi % Q;
  for (uint32_t t = 1; t < n; t <<= 1) {
    int64_t w = pw(om, n / (2 * t)), s = (k == STD_MIXED || k == REV_MIXED) ? pw(psi, n / (2 * t)) : 1;
    std::vector<int64_t> wp(t);
    int64_t x = 1;
    for (uint32_t j = 0; j < t; j++) { wp[j] = x; x = x * w % Q; }
    uint32_t lt = lg(t);
    for (uint32_t j = 0; j < t; j++) {
      uint32_t e = (k == REV_OMEGA || k == REV_MIXED) ? rev(j, lt) : j;
      p[t + j] = mod(s * wp[e] % Q * factor);
    }
  }
  return p;
}

// NTT(a)[i] = sum_j a[j] omega^(ij), by definition (matrix cached per (n, omega))
struct Dft {
  uint32_t n; std::vector<int16_t> m;
  Dft(uint32_t n, int64_t om) : n(n), m((size_t)n * n) {
    std::vector<int16_t> w(n); int64_t x = 1;
    for (uint32_t i = 0; i < n; i++) { w[i] = (int16_t)x; x = x * om % Q; }
    for (uint32_t i = 0; i < n; i++) { uint32_t e = 0; for (uint32_t j = 0; j < n; j++) { m[(size_t)i * n + j] = w[e]; e = (e + i) & (n - 1); } }
  }
  std::vector<int64_t> operator()(const std::vector<int64_t> &a) const {
    std::vector<int32_t> v(n); std::vector<int64_t> r(n);
    for (uint32_t i = 0; i < n; i++) v[i] = (int32_t)mod(a[i]);
    for (uint32_t i = 0; i < n; i++) {
      const int16_t *row = &m[(size_t)i * n]; int64_t s = 0;
      uint32_t j = 0;
      // blocks of 16 products < 2^28 fit 32 unsigned bits
      for (; j + 16 <= n; j += 16) { uint32_t b = 0; for (int k = 0; k < 16; k++) b += (uint32_t)(v[j + k] * row[j + k]) ; s += b; }
      for (; j < n; j++) s += (int64_t)v[j] * row[j];
      r[i] = s % Q;
    }
    return r;
  }
};
inline const Dft &dft(uint32_t n, int64_t om) {
  static std::map<std::pair<uint32_t, int64_t>, std::unique_ptr<Dft>> c;
  static size_t bytes = 0;
  auto &p = c[{n, om}];
  if (!p) {
    if (bytes > (size_t)400 << 20) { c.clear(); bytes = 0; auto &q = c[{n, om}]; q.reset(new Dft(n, om)); bytes += (size_t)n * n * 2; return *q; }
    p.reset(new Dft(n, om)); bytes += (size_t)n * n * 2;
  }
  return *p;
}
}  // namespace ref
namespace ref {
// Recursive decimation-in-time transform: same function as dft(), O(n log n). The harnesses
// cross-check it against the definition.
inline std::vector<int64_t> fft(const std::vector<int64_t> &a, int64_t om) {
  size_t n = a.size();
  if (n == 1) return {mod(a[0])};
  std::vector<int64_t> e(n / 2), o(n / 2);
  for (size_t i = 0; i < n / 2; i++) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
  int64_t o2 = om * om % Q;
  auto E = fft(e, o2), O = fft(o, o2);
  std::vector<int64_t> r(n);
  int64_t w = 1;
  for (size_t k = 0; k < n / 2; k++) {
    int64_t t = w * O[k] % Q;
    r[k] = (E[k] + t) % Q; r[k + n / 2] = (E[k] - t + Q) % Q;
    w = w * om % Q;
  }
  return r;
}
// a / b modulo (X^n + 1, Q); false if b is not invertible
inline bool negacyclic_div(const std::vector<int64_t> &c, const std::vector<int64_t> &b, std::vector<int64_t> &a) {
  size_t n = b.size();
  int64_t psi = roots((uint32_t)n)[0], om = psi * psi % Q, ip = inv(psi), p = 1;
  std::vector<int64_t> x(n), y(n);
  for (size_t i = 0; i < n; i++) { x[i] = mod(c[i]) * p % Q; y[i] = mod(b[i]) * p % Q; p = p * psi % Q; }
  auto X = fft(x, om), Y = fft(y, om);
  for (size_t i = 0; i < n; i++) { if (!Y[i]) return false; X[i] = X[i] * inv(Y[i]) % Q; }
  auto r = fft(X, inv(om));
  int64_t s = inv((int64_t)n);
  a.resize(n);
  for (size_t i = 0; i < n; i++) { a[i] = r[i] * s % Q; s = s * ip % Q; }
  return true;
}
// the polynomial whose psi-twisted transform is X
inline std::vector<int64_t> from_spectrum(const std::vector<int64_t> &X, int64_t psi) {
  size_t n = X.size();
  auto r = fft(X, inv(psi * psi % Q));
  int64_t s = inv((int64_t)n), ip = inv(psi);
  std::vector<int64_t> a(n);
  for (size_t i = 0; i < n; i++) { a[i] = r[i] * s % Q; s = s * ip % Q; }
  return a;
}
}  // namespace ref
