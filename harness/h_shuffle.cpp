// C17: the generic and the table-driven bit-reversal shuffles, both copies.
#include "lib.hpp"
using namespace pbt;

int main(int argc, char **argv) {
  Runner R;
  static Lib L[2];
  R.setup = [](Runner &R) {
    L[0].open(R.lib + "/libdefault.so"); L[1].open(R.lib + "/libnaive.so");
    static arr_f *sh[2]; static shuf_f *st[2];
    for (int i = 0; i < 2; i++) { sh[i] = L[i].fn<arr_f>("bitrev_shuffle"); st[i] = L[i].fn<shuf_f>("shuffle_with_table"); }
    static const char *nm[] = {"bitrev_shuffle (ntt.c)", "bitrev_shuffle (naive_ntt.c)", "shuffle_with_table (ntt.c)", "shuffle_with_table (naive_ntt.c)"};
    auto run = [](const Case &c, std::string &msg) {   // scalars: function (-1 all), offset, order of the table's pairs
      uint32_t n = (uint32_t)c.a[0].size(), k = ref::lg(n);
      for (int f = 0; f < 4; f++) {
        if (c.s[0] >= 0 && c.s[0] != f) continue;
        if (f >= 2 && n > 65536) continue;
        std::vector<int32_t> m(n + 32, 0x5a5a5a5a);
        int32_t *a = m.data() + 8 + c.s[1];
        for (uint32_t i = 0; i < n; i++) a[i] = (int32_t)c.a[0][i];
        std::vector<std::array<uint16_t, 2>> t;
        if (f >= 2) {
          for (uint32_t i = 0; i < n; i++) { uint32_t j = ref::rev(i, k); if (i < j) t.push_back({(uint16_t)i, (uint16_t)j}); }
          if (c.s[2]) { Rng r((uint64_t)c.s[2]); for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[(size_t)r.in(0, (int64_t)i - 1)]); }
        }
        auto go = [&] { if (f < 2) sh[f](a, n); else st[f - 2](a, (const uint16_t(*)[2])t.data(), (uint32_t)t.size()); };
        go();
        for (uint32_t i = 0; i < n; i++) if (a[ref::rev(i, k)] != (int32_t)c.a[0][i]) { msg = fmt("%s, n = %u: element %u is not at the reversed index %u", nm[f], n, i, ref::rev(i, k)); return false; }
        go();
        for (uint32_t i = 0; i < n; i++) if (a[i] != (int32_t)c.a[0][i]) { msg = fmt("%s, n = %u: applied twice is not the identity at %u", nm[f], n, i); return false; }
        for (int32_t *q = m.data(); q < m.data() + m.size(); q++) if ((q < a || q >= a + n) && *q != 0x5a5a5a5a) { msg = fmt("%s, n = %u: wrote outside the array", nm[f], n); return false; }
      }
      return true; };
    auto valid = [](const Case &c) { size_t n = c.a[0].size(); if (n < 1 || n > 1u << 20 || (n & (n - 1)) || c.s[0] < -1 || c.s[0] > 3 || c.s[1] < 0 || c.s[1] > 15) return false; for (auto x : c.a[0]) if (x < INT32_MIN || x > INT32_MAX) return false; return true; };
    auto shr = [](const Case &c) { std::vector<Case> v; if (c.s[0] < 0) for (int k = 0; k < 4; k++) { Case d = c; d.s[0] = k; v.push_back(d); }
      Case d = c; d.a[0].resize(c.a[0].size() / 2); v.push_back(d); return v; };
    Target t; t.name = "sizes"; t.enumerated = true; t.quick = 21 * 2; t.thorough = 21 * 8;
    t.genx = [](uint64_t i) { Case c; Arr a(1u << (i % 21)); for (size_t k = 0; k < a.size(); k++) a[k] = i < 21 ? (int64_t)k : (int64_t)(int32_t)(k * 2654435761u + i); c.a = {a}; c.s = {-1, (int64_t)(i % 16), (int64_t)(i / 21)}; return c; };
    t.run = run; t.valid = valid; t.shrinkers = shr; t.evals = [](const Case &) { return (uint64_t)4; }; t.nontrivial = [](const Case &c) { return c.a[0].size() > 2; };
    R.add(t);
    Target u = t; u.enumerated = false; u.genx = nullptr; u.name = "contents"; u.quick = 60000; u.thorough = 1500000;
    u.gen = [](Rng &r) { Case c; size_t n = (size_t)1 << (r.chance(1, 30) ? r.in(0, 16) : r.in(0, 11)); c.a = {r.chance(1, 2) ? gen_vec(r, n, INT32_MIN, INT32_MAX, {0, 1, -1, INT32_MIN, INT32_MAX, 12288}) : Arr(n)};
      if (c.a[0][0] == 0) for (size_t i = 0; i < n; i++) c.a[0][i] = (int64_t)(int32_t)(i * 2654435761u);
      c.s = {-1, r.in(0, 15), r.chance(1, 2) ? 0 : r.in(1, 1000000)}; return c; };
    R.add(u);
  };
  return R.main(argc, argv);
}
