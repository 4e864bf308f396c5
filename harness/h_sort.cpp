// C26: the sort of the measurement programs, both copies. Oracle: std::sort, plus guard pages and canaries.
#include "lib.hpp"
using namespace pbt;
typedef void sort_f(uint64_t *, uint32_t);
static sort_f *F[2];

// what a quicksort with the middle element as pivot may need: bound the cost so that a slow but right input is not mistaken for a hang
int main(int argc, char **argv) {
  Runner R;
  static Lib L, B;
  R.setup = [](Runner &R) {
    L.open(R.lib + "/libsort.so"); B.open(R.lib + "/libbsort.so");
    F[0] = (sort_f *)L.sym("sort"); F[1] = (sort_f *)B.sym("sort");
    auto run = [](const Case &c, std::string &msg) {
      size_t n = c.a[0].size();
      std::vector<uint64_t> want(n);
      for (size_t i = 0; i < n; i++) want[i] = (uint64_t)c.a[0][i];
      std::vector<uint64_t> in = want;
      std::sort(want.begin(), want.end());
      for (int k = 0; k < 2; k++) {
        Buf b(n * 8, (int)c.s[0], (size_t)c.s[1] * 8);
        uint64_t *p = b.as<uint64_t>();
        // neighbours that would be taken for smaller or larger elements
        char *lo = (char *)b.base + 4096, *hi = (char *)b.base + b.len - 4096;
        int fill = (int)c.s[2];
        memset(lo, fill, (size_t)((char *)p - lo)); memset((char *)(p + n), fill, (size_t)(hi - (char *)(p + n)));
        for (size_t i = 0; i < n; i++) p[i] = in[i];
        F[k](p, (uint32_t)n);
        const char *nm = k ? "the benchmarks' sort" : "sort";
        for (char *q = lo; q < hi; q++) if ((q < (char *)p || q >= (char *)(p + n)) && *q != (char)fill) { msg = fmt("%s wrote outside its array (n = %zu)", nm, n); return false; }
        for (size_t i = 0; i < n; i++) if (p[i] != want[i]) {
          msg = fmt("%s: n = %zu, element %zu is %" PRIu64 ", expected %" PRIu64, nm, n, i, p[i], want[i]); return false; }
      }
      return true;
    };
    auto common = [=](Target &t) {
      t.run = run;
      t.valid = [](const Case &c) { return c.s.size() == 3 && c.a.size() == 1 && c.s[0] >= -1 && c.s[0] <= 1 && c.s[1] >= 0 && c.s[1] <= 16 && c.s[2] >= 0 && c.s[2] <= 255; };
      t.nontrivial = [](const Case &c) { return c.a[0].size() > 1; };
      t.evals = [](const Case &) { return (uint64_t)2; };
      t.shrinkers = [](const Case &c) { std::vector<Case> v; size_t n = c.a[0].size();
        for (size_t w = n; w >= 1; w /= 2) for (size_t i = 0; i < n && v.size() < 400; i += w) { Case d = c; auto &x = d.a[0]; x.erase(x.begin() + (long)i, x.begin() + (long)std::min(n, i + w)); v.push_back(d); }
        return v; };
    };
    // every array of length <= 7 over {0..len} up to order isomorphism, then all permutations of 8 and 9 elements in the thorough tier
    {
      Target t; t.name = "small_exhaustive"; t.enumerated = true;
      // weak orderings as base-n words
      auto pw = [](uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; };
      auto total = [=](unsigned maxn) { uint64_t s = 0; for (unsigned n = 0; n <= maxn; n++) s += n ? pw(n, n) : 1; return s; };
      t.quick = total(7); t.thorough = total(8);
      t.genx = [=](uint64_t i) { unsigned n = 0; for (;; n++) { uint64_t k = n ? pw(n, n) : 1; if (i < k) break; i -= k; }
        Case c; Arr v(n); for (auto &x : v) { x = (int64_t)(i % n); i /= n; } c.a = {v}; c.s = {1, 0, 0xA5}; return c; };
      common(t); R.add(t);
    }
    {  // 0/1/2-valued words exercise every partition step
      Target t; t.name = "words_exhaustive"; t.enumerated = true;
      // alphabets: 2 values up to length 16, 3 values up to length 11
      t.quick = t.thorough = (1u << 17) - 2 + 265719;
      t.genx = [](uint64_t i) { Case c; c.s = {-1, 0, 0xff};
        if (i < (1u << 17) - 2) { i += 2; unsigned n = 63 - __builtin_clzll(i); Arr v(n); for (unsigned k = 0; k < n; k++) v[k] = (i >> k) & 1; c.a = {v}; return c; }
        i -= (1u << 17) - 2; unsigned n = 1; uint64_t k = 3; while (i >= k) { i -= k; k *= 3; n++; }
        Arr v(n); for (auto &x : v) { x = (int64_t)(i % 3) - 1; i /= 3; } c.a = {v}; return c; };
      common(t); R.add(t);
    }
    {
      Target t; t.name = "random"; t.quick = 400000; t.thorough = 12000000;
      t.gen = [](Rng &r) {
        Case c; size_t n = (size_t)(r.chance(1, 100) ? r.in(0, 20000) : r.chance(1, 4) ? r.in(0, 400) : r.in(0, 40));
        int64_t lo = 0, hi = r.pick({1, 2, 9, 100, 1000000, INT64_MAX});
        if (r.chance(1, 4)) lo = INT64_MIN;   // as uint64: the upper half
        Arr v;
        // distinct-rich patterns: a slow quicksort would recurse n deep, so organ pipes stay short
        switch (r.in(0, 7)) {
          case 0: v = Arr(n); for (size_t i = 0; i < n; i++) v[i] = (int64_t)i; break;
          case 1: v = Arr(n); for (size_t i = 0; i < n; i++) v[i] = (int64_t)(n - i); break;
          case 2: n = std::min<size_t>(n, 600); v = Arr(n); for (size_t i = 0; i < n; i++) v[i] = (int64_t)std::min(i, n - i); break;
          case 3: v = Arr(n); for (size_t i = 0; i < n; i++) v[i] = (int64_t)i; for (int k = (int)r.in(1, 6); k-- && n;) std::swap(v[(size_t)r.in(0, (int64_t)n - 1)], v[(size_t)r.in(0, (int64_t)n - 1)]); break;
          case 4: n = std::min<size_t>(n, 600); v = gen_vec(r, n, lo, hi, {INT64_MIN, -1, 0, 1, INT64_MAX, lo, hi}); break;
          default: v = Arr(n); for (auto &x : v) x = r.chance(1, 20) ? r.pick({INT64_MIN, -1, 0, 1, INT64_MAX, INT64_MIN + 1}) : r.in(lo, hi); break;
        }
        c.a = {v}; c.s = {r.pick({1, 1, -1, -1, 0}), r.in(0, 16), r.pick({0, 255, 0xA5})};
        return c; };
      common(t); R.add(t);
    }
    {  // sizes around and above 2^16; spread values, so that any sensible pivot keeps the recursion shallow
      Target t; t.name = "long"; t.quick = 160; t.thorough = 4000;
      t.gen = [](Rng &r) { Case c; size_t n = (size_t)(r.chance(1, 2) ? r.pick({1 << 15, 1 << 16, 1 << 17}) + r.in(-20, 20) : r.in(20000, 200000)); Arr v(n);
        for (auto &x : v) x = r.in(INT64_MIN, INT64_MAX);
        c.a = {v}; c.s = {r.pick({1, 1, -1, -1, 0}), r.in(0, 16), r.pick({0, 255, 0xA5})}; return c; };
      common(t); R.add(t);
    }
  };
  return R.main(argc, argv);
}
