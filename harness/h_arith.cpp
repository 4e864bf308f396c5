// C09: default/naive elementwise products; C10: red C primitives; C11: AVX2 primitives against the C ones.
#include <set>
#include <cmath>
#include "lib.hpp"
using namespace pbt;
static const int64_t Q = ref::Q, WLO = -8796042698752LL, WHI = 8796093026303LL;

// arena with sentinels around each array
struct Arena {
  char *m; std::vector<std::pair<char *, size_t>> used;
  Arena() { m = (char *)aligned_alloc(4096, 8u << 20); }
  static constexpr unsigned char FILL = 0x5C;
  char *pos = nullptr; char *start = nullptr;
  std::vector<std::pair<char *, char *>> pads;
  void reset() { pos = m; pads.clear(); }
  template <class T> T *put(size_t n, int64_t off) {
    char *b = pos; size_t lead = 64 + (size_t)off * sizeof(T);
    memset(b, FILL, lead); T *p = (T *)(b + lead);
    char *e = (char *)(p + n); size_t tail = 64 + ((64 - ((e - m) & 63)) & 63);
    memset(e, FILL, tail);
    pads.push_back({b, (char *)p}); pads.push_back({e, e + tail});
    pos = e + tail; return p;
  }
  bool ok() const { for (auto &p : pads) for (char *q = p.first; q < p.second; q++) if ((unsigned char)*q != FILL) return false; return true; }
};
static Arena &A() { static Arena a; return a; }

static int64_t logmag(Rng &r, int maxbits) { int b = (int)r.in(0, maxbits); int64_t v = b ? r.in((int64_t)1 << (b - 1), ((int64_t)1 << b) - 1) : 0; return r.chance(1, 2) ? v : -v; }
static int64_t clamp(int64_t x, int64_t lo, int64_t hi) { return x < lo ? lo : x > hi ? hi : x; }
static bool in_window(int64_t x, int64_t y) { __int128 z = (__int128)x * y; return z >= WLO && z <= WHI; }
// x such that x*y is in the window: anywhere, or close to its edges, or close to a multiple of 4096
static int64_t mate(Rng &r, int64_t y) {
  int64_t x;
  if (y == 0) return r.in(INT32_MIN, INT32_MAX);
  switch (r.in(0, 5)) {
    case 0: x = WLO / y + r.in(-2, 2); break;
    case 1: x = WHI / y + r.in(-2, 2); break;
    case 2: x = logmag(r, 31); break;
    case 3: x = (r.in(-2000, 2000) * 4096 + r.in(-1, 1)) / y + r.in(-1, 1); break;
    case 4: x = r.pick({0, 1, -1, 4095, 4096, -4096, 12288, -12288, 6144, -6144, INT32_MAX, INT32_MIN, 536573, -524287}); break;
    default: x = r.in(std::min(WLO / y, WHI / y), std::max(WLO / y, WHI / y));
  }
  x = clamp(x, INT32_MIN, INT32_MAX);
  while (!in_window(x, y)) x /= 2;
  return x;
}

// lengths around and above 2^15, 2^16 and 2^17
static size_t long_len(Rng &r, bool as) { size_t n = (size_t)(r.chance(3, 4) ? r.pick({1 << 15, 1 << 16, 1 << 17, 1 << 18}) + r.in(-40, 40) : r.in(20000, 280000)); return as ? (n + 15) / 16 * 16 : n; }

struct F1 { std::string name; std::function<void(int32_t *, uint32_t)> f; std::function<int64_t(int64_t)> want; int64_t lo, hi; };

static bool cmp1(const std::string &name, const int32_t *got, int64_t want, int64_t in, uint32_t i, std::string &msg) {
  if (*got == want) return true;
  msg = fmt("%s: a[%u] = %lld becomes %d, expected %lld", name.c_str(), i, (long long)in, *got, (long long)want); return false;
}

int main(int argc, char **argv) {
  Runner R;
  static Lib L, L2;
  R.setup = [](Runner &R) {
    if (R.prop == "C09") {
      L.open(R.lib + "/libdefault.so"); L2.open(R.lib + "/libnaive.so");
      static auto m16 = L.fn<ntt16u_f>("mul_array16"); static auto m = L.fn<mul_f>("mul_array"); static auto sm = L.fn<smul_f>("scalar_mul_array");
      static auto m16n = L2.fn<ntt16q_f>("mul_array16_naive"); static auto mn = L2.fn<mulq_f>("mul_array_naive"); static auto smn = L2.fn<smulq_f>("scalar_mul_array_naive");
      // scalars: function 0..5 (-1 all), offsets; arrays a, b (b[0] is the scalar)
      auto run = [](const Case &c, std::string &msg) {
        static const char *nm[] = {"mul_array16", "mul_array", "scalar_mul_array", "mul_array16_naive", "mul_array_naive", "scalar_mul_array_naive"};
        uint32_t n = (uint32_t)c.a[0].size();
        for (int k = 0; k < 6; k++) {
          if (c.s[0] >= 0 && c.s[0] != k) continue;
          A().reset();
          int32_t *a = A().put<int32_t>(n, c.s[1]), *b = A().put<int32_t>(n, c.s[2]), *d = A().put<int32_t>(n, c.s[3]); uint16_t *p = A().put<uint16_t>(n, c.s[2]);
          for (uint32_t i = 0; i < n; i++) { a[i] = (int32_t)c.a[0][i]; b[i] = (int32_t)c.a[1][i]; p[i] = (uint16_t)b[i]; d[i] = INT32_MIN + 7; }
          int32_t s = (int32_t)c.s[4];
          const int32_t *res = a;
          if (k % 3 == 1 && c.a[0] == c.a[1]) b = a;   // a square: both constant operands are the same array
          switch (k) {
            case 0: m16(a, n, p); break; case 1: m(d, n, a, b); res = d; break; case 2: sm(a, n, s); break;
            case 3: m16n(a, n, p, 12289); break; case 4: mn(d, n, a, b, 12289); res = d; break; case 5: smn(a, n, s, 12289); break;
          }
          for (uint32_t i = 0; i < n; i++) {
            int64_t x = c.a[0][i], y = k % 3 == 2 ? s : c.a[1][i];
            if (res[i] != x * y % Q) { msg = fmt("%s: %lld * %lld at index %u of %u gives %d, expected %lld", nm[k], (long long)x, (long long)y, i, n, res[i], (long long)(x * y % Q)); return false; }
            if (p[i] != c.a[1][i] || b[i] != c.a[1][i] || (k % 3 == 1 && a[i] != c.a[0][i])) { msg = fmt("%s changed another operand at index %u", nm[k], i); return false; }
          }
          if (!A().ok()) { msg = fmt("%s wrote outside its arrays (n = %u)", nm[k], n); return false; }
        }
        return true;
      };
      auto valid = [](const Case &c) {
        if (c.s.size() != 5 || c.a.size() != 2 || c.a[0].size() != c.a[1].size() || c.s[0] < -1 || c.s[0] > 5 || c.s[4] < 0 || c.s[4] >= Q) return false;
        for (int i = 1; i <= 3; i++) if (c.s[i] < 0 || c.s[i] > 15) return false;
        for (auto &v : c.a) for (auto x : v) if (x < 0 || x >= Q) return false;
        return true; };
      auto shr = [](const Case &c) {
        std::vector<Case> v;
        if (c.s[0] < 0) for (int k = 0; k < 6; k++) { Case d = c; d.s[0] = k; v.push_back(d); }
        size_t n = c.a[0].size();
        for (size_t w = n / 2; w >= 1; w /= 2) for (int front = 0; front < 2; front++) {
          Case d = c; for (auto &x : d.a) { if (front) x.erase(x.begin(), x.begin() + w); else x.resize(n - w); } v.push_back(d); }
        return v; };
      Target t; t.name = "all_pairs"; t.enumerated = true; t.quick = t.thorough = Q;
      t.genx = [](uint64_t x) { Case c; Arr y(Q), z(Q, (int64_t)x); for (int64_t i = 0; i < Q; i++) y[i] = i; c.a = {y, z}; c.s = {-1, 0, 0, 0, (int64_t)x}; return c; };
      t.run = run; t.valid = valid; t.shrinkers = shr; t.evals = [](const Case &c) { return 6 * (uint64_t)c.a[0].size(); };
      t.nontrivial = [](const Case &c) { return c.s[4] > 1; };
      R.add(t);
      Target u; u.name = "lengths"; u.quick = 400000; u.thorough = 8000000;
      u.gen = [](Rng &r) {
        Case c; size_t n = r.chance(1, 20) ? (size_t)r.in(0, 5000) : r.chance(1, 2) ? (size_t)r.in(0, 40) : (size_t)r.in(0, 300);
        static const std::vector<int64_t> sp = {0, 1, 2, 6144, 6145, 12287, 12288};
        c.a = {gen_vec(r, n, 0, Q - 1, sp), gen_vec(r, n, 0, Q - 1, sp)};
        if (r.chance(1, 8)) c.a[1] = c.a[0];
        c.s = {-1, r.in(0, 15), r.in(0, 15), r.in(0, 15), r.in(0, Q - 1)}; return c; };
      u.run = run; u.valid = valid; u.shrinkers = shr; u.evals = t.evals;
      u.nontrivial = [](const Case &c) { return !c.a[0].empty() && Runner::default_nontrivial(c); };
      R.add(u);
      Target w = u; w.name = "long"; w.quick = 160; w.thorough = 4000;
      w.gen = [](Rng &r) { Case c; size_t n = long_len(r, false); c.a = {Arr(n), Arr(n)}; for (auto &v : c.a) for (auto &x : v) x = r.in(0, Q - 1); c.s = {-1, r.in(0, 15), r.in(0, 15), r.in(0, 15), r.in(0, Q - 1)}; return c; };
      R.add(w);
      return;
    }

    bool as = R.prop == "C11";
    L2.open(R.lib + "/libred.so");
    if (as) L.open(R.lib + "/libasm.so");
    static std::vector<F1> f1;
    struct Red { static int64_t red(int64_t x) { int64_t m = x & 4095; return 3 * m - ((x - m) / 4096); } };
    auto C = [](const std::string &n) { return L2.fn<arr_f>(n); };
    auto add1 = [&](const std::string &n, std::function<int64_t(int64_t)> w, int64_t lo, int64_t hi) {
      if (!as) { f1.push_back({n, C(n), w, lo, hi}); return; }
      void *p = L.sym(n + "_asm", false);
      if (!p && n != "normalize" && n != "normalize_inv3") L.sym(n + "_asm");
      if (p) f1.push_back({n + "_asm", (arr_f *)p, nullptr, lo, hi});
      if (void *p2 = L.sym(n + "_asm2", false)) f1.push_back({n + "_asm2", (arr_f *)p2, nullptr, lo, hi});
    };
    add1("normalize", [](int64_t x) { return ref::mod(x); }, INT32_MIN, INT32_MAX);
    add1("normalize_inv3", [](int64_t x) { return ref::mod(ref::mod(x) * 8193); }, INT32_MIN, INT32_MAX);
    add1("reduce_array", [](int64_t x) { return Red::red(x); }, INT32_MIN, INT32_MAX);
    add1("reduce_array_twice", [](int64_t x) { return Red::red(Red::red(x)); }, INT32_MIN, INT32_MAX);
    add1("shift_array", [](int64_t x) { return x > 6144 ? x - Q : x; }, 0, Q - 1);
    add1("correct", [](int64_t x) { return ref::mod(x); }, -Q, 2 * Q - 1);
    static std::map<std::string, arr_f *> cver;
    for (auto n : {"normalize", "normalize_inv3", "reduce_array", "reduce_array_twice", "shift_array", "correct"}) cver[n] = C(n);
    auto cname = [](std::string s) { size_t k = s.rfind("_asm"); return k == std::string::npos ? s : s.substr(0, k); };

    // one-operand functions: blocks of consecutive values. scalars: base, count, function
    auto run_block = [as, cname](const Case &c, std::string &msg) {
      static std::vector<int32_t> buf((1 << 20) + 64), cb((1 << 20) + 64);
      int64_t base = c.s[0]; uint32_t n = (uint32_t)c.s[1];
      for (size_t k = 0; k < f1.size(); k++) {
        if (c.s[2] >= 0 && c.s[2] != (int64_t)k) continue;
        F1 &f = f1[k];
        if (base < f.lo || base + n - 1 > f.hi) continue;
        for (uint32_t i = 0; i < n; i++) buf[i] = (int32_t)(base + i);
        f.f(buf.data(), n);
        if (as) {
          for (uint32_t i = 0; i < n; i++) cb[i] = (int32_t)(base + i);
          cver[cname(f.name)](cb.data(), n);
          if (memcmp(cb.data(), buf.data(), 4 * (size_t)n)) for (uint32_t i = 0; i < n; i++) if (!cmp1(f.name, &buf[i], cb[i], base + i, i, msg)) return false;
          continue;
        }
        const int32_t *b = buf.data();
        int64_t m3 = ref::mod(ref::mod(base) * 8193), m1 = ref::mod(base);
        if (f.name == "normalize") { for (uint32_t i = 0; i < n; i++) { if (b[i] != m1) { cmp1(f.name, b + i, m1, base + i, i, msg); return false; } if (++m1 == Q) m1 = 0; } }
        else if (f.name == "normalize_inv3") { for (uint32_t i = 0; i < n; i++) { if (b[i] != m3) { cmp1(f.name, b + i, m3, base + i, i, msg); return false; } m3 += 8193; if (m3 >= Q) m3 -= Q; } }
        else if (f.name == "reduce_array") {
          for (uint32_t i = 0; i < n; i++) { int64_t w = Red::red(base + i); if (b[i] != w || w < -524287 || w > 536573) { cmp1(f.name, b + i, w, base + i, i, msg); return false; } } }
        else if (f.name == "reduce_array_twice") {
          for (uint32_t i = 0; i < n; i++) { int64_t w = Red::red(Red::red(base + i)); if (b[i] != w || w < -130 || w > 12413) { cmp1(f.name, b + i, w, base + i, i, msg); return false; } } }
        else for (uint32_t i = 0; i < n; i++) if (!cmp1(f.name, b + i, f.want(base + i), base + i, i, msg)) return false;
      }
      return true;
    };
    auto valid_block = [as](const Case &c) { return c.s.size() == 3 && c.s[1] >= 1 && c.s[1] <= (1 << 20) && c.s[0] >= INT32_MIN && c.s[0] + c.s[1] - 1 <= INT32_MAX && c.s[2] >= -1 && c.s[2] < (int64_t)f1.size() && (!as || c.s[1] % 16 == 0); };
    auto shr_block = [](const Case &c) { std::vector<Case> v;
      if (c.s[2] < 0) for (size_t k = 0; k < f1.size(); k++) { Case d = c; d.s[2] = (int64_t)k; v.push_back(d); }
      for (int64_t w = c.s[1] / 2; w >= 1; w /= 2) { Case d = c; d.s[1] -= w; v.push_back(d); d.s[0] += w; v.push_back(d); } return v; };
    { Target t; t.name = "every_int32"; t.enumerated = true; t.quick = t.thorough = 4096;
      t.genx = [](uint64_t i) { Case c; c.s = {(int64_t)INT32_MIN + (int64_t)i * (1 << 20), 1 << 20, -1}; return c; };
      t.run = run_block; t.valid = valid_block; t.shrinkers = shr_block; t.evals = [](const Case &c) { return 4 * (uint64_t)c.s[1]; }; R.add(t); }
    { Target t; t.name = "every_shift_and_correct_input"; t.enumerated = true; t.quick = t.thorough = 3 * Q / 16 * 2;
      t.genx = [](uint64_t i) { Case c; int64_t lo = i & 1 ? 0 : -Q, hi = i & 1 ? Q - 1 : 2 * Q - 1; int64_t b = lo + (int64_t)(i / 2) * 16; if (b + 15 > hi) b = hi - 15; c.s = {b, 16, -1}; return c; };
      t.run = run_block; t.valid = valid_block; t.shrinkers = shr_block; t.evals = [](const Case &c) { return (uint64_t)c.s[1]; }; R.add(t); }

    // one-operand functions, arbitrary arrays and lengths: "all elements and nothing else"
    for (size_t k = 0; k < f1.size(); k++) {
      Target t; t.name = f1[k].name; t.quick = 150000; t.thorough = 3000000;
      int64_t lo = f1[k].lo, hi = f1[k].hi;
      t.gen = [as, lo, hi](Rng &r) { Case c; size_t n = as ? 16 * (size_t)(r.chance(1, 6) ? r.in(1, 256) : r.in(1, 24)) : r.chance(1, 10) ? (size_t)r.in(0, 3000) : (size_t)r.in(0, 80);
        std::vector<int64_t> sp = {lo, lo + 1, hi, hi - 1, 0, 1, Q, Q - 1, 6144, 6145, 4095, 4096, 8192}; if (lo < 0) for (int64_t x : {-1, -4096, -4097, -12289, -12288}) sp.push_back(x);
        for (auto &x : sp) x = clamp(x, lo, hi);
        c.a = {gen_vec(r, n, lo, hi, sp)}; c.s = {r.in(0, 15)}; return c; };
      t.valid = [as, lo, hi](const Case &c) { if (c.s[0] < 0 || c.s[0] > 15 || (as && (c.a[0].empty() || c.a[0].size() % 16))) return false; for (auto x : c.a[0]) if (x < lo || x > hi) return false; return true; };
      t.shrinkers = [as](const Case &c) { std::vector<Case> v; size_t n = c.a[0].size(), st = as ? 16 : 1; for (size_t w = n / 2; w >= 1; w /= 2) { if (w % st) continue; for (int f = 0; f < 2; f++) { Case d = c; if (f) d.a[0].resize(n - w); else d.a[0].erase(d.a[0].begin(), d.a[0].begin() + w); v.push_back(d); } } return v; };
      t.nontrivial = [](const Case &c) { return !c.a[0].empty() && Runner::default_nontrivial(c); };
      t.run = [k, as, cname](const Case &c, std::string &msg) {
        uint32_t n = (uint32_t)c.a[0].size(); A().reset();
        int32_t *a = A().put<int32_t>(n, c.s[0]);
        std::vector<int32_t> b(n + 1);
        for (uint32_t i = 0; i < n; i++) b[i] = a[i] = (int32_t)c.a[0][i];
        f1[k].f(a, n);
        if (as) cver[cname(f1[k].name)](b.data(), n);
        for (uint32_t i = 0; i < n; i++) if (!cmp1(f1[k].name, a + i, as ? b[i] : f1[k].want(c.a[0][i]), c.a[0][i], i, msg)) return false;
        if (!A().ok()) { msg = f1[k].name + " wrote outside its array"; return false; }
        return true; };
      R.add(t);
      t.name += "_long"; t.quick = 48; t.thorough = 1000;
      t.gen = [as, lo, hi](Rng &r) { Case c; Arr v(long_len(r, as)); for (auto &x : v) x = r.in(lo, hi); c.a = {v}; c.s = {r.in(0, 15)}; return c; };
      R.add(t);
    }

    // multiply-reduce
    static ntt16s_f *m16, *m16b; static mul_f *mm; static smul_f *sm; static ntt16s_f *cm16; static mul_f *cmm; static smul_f *csm;
    std::string sx = as ? "_asm" : ""; Lib &X = as ? L : L2;
    m16 = X.fn<ntt16s_f>("mul_reduce_array16" + sx); mm = X.fn<mul_f>("mul_reduce_array" + sx); sm = X.fn<smul_f>("scalar_mul_reduce_array" + sx);
    m16b = as ? (ntt16s_f *)L.sym("mul_reduce_array16_asm2", false) : nullptr;
    cm16 = L2.fn<ntt16s_f>("mul_reduce_array16"); cmm = L2.fn<mul_f>("mul_reduce_array"); csm = L2.fn<smul_f>("scalar_mul_reduce_array");
    // scalars: which (0 = array16, 1 = array, 2 = scalar, 3 = array16_asm2; -1 all), offsets, scalar; arrays x, y
    auto run2 = [as](const Case &c, std::string &msg) {
      static const char *nm[] = {"mul_reduce_array16", "mul_reduce_array", "scalar_mul_reduce_array", "mul_reduce_array16_asm2"};
      uint32_t n = (uint32_t)c.a[0].size(); int32_t s = (int32_t)c.s[4];
      for (int k = 0; k < 4; k++) {
        if (c.s[0] >= 0 && c.s[0] != k) continue;
        if (k == 3 && !m16b) continue;
        A().reset();
        int32_t *a = A().put<int32_t>(n, c.s[1]), *b = A().put<int32_t>(n, c.s[2]), *d = A().put<int32_t>(n, c.s[3]); int16_t *p = A().put<int16_t>(n, c.s[2]);
        for (uint32_t i = 0; i < n; i++) { a[i] = (int32_t)c.a[0][i]; b[i] = (int32_t)c.a[1][i]; p[i] = (int16_t)b[i]; d[i] = 0x7654321; }
        std::vector<int32_t> e(a, a + n);
        int32_t *res = a;
        if (k == 1 && c.a[0] == c.a[1]) b = a;   // a square
        switch (k) { case 0: m16(a, n, p); if (as) cm16(e.data(), n, p); break; case 1: mm(d, n, a, b); res = d; if (as) cmm(e.data(), n, a, b); break; case 2: sm(a, n, s); if (as) csm(e.data(), n, s); break; case 3: m16b(a, n, p); cm16(e.data(), n, p); }
        for (uint32_t i = 0; i < n; i++) {
          int64_t x = c.a[0][i], y = k == 2 ? s : k == 1 ? c.a[1][i] : (int16_t)c.a[1][i];
          int64_t z = x * y, w = as ? e[i] : Red::red(z);
          if (res[i] != w) { msg = fmt("%s%s: %lld * %lld at index %u of %u gives %d, expected %lld", nm[k], as && k < 3 ? "_asm" : "", (long long)x, (long long)y, i, n, res[i], (long long)w); return false; }
          if (!as && x >= 0 && x < Q && y >= 0 && y < Q && (res[i] < -36864 || res[i] > 12285)) { msg = fmt("%s: %lld * %lld gives %d, outside [-36864, 12285]", nm[k], (long long)x, (long long)y, res[i]); return false; }
          if (!as && std::llabs(x) <= 6144 && std::llabs(y) <= 6144 && (res[i] < -9216 || res[i] > 21499)) { msg = fmt("%s: %lld * %lld gives %d, outside [-9216, 21499]", nm[k], (long long)x, (long long)y, res[i]); return false; }
          if (p[i] != (int16_t)c.a[1][i] || b[i] != c.a[1][i] || (k == 1 && a[i] != c.a[0][i])) { msg = fmt("%s changed another operand at index %u", nm[k], i); return false; }
        }
        if (!A().ok()) { msg = fmt("%s wrote outside its arrays (n = %u)", nm[k], n); return false; }
      }
      return true;
    };
    auto valid2 = [as](const Case &c) {
      if (c.s.size() != 5 || c.a.size() != 2 || c.a[0].size() != c.a[1].size() || c.s[0] < -1 || c.s[0] > 3 || c.s[4] < INT32_MIN || c.s[4] > INT32_MAX) return false;
      if (as && (c.a[0].empty() || c.a[0].size() % 16)) return false;
      for (int i = 1; i <= 3; i++) if (c.s[i] < 0 || c.s[i] > 15) return false;
      for (size_t i = 0; i < c.a[0].size(); i++) {
        int64_t x = c.a[0][i], y = c.a[1][i];
        if (x < INT32_MIN || x > INT32_MAX || y < INT32_MIN || y > INT32_MAX) return false;
        if ((c.s[0] < 0 || c.s[0] == 1) && !in_window(x, y)) return false;
        if ((c.s[0] < 0 || c.s[0] == 0 || c.s[0] == 3) && (y < INT16_MIN || y > INT16_MAX || !in_window(x, y))) return false;
        if ((c.s[0] < 0 || c.s[0] == 2) && !in_window(x, c.s[4])) return false;
      }
      return true; };
    auto shr2 = [as](const Case &c) { std::vector<Case> v; size_t n = c.a[0].size(), st = as ? 16 : 1;
      if (c.s[0] < 0) for (int k = 0; k < 4; k++) { Case d = c; d.s[0] = k; v.push_back(d); }
      for (size_t w = n / 2; w >= 1; w /= 2) { if (w % st) continue; for (int f = 0; f < 2; f++) { Case d = c; for (auto &x : d.a) { if (f) x.resize(n - w); else x.erase(x.begin(), x.begin() + w); } v.push_back(d); } } return v; };
    { Target t; t.name = "every_table_product"; t.enumerated = true; t.quick = t.thorough = 2 * Q;
      t.genx = [as](uint64_t i) { Case c; int64_t lo = i & 1 ? -6144 : 0, x = lo + (int64_t)(i / 2); int64_t n = as ? (Q + 15) / 16 * 16 : Q; Arr y(n), z(n, x); for (int64_t k = 0; k < n; k++) y[k] = lo + k % Q; c.a = {y, z}; c.s = {-1, 0, 0, 0, x}; return c; };
      t.run = run2; t.valid = valid2; t.shrinkers = shr2; t.evals = [](const Case &c) { return 3 * (uint64_t)c.a[0].size(); }; R.add(t); }
    {  // pairs of critical operands: near powers of two, near square roots of powers of two, near Q; and products that cross a power of two
      static std::vector<int64_t> cr; std::set<int64_t> cs;
      for (int b = 0; b <= 43; b++) for (int64_t d = -2; d <= 2; d++) { int64_t v = ((int64_t)1 << b) + d, q = (int64_t)std::sqrt((double)((int64_t)1 << b)) + d; for (int64_t u : {v, q}) { cs.insert(u); cs.insert(-u); } }
      for (int64_t m : {1, 2, 3, 4}) for (int64_t d = -1; d <= 1; d++) { cs.insert(m * Q + d); cs.insert(-m * Q + d); }
      for (int64_t u : {6144, 6145, 8193, 21499, 524287, 524288, 536573, 36864, 2965820, 2965821, 130, 12413}) { cs.insert(u); cs.insert(-u); }
      for (auto u : cs) if (u >= INT32_MIN && u <= INT32_MAX) cr.push_back(u);
      uint64_t C = cr.size(), H = 256;
      Target t; t.name = "critical_pairs" + sx; t.enumerated = true; t.quick = t.thorough = 3 * C + 3 * H * 8;
      t.genx = [C, H, as](uint64_t i) { Case c; Arr x, y; int k = (int)(i % 3); i /= 3; int64_t s = 0;
        auto put = [&](int64_t u, int64_t v) { if (u < INT32_MIN || u > INT32_MAX || v < INT32_MIN || v > INT32_MAX || !in_window(u, v) || (k == 0 && (v < INT16_MIN || v > INT16_MAX))) return; if (k == 2) { x.push_back(u); y.push_back(0); } else { x.push_back(u); y.push_back(v); } };
        if (i < C) { s = cr[i]; for (auto u : cr) put(u, s); }
        else { i -= C; static const int64_t Bs[] = {(int64_t)1 << 31, -((int64_t)1 << 31), (int64_t)1 << 32, -((int64_t)1 << 32), (int64_t)1 << 30, (int64_t)1 << 33, -8796042698752LL, 8796093026303LL}; int64_t B = Bs[i / H]; int64_t h = (int64_t)(i % H);
          if (k == 2) { s = (h - 128) * 48 + 1; for (int64_t d = -200; d <= 200; d++) put(B / s + d, s); }
          else for (int64_t v = h * 256 - 32768; v < h * 256 - 32768 + 256; v++) if (v) for (int64_t d = -1; d <= 1; d++) put(B / v + d, v); }
        if (as) while (x.size() % 16 || x.empty()) { x.push_back(0); y.push_back(0); }
        c.a = {x, y}; c.s = {k, (int64_t)(i % 16), 0, (int64_t)(i % 5), k == 2 ? s : 0}; return c; };
      t.run = run2; t.valid = valid2; t.shrinkers = shr2; t.evals = [](const Case &c) { return (uint64_t)c.a[0].size(); }; R.add(t); }
    for (int k = 0; k < 3; k++) {
      Target t; t.name = std::string(k == 0 ? "mul_reduce_array16" : k == 1 ? "mul_reduce_array" : "scalar_mul_reduce_array") + sx; t.quick = 300000; t.thorough = 8000000;
      t.gen = [k, as](Rng &r) {
        Case c; size_t n = as ? 16 * (size_t)(r.chance(1, 6) ? r.in(1, 256) : r.in(1, 8)) : r.chance(1, 10) ? (size_t)r.in(0, 3000) : (size_t)r.in(0, 80);
        Arr x(n), y(n); int64_t s = 0;
        bool per = r.chance(1, 2); int64_t y0 = logmag(r, k == 0 ? 15 : 31);
        if (k == 2) { s = r.chance(1, 3) ? r.pick({0, 1, -1, 8193, 12288, -6144, 6144, INT32_MAX, INT32_MIN}) : logmag(r, 31); }
        for (size_t i = 0; i < n; i++) {
          y[i] = k == 2 ? r.in(-100, 100) : per ? (k == 0 ? r.in(INT16_MIN, INT16_MAX) : r.chance(1, 2) ? logmag(r, 31) : r.in(INT32_MIN, INT32_MAX)) : y0;
          x[i] = mate(r, k == 2 ? s : y[i]);
          if (k == 1 && r.chance(1, 2)) std::swap(x[i], y[i]);
        }
        if (k == 1 && r.chance(1, 8)) { for (auto &v : x) v = r.in(-2965820, 2965820); y = x; }
        c.a = {x, y}; c.s = {k == 0 && r.chance(1, 3) ? 3 : k, r.in(0, 15), r.in(0, 15), r.in(0, 15), s}; return c; };
      t.run = run2; t.valid = valid2; t.shrinkers = shr2;
      t.evals = [](const Case &c) { return (uint64_t)c.a[0].size(); };
      t.nontrivial = [](const Case &c) { return !c.a[0].empty() && Runner::default_nontrivial(c); };
      R.add(t);
      t.name += "_long"; t.quick = 64; t.thorough = 1600;
      t.gen = [k, as](Rng &r) { Case c; size_t n = long_len(r, as); Arr x(n), y(n); int64_t s = logmag(r, 31);
        for (size_t i = 0; i < n; i++) { y[i] = k == 2 ? 0 : logmag(r, k == 0 ? 14 : 31); x[i] = mate(r, k == 2 ? s : y[i]); }
        c.a = {x, y}; c.s = {k == 0 && r.chance(1, 3) ? 3 : k, r.in(0, 15), r.in(0, 15), r.in(0, 15), s}; return c; };
      R.add(t);
    }
  };
  return R.main(argc, argv);
}
