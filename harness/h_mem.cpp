// C14: memory containment and undefined behaviour of the C routines. Built three ways: plain (guard pages and
// read-only pages), address+undefined sanitizers (exact-size heap blocks) and memory sanitizer (uninitialised reads).
#include "lib.hpp"
using namespace pbt;
static const int64_t Q = ref::Q, WLO = -8796042698752LL, WHI = 8796093026303LL;
#ifdef MSAN
extern "C" { void __msan_unpoison(const volatile void *, size_t); void __msan_poison(const volatile void *, size_t); intptr_t __msan_test_shadow(const volatile void *, size_t); }
static const char *FL = "msan";
#elif defined(SAN)
static const char *FL = "san";
#else
static const char *FL = "plain";
#endif

enum Kind { PROD, TU, TQ, TS, E16U, E16Q, E16S, MUL, MULQ, SC, SCQ, A1, SHUF, SHUFT, MULR, SCR };
struct Op { std::string name; Kind k; void *f; int64_t lo, hi; int size; };
static std::vector<Op> ops;

// where an array lies: heap block of the exact size, or a Buf
struct Mem {
  Buf *b = nullptr; void *h = nullptr; size_t bytes; char *p;
  Mem(size_t nb, int mode, size_t off, size_t el) : bytes(nb) {
    if (mode == 2) { h = malloc(nb ? nb : 16); p = (char *)h; if (!nb) p += 16; }
    else { b = new Buf(nb, mode, off * el); p = b->p; }
  }
  ~Mem() { delete b; free(h); }
  void init() {
#ifdef MSAN
    __msan_unpoison(p, bytes);
#endif
  }
  void ro() { if (b) b->readonly(); }
  bool ok() { return !b || b->canary_ok(); }
};

int main(int argc, char **argv) {
  Runner R;
  static Lib LD, LN, LR;
  R.setup = [](Runner &R) {
    LD.open(R.lib + "/libdefault.so"); LN.open(R.lib + "/libnaive.so"); LR.open(R.lib + "/libred.so");
    static const char *T[] = {"ntt_ct_rev2std", "mulntt_ct_rev2std", "ntt_ct_std2rev", "mulntt_ct_std2rev", "ntt_gs_rev2std", "nttmul_gs_rev2std", "ntt_gs_std2rev", "nttmul_gs_std2rev"};
    auto add = [](Lib &l, const std::string &n, Kind k, int64_t lo, int64_t hi, int size = 0) { ops.push_back({n, k, l.sym(n), lo, hi, size}); };
    for (auto n : SIZES) for (int v = 1; v <= 5; v++) {
      std::string s = std::to_string(n) + "_product" + std::to_string(v);
      add(LD, "ntt" + s, PROD, 0, Q - 1, (int)n); add(LN, "naive_ntt" + s, PROD, 0, Q - 1, (int)n); add(LR, "ntt_red" + s, PROD, 0, Q - 1, (int)n);
    }
    size_t np = ops.size();
    for (auto t : T) {
      add(LD, t, TU, 0, Q - 1); add(LN, std::string(t) + "_naive", TQ, 0, Q - 1);
      std::string s = t; size_t k = s.find('_'); add(LR, s.substr(0, k) + "_red" + s.substr(k), TS, -21499, 21499);
    }
    add(LD, "ntt_ct_rev2std_v1", TU, 0, Q - 1);
    size_t nt = ops.size();
    add(LD, "mul_array16", E16U, 0, Q - 1); add(LD, "mul_array", MUL, 0, Q - 1); add(LD, "scalar_mul_array", SC, 0, Q - 1);
    add(LN, "mul_array16_naive", E16Q, 0, Q - 1); add(LN, "mul_array_naive", MULQ, 0, Q - 1); add(LN, "scalar_mul_array_naive", SCQ, 0, Q - 1);
    add(LR, "normalize", A1, INT32_MIN, INT32_MAX); add(LR, "normalize_inv3", A1, INT32_MIN, INT32_MAX); add(LR, "reduce_array", A1, INT32_MIN, INT32_MAX);
    add(LR, "reduce_array_twice", A1, INT32_MIN, INT32_MAX); add(LR, "shift_array", A1, 0, Q - 1); add(LR, "correct", A1, -Q, 2 * Q - 1);
    add(LR, "mul_reduce_array16", E16S, INT32_MIN, INT32_MAX); add(LR, "mul_reduce_array", MULR, INT32_MIN, INT32_MAX); add(LR, "scalar_mul_reduce_array", SCR, INT32_MIN, INT32_MAX);
    size_t ne = ops.size();
    for (Lib *l : {&LD, &LN}) { add(*l, "bitrev_shuffle", SHUF, INT32_MIN, INT32_MAX); add(*l, "shuffle_with_table", SHUFT, INT32_MIN, INT32_MAX); }

    // scalars: op, n, mode of the three arrays, offsets, scalar operand, prior contents of an output; arrays x, y
    auto valid = [](const Case &c) {
      if (c.s.size() != 10 || c.a.size() != 2 || c.s[0] < 0 || c.s[0] >= (int64_t)ops.size()) return false;
      auto &o = ops[(size_t)c.s[0]]; int64_t n = c.s[1];
      if (n < 0 || n > 1 << 18 || (int64_t)c.a[0].size() != n || (int64_t)c.a[1].size() != n) return false;
      for (int i = 2; i < 5; i++) if (c.s[i] < -1 || c.s[i] > 2) return false;
      for (int i = 5; i < 8; i++) if (c.s[i] < 0 || c.s[i] > 15) return false;
      bool p2 = o.k == PROD || o.k == TU || o.k == TQ || o.k == TS || o.k == SHUF || o.k == SHUFT;
      if (p2 && (n < 1 || (n & (n - 1)))) return false;
      if (o.k == PROD && n != o.size) return false;
      if ((o.k == TU || o.k == TQ || o.k == TS) && (n < 2 || n > 2048)) return false;
      if (o.k == SHUFT && n > 32768) return false;
      for (auto x : c.a[0]) if (x < o.lo || x > o.hi) return false;
      bool uns = o.k == PROD || o.k == E16U || o.k == E16Q || o.k == MUL || o.k == MULQ;
      for (auto x : c.a[1]) { if (uns && (x < 0 || x >= Q)) return false; if (o.k == E16S && (x < -32768 || x > 32767)) return false; if (x < INT32_MIN || x > INT32_MAX) return false; }
      if ((o.k == SC || o.k == SCQ) && (c.s[8] < 0 || c.s[8] >= Q)) return false;
      if (o.k == SCR && (c.s[8] < INT32_MIN || c.s[8] > INT32_MAX)) return false;
      if (o.k == E16S || o.k == MULR || o.k == SCR) for (int64_t i = 0; i < n; i++) { int64_t z = c.a[0][(size_t)i] * (o.k == SCR ? c.s[8] : c.a[1][(size_t)i]); if (z < WLO || z > WHI) return false; }
      return c.s[9] >= INT32_MIN && c.s[9] <= INT32_MAX;
    };
    auto run = [](const Case &c, std::string &msg) {
      auto &o = ops[(size_t)c.s[0]]; uint32_t n = (uint32_t)c.s[1];
      // the routine under test gets its arrays in the arrangement of the case, and once more on plain heap blocks with
      // other prior contents of c: both results must be the same
      std::vector<int32_t> first;
      for (int round = 0; round < 2; round++) {
        int m[3], of[3];
        for (int i = 0; i < 3; i++) { m[i] = round ? 2 : (int)c.s[2 + i]; of[i] = round ? 0 : (int)c.s[5 + i]; }
        Mem a(n * 4, m[0], of[0], 4);
        bool three = o.k == PROD || o.k == MUL || o.k == MULQ || o.k == MULR;
        bool tab = o.k == TU || o.k == TQ || o.k == TS || o.k == E16U || o.k == E16Q || o.k == E16S;
        std::vector<std::array<uint16_t, 2>> pr;
        if (o.k == SHUFT) { uint32_t k = ref::lg(n); for (uint32_t i = 0; i < n; i++) { uint32_t j = ref::rev(i, k); if (i < j) pr.push_back({(uint16_t)i, (uint16_t)j}); } }
        Mem b(three ? n * 4 : tab ? n * 2 : pr.size() * 4, m[1], of[1], 2 + 2 * !tab), d(three ? n * 4 : 0, m[2], of[2], 4);
        int32_t *pa = (int32_t *)a.p, *pb = (int32_t *)b.p, *pd = (int32_t *)d.p; int16_t *ps = (int16_t *)b.p;
        for (uint32_t i = 0; i < n; i++) pa[i] = (int32_t)c.a[0][i];
        if (three) for (uint32_t i = 0; i < n; i++) { pb[i] = (int32_t)c.a[1][i]; pd[i] = round ? (int32_t)~c.s[9] : (int32_t)c.s[9]; }
        if (tab) {
          if (o.k == TU || o.k == TQ || o.k == TS) {   // a real table of this size
            int64_t psi = ref::roots(n)[(size_t)((uint64_t)c.s[8] % ref::roots(n).size())];
            std::vector<int64_t> t;
            if (o.name == "ntt_ct_rev2std_v1") { t.resize(n); int64_t x = 1; for (auto &v : t) { v = x; x = x * psi % Q; } }
            else {
              static std::map<std::array<int64_t, 3>, std::vector<int64_t>> cache;
              bool mixed = o.name.substr(0, 4) != "ntt_", rv = (o.name.find("_ct_") != std::string::npos) == (o.name.find("std2rev") != std::string::npos);
              int kind = mixed ? (rv ? ref::REV_MIXED : ref::STD_MIXED) : (rv ? ref::REV_OMEGA : ref::STD_OMEGA);
              if (cache.size() > 3000) cache.clear();
              auto &e = cache[{(int64_t)n, psi, kind * 2 + (o.k == TS)}];
              if (e.empty()) { e = ref::table(n, psi, (ref::Kind)kind, o.k == TS ? ref::inv3() : 1); if (o.k == TS) for (auto &v : e) v = ref::centered(v); }
              t = e;
            }
            for (uint32_t i = 0; i < n; i++) ps[i] = (int16_t)t[i];
          } else for (uint32_t i = 0; i < n; i++) ps[i] = (int16_t)c.a[1][i];
        }
        if (o.k == SHUFT && !pr.empty()) memcpy(b.p, pr.data(), pr.size() * 4);
        a.init(); b.init();
        std::vector<char> cb(b.p, b.p + b.bytes), ca(a.p, a.p + a.bytes);
#ifdef MSAN
        if (three) __msan_poison(pd, n * 4);
#endif
        if (o.k != PROD) { b.ro(); if (three) a.ro(); }
        int32_t s = (int32_t)c.s[8];
        switch (o.k) {
          case PROD: ((prod_f *)o.f)(pd, pa, pb); break;
          case TU: case E16U: ((ntt16u_f *)o.f)(pa, n, (uint16_t *)ps); break;
          case TQ: case E16Q: ((ntt16q_f *)o.f)(pa, n, (uint16_t *)ps, (int32_t)Q); break;
          case TS: case E16S: ((ntt16s_f *)o.f)(pa, n, ps); break;
          case MUL: case MULR: ((mul_f *)o.f)(pd, n, pa, pb); break;
          case MULQ: ((mulq_f *)o.f)(pd, n, pa, pb, (int32_t)Q); break;
          case SC: case SCR: ((smul_f *)o.f)(pa, n, s); break;
          case SCQ: ((smulq_f *)o.f)(pa, n, s, (int32_t)Q); break;
          case A1: case SHUF: ((arr_f *)o.f)(pa, n); break;
          case SHUFT: ((shuf_f *)o.f)(pa, (const uint16_t(*)[2])b.p, (uint32_t)pr.size()); break;
        }
        if (!a.ok() || !b.ok() || !d.ok()) { msg = fmt("%s (n = %u) wrote outside its arrays", o.name.c_str(), n); return false; }
        if (o.k != PROD && (memcmp(cb.data(), b.p, b.bytes) || (three && memcmp(ca.data(), a.p, a.bytes)))) { msg = fmt("%s (n = %u) changed a constant operand", o.name.c_str(), n); return false; }
        int32_t *res = three ? pd : pa;
#ifdef MSAN
        intptr_t bad = __msan_test_shadow(res, n * 4);
        __msan_unpoison(res, n * 4);
        if (n && bad >= 0) { msg = fmt("%s (n = %u): result %d depends on uninitialised memory or was not written", o.name.c_str(), n, (int)(bad / 4)); return false; }
#endif
        if (!round) first.assign(res, res + n);
        else for (uint32_t i = 0; i < n; i++) if (first[i] != res[i]) { msg = fmt("%s (n = %u): result %u is %d or %d depending on the placement or prior contents of its arrays", o.name.c_str(), n, i, first[i], res[i]); return false; }
      }
      return true;
    };
    auto mk = [=, &R](const std::string &name, size_t lo, size_t hi, uint64_t quick, std::function<int64_t(Rng &, const Op &)> len) {
      Target t; t.name = std::string(FL) + "_" + name; t.quick = quick; t.thorough = quick * 25;
      t.gen = [=](Rng &r) {
        Case c; size_t k = (size_t)r.in((int64_t)lo, (int64_t)hi - 1); auto &o = ops[k]; int64_t n = len(r, o);
        std::vector<int64_t> sp = {o.lo, o.hi, 0, 1, std::min<int64_t>(o.hi, Q - 1), o.lo / 2, o.hi / 2};
        int64_t blo = 0, bhi = Q - 1, sc = r.in(0, Q - 1);
        if (o.k == E16S) { blo = -32768; bhi = 32767; } if (o.k == MULR || o.k == SCR) { blo = -(1 << 24); bhi = 1 << 24; if (r.chance(1, 3)) { blo = INT32_MIN; bhi = INT32_MAX; } }
        c.a = {gen_vec(r, (size_t)n, o.lo, o.hi, sp), gen_vec(r, (size_t)n, blo, bhi, {blo, bhi, 0, 1, blo < 0 ? -1 : 2})};
        if (o.k == E16S || o.k == MULR || o.k == SCR) {   // pull each product into the documented window, often to its very edge
          if (o.k == SCR) { sc = r.chance(1, 4) ? r.pick({0, 1, -1, 4096, 1 << 21, -(1 << 21), INT32_MIN, INT32_MAX}) : r.in(blo, bhi) >> r.in(0, 20); for (auto &y : c.a[1]) y = sc; }
          for (int64_t i = 0; i < n; i++) { int64_t &x = c.a[0][(size_t)i], y = c.a[1][(size_t)i]; if (!y) continue;
            int64_t a = WLO / y, b = WHI / y; if (a > b) std::swap(a, b); a = std::max<int64_t>(a, INT32_MIN); b = std::min<int64_t>(b, INT32_MAX);
            if (r.chance(1, 3)) x = r.chance(1, 2) ? a + r.in(0, std::min<int64_t>(2, b - a)) : b - r.in(0, std::min<int64_t>(2, b - a)); else if (x < a || x > b) x = r.in(a, b); } }
        int64_t m[3]; for (auto &x : m) x = strcmp(FL, "plain") ? r.pick({2, 2, 2, 1, -1}) : r.pick({1, 1, -1, -1, 0});
        c.s = {(int64_t)k, n, m[0], m[1], m[2], r.in(0, 15), r.in(0, 15), r.in(0, 15), o.k == SCR ? sc : r.in(0, Q - 1), r.pick({0, -1, 12288, INT32_MIN, INT32_MAX})};
        return c; };
      t.valid = valid; t.run = run; t.evals = [](const Case &) { return (uint64_t)2; };
      t.nontrivial = [](const Case &c) { return c.s[1] > 0; };
      t.shrinkers = [](const Case &c) { std::vector<Case> v; for (int i = 2; i < 5; i++) if (c.s[i] != 2) { Case d = c; d.s[i] = 2; v.push_back(d); }
        for (int64_t n : {c.s[1] / 2, c.s[1] - 1}) if (n >= 0 && n < c.s[1]) { Case d = c; d.s[1] = n; for (auto &a : d.a) a.resize((size_t)n); v.push_back(d); } return v; };
      R.add(t);
    };
    bool pl = !strcmp(FL, "plain");
    mk("products", 0, np, pl ? 120000 : 60000, [](Rng &, const Op &o) { return (int64_t)o.size; });
    mk("transforms", np, nt, pl ? 200000 : 120000, [](Rng &r, const Op &) { return (int64_t)1 << r.in(1, 11); });
    mk("elementwise", nt, ne, pl ? 300000 : 200000, [](Rng &r, const Op &) { return r.chance(1, 8) ? r.in(0, 4096) : r.in(0, 70); });
    mk("shuffles", ne, ops.size(), pl ? 40000 : 20000, [](Rng &r, const Op &o) { return (int64_t)1 << (r.chance(1, 20) ? r.in(0, o.k == SHUF ? 17 : 15) : r.in(0, 10)); });
  };
  return R.main(argc, argv);
}
