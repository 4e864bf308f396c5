// C12: size-specific transforms, their inverses and the shipped scaling tables.
#include "lib.hpp"
#include "adv.hpp"
using namespace pbt;
static const int64_t Q = ref::Q;
static const int64_t PSI[4] = {1212, 1002, 1003, 1014};
struct W { const char *pre, *suf; bool in_rev, out_rev, mul; };
static const W FW[6] = {{"ntt", "_ct_rev2std", 1, 0, 0}, {"ntt", "_gs_rev2std", 1, 0, 0}, {"ntt", "_ct_std2rev", 0, 1, 0}, {"ntt", "_gs_std2rev", 0, 1, 0}, {"mulntt", "_ct_rev2std", 1, 0, 1}, {"mulntt", "_ct_std2rev", 0, 1, 1}};
static const W IN[6] = {{"intt", "_ct_rev2std", 1, 0, 0}, {"intt", "_gs_rev2std", 1, 0, 0}, {"intt", "_ct_std2rev", 0, 1, 0}, {"intt", "_gs_std2rev", 0, 1, 0}, {"inttmul", "_gs_rev2std", 1, 0, 1}, {"inttmul", "_gs_std2rev", 0, 1, 1}};
static const char *FAM[4] = {"default", "naive", "red", "asm"};
static Lib L[4];

static std::string wname(int fam, const W &w, int64_t n) {
  std::string s = fam == 1 ? "naive_" : "";
  s += w.pre; if (fam >= 2) s += "_red";
  s += std::to_string(n) + w.suf; if (fam == 3) s += "_asm";
  return s;
}

int main(int argc, char **argv) {
  Runner R;
  R.setup = [](Runner &R) {
    for (int f = 0; f < 4; f++) L[f].open(R.lib + "/libw_" + FAM[f] + ".so");
    for (int fam = 0; fam < 4; fam++) for (int si = 0; si < 4; si++) {
      int64_t n = SIZES[si], psi = PSI[si], om = psi * psi % Q;
      static inplace_f *fw[4][4][6], *iv[4][4][6];
      for (int k = 0; k < 6; k++) { fw[fam][si][k] = L[fam].fn<inplace_f>("W_" + wname(fam, FW[k], n)); iv[fam][si][k] = L[fam].fn<inplace_f>("W_" + wname(fam, IN[k], n)); }
      Target t; t.name = std::string(FAM[fam]) + std::to_string(n);
      t.quick = n == 16 ? 80000 : n == 256 ? 20000 : 12000; t.thorough = t.quick * 30;
      // scalars: forward 0..5, inverse 0..5, operation between (red: 0 normalize, 1 reduce twice, 2 normalize and shift), scaling 0..5, word offset
      bool sgn = fam >= 2;
      int64_t lo = sgn ? -21499 : 0, hi = sgn ? 21499 : Q - 1;
      t.gen = [=](Rng &r) {
        Case c; int f = (int)r.in(0, 5); std::vector<int64_t> ok; for (int k = 0; k < 6; k++) if (IN[k].in_rev == FW[f].out_rev) ok.push_back(k);
        static const std::vector<int64_t> spu = {0, 1, 6144, 6145, 12287, 12288, 4095, 4096}, sps = {0, 1, -1, 6144, -6144, 12288, -12288, 21499, -21499};
        bool wide = sgn && r.chance(1, 2);
        c.a = {wide ? gen_vec(r, n, lo, hi, sps) : gen_vec(r, n, 0, Q - 1, spu)};
        c.s = {f, r.pick(ok), r.in(0, 2), r.in(0, 5), r.in(0, 15)};
        uint32_t N = (uint32_t)n, lgn = ref::lg(N);
        if (r.chance(1, 5)) {   // the forward transform driven to an extreme, to a chosen operand, or through a chosen state
          adv::Form g = {f == 1 || f == 3, FW[f].in_rev, FW[f].mul};
          if (!sgn) c.a[0] = adv::from_state(r, N, g, adv::exact_table(N, psi, g));
          else { auto p = adv::table(N, psi, g); int64_t l = wide ? lo : 0, h = wide ? hi : Q - 1; c.a[0] = r.chance(1, 2) ? adv::extreme(r, N, g, p, Arr(N, l), Arr(N, h)) : adv::scaled(r, N, g, p, l, h); }
        } else if (r.chance(1, 4)) {   // the same for the inverse transform: the spectrum is chosen, the input follows
          int k = (int)c.s[1]; adv::Form g = {k != 0 && k != 2, IN[k].in_rev, IN[k].mul}; int64_t ip = ref::inv(psi); Arr X;
          if (!sgn) X = adv::from_state(r, N, g, adv::exact_table(N, ip, g));
          else { auto p = adv::table(N, ip, g); int64_t l = c.s[2] == 2 ? -6144 : 0, h = c.s[2] == 2 ? 6144 : Q - 1; if (c.s[2] == 1) l = -130, h = 12413; X = r.chance(1, 2) ? adv::extreme(r, N, g, p, Arr(N, l), Arr(N, h)) : adv::scaled(r, N, g, p, l, h); }
          std::vector<int64_t> S(N); int64_t q = c.s[2] == 1 && sgn ? ref::inv(9) : 1, in = ref::inv(n), z = 1;
          for (uint32_t i = 0; i < N; i++) S[g.in_rev ? ref::rev(i, lgn) : i] = ref::mod(X[i]) * q % Q;
          auto y = ref::fft(S, ref::inv(om)); Arr a(N);
          for (uint32_t i = 0; i < N; i++) { int64_t v = y[i] * in % Q; if (FW[f].mul) { v = v * z % Q; z = z * ip % Q; } a[FW[f].in_rev ? ref::rev(i, lgn) : i] = v; }
          c.a[0] = a;
        }
        return c; };
      t.valid = [=](const Case &c) {
        if (c.s.size() != 5 || c.a.size() != 1 || (int64_t)c.a[0].size() != n) return false;
        for (int i = 0; i < 2; i++) if (c.s[i] < 0 || c.s[i] > 5) return false;
        if (IN[c.s[1]].in_rev != FW[c.s[0]].out_rev || c.s[2] < 0 || c.s[2] > 2 || c.s[3] < 0 || c.s[3] > 5 || c.s[4] < 0 || c.s[4] > 15) return false;
        for (auto x : c.a[0]) if (x < lo || x > hi) return false;
        return true; };
      t.evals = [](const Case &) { return 3; };
      t.nontrivial = [](const Case &c) { for (auto x : c.a[0]) if (x) return true; return false; };
      t.run = [=](const Case &c, std::string &msg) {
        const W &F = FW[c.s[0]], &I = IN[c.s[1]];
        uint32_t lgn = ref::lg((uint32_t)n);
        static int32_t *mem = (int32_t *)aligned_alloc(4096, 8192);
        int32_t *a = mem + c.s[4];
        std::vector<int64_t> x(n), y(n);
        for (int64_t i = 0; i < n; i++) { a[i] = (int32_t)c.a[0][i]; x[F.in_rev ? ref::rev(i, lgn) : i] = ref::mod(c.a[0][i]); }
        // forward = documented NTT
        fw[fam][si][c.s[0]](a);
        y = x; if (F.mul) { int64_t p = 1; for (auto &v : y) { v = v * p % Q; p = p * psi % Q; } }
        auto X = ref::fft(y, om);
        for (int64_t i = 0; i < n; i++) {
          int64_t w = X[F.out_rev ? ref::rev(i, lgn) : i], g = sgn ? ref::mod(a[i]) : a[i];
          if (g != w) { msg = fmt("%s: a[%d] = %d, expected %d", wname(fam, F, n).c_str(), (int)i, a[i], (int)w); return false; }
        }
        int64_t fac = 1;
        const Lib &l = L[fam];
        std::string sx = fam == 3 ? "_asm" : "";
        auto norm = [&] { if (sgn) L[2].fn<arr_f>("normalize")(a, (uint32_t)n); };
        if (sgn) {
          if (c.s[2] == 1) { l.fn<arr_f>("reduce_array_twice" + sx)(a, (uint32_t)n); fac = 9; }
          else { norm(); if (c.s[2] == 2) l.fn<arr_f>("shift_array" + sx)(a, (uint32_t)n); }
        }
        iv[fam][si][c.s[1]](a);
        // expected, in standard order: n * fac * x * (psi^i if mulntt) * (psi^-i if inttmul)
        std::vector<int64_t> e(n); int64_t p = 1, q = 1, ip = ref::inv(psi);
        for (int64_t i = 0; i < n; i++) { e[i] = x[i] * n % Q * fac % Q; if (F.mul) e[i] = e[i] * p % Q; if (I.mul) e[i] = e[i] * q % Q; p = p * psi % Q; q = q * ip % Q; }
        for (int64_t i = 0; i < n; i++) {
          int64_t w = e[I.out_rev ? ref::rev(i, lgn) : i], g = sgn ? ref::mod(a[i]) : a[i];
          if (g != w) { msg = fmt("%s after %s: a[%d] = %d, expected %d (n times the input%s)", wname(fam, I, n).c_str(), wname(fam, F, n).c_str(), (int)i, a[i], (int)w, fac == 9 ? ", times 9" : ""); return false; }
        }
        if (I.out_rev) return true;
        // scaling by the shipped constants and tables
        norm();
        std::string base = std::string(sgn ? "ntt_red" : "ntt") + std::to_string(n);
        static const char *tb[2][6] = {{"inv_n", "_psi_powers", "_inv_psi_powers", "_scaled_inv_psi_powers", "inv_n", "_scaled_inv_psi_powers"},
                                       {"rescale8", "_psi_powers", "_inv_psi_powers", "_scaled_inv_psi_powers", "rescale6", "_scaled_inv_psi_powers_var"}};
        const char *nm = tb[sgn][c.s[3]];
        int64_t i3 = ref::inv3(), in = ref::inv(n);
        int64_t k = 1; int dir = 0;
        if (!sgn) { k = c.s[3] == 1 || c.s[3] == 2 ? 1 : in; dir = c.s[3] == 0 || c.s[3] == 4 ? 0 : c.s[3] == 1 ? 1 : -1; }
        else { static const int pwr[6] = {7, 0, 0, 7, 5, 5}; k = c.s[3] == 1 || c.s[3] == 2 ? 1 : ref::pw(i3, pwr[c.s[3]]) * in % Q; dir = c.s[3] == 0 || c.s[3] == 4 ? 0 : c.s[3] == 1 ? 1 : -1; }
        if (nm[0] != '_') {
          int32_t v = *(const int32_t *)l.sym("K_" + base + "_" + nm);
          if (fam == 0) l.fn<smul_f>("scalar_mul_array")(a, (uint32_t)n, v);
          else if (fam == 1) l.fn<smulq_f>("scalar_mul_array_naive")(a, (uint32_t)n, v, 12289);
          else l.fn<smul_f>("scalar_mul_reduce_array" + sx)(a, (uint32_t)n, v);
        } else {
          void *tbl = l.sym(base + nm);
          if (fam == 0) l.fn<ntt16u_f>("mul_array16")(a, (uint32_t)n, (uint16_t *)tbl);
          else if (fam == 1) l.fn<ntt16q_f>("mul_array16_naive")(a, (uint32_t)n, (uint16_t *)tbl, 12289);
          else l.fn<ntt16s_f>("mul_reduce_array16" + sx)(a, (uint32_t)n, (int16_t *)tbl);
        }
        int64_t d = 1, step = dir == 0 ? 1 : dir > 0 ? psi : ip;
        for (int64_t i = 0; i < n; i++) {
          int64_t w = e[i] * k % Q * d % Q, g = sgn ? ref::mod(a[i]) : a[i]; d = d * step % Q;
          if (g != w) { msg = fmt("%s, %s, scaled by %s%s: a[%d] = %d, expected %d", wname(fam, F, n).c_str(), wname(fam, I, n).c_str(), base.c_str(), nm, (int)i, a[i], (int)w); return false; }
        }
        return true; };
      R.add(t);
    }
  };
  return R.main(argc, argv);
}
