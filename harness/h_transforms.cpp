// C05-C08: generic transforms for every size and root against the definition of the NTT,
// and the AVX2 transforms against the C ones.
#include "adv.hpp"
using namespace pbt;
using ref::Kind;

struct Spec { const char *name; int kind; bool in_rev, out_rev, pre, post; };
static const Spec S[] = {
  {"ntt_ct_rev2std", ref::STD_OMEGA, true, false, false, false},
  {"mulntt_ct_rev2std", ref::STD_MIXED, true, false, true, false},
  {"ntt_ct_std2rev", ref::REV_OMEGA, false, true, false, false},
  {"mulntt_ct_std2rev", ref::REV_MIXED, false, true, true, false},
  {"ntt_gs_rev2std", ref::REV_OMEGA, true, false, false, false},
  {"nttmul_gs_rev2std", ref::REV_MIXED, true, false, false, true},
  {"ntt_gs_std2rev", ref::STD_OMEGA, false, true, false, false},
  {"nttmul_gs_std2rev", ref::STD_MIXED, false, true, false, true},
  {"ntt_ct_rev2std_v1", -1, true, false, false, false},
};
static const std::vector<int64_t> SPU = {0, 1, 2, 4095, 4096, 4097, 6144, 6145, 8191, 8192, 8193, 12287, 12288};
static const std::vector<int64_t> SPS = {0, 1, -1, 21499, -21499, 21498, -21498, 12288, -12288, 12289, -12289, 6144, -6144, 4096, -4096, 4095, 16384, -16384, 20480, -20480};

static std::string fam_name(const std::string &fam, const Spec &s) {
  std::string n = s.name;
  if (fam == "naive") return n + "_naive";
  if (fam == "red" || fam == "asm") {
    size_t k = n.find("_");  // ntt_ct.. -> ntt_red_ct..
    n = n.substr(0, k) + "_red" + n.substr(k);
    if (fam == "asm") n += "_asm";
  }
  return n;
}

static std::vector<int64_t> expect(const Spec &s, uint32_t n, int64_t psi, const Arr &a, bool by_definition) {
  uint32_t k = ref::lg(n);
  int64_t om = psi * psi % ref::Q;
  std::vector<int64_t> x(n);
  for (uint32_t i = 0; i < n; i++) x[s.in_rev ? ref::rev(i, k) : i] = ref::mod(a[i]);
  if (s.pre) { int64_t p = 1; for (uint32_t i = 0; i < n; i++) { x[i] = x[i] * p % ref::Q; p = p * psi % ref::Q; } }
  auto X = by_definition ? ref::dft(n, om)(x) : ref::fft(x, om);
  if (s.post) { int64_t p = 1; for (uint32_t i = 0; i < n; i++) { X[i] = X[i] * p % ref::Q; p = p * psi % ref::Q; } }
  if (!s.out_rev) return X;
  std::vector<int64_t> y(n);
  for (uint32_t i = 0; i < n; i++) y[i] = X[ref::rev(i, k)];
  return y;
}

static std::vector<int64_t> table_of(const Spec &s, uint32_t n, int64_t psi, int64_t factor) {
  if (s.kind >= 0) return ref::table(n, psi, (Kind)s.kind, factor);
  std::vector<int64_t> p(n); int64_t x = 1;
  for (auto &v : p) { v = x; x = x * psi % ref::Q; }
  return p;
}

int main(int argc, char **argv) {
  Runner R;
  static Lib L, LC;
  R.setup = [](Runner &R) {
    std::string fam = R.prop == "C05" ? "default" : R.prop == "C06" ? "naive" : R.prop == "C07" ? "red" : "asm";
    L.open(R.lib + "/lib" + fam + ".so");
    if (fam == "asm") LC.open(R.lib + "/libred.so");
    bool sgn = fam == "red" || fam == "asm";
    int NS = fam == "default" ? 9 : 8;
    static std::vector<void *> f, fc; static std::vector<std::string> names;
    for (int i = 0; i < NS; i++) {
      names.push_back(fam_name(fam, S[i])); f.push_back(L.sym(names.back()));
      if (fam == "asm") fc.push_back(LC.sym(fam_name("red", S[i])));
    }
    int64_t lo = sgn ? -21499 : 0, hi = sgn ? 21499 : ref::Q - 1;
    auto &sp = sgn ? SPS : SPU;
    uint32_t kmin = fam == "asm" ? 4 : 1;
    // scalars: n, psi, variant (-1 = all), word offset of a, halfword offset of p, value of the unused p[0]
    auto input = [=, &sp](Rng &r, uint32_t n, int64_t psi) {
      Case c;
      Arr a;
      int64_t only = -1;
      if (sgn && r.chance(2, 5)) {   // an intermediate of one variant driven to an extreme
        int v = (int)r.in(0, 7); adv::Form f = {v >= 4, S[v].in_rev, S[v].pre || S[v].post}; if (r.chance(1, 2)) only = v;
        if (r.chance(1, 3)) { a = adv::scaled(r, n, f, adv::table(n, psi, f), r.chance(1, 8) ? 0 : lo, hi); }
        else a = adv::extreme(r, n, f, adv::table(n, psi, f), Arr(n, r.pick({lo, lo, lo, 0, -6144, -12288})), Arr(n, r.pick({hi, hi, hi, 6144, 12288})));
      } else if (!sgn && r.chance(1, 4)) {   // an intermediate state of one variant chosen
        int v = (int)r.in(0, 7); adv::Form f = {v >= 4, S[v].in_rev, S[v].pre || S[v].post}; if (r.chance(1, 2)) only = v;
        a = adv::from_state(r, n, f, adv::exact_table(n, psi, f));
      } else if (r.chance(1, 6)) {   // spectrum chosen
        Arr X = gen_vec(r, n, 0, ref::Q - 1, SPU);
        a = ref::from_spectrum(X, psi);
        if (sgn) for (auto &x : a) { x += ref::Q * r.in(-2, 1); if (x < lo) x += ref::Q; if (x > hi) x -= ref::Q; }
      } else a = gen_vec(r, n, lo, hi, sp);
      c.a = {a};
      c.s = {n, psi, only, r.chance(1, 3) ? 0 : r.in(0, 15), r.chance(1, 3) ? 0 : r.in(0, 31), r.in(sgn ? -6144 : 0, sgn ? 6144 : 12288)};
      return c;
    };
    auto valid = [=](const Case &c) {
      if (c.s.size() != 6 || c.a.size() != 1) return false;
      int64_t n = c.s[0];
      if (n < (1 << kmin) || n > 2048 || (n & (n - 1)) || (int64_t)c.a[0].size() != n) return false;
      if (c.s[1] < 2 || c.s[1] >= ref::Q || ref::pw(c.s[1], n) != ref::Q - 1) return false;
      if (c.s[2] < -1 || c.s[2] >= NS || c.s[3] < 0 || c.s[3] > 15 || c.s[4] < 0 || c.s[4] > 31 || std::abs(c.s[5]) > 12288) return false;
      for (auto x : c.a[0]) if (x < lo || x > hi) return false;
      return true;
    };
    auto run = [=](const Case &c, std::string &msg) {
      uint32_t n = (uint32_t)c.s[0]; int64_t psi = c.s[1];
      static char *mem = (char *)aligned_alloc(4096, 8192 * 6);
      int32_t *a = (int32_t *)mem + c.s[3];
      int16_t *p = (int16_t *)(mem + 16384) + c.s[4];
      int32_t *b = (int32_t *)(mem + 32768);
      for (int v = 0; v < NS; v++) {
        if (c.s[2] >= 0 && c.s[2] != v) continue;
        auto tb = table_of(S[v], n, psi, sgn ? ref::inv3() : 1);
        if (S[v].kind >= 0) tb[0] = sgn ? c.s[5] : ref::mod(c.s[5]);
        for (uint32_t i = 0; i < n; i++) { p[i] = (int16_t)((sgn && i) ? ref::centered(tb[i]) : tb[i]); a[i] = (int32_t)c.a[0][i]; }
        if (fam == "default") ((ntt16u_f *)f[v])(a, n, (uint16_t *)p);
        else if (fam == "naive") ((ntt16q_f *)f[v])(a, n, (uint16_t *)p, 12289);
        else ((ntt16s_f *)f[v])(a, n, p);
        for (uint32_t i = 0; i < n; i++) if (p[i] != (int16_t)((sgn && i) ? ref::centered(tb[i]) : tb[i])) { msg = fmt("%s changed its table at index %u", names[v].c_str(), i); return false; }
        if (fam == "asm") {
          for (uint32_t i = 0; i < n; i++) b[i] = (int32_t)c.a[0][i];
          ((ntt16s_f *)fc[v])(b, n, p);
          for (uint32_t i = 0; i < n; i++)
            if (a[i] != b[i]) { msg = fmt("%s (n = %u, psi = %d): a[%u] = %d, the C version gives %d", names[v].c_str(), n, (int)psi, i, a[i], b[i]); return false; }
        } else {
          auto w = expect(S[v], n, psi, c.a[0], n <= 32);
          for (uint32_t i = 0; i < n; i++) {
            bool ok = sgn ? ref::mod(a[i]) == w[i] : a[i] == w[i];
            if (!ok) { msg = fmt("%s (n = %u, psi = %d): a[%u] = %d, the documented transform gives %d%s", names[v].c_str(), n, (int)psi, i, a[i], (int)w[i], sgn ? " modulo Q" : ""); return false; }
          }
        }
      }
      return true;
    };
    auto shr = [=](const Case &c) { std::vector<Case> v; if (c.s[2] < 0) for (int k = 0; k < NS; k++) { Case d = c; d.s[2] = k; v.push_back(d); } return v; };
    auto nontriv = [](const Case &c) { int k = 0; for (auto x : c.a[0]) k += x != 0; return k >= 1; };
    auto ev = [=](const Case &c) { return (uint64_t)(c.s[2] < 0 ? NS : 1); };
    {  // every (n, psi)
      Target t; t.name = "every_root"; t.enumerated = true;
      static std::vector<std::pair<uint32_t, int64_t>> all;
      for (uint32_t k = kmin; k <= 11; k++) for (auto psi : ref::roots(1u << k)) all.push_back({1u << k, psi});
      uint64_t seed = R.seed;
      t.quick = all.size() * 3; t.thorough = all.size() * 60;
      t.genx = [=](uint64_t i) { auto &x = all[i % all.size()]; Rng r(seed * 1000003 + i * 7919 + 5); return input(r, x.first, x.second); };
      t.gen = nullptr; t.valid = valid; t.run = run; t.shrinkers = shr; t.nontrivial = nontriv; t.evals = ev;
      R.add(t);
    }
    for (uint32_t k = kmin; k <= 11; k++) {
      Target t; uint32_t n = 1u << k; t.name = fam + "_n" + std::to_string(n);
      t.quick = n <= 16 ? 60000 : std::max<uint64_t>(12000, 3000000 / n); if (fam == "asm") t.quick *= 2;
      t.thorough = t.quick * 25;
      t.gen = [=](Rng &r) { auto &ro = ref::roots(n); return input(r, n, ro[(size_t)r.in(0, (int64_t)ro.size() - 1)]); };
      t.valid = valid; t.run = run; t.shrinkers = shr; t.nontrivial = nontriv; t.evals = ev;
      R.add(t);
    }
    if (fam != "asm") {  // the fast reference transform is the definition
      Target t; t.name = "reference_selfcheck"; t.quick = 400; t.thorough = 4000;
      t.gen = [=](Rng &r) { uint32_t n = 1u << r.in(1, 11); auto &ro = ref::roots(n); return input(r, n, ro[(size_t)r.in(0, (int64_t)ro.size() - 1)]); };
      t.run = [=](const Case &c, std::string &m) {
        std::vector<int64_t> x(c.a[0]); for (auto &v : x) v = ref::mod(v);
        if (ref::fft(x, c.s[1] * c.s[1] % ref::Q) != ref::dft((uint32_t)c.s[0], c.s[1] * c.s[1] % ref::Q)(x)) { m = "reference transforms differ"; return false; }
        return true; };
      t.nontrivial = [](const Case &) { return false; };
      R.add(t);
    }
  };
  return R.main(argc, argv);
}
