// C01-C04: products against schoolbook negacyclic multiplication.
#include "adv.hpp"
using namespace pbt;

static const std::vector<int64_t> SP = {0, 1, 2, 3, 4095, 4096, 4097, 6143, 6144, 6145, 8191, 8192, 8193, 12285, 12286, 12287, 12288};

struct Pair { Arr a, b; };
// what the pair looks like: independent patterns, monomials, designed results, designed spectra
static Pair gen_pair(Rng &r, size_t n, bool lazy) {
  const int64_t Q = ref::Q;
  Pair p;
  auto vec = [&] { return gen_vec(r, n, 0, Q - 1, SP); };
  if (r.chance(1, lazy ? 20 : 5)) { auto x = adv::product_states(r, (uint32_t)n); p.a = x[0]; p.b = x[1]; return p; }   // a chosen intermediate state
  if (r.chance(1, lazy ? 3 : 20)) { auto x = adv::product_pair(r, (uint32_t)n); p.a = x[0]; p.b = x[1]; return p; }   // intermediates driven to extremes
  switch (r.in(0, 11)) {
    case 0: case 1: case 2: case 3: p.a = vec(); p.b = vec(); break;
    case 4: {  // monomial times anything
      p.a = vec(); p.b.assign(n, 0); p.b[(size_t)r.in(0, n - 1)] = r.chance(1, 2) ? r.pick(SP) : r.in(1, Q - 1); break; }
    case 5: {  // binomials, trinomials
      p.a = vec(); p.b.assign(n, 0); int k = (int)r.in(2, 4); while (k--) p.b[(size_t)r.in(0, n - 1)] = r.pick({1, Q - 1, Q - 2, 6144, 6145}); break; }
    case 6: case 7: {  // the product is a chosen pattern c (all 0 / all Q-1 / boundary values)
      Arr c; switch (r.in(0, 4)) { case 0: c.assign(n, Q - 1); break; case 1: c.assign(n, r.pick(SP)); break; case 2: c.assign(n, 0); c[(size_t)r.in(0, n - 1)] = r.pick({1, Q - 1}); break; default: c = vec(); }
      p.b.resize(n); for (int tries = 0; tries < 20; tries++) { for (auto &x : p.b) x = r.in(0, Q - 1); if (ref::negacyclic_div(c, p.b, p.a)) return p; }
      p.a = vec(); break; }
    case 8: case 9: {  // spectra with a chosen pattern
      auto &ro = ref::roots((uint32_t)n); int64_t psi = ro[(size_t)r.in(0, (int64_t)ro.size() - 1)];
      p.a = ref::from_spectrum(vec(), psi); p.b = r.chance(1, 2) ? ref::from_spectrum(vec(), psi) : vec(); break; }
    case 10: p.a = vec(); p.b = p.a; break;
    default: {  // small and centred coefficients (typical of lattice schemes)
      int64_t B = r.pick({1, 2, 5, 16, 100}); p.a.resize(n); p.b.resize(n);
      for (auto &x : p.a) x = ref::mod(r.in(-B, B)); for (auto &x : p.b) x = r.chance(1, 2) ? ref::mod(r.in(-B, B)) : r.in(0, Q - 1); break; }
  }
  if (r.chance(1, 8)) std::swap(p.a, p.b);
  return p;
}

int main(int argc, char **argv) {
  Runner R;
  static Lib L;
  R.setup = [](Runner &R) {
    std::string fam = R.prop == "C01" ? "default" : R.prop == "C02" ? "naive" : R.prop == "C03" ? "red" : "asm";
    L.open(R.lib + "/lib" + fam + ".so");
    for (int64_t n : SIZES) {
      std::vector<prod_f *> f; std::vector<std::string> names;
      for (int k = 1; k <= 5; k++) {
        std::string s = (fam == "default" ? "ntt" : fam == "naive" ? "naive_ntt" : "ntt_red") + std::to_string(n) + "_product" + std::to_string(k) + (fam == "asm" ? "_asm" : "");
        names.push_back(s); f.push_back(L.fn<prod_f>(s));
      }
      Target t;
      t.name = fam + std::to_string(n);
      bool slow = fam == "naive";
      t.quick = n == 16 ? 200000 : n == 256 ? 60000 : n == 512 ? 40000 : 30000;
      if (slow && n > 16) t.quick /= 2;
      t.thorough = t.quick * 20;
      // scalars: word offsets of a, b, c (0..15), prior contents of c, first variant (only that one if s[4] = 1..5)
      bool lazy = fam == "red" || fam == "asm";
      t.gen = [n, lazy](Rng &r) {
        Case c; auto p = gen_pair(r, (size_t)n, lazy); c.a = {p.a, p.b};
        bool al = r.chance(1, 3);
        c.s = {al ? 0 : r.in(0, 15), al ? 0 : r.in(0, 15), al ? 0 : r.in(0, 15), r.pick({0, -1, INT32_MIN, INT32_MAX, 12345}), 0};
        return c;
      };
      t.valid = [n](const Case &c) {
        if (c.a.size() != 2 || c.s.size() != 5 || c.s[4] < 0 || c.s[4] > 5) return false;
        for (int i = 0; i < 3; i++) if (c.s[i] < 0 || c.s[i] > 15) return false;
        for (auto &v : c.a) { if ((int64_t)v.size() != n) return false; for (auto x : v) if (x < 0 || x >= ref::Q) return false; }
        return true;
      };
      t.nontrivial = [](const Case &c) {
        int nz[2] = {0, 0};
        for (int k = 0; k < 2; k++) for (auto x : c.a[k]) nz[k] += x != 0;
        return nz[0] > 0 && nz[1] > 0 && (nz[0] > 1 || nz[1] > 1);
      };
      t.evals = [](const Case &c) { return c.s[4] ? 1 : 5; };
      t.shrinkers = [](const Case &c) { std::vector<Case> v; if (!c.s[4]) for (int k = 1; k <= 5; k++) { Case d = c; d.s[4] = k; v.push_back(d); } return v; };
      t.run = [n, f, names](const Case &c, std::string &msg) {
        std::vector<int32_t> a(c.a[0].begin(), c.a[0].end()), b(c.a[1].begin(), c.a[1].end());
        auto want = ref::negacyclic(a, b);
        static int32_t *mem = (int32_t *)aligned_alloc(4096, 3 * 8192);
        int32_t *pa = mem + c.s[0], *pb = mem + 2048 + c.s[1], *pc = mem + 4096 + c.s[2];
        for (int k = 0; k < 5; k++) {
          if (c.s[4] && c.s[4] != k + 1) continue;
          memcpy(pa, a.data(), n * 4); memcpy(pb, b.data(), n * 4);
          for (int64_t i = 0; i < n; i++) pc[i] = (int32_t)c.s[3];
          f[k](pc, pa, pb);
          for (int64_t i = 0; i < n; i++)
            if (pc[i] != want[i]) { msg = fmt("%s: c[%d] = %d, the product has %d", names[k].c_str(), (int)i, pc[i], want[i]); return false; }
        }
        return true;
      };
      R.add(t);
    }
  };
  return R.main(argc, argv);
}
