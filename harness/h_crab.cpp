// C24: the verifier's abstract domain, compiled against stand-ins for crab and clam (stubs/crab_stub.hpp).
#include "pbt.hpp"
#include "ntt_intervals.cpp"
using namespace pbt;
typedef ikos::z_number Z;
typedef ntt_verifier::ntt_interval_domain<clam::number_t, clam::varname_t> D;
typedef ikos::interval_domain<clam::number_t, clam::varname_t> M;
typedef crab::variable<clam::number_t, clam::varname_t> Var;
typedef ikos::interval<Z> Itv;
typedef ikos::bound<Z> Bnd;

static mpz_class fdiv(const mpz_class &x) { mpz_class r; mpz_fdiv_q_ui(r.get_mpz_t(), x.get_mpz_t(), 4096); return r; }
static mpz_class redz(const mpz_class &x) { mpz_class q = fdiv(x); return 3 * (x - 4096 * q) - q; }
// extremes of the reduction on [a, b]: it has slope 3 inside blocks of 4096, and its value at equal offsets falls by 1 per block,
// so the extremes are among the ends, the first and last block starts and the first and last block ends inside the interval
static void tight(const mpz_class &a, const mpz_class &b, mpz_class &lo, mpz_class &hi) {
  lo = hi = redz(a);
  auto see = [&](mpz_class x) { if (x < a || x > b) return; mpz_class r = redz(x); if (r < lo) lo = r; if (r > hi) hi = r; };
  see(b);
  for (mpz_class q : {fdiv(a), mpz_class(fdiv(a) + 1), fdiv(b), mpz_class(fdiv(b) - 1)}) { see(4096 * q); see(4096 * q + 4095); }
}
static Var var(int64_t i) { static const char *n[] = {"x", "y", "z", "w", "u"}; return Var(n[((uint64_t)i) % 5]); }
static Z num(int64_t v, int64_t e) { mpz_class x((long)v); x <<= (unsigned long)(e < 0 ? 0 : e > 200 ? 200 : e); return Z(x); }
static std::string show(const Itv &i) { std::ostringstream o; o << i; return o.str(); }

// the model of one intrinsic call on the interval domain
static void model_red(M &m, const Var &in, const Var &out) {
  if (m.is_bottom()) return;
  Itv i = m.at(in);
  auto a = i.lb().number(), b = i.ub().number();
  if (a && b) { mpz_class lo, hi; tight(a->get(), b->get(), lo, hi); m.set(out, Itv(Bnd(Z(lo)), Bnd(Z(hi)))); }
  else m -= out;
}
static bool same(const D &d, const M &m, std::string &msg, const char *what) {
  if (d.is_bottom() != m.is_bottom()) { msg = fmt("%s: the domain is%s bottom, expected%s", what, d.is_bottom() ? "" : " not", m.is_bottom() ? " bottom" : " a state"); return false; }
  for (int k = 0; k < 5; k++) { Itv a = d.at(var(k)), b = m.at(var(k)); if (a != b) { msg = fmt("%s: variable %s is %s, expected %s", what, var(k).name().c_str(), show(a).c_str(), show(b).c_str()); return false; } }
  if (d.is_top() != m.is_top()) { msg = fmt("%s: is_top is %d, expected %d", what, (int)d.is_top(), (int)m.is_top()); return false; }
  return true;
}
typedef crab::linear_expression<Z, std::string> Lin;
typedef crab::linear_constraint<Z, std::string> Cst;
static Lin lin(const int64_t *p) { Lin e(Z((long)p[2])); e.t.insert({var(p[0]), Z((long)(p[1] % 4))}); return e; }
static void assign_itv(D &d, M &m, const Var &v, const Itv &i) {   // the domain has no set: build it from constraints
  crab::linear_constraint_system<Z, std::string> cs;
  d -= v; m -= v;
  if (auto n = i.lb().number()) { Cst c; c.e.t.insert({v, Z(-1)}); c.e.k = *n; cs += c; }
  if (auto n = i.ub().number()) { Cst c; c.e.t.insert({v, Z(1)}); c.e.k = -*n; cs += c; }
  d += cs; m += cs;
}
// a bound from three numbers: kind (0 finite, 1 infinite), value, exponent
static Itv itv(const int64_t *p) {
  Z a = num(p[1], p[2]), b = num(p[4], p[5]);
  if (!(p[0] & 1) && !(p[3] & 1) && b < a) std::swap(a, b);
  return Itv(p[0] & 1 ? Bnd::minus_infinity() : Bnd(a), p[3] & 1 ? Bnd::plus_infinity() : Bnd(b));
}
static const int OP = 12;

int main(int argc, char **argv) {
  Runner R;
  R.setup = [](Runner &R) {
    auto near = [](Rng &r) { int64_t k = r.pick({0, 1, -1, 2, -2, 1000, -1000, 524288, -524288, 2147483648LL, -2147483648LL, 4398046511104LL}); return r.chance(1, 3) ? r.in(-100000, 100000) : r.chance(1, 4) ? r.in(-(1LL << 62), 1LL << 62) >> r.in(0, 50) : (k + r.in(-2, 2)) * 4096 + r.pick({0, -1, 1, 4095, 2, -2, 2048}); };
    auto gi = [=](Rng &r, Arr &s, int pinf) {
      int64_t a = near(r), b = r.chance(1, 3) ? a + r.in(0, 12) : r.chance(1, 2) ? a + r.in(0, 20000) : near(r), e = r.chance(1, 12) ? r.in(1, 150) : 0;
      s.insert(s.end(), {r.chance(1, pinf), a, e, r.chance(1, pinf), b, e});
    };
    {
      // every pair of bounds among the points near the block borders, and every interval of the first blocks on a grid
      Target t; t.name = "red_grid"; t.enumerated = true;
      static std::vector<int64_t> g;
      for (int64_t q : {-1048577, -1048576, -3, -2, -1, 0, 1, 2, 3, 524287, 524288, 1048575}) for (int64_t d : {0, 1, 2, 1000, 2047, 4093, 4094, 4095}) g.push_back(q * 4096 + d);
      t.quick = t.thorough = g.size() * (g.size() + 1) / 2 * 2;
      t.genx = [](uint64_t i) { Case c; uint64_t alias = i & 1; i >>= 1; size_t a = 0, n = g.size(); while (i >= n - a) { i -= n - a; a++; } c.s = {0, g[a], 0, 0, g[a + i], 0, (int64_t)alias}; return c; };
      t.run = [](const Case &c, std::string &msg) {
        D d; M m; assign_itv(d, m, var(2), Itv(Z(7), Z(9)));
        assign_itv(d, m, var(0), itv(c.s.data()));
        Var out = var(c.s[6] & 1 ? 0 : 1);
        d.intrinsic("red", {crab::variable_or_constant<Z, std::string>(var(0))}, {out});
        model_red(m, var(0), out);
        return same(d, m, msg, "red"); };
      t.valid = [](const Case &c) { return c.s.size() == 7; };
      R.add(t);
      Target u = t; u.name = "red_random"; u.enumerated = false; u.genx = nullptr; u.quick = 150000; u.thorough = 6000000;
      u.gen = [=](Rng &r) { Case c; gi(r, c.s, 10); c.s.push_back(r.in(0, 1)); return c; };
      R.add(u);
    }
    {  // the concrete meaning, not the formula: every value of a short interval, sampled values of a long one, stay inside; the ends are attained
      Target t; t.name = "red_concrete"; t.quick = 40000; t.thorough = 1000000;
      t.gen = [=](Rng &r) { Case c; int64_t a = near(r), w = r.chance(3, 4) ? r.in(0, 30) : r.in(0, 9000); c.s = {a, a + w}; return c; };
      t.valid = [](const Case &c) { return c.s.size() == 2 && c.s[0] <= c.s[1] && c.s[1] - c.s[0] <= 20000; };
      t.run = [](const Case &c, std::string &msg) {
        D d; M m; assign_itv(d, m, var(0), Itv(Z((long)c.s[0]), Z((long)c.s[1])));
        d.intrinsic("red", {crab::variable_or_constant<Z, std::string>(var(0))}, {var(1)});
        int64_t lo = INT64_MAX, hi = INT64_MIN;
        for (int64_t x = c.s[0]; x <= c.s[1]; x++) { int64_t r = 3 * (x & 4095) - (x >> 12); lo = std::min(lo, r); hi = std::max(hi, r); }
        Itv w(Z((long)lo), Z((long)hi)), got = d.at(var(1));
        if (got != w) { msg = fmt("red of [%" PRId64 ", %" PRId64 "] is %s, the values span %s", c.s[0], c.s[1], show(got).c_str(), show(w).c_str()); return false; }
        return true; };
      R.add(t);
    }
    {
      // model-based histories over three states and five variables
      Target t; t.name = "history"; t.quick = 60000; t.thorough = 2500000;
      t.gen = [=](Rng &r) {
        Case c; int n = (int)r.in(1, 40);
        for (int k = 0; k < n; k++) {
          Arr o = {r.in(0, 29), r.in(0, 2), r.in(0, 2), r.in(0, 4), r.in(0, 4), r.in(0, 6)};
          gi(r, o, 8);
          c.s.insert(c.s.end(), o.begin(), o.end());
        }
        return c; };
      t.valid = [](const Case &c) { return c.s.size() % OP == 0; };
      t.nontrivial = [](const Case &c) { for (size_t i = 0; i + OP <= c.s.size(); i += OP) if (c.s[i] < 8) return true; return false; };
      t.evals = [](const Case &c) { return (uint64_t)(c.s.size() / OP); };
      t.shrinkers = [](const Case &c) { std::vector<Case> v; for (size_t i = 0; i + OP <= c.s.size(); i += OP) { Case d = c; d.s.erase(d.s.begin() + (long)i, d.s.begin() + (long)(i + OP)); v.push_back(d); } return v; };
      t.run = [](const Case &c, std::string &msg) {
        D d[3]; M m[3];
        for (size_t i = 0; i + OP <= c.s.size(); i += OP) {
          const int64_t *p = &c.s[i]; int64_t op = ((uint64_t)p[0]) % 30; size_t s = ((uint64_t)p[1]) % 3, o = ((uint64_t)p[2]) % 3;
          Var x = var(p[3]), y = var(p[4]), z = var(p[5]); int64_t k = p[7];
          typedef crab::domains::arith_operation_t AO; typedef crab::domains::bitwise_operation_t BO;
          const char *what = "history"; bool ok = true;
          if (op < 5) { what = "assume"; assign_itv(d[s], m[s], x, itv(p + 6)); }
          else if (op < 10) { what = "red"; d[s].intrinsic("red", {crab::variable_or_constant<Z, std::string>(x)}, {y}); model_red(m[s], x, y); }
          else switch (op) {
            case 10: what = "join"; d[s] |= d[o]; m[s] = m[s] | m[o]; break;
            case 11: what = "join"; { D t(d[s] | d[o]); d[((uint64_t)p[5]) % 3] = t; M u(m[s] | m[o]); m[((uint64_t)p[5]) % 3] = u; s = ((uint64_t)p[5]) % 3; } break;
            case 12: what = "meet"; d[s] &= d[o]; m[s] = m[s] & m[o]; break;
            case 13: what = "meet"; { D t(d[s] & d[o]); M u(m[s] & m[o]); s = ((uint64_t)p[5]) % 3; d[s] = t; m[s] = u; } break;
            case 14: what = "widening"; { D t(d[s] || d[o]); M u(m[s] || m[o]); d[s] = t; m[s] = u; } break;
            case 15: what = "narrowing"; { D t(d[s] && d[o]); M u(m[s] && m[o]); d[s] = t; m[s] = u; } break;
            case 16: what = "widening with thresholds"; { crab::thresholds<Z> ts; ts.t = {Z((long)k), Z((long)p[10])}; D t(d[s].widening_thresholds(d[o], ts)); M u(m[s].widening_thresholds(m[o], ts)); d[s] = t; m[s] = u; } break;
            case 17: what = "forget"; d[s] -= x; m[s] -= x; break;
            case 18: what = "forget"; d[s].forget({x, y}); m[s].forget({x, y}); break;
            case 19: what = "project"; d[s].project({x, y}); m[s].project({x, y}); break;
            case 20: what = "assign"; { int64_t q[3] = {p[4], p[5], k}; d[s].assign(x, lin(q)); m[s].assign(x, lin(q)); } break;
            case 21: what = "weak assign"; { int64_t q[3] = {p[4], p[5], k}; d[s].weak_assign(x, lin(q)); m[s].weak_assign(x, lin(q)); } break;
            case 22: what = "arithmetic"; { AO a = (AO)(((uint64_t)p[9] + (uint64_t)k) % 7); if (p[8] & 1) { d[s].apply(a, x, y, z); m[s].apply(a, x, y, z); } else { d[s].apply(a, x, y, Z((long)k)); m[s].apply(a, x, y, Z((long)k)); } } break;
            case 23: what = "bitwise"; { BO a = (BO)(((uint64_t)p[9] + (uint64_t)k) % 6); if (p[5] & 1) { d[s].apply(a, x, y, z); m[s].apply(a, x, y, z); } else { d[s].apply(a, x, y, Z((long)k)); m[s].apply(a, x, y, Z((long)k)); } } break;
            case 24: what = "cast"; { auto a = (crab::domains::int_conv_operation_t)((uint64_t)k % 3); d[s].apply(a, x, y); m[s].apply(a, x, y); } break;
            case 25: what = "select"; { int64_t q[3] = {p[4], p[5], k % 5000}, q2[3] = {p[3], 1, p[10]}; Cst cc; cc.e = lin(q); d[s].select(x, cc, lin(q2), lin(q)); m[s].select(x, cc, lin(q2), lin(q)); } break;
            case 26: what = "expand"; if (x != y) { d[s] -= y; m[s] -= y; d[s].expand(x, y); m[s].expand(x, y); } break;
            case 27: what = "rename"; if (x != y) { d[s] -= y; m[s] -= y; d[s].rename({x}, {y}); m[s].rename({x}, {y}); } break;
            case 28: what = "bottom or top";
              switch ((uint64_t)k % 5) { case 0: d[s].set_to_bottom(); m[s].set_to_bottom(); break; case 1: d[s].set_to_top(); m[s].set_to_top(); break;
                case 2: d[s] = d[o].make_bottom(); m[s] = m[o].make_bottom(); break; case 3: d[s] = d[o].make_top(); m[s] = m[o].make_top(); break; default: d[s] = d[o]; m[s] = m[o]; } break;
            default: what = "order and entailment"; {
              Cst cc; int64_t q[3] = {p[3], p[5], k}; cc.e = lin(q);
              ok = (d[s] <= d[o]) == (m[s] <= m[o]) && d[s].entails(cc) == m[s].entails(cc) && d[s][x] == m[s].at(x);
              if (!ok) { msg = "inclusion, entailment or the interval of a variable differs from the interval domain's"; return false; } }
          }
          for (size_t k = 0; k < 3; k++) if (!same(d[k], m[k], msg, k == s ? what : "another state")) return false;
        }
        return true; };
      R.add(t);
    }
  };
  return R.main(argc, argv);
}
