// Stand-ins for the parts of crab and clam that verifier/src/ntt_intervals.{hpp,cpp} use, so that its abstract domain can be
// compiled and run without them: unbounded integers (GMP, two's complement bit operations, flooring shifts), intervals with
// infinite bounds and a non-relational interval domain. Operations of the interval domain the verifier only passes on
// (bitwise, division, casts) are deterministic functions of their operator and operands.
#pragma once
#include <boost/optional.hpp>
#include <cstdint>
#include <functional>
#include <gmpxx.h>
#include <map>
#include <memory>
#include <ostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace ikos {
class z_number {
  mpz_class n;
public:
  z_number() : n(0) {}
  z_number(int v) : n(v) {}
  z_number(unsigned v) : n(v) {}
  z_number(long v) : n(v) {}
  z_number(unsigned long v) : n(v) {}
  z_number(long long v) : n((long)v) {}
  z_number(unsigned long long v) : n((unsigned long)v) {}
  explicit z_number(mpz_class v) : n(v) {}
  explicit z_number(const std::string &s) : n(s) {}
  const mpz_class &get() const { return n; }
  std::string get_str(unsigned base = 10) const { return n.get_str((int)base); }
  bool fits_int64() const { return n.fits_slong_p(); }
  bool fits_sint() const { return n.fits_sint_p(); }
  bool fits_slong() const { return n.fits_slong_p(); }
  explicit operator int64_t() const { return n.get_si(); }
  z_number operator+(z_number x) const { return z_number(mpz_class(n + x.n)); }
  z_number operator-(z_number x) const { return z_number(mpz_class(n - x.n)); }
  z_number operator*(z_number x) const { return z_number(mpz_class(n * x.n)); }
  z_number operator/(z_number x) const { if (x.n == 0) throw std::runtime_error("z_number: division by zero"); return z_number(mpz_class(n / x.n)); }
  z_number operator%(z_number x) const { if (x.n == 0) throw std::runtime_error("z_number: division by zero"); return z_number(mpz_class(n % x.n)); }
  z_number operator&(z_number x) const { return z_number(mpz_class(n & x.n)); }
  z_number operator|(z_number x) const { return z_number(mpz_class(n | x.n)); }
  z_number operator^(z_number x) const { return z_number(mpz_class(n ^ x.n)); }
  z_number operator~() const { return z_number(mpz_class(~n)); }
  z_number operator<<(z_number x) const { return z_number(mpz_class(n << x.n.get_ui())); }
  z_number operator>>(z_number x) const { return z_number(mpz_class(n >> x.n.get_ui())); }
  z_number operator-() const { return z_number(mpz_class(-n)); }
  z_number &operator+=(z_number x) { n += x.n; return *this; }
  z_number &operator-=(z_number x) { n -= x.n; return *this; }
  z_number &operator*=(z_number x) { n *= x.n; return *this; }
  z_number &operator/=(z_number x) { *this = *this / x; return *this; }
  z_number &operator%=(z_number x) { *this = *this % x; return *this; }
  z_number &operator++() { ++n; return *this; }
  z_number &operator--() { --n; return *this; }
  z_number operator++(int) { z_number r(*this); ++n; return r; }
  z_number operator--(int) { z_number r(*this); --n; return r; }
  bool operator==(z_number x) const { return n == x.n; }
  bool operator!=(z_number x) const { return n != x.n; }
  bool operator<(z_number x) const { return n < x.n; }
  bool operator<=(z_number x) const { return n <= x.n; }
  bool operator>(z_number x) const { return n > x.n; }
  bool operator>=(z_number x) const { return n >= x.n; }
  z_number fill_ones() const { mpz_class r = n; mp_bitcnt_t k = mpz_sizeinbase(n.get_mpz_t(), 2); if (n == 0) return z_number(); r = 1; r <<= k; r -= 1; return z_number(r); }
};
template <class T> z_number operator+(T a, z_number b) { return z_number(a) + b; }
template <class T> z_number operator-(T a, z_number b) { return z_number(a) - b; }
template <class T> z_number operator*(T a, z_number b) { return z_number(a) * b; }
inline std::ostream &operator<<(std::ostream &o, const z_number &n) { return o << n.get_str(); }

template <class N> class bound {
  int inf; N n;   // inf: -1, 0, 1
  bound(int i, N v, int) : inf(i), n(v) {}
public:
  bound(N v) : inf(0), n(v) {}
  bound(int v) : inf(0), n(v) {}
  static bound plus_infinity() { return bound(1, N(0), 0); }
  static bound minus_infinity() { return bound(-1, N(0), 0); }
  static bound min(bound a, bound b) { return a <= b ? a : b; }
  static bound max(bound a, bound b) { return a <= b ? b : a; }
  bool is_infinite() const { return inf != 0; }
  bool is_finite() const { return inf == 0; }
  bool is_plus_infinity() const { return inf > 0; }
  bool is_minus_infinity() const { return inf < 0; }
  boost::optional<N> number() const { if (inf) return boost::optional<N>(); return boost::optional<N>(n); }
  bound operator-() const { return bound(-inf, -n, 0); }
  bound operator+(bound o) const { return inf ? *this : o.inf ? o : bound(n + o.n); }
  bound operator-(bound o) const { return *this + (-o); }
  bound operator*(bound o) const {
    auto sg = [](const bound &b) { return b.inf ? b.inf : b.n > N(0) ? 1 : b.n < N(0) ? -1 : 0; };
    int s = sg(*this) * sg(o);
    if (!s) return bound(N(0));
    return inf || o.inf ? bound(s, N(0), 0) : bound(n * o.n);
  }
  bool operator<=(const bound &o) const { return inf != o.inf ? inf < o.inf : inf || n <= o.n; }
  bool operator<(const bound &o) const { return !(o <= *this); }
  bool operator>=(const bound &o) const { return o <= *this; }
  bool operator>(const bound &o) const { return o < *this; }
  bool operator==(const bound &o) const { return inf == o.inf && (inf || n == o.n); }
  bool operator!=(const bound &o) const { return !(*this == o); }
  friend std::ostream &operator<<(std::ostream &o, const bound &b) { if (b.inf) return o << (b.inf > 0 ? "+oo" : "-oo"); return o << b.n; }
};

template <class N> class interval {
public:
  using bound_t = bound<N>;
private:
  bound_t l, u;
  interval() : l(N(0)), u(N(-1)) {}
public:
  static interval top() { return interval(bound_t::minus_infinity(), bound_t::plus_infinity()); }
  static interval bottom() { return interval(); }
  interval(bound_t a, bound_t b) : l(a), u(b) { if (!(a <= b)) { l = bound_t(N(0)); u = bound_t(N(-1)); } }
  interval(bound_t b) : l(b), u(b) { if (b.is_infinite()) { l = bound_t(N(0)); u = bound_t(N(-1)); } }
  interval(N n) : l(n), u(n) {}
  interval(N a, N b) : interval(bound_t(a), bound_t(b)) {}
  bound_t lb() const { return l; }
  bound_t ub() const { return u; }
  bool is_bottom() const { return !(l <= u); }
  bool is_top() const { return l.is_infinite() && u.is_infinite(); }
  boost::optional<N> singleton() const { if (!is_bottom() && l == u) return l.number(); return boost::optional<N>(); }
  bool operator[](N n) const { return !is_bottom() && l <= bound_t(n) && bound_t(n) <= u; }
  bool operator<=(const interval &o) const { return is_bottom() || (!o.is_bottom() && o.l <= l && u <= o.u); }
  bool operator==(const interval &o) const { return is_bottom() ? o.is_bottom() : !o.is_bottom() && l == o.l && u == o.u; }
  bool operator!=(const interval &o) const { return !(*this == o); }
  interval operator|(const interval &o) const { return is_bottom() ? o : o.is_bottom() ? *this : interval(bound_t::min(l, o.l), bound_t::max(u, o.u)); }
  interval operator&(const interval &o) const { return is_bottom() || o.is_bottom() ? bottom() : interval(bound_t::max(l, o.l), bound_t::min(u, o.u)); }
  interval operator||(const interval &o) const {
    return is_bottom() ? o : o.is_bottom() ? *this : interval(o.l < l ? bound_t::minus_infinity() : l, u < o.u ? bound_t::plus_infinity() : u); }
  interval operator&&(const interval &o) const {
    return is_bottom() || o.is_bottom() ? bottom() : interval(l.is_infinite() ? o.l : l, u.is_infinite() ? o.u : u); }
  interval operator+(const interval &o) const { return is_bottom() || o.is_bottom() ? bottom() : interval(l + o.l, u + o.u); }
  interval operator-() const { return is_bottom() ? bottom() : interval(-u, -l); }
  interval operator-(const interval &o) const { return *this + (-o); }
  interval operator*(const interval &o) const {
    if (is_bottom() || o.is_bottom()) return bottom();
    bound_t a = l * o.l, b = l * o.u, c = u * o.l, d = u * o.u;
    return interval(bound_t::min(bound_t::min(a, b), bound_t::min(c, d)), bound_t::max(bound_t::max(a, b), bound_t::max(c, d)));
  }
  friend std::ostream &operator<<(std::ostream &o, const interval &i) { if (i.is_bottom()) return o << "_|_"; return o << "[" << i.l << "," << i.u << "]"; }
};
}  // namespace ikos

namespace crab {
class crab_os {
  std::ostream *o;
public:
  std::ostringstream own;
  crab_os() : o(&own) {}
  explicit crab_os(std::ostream *x) : o(x) {}
  template <class T> crab_os &operator<<(const T &x) { *o << x; return *this; }
  std::string str() const { return own.str(); }
};
inline crab_os &outs() { static std::ostream nul(nullptr); static crab_os c(&nul); return c; }
inline crab_os &errs() { return outs(); }
namespace vpstub { inline unsigned &warnings() { static unsigned n = 0; return n; }
template <class... T> void warn(const T &...) { warnings()++; }
struct crab_error : std::runtime_error { using std::runtime_error::runtime_error; };
template <class... T> [[noreturn]] void error(const T &...) { throw crab_error("CRAB_ERROR"); } }
#define CRAB_WARN(...) ::crab::vpstub::warn(__VA_ARGS__)
#define CRAB_ERROR(...) ::crab::vpstub::error(__VA_ARGS__)
#define CRAB_LOG(TAG, CODE) do { } while (0)
#define CRAB_VERBOSE_IF(L, C) do { } while (0)

struct CrabStats { static void count(const std::string &) {} static void start(const std::string &) {} static void stop(const std::string &) {} static void resume(const std::string &) {} };
struct ScopedCrabStats { explicit ScopedCrabStats(const std::string &, bool = false) {} ScopedCrabStats(const std::string &, const char *, bool = false) {} ~ScopedCrabStats() {} };
#define crab_domain_stats_unused

template <class N> struct thresholds { std::vector<N> t; };

template <class N, class V> class variable {
  V n; unsigned w = 32;
public:
  using varname_t = V; using number_t = N;
  explicit variable(V v, unsigned bw = 32) : n(v), w(bw) {}
  const V &name() const { return n; }
  bool operator==(const variable &o) const { return n == o.n; }
  bool operator!=(const variable &o) const { return n != o.n; }
  bool operator<(const variable &o) const { return n < o.n; }
  size_t hash() const { return std::hash<V>()(n); }
  friend std::ostream &operator<<(std::ostream &o, const variable &v) { return o << v.n; }
};
template <class N, class V> class variable_or_constant {
  boost::optional<variable<N, V>> v; N c;
public:
  variable_or_constant(variable<N, V> x) : v(x), c(0) {}
  explicit variable_or_constant(N k) : c(k) {}
  bool is_variable() const { return bool(v); }
  bool is_constant() const { return !v; }
  variable<N, V> get_variable() const { if (!v) throw vpstub::crab_error("not a variable"); return *v; }
  N get_constant() const { if (v) throw vpstub::crab_error("not a constant"); return c; }
  friend std::ostream &operator<<(std::ostream &o, const variable_or_constant &x) { if (x.v) return o << *x.v; return o << x.c; }
};
template <class N, class V> struct linear_expression {
  using variable_t = variable<N, V>;
  std::map<variable_t, N> t; N k;
  linear_expression() : k(0) {}
  linear_expression(N c) : k(c) {}
  linear_expression(variable_t v) : k(0) { t.insert({v, N(1)}); }
};
template <class N, class V> struct linear_constraint {   // e <= 0
  linear_expression<N, V> e;
};
template <class N, class V> struct linear_constraint_system {
  std::vector<linear_constraint<N, V>> c;
  linear_constraint_system() {}
  linear_constraint_system(linear_constraint<N, V> x) : c(1, x) {}
  linear_constraint_system &operator+=(const linear_constraint<N, V> &x) { c.push_back(x); return *this; }
};
template <class N, class V> struct disjunctive_linear_constraint_system { std::vector<linear_constraint_system<N, V>> d; };
template <class N, class V> struct reference_constraint {};

namespace domains {
enum arith_operation_t { OP_ADDITION, OP_SUBTRACTION, OP_MULTIPLICATION, OP_SDIV, OP_UDIV, OP_SREM, OP_UREM };
enum bitwise_operation_t { OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR };
enum int_conv_operation_t { OP_TRUNC, OP_SEXT, OP_ZEXT };
template <class D> struct abstract_domain_traits;

template <class D> class abstract_domain_api {
public:
  using number_t = typename abstract_domain_traits<D>::number_t;
  using varname_t = typename abstract_domain_traits<D>::varname_t;
  using linear_expression_t = crab::linear_expression<number_t, varname_t>;
  using linear_constraint_t = crab::linear_constraint<number_t, varname_t>;
  using linear_constraint_system_t = crab::linear_constraint_system<number_t, varname_t>;
  using disjunctive_linear_constraint_system_t = crab::disjunctive_linear_constraint_system<number_t, varname_t>;
  using variable_t = crab::variable<number_t, varname_t>;
  using variable_or_constant_t = crab::variable_or_constant<number_t, varname_t>;
  using variable_vector_t = std::vector<variable_t>;
  using variable_or_constant_vector_t = std::vector<variable_or_constant_t>;
  using reference_constraint_t = crab::reference_constraint<number_t, varname_t>;
  using interval_t = ikos::interval<number_t>;
  virtual ~abstract_domain_api() {}
  virtual D make_top() const = 0;
  virtual D make_bottom() const = 0;
  virtual void set_to_top() = 0;
  virtual void set_to_bottom() = 0;
  virtual bool is_bottom() const = 0;
  virtual bool is_top() const = 0;
  virtual bool operator<=(const D &) const = 0;
  virtual void operator|=(const D &) = 0;
  virtual void operator&=(const D &) = 0;
  virtual D operator|(const D &) const = 0;
  virtual D operator&(const D &) const = 0;
  virtual D operator||(const D &) const = 0;
  virtual D operator&&(const D &) const = 0;
  virtual D widening_thresholds(const D &, const crab::thresholds<number_t> &) const = 0;
  virtual void operator-=(const variable_t &) = 0;
  virtual interval_t operator[](const variable_t &) = 0;
  virtual interval_t at(const variable_t &) const = 0;
  virtual void operator+=(const linear_constraint_system_t &) = 0;
  virtual void assign(const variable_t &, const linear_expression_t &) = 0;
  virtual void weak_assign(const variable_t &, const linear_expression_t &) = 0;
  virtual void apply(arith_operation_t, const variable_t &, const variable_t &, const variable_t &) = 0;
  virtual void apply(arith_operation_t, const variable_t &, const variable_t &, number_t) = 0;
  virtual void apply(int_conv_operation_t, const variable_t &, const variable_t &) = 0;
  virtual void apply(bitwise_operation_t, const variable_t &, const variable_t &, const variable_t &) = 0;
  virtual void apply(bitwise_operation_t, const variable_t &, const variable_t &, number_t) = 0;
  virtual void select(const variable_t &, const linear_constraint_t &, const linear_expression_t &, const linear_expression_t &) = 0;
  virtual void intrinsic(std::string, const variable_or_constant_vector_t &, const variable_vector_t &) = 0;
  virtual bool entails(const linear_constraint_t &) const = 0;
  virtual void backward_assign(const variable_t &, const linear_expression_t &, const D &) = 0;
  virtual void backward_apply(arith_operation_t, const variable_t &, const variable_t &, number_t, const D &) = 0;
  virtual void backward_apply(arith_operation_t, const variable_t &, const variable_t &, const variable_t &, const D &) = 0;
  virtual void backward_intrinsic(std::string, const variable_or_constant_vector_t &, const variable_vector_t &, const D &) = 0;
  virtual void forget(const variable_vector_t &) = 0;
  virtual void project(const variable_vector_t &) = 0;
  virtual void rename(const variable_vector_t &, const variable_vector_t &) = 0;
  virtual void expand(const variable_t &, const variable_t &) = 0;
  virtual void normalize() = 0;
  virtual void minimize() = 0;
  virtual void write(crab::crab_os &) const = 0;
  virtual linear_constraint_system_t to_linear_constraint_system() const = 0;
  virtual disjunctive_linear_constraint_system_t to_disjunctive_linear_constraint_system() const = 0;
  virtual std::string domain_name() const = 0;
};
#define BOOL_OPERATIONS_NOT_IMPLEMENTED(D)
#define ARRAY_OPERATIONS_NOT_IMPLEMENTED(D)
#define REGION_AND_REFERENCE_OPERATIONS_NOT_IMPLEMENTED(D)
}  // namespace domains
}  // namespace crab

namespace ikos {
template <class N, class V> class interval_domain;
}
namespace crab { namespace domains {
template <class N, class V> struct abstract_domain_traits<ikos::interval_domain<N, V>> { using number_t = N; using varname_t = V; };
}}
namespace ikos {
template <class N, class V> class interval_domain final : public crab::domains::abstract_domain_api<interval_domain<N, V>> {
public:
  using D = interval_domain;
  using api = crab::domains::abstract_domain_api<D>;
  using typename api::variable_t; using typename api::interval_t; using typename api::linear_expression_t; using typename api::linear_constraint_t;
  using typename api::linear_constraint_system_t; using typename api::disjunctive_linear_constraint_system_t; using typename api::variable_vector_t;
  using typename api::variable_or_constant_vector_t;
  using number_t = N; using varname_t = V; using bound_t = ikos::bound<N>;
private:
  std::map<variable_t, interval_t> m; bool bot = false;
  D mk(bool b) const { D d; d.bot = b; return d; }
  static uint64_t h(const std::string &s) { uint64_t x = 1469598103934665603ULL; for (unsigned char c : s) { x ^= c; x *= 1099511628211ULL; } return x; }
  // an uninterpreted operation: a fixed, arbitrary function of its name and operands
  static interval_t uf(const std::string &op, const interval_t &a, const interval_t &b) {
    std::ostringstream o; o << op << a << b; uint64_t x = h(o.str());
    if (x % 7 == 0) return interval_t::top();
    long l = (long)(x >> 40) - (1 << 23), w = (long)((x >> 8) & 0xffff);
    return interval_t(bound_t(N(l)), bound_t(N(l + w)));
  }
  interval_t eval(const linear_expression_t &e) const { interval_t r{N(e.k)}; for (auto &p : e.t) r = r + interval_t(N(p.second)) * at(p.first); return r; }
  static interval_t arith(crab::domains::arith_operation_t op, const interval_t &a, const interval_t &b) {
    switch (op) { case crab::domains::OP_ADDITION: return a + b; case crab::domains::OP_SUBTRACTION: return a - b; case crab::domains::OP_MULTIPLICATION: return a * b; default: return uf("arith" + std::to_string((int)op), a, b); }
  }
public:
  interval_domain() {}
  D make_top() const override { return mk(false); }
  D make_bottom() const override { return mk(true); }
  static D top() { return D(); }
  static D bottom() { D d; d.bot = true; return d; }
  void set_to_top() override { m.clear(); bot = false; }
  void set_to_bottom() override { m.clear(); bot = true; }
  bool is_bottom() const override { return bot; }
  bool is_top() const override { return !bot && m.empty(); }
  interval_t at(const variable_t &v) const override { if (bot) return interval_t::bottom(); auto i = m.find(v); return i == m.end() ? interval_t::top() : i->second; }
  interval_t operator[](const variable_t &v) override { return at(v); }
  void set(const variable_t &v, interval_t i) { if (bot) return; if (i.is_bottom()) set_to_bottom(); else if (i.is_top()) m.erase(v); else { m.erase(v); m.insert({v, i}); } }
  void set(const variable_t &v, N n) { set(v, interval_t(n)); }
  bool operator<=(const D &o) const override { if (bot) return true; if (o.bot) return false; for (auto &p : o.m) if (!(at(p.first) <= p.second)) return false; return true; }
  template <class F> D merge(const D &o, F f) const { D r; std::set<variable_t> k; for (auto &p : m) k.insert(p.first); for (auto &p : o.m) k.insert(p.first);
    for (auto &v : k) { r.set(v, f(at(v), o.at(v))); } return r; }
  D operator|(const D &o) const override { if (bot) return o; if (o.bot) return *this; return merge(o, [](interval_t a, interval_t b) { return a | b; }); }
  D operator&(const D &o) const override { if (bot || o.bot) return make_bottom(); return merge(o, [](interval_t a, interval_t b) { return a & b; }); }
  D operator||(const D &o) const override { if (bot) return o; if (o.bot) return *this; return merge(o, [](interval_t a, interval_t b) { return a || b; }); }
  D operator&&(const D &o) const override { if (bot || o.bot) return make_bottom(); return merge(o, [](interval_t a, interval_t b) { return a && b; }); }
  D widening_thresholds(const D &o, const crab::thresholds<N> &ts) const override {
    if (bot) return o; if (o.bot) return *this;
    return merge(o, [&](interval_t a, interval_t b) {
      bound_t l = a.lb(), u = a.ub();
      if (b.lb() < l) { l = bound_t::minus_infinity(); for (auto &t : ts.t) if (bound_t(t) <= b.lb() && l <= bound_t(t)) l = bound_t(t); }
      if (u < b.ub()) { u = bound_t::plus_infinity(); for (auto &t : ts.t) if (b.ub() <= bound_t(t) && bound_t(t) <= u) u = bound_t(t); }
      return interval_t(l, u); });
  }
  void operator|=(const D &o) override { *this = *this | o; }
  void operator&=(const D &o) override { *this = *this & o; }
  void operator-=(const variable_t &v) override { if (!bot) m.erase(v); }
  void operator+=(const linear_constraint_system_t &cs) override { for (auto &c : cs.c) { if (bot) return; add(c); } }
  void add(const linear_constraint_t &c) {   // e <= 0: refine each variable once
    if (bound_t(N(0)) < eval(c.e).lb()) { set_to_bottom(); return; }
    for (auto &p : c.e.t) {
      if (p.second != N(1) && p.second != N(-1)) continue;
      linear_expression_t r = c.e; r.t.erase(p.first); interval_t x = eval(r);
      if (p.second == N(1)) set(p.first, at(p.first) & interval_t(bound_t::minus_infinity(), -x.lb()));
      else set(p.first, at(p.first) & interval_t(x.lb(), bound_t::plus_infinity()));
      if (bot) return;
    }
  }
  void assign(const variable_t &x, const linear_expression_t &e) override { if (!bot) set(x, eval(e)); }
  void weak_assign(const variable_t &x, const linear_expression_t &e) override { if (!bot) set(x, at(x) | eval(e)); }
  void apply(crab::domains::arith_operation_t op, const variable_t &x, const variable_t &y, const variable_t &z) override { if (!bot) set(x, arith(op, at(y), at(z))); }
  void apply(crab::domains::arith_operation_t op, const variable_t &x, const variable_t &y, N k) override { if (!bot) set(x, arith(op, at(y), interval_t(k))); }
  void apply(crab::domains::int_conv_operation_t op, const variable_t &d, const variable_t &s) override { if (!bot) set(d, uf("conv" + std::to_string((int)op), at(s), interval_t::top())); }
  void apply(crab::domains::bitwise_operation_t op, const variable_t &x, const variable_t &y, const variable_t &z) override { if (!bot) set(x, uf("bit" + std::to_string((int)op), at(y), at(z))); }
  void apply(crab::domains::bitwise_operation_t op, const variable_t &x, const variable_t &y, N k) override { if (!bot) set(x, uf("bit" + std::to_string((int)op), at(y), interval_t(k))); }
  void select(const variable_t &x, const linear_constraint_t &c, const linear_expression_t &a, const linear_expression_t &b) override {
    if (bot) return;
    D t(*this); t += linear_constraint_system_t(c);
    linear_constraint_t nc; for (auto &p : c.e.t) nc.e.t.insert({p.first, -p.second}); nc.e.k = N(1) - c.e.k;   // not (e <= 0) is 1 - e <= 0
    D f(*this); f += linear_constraint_system_t(nc);
    if (f.bot) set(x, eval(a)); else if (t.bot) set(x, eval(b)); else set(x, eval(a) | eval(b));
  }
  void intrinsic(std::string, const variable_or_constant_vector_t &, const variable_vector_t &) override { CRAB_WARN(""); }
  bool entails(const linear_constraint_t &c) const override { return bot || eval(c.e).ub() <= bound_t(N(0)); }
  void backward_assign(const variable_t &x, const linear_expression_t &, const D &o) override { *this -= x; *this = *this & o; }
  void backward_apply(crab::domains::arith_operation_t, const variable_t &x, const variable_t &, N, const D &o) override { *this -= x; *this = *this & o; }
  void backward_apply(crab::domains::arith_operation_t, const variable_t &x, const variable_t &, const variable_t &, const D &o) override { *this -= x; *this = *this & o; }
  void backward_intrinsic(std::string, const variable_or_constant_vector_t &, const variable_vector_t &, const D &) override {}
  void forget(const variable_vector_t &v) override { for (auto &x : v) *this -= x; }
  void project(const variable_vector_t &v) override { if (bot) return; D r; for (auto &x : v) r.set(x, at(x)); *this = r; }
  void rename(const variable_vector_t &a, const variable_vector_t &b) override {
    if (bot) return; std::vector<interval_t> i; for (auto &x : a) { i.push_back(at(x)); } for (auto &x : a) m.erase(x); for (size_t k = 0; k < b.size(); k++) set(b[k], i[k]); }
  void expand(const variable_t &x, const variable_t &y) override { if (!bot) set(y, at(x)); }
  void normalize() override {}
  void minimize() override {}
  void write(crab::crab_os &o) const override { if (bot) { o << "_|_"; return; } o << "{"; for (auto &p : m) o << p.first << " -> " << p.second << "; "; o << "}"; }
  linear_constraint_system_t to_linear_constraint_system() const override {
    linear_constraint_system_t r;
    for (auto &p : m) {
      if (auto n = p.second.lb().number()) { linear_constraint_t c; c.e.t.insert({p.first, N(-1)}); c.e.k = *n; r += c; }
      if (auto n = p.second.ub().number()) { linear_constraint_t c; c.e.t.insert({p.first, N(1)}); c.e.k = -*n; r += c; }
    }
    if (bot) { linear_constraint_t c; c.e.k = N(1); r += c; }
    return r;
  }
  disjunctive_linear_constraint_system_t to_disjunctive_linear_constraint_system() const override { disjunctive_linear_constraint_system_t r; if (!bot) r.d.push_back(to_linear_constraint_system()); return r; }
  std::string domain_name() const override { return "Intervals"; }
};
}  // namespace ikos
namespace clam { using number_t = ikos::z_number; using varname_t = std::string; }
