// C19: interval domain, C20: bounds on reductions, C21: abstract transforms.
#include "lib.hpp"
#include <sys/syscall.h>
using namespace pbt;
typedef __int128 I;
static const int64_t Q = ref::Q;
static const int64_t MIN64 = INT64_MIN, MAX64 = INT64_MAX;
typedef void *iv;
static iv (*mk)(int64_t, int64_t); static int64_t (*lo_)(iv), (*hi_)(iv); static void (*del)(iv);
static std::string str(I v) { if (v == 0) return "0"; bool n = v < 0; std::string s; if (n) v = -v; while (v) { s += (char)('0' + (int)(v % 10)); v /= 10; } if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; }
static I mod12(I x) { I m = x % 4096; return m < 0 ? m + 4096 : m; }
static I red(I x) { I m = mod12(x); return 3 * m - (x - m) / 4096; }
static int64_t red64(int64_t x) { return 3 * (x & 4095) - (x >> 12); }
static int64_t logmag(Rng &r, int bits) { int b = (int)r.in(0, bits); int64_t v = b ? (int64_t)((uint64_t)1 << (b - 1)) + r.in(0, (int64_t)(((uint64_t)1 << (b - 1)) - 1)) : 0; return r.chance(1, 2) ? v : -v; }

// a 64-bit number near interesting places
static int64_t num(Rng &r, int bits = 63) {
  switch (r.in(0, 7)) {
    case 0: case 1: return logmag(r, bits);
    case 2: { int64_t c = r.in(-40, 40) * 4096; return c + r.in(-2, 2); }
    case 3: return r.pick({0, 1, -1, 4095, 4096, -4096, -4097, 6144, -6144, 12288, 12289, -12289, 24577, 21499, -21499, INT32_MAX, INT32_MIN});
    case 4: { int64_t v = logmag(r, bits) / 4096; return v * 4096 + r.in(-1, 1) * (v > -(MAX64 / 4096) && v < MAX64 / 4096); }
    case 5: return r.in(-30000, 30000);
    case 6: if (bits == 63) return r.pick({MIN64, MIN64 + 1, MAX64, MAX64 - 1, MIN64 / 2, MAX64 / 2, MAX64 / 2 + 1, MIN64 + 4096, MAX64 - 4095}); return r.pick({((int64_t)1 << bits), -((int64_t)1 << bits)});
    default: return r.in(-(int64_t)1 << r.in(1, bits), ((int64_t)1 << r.in(1, bits - 1)));
  }
}
static void rng(Rng &r, int64_t &a, int64_t &b, int bits = 63) {
  a = num(r, bits);
  if (r.chance(1, 6)) { b = a; return; }
  if (r.chance(1, 2)) { b = num(r, bits); if (a > b) std::swap(a, b); return; }
  I w = r.chance(1, 2) ? r.in(0, 9000) : r.in(0, (int64_t)1 << r.in(1, bits - 1));
  I e = (I)a + w; I lim = bits == 63 ? (I)MAX64 : (I)1 << bits; b = (int64_t)(e > lim ? lim : e);
  if (b < a) b = a;
}
// exact extrema of red(x) over [a, b]: x mod 4096 has period 4096 and red drops by 1 per period
static void ext_red(int64_t a, int64_t b, I &mn, I &mx) {
  I e1 = std::min<I>(b, (I)a + 4096), s2 = std::max<I>(a, (I)b - 4096);
  mn = mx = red(a);
  for (I x = a; x <= e1; x++) { I v = red(x); mx = std::max(mx, v); mn = std::min(mn, v); }
  for (I x = s2; x <= b; x++) { I v = red(x); mx = std::max(mx, v); mn = std::min(mn, v); }
}
// exact extrema of red(w x) over [a, b] (all products below 2^63): period 4096, each period shifts by w
static void ext_mul(int64_t a, int64_t b, int64_t w, int64_t &mn, int64_t &mx) {
  int64_t e1 = b - a > 4096 ? a + 4096 : b, s2 = b - a > 4096 ? b - 4096 : a;
  mn = mx = red64(w * a);
  for (int64_t x = a; x <= e1; x++) { int64_t v = red64(w * x); mx = std::max(mx, v); mn = std::min(mn, v); }
  if (s2 > a) for (int64_t x = s2; x <= b; x++) { int64_t v = red64(w * x); mx = std::max(mx, v); mn = std::min(mn, v); }
}
// exact extrema of red(w x) over a range of x and a range of w: a w whose products cannot beat what is known is skipped
static void ext_range(int64_t a, int64_t b, int64_t lo, int64_t hi, int64_t &mn, int64_t &mx) {
  mn = MAX64; mx = MIN64;
  auto one = [&](int64_t w) {
    int64_t p = std::min(w * a, w * b), q = std::max(w * a, w * b);
    if (-(p >> 12) + 3 * 4095 <= mx && -(q >> 12) >= mn) return;
    int64_t u, v; ext_mul(a, b, w, u, v); mn = std::min(mn, u); mx = std::max(mx, v); };
  for (int64_t i = lo, j = hi; i <= j; i++, j--) { one(i); if (j > i) one(j); }
}
// ranges of multipliers as wide as the ones the library uses
static void wide(Rng &r, int64_t &lo, int64_t &hi) {
  switch (r.in(0, 7)) { case 0: lo = -6144; hi = 6144; break; case 1: lo = 0; hi = 12288; break; case 2: lo = -12288; hi = 12288; break; case 3: lo = 1; hi = 6144; break; case 4: lo = -6144; hi = -1; break;
    case 5: lo = -6144; hi = 0; break; case 6: lo = r.in(-12300, 12300); hi = lo + r.in(60, 6000); break; default: lo = r.in(-6144, 6144); hi = r.in(-6144, 6144); if (lo > hi) std::swap(lo, hi); }
}
static std::vector<int64_t> points(Rng &r, int64_t a, int64_t b, int k) {
  std::vector<int64_t> v = {a, b};
  auto put = [&](I x) { if (x >= a && x <= b) v.push_back((int64_t)x); };
  put((I)a + 1); put((I)b - 1); put((I)a | 4095); put((I)(b - mod12(b))); put(0); put(-1); put(6144); put(6145); put(12288); put(12289); put((I)a - mod12(a) + 4096); put((I)b - mod12(b) - 1);
  for (int i = 0; i < k; i++) put(r.in(a, b));
  for (int i = 0; i < k / 2; i++) put((I)a + r.in(0, 13000));
  for (int i = 0; i < k / 2; i++) put((I)b - r.in(0, 13000));
  return v;
}
static bool fits32(I x) { return x >= INT32_MIN && x <= INT32_MAX; }

// run f in a child with stdout and stderr captured; returns the wait status
static int captured(const std::function<void()> &f, std::string &out) {
  int fd = (int)syscall(SYS_memfd_create, "o", 0);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) { dup2(fd, 1); dup2(fd, 2); f(); fflush(stdout); fflush(stderr); _exit(0); }
  int st; waitpid(p, &st, 0);
  off_t n = lseek(fd, 0, SEEK_END); out.resize((size_t)std::min<off_t>(n, 1 << 16)); if (pread(fd, &out[0], out.size(), 0) < 0) out.clear(); close(fd);
  return st;
}

static void setup19(Runner &R, Lib &L) {
  static auto add = L.fn<iv(iv, iv)>("add"), sub = L.fn<iv(iv, iv)>("sub"), rmul = L.fn<iv(iv, iv)>("red_mul");
  static auto neg = L.fn<iv(iv)>("neg"), rd = L.fn<iv(iv)>("red"), rd2 = L.fn<iv(iv)>("red_twice"), nrm = L.fn<iv(iv)>("normal"), nrm3 = L.fn<iv(iv)>("normal_inv3"), shf = L.fn<iv(iv)>("shift"), cor = L.fn<iv(iv)>("correct");
  static auto rsc = L.fn<iv(int64_t, iv)>("red_scale"); static auto pt = L.fn<iv(int64_t)>("point"), nul = L.fn<iv(int64_t)>("point");
  static const char *nm[] = {"add", "sub", "neg", "red", "red_twice", "normal", "normal_inv3", "shift", "correct", "red_mul", "red_scale", "point"};
  // scalars: op, a.min, a.max, b.min, b.max (red_scale: k = b.min), seed of the points
  auto valid = [](const Case &c) {
    if (c.s.size() != 6 || c.s[0] < 0 || c.s[0] > 11 || c.s[1] > c.s[2] || c.s[3] > c.s[4]) return false;
    int64_t o = c.s[0];
    if (o == 7 && (c.s[1] < 0 || c.s[2] >= Q)) return false;
    if (o == 8 && (c.s[1] < -Q || c.s[2] >= 2 * Q)) return false;
    if (o == 9 || o == 10) { I m = 0, w = 0; for (int i : {1, 2}) m = std::max(m, c.s[i] < 0 ? -(I)c.s[i] : (I)c.s[i]); for (int i : {3, 4}) w = std::max(w, c.s[i] < 0 ? -(I)c.s[i] : (I)c.s[i]);
      if (m * w >= (I)1 << 61 || m >= (I)1 << 60 || w >= (I)1 << 60) return false; if (o == 9 && std::min((I)c.s[2] - c.s[1], (I)c.s[4] - c.s[3]) > 25000) return false; }
    return true; };
  auto run = [](const Case &c, std::string &msg) {
    int o = (int)c.s[0]; int64_t a0 = c.s[1], a1 = c.s[2], b0 = c.s[3], b1 = c.s[4];
    auto call = [&]() -> iv {
      iv a = mk(a0, a1), b = mk(b0, b1), r = nullptr;
      switch (o) { case 0: r = add(a, b); break; case 1: r = sub(a, b); break; case 2: r = neg(a); break; case 3: r = rd(a); break; case 4: r = rd2(a); break; case 5: r = nrm(a); break; case 6: r = nrm3(a); break;
        case 7: r = shf(a); break; case 8: r = cor(a); break; case 9: r = rmul(a, b); break; case 10: r = rsc(b0, a); break; case 11: r = pt(a0); break; }
      if (lo_(a) != a0 || hi_(a) != a1 || lo_(b) != b0 || hi_(b) != b1) { del(r); r = nullptr; }
      del(a); del(b); return r; };
    std::string what = fmt("%s([%lld, %lld]", nm[o], (long long)a0, (long long)a1) + (o <= 1 || o == 9 ? fmt(", [%lld, %lld])", (long long)b0, (long long)b1) : o == 10 ? fmt(", %lld)", (long long)b0) : std::string(")"));
    I wl = 0, wh = 0; bool exact = o <= 3 || o == 11;
    if (o == 0) { wl = (I)a0 + b0; wh = (I)a1 + b1; } if (o == 1) { wl = (I)a0 - b1; wh = (I)a1 - b0; } if (o == 2) { wl = -(I)a1; wh = -(I)a0; } if (o == 3) ext_red(a0, a1, wl, wh); if (o == 11) wl = wh = a0;
    if (exact && (wl < MIN64 || wh > MAX64)) {
      std::string out; int st = captured([&] { call(); }, out);
      bool ended = (WIFEXITED(st) && WEXITSTATUS(st) != 0) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
      if (!ended) { msg = what + ": the bounds do not fit 64 bits, but the call " + (WIFSIGNALED(st) ? "crashed" : "returned"); return false; }
      if (out.empty()) { msg = what + ": overflow ends the program without a report"; return false; }
      return true;
    }
    iv r = call();
    if (!r) { msg = what + " changed an operand"; return false; }
    I l = lo_(r), h = hi_(r); del(r);
    if (exact && (l != wl || h != wh)) { msg = what + " = [" + str(l) + ", " + str(h) + "], the tightest interval is [" + str(wl) + ", " + str(wh) + "]"; return false; }
    if (exact) return true;
    auto in = [&](I v, const std::string &at) { if (v >= l && v <= h) return true; msg = what + " = [" + str(l) + ", " + str(h) + "] does not contain " + str(v) + ", the result for " + at; return false; };
    Rng g((uint64_t)c.s[5]);
    if (o == 9 || o == 10) {
      int64_t w0 = b0, w1 = o == 9 ? b1 : b0, x0 = a0, x1 = a1;
      if (o == 9 && (I)a1 - a0 < (I)b1 - b0) { std::swap(w0, x0); std::swap(w1, x1); }
      if (g.chance(1, 8) || w1 == w0 || w1 - w0 > 300) {
        int64_t mn, mx; ext_range(x0, x1, w0, w1, mn, mx); if (!in(mn, "a value attained in the range") || !in(mx, "a value attained in the range")) return false;
        return true;
      }
      for (auto x : points(g, x0, x1, 12)) for (auto w : points(g, w0, w1, 6)) if (!in(red((I)x * w), str(x) + " * " + str(w))) return false;
      return true;
    }
    std::vector<int64_t> ps = points(g, a0, a1, 30);
    if ((I)a1 - a0 <= 3 * Q) for (int64_t x = a0; ; x++) { ps.push_back(x); if (x == a1) break; }
    for (auto x : ps) {
      I v = 0, m = x % Q; if (m < 0) m += Q;
      switch (o) { case 4: v = red(red(x)); break; case 5: v = m; break; case 6: v = m * 8193 % Q; break; case 7: v = x > 6144 ? (I)x - Q : (I)x; break; case 8: v = x < 0 ? x + Q : x >= Q ? x - Q : x; break; }
      if (!in(v, str(x))) return false;
    }
    return true; };
  for (int o = 0; o < 12; o++) {
    Target t; t.name = nm[o]; t.quick = o >= 9 && o < 11 ? 150000 : 200000; if (o == 11) t.quick = 1000; t.thorough = t.quick * 20; t.valid = valid; t.run = run;
    if (o <= 2) t.quick = 60000, t.thorough = 1000000;
    t.gen = [o](Rng &r) { Case c; int64_t a = 0, b = 0, x = 0, y = 0;
      if (o == 7) { a = r.chance(1, 2) ? r.in(0, Q - 1) : r.pick({0, 6143, 6144, 6145, 12288}); b = r.chance(1, 3) ? a : r.chance(1, 2) ? r.in(0, Q - 1) : r.pick({0, 6144, 6145, 12288}); if (a > b) std::swap(a, b); }
      else if (o == 8) { a = r.chance(1, 2) ? r.in(-Q, 2 * Q - 1) : r.pick({-Q, -1, 0, Q - 1, Q, 2 * Q - 1}); b = r.chance(1, 3) ? a : r.chance(1, 2) ? r.in(-Q, 2 * Q - 1) : r.pick({-Q, -1, 0, Q - 1, Q, 2 * Q - 1}); if (a > b) std::swap(a, b); }
      else if (o >= 9 && o <= 10) { rng(r, a, b, (int)r.in(8, 40)); int64_t lim = ((int64_t)1 << 60) / (std::max(std::llabs(a), std::llabs(b)) + 1); int lb = 1; while (((int64_t)1 << (lb + 1)) < lim && lb < 40) lb++;
        x = r.chance(1, 2) ? r.in(-6144, 6144) : num(r, lb); if (std::llabs(x) > lim - 400) x = x > 0 ? lim / 2 : -lim / 2; y = o == 9 ? x + (r.chance(1, 3) ? 0 : r.in(0, r.chance(1, 4) ? 300 : 12)) : x; if (o == 9 && r.chance(1, 40)) { wide(r, x, y); if (r.chance(1, 2)) wide(r, a, b); else rng(r, a, b, (int)r.in(14, 40)); } if (o == 9 && r.chance(1, 2)) { std::swap(a, x); std::swap(b, y); } }
      else if (o <= 2 && r.chance(1, 3)) { rng(r, a, b); x = (int64_t)((uint64_t)(r.chance(1, 2) ? MAX64 : MIN64) + (uint64_t)r.in(-3, 3) - (uint64_t)(o == 1 ? -(uint64_t)a : (uint64_t)a)); y = x; if (r.chance(1, 2)) { int64_t z = num(r); if (z < x) x = z; else y = z; } }
      else { rng(r, a, b); rng(r, x, y); }
      if (o >= 4 && o <= 6 && r.chance(1, 3)) { a = r.in(-5, 5) * (o == 4 ? 4096 : Q) + r.in(-2, 2); b = a + r.in(0, 14000); }
      c.s = {o, a, b, x, y, r.in(0, 1 << 30)}; return c; };
    t.nontrivial = [](const Case &c) { return c.s[1] != c.s[2] || c.s[1] != 0; };
    R.add(t);
  }
}

static void setup20(Runner &R, Lib &L) {
  typedef int64_t m1_f(int64_t, int64_t, int64_t *); typedef int64_t m2_f(int64_t, int64_t, int64_t, int64_t *); typedef int64_t m3_f(int64_t, int64_t, int64_t, int64_t, int64_t *, int64_t *);
  static auto mx1 = L.fn<m1_f>("max_red"), mn1 = L.fn<m1_f>("min_red"); static auto mx2 = L.fn<m2_f>("max_red_mul"), mn2 = L.fn<m2_f>("min_red_mul"); static auto mx3 = L.fn<m3_f>("max_red_mul_interval"), mn3 = L.fn<m3_f>("min_red_mul_interval");
  static auto cb = L.fn<int64_t(int64_t, int64_t, int64_t)>("ct_bound"), gb = L.fn<int64_t(int64_t, int64_t, int64_t)>("gs_bound"); static auto cbf = L.fn<int64_t(int64_t, int64_t)>("ct_bound_fixed"), gbf = L.fn<int64_t(int64_t, int64_t)>("gs_bound_fixed");
  typedef int64_t nb_f(int64_t, uint32_t, const int16_t *, int64_t *); static auto nct = L.fn<nb_f>("ntt_ct_bounds"), ngs = L.fn<nb_f>("ntt_gs_bounds");
  auto ok3 = [](const Case &c, int64_t width) {
    I m = 0, w = 0; for (int i : {0, 1}) m = std::max(m, c.s[i] < 0 ? -(I)c.s[i] : (I)c.s[i]); for (int i : {2, 3}) w = std::max(w, c.s[i] < 0 ? -(I)c.s[i] : (I)c.s[i]);
    return c.s[0] <= c.s[1] && c.s[2] <= c.s[3] && m < (I)1 << 60 && w < (I)1 << 60 && (m + 5000) * (w + 1) < (I)1 << 61 && (I)c.s[3] - c.s[2] <= width; };
  auto range_gen = [](Rng &r, int64_t width) { Case c; int64_t a, b; rng(r, a, b, (int)r.in(4, 44));
    if (r.chance(1, 4)) { b = std::llabs(a); a = -b; }
    int64_t m = std::max(std::llabs(a), std::llabs(b)) + 5000, lim = ((int64_t)1 << 60) / m; int lb = 1; while (((int64_t)1 << (lb + 1)) < lim && lb < 44) lb++;
    int64_t w; switch (r.in(0, 5)) { case 0: w = r.in(-6144, 6144); break; case 1: w = ((int64_t)1 << r.in(0, 14)) * (r.chance(1, 2) ? 1 : -1) * r.pick({1, 3, 5}); break; case 2: w = r.in(-20, 20); break; case 3: w = r.pick({0, 1, -1, 4096, -4096, 4095, 4097, 8192, 12289, 2048, -2048}); break; default: w = num(r, lb); }
    if (std::llabs(w) > lim - width - 1) w = w > 0 ? lim / 2 : -lim / 2;
    int64_t h = w + (width ? (r.chance(1, 4) ? 0 : r.in(0, r.chance(1, 5) ? width : 10)) : 0); c.s = {a, b, w, h}; return c; };
  { Target t; t.name = "red"; t.quick = 400000; t.thorough = 8000000; t.valid = [](const Case &c) { return c.s.size() == 2 && c.s[0] <= c.s[1]; };
    t.gen = [](Rng &r) { Case c; int64_t a, b; rng(r, a, b); c.s = {a, b}; return c; };
    t.run = [](const Case &c, std::string &msg) { int64_t a = c.s[0], b = c.s[1], x = 0, y = 0; I mn, mx; ext_red(a, b, mn, mx); int64_t l = mn1(a, b, &x), h = mx1(a, b, &y);
      if (l != mn || x < a || x > b || red(x) != l) { msg = fmt("min_red(%lld, %lld) = %lld at %lld, the minimum is ", (long long)a, (long long)b, (long long)l, (long long)x) + str(mn); return false; }
      if (h != mx || y < a || y > b || red(y) != h) { msg = fmt("max_red(%lld, %lld) = %lld at %lld, the maximum is ", (long long)a, (long long)b, (long long)h, (long long)y) + str(mx); return false; }
      return true; }; R.add(t); }
  { Target t; t.name = "red_mul"; t.quick = 300000; t.thorough = 8000000; t.valid = [=](const Case &c) { return c.s.size() == 4 && ok3(c, 0); };
    t.gen = [=](Rng &r) { Case c = range_gen(r, 0); c.s[3] = c.s[2]; return c; };
    t.run = [](const Case &c, std::string &msg) { int64_t a = c.s[0], b = c.s[1], w = c.s[2], x = 0, y = 0, mn, mx; ext_mul(a, b, w, mn, mx); int64_t l = mn2(a, b, w, &x), h = mx2(a, b, w, &y);
      if (l != mn || x < a || x > b || red((I)w * x) != l) { msg = fmt("min_red_mul(%lld, %lld, %lld) = %lld at %lld, the minimum is %lld", (long long)a, (long long)b, (long long)w, (long long)l, (long long)x, (long long)mn); return false; }
      if (h != mx || y < a || y > b || red((I)w * y) != h) { msg = fmt("max_red_mul(%lld, %lld, %lld) = %lld at %lld, the maximum is %lld", (long long)a, (long long)b, (long long)w, (long long)h, (long long)y, (long long)mx); return false; }
      return true; };
    t.nontrivial = [](const Case &c) { return c.s[2] != 0; }; R.add(t); }
  { Target t; t.name = "red_mul_interval"; t.quick = 60000; t.thorough = 1500000; t.valid = [=](const Case &c) { return c.s.size() == 4 && ok3(c, 25000); };
    t.gen = [=](Rng &r) { Case c = range_gen(r, 60); if (r.chance(1, 30)) { wide(r, c.s[2], c.s[3]); rng(r, c.s[0], c.s[1], (int)r.in(4, 40)); if (r.chance(1, 4)) { c.s[1] = std::llabs(c.s[0]); c.s[0] = -c.s[1]; } } return c; };
    t.run = [](const Case &c, std::string &msg) { int64_t a = c.s[0], b = c.s[1], x = 0, y = 0, xw = 0, yw = 0, mn = MAX64, mx = MIN64;
      ext_range(a, b, c.s[2], c.s[3], mn, mx);
      int64_t l = mn3(a, b, c.s[2], c.s[3], &x, &xw), h = mx3(a, b, c.s[2], c.s[3], &y, &yw);
      if (l != mn || x < a || x > b || xw < c.s[2] || xw > c.s[3] || red((I)xw * x) != l) { msg = fmt("min_red_mul_interval(%lld, %lld, %lld, %lld) = %lld at x = %lld, w = %lld; the minimum is %lld", (long long)a, (long long)b, (long long)c.s[2], (long long)c.s[3], (long long)l, (long long)x, (long long)xw, (long long)mn); return false; }
      if (h != mx || y < a || y > b || yw < c.s[2] || yw > c.s[3] || red((I)yw * y) != h) { msg = fmt("max_red_mul_interval(%lld, %lld, %lld, %lld) = %lld at x = %lld, w = %lld; the maximum is %lld", (long long)a, (long long)b, (long long)c.s[2], (long long)c.s[3], (long long)h, (long long)y, (long long)yw, (long long)mx); return false; }
      return true; }; R.add(t); }
  // worst |red(w y)| over |y| <= b
  static auto worst = [](int64_t b, int64_t w) { int64_t mn, mx; ext_mul(-b, b, w, mn, mx); return std::max(std::llabs(mn), std::llabs(mx)); };
  { Target t; t.name = "butterfly"; t.quick = 60000; t.thorough = 1500000; t.valid = [](const Case &c) { return c.s.size() == 3 && c.s[0] >= 0 && c.s[0] < (int64_t)1 << 40 && c.s[1] <= c.s[2] && c.s[2] - c.s[1] <= 25000 && std::llabs(c.s[1]) < 1 << 18 && std::llabs(c.s[2]) < 1 << 18; };
    t.gen = [](Rng &r) { Case c; int64_t b = std::llabs(num(r, (int)r.in(2, 38))); int64_t w = r.chance(1, 2) ? r.in(-6144, 6144) : r.chance(1, 2) ? r.in(-16, 16) : logmag(r, 17); c.s = {b, w, w + (r.chance(1, 3) ? 0 : r.in(0, 30))}; if (r.chance(1, 30)) { wide(r, c.s[1], c.s[2]); if (r.chance(1, 2)) c.s[0] = r.chance(1, 2) ? r.pick({0, 1, 6144, 12288, 21499, 24576, 500000}) : r.in(0, 1 << r.in(1, 24)); } return c; };
    t.run = [](const Case &c, std::string &msg) { int64_t b = c.s[0]; int64_t wc = 0, wg = 0;
      auto abs2 = [](int64_t m, int64_t lo, int64_t hi) { int64_t mn, mx; ext_range(-m, m, lo, hi, mn, mx); return (int64_t)std::max(std::llabs(mn), std::llabs(mx)); };
      wc = abs2(b, c.s[1], c.s[2]); wg = abs2(2 * b, c.s[1], c.s[2]);
      for (int64_t w : {c.s[1], c.s[2]}) { int64_t k = worst(b, w), g = worst(2 * b, w);
        if (cbf(b, w) < b + k) { msg = fmt("ct_bound_fixed(%lld, %lld) = %lld, but %lld is reached", (long long)b, (long long)w, (long long)cbf(b, w), (long long)(b + k)); return false; }
        if (gbf(b, w) < std::max(2 * b, g)) { msg = fmt("gs_bound_fixed(%lld, %lld) = %lld, but %lld is reached", (long long)b, (long long)w, (long long)gbf(b, w), (long long)std::max(2 * b, g)); return false; } }
      int64_t x = cb(b, c.s[1], c.s[2]), y = gb(b, c.s[1], c.s[2]);
      if (x < b + wc) { msg = fmt("ct_bound(%lld, %lld, %lld) = %lld, but %lld is reached", (long long)b, (long long)c.s[1], (long long)c.s[2], (long long)x, (long long)(b + wc)); return false; }
      if (y < std::max(2 * b, wg)) { msg = fmt("gs_bound(%lld, %lld, %lld) = %lld, but %lld is reached", (long long)b, (long long)c.s[1], (long long)c.s[2], (long long)y, (long long)std::max(2 * b, wg)); return false; }
      return true; }; R.add(t); }
  { Target t; t.name = "rounds"; t.quick = 3000; t.thorough = 60000; t.valid = [](const Case &c) { size_t n = c.a[0].size(); for (auto x : c.a[0]) if (x < INT16_MIN || x > INT16_MAX) return false; return n >= 2 && n <= 2048 && !(n & (n - 1)) && c.s[0] >= 0 && c.s[0] < (int64_t)1 << 32; };
    t.gen = [](Rng &r) { Case c; uint32_t n = 1u << (r.chance(1, 12) ? r.in(7, 10) : r.in(1, 6)); Arr p(n);
      if (r.chance(2, 3)) { auto &ro = ref::roots(n); auto tb = ref::table(n, ro[(size_t)r.in(0, (int64_t)ro.size() - 1)], (ref::Kind)r.in(0, 3), ref::inv3()); for (uint32_t i = 0; i < n; i++) p[i] = ref::centered(tb[i]); }
      else p = gen_vec(r, n, -6144, 6144, {0, 1, -1, 6144, -6144, 4096, -4096, 2048});
      if (r.chance(1, 10)) p = gen_vec(r, n, INT16_MIN, INT16_MAX, {INT16_MIN, INT16_MAX});
      c.a = {p}; c.s = {r.chance(1, 2) ? r.pick({0, 1, 6144, 12288, 21499, 1000000}) : std::llabs(logmag(r, 30))}; return c; };
    t.run = [](const Case &c, std::string &msg) { uint32_t n = (uint32_t)c.a[0].size(), K = ref::lg(n); std::vector<int16_t> p(c.a[0].begin(), c.a[0].end());
      for (int g = 0; g < 2; g++) {
        std::vector<int64_t> bd(K + 3, -77); int64_t f = g ? ngs(c.s[0], n, p.data(), bd.data()) : nct(c.s[0], n, p.data(), bd.data());
        const char *nm = g ? "ntt_gs_bounds" : "ntt_ct_bounds";
        if (bd[0] < c.s[0] || f != bd[K] || bd[K + 1] != -77) { msg = fmt("%s: bound[0] = %lld, bound[%u] = %lld, result %lld", nm, (long long)bd[0], K, (long long)bd[K], (long long)f); return false; }
        for (uint32_t k = 1; k <= K; k++) { uint32_t t = g ? n >> k : 1u << (k - 1); int64_t b = bd[k - 1], need = 0;
          if (b > (int64_t)1 << 44) break;
          for (uint32_t j = 0; j < t; j++) need = std::max<int64_t>(need, g ? std::max(2 * b, (int64_t)worst(2 * b, p[t + j])) : b + worst(b, p[t + j]));
          if (bd[k] < need) { msg = fmt("%s: bound after round %u is %lld, but %lld is reached from %lld", nm, k, (long long)bd[k], (long long)need, (long long)b); return false; } }
      }
      return true; };
    t.nontrivial = [](const Case &c) { return c.s[0] > 0; };
    t.shrinkers = [](const Case &c) { std::vector<Case> v; Case d = c; d.a[0].resize(c.a[0].size() / 2); v.push_back(d); return v; };
    R.add(t); }
}

// unbounded model of the red transforms (butterflies of the documented algorithms); keeps the largest array value seen
struct Model { bool overflow = false, window = false; };
static std::vector<I> model(int v, std::vector<I> a, const std::vector<I> &p, Model &m) {
  uint32_t n = (uint32_t)a.size(); bool gs = v >= 4, rev2std = v == 0 || v == 1 || v == 4 || v == 5, mixed = v & 1;
  auto see = [&](I x) { if (!fits32(x)) m.overflow = true; };
  auto mr = [&](I x, I w) { I z = x * w; if (!fits32(x) || z < -8796042698752LL || z > 8796093026303LL) m.window = true; return red(z); };
  auto bf = [&](uint32_t i, uint32_t k, I w, bool one) {
    I y = a[i], x = a[k];
    if (!gs) { I z = one ? x : mr(x, w); a[i] = y + z; a[k] = y - z; }
    else { a[i] = y + x; a[k] = one ? y - x : mr(y - x, w); } };
  for (auto x : a) see(x);
  bool contiguous = (gs != rev2std);   // ct rev2std, gs std2rev: blocks of 2t contiguous elements
  auto round = [&](uint32_t t) {
    uint32_t d = n / (2 * t);
    for (uint32_t j = 0; j < t; j++) {
      I w = p[t + j]; bool one = !mixed && j == 0;
      if (contiguous) for (uint32_t s = j; s < n; s += 2 * t) bf(s, s + t, w, one);
      else for (uint32_t s = 2 * d * j; s < 2 * d * j + d; s++) bf(s, s + d, w, one);
    }
    for (auto x : a) see(x); };
  if (!gs) for (uint32_t t = 1; t < n; t *= 2) round(t); else for (uint32_t t = n / 2; t; t /= 2) round(t);
  return a;
}

// Search for an input that drives one output of a transform to an end of its range. The two operands of a butterfly depend on disjoint
// inputs, so the ends are reached by choosing the operands one by one, backwards from the output (best effort where red leaves gaps).
struct Drive {
  bool gs; uint32_t n, K; const std::vector<I> &p; const Arr &lo, &wd; Rng &g; std::vector<I> x;
  struct N { uint32_t y, x; I w; bool one, second; }; std::vector<std::vector<N>> nd; std::vector<std::vector<int64_t>> L, H;
  Drive(int v, const std::vector<I> &p_, const Arr &l, const Arr &w_, Rng &g_) : gs(v >= 4), n((uint32_t)p_.size()), p(p_), lo(l), wd(w_), g(g_) {
    bool rev2std = v == 0 || v == 1 || v == 4 || v == 5, mixed = v & 1, contiguous = gs != rev2std; K = ref::lg(n);
    x.resize(n); nd.assign(K + 1, std::vector<N>(n)); L.assign(K + 1, std::vector<int64_t>(n, 0)); H = L;
    for (uint32_t i = 0; i < n; i++) { L[0][i] = lo[i]; H[0][i] = lo[i] + wd[i]; x[i] = lo[i]; }
    for (uint32_t k = 1; k <= K; k++) { uint32_t t = gs ? n >> k : 1u << (k - 1), d = n / (2 * t);
      for (uint32_t j = 0; j < t; j++) { auto put = [&](uint32_t a, uint32_t b) { N q{a, b, p[t + j], !mixed && j == 0, false}; nd[k][a] = q; q.second = true; nd[k][b] = q; };
        if (contiguous) for (uint32_t s = j; s < n; s += 2 * t) put(s, s + t); else for (uint32_t s = 2 * d * j; s < 2 * d * j + d; s++) put(s, s + d); } }
  }
  static int64_t arg(int64_t a, int64_t b, int64_t w, int dir) {   // where red(w x) is largest (dir = 1) or smallest over [a, b]
    int64_t e1 = b - a > 4096 ? a + 4096 : b, s2 = b - a > 4096 ? b - 4096 : a, best = a, bv = dir * red64(w * a);
    for (int64_t q = a; q <= e1; q++) { int64_t u = dir * red64(w * q); if (u > bv) bv = u, best = q; }
    if (s2 > a) for (int64_t q = s2; q <= b; q++) { int64_t u = dir * red64(w * q); if (u > bv) bv = u, best = q; }
    return best; }
  void hull(uint32_t k, uint32_t i) { if (!k || (L[k][i] | H[k][i])) return; N &q = nd[k][i]; hull(k - 1, q.y); hull(k - 1, q.x); int64_t a = L[k - 1][q.y], b = H[k - 1][q.y], c = L[k - 1][q.x], d = H[k - 1][q.x];
    if (!gs) { if (!q.one) { int64_t u, v; ext_mul(c, d, (int64_t)q.w, u, v); c = u; d = v; } if (q.second) { L[k][i] = a - d; H[k][i] = b - c; } else { L[k][i] = a + c; H[k][i] = b + d; } }
    else if (!q.second) { L[k][i] = a + c; H[k][i] = b + d; } else { L[k][i] = a - d; H[k][i] = b - c; if (!q.one) { int64_t u, v; ext_mul(a - d, b - c, (int64_t)q.w, u, v); L[k][i] = u; H[k][i] = v; } } }
  int64_t pair(uint32_t k, const N &q, int sg, int64_t v) {   // y + sg * x = v
    int64_t a = L[k][q.y], b = H[k][q.y], c = sg > 0 ? L[k][q.x] : -H[k][q.x], d = sg > 0 ? H[k][q.x] : -L[k][q.x];
    int64_t u = std::max(a, v - d), w = std::min(b, v - c); if (u > w) u = w = std::max(a, std::min(b, u));
    int64_t y = target(k, q.y, g.in(u, w)); return y + sg * target(k, q.x, sg * (v - y)); }
  int64_t target(uint32_t k, uint32_t i, int64_t v) {
    if (!k) { v = std::max(L[0][i], std::min(H[0][i], v)); x[i] = v; return v; }
    N &q = nd[k][i]; int sg = q.second ? -1 : 1;
    if (!gs && !q.one) { int64_t r = 0; int tries = k <= 3 ? 4 : 1;
      for (int t = 0; t < tries; t++) { int64_t z = red64((int64_t)q.w * (t == 0 ? target(k - 1, q.x, g.in(L[k - 1][q.x], H[k - 1][q.x])) : t == 1 ? ext(k - 1, q.x, 1) : t == 2 ? ext(k - 1, q.x, -1) : target(k - 1, q.x, arg(L[k - 1][q.x], H[k - 1][q.x], (int64_t)q.w, g.chance(1, 2) ? 1 : -1)))); r = target(k - 1, q.y, v - sg * z) + sg * z; if (r == v) break; }
      return r; }
    if (!gs || !q.second || q.one) return pair(k - 1, q, sg, v);
    int64_t a = L[k - 1][q.y] - H[k - 1][q.x], b = H[k - 1][q.y] - L[k - 1][q.x], d = a;
    for (int t = 0; t < 3; t++) { int64_t s = t == 0 ? a : t == 1 ? std::max(a, b - 4096) : g.in(a, b), e = std::min(b, s + 4096); bool f = false; for (int64_t z = s; z <= e; z++) if (red64((int64_t)q.w * z) == v) { d = z; f = true; break; } if (f) break; }
    return red64((int64_t)q.w * pair(k - 1, q, -1, d)); }
  int64_t ext(uint32_t k, uint32_t i, int dir) {
    if (!k) { x[i] = dir > 0 ? H[0][i] : L[0][i]; return (int64_t)x[i]; }
    N &q = nd[k][i]; int sg = q.second ? -1 : 1;
    if (!gs && !q.one) { int64_t y = ext(k - 1, q.y, dir); return y + sg * red64((int64_t)q.w * target(k - 1, q.x, arg(L[k - 1][q.x], H[k - 1][q.x], (int64_t)q.w, dir * sg))); }
    if (!gs || !q.second || q.one) { int64_t y = ext(k - 1, q.y, dir); return y + sg * ext(k - 1, q.x, dir * sg); }
    return red64((int64_t)q.w * pair(k - 1, q, -1, arg(L[k - 1][q.y] - H[k - 1][q.x], H[k - 1][q.y] - L[k - 1][q.x], (int64_t)q.w, dir))); }
};

static void setup21(Runner &R, Lib &L, Lib &LR) {
  static const char *T[] = {"ntt_red_ct_rev2std", "mulntt_red_ct_rev2std", "ntt_red_ct_std2rev", "mulntt_red_ct_std2rev", "ntt_red_gs_rev2std", "nttmul_red_gs_rev2std", "ntt_red_gs_std2rev", "nttmul_red_gs_std2rev"};
  typedef void ab1_f(iv *, uint32_t, const int16_t *); typedef void ab2_f(iv *, uint32_t, iv *);
  static std::vector<ab1_f *> a1; static std::vector<ab2_f *> a2; static std::vector<ntt16s_f *> cf;
  for (auto t : T) { a1.push_back(L.fn<ab1_f>(std::string("abstract_") + t)); a2.push_back(L.fn<ab2_f>(std::string("abstract2_") + t)); cf.push_back(LR.fn<ntt16s_f>(t)); }
  static bool differs = false;   // the concrete code is no longer the model: then only concrete runs are used
  // scalars: transform, abstract2?, points; arrays: interval minima, widths, table, half-widths of the table intervals, concrete choices
  auto valid = [](const Case &c) {
    if (c.s.size() != 2 || c.a.size() != 5 || c.s[0] < 0 || c.s[0] > 7 || c.s[1] < 0 || c.s[1] > 1) return false;
    size_t n = c.a[0].size(); if (n < 2 || n > 1024 || (n & (n - 1))) return false;
    for (auto &x : c.a) if (x.size() != n) return false;
    for (size_t i = 0; i < n; i++) if (std::llabs(c.a[0][i]) > (int64_t)1 << 33 || c.a[1][i] < 0 || c.a[1][i] > (int64_t)1 << 33 || std::llabs(c.a[2][i]) > 6144 || c.a[3][i] < 0 || c.a[3][i] > 50 || c.a[4][i] < 0) return false;
    return true; };
  auto run = [](const Case &c, std::string &msg) {
    int v = (int)c.s[0]; bool two = c.s[1]; uint32_t n = (uint32_t)c.a[0].size();
    std::vector<int16_t> p(n); std::vector<iv> a(n), pi(n);
    for (uint32_t i = 0; i < n; i++) { a[i] = mk(c.a[0][i], c.a[0][i] + c.a[1][i]); p[i] = (int16_t)c.a[2][i]; if (two) pi[i] = mk(c.a[2][i] - c.a[3][i], c.a[2][i] + c.a[3][i]); }
    std::string name = std::string(two ? "abstract2_" : "abstract_") + T[v];
    // run with stdout captured
    int fd = (int)syscall(SYS_memfd_create, "o", 0), save = dup(1); fflush(stdout); dup2(fd, 1);
    if (two) a2[v](a.data(), n, pi.data()); else a1[v](a.data(), n, p.data());
    fflush(stdout); dup2(save, 1); close(save);
    off_t len = lseek(fd, 0, SEEK_END); std::string out((size_t)len, 0); if (pread(fd, &out[0], out.size(), 0) < 0) out.clear(); close(fd);
    bool reported = memmem(out.data(), out.size(), "overflow", 8) != nullptr;
    std::vector<int64_t> l(n), h(n); for (uint32_t i = 0; i < n; i++) { l[i] = lo_(a[i]); h[i] = hi_(a[i]); del(a[i]); if (two) { if (lo_(pi[i]) != c.a[2][i] - c.a[3][i] || hi_(pi[i]) != c.a[2][i] + c.a[3][i]) { msg = name + " changed its table"; return false; } del(pi[i]); } }
    for (uint32_t i = 0; i < n; i++) if (!reported && (l[i] < INT32_MIN || h[i] > INT32_MAX)) { msg = fmt("%s, n = %u: interval %u is [%lld, %lld] and no overflow was reported", name.c_str(), n, i, (long long)l[i], (long long)h[i]); return false; }
    // concrete points: per-element choice (lower end, upper end, inside), the two all-ends arrays, and mixtures
    Rng g(c.hash());
    bool proper = true; for (uint32_t i = 0; i < n; i++) if (std::abs((int)p[i]) > 6144) proper = false;
    for (int k = 0; k < (n <= 64 ? 9 : 6); k++) {
      std::vector<I> x(n), w(n); bool tab = false; int den = (int)g.in(1, 3);
      for (uint32_t i = 0; i < n; i++) {
        int64_t lo = c.a[0][i], wd = c.a[1][i];
        x[i] = k == 0 ? lo : k == 1 ? lo + wd : k == 2 ? lo + (c.a[4][i] % (wd + 1)) : g.chance(1, den) ? lo + g.in(0, 1) * wd : lo + g.in(0, wd);
        w[i] = p[i]; if (two && k) { int64_t d = c.a[3][i] ? (g.chance(1, 2) ? g.in(-c.a[3][i], c.a[3][i]) : (g.chance(1, 2) ? c.a[3][i] : -c.a[3][i])) : 0; w[i] += d; tab |= d != 0; }
      }
      uint32_t at = 0;
      if (k >= 6) { Drive dr(v, w, c.a[0], c.a[1], g); at = (uint32_t)g.in(0, n - 1); dr.hull(dr.K, at); int dir = g.chance(1, 2) ? 1 : -1; dr.ext(dr.K, at, dir); x = dr.x; }
      Model m; auto y = model(v, x, w, m);
      std::vector<int32_t> ci(n); std::vector<int16_t> cp(n); bool safe = !m.overflow && !m.window;
      if (safe) {
        for (uint32_t i = 0; i < n; i++) { ci[i] = (int32_t)x[i]; cp[i] = (int16_t)w[i]; }
        cf[v](ci.data(), n, cp.data());
        for (uint32_t i = 0; i < n; i++) {
          if (ci[i] < l[i] || ci[i] > h[i]) { msg = fmt("%s, n = %u: interval %u is [%lld, %lld], but %s gives %d on an input inside the input intervals", name.c_str(), n, i, (long long)l[i], (long long)h[i], T[v], ci[i]); return false; }
          if ((I)ci[i] != y[i]) differs = true;
        }
      }
      if (differs) continue;
      for (uint32_t i = 0; i < n; i++) if (y[i] < l[i] || y[i] > h[i]) { msg = fmt("%s, n = %u: interval %u is [%lld, %lld], but the concrete transform gives ", name.c_str(), n, i, (long long)l[i], (long long)h[i]) + str(y[i]); return false; }
      if (m.overflow && !reported) { msg = fmt("%s, n = %u: a value leaves the 32-bit range on an input inside the intervals and no overflow was reported", name.c_str(), n); return false; }
    }
    return true; };
  auto gen = [](Rng &r, int v, bool two, uint32_t n) {
    Case c; c.s = {v, two}; Arr lo(n), wd(n), p(n), pw(n), ch(n);
    static const ref::Kind kd[] = {ref::STD_OMEGA, ref::STD_MIXED, ref::REV_OMEGA, ref::REV_MIXED, ref::REV_OMEGA, ref::REV_MIXED, ref::STD_OMEGA, ref::STD_MIXED};
    if (r.chance(3, 4)) { auto &ro = ref::roots(n); auto tb = ref::table(n, ro[(size_t)r.in(0, (int64_t)ro.size() - 1)], kd[v], ref::inv3()); for (uint32_t i = 0; i < n; i++) p[i] = ref::centered(tb[i]); }
    else p = gen_vec(r, n, -6144, 6144, {0, 1, -1, 4096, -4096, 6144, -6144});
    if (two && r.chance(2, 3)) { int m = (int)r.in(0, 4); for (auto &x : pw) x = r.in(0, m); }
    switch (r.in(0, 6)) {
      case 0: { int64_t B = r.pick({0, 1, 6144, 12288, 21499}); for (uint32_t i = 0; i < n; i++) { lo[i] = r.chance(1, 2) ? -B : 0; wd[i] = -lo[i] + B; } break; }
      case 1: { lo = gen_vec(r, n, -21499, 21499, {0, 21499, -21499}); for (auto &x : wd) x = r.chance(1, 2) ? 0 : r.in(0, 3000); break; }   // points and short intervals
      case 2: { int64_t B = (((int64_t)1 << 31) >> r.in(0, (int64_t)ref::lg(n))) + r.in(-3, 3); int mode = (int)r.in(0, 3); for (uint32_t i = 0; i < n; i++) { lo[i] = mode == 0 ? B : mode == 1 ? -B : mode == 2 ? (r.chance(1, 2) ? B : -B) : (i & 1 ? B : -B); wd[i] = mode == 3 ? r.in(0, 2) : 0; } break; }
      case 3: { int64_t B = r.in(0, (int64_t)1 << r.in(4, 31)); for (uint32_t i = 0; i < n; i++) { lo[i] = -B; wd[i] = 2 * B; } break; }
      case 4: { for (uint32_t i = 0; i < n; i++) { lo[i] = logmag(r, 31); wd[i] = r.chance(1, 2) ? 0 : std::llabs(logmag(r, 20)); } break; }
      case 5: { for (auto &x : lo) x = 0; int k = (int)r.in(1, 3); while (k--) { size_t i = (size_t)r.in(0, n - 1); lo[i] = logmag(r, 31); wd[i] = r.in(0, 5000); } break; }
      default: { int64_t a = r.in(-21499, 21499); for (uint32_t i = 0; i < n; i++) { lo[i] = a; wd[i] = r.in(0, 21499 - a); } }
    }
    for (auto &x : ch) x = r.in(0, (int64_t)1 << 34);
    c.a = {lo, wd, p, pw, ch}; return c; };
  for (int v = 0; v < 8; v++) for (int two = 0; two < 2; two++) {
    Target t; t.name = std::string(two ? "abstract2_" : "abstract_") + T[v]; t.quick = two ? 4000 : 8000; t.thorough = t.quick * 20; t.valid = valid; t.run = run;
    t.gen = [=](Rng &r) { return gen(r, v, two, 1u << (r.chance(1, 40) ? r.in(7, 10) : r.chance(1, 4) ? r.in(5, 6) : r.in(1, 4))); };
    t.evals = [](const Case &c) { return (uint64_t)(c.a[0].size() <= 64 ? 9 : 6); };
    t.shrinkers = [](const Case &c) { std::vector<Case> v; Case d = c; for (auto &a : d.a) a.resize(c.a[0].size() / 2); v.push_back(d); return v; };
    t.nontrivial = [](const Case &c) { for (size_t i = 0; i < c.a[0].size(); i++) if (c.a[0][i] || c.a[1][i]) return true; return false; };
    R.add(t);
  }
  // elementwise abstract operations on arrays
  static const char *E[] = {"normalize", "normalize_inv3", "shift_array", "reduce_array", "reduce_array_twice", "correct", "mul_reduce_array16", "scalar_mul_reduce_array", "mul_reduce_array"};
  static void *ea[9], *ec[9]; for (int i = 0; i < 9; i++) { ea[i] = L.sym(std::string("abstract_") + E[i]); ec[i] = LR.sym(E[i]); }
  for (int o = 0; o < 9; o++) {
    Target t; t.name = std::string("abstract_") + E[o]; t.quick = 15000; t.thorough = 300000;
    int64_t dl = o == 2 ? 0 : o == 5 ? -Q : INT32_MIN, dh = o == 2 ? Q - 1 : o == 5 ? 2 * Q - 1 : INT32_MAX;
    if (o >= 6) { dl = -400000; dh = 400000; } if (o == 6) { dl = -268000000; dh = 268000000; }
    // scalars: scalar operand; arrays: lo, hi, second lo, second hi (or the 16-bit table), choices
    t.valid = [=](const Case &c) { if (c.a.size() != 5 || c.s.size() != 1) return false; size_t n = c.a[0].size(); for (auto &x : c.a) if (x.size() != n) return false;
      for (size_t i = 0; i < n; i++) { if (c.a[0][i] > c.a[1][i] || c.a[0][i] < dl || c.a[1][i] > dh || c.a[2][i] > c.a[3][i] || std::llabs(c.a[2][i]) > (o == 6 ? 32767 : 20000000) || std::llabs(c.a[3][i]) > 20000000 || c.a[4][i] < 0) return false; if (o == 8 && c.a[3][i] - c.a[2][i] > 60) return false; }
      return std::llabs(c.s[0]) <= 20000000; };
    t.gen = [=](Rng &r) { Case c; size_t n = (size_t)r.in(0, 24); Arr a(n), b(n), x(n), y(n), z(n);
      for (size_t i = 0; i < n; i++) { a[i] = r.chance(1, 3) ? r.pick({dl, dh, 0}) : r.in(dl, dh); b[i] = r.chance(1, 3) ? a[i] : r.chance(1, 2) ? std::min(dh, a[i] + r.in(0, 15000)) : r.in(a[i], dh); x[i] = r.chance(1, 2) ? r.in(-6144, 6144) : r.in(-32767, 32767); y[i] = x[i] + r.in(0, r.chance(1, 4) ? 60 : 3); z[i] = r.in(0, (int64_t)1 << 34); }
      c.a = {a, b, x, y, z}; c.s = {r.chance(1, 2) ? r.in(-12288, 12288) : r.in(-20000000, 20000000)}; return c; };
    t.run = [=](const Case &c, std::string &msg) { uint32_t n = (uint32_t)c.a[0].size(); std::vector<iv> a(n), b(n), d(n); std::vector<int16_t> p(n);
      for (uint32_t i = 0; i < n; i++) { a[i] = mk(c.a[0][i], c.a[1][i]); b[i] = mk(c.a[2][i], c.a[3][i]); p[i] = (int16_t)c.a[2][i]; }
      std::string name = std::string("abstract_") + E[o]; iv *res = a.data();
      if (o < 6) ((void (*)(iv *, uint32_t))ea[o])(a.data(), n); else if (o == 6) ((ab1_f *)ea[o])(a.data(), n, p.data()); else if (o == 7) ((void (*)(iv *, uint32_t, int32_t))ea[o])(a.data(), n, (int32_t)c.s[0]);
      else { ((void (*)(iv *, uint32_t, iv *, iv *))ea[o])(d.data(), n, a.data(), b.data()); res = d.data(); }
      Rng g(c.hash()); bool ok = true;
      for (int k = 0; k < 8 && ok; k++) { std::vector<int32_t> x(n), y(n), e(n);
        for (uint32_t i = 0; i < n; i++) { int64_t lo = c.a[0][i], hi = c.a[1][i]; y[i] = (int32_t)(g.chance(1, 2) ? g.in(c.a[2][i], c.a[3][i]) : g.chance(1, 2) ? c.a[2][i] : c.a[3][i]);
          x[i] = (int32_t)(k == 0 ? lo : k == 1 ? hi : k == 2 ? lo + c.a[4][i] % (hi - lo + 1) : k >= 5 ? Drive::arg(lo, hi, o == 6 ? p[i] : o == 7 ? c.s[0] : o == 8 ? y[i] : o == 5 ? -1 : 1, g.chance(1, 2) ? 1 : -1) : g.in(lo, hi)); }
        std::vector<int32_t> x0 = x;
        if (o < 6) ((arr_f *)ec[o])(x.data(), n); else if (o == 6) ((ntt16s_f *)ec[o])(x.data(), n, p.data()); else if (o == 7) ((smul_f *)ec[o])(x.data(), n, (int32_t)c.s[0]); else { ((mul_f *)ec[o])(e.data(), n, x.data(), y.data()); x = e; }
        for (uint32_t i = 0; i < n; i++) if (x[i] < lo_(res[i]) || x[i] > hi_(res[i])) { msg = fmt("%s: element %u of %u gets [%lld, %lld], but %s turns %d into %d", name.c_str(), i, n, (long long)lo_(res[i]), (long long)hi_(res[i]), E[o], x0[i], x[i]); ok = false; break; } }
      for (uint32_t i = 0; i < n; i++) { del(a[i]); del(b[i]); if (o == 8) del(d[i]); }
      return ok; };
    t.shrinkers = [](const Case &c) { std::vector<Case> v; for (size_t w : {c.a[0].size() / 2, (size_t)1}) if (w && w <= c.a[0].size()) for (int f = 0; f < 2; f++) { Case d = c; for (auto &a : d.a) { if (f) a.resize(a.size() - w); else a.erase(a.begin(), a.begin() + w); } v.push_back(d); } return v; };
    t.nontrivial = [](const Case &c) { return !c.a[0].empty(); };
    R.add(t);
  }
}

int main(int argc, char **argv) {
  Runner R;
  static Lib L, LR;
  R.setup = [](Runner &R) {
    L.open(R.lib + "/libint.so");
    mk = L.fn<iv(int64_t, int64_t)>("vp_mk"); lo_ = L.fn<int64_t(iv)>("vp_min"); hi_ = L.fn<int64_t(iv)>("vp_max"); del = L.fn<void(iv)>("vp_del");
    if (R.prop == "C19") setup19(R, L); else if (R.prop == "C20") setup20(R, L); else { LR.open(R.lib + "/libred.so"); setup21(R, L, LR); }
  };
  return R.main(argc, argv);
}
