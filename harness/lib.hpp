// Access to the shared objects built from /repo's sources.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <dlfcn.h>

struct Lib {
  void *h = nullptr;
  void open(const std::string &path) {
    h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(70); }
  }
  void *sym(const std::string &n, bool must = true) const {
    void *p = dlsym(h, n.c_str());
    if (!p && must) { fprintf(stderr, "missing symbol %s\n", n.c_str()); exit(70); }
    return p;
  }
  template <class F> F *fn(const std::string &n) const { return (F *)sym(n); }
};

typedef void prod_f(int32_t *c, int32_t *a, int32_t *b);
typedef void inplace_f(int32_t *a);
typedef void arr_f(int32_t *a, uint32_t n);
typedef void ntt16u_f(int32_t *a, uint32_t n, const uint16_t *p);
typedef void ntt16q_f(int32_t *a, uint32_t n, const uint16_t *p, int32_t q);
typedef void ntt16s_f(int32_t *a, uint32_t n, const int16_t *p);
typedef void mul_f(int32_t *c, uint32_t n, const int32_t *a, const int32_t *b);
typedef void mulq_f(int32_t *c, uint32_t n, const int32_t *a, const int32_t *b, int32_t q);
typedef void smul_f(int32_t *a, uint32_t n, int32_t c);
typedef void smulq_f(int32_t *a, uint32_t n, int32_t c, int32_t q);
typedef void shuf_f(int32_t *a, const uint16_t p[][2], uint32_t n);

static const std::vector<int64_t> SIZES = {16, 256, 512, 1024};
