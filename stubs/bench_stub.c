/* What the verifier's benchmarks import from clam, with its documented meaning: assertions are recorded, an assumption that does not
 * hold ends the run, int_nd returns the next chosen value, the intrinsic is the Longa-Naehrig reduction. */
#include <setjmp.h>
#include <stdint.h>

static jmp_buf jb;
static const int *nd;
static long nd_len, nd_used, asserts, first_fail;
static int64_t zmin, zmax;

void vp_reset(void) { asserts = 0; first_fail = -1; zmin = zmax = 0; nd_used = 0; }
long vp_asserts(void) { return asserts; }
long vp_first_fail(void) { return first_fail; }
long vp_nd_used(void) { return nd_used; }
int64_t vp_zmin(void) { return zmin; }
int64_t vp_zmax(void) { return zmax; }

void __CRAB_assert(int x) { if (!x && first_fail < 0) first_fail = asserts; asserts++; }
void __CRAB_assume(int x) { if (!x) longjmp(jb, 1); }
int int_nd(void) { long i = nd_used++; return i < nd_len ? nd[i] : 0; }
int32_t __CRAB_intrinsic_red(int64_t x) {
  int64_t r = x % 4096;
  if (r < 0) r += 4096;
  if (x < zmin) zmin = x;
  if (x > zmax) zmax = x;
  return (int32_t) (3 * r - (x - r) / 4096);
}

/* 1: ran to the end; 0: an assumption rejected value number vp_nd_used() - 1 */
int vp_run(int (*f)(void), const int *values, long n) {
  vp_reset();
  nd = values; nd_len = n;
  if (setjmp(jb)) return 0;
  f();
  return 1;
}
