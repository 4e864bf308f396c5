// C13: assembly routines under the System V ABI with guard pages and read-only operands.
#include "lib.hpp"
#include <immintrin.h>
using namespace pbt;

struct Probe {
  uint64_t in[6];        // rbx rbp r12 r13 r14 r15       0
  uint64_t out[6];       //                               48
  uint64_t args[6];      // rdi rsi rdx rcx r8 r9         96
  uint64_t scratch[3];   // rax r10 r11                   144
  uint64_t fn;           //                               168
  uint64_t rsp0, rsp1;   //                               176 184
  uint64_t flags;        //                               192
  uint32_t mxcsr_in, mxcsr_out;   //                      200 204
  uint16_t cw_in, cw_out, sw, pad; //                     208 210 212
  uint64_t ret;          //                               216
  uint64_t sent_bad;     //                               224
  uint64_t pad2[3];
  alignas(32) uint8_t ymm[16][32];  //                    256
  uint16_t fenv[16];     //                               768
};
static_assert(offsetof(Probe, ymm) == 256 && offsetof(Probe, ret) == 216 && offsetof(Probe, fenv) == 768, "layout");
extern "C" Probe *probe_ptr; Probe *probe_ptr;
extern "C" uint64_t probe_rsp; uint64_t probe_rsp;
extern "C" uint32_t probe_mx; uint32_t probe_mx;
extern "C" uint16_t probe_cw; uint16_t probe_cw;
extern "C" void probe_call(Probe *);
asm(R"(
  .intel_syntax noprefix
  .text
  .globl probe_call
probe_call:
  push rbx
  push rbp
  push r12
  push r13
  push r14
  push r15
  sub rsp, 8
  stmxcsr dword ptr [rip + probe_mx]
  fnstcw word ptr [rip + probe_cw]
  mov qword ptr [rip + probe_ptr], rdi
  mov qword ptr [rip + probe_rsp], rsp
  # 64 sentinel words above the call's frame
  mov rcx, 64
  mov rax, 0x1122334455667788
1: push rax
  dec rcx
  jnz 1b
  mov qword ptr [rdi + 176], rsp
  ldmxcsr dword ptr [rdi + 200]
  fldcw word ptr [rdi + 208]
  vmovdqa ymm0, ymmword ptr [rdi + 256]
  vmovdqa ymm1, ymmword ptr [rdi + 288]
  vmovdqa ymm2, ymmword ptr [rdi + 320]
  vmovdqa ymm3, ymmword ptr [rdi + 352]
  vmovdqa ymm4, ymmword ptr [rdi + 384]
  vmovdqa ymm5, ymmword ptr [rdi + 416]
  vmovdqa ymm6, ymmword ptr [rdi + 448]
  vmovdqa ymm7, ymmword ptr [rdi + 480]
  vmovdqa ymm8, ymmword ptr [rdi + 512]
  vmovdqa ymm9, ymmword ptr [rdi + 544]
  vmovdqa ymm10, ymmword ptr [rdi + 576]
  vmovdqa ymm11, ymmword ptr [rdi + 608]
  vmovdqa ymm12, ymmword ptr [rdi + 640]
  vmovdqa ymm13, ymmword ptr [rdi + 672]
  vmovdqa ymm14, ymmword ptr [rdi + 704]
  vmovdqa ymm15, ymmword ptr [rdi + 736]
  mov rbx, [rdi]
  mov rbp, [rdi + 8]
  mov r12, [rdi + 16]
  mov r13, [rdi + 24]
  mov r14, [rdi + 32]
  mov r15, [rdi + 40]
  mov r10, [rdi + 152]
  mov rsi, [rdi + 104]
  mov rdx, [rdi + 112]
  mov rcx, [rdi + 120]
  mov r8, [rdi + 128]
  mov r9, [rdi + 136]
  mov rax, [rdi + 168]
  mov r11, [rdi + 160]
  mov rdi, [rdi + 96]
  call rax
  mov r11, qword ptr [rip + probe_ptr]
  mov [r11 + 184], rsp
  mov rsp, [r11 + 176]
  mov [r11 + 216], rax
  mov [r11 + 48], rbx
  mov [r11 + 56], rbp
  mov [r11 + 64], r12
  mov [r11 + 72], r13
  mov [r11 + 80], r14
  mov [r11 + 88], r15
  pushfq
  pop rax
  mov [r11 + 192], rax
  cld
  stmxcsr dword ptr [r11 + 204]
  fnstcw word ptr [r11 + 210]
  fnstenv [r11 + 768]
  emms
  xor edx, edx
  mov rcx, 64
  mov r8, 0x1122334455667788
2: pop rax
  cmp rax, r8
  je 3f
  inc rdx
3: dec rcx
  jnz 2b
  mov [r11 + 224], rdx
  mov rsp, qword ptr [rip + probe_rsp]
  ldmxcsr dword ptr [rip + probe_mx]
  fldcw word ptr [rip + probe_cw]
  vzeroupper
  add rsp, 8
  pop r15
  pop r14
  pop r13
  pop r12
  pop rbp
  pop rbx
  ret
  .att_syntax prefix
)");

static const char *NTT[8] = {"ntt_red_ct_rev2std", "mulntt_red_ct_rev2std", "ntt_red_ct_std2rev", "mulntt_red_ct_std2rev", "ntt_red_gs_rev2std", "nttmul_red_gs_rev2std", "ntt_red_gs_std2rev", "nttmul_red_gs_std2rev"};
static const int KIND[8] = {ref::STD_OMEGA, ref::STD_MIXED, ref::REV_OMEGA, ref::REV_MIXED, ref::REV_OMEGA, ref::REV_MIXED, ref::STD_OMEGA, ref::STD_MIXED};

struct Fn { std::string name, cname; int sig; int kind; void *f, *c; int64_t lo, hi; };  // sig: 0 (a,n)  1 (a,n,p16)  2 (d,n,a,b)  3 (a,n,c)  4 ntt

int main(int argc, char **argv) {
  Runner R;
  static Lib L, LC;
  static std::vector<Fn> F;
  R.setup = [](Runner &R) {
    L.open(R.lib + "/libasm.so"); LC.open(R.lib + "/libred.so");
    auto add = [&](std::string n, int sig, int64_t lo, int64_t hi, int kind = 0) {
      for (auto s : {"_asm", "_asm2"}) { void *p = L.sym(n + s, std::string(s) == "_asm"); if (p) F.push_back({n + s, n, sig, kind, p, LC.sym(n), lo, hi}); } };
    add("shift_array", 0, 0, 12288); add("reduce_array", 0, INT32_MIN, INT32_MAX); add("reduce_array_twice", 0, INT32_MIN, INT32_MAX); add("correct", 0, -12289, 2 * 12289 - 1);
    add("mul_reduce_array16", 1, -200000000, 200000000); add("mul_reduce_array", 2, -2000000, 2000000); add("scalar_mul_reduce_array", 3, -700000000, 700000000);
    for (int i = 0; i < 8; i++) add(NTT[i], 4, -21499, 21499, KIND[i]);
    for (size_t k = 0; k < F.size(); k++) {
      Target t; t.name = F[k].name; t.quick = 24000; t.thorough = 600000;
      int sig = F[k].sig; int64_t lo = F[k].lo, hi = F[k].hi;
      // scalars: n, placement of a/b/d/p (each -1 before guard, +1 after guard, 0 offset), word offset, seed of the register contents, psi or scalar
      t.gen = [=](Rng &r) {
        Case c; int64_t n = sig == 4 ? (int64_t)1 << r.in(4, 11) : 16 * (r.chance(1, 5) ? r.in(1, 256) : r.in(1, 16));
        c.a = {gen_vec(r, (size_t)n, lo, hi, {lo, hi, 0, 1})};
        if (sig == 1) c.a.push_back(gen_vec(r, (size_t)n, -32768, 32767, {-32768, 32767, 0, 6144, -6144}));
        if (sig == 2) c.a.push_back(gen_vec(r, (size_t)n, -2000000, 2000000, {0, 1, -1}));
        int64_t x = 0; if (sig == 3) x = r.in(-12000, 12000); if (sig == 4) { auto &ro = ref::roots((uint32_t)n); x = ro[(size_t)r.in(0, (int64_t)ro.size() - 1)]; }
        c.s = {n, r.in(-1, 1), r.in(-1, 1), r.in(-1, 1), r.in(0, 15), (int64_t)(r.next() >> 2), x};
        return c; };
      t.valid = [=](const Case &c) {
        if (c.s.size() != 7) return false; int64_t n = c.s[0];
        if (n < 16 || n % 16 || n > 4096) return false;
        if (sig == 4 && ((n & (n - 1)) || n > 2048 || c.s[6] < 2 || c.s[6] > 12288 || ref::pw(c.s[6], n) != 12288)) return false;
        if (sig == 3 && std::llabs(c.s[6]) > 12000) return false;
        for (auto &v : c.a) if ((int64_t)v.size() != n) return false;
        for (auto x : c.a[0]) if (x < lo || x > hi) return false;
        for (int i = 1; i <= 3; i++) if (std::llabs(c.s[i]) > 1) return false;
        return c.s[4] >= 0 && c.s[4] <= 15; };
      t.shrinkers = [=](const Case &c) { std::vector<Case> v; if (sig == 4) return v; int64_t n = c.s[0]; for (int64_t w = n / 2; w >= 16; w /= 2) { if (w % 16) continue; for (int f = 0; f < 2; f++) { Case d = c; d.s[0] = n - w; for (auto &x : d.a) { if (f) x.resize(n - w); else x.erase(x.begin(), x.begin() + w); } v.push_back(d); } } return v; };
      t.run = [k, sig](const Case &c, std::string &msg) {
        Fn &f = F[k]; uint32_t n = (uint32_t)c.s[0]; Rng r((uint64_t)c.s[5]);
        Buf A(n * 4, (int)c.s[1], c.s[4] * 4), B(n * 4, (int)c.s[2], c.s[4] * 4), D(n * 4, (int)c.s[3], c.s[4] * 4), P(n * 2, (int)c.s[2], c.s[4] * 2);
        std::vector<int32_t> e(n);
        for (uint32_t i = 0; i < n; i++) e[i] = A.as<int32_t>()[i] = (int32_t)c.a[0][i];
        if (sig == 1) for (uint32_t i = 0; i < n; i++) P.as<int16_t>()[i] = (int16_t)c.a[1][i];
        if (sig == 2) for (uint32_t i = 0; i < n; i++) { B.as<int32_t>()[i] = (int32_t)c.a[1][i]; D.as<int32_t>()[i] = -1; }
        if (sig == 4) { auto t = ref::table(n, c.s[6], (ref::Kind)f.kind, ref::inv3()); for (uint32_t i = 0; i < n; i++) P.as<int16_t>()[i] = (int16_t)ref::centered(t[i]); }
        // expected result from the C function
        switch (sig) {
          case 0: ((arr_f *)f.c)(e.data(), n); break;
          case 1: case 4: ((ntt16s_f *)f.c)(e.data(), n, P.as<int16_t>()); break;
          case 2: ((mul_f *)f.c)(e.data(), n, A.as<int32_t>(), B.as<int32_t>()); break;
          case 3: ((smul_f *)f.c)(e.data(), n, (int32_t)c.s[6]);
        }
        P.readonly(); B.readonly(); if (sig == 2) A.readonly();
        static Probe *pr = (Probe *)aligned_alloc(64, (sizeof(Probe) + 63) / 64 * 64);
        memset(pr, 0, sizeof *pr);
        for (auto &x : pr->in) x = r.next(); for (auto &x : pr->args) x = r.next(); for (auto &x : pr->scratch) x = r.next();
        for (auto &y : pr->ymm) for (auto &b : y) b = (uint8_t)r.next();
        auto up = [&](uint64_t low) { uint64_t h = r.next() << 32; if (c.s[5] % 3 == 0) h = 0; if (c.s[5] % 3 == 1 && r.chance(1, 2)) h = 0xffffffffULL << 32; return h | (low & 0xffffffffULL); };
        pr->args[1] = up(n);
        if (sig == 2) { pr->args[0] = (uint64_t)D.p; pr->args[2] = (uint64_t)A.p; pr->args[3] = (uint64_t)B.p; }
        else { pr->args[0] = (uint64_t)A.p; if (sig == 1 || sig == 4) pr->args[2] = (uint64_t)P.p; if (sig == 3) pr->args[2] = up((uint32_t)(int32_t)c.s[6]); }
        pr->fn = (uint64_t)f.f;
        pr->mxcsr_in = 0x1f80 | (uint32_t)(r.in(0, 3) << 13) | (r.chance(1, 4) ? 0x8040 : 0);
        pr->cw_in = 0x037f | (uint16_t)(r.in(0, 3) << 10);
        probe_call(pr);
        static const char *rn[6] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
        for (int i = 0; i < 6; i++) if (pr->in[i] != pr->out[i]) { msg = fmt("%s (n = %u) does not preserve %s", f.name.c_str(), n, rn[i]); return false; }
        if (pr->rsp0 != pr->rsp1) { msg = f.name + " does not restore the stack pointer"; return false; }
        if (pr->sent_bad) { msg = f.name + " writes into its caller's stack frame"; return false; }
        if (pr->flags & 0x400) { msg = f.name + " leaves the direction flag set"; return false; }
        if ((pr->mxcsr_in ^ pr->mxcsr_out) & ~0x3fu) { msg = f.name + " changes MXCSR control bits"; return false; }
        if (pr->cw_in != pr->cw_out) { msg = f.name + " changes the x87 control word"; return false; }
        if (pr->fenv[4] != 0xffff) { msg = f.name + " leaves x87/MMX registers in use"; return false; }
        const int32_t *res = sig == 2 ? D.as<int32_t>() : A.as<int32_t>();
        for (uint32_t i = 0; i < n; i++) if (res[i] != e[i]) { msg = fmt("%s (n = %u) depends on undefined register contents or memory: result[%u] = %d, the C version gives %d", f.name.c_str(), n, i, res[i], e[i]); return false; }
        if (!A.canary_ok() || !B.canary_ok() || !D.canary_ok() || !P.canary_ok()) { msg = f.name + " writes outside its arrays"; return false; }
        return true; };
      t.nontrivial = [](const Case &c) { for (auto x : c.a[0]) if (x) return true; return false; };
      R.add(t);
    }
    Target t; t.name = "avx2_supported"; t.quick = 1000; t.thorough = 20000;
    static void *av = L.sym("avx2_supported");
    t.gen = [](Rng &r) { Case c; c.s = {(int64_t)(r.next() >> 2)}; return c; };
    t.run = [](const Case &c, std::string &msg) {
      static Probe *pr = (Probe *)aligned_alloc(64, (sizeof(Probe) + 63) / 64 * 64); memset(pr, 0, sizeof *pr); Rng r((uint64_t)c.s[0]);
      for (auto &x : pr->in) x = r.next(); for (auto &x : pr->args) x = r.next(); for (auto &x : pr->scratch) x = r.next();
      pr->fn = (uint64_t)av; pr->mxcsr_in = 0x1f80; pr->cw_in = 0x037f; probe_call(pr);
      for (int i = 0; i < 6; i++) if (pr->in[i] != pr->out[i]) { msg = "avx2_supported clobbers a callee-saved register"; return false; }
      if (pr->rsp0 != pr->rsp1 || pr->sent_bad || (pr->flags & 0x400)) { msg = "avx2_supported disturbs the stack or flags"; return false; }
      if (((pr->ret & 0xff) != 0) != (__builtin_cpu_supports("avx2") != 0)) { msg = fmt("avx2_supported returns %d", (int)(pr->ret & 0xff)); return false; }
      return true; };
    R.add(t);
  };
  return R.main(argc, argv);
}
