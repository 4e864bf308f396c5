"""C15, C16, C25 (and the generators of C17, C23): what the table generators write, read back through the C compiler."""
import ctypes, hashlib, multiprocessing, os, random, re, shutil, subprocess, time
from . import build

Q = 12289


def inv(x):
    return pow(x, Q - 2, Q)


def lg(n):
    return n.bit_length() - 1


def rev(i, k):
    r = 0
    for _ in range(k):
        r = r << 1 | i & 1
        i >>= 1
    return r


_rev = {}


def revs(n):
    if n not in _rev:
        k = lg(n)
        _rev[n] = [rev(i, k) for i in range(n)]
    return _rev[n]


def powers(b, n, s=1):
    out = []
    x = s % Q
    for _ in range(n):
        out.append(x)
        x = x * b % Q
    return out


def heap(n, psi, mixed, bitrev):
    """p[t + j] = psi^(n/2t) (mixed only) * omega^(n/2t * (j or bitrev(j))); p[0] is not used"""
    p = [None] * n
    t = 1
    while t < n:
        w = powers(pow(psi, n // t, Q), t, pow(psi, n // (2 * t), Q) if mixed else 1)
        if bitrev:
            w = [w[r] for r in revs(t)]
        p[t:2 * t] = w
        t *= 2
    return p


def roots(n):
    return [x for x in range(2, Q) if pow(x, n, Q) == Q - 1]


def expected(n, psi, kind):
    """kind: default, red, bench -> (parameters, tables); table entries None are not specified"""
    ip, i3 = inv(psi), inv(3)
    prm = {"psi": psi, "omega": psi * psi % Q, "inv_psi": ip, "inv_omega": ip * ip % Q, "inv_n": inv(n)}
    base = {"psi_powers": powers(psi, n), "inv_psi_powers": powers(ip, n)}
    for nm, p in (("", psi), ("inv_", ip)):
        for m, mn in ((False, "omega"), (True, "mixed")):
            for b, bn in ((False, ""), (True, "_rev")):
                base[nm + mn + "_powers" + bn] = heap(n, p, m, b)
    if kind == "default":
        base["scaled_inv_psi_powers"] = powers(ip, n, inv(n))
        return prm, base
    cen = lambda x: None if x is None else (x - Q if x > Q // 2 else x)
    out = {k: [None if x is None else x * i3 % Q for x in v] for k, v in base.items()}
    prm["inv_k"] = i3
    r8, r6 = pow(i3, 8, Q) * inv(n) % Q, pow(i3, 6, Q) * inv(n) % Q
    out["scaled_inv_psi_powers"] = powers(ip, n, r8)
    if kind == "red":
        out["scaled_inv_psi_powers_var"] = powers(ip, n, r6)
        prm["rescale8"], prm["rescale6"] = r8, r6
    else:
        prm["rescale"] = r8
    return prm, {k: [cen(x) for x in v] for k, v in out.items()}


def prefix(n, kind):
    return ("ntt%d" if kind == "default" else "ntt_red%d") % n


def read_back(d, n, kind, prm, tabs, cc=("gcc", "-O0"), extra=""):
    """compile the files in d and return (parameters, tables) or an error text"""
    pre = prefix(n, kind)
    s = ['#include <stdint.h>', '#include "%s_tables.h"' % pre, "#define L(x) (sizeof(x) / sizeof(x[0]))",
         "long vp_len(int k) { switch (k) {"]
    names = sorted(tabs)
    for k, t in enumerate(names):
        s.append("case %d: return L(%s_%s);" % (k, pre, t))
    s.append("} return -1; }\nlong vp_at(int k, long i) { switch (k) {")
    for k, t in enumerate(names):
        s.append("case %d: return %s_%s[i];" % (k, pre, t))
    s.append("} return -1; }\nvoid vp_fill(int k, int32_t *o, long n) { for (long i = 0; i < n; i++) o[i] = (int32_t) vp_at(k, i); }")
    for p in sorted(prm):
        s.append("long vp_p_%s(void) { return %s_%s; }" % (p, pre, p))
    s.append(extra)
    open(os.path.join(d, "shim.c"), "w").write("\n".join(s))
    so = os.path.join(d, "t%d.so" % time.monotonic_ns())
    p = subprocess.run(list(cc) + ["-w", "-std=c99", "-fPIC", "-shared", "-o", so, "shim.c", pre + "_tables.c"], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return "the generated files do not compile: " + p.stdout.decode(errors="replace")[:400]
    lib = ctypes.CDLL(so)
    got_p = {}
    for x in prm:
        f = getattr(lib, "vp_p_" + x)
        f.restype = ctypes.c_long
        got_p[x] = f()
    lib.vp_len.restype = ctypes.c_long
    got = {}
    for k, t in enumerate(names):
        ln = lib.vp_len(k)
        a = (ctypes.c_int32 * max(1, ln))()
        lib.vp_fill(k, a, ctypes.c_long(ln))
        got[t] = list(a)[:ln]
    h = lib._handle
    del lib
    import _ctypes
    _ctypes.dlclose(h)
    os.unlink(so)
    return got_p, got


def compare(n, kind, prm, tabs, got):
    if isinstance(got, str):
        return got
    gp, gt = got
    pre = prefix(n, kind)
    for k, v in prm.items():
        if gp[k] != v:
            return "%s_%s = %d, expected %d" % (pre, k, gp[k], v)
    for k, v in tabs.items():
        g = gt[k]
        if len(g) != len(v):
            return "%s_%s has %d entries, expected %d" % (pre, k, len(g), len(v))
        for i, x in enumerate(v):
            if x is not None and g[i] != x:
                return "%s_%s[%d] = %d, expected %d" % (pre, k, i, g[i], x)
    return None


def check_pair(exe, n, psi, kind, d, cc=("gcc", "-O0")):
    """run the generator in d for one (n, psi); None or what is wrong"""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        p = subprocess.run([exe, str(n), str(psi)], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    except subprocess.TimeoutExpired:
        return "the generator does not end on valid parameters"
    if p.returncode:
        return "the generator fails with status %d on valid parameters: %s" % (p.returncode, p.stderr.decode(errors="replace")[:200])
    files = sorted(os.listdir(d))
    want = [prefix(n, kind) + "_tables.c", prefix(n, kind) + "_tables.h"]
    if files != want:
        return "the generator wrote %s, expected %s" % (files, want)
    prm, tabs = expected(n, psi, kind)
    return compare(n, kind, prm, tabs, read_back(d, n, kind, prm, tabs, cc))


def _work(a):
    exe, n, psi, kind, d, cc = a
    d = os.path.join(d, str(os.getpid()))
    try:
        r = check_pair(exe, n, psi, kind, d, cc)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return n, psi, cc, r


def all_pairs():
    return [(1 << k, psi) for k in range(1, 12) for psi in roots(1 << k)]


def sweep(ctx, kind, exes, limit=None, tag=""):
    """every (n, psi) (or the first limit of a shuffle, all small n first), every build of the generator in exes = [(label, exe, cc)]"""
    jobs = []
    for label, exe, cc in exes:
        jobs += [(exe, n, psi, kind, os.path.join(ctx.work, "scratch"), cc) for n, psi in all_pairs()]
    random.Random(ctx.seed).shuffle(jobs)
    if limit:
        jobs.sort(key=lambda j: j[1] > 32 and (j[1], j[2]) not in build.SIZES)
        jobs = jobs[:limit]
    # the big ones first would serialise the end; a shuffle balances well enough
    bad = []
    with multiprocessing.Pool(8) as pool:
        for n, psi, cc, r in pool.imap_unordered(_work, jobs, 8):
            ctx.res.cases += 1
            ctx.res.evaluations += 1
            ctx.res.per_target[tag + "n=%d" % n] = ctx.res.per_target.get(tag + "n=%d" % n, 0) + 1
            ctx.res.hashes.add((tag, n, psi))
            if len(ctx.res.samples) < 12 and psi % 7 == 3:
                ctx.res.samples.append("n=%d psi=%d" % (n, psi))
            if r:
                bad.append((n, psi, r))
                if len(bad) > 200:
                    pool.terminate()
                    break
    if bad:
        n, psi, r = min(bad)
        ctx.violate("%sn = %d, psi = %d: %s" % (tag, n, psi, r), "pair %d %d %s\n# %s\n" % (n, psi, kind, r))


def read_bitrev(d, src, n, arr=None, npairs=None):
    """pairs of a bit-reversal table compiled from d/src.{h,c}, or an error text"""
    arr = arr or "bitrev%d" % n
    npairs = npairs or "BITREV%d_NPAIRS" % n
    open(os.path.join(d, "shim.c"), "w").write(
        '#include "%s.h"\nlong vp_n(void) { return %s; }\nlong vp_s(void) { return sizeof(%s); }\n'
        'long vp_at(long i, int k) { return %s[i][k]; }\n' % (src, npairs, arr, arr))
    so = os.path.join(d, "t%d.so" % time.monotonic_ns())
    p = subprocess.run(["gcc", "-w", "-O0", "-fPIC", "-shared", "-o", so, "shim.c", src + ".c"], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return "%s does not compile: %s" % (src, p.stdout.decode(errors="replace")[:300])
    lib = ctypes.CDLL(so)
    for f in (lib.vp_n, lib.vp_s, lib.vp_at):
        f.restype = ctypes.c_long
    k = lib.vp_n()
    if k < 0 or k > n or lib.vp_s() != 4 * k:
        return "%s: %d pairs in %d bytes" % (src, k, lib.vp_s())
    return [(lib.vp_at(ctypes.c_long(i), 0), lib.vp_at(ctypes.c_long(i), 1)) for i in range(k)]


def wrong_pairs(n, got, what):
    if isinstance(got, str):
        return got
    r = revs(n)
    want = sorted((i, r[i]) for i in range(n) if i < r[i])
    if sorted(got) == want:
        return None
    extra = sorted(set(got) - set(want))[:3]
    missing = sorted(set(want) - set(got))[:3]
    dup = sorted(x for x in set(got) if got.count(x) > 1)[:3] if len(got) < 5000 else []
    return "%s for n = %d: missing %s, wrong %s, repeated %s (%d pairs, expected %d)" % (what, n, missing, extra, dup, len(got), len(want))


def bitrev_case(t, ctx, what, n, shipped):
    d = os.path.join(ctx.work, "bitrev")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if what == "shipped":
        for e in "hc":
            shutil.copy(os.path.join(shipped, "bitrev%d_table.%s" % (n, e)), d)
    else:
        p = subprocess.run([os.path.join(t.dir, "make_bitrev_table"), str(n)], cwd=d, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=60)
        if p.returncode:
            return "the generator fails for n = %d" % n
    return wrong_pairs(n, read_bitrev(d, "bitrev%d_table" % n, n), what + " table")


def bitrev_all(t, ctx, shipped, what=None):
    for what, n in what or [("generated", 1 << k) for k in range(1, 16)] + [("shipped", n) for n, _ in build.SIZES]:
        ctx.res.cases += 1
        ctx.res.evaluations += 1
        ctx.res.per_target[what + "_tables"] = ctx.res.per_target.get(what + "_tables", 0) + 1
        if n > 2:
            ctx.res.hashes.add((what, n))
        r = bitrev_case(t, ctx, what, n, shipped)
        if r:
            ctx.violate(r, "bitrev %s %d\n# %s\n" % (what, n, r))


KAT = r"""#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include "data_poly1024.h"
int main(void) {
  build_kat();
  printf("rows %d\n", (int)REPETITIONS);
  for (int k = 0; k < REPETITIONS; k++) {
    static int64_t z[1024]; memset(z, 0, sizeof z);
    for (int i = 0; i < 1024; i++) if (a[k][i] < 0 || a[k][i] >= 12289 || b[k][i] < 0 || b[k][i] >= 12289 || c[k][i] < 0 || c[k][i] >= 12289) { printf("bad %d: coefficient %d outside [0, Q)\n", k, i); return 0; }
    for (int i = 0; i < 1024; i++) for (int j = 0; j < 1024; j++) { int64_t p = (int64_t)a[k][i] * b[k][j]; if (i + j < 1024) z[i + j] += p; else z[i + j - 1024] -= p; }
    for (int i = 0; i < 1024; i++) { int64_t v = (z[i] % 12289 + 12289) % 12289; if (v != c[k][i]) { printf("bad %d: coefficient %d is %d, the product has %d\n", k, i, (int)c[k][i], (int)v); return 0; } }
    for (int m = 0; m < k; m++) if (!memcmp(a[m], a[k], 4096) && !memcmp(b[m], b[k], 4096)) { printf("bad %d: repeats vector %d\n", k, m); return 0; }
  }
  return 0;
}
"""


def known_answers(d):
    """number of known-answer vectors, and what is wrong or None"""
    open(os.path.join(d, "kat_shim.c"), "w").write(KAT)
    p = subprocess.run(["gcc", "-w", "-O2", "-o", "kat_shim", "kat_shim.c", "data_poly1024.c"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return 0, "data_poly1024 does not compile: %s" % p.stdout.decode(errors="replace")[:300]
    p = subprocess.run([os.path.join(d, "kat_shim")], stdout=subprocess.PIPE, timeout=120)
    out = p.stdout.decode().split("\n")
    bad = [x for x in out if x.startswith("bad")]
    if p.returncode or not out[0].startswith("rows"):
        return 0, "known-answer vectors: the program ended with %d" % p.returncode
    n = int(out[0].split()[1])
    return n, "known-answer vector " + bad[0][4:] if bad else None if n >= 1 else "no known-answer vectors"


def published(ctx, only=None):
    """yields (name, entries checked, what is wrong or None)"""
    t = build.Tree(ctx.work)
    data = os.path.join(build.REPO, "data")
    for n in (1024, 2048, 4096):
        f = "primitive-roots-%d.txt" % n
        txt = re.sub(r"#.*", "", open(os.path.join(data, f)).read())
        r = None
        try:
            got = [int(x) for x in re.split(r"[\s,]+", txt.strip()) if x]
        except ValueError as e:
            got, r = [], "%s: %s" % (f, e)
        want = [x for x in range(1, Q) if pow(x, n, Q) == 1 and pow(x, n // 2, Q) != 1]
        if not r and sorted(got) != want:
            r = "%s: missing %s, not primitive %s, repeated %s" % (f, sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4],
                                                                  sorted(x for x in set(got) if got.count(x) > 1)[:4])
        yield f, len(want), r
    d = os.path.join(ctx.work, "published")
    os.makedirs(d)
    for x in os.listdir(t.dir):
        if re.match(r"(ntt32_tables|bitrev\d+_table|data_poly1024)\.[ch]$", x):
            shutil.copy(os.path.join(t.dir, x), d)
    prm, tabs = expected(32, 563, "default")
    yield "ntt32_tables", 32 * len(tabs) + len(prm), compare(32, "default", prm, tabs, read_back(d, 32, "default", prm, tabs))
    yield "ntt32_tables bitrev", 12, wrong_pairs(32, read_bitrev(d, "ntt32_tables", 32, "ntt32_bitrev"), "ntt32_bitrev")
    for n, _ in build.SIZES:
        r = wrong_pairs(n, read_bitrev(d, "bitrev%d_table" % n, n), "shipped table")
        yield "bitrev%d_table" % n, len([1 for i in range(n) if i < revs(n)[i]]), r
    k, r = known_answers(d)
    yield "data_poly1024", 1024 * k, r
    v = os.path.join(ctx.work, "published_v")
    shutil.copytree(os.path.join(build.REPO, "verifier/vstte20-benchmarks"), v, ignore=lambda a, b: [x for x in b if not re.match(r"bitrev\d+_table\.[ch]$", x)])
    yield "verifier bitrev1024_table", 496, wrong_pairs(1024, read_bitrev(v, "bitrev1024_table", 1024), "table of the verifier benchmarks")
