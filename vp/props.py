"""What each check builds and runs."""
import os, shutil, subprocess
from . import build
from .build import Tree, harness, BENCH
from .run import run_harness

PROPS = {}


def prop(pid, rule, assumptions=()):
    def deco(f):
        def replay(ctx):
            f(ctx, replay=True)
            return ctx.replay_rc
        PROPS[pid] = {"run": f, "replay": replay, "rule": rule, "assumptions": assumptions}
        return f
    return deco


def go(ctx, exe, libdir, replay, **kw):
    if replay:
        e = dict(os.environ)
        e.update(kw.get("env") or {})
        p = subprocess.run([exe, "--prop", ctx.prop, "--lib", libdir, "--replay", ctx.replay, "--log",
                            os.path.join(ctx.work, "log")], env=e)
        ctx.replay_rc = p.returncode
        return
    run_harness(ctx, exe, libdir, **kw)


def simple(pid, h, families, rule, flavour="plain", assumptions=(), hflags=(), scale=1.0):
    @prop(pid, rule, assumptions)
    def f(ctx, replay=False):
        t = Tree(ctx.work)
        for fam in families:
            t.shared(fam, flavour)
        exe = harness(ctx.work, h, flags=hflags)
        go(ctx, exe, os.path.join(ctx.work, "lib_" + flavour), replay, scale=1.0 if ctx.thorough else scale)


PROD_RULE = ("A case is a pair of polynomials of one size (independent patterns, monomials, sparse, small coefficients, a chosen "
             "product, spectrum or intermediate state, extremes), word offsets of the three arrays and the prior contents of c; all five variants run on it and "
             "every coefficient is compared with schoolbook multiplication. Non-trivial: both polynomials non-zero and at "
             "least one has two or more non-zero coefficients; distinct by hash of the whole case.")
for _p, _f in (("C01", "default"), ("C02", "naive"), ("C03", "red"), ("C04", "asm")):
    simple(_p, "h_products", [_f], PROD_RULE, hflags=["-O3", "-march=native"], scale=2.5)

TR_RULE = ("A case is a size n, a root psi, an input array in the documented range (patterns, extremes, chosen spectra or intermediate states, operands driven to chosen magnitudes) and word/halfword "
           "offsets; every transform of the family runs on it with its documented table. Every (n, psi) pair is enumerated, then random ones "
           "are drawn per size. Non-trivial: the input has a non-zero coefficient; distinct by hash of the whole case.")
simple("C05", "h_transforms", ["default"], TR_RULE + " Oracle: the definition of the NTT.", scale=2.0)
simple("C06", "h_transforms", ["naive"], TR_RULE + " Oracle: the definition of the NTT.", scale=2.0)
simple("C07", "h_transforms", ["red"], TR_RULE + " Oracle: the definition of the NTT, modulo Q.", scale=2.0)
simple("C08", "h_transforms", ["asm", "red"], TR_RULE + " Oracle: the C transform of the same name, bit for bit.", scale=2.5)

simple("C09", "h_arith", ["default", "naive"],
       "Every pair of operands in [0, Q-1] is run through all six functions (target all_pairs), then arrays of random length, contents and "
       "offset, with sentinels around every array. Non-trivial: non-empty arrays with a non-zero operand (all_pairs: second operand above 1); distinct by hash of the case.",
       hflags=["-O3", "-march=native"])
simple("C10", "h_arith", ["red"],
       "All 2^32 inputs of the one-operand functions and all products of the two documented operand ranges are enumerated in blocks; then arrays "
       "of random length and offset with values drawn from patterns and from both edges of the 44-bit product window, with sentinels around every array. "
       "Non-trivial: non-empty arrays with a non-zero element; distinct by hash of the case (a block counts once).", hflags=["-O3", "-march=native"])
simple("C11", "h_arith", ["asm", "red"],
       "All 2^32 inputs of the one-operand functions and all products of the two documented operand ranges are enumerated in blocks; then arrays "
       "whose length is any multiple of 16, at any offset, with values drawn from patterns and from both edges of the 44-bit product window. Oracle: the C "
       "function of the same name. Non-trivial: a non-zero element; distinct by hash of the case (a block counts once).", hflags=["-O3", "-march=native"])

WRAP_F = ["ntt%s_ct_rev2std", "ntt%s_gs_rev2std", "ntt%s_ct_std2rev", "ntt%s_gs_std2rev", "mulntt%s_ct_rev2std", "mulntt%s_ct_std2rev",
          "intt%s_ct_rev2std", "intt%s_gs_rev2std", "intt%s_ct_std2rev", "intt%s_gs_std2rev", "inttmul%s_gs_rev2std", "inttmul%s_gs_std2rev"]


def wrapper_shim(ctx, fam):
    """a C file that exports the inline wrappers and the constants of all four sizes"""
    hdr = {"default": "ntt%d.h", "naive": "naive_ntt%d.h", "red": "ntt_red%d.h", "asm": "ntt_red_asm%d.h"}[fam]
    s = []
    for n, _ in build.SIZES:
        s.append('#include "%s"' % (hdr % n))
    for n, _ in build.SIZES:
        for f in WRAP_F:
            nm = f % (("_red%d" if fam in ("red", "asm") else "%d") % n)
            nm = ("naive_" if fam == "naive" else "") + nm + ("_asm" if fam == "asm" else "")
            s.append("void W_%s(int32_t *a) { %s(a); }" % (nm, nm))
        b = ("ntt_red%d_" if fam in ("red", "asm") else "ntt%d_") % n
        for k in (["rescale8", "rescale6"] if fam in ("red", "asm") else ["inv_n"]):
            s.append("const int32_t K_%s%s = %s%s;" % (b, k, b, k))
    p = os.path.join(ctx.work, "shim_%s.c" % fam)
    open(p, "w").write("\n".join(s) + "\n")
    return p


@prop("C12", "A case is an implementation, a size, a forward wrapper, an inverse wrapper that accepts its output order, the reduction between them, a "
             "scaling constant or table, an offset and an input array. Three comparisons: the forward result with the definition of the NTT, the "
             "inverse result with n times the input, the scaled result with the documented multiple. Non-trivial: non-zero input; distinct by hash of the case.")
def c12(ctx, replay=False):
    t = Tree(ctx.work)
    t.tables()
    for fam in ("default", "naive", "red", "asm"):
        t.shared(fam, "plain", extra=[wrapper_shim(ctx, fam)], name="w_" + fam)
    exe = harness(ctx.work, "h_wrappers")
    go(ctx, exe, os.path.join(ctx.work, "lib_plain"), replay, scale=1.0 if ctx.thorough else 2.0)

simple("C13", "h_abi", ["asm", "red"],
       "A case is a routine, a length, operand values, the placement of each array (against an unmapped page before or after it, or at an offset between "
       "canaries) and random contents of all general and vector registers, of the undefined upper halves of 32-bit arguments and of MXCSR/x87 control. "
       "After the call: callee-saved registers, stack pointer, caller's frame, DF, control words, canaries, read-only operands and the result (against the C "
       "version) are checked. Non-trivial: the first operand is not all zero; distinct by hash of the case.")


# the harness itself is not instrumented: only the library is, and the sanitizer's run time is linked in
MEM_FLAVOURS = {
    "plain": (None, [], {}),
    "san": ("g++", ["-fsanitize=address,undefined"],
            {"ASAN_OPTIONS": "detect_leaks=0:handle_segv=0:quarantine_size_mb=8", "UBSAN_OPTIONS": "print_stacktrace=0"}),
    "msan": ("clang++", ["-fsanitize=memory"], {"MSAN_OPTIONS": "poison_in_malloc=0:poison_in_free=0:intercept_memcmp=0"}),
}


@prop("C14", "A case is a C routine, a size or length, operand values in its domain, the placement of each array (against an unmapped page before or after it, at an "
             "offset between canaries, or an exact-size heap block) and the prior contents of the output; every case runs twice, in that arrangement and on fresh heap blocks with "
             "other prior contents, in three builds (guard and read-only pages; address and undefined-behaviour sanitizers; memory sanitizer). Held: no fault, no report, "
             "canaries and constant operands unchanged, both results equal, every result element written and defined. Non-trivial: length above 0; distinct by hash of the case.")
def c14(ctx, replay=False):
    t = Tree(ctx.work)
    fl = list(MEM_FLAVOURS)
    if replay:
        txt = open(ctx.replay).read()
        fl = [f for f in fl if "target %s_" % f in txt or " %s_" % f in txt]
    for f in fl:
        cxx, lf, env = MEM_FLAVOURS[f]
        for fam in ("default", "naive", "red"):
            t.shared(fam, f)
        exe = os.path.join(ctx.work, "h_mem_" + f)
        if cxx:
            o = exe + ".o"
            build.sh(["g++", "-std=c++17", "-O2", "-w", "-D" + f.upper(), "-c", os.path.join(build.VERIF, "harness", "h_mem.cpp"), "-o", o])
            build.sh([cxx] + lf + [o, "-o", exe, "-ldl", "-lpthread"])
        else:
            harness(ctx.work, "h_mem", out=exe)
        go(ctx, exe, os.path.join(ctx.work, "lib_" + f), replay, env=env, tag=f)


from . import tables


def gen_check(pid, kind, name):
    @prop(pid, "A case is a pair (n, psi) with n a power of two from 2 to 2048 and psi^n = -1 modulo Q: all 4094 pairs are run. The generator runs in an empty "
               "directory, the two files it writes are compiled with a reader, and every entry of every declared table and every parameter is compared with the "
               "powers computed from their definition. Every case is non-trivial; distinct by (n, psi).")
    def f(ctx, replay=False):
        t = Tree(ctx.work)
        t.generators()
        exe = os.path.join(t.dir, name)
        if replay:
            _, n, psi = open(ctx.replay).readline().split()[:3]
            r = tables.check_pair(exe, int(n), int(psi), kind, os.path.join(ctx.work, "scratch"))
            print("FAIL " + r if r else "PASS")
            ctx.replay_rc = 1 if r else 0
            return
        exes = [("plain", exe, ("gcc", "-O0"))]
        if ctx.thorough:
            for label, cc in (("clang", ["clang", "-O3", "-DNDEBUG"]), ("san", ["gcc", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
                              ("O3", ["gcc", "-O3", "-DNDEBUG"])):
                build.sh(cc + ["-w", "-o", name + "_" + label, name + ".c"], cwd=t.dir)
                exes.append((label, exe + "_" + label, (cc[0], "-O0")))
        tables.sweep(ctx, kind, exes)


gen_check("C15", "default", "make_tables")
gen_check("C16", "red", "make_red_tables")


@prop("C17", "A case is an array (identity, hashed indices or patterns) whose length is a power of two from 1 to 2^20, an offset and an order of the table's pairs; both copies of the "
             "generic shuffle and of the table-driven shuffle run on it, once (every element at its reversed index) and twice (identity). Also every table the generator can write "
             "(n = 2..32768) and every shipped table, read back through the compiler and compared as a set of pairs. Non-trivial: length above 2; distinct by hash of the case.")
def c17(ctx, replay=False):
    t = Tree(ctx.work)
    shipped = os.path.join(ctx.work, "shipped")
    os.makedirs(shipped)
    for n, _ in build.SIZES:
        for e in "hc":
            shutil.copy(os.path.join(t.dir, "bitrev%d_table.%s" % (n, e)), shipped)
    if replay and open(ctx.replay).readline().startswith("bitrev"):
        t.generators()
        what, n = open(ctx.replay).readline().split()[1:]
        r = tables.bitrev_case(t, ctx, what, int(n), shipped)
        print("FAIL " + r if r else "PASS")
        ctx.replay_rc = 1 if r else 0
        return
    for f in ("default", "naive"):
        t.shared(f)
    go(ctx, harness(ctx.work, "h_shuffle"), os.path.join(ctx.work, "lib_plain"), replay)
    if not replay:
        tables.bitrev_all(t, ctx, shipped)


@prop("C18", "A case is a generator and a list of 0 to 4 argument strings (powers of two, their neighbours, numbers that are valid modulo 2^16, 2^32 or Q, roots of the wrong "
             "order, every psi, every small size, words), with or without old files in the way. The generator runs in its own scratch directory; exit status and directory contents "
             "before and after are compared with the stated acceptance rule. Non-trivial: at least one argument; distinct by hash of the case.")
def c18(ctx, replay=False):
    t = Tree(ctx.work)
    t.generators()
    go(ctx, harness(ctx.work, "h_gen"), t.dir, replay)


@prop("C29", "A case is a generator (also the copies among the verifier's benchmarks), valid arguments, an injected failure (a file-size limit at any byte, as an error or as a signal; a name that is "
             "a directory; a full device behind the name of either file; the k-th allocation failing; none), and what the files held before. If the exit status is 0, both files hold exactly what a "
             "run without failures writes in an empty directory; if nothing failed, the exit status is 0. Non-trivial: a failure is injected; distinct by hash of the case.")
def c29(ctx, replay=False):
    t = Tree(ctx.work)
    t.generators()
    b = Tree(ctx.work, BENCH)
    b.generators()
    os.makedirs(os.path.join(t.dir, "bench"))
    for g in ("make_tables", "make_red_tables", "make_bitrev_table"):
        shutil.copy2(os.path.join(b.dir, g), os.path.join(t.dir, "bench", g))
    build.sh(["gcc", "-O1", "-shared", "-fPIC", "-o", os.path.join(t.dir, "failmalloc.so"), os.path.join(build.VERIF, "stubs", "failmalloc.c")])
    go(ctx, harness(ctx.work, "h_gen"), t.dir, replay)


@prop("C25", "A case is one published entry: every number in the three root lists (checked against an enumeration of all residues), every entry and parameter of the size-32 tables, every "
             "pair of the shipped bit-reversal tables, every coefficient of the known-answer vectors (against the schoolbook product); the enumeration is complete. Every case is non-trivial; distinct by (file, index).")
def c25(ctx, replay=False):
    only = open(ctx.replay).readline().strip()[5:] if replay else None
    ctx.replay_rc = 0
    for name, k, r in tables.published(ctx):
        if only and name != only:
            continue
        ctx.res.cases += k
        ctx.res.evaluations += k
        ctx.res.per_target[name] = k
        ctx.res.hashes |= {(name, i) for i in range(k)}
        ctx.res.samples.append("%s: %d entries" % (name, k))
        if r and not replay:
            ctx.violate(r, "file %s\n# %s\n" % (name, r))
        if r and replay:
            print("FAIL " + r)
            ctx.replay_rc = 1


def interval_shim(ctx):
    p = os.path.join(ctx.work, "ivshim.c")
    open(p, "w").write('#include "intervals.h"\nvoid *vp_mk(int64_t a, int64_t b) { return interval(a, b); }\n'
                       'int64_t vp_min(interval_t *a) { return a->min; }\nint64_t vp_max(interval_t *a) { return a->max; }\n'
                       'void vp_del(interval_t *a) { delete_interval(a); }\n')
    return p


def interval_lib(ctx, t):
    t.shared("int", extra=[interval_shim(ctx)])


def bounds(pid, rule, fams=()):
    @prop(pid, rule)
    def f(ctx, replay=False):
        t = Tree(ctx.work)
        interval_lib(ctx, t)
        for x in fams:
            t.shared(x)
        go(ctx, harness(ctx.work, "h_bounds"), os.path.join(ctx.work, "lib_plain"), replay, env={"MALLOC_PERTURB_": "165"})


bounds("C19", "A case is an interval operation, one or two intervals (bounds near multiples of 4096 and of Q, near the ends of 32 and 64 bits, points, short and huge intervals; sums and "
              "differences at the very edge of 64 bits) and concrete points in them. Exact operations are compared with the tightest interval computed in 128 bits, the others with the "
              "concrete results of every point of short intervals and of ends, block boundaries and random points of long ones; calls that cannot be represented run in a child that must "
              "report and stop. Non-trivial: the first interval is not [0, 0]; distinct by hash of the case.")
bounds("C20", "A case is a range of x, a multiplier or range of multipliers, or a bound and a table of multipliers. Returned extrema are compared with the exact ones (one period of "
              "4096 at each end of the range, for every multiplier), witnesses are re-evaluated, and the butterfly and per-round bounds are compared with the exact worst case. Non-trivial: "
              "w (or the bound) not 0; distinct by hash of the case.")
bounds("C21", "A case is an abstract operation, an array of intervals, a table of multipliers (real ones for random psi, or arbitrary) or of intervals around them, and choices of concrete points. "
              "Six concrete executions per case (all lower ends, all upper ends, random) in the library's own red code where nothing overflows and in an unbounded-integer model otherwise must "
              "stay inside the returned intervals; values beyond 32 bits must have been reported on standard output. Non-trivial: an interval that is not [0, 0]; distinct by hash of the case.", ["red"])


@prop("C26", "A case is an array of 64-bit values, its placement (against an unmapped page before or after it, or at an offset) and the bytes around it; both copies of the sort run on it. All "
             "arrays up to length 7 (thorough: 8) up to order, all 0/1 words up to length 16 and 3-letter words up to length 11 are enumerated, then random arrays (sorted, reversed, nearly "
             "sorted, organ pipe, duplicates, ends of the 64-bit range; lengths to 20000). Oracle: std::sort and the bytes around. Non-trivial: length above 1; distinct by hash of the case.")
def c26(ctx, replay=False):
    t = Tree(ctx.work)
    t.shared("sort")
    b = Tree(ctx.work, BENCH)
    b.shared("sort", name="bsort", objdir="obj_bench")
    go(ctx, harness(ctx.work, "h_sort"), os.path.join(ctx.work, "lib_plain"), replay)


@prop("C24", "A case is an interval of the input variable (all pairs among 96 points at block borders, then random ones, with infinite ends and values beyond 64 bits) and whether input and output "
             "are the same variable; or a history of up to 40 operations over three abstract states and five variables, run in step with an interval domain whose reduction is computed from its "
             "definition. All variables of all states are compared after each step. Non-trivial: a history with an assumption; intervals: always; distinct by hash of the case.",
      ["crab and clam are replaced by stand-ins (stubs/crab_stub.hpp) with unbounded integers, flooring shifts and the documented interval operations"])
def c24(ctx, replay=False):
    t = Tree(ctx.work, "verifier/src")
    try:
        exe = harness(ctx.work, "h_crab", flags=["-I", t.dir, "-I", os.path.join(build.VERIF, "stubs")], libs=["-lgmpxx", "-lgmp"])
    except build.BuildError as e:
        # the domain uses something of crab that the stand-ins lack: nothing can be run, and that is not a violation
        ctx.res.notes.append("not decided: the domain does not compile against the stand-ins: " + str(e)[-1500:])
        ctx.res.samples.append("none: did not compile against the stand-ins")
        ctx.replay_rc = 0
        return
    go(ctx, exe, "-", replay)


@prop("C27", "A case is a transform, a size, a root and an input at the ends of the documented range (patterns, Walsh rows, or an input found by hill climbing that makes an output extreme), or two "
             "polynomials whose coefficients are chosen to be extreme after the first multiplication or whose pointwise product is a chosen pattern. It runs in a build with assertions and traps on "
             "signed overflow, bad shifts and value-changing conversions; results are compared with the documented transform or product, and each transform output is also reduced once and squared. "
             "Every (n, psi) pair is visited with every transform. Non-trivial: non-zero input; distinct by hash of the case.")
def c27(ctx, replay=False):
    t = Tree(ctx.work)
    t.shared("red", "plain")
    t.shared("red", "ov")
    go(ctx, harness(ctx.work, "h_overflow", flags=["-O3", "-march=native"]), ctx.work, replay)


@prop("C22", "A case is a history of 2 to 60 calls over all products, transforms and primitives of the four implementations and the bounds and interval functions (sizes, related inputs, reused "
             "memory and tables), or 2 to 8 threads that run such lists on arrays of their own. Each call's arrays are compared with what the same call leaves when it is the only one in a "
             "fresh process; every history runs in a fresh process. Library tables are compared before and after. Non-trivial: two or more calls; distinct by hash of the case.")
def c22(ctx, replay=False):
    t = Tree(ctx.work)
    interval_lib(ctx, t)
    for f in ("default", "naive", "red", "asm"):
        t.shared(f)
    exe = harness(ctx.work, "h_history")
    lib = os.path.join(ctx.work, "lib_plain")
    if replay:
        return go(ctx, exe, lib, True, env={"VP_THREADS": "1"} if "target threads" in open(ctx.replay).read() else {})
    go(ctx, exe, lib, False, tag="h")
    go(ctx, exe, lib, False, env={"VP_THREADS": "1"}, tag="t", flaky=True, shards=2)


@prop("C23", "A case is a function of the benchmark copies and an input in its documented domain (arrays, lengths, sizes, roots, arbitrary signed tables, ranges), run in two builds of the copies (with and "
             "without the reduction intrinsic) and in the library: all arrays afterwards are equal and no assertion fails; or a benchmark program and the values of its nondeterministic inputs, spread over the "
             "range its assumptions allow (found by bisection) or climbing to extreme products: no assertion fails; or a generator of the copies and a pair (n, psi). Non-trivial: a non-zero "
             "input; distinct by hash of the case.",
      ["clam's assertion, assumption, nondeterministic value and reduction intrinsic are stand-ins (stubs/bench_stub.c) with their documented meaning"])
def c23(ctx, replay=False):
    b = Tree(ctx.work, BENCH)
    b.generators()
    gens = [("make_red_tables", "bench"), ("make_tables", "default")]
    if replay:
        w = open(ctx.replay).readline().split()
        if w[0] in ("pair", "bitrev"):
            if w[0] == "pair":
                exe = [g for g, k in gens if k == w[3]][0]
                r = tables.check_pair(os.path.join(b.dir, exe), int(w[1]), int(w[2]), w[3], os.path.join(ctx.work, "scratch"))
            else:
                r = tables.bitrev_case(b, ctx, w[1], int(w[2]), b.dir)
            print("FAIL " + r if r else "PASS")
            ctx.replay_rc = 1 if r else 0
            return
    t = Tree(ctx.work)
    for f in ("red", "default", "int", "sort"):
        t.shared(f)
    stub = os.path.join(build.VERIF, "stubs", "bench_stub.c")
    b.shared("bench", extra=[stub], name="bench_safe", objdir="obj_bsafe", cpp=["-DSAFE", "-I."])
    b.shared("bench", extra=[stub], name="bench_crab", objdir="obj_bcrab", cpp=["-DSAFE", "-DUSE_CRAB_INTRINSICS", "-I."])
    prog = os.path.join(ctx.work, "prog")
    os.makedirs(prog)
    so = os.path.join(ctx.work, "lib_plain")
    rest = [o for o in sorted(os.listdir(os.path.join(ctx.work, "obj_bcrab_plain"))) if o.endswith(".o")]
    for f in sorted(os.listdir(b.dir)):
        if f.startswith("harness_") and f.endswith(".c"):
            o = os.path.join(prog, f[:-2] + ".o")
            build.sh(["gcc"] + build.CPP + ["-O2", "-w", "-fPIC", "-DSAFE", "-DUSE_CRAB_INTRINSICS", "-Dmain=vp_main", "-c", f, "-o", o], cwd=b.dir)
            build.sh(["gcc", "-shared", "-Wl,-Bsymbolic", "-o", os.path.join(prog, f[:-2] + ".so"), o]
                     + [os.path.join(ctx.work, "obj_bcrab_plain", x) for x in rest])
    go(ctx, harness(ctx.work, "h_bench", flags=["-O3", "-march=native"]), ctx.work, replay)
    if replay:
        return
    for exe, kind in gens:
        tables.sweep(ctx, kind, [(exe, os.path.join(b.dir, exe), ("gcc", "-O0"))], limit=None if ctx.thorough else 500, tag=exe + " ")
    tables.bitrev_all(b, ctx, b.dir, [("generated", 1 << k) for k in range(1, 16)] + [("shipped", 1024)])


from . import script


@prop("C28", "A case is an argument list of the verification script (file name, inlining option in any place or absent), whether the file is there, left-overs of an earlier run, the stages that fail and how "
             "(before or after writing their output, by status or by signal, or missing), with stand-ins for the three tools that record what they get. Held: with no failing stage, status 0 and the verifier read exactly the given "
             "program after preprocessing and unrolling, inlined iff asked for; with a failing stage, a failure status and no later stage run. Every case is non-trivial; distinct by the whole case.",
      ["clam-pp, seaopt and nttverifier are stand-ins that follow the argument conventions the script uses (-o output, one input)"])
def c28(ctx, replay=False):
    t = Tree(ctx.work, BENCH)
    s = os.path.join(t.dir, "verify.sh")
    if replay:
        import ast
        r = script.run(s, ast.literal_eval(open(ctx.replay).readline()), ctx.work)
        print("FAIL " + r if r else "PASS")
        ctx.replay_rc = 1 if r else 0
        return
    script.check(ctx, s, 40000 if ctx.thorough else 3000)


# how the library may be built, and what runs in each build: harness, families, scale of the random targets, thinning of the enumerated ones
BUILDS = ("debug", "clang", "v3", "cdebug")
IN_BUILD = [("C01", "h_products", ["default"], .03, 1), ("C02", "h_products", ["naive"], .02, 1), ("C03", "h_products", ["red"], .03, 1), ("C04", "h_products", ["asm"], .02, 1),
            ("C05", "h_transforms", ["default"], .04, 8), ("C06", "h_transforms", ["naive"], .02, 12), ("C07", "h_transforms", ["red"], .04, 8), ("C08", "h_transforms", ["asm", "red"], .03, 8),
            ("C09", "h_arith", ["default", "naive"], .05, 40), ("C10", "h_arith", ["red"], .05, 40), ("C12", "h_wrappers", [], .04, 1),
            ("C17", "h_shuffle", ["default", "naive"], .05, 10), ("C19", "h_bounds", ["int"], .05, 20), ("C20", "h_bounds", ["int"], .05, 20), ("C21", "h_bounds", ["int", "red"], .05, 20)]


@prop("C30", "A case is a case of one of the checks C01-C10, C12, C17, C19-C21 (their generators and oracles, at a smaller scale) and a build of the library: gcc -O0 with assertions, clang -O3, gcc -O3 "
             "for AVX2 with unrolled loops and unsigned char, clang -O2 with assertions and patterned automatic variables. The results are those the documentation defines and no assertion fails. "
             "Non-trivial as in those checks; distinct by hash of the case (every build draws its own).")
def c30(ctx, replay=False):
    from concurrent.futures import ThreadPoolExecutor
    t = Tree(ctx.work)
    t.tables()
    want = None
    if replay:
        want = [x for x in open(ctx.replay).read().splitlines() if x.startswith("# build ")][0].split()[2].split("/")[:2]
    todo = [(b, x) for b in BUILDS for x in IN_BUILD if not want or [b, x[0]] == want]
    hs = sorted({x[1] for _, x in todo})
    shims = {f: wrapper_shim(ctx, f) for f in ("default", "naive", "red", "asm")}
    iv = interval_shim(ctx)
    with ThreadPoolExecutor(8) as ex:
        exes = {h: ex.submit(harness, ctx.work, h, None, ["-O3", "-march=native"] if h in ("h_products", "h_arith") else []) for h in hs}

        def libs(b):
            for f in ("default", "naive", "red", "asm", "int"):
                t.shared(f, b, extra=[iv] if f == "int" else [])
            for f in ("default", "naive", "red", "asm"):
                t.shared(f, b, extra=[shims[f]], name="w_" + f)
        for f in [ex.submit(libs, b) for b in sorted({b for b, _ in todo})]:
            f.result()
        exes = {h: f.result() for h, f in exes.items()}
    for k, (b, (p, h, fams, scale, thin)) in enumerate(todo):
        lib = os.path.join(ctx.work, "lib_" + b)
        env = {"MALLOC_PERTURB_": "165"} if h == "h_bounds" else {}
        if replay:
            e = dict(os.environ)
            e.update(env)
            ctx.replay_rc = subprocess.run([exes[h], "--prop", p, "--lib", lib, "--thin", str(thin), "--replay", ctx.replay, "--log", os.path.join(ctx.work, "log")], env=e).returncode
            return
        run_harness(ctx, exes[h], lib, env=env, scale=scale, thin=thin, inner=p, tag="_%s_%s" % (b, p), mark="%s/%s/" % (b, p), seed=ctx.seed * 1000 + k)
        if ctx.res.violation:
            return
