"""Builds what a check needs from a fresh copy of /repo's working tree."""
import glob, os, re, shutil, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIZES = [(16, 1212), (256, 1002), (512, 1003), (1024, 1014)]
BENCH = "verifier/vstte20-benchmarks"
CPP = ["-D_DEFAULT_SOURCE", "-std=c99"]
FLAVOURS = {
    "plain": ("gcc", ["-O3", "-DNDEBUG", "-w"], []),
    "assert": ("gcc", ["-O1", "-g", "-w"], []),
    "san": ("gcc", ["-O1", "-g", "-w", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                    "-fno-sanitize-recover=all"], ["-fsanitize=address,undefined"]),
    "ubsan": ("gcc", ["-O1", "-g", "-w", "-fsanitize=undefined", "-fno-sanitize-recover=all"],
              ["-fsanitize=undefined"]),
    # asserts on; a signed overflow, a bad shift or a conversion that changes the value stops the process (SIGILL)
    "ov": ("clang", ["-O1", "-w", "-fsanitize=signed-integer-overflow,shift,implicit-signed-integer-truncation",
                     "-fsanitize-trap=signed-integer-overflow,shift,implicit-signed-integer-truncation"], []),
    "msan": ("clang", ["-O1", "-g", "-DNDEBUG", "-w", "-fno-omit-frame-pointer", "-fsanitize=memory"], ["-fsanitize=memory"]),
    "tsan": ("gcc", ["-O1", "-g", "-DNDEBUG", "-w", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "clang": ("clang", ["-O3", "-DNDEBUG", "-w"], []),
    "O0": ("gcc", ["-O0", "-DNDEBUG", "-w"], []),
    # other ways of building the library that a user may choose
    "debug": ("gcc", ["-g", "-O0", "-w"], []),
    "v3": ("gcc", ["-O3", "-DNDEBUG", "-w", "-march=x86-64-v3", "-funroll-loops", "-funsigned-char"], []),
    "cdebug": ("clang", ["-O2", "-w", "-ftrivial-auto-var-init=pattern"], []),
}
FAMILIES = {
    "default": ["ntt.c"] + ["ntt%d.c" % n for n, _ in SIZES] + ["ntt%d_tables.c" % n for n, _ in SIZES]
               + ["bitrev%d_table.c" % n for n, _ in SIZES],
    "naive": ["naive_ntt.c"] + ["naive_ntt%d.c" % n for n, _ in SIZES] + ["ntt%d_tables.c" % n for n, _ in SIZES],
    "red": ["ntt_red.c"] + ["ntt_red%d.c" % n for n, _ in SIZES] + ["ntt_red%d_tables.c" % n for n, _ in SIZES],
    "asm": ["ntt_asm.S"] + ["ntt_red_asm%d.c" % n for n, _ in SIZES] + ["ntt_red%d_tables.c" % n for n, _ in SIZES],
    "int": ["intervals.c", "red_bounds.c", "ntt_red_interval.c"],
    "sort": ["sort.c"],
    "ntt32": ["ntt32_tables.c"],
    "bench": ["ntt_red.c", "ntt_red1024.c", "ntt_red1024_tables.c", "ntt.c", "red_bounds.c", "sort.c", "bitrev1024_table.c"],
}


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=300, check=True):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if check and p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:]))
    return p


def par(cmds, cwd=None):
    """run commands in parallel; raise on the first failure"""
    ps = []
    for c in cmds:
        ps.append((c, subprocess.Popen(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = None
    for c, p in ps:
        o, _ = p.communicate()
        if p.returncode and bad is None:
            bad = "%s\n%s" % (" ".join(c), o.decode(errors="replace")[-3000:])
    if bad:
        raise BuildError(bad)


class Tree:
    """a private copy of a source directory of /repo"""

    def __init__(self, work, sub="src"):
        self.work = work
        self.dir = os.path.join(work, sub.replace("/", "_"))
        src = os.path.join(REPO, sub)
        tracked = None
        try:
            o = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "--cached", "--others", "--exclude-standard", sub],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if o.returncode == 0:
                tracked = [f for f in o.stdout.decode().split("\0") if f]
        except OSError:
            pass
        os.makedirs(self.dir)
        if tracked:
            for f in tracked:
                s = os.path.join(REPO, f)
                if not os.path.isfile(s):
                    continue
                d = os.path.join(self.dir, os.path.relpath(f, sub))
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copy2(s, d)
        else:
            shutil.rmtree(self.dir)
            shutil.copytree(src, self.dir, ignore=shutil.ignore_patterns("*.o"))
        self.tables_done = False

    def generators(self):
        par([["gcc", "-w", "-g", "-o", g, g + ".c"] for g in ("make_tables", "make_red_tables", "make_bitrev_table")],
            cwd=self.dir)

    def tables(self):
        if self.tables_done:
            return
        self.generators()
        if not os.path.exists(os.path.join(self.dir, "naive_ntt.c")):    # the verifier's benchmarks: one size
            for g, a in (("make_tables", [1024, 1014]), ("make_red_tables", [1024, 1014])):
                sh(["./" + g] + [str(x) for x in a], cwd=self.dir, timeout=60)
            self.tables_done = True
            return
        for n, psi in SIZES:
            for g, a in (("make_tables", [n, psi]), ("make_red_tables", [n, psi]), ("make_bitrev_table", [n])):
                sh(["./" + g] + [str(x) for x in a], cwd=self.dir, timeout=60)
        self.tables_done = True

    def shared(self, family, flavour="plain", outdir=None, extra=(), name=None, objdir=None, cpp=()):
        """lib<family>.so from the family's sources; symbols they miss come from the other non-main sources"""
        cc, cf, lf = FLAVOURS[flavour]
        outdir = outdir or os.path.join(self.work, "lib_" + flavour)
        os.makedirs(outdir, exist_ok=True)
        objdir = os.path.join(self.work, (objdir or "obj") + "_" + flavour)
        cf = cf + list(cpp)
        os.makedirs(objdir, exist_ok=True)
        srcs = FAMILIES[family]
        if any("table" in s for s in srcs):
            self.tables()
        objs = [self.obj(s, objdir) for s in srcs]
        cmds = [[cc] + CPP + cf + ["-fPIC", "-c", s, "-o", o] for s, o in zip(srcs, objs) if not os.path.exists(o)]
        par(cmds, cwd=self.dir)
        ex = []
        for e in extra:
            o = os.path.join(objdir, "x_" + os.path.basename(e) + ".o")
            sh([cc] + CPP + cf + ["-fPIC", "-I", self.dir, "-c", e, "-o", o])
            ex.append(o)
        out = os.path.join(outdir, "lib%s.so" % (name or family))
        link = [cc, "-shared", "-Wl,-Bsymbolic", "-o", out] + lf + ex + objs
        if lf:
            und = []
        else:
            und = ["-Wl,-z,defs"]
        p = sh(link + und, check=False)
        if p.returncode or (lf and self.undefined(out, objs + ex)):
            a = self.rest(set(srcs), objdir, cc, cf)
            sh(link + a + und)
        return out

    def undefined(self, out, objs):
        """symbols the library needs and nobody in it defines, but some other source of the tree does"""
        o = subprocess.run(["nm", "-D", "--undefined-only", out], stdout=subprocess.PIPE).stdout.decode()
        und = {l.split()[-1].split("@")[0] for l in o.splitlines() if l.strip()}
        text = "".join(open(f, errors="replace").read() for f in glob.glob(os.path.join(self.dir, "*.c")))
        return any(re.search(r"\b%s\s*\(" % re.escape(u), text) and not u.startswith("_") and u not in LIBC for u in und)

    @staticmethod
    def obj(s, objdir):
        return os.path.join(objdir, s.replace("/", "_") + ".o")

    def rest(self, have, objdir, cc, cf):
        objs = []
        ps = []
        for f in sorted(glob.glob(os.path.join(self.dir, "*.[cS]"))):
            b = os.path.basename(f)
            if b in have:
                continue
            t = open(f, errors="replace").read()
            if re.search(r"\bmain\s*\(", t):
                continue
            o = self.obj(b, objdir)
            ps.append((o, subprocess.Popen([cc] + CPP + cf + ["-fPIC", "-c", f, "-o", o], cwd=self.dir,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        for o, p in ps:
            if p.wait() == 0:
                objs.append(o)
        ar = os.path.join(objdir, "rest.a")
        if os.path.exists(ar):
            os.unlink(ar)
        sh(["ar", "rcs", ar] + objs)
        return [ar]


LIBC = set("""malloc free exit abort printf fprintf puts putchar fputs fputc fwrite perror fopen fclose atol atoi strtol
memcpy memset memmove strlen strcpy snprintf sprintf stderr stdout qsort calloc realloc""".split())


def harness(work, name, out=None, flags=(), opt="-O2", cxx="g++", libs=()):
    out = out or os.path.join(work, name)
    sh([cxx, "-std=c++17", opt, "-g0", "-w", "-I", os.path.join(VERIF, "harness")] + list(flags)
       + [os.path.join(VERIF, "harness", name + ".cpp"), "-o", out, "-ldl", "-lpthread"] + list(libs))
    return out
