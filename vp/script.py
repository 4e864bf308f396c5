"""C28: the verification script, run with stand-ins for the tools it calls (they record their arguments and fail on request)."""
import multiprocessing, os, random, shutil, subprocess

TOOL = r'''#!/bin/bash
# stand-in: appends "<tool> <args>" to the log, copies input to output with a stamp, fails as asked for
me=$(basename "$0"); d=$VP_DIR
out=""; in=""; prev=""
for a in "$@"; do
  if [ "$prev" = -o ]; then out=$a; elif [ "${a#-}" = "$a" ]; then in=$a; fi
  case $a in --output=*|-o=*) out=${a#*=};; esac
  prev=$a
done
printf '%s\n' "$me $*" >> "$d/log"
mode=none; case " $VP_FAIL " in *" $me:"*) mode=${VP_FAIL##*$me:}; mode=${mode%% *};; esac
[ "$mode" = early ] && exit "$VP_CODE"
if [ "$me" != nttverifier ]; then
  [ -r "$in" ] || exit 9
  if [ -n "$out" ]; then { cat "$in"; echo "$me $*"; } > "$out" || exit 9; fi
else
  [ -r "$in" ] || exit 9
  cat "$in" > "$d/verified"
fi
[ "$mode" = kill ] && kill -9 $$
[ "$mode" = late ] && exit "$VP_CODE"
exit 0
'''
TOOLS = ["clam-pp", "seaopt", "nttverifier"]


def gen(r):
    name = r.choice(["", "./bitcode/", "sub/dir/", "$D/"]) + r.choice("abcxyz") + "".join(r.choice("abcxyz019._-") for _ in range(r.randint(0, 12))) + r.choice([".bc", ".all_linked.bc", "", ".pp.bc", ".unrolled.bc"])
    inl = r.choice([None, None, "-inline", "--inline"])
    args = [name]
    if inl:
        args.insert(r.randint(0, 1), inl)
        if r.random() < 0.2:
            args.insert(r.randint(0, 2), r.choice(["-inline", "--inline"]))
    fail = {}
    for t in TOOLS:
        if r.random() < 0.25:
            fail[t] = r.choice(["early", "late", "kill"])
    return {"args": args, "file": name, "exists": r.random() < 0.92, "fail": fail, "code": r.choice([1, 2, 3, 77, 126, 127, 128, 134, 255]),
            "stale": r.random() < 0.3, "missing": r.choice([None] * 12 + TOOLS), "size": r.choice([0, 1, 10, 5000])}


def run(script, c, work):
    """None or what is wrong"""
    d = os.path.join(work, "s%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    b = os.path.join(d, "bench")
    os.makedirs(b)
    os.makedirs(os.path.join(d, "install", "bin"))
    for t in TOOLS:
        if t == c["missing"]:
            continue
        p = os.path.join(d, "install", "bin", t)
        open(p, "w").write(TOOL)
        os.chmod(p, 0o755)
    shutil.copy(script, os.path.join(b, "verify.sh"))
    os.chmod(os.path.join(b, "verify.sh"), 0o755)
    f = c["file"].replace("$D", d)
    args = [a.replace("$D", d) for a in c["args"]]
    full = os.path.normpath(os.path.join(b, f))
    os.makedirs(os.path.dirname(full), exist_ok=True)
    body = "".join("line %d of the program\n" % i for i in range(c["size"]))
    if c["exists"]:
        open(full, "w").write(body)
    if c["stale"]:   # left-overs of an earlier run on another program
        for e in (".pp.bc", ".unrolled.pp.bc"):
            open(full + e, "w").write("stale\nclam-pp stale\nseaopt stale\n")
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "VP_DIR": d, "VP_FAIL": " ".join("%s:%s" % x for x in c["fail"].items()), "VP_CODE": str(c["code"])}
    try:
        p = subprocess.run(["bash", "./verify.sh"] + args, cwd=b, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    except subprocess.TimeoutExpired:
        return "the script does not end"
    log = [l.split() for l in open(os.path.join(d, "log"))] if os.path.exists(os.path.join(d, "log")) else []
    ran = [l[0] for l in log]
    bad = None if c["exists"] else 0
    for i, t in enumerate(TOOLS):
        if (t in c["fail"] or t == c["missing"]) and (bad is None or i < bad):
            bad = i
    try:
        if bad is None:
            if p.returncode:
                return "all stages succeed, but the script exits with %d" % p.returncode
            v = os.path.join(d, "verified")
            if not os.path.exists(v):
                return "the script exits with 0 but the verifier never read a program"
            got = open(v).read()
            if not got.startswith(body):
                return "the verifier did not get the file %s" % f
            st = [l.split() for l in got[len(body):].splitlines()]
            if [s[0] for s in st] != ["clam-pp", "seaopt"]:
                return "the verifier got a program that went through %s" % [s[0] for s in st]
            inl = any(a in ("-inline", "--inline") for a in args)
            if any("inline-all" in a for a in st[0][1:]) != inl:
                return "inlining is %s although it was%s asked for" % ("off" if inl else "on", "" if inl else " not")
            if not any(a.lstrip("-") == "loop-unroll" for a in st[1][1:]):
                return "loops are not unrolled"
        else:
            if p.returncode == 0:
                return "stage %s fails (%s), but the script exits with 0" % (TOOLS[bad], c["fail"].get(TOOLS[bad]) or ("missing" if c["exists"] else "no such file"))
            late = [t for t in ran if t in TOOLS and TOOLS.index(t) > bad]
            if late:
                return "stage %s fails, but %s is run afterwards" % (TOOLS[bad], late[0])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _w(a):
    script, seed, work = a
    c = gen(random.Random(seed))
    return seed, c, run(script, c, work)


def shrink(script, c, work, msg):
    def cand(c):
        for t in list(c["fail"]):
            yield dict(c, fail={k: v for k, v in c["fail"].items() if k != t})
        for k, v in (("stale", False), ("missing", None), ("exists", True), ("size", 1), ("code", 1)):
            if c[k] != v:
                yield dict(c, **{k: v})
        if c["file"] != "f.bc":
            yield dict(c, file="f.bc", args=["f.bc" if a == c["file"] else a for a in c["args"]])
        for i, a in enumerate(c["args"]):
            if a != c["file"]:
                yield dict(c, args=c["args"][:i] + c["args"][i + 1:])
    more = True
    while more:
        more = False
        for d in cand(c):
            m = run(script, d, work)
            if m:
                c, msg, more = d, m, True
                break
    return c, msg


def check(ctx, script, count):
    bad = []
    base = ctx.seed * 1000003
    with multiprocessing.Pool(8) as pool:
        for seed, c, r in pool.imap_unordered(_w, [(script, base + i, ctx.work) for i in range(count)], 16):
            ctx.res.cases += 1
            ctx.res.evaluations += 1
            k = "failing stage" if c["fail"] or c["missing"] or not c["exists"] else "all stages succeed"
            ctx.res.per_target[k] = ctx.res.per_target.get(k, 0) + 1
            ctx.res.hashes.add(repr(sorted(c.items(), key=lambda x: x[0])))
            if len(ctx.res.samples) < 12:
                ctx.res.samples.append(repr(c))
            if r:
                bad.append((seed, c, r))
                if len(bad) > 30:
                    pool.terminate()
                    break
    if bad:
        _, c, r = min(bad, key=lambda x: x[0])
        if run(script, c, ctx.work):
            c, r = shrink(script, c, ctx.work, r)
            ctx.violate("%s | %r" % (r, c), repr(c) + "\n# %s\n" % r)
