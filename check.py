#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--keep]: decides one property on /repo's working tree."""
import os, shutil, subprocess, sys, tempfile, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build, props, run

KNOWN = os.path.join(build.VERIF, "known_findings.txt")


def main():
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= (1 << 62) - 1
    work = os.path.join(build.VERIF, "_work", "%s.%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ctx = run.Ctx(prop, tier, seed, work)
    try:
        spec = props.PROPS[prop]
        if replay:
            ctx.replay = os.path.abspath(replay)
            return spec["replay"](ctx)
        spec["run"](ctx)
        run.write_evidence(ctx, spec["rule"], spec.get("assumptions", ()))
        for n in ctx.res.notes:
            print("note: " + n)
        for l in known(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, l))
        if ctx.res.violation:
            print(ctx.res.violation[0])
            print("VIOLATION property=%s replay=%s" % (prop, ctx.res.violation[1]))
            return 1
        print("%s: held on %d evaluations (%d cases, %d distinct non-trivial), %.1f s" %
              (prop, ctx.res.evaluations, ctx.res.cases, len(ctx.res.hashes), __import__("time").time() - ctx.t0))
        return 0
    except build.BuildError as e:
        print("cannot build: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        if "--keep" not in sys.argv:
            shutil.rmtree(work, ignore_errors=True)


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("known: property=%s " % prop):
                out.append(l.split(" ", 2)[2].strip())
    return out


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
