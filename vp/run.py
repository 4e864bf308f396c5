"""Runs a harness on all cores, confirms failures by replay, writes evidence."""
import json, os, shutil, struct, subprocess, sys, time
from .build import VERIF

SHARDS = 8


class Result:
    def __init__(self):
        self.cases = 0
        self.evaluations = 0
        self.hashes = set()
        self.samples = []
        self.per_target = {}
        self.violation = None      # (message, replay path)
        self.notes = []
        self.extra = {}

    def add_cases(self, n, evaluations, distinct):
        self.cases += n
        self.evaluations += evaluations
        self.hashes |= set(distinct)


class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.res = Result()
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def replay_path(self, ext="txt"):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "%s.%s" % (self.prop, ext))

    def violate(self, message, replay_text, ext="txt"):
        if self.res.violation:
            return
        p = self.replay_path(ext)
        with open(p, "w") as f:
            f.write(replay_text)
        self.res.violation = (message, p)


def run_harness(ctx, exe, libdir, env=None, scale=1.0, shards=SHARDS, limit=820, tag="", flaky=False, inner=None, thin=1, mark="", seed=None):
    """flaky: the failure depends on a schedule; one failing replay out of 20 confirms it"""
    e = dict(os.environ)
    e.update(env or {})
    base = os.path.join(ctx.work, "out" + tag)
    common = ["--prop", inner or ctx.prop, "--lib", libdir, "--seed", str(seed or ctx.seed), "--tier", ctx.tier, "--scale", repr(scale), "--thin", str(thin)]
    ps = []
    for i in range(shards):
        cmd = [exe] + common + ["--shard", str(i), "--shards", str(shards), "--out", "%s.%d" % (base, i),
                                "--log", "%s.log.%d" % (base, i)]
        ps.append(subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=open("%s.err.%d" % (base, i), "w"),
                                   start_new_session=True))
    end = time.time() + (limit if not ctx.thorough else 6 * 3600)
    for i, p in enumerate(ps):
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            ctx.res.notes.append("shard %d stopped at the time limit: what it explored is not counted" % i)
            continue
        if p.returncode == 70:
            raise RuntimeError("harness: " + open("%s.err.%d" % (base, i)).read())
    fails = []
    for i in range(shards):
        f = "%s.%d" % (base, i)
        try:
            d = json.load(open(f))
        except (OSError, ValueError):
            if ps[i].returncode not in (0, -9):
                raise RuntimeError("harness shard %d ended with %r: %s" % (i, ps[i].returncode, open("%s.err.%d" % (base, i)).read()[-500:]))
            continue
        ctx.res.cases += d["cases"]
        ctx.res.evaluations += d["evaluations"]
        for k, v in d["per_target"].items():
            ctx.res.per_target[mark + k] = ctx.res.per_target.get(mark + k, 0) + v
        if os.path.exists(f + ".hash"):
            b = open(f + ".hash", "rb").read()
            ctx.res.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        if os.path.exists(f + ".samples"):
            ctx.res.samples += [mark + x for x in open(f + ".samples").read().splitlines()]
        if "failure" in d:
            fails.append(d["failure"])
    for f in fails:
        text = f["case"] if f["alone"] else f["history"]
        p = os.path.join(ctx.work, "replay.txt")
        open(p, "w").write(text)
        cmd = [exe] + common + ["--replay", p, "--log", base + ".replay.log"]
        tries, need = (20, 1) if flaky else (3, 3)
        if f["hang"]:
            tries = need = 2
        if not f["alone"] and not flaky:
            tries = need = 2
        bad = 0
        for k in range(tries):
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=3000)
            bad += r.returncode == 1
            if flaky and bad:
                break
        if bad >= need:
            head = "# property %s\n# %s\n# rerun: python3 /verif/check.py %s --replay <this file>\n" % (ctx.prop, f["message"].replace("\n", " "), ctx.prop)
            ctx.violate("%s: %s | %s" % (mark + f["target"], f["message"], f["brief"] if f["alone"] else "needs the history of calls before it"),
                        text + head + ("# build %s\n" % mark if mark else ""))
        else:
            ctx.res.notes.append("a failure did not reproduce (%d of %d replays): %s" % (bad, tries, f["message"]))


def write_evidence(ctx, rule, assumptions=()):
    r = ctx.res
    s = []
    for x in r.samples:
        if x not in s:
            s.append(x)
    d = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration",
        "coverage": {
            "evaluations": r.evaluations, "distinct_nontrivial": len(r.hashes), "rule": rule,
            "cases": r.cases, "per_target": r.per_target, "samples": [x[:600] for x in s[:40]],
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": 1 if r.violation else 0,
    }
    d["coverage"].update(r.extra)
    if r.notes:
        d["coverage"]["notes"] = r.notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "." + ctx.prop + ".tmp")
    json.dump(d, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", ctx.prop + ".json"))
