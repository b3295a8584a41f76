"""C23: the file helpers.  FileApi.tla is a small file system and what the
helpers do in it; its histories run on the real functions and FileApiTrace.tla
validates what was seen."""
from vf import *
from gen import *
from dcases import *
import shutil

CFG = "SPECIFICATION Spec\nCONSTANTS\n MaxOps = %d\n Names = %s\n Modes = %s\n Poss = %s\n Lens = %s\nINVARIANTS Kept There\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def per(rs):
    return sum(len(r["obs"]) + 2 for r in rs)


def hists(out):
    h = []
    for m in re.finditer(r'<<\s*"HIST",\s*(<<[\s0-9,<>-]*>>)\s*>>', out):
        v = [int(x) for x in re.findall(r"-?\d+", m.group(1))]
        h.append(tuple(tuple(v[k:k + 4]) for k in range(0, len(v), 4)))
    return h


def c23(ctx):
    rng = ctx.rng
    hs = set()
    # every way to open anything, and what can be done next
    r = ctx.model("FileApi", CFG % (3 if ctx.quick else 4, "{0, 1, 3, 4, 7, 8}" if ctx.quick else "{0, 1, 2, 3, 4, 5, 6, 7, 8}", "{0, 1, 2, 3}", "{0, 3, 6}", "{9}" if ctx.quick else "{1, 9}"), name="FileApi", timeout=1500, heap="12g")
    hs.update(hists(r["out"]))
    if len(hs) < 3000:
        raise CheckError("only %d histories from the model" % len(hs))
    total = len(hs)
    hs = rng.sample(sorted(hs), min(len(hs), 3000 if ctx.quick else 60000))
    # the first steps all of them
    r = ctx.model("FileApi", CFG % (2, "{0, 1, 2, 3, 4, 5, 6, 7, 8}", "{0, 1, 2, 3}", "{0, 1, 3, 5, 6, 7}", "{1, 2, 5, 9}"), name="FileApi 2")
    h2 = sorted(set(hists(r["out"])))
    hs += rng.sample(h2, 2500) if ctx.quick else h2
    hs += sorted({h[:1] for h in h2})
    # long ones
    r = ctx.tlc("FileApi", CFG % (12, "{1, 3, 4, 7, 8}", "{0, 1, 2, 3}", "{0, 1, 2, 4, 6, 8, 31}", "{1, 2, 4, 40}"), simulate="num=%d" % (300 if ctx.quick else 3000), args=["-depth", "13", "-seed", str(ctx.seed)])
    lo = [h for h in hists(r["out"]) if len(h) > 5]
    if len(lo) < 50:
        raise CheckError("only %d long histories" % len(lo))
    lo = sorted(set(lo))
    hs += rng.sample(lo, min(len(lo), 1500 if ctx.quick else 20000))
    ctx.cov["histories of the model"] = total

    def line(h, b):
        return "fapi ops=%s buffered=%d" % (ctx.blob("".join("%d %d %d %d\n" % o for o in h).encode()), b)
    lines, meta = [], []
    for h in hs:
        # a buffering handle may lag behind what others write
        lines.append(line(h, 0 if any(o[0] == 2 for o in h) or sum(o[0] == 1 for o in h) > 1 else rng.randrange(2)))
        meta.append(h)

    def mk(i, r):
        return {"ops": [list(o) for o in meta[i]], "obs": r["obs"], "code": r["code"], "msgs": r["msgs"]}
    ctx.conform(lines, mk, lambda i: "(history %s)" % str(meta[i])[:300], bad=lambda i, r: bool(r.get("crash") or r.get("hang") or "obs" not in r), module="FileApiTrace", per=per)
    if ctx.viol:
        return
    recs = ctx.last_recs
    done, muts = set(), []
    for r in recs:
        for k, (o, x) in enumerate(zip(r["ops"], r["obs"])):
            key = (o[0], x["o"], x["v"] if o[0] == 5 else 0)
            if key in done:
                continue
            done.add(key)
            for y in (dict(x, fs=[[1]] + x["fs"][1:]), dict(x, b=[99] + x["b"][1:]) if o[0] == 5 and x["v"] == 0 else dict(x, o="in" if x["o"] != "in" else "file") if o[0] == 1 else dict(x, v=x["v"] + 7)):
                muts.append(dict(r, obs=r["obs"][:k] + [y] + r["obs"][k + 1:]))
    ctx.must_reject(muts, "FileApiTrace", per=lambda rs: -1)
    ctx.cov["kinds of events seen"] = sorted("%d %s %d" % x for x in done)
    ctx.sample({"record": recs[7]})


CHECKS = {"C23": c23}
