"""C24: memory running out.  Oom.tla says what may happen, checked
exhaustively; OomTrace.tla validates runs of the real code in which every
single allocation is refused in turn."""
import resource
import signal
from vf import *
from gen import *
from dcases import *


def per(rs):
    return sum(len(r["st"]) + 2 for r in rs)


def model(ctx):
    for needs, soft, keeps, ref in (("<<3, 2, 3, 2, 2, 1>>", "{3}", "<<0, 2, 3, 0, 0, 0>>", 3), ("<<2, 1, 2>>", "{1, 2, 3}", "<<1, 1, 0>>", 4), ("<<1, 2>>", "{}", "<<0, 1>>", 1)):
        open(ctx.path("MCOom.tla"), "w").write("---- MODULE MCOom ----\nEXTENDS Oom\nN1 == %s\nK1 == %s\n====\n" % (needs, keeps))
        shutil.copy(os.path.join(SPEC, "Oom.tla"), ctx.tmp)
        ctx.model("MCOom", "SPECIFICATION Spec\nCONSTANTS\n Needs <- N1\n Keeps <- K1\n Soft = %s\n Refusals = %d\nINVARIANTS Honest Balanced\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % (soft, ref), name="Oom %s" % needs, dir=ctx.tmp)


def scenarios(ctx):
    rng = ctx.rng
    out = []
    old = rng.randbytes(200)
    new = old[40:120] + b"something else" + old[:60] + old[150:]
    big = rng.randbytes(1500)
    bnew = big[700:] + rng.randbytes(200) + big[:800]
    for o, n, bl, sl, m, x in ((old, new, 8, 8, M_RKB2, ""), (old, new, 8, 16, M_MD4, "is=1 os=3"), (big, bnew, 10, 5, M_B2, "is=70 os=50"), (b"", new, 16, 8, M_RKMD4, "is=7 os=11"), (old, b"", 50, 12, M_RKB2, "is=3 os=2"), (b"", b"", 16, 8, M_MD4, "")):
        for f in (0, 1):
            out.append("old=%s new=%s bl=%d sl=%d magic=%d file=%d %s" % (ctx.blob(o), ctx.blob(n), bl, sl, m, f, x if not f else rng.choice(["", "inbuf=5 outbuf=7", "inbuf=100"])))
    return out


def mk(i, r):
    return {"st": r["st"], "end": r["end"], "open": r["open"], "msgs": r["msgs"], "fails": r["fails"], "lazy": 1 if "lazy=1" in LINES[i] else 0, "rdiff": 0, "right": 1, "code": 0}


LINES = []


def c24(ctx):
    global LINES
    model(ctx)
    sc = scenarios(ctx)
    base = ctx.run(["oom %s failat=100000" % s for s in sc])
    for s, r in zip(sc, base):
        if not r.get("sane"):
            raise CheckError("a healthy run is not right: %s %s" % (s, r))
    # how many allocations a run makes: refuse ever later ones until none is left
    lines = []
    for n, s in enumerate(sc):
        k = 60 if ctx.quick else 150
        for a in range(1, k):
            lines.append("oom %s failat=%d" % (s, a))
            if n % 3 == 0 or not ctx.quick:
                lines.append("oom %s failat=%d fails=%d lazy=%d" % (s, a, ctx.rng.randint(2, 6), a & 1))
            lines.append("oom %s failat=%d lazy=1" % (s, a))
    LINES = lines

    def bad(i, r):
        return bool(r.get("crash") or r.get("hang") or "end" not in r)
    for var in ("plain", "asanc"):
        sub = lines if var == "plain" else lines[::3] if ctx.quick else lines
        LINES = sub
        res = ctx.conform(sub, mk, lambda i: "(%s)" % sub[i][:300], bad=bad, variant=var, module="OomTrace", per=per)
        if ctx.viol:
            return
        if var == "plain":
            ends = {}
            for r in res:
                key = "no refusal" if not r["fails"] else r["end"] if r["end"] == "abort" else "memory error" if any(x[1] == MEM_ERROR for x in r["st"]) else "went on"
                ends[key] = ends.get(key, 0) + 1
            ctx.cov["outcomes"] = ends
            if not ends.get("no refusal") or not ends.get("memory error"):
                raise CheckError("refusals not exercised: %s" % ends)
            recs = ctx.last_recs
            a = next(x for x in recs if x["end"] == "abort")
            b = next(x for x in recs if any(s[1] == MEM_ERROR for s in x["st"]))
            e = next(j for j, s in enumerate(b["st"]) if s[1] == MEM_ERROR)
            ctx.must_reject([dict(a, end="exit"), dict(a, msgs=0), dict(a, fails=0), dict(a, end="other"),
                             dict(b, st=b["st"][:e] + [b["st"][e][:5] + [1]] + b["st"][e + 1:]), dict(b, st=b["st"][:e] + [b["st"][e][:1] + [0, 0] + b["st"][e][3:]] + b["st"][e + 1:]),
                             dict(b, st=b["st"][:e] + [b["st"][e][:1] + [RS_CORRUPT] + b["st"][e][2:]] + b["st"][e + 1:])], "OomTrace", per=lambda rs: -1)
            ctx.sample({"record": b})
    rdiff(ctx)


RS_CORRUPT = CORRUPT


def rdiff(ctx):
    """the tool, refused every allocation in turn"""
    exe = ctx.rdiff("plain")
    rng = ctx.rng
    d = ctx.path("oomrd")
    os.makedirs(d, exist_ok=True)
    old = rng.randbytes(3000)
    new = old[1000:] + b"tail" + old[:500]
    for n, x in (("old", old), ("new", new)):
        open(os.path.join(d, n), "wb").write(x)

    def run(args, out, env):
        o = os.path.join(d, out)
        if os.path.exists(o):
            os.unlink(o)
        e = dict(os.environ, **env)
        try:
            p = subprocess.run([exe] + args + [o], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        except subprocess.TimeoutExpired:
            return None, b"", b""
        return p.returncode, p.stderr, open(o, "rb").read() if os.path.exists(o) else b""
    acts = []
    for args, out in ((["-b", "64", "-S", "8", "signature", "old"], "sig"), (["-R", "rollsum", "-H", "md4", "-b", "16", "signature", "old"], "sig2"), (["delta", "sig", "new"], "delta"), (["delta", "sig2", "new"], "delta2"), (["patch", "old", "delta"], "out"), (["-s", "patch", "old", "delta2"], "out2")):
        rc, err, data = run(args, out, {})
        if rc:
            raise CheckError("a healthy rdiff fails: %s %s" % (args, err))
        os.rename(os.path.join(d, out), os.path.join(d, out + ".ref"))
        acts.append((args, out, data))
        shutil.copy(os.path.join(d, out + ".ref"), os.path.join(d, out))
        args[:] = [a + ".ref" if a in ("sig", "sig2", "delta", "delta2") and args[-2:] != [a] and args.index(a) > 0 else a for a in args]
    recs, what = [], []
    for args, out, data in acts:
        for k in range(1, 40):
            for m in (1, 3):
                rc, err, got = run(args, out, {"VF_FAILAT": str(k), "VF_FAILS": str(m)})
                ctx.execs += 1
                recs.append({"st": [], "end": "hang" if rc is None else "abort" if rc == -signal.SIGABRT else "exit" if rc >= 0 else "other", "open": "", "msgs": 1 if err else 0, "fails": 1, "lazy": 0, "rdiff": 1, "right": 1 if got == data else 0, "code": rc if rc is not None and rc >= 0 else 0})
                what.append((args, k, m, rc, err[-200:]))
    ctx.must_reject(dict(recs[0], end="exit", code=0, right=0), "OomTrace", per)
    for i, why in ctx.judge(recs, module="OomTrace", per=per).items():
        ctx.violation("%s (rdiff %s with allocation %d refused)" % (why, " ".join(what[i][0]), what[i][1]), {"args": what[i][0], "failat": what[i][1], "fails": what[i][2], "status": what[i][3], "stderr": what[i][4]})
    ctx.cov["rdiff runs"] = len(recs)


CHECKS = {"C24": c24}
