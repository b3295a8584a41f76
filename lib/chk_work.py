"""C25: the work of a job grows no faster than its data."""
from vf import *
from gen import *
from dcases import *

MB = 1 << 20
CAP = 2 ** 31 - 1


def cases(ctx, q):
    """(line, what the bound depends on); q scales the amounts"""
    rng = ctx.rng
    N = q * MB
    out = []

    def add(line, **k):
        out.append((line, k))
    # windows: all at once, large, middling; tiny ones with less data
    def sched(n):
        return rng.choice(["one", "C:65536,65536", "C:4096,5000", "R:%d,9000,9000" % rng.getrandbits(30), "C:70000,300", "C:300,70000"] + (["C:1,1", "C:2,50", "C:50,1", "R:%d,5,5" % rng.getrandbits(30)] if n <= 100000 else []))
    rnd, zero = rng.randbytes(N), bytes(N)
    words = [rng.randbytes(7) for _ in range(40)]
    text = b"".join(rng.choice(words) for _ in range(N // 7))
    datas = (rnd, zero, text)
    for magic in MAGIC_LIST:
        for bl in (7, 500, 2048, 65536, 300000):
            for d in datas:
                d = d[:rng.choice([N, N // 2, 60000])]
                add("job kind=sig in=%s bl=%d sl=%d magic=%d sched=%s" % (ctx.blob(d), bl, rng.choice([8, 12]), magic, sched(len(d))), kind="sig", unit=bl)
    sigs = {}

    def sig(d, bl, sl, magic):
        k = (id(d), len(d), bl, sl, magic)
        if k not in sigs:
            sigs[k] = bytes.fromhex(ctx.run(["job kind=sig in=%s bl=%d sl=%d magic=%d hex=1" % (ctx.blob(d), bl, sl, magic)], variant="work")[0]["hex"])
        return sigs[k]
    half, few = N // 2, N // 16
    base = {"rnd": rnd[:half], "zero": zero[:half], "text": text[:half]}
    for name, b in base.items():
        for bl in (16, 64, 1000, 16384, 65536, 262144):
            bb = b[:few] if bl < 64 else b
            m = rng.choice(MAGIC_LIST)
            s = ctx.blob(sig(bb, bl, 8, m))
            add("job kind=load in=%s sched=%s" % (s, sched(len(bb) // bl * 12)), kind="load", unit=0)
            shifted = bb[: len(bb) // 3] + b"x" + bb[len(bb) // 3:]
            mixed = b"".join(rng.choice([bb[(k := rng.randrange(len(bb))):k + 3 * bl], rng.randbytes(min(bl, 5000))]) for _ in range(max(3, len(bb) // (2 * bl))))[:len(bb)]
            for nw in (bb, shifted, mixed, rng.randbytes(len(bb)), zero[:len(bb)], text[:len(bb)], bb[:bl - 1] + bb[:60000], rng.randbytes(60000)):
                add("job kind=delta sig=%s in=%s sched=%s" % (s, ctx.blob(nw), sched(len(nw))), kind="delta", unit=bl)
    for d in datas:
        add("job kind=delta in=%s sched=%s" % (ctx.blob(d), sched(len(d))), kind="delta", unit=0)
        d = d[:60000]
        add("job kind=delta in=%s sched=%s" % (ctx.blob(d), sched(len(d))), kind="delta", unit=0)
    # blocks longer than the data
    s = ctx.blob(sig(rnd[:half], 4 * MB, 8, M_RKB2))
    for d in (rnd[5:half], text[:half], rnd[:60000]):
        add("job kind=delta sig=%s in=%s sched=%s" % (s, ctx.blob(d), sched(len(d))), kind="delta", unit=4 * MB)
    # a great many blocks
    n = 60000 * q
    ents = b"".join(struct.pack(">I", rng.getrandbits(32)) + rng.randbytes(8) for _ in range(n))
    for e in (ents, b"".join(struct.pack(">IQ", k, k * 7) for k in range(n)), ents[:12] * n):
        s = ctx.blob(mksig(M_RKB2, 64, 8, [e]))
        add("job kind=load in=%s sched=%s" % (s, sched(12 * n)), kind="load", unit=0)
        add("job kind=delta sig=%s in=%s sched=%s" % (s, ctx.blob(rnd[:half]), sched(half)), kind="delta", unit=64)
    # patches
    basis = rng.randbytes(MB)
    for cmds in ([lit(rng.randbytes(N), 4)], [lit(rng.randbytes(rng.choice([1, 64, 300])), 2) for _ in range(20000 * q)], [copy(rng.randrange(MB // 2), MB // 2, 8, 8)] * q,
                 [copy(rng.randrange(MB), 1, 4, 4) for _ in range(60000 * q)], [lit(b"ab") + copy(rng.randrange(MB - 500), rng.choice([1, 500]), 4, 2) for _ in range(20000 * q)],
                 [copy(0, 3)] * 3000, [lit(rng.randbytes(30000), 2)], [copy(5, 30000, 4, 4)]):
        d = DELTA + b"".join(cmds) + b"\0"
        for cb in ("full", "own", "short:%d" % rng.choice([1, 50]) if len(cmds) > 1 else "short:4000"):
            add("job kind=patch in=%s basis=%s cb=%s sched=%s" % (ctx.blob(d), ctx.blob(basis), cb, sched(100000 if len(cmds[0]) + len(cmds) < 35000 else N)), kind="patch", unit=0)
    return out


MODEL = """INIT Init
NEXT Next
CONSTANTS
 M = %d
 Bs = %s
 N = %d
 W = %d
 Keen = %s
INVARIANTS InScoop FewMoves
CHECK_DEADLOCK FALSE
"""


def c25(ctx):
    for m, bs, n, w in ((4, "{1, 3, 12}", 26, 4), (3, "{2, 5}", 26, 6)) if ctx.quick else ((4, "{1, 3, 4, 12}", 34, 5), (3, "{2, 5, 9}", 32, 9), (8, "{1, 8}", 40, 5)):
        ctx.model("Work", MODEL % (m, bs, n, w, "FALSE"), name="Work M=%d" % m, timeout=1500)
    if "FewMoves is violated" not in ctx.tlc("Work", MODEL % (4, "{12}", 26, 4, "TRUE"), expect_ok=False)["out"]:
        raise CheckError("the specification accepts a scoop that moves its data at every call")
    ctx.prog("drv", "work")
    cs = cases(ctx, 1 if ctx.quick else 6)
    lines = [c[0] + " mem=1" for c in cs]

    def mk(i, r):
        return {"t": "work", "kind": cs[i][1]["kind"], "unit": cs[i][1]["unit"], "n": r["consumed"], "m": r["olen"], "calls": r["steps"] + r["cbcalls"], "work": min(r.get("work", 0) // 64, CAP)}
    res = ctx.conform(lines, mk, lambda i: "(%s)" % re.sub(r"=/\S+/", "=", lines[i])[:200], lambda i, r: r.get("bad") or r.get("res") != DONE, variant="work", cpu=40, spread=True)
    if os.environ.get("WORKDUMP"):
        for l, r in zip(lines, ctx.last_recs):
            print(r["kind"], r["unit"], r["n"], r["m"], r["calls"], "%.2f" % (64 * r["work"] / (r["n"] + r["m"] + 1)), "%.1f" % (64 * r["work"] / r["calls"]), re.sub(r"=/\S+/", "=", l)[:150])
    for k in ("sig", "load", "delta", "patch"):
        rs = [r for r in ctx.last_recs if r["kind"] == k]
        if rs:
            ctx.cov["%s jobs, most steps per byte" % k] = "%d, %.1f" % (len(rs), max(64 * r["work"] / (r["n"] + r["m"] + 1 + 8 * r["calls"]) for r in rs))
    if ctx.viol:
        return
    big = [r for r in ctx.last_recs if r["n"] > 200000 and r["calls"] < 500][:40]
    ctx.must_reject([dict(r, work=2 * (r["n"] + r["m"]) + r["unit"] + 10 * r["calls"] + 4000) for r in big])
    ctx.sample({"record": big[0]})


CHECKS = {"C25": c25}
