"""C22: the memory held by a job does not depend on how much data it handles."""
from vf import *
from gen import *
from dcases import *
from chk_stream import model_cases
import resource

MB = 1 << 20
CAP = 2 ** 31 - 1


def explore_mem(ctx):
    """MemModel: what is held, for every sequence of windows up to a size"""
    jobs = {"sig": ([0, 1, 2, 3], [0, 1, 2, 9]), "load": ([0, 1, 3], [0]), "patch": ([0, 1, 3, 5], [0, 1, 2, 4]), "delta": ([0, 1, 2, 4], [0, 1, 2, 3, 5]), "slack": ([0, 1, 3], [0, 1, 3])}
    cases = [c[0] for c in model_cases(ctx)]
    for b, bl, n in (("abcd", 1, "dbcadbcadbcadbcadbcabdac"), ("ab", 1, "babaxbabyabaabbabbaa"), ("abcdef", 2, "efabcdabefcdxefab"), ("ab", 1, "xyxyxyxyxyxyxy")) + (() if ctx.quick else (("abcdef", 3, "defabcxdefabcdefdefabc"), ("abcd", 1, "dcbadcbaxdcbaxdcbadcbadcabdcabdcabdcxyzdadadbcacda"))):
        cases.append({"kind": "delta", "in": ba(n.encode()), "blocks": [ba(b[i:i + bl].encode()) for i in range(0, len(b), bl)], "bl": bl, "miss": 4})
    by = {}
    for c in cases:
        by.setdefault(c["kind"], []).append(c)

    def one(k):
        p = ctx.path("mem-%s.json" % k)
        iw, ow = jobs[k]
        json.dump({"cases": by[k], "inwin": iw, "outwin": ow, "look": 5}, open(p, "w"))
        return k, ctx.tlc("MemModel", None, env={"CASES": p}, workers=2, timeout=600 if ctx.quick else 3000)
    with ThreadPoolExecutor(5) as ex:
        for k, r in ex.map(one, list(by)):
            ctx.states += r["dist"]
            ctx.trans += r["gen"]
            ctx.models.append({"model": "MemModel (%s jobs, %d cases)" % (k, len(by[k])), "distinct_states": r["dist"], "states_generated": r["gen"]})
    ctx.log("MemModel: %d states, %d transitions" % (ctx.states, ctx.trans))


def windows(s):
    """the largest windows of a schedule"""
    if s == "one":
        return None
    v = [int(x) for x in re.findall(r"\d+", s.split(":", 1)[1])]
    return max(v[1:] if s[0] == "R" else v)


def c22(ctx):
    rng = ctx.rng
    explore_mem(ctx)
    N = (16 if ctx.quick else 64) * MB
    lines, mks = [], []

    def add(line, **k):
        lines.append(line + " mem=1")
        mks.append(lambda r: dict(k, t="mem", peak=min(r["peak"], CAP), left=min(r["left"], CAP), made=min(r["olen"], CAP)))

    def sched(slow=False):
        """windows of up to 64 KB; input faster than output, the other way round, stalled output"""
        o = rng.choice([4, 10, 100, 1000, 4096, 65536])
        i = rng.choice([1000, 4096, 8192] if o < 1000 else [300, 4096, 20000, 65536])
        k = rng.randrange(4)
        if k == 0:
            return "R:%d,%d,%d" % (rng.getrandbits(30), i, max(o, 100))
        if k == 1:
            return "L:" + ",".join(["%d/%d" % (rng.choice([i, 65536]), rng.choice([0, 0, 0, 1, 3])) for _ in range(1500)]) + ";%d/%d" % (i, max(o, 1000))
        return "C:%d,%d" % (i, o)
    STALL = "L:10/10," + ",".join(["65536/0"] * 600) + ";65536/65536"        # no room at all for long, then plenty
    z = ctx.blob(bytes(N))
    rnd = ctx.blob(rng.randbytes(N))
    # signatures of much data
    for bl, sl, m, d in ((2048, 8, M_RKB2, z), (2048, 32, M_B2, rnd), (100, 16, M_MD4, rnd), (40000, 8, M_RKMD4, z), (7, 2, M_RKMD4, rnd)):
        n = N if bl > 10 else MB
        for s in ["C:65536,65536", "C:4096,%d" % rng.choice([1, 7, 100]) if bl > 100 else "C:4096,50", sched(), STALL]:
            d1 = d if n == N else ctx.blob(rng.randbytes(n))
            add("job kind=sig in=%s bl=%d sl=%d magic=%d sched=%s" % (d1, bl, sl, m, s), kind="sig", n=n, unit=bl, win=windows(s), cnt=0, sl=0)
    # loading: in proportion to the number of blocks that are there
    for cnt, sl, m in ((400000, 8, M_RKB2), (400000, 2, M_MD4), (150000, 32, M_B2), (1000000, 1, M_RKMD4), (300000, 16, M_RKMD4), (300, 32, M_RKB2), (0, 32, M_RKB2)):
        c = cnt if ctx.quick else 3 * cnt
        sg = ctx.blob(struct.pack(">III", m, rng.choice([1, 2048, (1 << 31) - 1]), sl) + rng.randbytes(c * (4 + sl)) + rng.randbytes(rng.choice([0, 3])))
        s = "C:%d,0" % rng.choice([100, 4096, 65536])
        add("job kind=load in=%s sched=%s" % (sg, s), kind="load", n=c * (4 + sl), unit=0, win=65536, cnt=c, sl=sl)
        add("file kind=load in=%s inbuf=%d inkind=%s" % (sg, rng.choice([0, 0, 100, 5000]), rng.choice(["reg", "reg", "pipe"])), kind="load", n=c * (4 + sl), unit=0, win=65536, cnt=c, sl=sl)
    # deltas
    cases = []
    for bl in (64, 1000, 2048):
        blocks = [rng.randbytes(bl) for _ in range(4000)]
        m = rng.choice(MAGIC_LIST)
        sg = ctx.path("sg%d" % bl)
        if ctx.run(["job kind=sig in=%s bl=%d sl=8 magic=%d save=%s" % (ctx.blob(b"".join(blocks)), bl, m, sg)])[0]["res"] != DONE:
            raise CheckError("signature")
        shuf = ctx.blob(b"".join(rng.choice(blocks) for _ in range(N // bl)))
        seq = ctx.blob(b"".join(blocks[i % 4000] for i in range(N // bl)))
        mixd = ctx.blob(b"".join(rng.choice([rng.choice(blocks), rng.randbytes(rng.randint(1, 2 * bl))]) for _ in range(N // bl)))
        cases += [(bl, sg, shuf), (bl, sg, seq), (bl, sg, mixd), (bl, sg, rnd)]
    zsg = ctx.path("zsg")
    if ctx.run(["job kind=sig in=%s bl=512 sl=8 magic=%d save=%s" % (ctx.blob(bytes(5000)), M_RKB2, zsg)])[0]["res"] != DONE:
        raise CheckError("signature")
    cases += [(512, zsg, z), (512, zsg, rnd), (1 << 30, ctx.blob(mksig(M_RKB2, 1 << 30, 8, [])), ctx.blob(rng.randbytes(MB)))]
    for bl, sg, d in cases:
        n = os.path.getsize(d)
        for s in [sched() for _ in range(3)] + [STALL] + (["C:4096,4"] if bl >= 1000 and bl < 1 << 30 else []):
            if bl == 1 << 30:
                continue
            add("job kind=delta sig=%s in=%s sched=%s" % (sg, d, s), kind="delta", n=n, unit=bl + 65536, win=windows(s), cnt=0, sl=0)
    for d in (rnd, z):
        for s in ("C:65536,65536", "C:4096,1000", sched(), STALL):
            add("job kind=delta in=%s sched=%s" % (d, s), kind="delta", n=N, unit=0, win=windows(s), cnt=0, sl=0)
    # patches
    basis = rng.randbytes(MB)
    many = [DELTA]
    big = [DELTA]
    small = [DELTA]
    out = 0
    while out < N:
        x = rng.randbytes(rng.choice([1, 60, 3000, 70000]))
        p = rng.randrange(MB // 2)
        c = rng.choice([1, 100, 30000, MB // 2])
        many += [lit(x), copy(p, c)]
        out += len(x) + c
    big += [lit(rng.randbytes(N), 8)]
    for _ in range(300000):
        small.append(copy(rng.randrange(MB), 1, 4, 4))
    pd = [(ctx.blob(b"".join(x) + b"\0"), y) for x, y in ((many, N), (big, N), (small, 300000))]
    pd += [(ctx.blob(DELTA + b"\x44" + struct.pack(">Q", 1 << 62) + bytes(1000)), 0), (ctx.blob(DELTA + lit(rng.randbytes(8 * MB), 8)[:-5]), 8 * MB)]
    bb = ctx.blob(basis)
    for d, n in pd:
        for cb in ("full", "own:65536", "short:100" if n == 300000 else "file"):
            s = rng.choice(["C:65536,65536", "C:4096,1000", "C:100,4096", sched(), STALL]) if n != 300000 else rng.choice(["C:4096,4096", "C:65536,100", "C:60,60"])
            add("job kind=patch in=%s basis=%s cb=%s sched=%s" % (d, bb, cb, s), kind="patch", n=n, unit=0, win=windows(s), cnt=0, sl=0)
    nj = len(lines)
    # whole files: the buffers asked for, or the default ones
    for l, k in [(x, y) for x, y in zip(lines[:nj], list(mks)) if "kind=load" not in x and " sig=" in x or "kind=sig" in x or "kind=patch" in x]:
        if rng.random() < 0.5:
            continue
        fl = re.sub(r" (sched|cb)=\S+", "", re.sub(r"^job ", "file ", l))
        ib, ob = rng.choice([0, 0, 100, 4096, 30000]), rng.choice([0, 0, 8, 100, 4096])
        bl = int(re.search(r" bl=(\d+)", fl).group(1)) if " bl=" in fl else 0
        q = k({"peak": 0, "left": 0, "olen": 0})
        lines.append(fl + " inbuf=%d outbuf=%d inkind=%s outkind=cookie" % (ib, ob, rng.choice(["reg", "reg", "pipe", "cookie"])))
        mks.append(lambda r, q=q: dict(q, peak=min(r["peak"], CAP), left=min(r["left"], CAP), made=min(r["olen"], CAP), win=65536 * 4 + 4 * q["unit"]))
    # and far larger ones
    from bigf import sparse
    G = (1 << 30) if ctx.quick else 6 << 30
    zf = sparse(ctx, "zf", G)
    lf = sparse(ctx, "lf", 4 + 9 + G + 1, [(0, DELTA + b"\x44" + struct.pack(">Q", G))])
    for l, k in (("bigf kind=sig infile=%s bl=100000 sl=8 magic=%d" % (zf, M_RKB2), dict(kind="sig", unit=100000)),
                 ("bigf kind=delta infile=%s sig=%s keep=0" % (zf, zsg), dict(kind="delta", unit=512 + 65536)),
                 ("bigf kind=delta infile=%s sig=%s keep=0 inbuf=5000 outbuf=9" % (zf, ctx.blob(mksig(M_RKB2, 4000, 8, []))), dict(kind="delta", unit=4000 + 65536)),
                 ("bigf kind=patch infile=%s basisfile=%s expfile=%s" % (lf, bb, zf), dict(kind="patch", unit=0))):
        if "outbuf=9" in l:
            l = l.replace(zf, z).replace("in=%s" % z, "in=%s" % z)
        lines.append(l + " mem=1")
        mks.append(lambda r, k=k: dict(k, t="mem", n=CAP if G > CAP else G, win=65536 * 4 + 4 * k["unit"], cnt=0, sl=0, peak=min(r["peak"], CAP), left=min(r["left"], CAP), made=min(r["olen"], CAP)))
    bad = lambda i, r: bool(r.get("crash") or r.get("hang") or "peak" not in r)
    ctx.conform(lines, lambda i, r: mks[i](r), lambda i: "(%s)" % lines[i][:300], bad=bad, cpu=150, spread=True)
    ctx.cov["most held"] = {k: max([r["peak"] for r in ctx.last_recs if r["kind"] == k] + [0]) for k in ("sig", "load", "delta", "patch")}
    for f in (zf, lf):
        os.unlink(f)
    if ctx.viol:
        return
    recs = {k: next(r for r in ctx.last_recs if r["kind"] == k) for k in ("sig", "load", "delta", "patch")}
    ctx.must_reject([dict(recs[k], peak=recs[k]["n"] // 2 if k != "load" else 12 * recs[k]["n"]) for k in recs])
    ctx.sample({"record": recs["delta"]})
    rdiff_limits(ctx)


def rdiff_limits(ctx):
    """the command line tool with little memory"""
    exe = ctx.rdiff()
    d = ctx.path("lim")
    os.mkdir(d)
    n = 300 * MB
    from bigf import sparse
    old, new = sparse(ctx, "lim/old", n, [(5000, b"abc")]), sparse(ctx, "lim/new", n, [(7000, b"xyz")])
    LIM = 48 * MB

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (LIM, LIM))
    for a in (["signature", old, d + "/sig"], ["delta", d + "/sig", new, d + "/delta"], ["patch", old, d + "/delta", d + "/out"]):
        try:
            p = subprocess.run([exe, "-f"] + a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim, timeout=300, cwd=d)
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            rc, err = "timeout", b""
        if rc != 0:
            ctx.violation("rdiff %s of %d MB does not get by with %d MB of memory: exit %s" % (a[0], n // MB, LIM // MB, rc), {"args": a, "stderr": err.decode("latin1")[:500]})
            break
    else:
        if subprocess.run(["cmp", "-s", d + "/out", new]).returncode:
            ctx.violation("rdiff round trip of %d MB differs" % (n // MB), {})
    subprocess.run(["rm", "-rf", d])
    ctx.cov["rdiff address space (MB)"] = LIM // MB


CHECKS = {"C22": c22}
