"""C11: statistics, compared by TLC with what the streams themselves say."""
from vf import *
from gen import *
from dcases import *
from bigf import sparse, headers, bigstat, roundtrip

KEYS = ("lit_cmds", "lit_bytes", "lit_cmdbytes", "copy_cmds", "copy_bytes", "copy_cmdbytes")


def ds(st):
    return [st[k] for k in KEYS]


MATCH = re.compile(r"match statistics: signature\[(\d+) searches, (\d+) \(([^%]*)%\) matches, (\d+) \(([^x]*)x\) weak sum compares, (\d+) \(([^%]*)%\) strong sum compares, (\d+) \(([^%]*)%\) strong sum calcs\]")


def mstat(text, sig, new, reps=1):
    """the record of a line of match statistics, with nonsense if it is none"""
    m = MATCH.search(text)
    g = m.groups() if m else ["9", "9", "0", "9", "0", "9", "0", "9", "0"]
    pc = lambda t: (int(round(float(t) * 1000)) if float(t) <= 1000 else -1) if re.fullmatch(r"\d+\.\d+", t) else 0
    return {"t": "mstat", "sig": ba(sig), "new": ba(new), "reps": reps, "s": [min(int(g[k]), 10 ** 9) for k in (0, 1, 3, 5, 7)], "p": [pc(g[k]) for k in (2, 6, 8)]}


def schedules(rng, n):
    return ["one"] + [rng.choice(["C:%d,%d" % (rng.choice([1, 2, 3, 7, 50]), rng.choice([1, 2, 5, 64])), "R:%d,%d,%d" % (rng.getrandbits(30), rng.choice([3, 20, 90]), rng.choice([3, 9, 70]))]) for _ in range(n)]


def huge_run(ctx):
    """counts beyond 32 bits"""
    rng = random.Random(ctx.seed)
    G = 1 << 32
    n1, n2 = G + rng.randint(1, 1 << 20), (1 << 31) + rng.randint(1, 1 << 20)
    z1, z2 = sparse(ctx, "z1", n1), sparse(ctx, "z2", n2)
    lit = sparse(ctx, "lit", 4 + 9 + n1 + 1, [(0, DELTA + b"\x44" + struct.pack(">Q", n1))])
    lit4 = sparse(ctx, "lit4", 4 + 5 + n2 + 1, [(0, DELTA + b"\x43" + struct.pack(">I", n2))])
    one = ctx.path("one")
    open(one, "wb").write(DELTA + b"\x54" + struct.pack(">QQ", 1, n1 - 1) + b"\0")
    none = ctx.blob(mksig(M_RKB2, 1 << 20, 8, []))
    todo = [("patch", "bigf kind=patch infile=%s basisfile=%s expfile=%s" % (lit, z2, z1), 14 + n1, [list(b"\x44" + struct.pack(">Q", n1))]),
            ("patch", "bigf kind=patch infile=%s basisfile=%s expfile=%s" % (lit4, z2, z2), 10 + n2, [list(b"\x43" + struct.pack(">I", n2))]),
            ("patch", "bigf kind=patch infile=%s basisfile=%s" % (one, z1), 22, [list(b"\x54" + struct.pack(">QQ", 1, n1 - 1))]),
            ("delta", "bigf kind=delta infile=%s sig=%s keep=0" % (z1, none), n1, [])]
    with ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(lambda l: ctx.run([l], cpu=200)[0], t[1]) for t in todo]
        rt = ex.submit(roundtrip, ctx, "rt", z1, n1, z1, n1, 1 << 20, 8, M_RKB2)
        res = [(t[0], t[1], f.result(), t[2], t[3]) for t, f in zip(todo, futs)]
        for kind, line, r in rt.result():
            h = headers(bytes.fromhex(r["hex"])) if kind == "delta" and r.get("res") == DONE else []
            res.append((kind, line, r, n1 if kind != "patch" else res[-1][2]["olen"], h if kind != "patch" else res[-1][4]))
    for f in (z1, z2, lit, lit4):
        os.unlink(f)
    return res


def huge_judge(ctx, res):
    recs = []
    for kind, line, r, nin, h in res:
        if r.get("res") != DONE or r.get("bad") or "stats" not in r:
            ctx.violation("a file beyond 4 GB is not handled: %s" % str(r)[:200], {"scenario": line, "observed": r})
            return
        recs.append(bigstat(kind, nin, r, h))
    ctx.log("files beyond 4 GB done")
    for k, why in ctx.judge(recs).items():
        ctx.violation("%s (%s)" % (why, res[k][1]), {"scenario": res[k][1], "observed": res[k][2]})
    ctx.must_reject([dict(recs[2], s=[x[:3] + [x[3] ^ 1] + x[4:] if j == k else x for j, x in enumerate(recs[2]["s"])]) for k in range(8)])
    ctx.cov["counts beyond 32 bits"] = len(recs)


def c11(ctx):
    ctx.prog("drv", "plain")
    with ThreadPoolExecutor(1) as ex:
        c11_with(ctx, ex.submit(huge_run, ctx))


def c11_with(ctx, big):
    rng = ctx.rng
    quick = ctx.quick
    lines, mks = [], []

    def add(line, mk):
        lines.append(line)
        mks.append(mk)
    # deltas: what their own output says
    cases = [(sig, new) for sig, new, _ in byte_cases(ctx, 150 if quick else 2000)]
    for new, n in ((rng.randbytes(300), 0), (b"", 0)):
        cases.append((None, new))
    for sig, new in cases:
        for s in schedules(rng, 3):
            add("job kind=delta %s in=%s sched=%s hex=1" % ("sig=" + ctx.blob(sig) if sig else "", ctx.blob(new), s),
                lambda r: {"t": "dstat", "in": ba(bytes.fromhex(r["hex"])), "s": ds(r["stats"])})
    ctx.cov["delta_cases"] = len(cases)
    # patches: what the delta says
    basis = rng.randbytes(6000)
    for _ in range(250 if quick else 3000):
        d, new = rand_delta(rng, basis, 10, rng.choice([70, 300, 1000]))
        for s in schedules(rng, 2):
            add("job kind=patch in=%s basis=%s cb=%s sched=%s exp=%s" % (ctx.blob(d), ctx.blob(basis), rng.choice(["full", "short:5", "own", "file"]), s, ctx.blob(new)),
                lambda r, d=d: {"t": "dstat", "in": ba(d), "s": ds(r["stats"])})
    # signatures and loading
    for _ in range(150 if quick else 1500):
        m = rng.choice(MAGIC_LIST)
        bl = rng.choice([1, 2, 3, 16, 100, 1000])
        n = rng.choice([0, 1, bl - 1, bl, bl + 1, 2 * bl, 3 * bl + 1, rng.randint(0, 40 * min(bl, 20))])
        d, sl = rng.randbytes(n), rng.randint(1, maxstrong(m))
        for s in schedules(rng, 2):
            add("job kind=sig in=%s bl=%d sl=%d magic=%d sched=%s" % (ctx.blob(d), bl, sl, m, s), lambda r, n=n, bl=bl: {"t": "sgstat", "n": n, "bl": bl, "s": [r["stats"]["sig_blocks"], r["stats"]["block_len"]]})
        sg = mksig(m, bl, sl, [rng.randbytes(4 + sl) for _ in range(rng.choice([0, 1, 2, 9, 30]))])
        for s in schedules(rng, 2):
            add("job kind=load in=%s sched=%s" % (ctx.blob(sg), s), lambda r, g=sg: {"t": "ldstat", "in": ba(g), "s": [r["stats"]["sig_blocks"], r["stats"]["block_len"]]})
    # parameters left to the library: the block length used is the one reported (default 2048)
    for n in (0, 1, 2047, 2048, 2049, 5000, 20000):
        for m, sl in ((0, 0), (M_MD4, 0), (M_B2, 8), (M_RKMD4, -1)):
            add("job kind=sig in=%s bl=0 sl=%d magic=%d sched=%s" % (ctx.blob(rng.randbytes(n)), sl, m, rng.choice(["one", "C:100,50"])), lambda r, n=n: {"t": "sgstat", "n": n, "bl": 2048, "s": [r["stats"]["sig_blocks"], r["stats"]["block_len"]]})
    for bl in (32767, 32768, 65535, 65536, 131072, 1 << 24, (1 << 31) - 1):
        sg = mksig(rng.choice(MAGIC_LIST), bl, 8, [rng.randbytes(12) for _ in range(3)])
        add("job kind=load in=%s sched=C:5,5" % ctx.blob(sg), lambda r, g=sg: {"t": "ldstat", "in": ba(g), "s": [r["stats"]["sig_blocks"], r["stats"]["block_len"]]})
    longs = set()
    # much input at once and nothing to copy: long literals
    for n in (65533, 65534, 65535, 65536, 65537, 70001, 131071, 200001):
        for s in (None, mksig(M_RKB2, 64, 8, [])):
            longs.add(len(lines))
            add("job kind=delta %s in=%s sched=%s hex=1" % ("sig=" + ctx.blob(s) if s else "", ctx.blob(bytes(n)), rng.choice(["one", "C:%d,%d" % (n, n)])), 
                lambda r, n=n: bigstat("delta", n, dict(r, stats=dict(r["stats"], in_bytes=n, out_bytes=r["olen"])), headers(bytes.fromhex(r["hex"]))))
    nj = len(lines)
    # whole files: the same numbers, and the bytes in and out
    for i in rng.sample(range(nj), 400 if quick else 4000):
        l = re.sub(r"^job ", "file ", lines[i])
        l = re.sub(r" (sched|cb)=\S+", "", l)
        if "hex=1" not in l and "kind=load" not in l:
            l += " hex=1"
        if "kind=delta" in l and ("sig=" not in l or i in longs) or " bl=0 " in l:
            continue

        def mk(r, i=i, l=l):
            n = os.path.getsize(re.search(r" in=(\S+)", l).group(1)) if " in=-" not in l else 0
            io = {"t": "iostat", "nin": n, "nout": r["olen"] if "kind=load" not in l else 0, "s": [r["stats"]["in_bytes"], r["stats"]["out_bytes"]]}
            return [mks[i](r), io]
        add(l + " inbuf=%d outbuf=%d inkind=%s outkind=reg" % (rng.choice([0, 0, 1, 7, 100]), rng.choice([0, 0, 1, 7, 100]), rng.choice(["reg", "pipe", "cookie"])), mk)
    bad = lambda i, r: bool(r.get("crash") or r.get("hang") or r.get("res") != DONE or "stats" not in r)
    ctx.conform(lines, lambda i, r: mks[i](r), lambda i: "(%s)" % lines[i][:300], bad=bad)
    if ctx.viol:
        return
    rec = next(r for r in ctx.last_recs if r["t"] == "dstat" and sum(r["s"]) > 3)
    ctx.must_reject([dict(rec, s=[x + (j == k) for j, x in enumerate(rec["s"])]) for k in range(6)] + [{"t": "sgstat", "n": 10, "bl": 5, "s": [3, 5]}])
    ctx.sample({"record": rec})
    # what matching did: searches, matches, checksums
    ml = []
    for sig, new, _ in byte_cases(ctx, 120 if quick else 1500) + rng.sample(special_cases(ctx), 60 if quick else 400):
        reps = rng.choice([1, 1, 1, 2, 3])
        ml.append(("job kind=delta sig=%s in=%s sched=%s reps=%d mstat=1" % (ctx.blob(sig), ctx.blob(new), schedules(rng, 1)[rng.random() < 0.7], reps), sig, new, reps))
    ctx.conform([m[0] for m in ml], lambda i, r: mstat(r["mtext"], *ml[i][1:]), lambda i: "(%s)" % ml[i][0][:300], bad=lambda i, r: bool(r.get("crash") or r.get("hang") or r.get("res") != DONE or "mtext" not in r))
    if ctx.viol:
        return
    rec = next(r for r in ctx.last_recs if r["s"][1] > 1)
    ctx.must_reject([dict(rec, s=[x + (j == k) for j, x in enumerate(rec["s"])]) for k in (0, 1, 4)])
    ctx.cov["matching counted"] = len(ml)
    # large: symbolic deltas and patches larger than the internal buffers
    from chk_delta import sym_run
    sym_run(ctx, sym_cases(ctx, 12 if quick else 200), lambda i, r, c: {"t": "dstat", "in": ba(bytes.fromhex(r["hex"])), "s": ds(r["stats"])}, 2 if quick else 6, "statistics of large deltas")
    if ctx.viol:
        return
    ctx.log("symbolic deltas done")
    huge_judge(ctx, big.result())
    if ctx.viol:
        return
    # printed form
    vals = [0, 1, 9, 10, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 10 ** 12, 2 ** 63 - 1]
    fl, frec = [], []
    F = ("lit_bytes", "lit_cmdbytes", "copy_cmds", "copy_bytes", "copy_cmdbytes", "sig_cmds", "sig_bytes", "sig_blocks", "block_len")
    for k in range(500 if quick else 5000):
        f = {x: rng.choice(vals + [0, 0, 0] + [rng.getrandbits(rng.randint(1, 62))]) for x in F}
        f["lit_cmds"], f["false_matches"] = rng.choice([0, 0, 1, 77, 2 ** 31 - 1]), rng.choice([0, 0, 0, 5])
        io = {x: rng.choice(vals) for x in ("in_bytes", "out_bytes")}
        st = rng.choice([0, 1700000000])
        size = k if k < 330 else rng.randint(0, 400)
        op = rng.choice(["delta", "patch", "signature", "loadsig", ""])
        fl.append("fmt %s %s start=%d end=%d size=%d" % ("opname=" + op if op else "", " ".join("%s=%d" % x for x in list(f.items()) + list(io.items())), st, st + rng.choice([0, 1, 100]), size))
        frec.append(dict({a: str(b) for a, b in f.items()}, op=op))

    def mkf(i, r):
        if r["nlog"] != 1 or r["loglev"] != 6:
            return {"t": "fmt", "f": frec[i], "size": 0, "text": "", "log": "logged %d times at level %d" % (r["nlog"], r["loglev"])}
        return {"t": "fmt", "f": frec[i], "size": int(re.search(r"size=(\d+)", fl[i]).group(1)), "text": r["text"], "log": r["log"]}
    ctx.conform(fl, mkf, lambda i: "(%s)" % fl[i], bad=lambda i, r: bool(r.get("crash") or r.get("over")), prog="drv_misc", module="JudgeMisc")
    if ctx.viol:
        return
    ctx.must_reject(dict(ctx.last_recs[5], text="delta"), "JudgeMisc")
    sl = []
    for _ in range(100 if quick else 1000):
        d, st = rng.choice([0, 1, 2, 3, 7, 59, 100, 3600]), rng.choice([0, 1700000000, 5000000000])
        sl.append((d, rng.getrandbits(rng.randint(1, 46)), rng.getrandbits(rng.randint(1, 46)), "fmt opname=delta lit_cmds=1 in_bytes=%d out_bytes=%d start=%d end=%d size=900", st))
    sl = [(d, i, o, l % (i, o, st, st + d)) for d, i, o, l, st in sl]

    def mks(i, r):
        m = re.search(r" speed\[(\d+)\.(\d) MB \((\d+)\.(\d) MB/s\) in, (\d+)\.(\d) MB \((\d+)\.(\d) MB/s\) out, (\d+) sec\]$", r["text"])
        v = [int(x) for x in m.groups()] if m else []
        return {"t": "speed", "d": sl[i][0], "q": [(x + 50000) // 100000 for x in sl[i][1:3]], "io": [10 * v[k] + v[k + 1] for k in (0, 2, 4, 6)] + [v[8]] if v else []}
    ctx.conform([x[3] for x in sl], mks, lambda i: "(%s)" % sl[i][3], prog="drv_misc", module="JudgeMisc", bad=lambda i, r: bool(r.get("crash") or r.get("over")))
    if ctx.viol:
        return
    rec = next(r for r in ctx.last_recs if r["d"] == 100 and r["q"][0] > 1000)
    ctx.must_reject([dict(rec, io=rec["io"][:1] * 2 + rec["io"][2:]), dict(rec, io=[]), dict(rec, d=101)], "JudgeMisc")
    ctx.conform(fl[:340], None, lambda i: "(%s)" % fl[i], bad=lambda i, r: bool(r.get("crash")), prog="drv_misc", variant="asan")
    ctx.cov["printed"] = len(fl)


CHECKS = {"C11": c11}
