"""C06, C07, C01."""
from bigf import with_stamped
from vf import *
from gen import *
from dcases import *


def dline(ctx, i, sig, new, reps, sched=None, extra=""):
    s = sched or "R:%d,%d,%d" % (ctx.seed * 999983 + i, ctx.rng.choice([40, 300, 70000, 140000]), ctx.rng.choice([9, 60, 70000]))
    return "job id=%d kind=delta sig=%s in=%s sched=%s reps=%d hex=1 %s" % (i, ctx.blob(sig), ctx.blob(new), s, reps, extra)


def run_delta(ctx, cases, mkrec, reps, what, variant="plain", lines=None):
    lines = lines or [dline(ctx, i, c[0], c[1], reps) for i, c in enumerate(cases)]

    def bad(i, r):
        return r.get("bad") or r.get("res") != DONE
    return ctx.conform(lines, mkrec, lambda i: "(%s: block length %d, %d blocks, new %d bytes)" %
                       (what, int.from_bytes(cases[i][0][4:8], "big"), (len(cases[i][0]) - 12) // (4 + cases[i][0][11]), len(cases[i][1])),
                       bad, variant=variant, data=lambda i: {"signature": cases[i][0], "new": cases[i][1]})


def sym_run(ctx, cases, mkrec, reps, what):
    """symbolic cases; signatures by the library itself (C05 decides those)"""
    lines, conc = [], []
    for i, (bp, bl, np_) in enumerate(cases):
        S = Sym((ctx.seed, i))
        basis, new = S.bytes(bp), S.bytes(np_)
        magic = MAGIC_LIST[i % 4]
        sl = ctx.rng.choice([8, 16])
        sig = mksig(magic, bl, sl, [mkblocksum(magic, basis[k:k + bl], sl) for k in range(0, len(basis), bl)]) if magic in (M_B2, M_RKB2) and len(basis) < 200000 else None
        if sig is None:
            # python md4 and weak sums are slow on large data
            p = ctx.path("sig%d" % i)
            lines.append("job kind=sig in=%s bl=%d sl=%d magic=%d save=%s" % (ctx.blob(basis), bl, sl, magic, p))
            conc.append((p, new, basis))
        else:
            conc.append((ctx.blob(sig), new, basis))
    if lines:
        ctx.run(lines)
    dl = ["job id=%d kind=delta sig=%s in=%s sched=R:%d,%d,%d reps=%d hex=1" %
          (i, c[0], ctx.blob(c[1]), ctx.seed * 77 + i, ctx.rng.choice([300, 70000, 140000, 300000]), ctx.rng.choice([60, 70000, 300000]), reps) for i, c in enumerate(conc)]
    return ctx.conform(dl, lambda i, r: mkrec(i, r, conc[i]), lambda i: "(%s: basis %s, block length %d, new %s; <<random string, offset, length>> pieces)" %
                       (what, cases[i][0], cases[i][1], cases[i][2]), lambda i, r: r.get("bad") or r.get("res") != DONE,
                       data=lambda i: {"pieces": cases[i]})


def hexb(r):
    return ba(bytes.fromhex(r["hex"]))


def blen(sig):
    return int.from_bytes(sig[4:8], "big")


def c07(ctx):
    quick = ctx.quick
    # against no blocks at all the literal pieces follow the input windows (see C06)
    byte = [b for b in byte_cases(ctx, 250 if quick else 3000) + special_cases(ctx) if len(b[0]) > 12]
    run_delta(ctx, byte, lambda i, r: {"t": "match", "sig": ba(byte[i][0]), "new": ba(byte[i][1]), "out": hexb(r)}, 5 if quick else 25, "matching by checksums")
    if ctx.viol:
        return
    good = next(r for r in ctx.last_recs if len(r["out"]) > 12)
    ctx.must_reject(dict(good, out=ba(DELTA + lit(bytes(good["new"])[:64]) + b"\0") if len(good["new"]) <= 64 else ba(DELTA + b"\0")))
    # every small case over two letters
    eqs = list(eq_cases(ctx))
    lines = []
    for i, (b, bl, n) in enumerate(eqs):
        m = MAGIC_LIST[i % 4]
        lines.append(dline(ctx, i, mksig(m, bl, 16, [mkblocksum(m, b[k:k + bl], 16) for k in range(0, len(b), bl)]), n, 2, "R:%d,3,4" % i))
    ctx.conform(lines, lambda i, r: {"t": "eq", "basis": ba(eqs[i][0]), "bl": eqs[i][1], "new": ba(eqs[i][2]), "out": hexb(r)},
                lambda i: "(basis %s, block length %d, new %s)" % (eqs[i][0].hex(), eqs[i][1], eqs[i][2].hex()), lambda i, r: r.get("bad") or r.get("res") != DONE)
    if ctx.viol:
        return
    ctx.cov["exhaustive_pairs"] = len(eqs)
    # any size, symbolically
    sym = sym_cases(ctx, 40 if quick else 600)
    sym_run(ctx, sym, lambda i, r, c: {"t": "sym", "basis": sym[i][0], "bl": sym[i][1], "new": sym[i][2], "out": hexb(r)}, 3 if quick else 8, "large-scale matching")
    if ctx.viol:
        return
    many_blocks(ctx, [(16, 3000), (64, 1025)] if quick else [(16, 3000), (64, 1025), (32, 20000)])
    if ctx.viol:
        return
    far_copies(ctx)
    if ctx.viol:
        return
    big_windows(ctx, ["delta"])
    ctx.cov["cases"] = len(byte) + len(sym)


def many_blocks(ctx, cfgs):
    """signatures with many blocks: every block of the basis is found, in any order"""
    rng = ctx.rng
    cases = []
    for bl, nb in cfgs:
        for k in range(3):
            basis = [[1, 0, bl * nb]]
            order = list(range(nb))
            rng.shuffle(order)
            new = []
            for j in order[:250]:
                new.append([1, j * bl, bl])
                if k == 1:
                    new.append([2, len(new) * 7, rng.randint(1, 3)])
            if k == 2:
                new = [[1, 0, bl * nb]]
            cases.append((basis, bl, new))
    sym_run(ctx, cases, lambda i, r, c: {"t": "sym", "basis": cases[i][0], "bl": cases[i][1], "new": cases[i][2], "out": hexb(r)}, 2, "many blocks")


def far_copies(ctx, many_only=False):
    """signatures of files beyond 2 and 4 GB and of many blocks: entry k at position k*bl"""
    rng = ctx.rng
    recs, lines = [], []

    def add(magic, bl, n, ops):
        """a signature of n entries; ops ("c", entry) or ("l", bytes)"""
        dummy = [struct.pack(">I", rng.getrandbits(32)) + rng.randbytes(8) for _ in range(97)]
        ent = [dummy[k % 97] for k in range(n)]
        blk = {}
        for o in ops:
            if o[0] == "c" and o[1] not in blk:
                blk[o[1]] = rng.randbytes(bl)
                ent[o[1]] = mkblocksum_fast(ctx, magic, blk[o[1]], 8)
        new = b"".join(o[1] if o[0] == "l" else blk[o[1]] for o in ops)
        lines.append("job kind=delta sig=%s in=%s sched=one hex=1" % (ctx.blob(mksig(magic, bl, 8, ent)), ctx.blob(new)))
        recs.append({"t": "far", "bl": bl, "ops": [["l", ba(o[1])] if o[0] == "l" else ["c", o[1], bl] for o in ops]})
    for bl, idx, cnt in () if many_only else ((65536, 3, 1), (65536, 32767, 2), (65536, 32768, 1), (65536, 40000, 3), (131072, 32768, 1), (131072, 40001, 2), (1 << 20, 2047, 1), (1 << 20, 2048, 1),
                         (1 << 20, 4095, 1), (1 << 20, 4096, 1), (1 << 20, 5000, 2), (1 << 22, 1100, 1), (1 << 22, 512, 3)):
        add(M_RKB2, bl, idx + cnt + 3, [("c", idx + k) for k in range(cnt)])
    # copies that would meet if positions had fewer bits
    for bl, n, ops in () if many_only else ((65536, 65540, (0, 65537)), (65536, 65540, (65535, 65536, 0, 1)), (65536, 98310, (32767, 0, 32768, 65536, 98304)), (4096, 1048580, (0, 1048577, 1)), (65536, 66000, (65999, 463, 464))):
        add(rng.choice(MAGIC_LIST), bl, n, [("c", k) for k in ops])
    # many entries: every one of them counts
    for k, (bl, n) in enumerate([(16, 5000), (16, 70000), (64, 4097), (32, 200000)] if ctx.quick else [(16, 5000), (16, 70000), (64, 4097), (32, 200000), (16, 3000000), (128, 65537)]):
        for m in MAGIC_LIST if n <= 70000 else [MAGIC_LIST[k % len(MAGIC_LIST)]]:
            ops = []
            for e in sorted(rng.sample(range(n), 8)) + [n - 1, 0, n // 2, 4095, 4096]:
                ops.append(("c", e))
                if rng.random() < 0.4:
                    ops.append(("l", rng.randbytes(rng.randint(1, 3))))
                    ops.append(("c", rng.randrange(n)))
            add(m, bl, n, ops)
    ctx.conform(lines, lambda i, r: dict(recs[i], out=hexb(r)),
                lambda i: "(block length %d, copies of blocks %s)" % (recs[i]["bl"], [o[1] for o in recs[i]["ops"] if o[0] == "c"][:12]), lambda i, r: r.get("bad") or r.get("res") != DONE, cpu=60)
    if not ctx.viol:
        x = ctx.last_recs[-1]
        ctx.must_reject(dict(x, ops=x["ops"][:-1] + [["c", 7, x["bl"]]]))
    ctx.cov["far_cases"] = len(lines)


def vast_case(ctx, n=60_500_000, magic=M_RKB2, bl=100, sl=32):
    """entries so many that they take more than 2 GB: those on both sides of 2^31 bytes, the first and the last"""
    rng = random.Random(ctx.seed * 77 + n)
    edge = (1 << 31) // (4 + sl)
    ks = [0, 1, 16, 1 << 22, (1 << 25) - 1, 1 << 25, edge - 1, edge, edge + 1, (edge + n) // 2, n - 2, n - 1]
    blk = {k: rng.randbytes(bl) for k in ks}
    ents = b"".join(struct.pack(">Q", k) + mkblocksum(magic, blk[k], sl) for k in ks)
    ops = [("c", k) for k in ks] + [("l", b"between")] + [("c", k) for k in rng.sample(ks, 8)]
    new = b"".join(o[1] if o[0] == "l" else blk[o[1]] for o in ops)
    line = "farsig n=%d magic=%d bl=%d sl=%d seed=%d ents=%s in=%s" % (n, magic, bl, sl, ctx.seed * 77 + 5, ctx.blob(ents), ctx.blob(new))
    return line, {"t": "far", "bl": bl, "ops": [["l", ba(o[1])] if o[0] == "l" else ["c", o[1], bl] for o in ops]}


def with_vast(check, **kw):
    """the check, and meanwhile a signature of that many blocks"""
    def f(ctx):
        ctx.prog("drv", "plain")
        line, rec = vast_case(ctx, **kw)
        wrong = lambda i, r: r.get("crash") or r.get("hang") or r.get("lres") != DONE or r.get("res") != DONE or r.get("left")
        with ThreadPoolExecutor(1) as ex:
            got = ex.submit(ctx.run, [line], cpu=400)
            check(ctx)
            r = got.result()[0]
        if ctx.viol:
            return
        if wrong(0, r) or ctx.judge([dict(rec, out=hexb(r))]):
            ctx.conform([line], lambda i, r: dict(rec, out=hexb(r)), lambda i: "(signature of %s blocks)" % line.split()[1][2:], wrong, cpu=400)
        ctx.cov["vast_signature_blocks"] = kw.get("n", 60_500_000)
    return f


def mkblocksum_fast(ctx, magic, data, sl):
    """by the library's own signature job (python is slow on large blocks)"""
    if len(data) <= 64:
        return mkblocksum(magic, data, sl)
    r = ctx.run(["job kind=sig in=%s bl=%d sl=%d magic=%d hex=1" % (ctx.blob(data), len(data), sl, magic)])[0]
    return bytes.fromhex(r["hex"])[12:]


def c06(ctx):
    quick = ctx.quick
    byte = byte_cases(ctx, 400 if quick else 6000) + special_cases(ctx)
    byte = [b for b in byte if len(b[0]) > 12]

    def desclen(sig):
        return ((len(sig) - 12) // (4 + sig[11])) * blen(sig)

    def mk(i, r):
        ctx.sample({"bl": blen(byte[i][0]), "new": byte[i][1].hex()[:60], "delta": r["hex"][:80]})
        return {"t": "wf", "out": hexb(r), "bn": len(byte[i][2]) if byte[i][2] is not None else desclen(byte[i][0]), "nn": len(byte[i][1]), "slack": False}
    run_delta(ctx, byte, mk, 5 if quick else 20, "delta form")
    if ctx.viol:
        return
    ctx.must_reject({"t": "wf", "out": ba(DELTA + lit(b"ab") + lit(b"c") + b"\0"), "bn": 5, "nn": 3, "slack": False})
    ctx.must_reject({"t": "wf", "out": ba(DELTA + copy(0, 3) + copy(3, 2) + b"\0"), "bn": 5, "nn": 5, "slack": False})
    ctx.must_reject({"t": "wf", "out": ba(DELTA + copy(0, 3, 2) + b"\0"), "bn": 5, "nn": 3, "slack": False})
    # deltas without a signature or against an empty one
    rng = ctx.rng
    sl_cases = []
    for n in (0, 1, 2, 63, 64, 65, 255, 256, 257, 1000, 65535, 65536, 65537, 100000):
        sl_cases.append((rng.randbytes(n), None))
        m = MAGIC_LIST[n % 4]
        sl_cases.append((rng.randbytes(n), mksig(m, 16, 8, [])))
    lines = ["job kind=delta %s in=%s sched=R:%d,%d,%d reps=1 hex=1" % ("sig=" + ctx.blob(s) if s else "", ctx.blob(d), ctx.seed + k, (70000, 90, 300)[k % 3] if len(d) > 3000 else 40, (70000, 60)[k % 2])
             for k, (d, s) in enumerate(sl_cases) for _ in range(1)]
    lines += ["job kind=delta %s in=%s sched=one hex=1" % ("sig=" + ctx.blob(s) if s else "", ctx.blob(d)) for d, s in sl_cases]
    ctx.conform(lines, lambda i, r: {"t": "slackwf", "out": hexb(r), "in": ba(sl_cases[i % len(sl_cases)][0])},
                lambda i: "(delta without a basis, %d bytes)" % len(sl_cases[i % len(sl_cases)][0]), lambda i, r: r.get("bad") or r.get("res") != DONE)
    if ctx.viol:
        return
    sym = sym_cases(ctx, 40 if quick else 600)
    sym_run(ctx, sym, lambda i, r, c: {"t": "wf", "out": hexb(r), "bn": len(c[2]), "nn": len(c[1]), "slack": False}, 3 if quick else 8, "form of large deltas")
    if ctx.viol:
        return
    far_copies(ctx)
    if ctx.viol:
        return
    big_windows(ctx, ["delta"])
    ctx.cov["cases"] = len(byte) + len(sym)


def c01(ctx):
    rng = ctx.rng
    quick = ctx.quick
    # the specification itself: greedy encoding followed by patching is the identity (checked per record by JEq too)
    cases = []     # (basis, new, magic, bl, sl)

    def data(n):
        k = rng.randrange(8)
        if k == 0:
            return bytes([rng.choice([0, 255, 65])]) * n
        if k == 1:
            return rbytes(rng, n, 2)
        if k == 2:
            w = rng.randbytes(rng.randint(1, 40))
            return (w * (n // len(w) + 1))[:n]
        if k == 3:
            return bytes(rng.choice((0, 0x7f, 0x80, 0xff)) for _ in range(n))
        return rng.randbytes(n)
    small_bl = [1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 128, 255, 256, 257, 512]
    for i in range(500 if quick else 8000):
        magic = MAGIC_LIST[i % 4]
        bl = rng.choice(small_bl)
        b = data(rng.choice([0, 1, bl - 1, bl, bl + 1, 3 * bl, rng.randint(0, 900)]) % 1000)
        n = rng.choice([b, edit(rng, b, bl, 8)[:1200], edit(rng, b, bl, 4)[:1200], data(rng.randint(0, 300)), b""])
        r = rng.random()
        sl = rng.choice([0, maxstrong(magic), 8, 9, rng.randint(8, maxstrong(magic))])
        cases.append((b, n, magic if r < 0.95 else 0, bl, sl))
    nsmall = len(cases)
    lines = []

    def sch(mx):
        r = rng.random()
        return "one" if r < 0.2 else "R:%d,%d,%d" % (rng.getrandbits(30), rng.choice([3, mx, mx * 3]), rng.choice([5, 50, 5000]))
    for i, (b, n, m, bl, sl) in enumerate(cases):
        lines.append("rt id=%d basis=%s new=%s magic=%d bl=%d sl=%d s1=%s s2=%s s3=%s s4=%s cb=%s eof=%s hex=1" %
                     (i, ctx.blob(b), ctx.blob(n), m, bl, sl, sch(bl + 3), sch(30), sch(200), sch(60), rng.choice(["full", "short:3", "own", "file"]), rng.choice(["now", "late"])))

    def mk(i, r):
        b, n, m, bl, sl = cases[i]
        ctx.sample({"basis_len": len(b), "new_len": len(n), "magic": hex(m), "bl": bl, "sl": sl, "delta": r["dhex"][:60]})
        return {"t": "rt", "basis": ba(b), "new": ba(n), "delta": ba(bytes.fromhex(r["dhex"]))}

    def desc(i):
        b, n, m, bl, sl = cases[i]
        return "(round trip: basis %d, new %d bytes, magic %#x, block length %d, strong %d)" % (len(b), len(n), m, bl, sl)
    dat = lambda i: {"basis": cases[i][0], "new": cases[i][1]}
    ctx.conform(lines, mk, desc, data=dat)
    if ctx.viol:
        return
    x = next(r for r in ctx.last_recs if len(r["new"]) > 2)
    ctx.must_reject(dict(x, new=x["new"][:-1] + [x["new"][-1] ^ 1]))
    # larger data: sizes around internal limits, default parameters
    cases2 = []
    for i in range(60 if quick else 800):
        bl = rng.choice([0, 0, 16, 64, 256, 1000, 2048, 4096, 65535, 65536, 65537, 100000])
        n = rng.choice([65530, 65536, 70000, 131072, 200000, 300000, 1000000 if i % 7 == 0 else 150000])
        b = rng.randbytes(n)
        eb = bl or 2048
        if rng.random() < 0.3:
            nw = edit(rng, b, eb, 20)
        else:
            nw = b"".join(rng.choice([b[(k := rng.randrange(n)) // eb * eb:][:rng.randint(1, 5) * eb], rng.randbytes(rng.choice([1, 300, 65533, 65534, 70000]))]) for _ in range(rng.randint(1, 6)))
        cases2.append((b, nw[:700000], rng.choice(MAGIC_LIST + [0]), bl, rng.choice([0, 8, 12, 16, -1])))
    big_mb = [(3 << 20, 0), (5 << 20, 512)] if quick else [(3 << 20, 0), (5 << 20, 512), (40 << 20, 0), (20 << 20, 64), (64 << 20, 2048)]
    for n, bl in big_mb:
        b = rng.randbytes(n)
        nw = b[:n // 3] + b"inserted" + b[n // 3:n // 2] + b[n // 2 + 5000:] + b[:100000]
        cases2.append((b, nw, 0, bl, 0))
    # incompressible by matching: repeated blocks, all equal
    cases2.append((b"\0" * 300000, b"\0" * 299999 + b"\1" + b"\0" * 70000, M_RKB2, 1000, 8))
    cases2.append((b"ab" * 100000, b"ba" * 100000, M_B2, 64, 16))
    cases = cases2
    lines = []
    for i, (b, n, m, bl, sl) in enumerate(cases):
        def big():
            return "one" if rng.random() < 0.3 else "R:%d,%d,%d" % (rng.getrandbits(30), rng.choice([1000, 65536, 70001, 300000]), rng.choice([1000, 65536, 200000]))
        lines.append("rt id=%d basis=%s new=%s magic=%d bl=%d sl=%d s1=%s s2=%s s3=%s s4=%s cb=%s eof=%s" %
                     (i, ctx.blob(b), ctx.blob(n), m, bl, sl, big(), big(), big(), big(), rng.choice(["full", "own", "file"]), rng.choice(["now", "late"])))
    ctx.conform(lines, None, desc, data=lambda i: {}, cpu=60)
    ctx.cov["cases"] = nsmall + len(cases)
    if not ctx.viol:
        huge_rt(ctx)


def huge_rt(ctx):
    """a basis beyond 4 GB: zeros with islands, edited near the islands"""
    rng = ctx.rng
    G = 1 << 32
    lines, recs = [], []
    for k, magic in enumerate(MAGIC_LIST if not ctx.quick else [M_RKB2, M_MD4]):
        bl = rng.choice([4096, 8192])
        at = [3 * bl + rng.randrange(1, bl), G // 2 - 5000 + rng.randrange(2000), G - 9000 + rng.randrange(1000), G + 5 * bl + rng.randrange(100)]
        isl = [rng.randbytes(n) for n in (3 * bl, 12000, 20000, 3 * bl + 500)]
        size = at[-1] + len(isl[-1])
        ps, p = [], 0
        for i, (a, x) in enumerate(zip(at, isl)):
            ps += [[0, 0, a - p], [i + 1, 0, len(x)]]
            p = a + len(x)

        def piece(a, n):
            out = bytearray(n)
            for o, x in zip(at, isl):
                lo, hi = max(a, o), min(a + n, o + len(x))
                if lo < hi:
                    out[lo - a:hi - a] = x[lo - o:hi - o]
            return bytes(out)
        # blocks that would be neighbours if positions had 32 bits, then the rest
        new = piece(5 * bl, bl) + piece(G + 6 * bl, bl) + piece(at[3] // bl * bl, size - at[3] // bl * bl) + b"between" + piece(at[2] // bl * bl, 3 * bl) + piece(at[0] + 17, bl + 50) + piece(at[1] // bl * bl, 2 * bl) + piece(size - size % bl - bl, bl + size % bl)
        spec = "v:%d" % size + "".join(",%d=%s" % (a, ctx.blob(x)) for a, x in zip(at, isl))
        lines.append("rt id=huge%d basis=%s new=%s magic=%d bl=%d sl=12 s1=C:1048576,1048576 s2=one s3=C:60000,60000 s4=C:5000,3000 hex=1" % (k, spec, ctx.blob(new), magic, bl))
        b8 = lambda v: ba(v.to_bytes(8, "big"))
        recs.append({"t": "vrt", "basis": [[i, b8(o), b8(n)] for i, o, n in ps], "strs": [ba(x) for x in isl], "new": ba(new)})
    ctx.conform(lines, lambda i, r: dict(recs[i], delta=ba(bytes.fromhex(r["dhex"]))), lambda i: "(round trip against a basis of more than 4 GB)", cpu=300, spread=True)
    if not ctx.viol:
        x = ctx.last_recs[0]
        ctx.must_reject(dict(x, new=x["new"][:-1] + [x["new"][-1] ^ 1]))
        ctx.cov["basis_beyond_4GB"] = len(lines)


CHECKS = {"C01": with_stamped(c01), "C06": with_stamped(c06), "C07": with_vast(c07, magic=M_B2)}
