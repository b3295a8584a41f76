"""C08, C09: patching; the specification is Format!PatchRun."""
from vf import *
from gen import *
from dcases import big_windows


def patch_line(ctx, i, d, basis, cb="full", reps=1, sched=None, extra=""):
    s = sched or "R:%d,%d,%d" % (ctx.seed * 104729 + i, min(max(4, len(d)), 70), 90)
    return "job id=%d kind=patch in=%s basis=%s cb=%s sched=%s reps=%d hex=1 %s" % (i, ctx.blob(d), ctx.blob(basis), cb, s, reps, extra)


CBS = ["full", "short:1", "short:7", "own", "file", "own:3", "map:7", "mix:2", "zeof:0", "zeof:5", "more:1", "more:40"]


def patch_conform(ctx, cases, reps, variant="plain", judge=True, what="patch"):
    """cases: (delta, basis, cb)"""
    lines = [patch_line(ctx, i, d, b, cb, reps) for i, (d, b, cb) in enumerate(cases)]

    def mk(i, r):
        d, b, cb = cases[i]
        ctx.sample({"delta": d.hex()[:120], "basis_len": len(b), "callback": cb, "res": r["res"], "out": r["hex"][:60]})
        return {"t": "patch", "in": ba(d), "basis": ba(b), "res": r["res"], "out": ba(bytes.fromhex(r["hex"]))}

    def desc(i):
        d, b, cb = cases[i]
        return "(%s: delta %s%s, basis of %d bytes, callback %s)" % (what, d.hex()[:100], "..." if len(d) > 50 else "", len(b), cb)
    return ctx.conform(lines, mk if judge else None, desc, variant=variant, data=lambda i: {"delta": cases[i][0], "basis": cases[i][1], "callback": cases[i][2]})


def c08(ctx):
    rng = ctx.rng
    basis = rng.randbytes(700)
    cases = []

    def add(d, b=basis, cb=None):
        cases.append((d, b, cb or rng.choice(CBS)))
    W = (1, 2, 4, 8)
    # every opcode once, and every width with every number shape it can hold
    for n in range(1, 65):
        add(DELTA + lit(rng.randbytes(n)) + copy(n, 3) + b"\0")
    for w in W:
        for n in (1, 2, 63, 64, 65, 127, 128, 255) + ((256, 257, 300, 511, 512, 600) if w > 1 else ()):
            add(DELTA + copy(1, 2) + lit(rng.randbytes(n), w) + copy(5, 6) + b"\0")
    for wp in W:
        for wl in W:
            for pos, n in ((0, 1), (0, 255), (1, 64), (127, 128), (255, 1), (200, 255)) + (((256, 3), (699, 1), (300, 129)) if wp > 1 else ()) + (((0, 256), (100, 600), (0, 700), (128, 512)) if wl > 1 else ()):
                add(DELTA + lit(b"ab") + copy(pos, n, wp, wl) + lit(b"z") + b"\0")
    # empty, end only, trailing data after the end
    add(DELTA + b"\0", b"")
    add(DELTA + b"\0" + b"\0\1\2")
    add(DELTA + lit(b"xyz") + b"\0" + rng.randbytes(40))
    # copies that meet, overlap, go backwards, repeat; long runs of commands
    add(DELTA + b"".join(copy(p, 10) for p in (0, 10, 20, 15, 0, 690, 0)) + b"\0")
    add(DELTA + b"".join(copy(i % 700, 1) for i in range(0, 900, 3)) + b"\0")
    add(DELTA + b"".join(lit(bytes([i & 255])) + copy(i, 2) for i in range(200)) + b"\0")
    for _ in range(250 if ctx.quick else 4000):
        b = rng.randbytes(rng.choice([0, 1, 2, 50, 256, 257, 700, 3000]))
        d, _new = rand_delta(rng, b, rng.choice([1, 2, 6, 15]), rng.choice([80, 300]))
        add(d, b)
    if not ctx.quick:
        for cb in CBS:
            for _ in range(200):
                b = rng.randbytes(rng.randint(1, 900))
                add(rand_delta(rng, b, 20, 400)[0], b, cb)
    reps = 6 if ctx.quick else 30
    patch_conform(ctx, cases, reps)
    if ctx.viol:
        return
    ctx.must_reject(dict(next(r for r in ctx.last_recs if len(r["out"]) > 3), out=[1]))
    ctx.must_reject(dict(next(r for r in ctx.last_recs if len(r["out"]) > 3), res=106))
    big_patches(ctx)
    if ctx.viol:
        return
    far_patches(ctx)
    if ctx.viol:
        return
    huge_patches(ctx)
    if ctx.viol:
        return
    big_windows(ctx, ["patch"])
    if ctx.viol:
        return
    literals_of_4g(ctx)
    ctx.cov["cases"] = len(cases)
    ctx.cov["schedules_per_case"] = reps


def big_patches(ctx):
    """sizes around the internal and file buffer sizes: judged symbolically --
    every command contributes one piece <<source, offset, length>>"""
    rng = ctx.rng
    sizes = [4095, 4096, 65532, 65533, 65534, 65535, 65536, 65537, 131072, 200000, 262143, 262144, 262145]
    if not ctx.quick:
        sizes += [300001, 524288, 1048577]
    basis = rng.randbytes(400000)
    cases = []
    for n in sizes:
        for w in (2, 4, 8):
            if n < 256 ** w:
                x = rng.randbytes(n)
                cases.append(([("l", x, w)], n))
        for wp, wl in ((4, 4), (8, 2), (2, 8), (4, 8)):
            p = rng.randint(0, 60000)
            if n < 256 ** wl and p + n <= len(basis):
                cases.append(([("c", p, n, wp, wl), ("l", b"q", 1), ("c", len(basis) - n, n, 4, 8)], n))
    lines, exp = [], []
    for i, (cmds, n) in enumerate(cases):
        d, out = DELTA, b""
        for c in cmds:
            if c[0] == "l":
                d += lit(c[1], c[2])
                out += c[1]
            else:
                d += copy(*c[1:])
                out += basis[c[1]:c[1] + c[2]]
        d += b"\0"
        cb = ["full", "short:4099", "own", "file", "own:5000", "map:70000", "mix:9999", "more:5000"][i % 8]
        exp.append((d, out))
        lines.append("job id=%d kind=patch in=%s basis=%s cb=%s sched=R:%d,%d,%d reps=%d exp=%s expres=0" %
                     (i, ctx.blob(d), ctx.blob(basis), cb, ctx.seed + i, rng.choice([90000, 3000]), rng.choice([70000, 5000, 300000]), 3, ctx.blob(out)))

    def mk(i, r):
        # the produced bytes equal exp natively; TLC decides that exp's lengths follow from the stream's commands
        d, out = exp[i]
        hdrs, p = [], 4
        while d[p]:
            op = d[p]
            h = 1 + ((0 if op <= 64 else (1, 2, 4, 8)[op - 65]) if op < 69 else (1, 2, 4, 8)[(op - 69) // 4] + (1, 2, 4, 8)[(op - 69) % 4])
            body = 0
            if op < 69:
                body = op if op <= 64 else int.from_bytes(d[p + 1:p + h], "big")
            hdrs.append(ba(d[p:p + h]))
            p += h + body
        pieces = [["l", 0, len(c[1])] if c[0] == "l" else ["c", c[1], c[2]] for c in cases[i][0]]
        return {"t": "hdrs", "hdrs": hdrs, "pieces": pieces}
    ctx.conform(lines, mk, lambda i: "(large commands: %s)" % ([c[:1] + ((len(c[1]), c[2]) if c[0] == "l" else c[1:]) for c in cases[i][0]],))


def literals_of_4g(ctx):
    """literals and copies whose length, as a 32-bit number, is zero or nearly"""
    from bigf import sparse
    G = 1 << 32
    b8 = lambda v: ba(v.to_bytes(8, "big"))
    lines, recs, files = [], [], []
    x = ctx.rng.randbytes(40)
    for k, n in enumerate([G] if ctx.quick else [G, G + 1, 2 * G, G - 1]):
        h = b"\x44" + n.to_bytes(8, "big")
        lf = sparse(ctx, "lf%d" % k, 13 + n + 1, [(0, DELTA + h), (13 + n - 40, x)])
        ef = sparse(ctx, "ef%d" % k, n, [(n - 40, x)])
        exp = [[0, b8(0), b8(n - 40)], [1, b8(0), b8(40)]]
        lines.append("bigf kind=patch infile=%s basisfile=%s expfile=%s keep=0 inbuf=%d" % (lf, ef, ef, ctx.rng.choice([0, 1 << 20])))
        recs.append({"t": "vpatch", "hdrs": [ba(h)], "lits": [exp], "basis": [], "exp": exp})
        h = copy(0, n, 1, 8)
        cf = ctx.path("cf%d" % k)
        open(cf, "wb").write(DELTA + h + b"\0")
        lines.append("bigf kind=patch infile=%s basisfile=%s expfile=%s keep=0 outbuf=%d" % (cf, ef, ef, ctx.rng.choice([0, 1 << 20])))
        recs.append({"t": "vpatch", "hdrs": [ba(h)], "lits": [], "basis": exp, "exp": exp})
        files += [lf, ef]
    ctx.conform(lines, lambda i, r: dict(recs[i], res=r["res"]), lambda i: "(%s)" % lines[i], lambda i, r: bool(r.get("crash") or r.get("hang") or r.get("bad") or r.get("res") != DONE), cpu=200, spread=True)
    for f in files:
        os.unlink(f)


def far_patches(ctx):
    """positions beyond 2^31 and 2^32 in a sparse basis file"""
    rng = ctx.rng
    f = ctx.path("far.bin")
    pos = [5, 2 ** 31 - 7, 2 ** 31, 2 ** 31 + 3, 2 ** 32 - 9, 2 ** 32, 2 ** 32 + 5 + 100, 2 ** 33 + 2 ** 31 + 77, 2 ** 34 + 1]
    isl = []
    with open(f, "wb") as h:
        h.truncate(max(pos) + 4096)
        for p in pos:
            x = rng.randbytes(60)
            h.seek(p)
            h.write(x)
            isl.append([ba(p.to_bytes(8, "big")), x])
    # an island may have been overwritten by a near neighbour: read back
    with open(f, "rb") as h:
        for i, p in enumerate(pos):
            h.seek(p)
            isl[i][1] = h.read(60)
    cases = []
    for _ in range(12):
        cmds = []
        for _ in range(rng.randint(1, 5)):
            k = rng.randrange(len(pos))
            cmds.append((k, rng.randint(1, 60)))
        d = DELTA + b"".join(lit(b"-") + copy(pos[k], n, rng.choice([w for w in (4, 8) if w >= minw(pos[k])]), rng.choice([1, 4, 8])) for k, n in cmds) + b"\0"
        cases.append(d)
    lines = ["job id=%d kind=patch in=%s basisfile=%s sched=R:%d,20,30 reps=3 hex=1" % (i, ctx.blob(d), f, i + ctx.seed) for i, d in enumerate(cases)]
    lines += ["file id=f%d kind=patch in=%s basisfile=%s hex=1" % (i, ctx.blob(d), f) for i, d in enumerate(cases)]
    isls = [isl] * len(lines)
    cases += cases
    # callbacks can reach much further than files
    top = [1, 1 << 31, (1 << 40) + 3, (1 << 47) - 20, (1 << 48) + 9, (1 << 55) - 1, (1 << 62) + 5, (1 << 63) - 61]
    far = [(ba(p.to_bytes(8, "big")), rng.randbytes(60)) for p in top]
    vb = "v:%d" % ((1 << 63) - 1) + "".join(",%d=%s" % (p, ctx.blob(x)) for p, (_, x) in zip(top, far))
    for i in range(24):
        d = DELTA
        for k in rng.sample(range(len(top)), 3):
            n = rng.randint(1, 60)
            o = rng.randint(0, 60 - n)
            d += copy(top[k] + o, n, 8 if minw(top[k] + o) > 4 else rng.choice([4, 8]), rng.choice([1, 4, 8])) + lit(b"+")
        cases.append(d + b"\0")
        isls.append(far)
        lines.append("job id=v%d kind=patch in=%s basis=%s cb=%s sched=R:%d,20,%d reps=3 hex=1" % (i, ctx.blob(cases[-1]), vb, ("full", "own:7", "short:9", "mix:3", "zeof:4")[i % 5], i + ctx.seed, rng.choice([3, 30, 200])))

    def mk(i, r):
        return {"t": "farpatch", "in": ba(cases[i]), "isl": [[a, ba(b)] for a, b in isls[i]], "res": r["res"], "out": ba(bytes.fromhex(r["hex"]))}
    ctx.conform(lines, mk, lambda i: "(copies beyond 2 and 4 GB)", data=lambda i: {"delta": cases[i]})
    os.unlink(f)


def huge_patches(ctx):
    """single commands longer than 2^31 and 2^32: the bytes are zeros with islands and
    exist only while a window passes over them; lengths and positions are judged by Far"""
    rng = ctx.rng
    G = 1 << 32
    b8 = lambda v: ba(v.to_bytes(8, "big"))
    size = G + (1 << 28) + 12345
    at = [100, G // 2 - 30, G - 50, G + 70, size - 40]
    isl = [rng.randbytes(40) for _ in at]
    cut = lambda a, n: [(o - a, x) for o, x in zip(at, isl) if a <= o and o + 40 <= a + n]

    def pieces(a, n, first=0):
        out, p = [], a
        for k, o in enumerate(at):
            lo, hi = max(o, a), min(o + 40, a + n)
            if lo < hi:
                out += [[0, b8(0), b8(lo - p)], [k + 1, b8(lo - o), b8(hi - lo)]]
                p = hi
        return out + [[0, b8(0), b8(a + n - p)]]
    vb = "v:%d" % size + "".join(",%d=%s" % (a, ctx.blob(x)) for a, x in zip(at, isl))
    lines, recs = [], []

    def add(d, exp, hdrs, lits, basis, pexp, cb):
        lines.append("job kind=patch in=%s basis=%s cb=%s exp=%s expres=0 sched=C:1048576,1048576" % (d, basis, cb, exp))
        recs.append({"t": "vpatch", "hdrs": [ba(h) for h in hdrs], "lits": lits, "basis": pieces(0, size), "exp": pexp})
    todo = [(50, G // 2 + 77, 4, 4), (G // 2 - 100, G // 2 + 3000, 8, 8), (80, G + 9, 1, 8)] if ctx.quick else [(50, G // 2 + 77, 4, 4), (G // 2 - 100, G // 2 + 3000, 8, 8), (80, G + 9, 1, 8), (0, G, 1, 8), (0, G // 2, 2, 8), (10, G - 1, 2, 4), (0, size, 4, 8)]
    for a, n, wp, wl in todo:
        h = [lit(b"ab")[:1], copy(a, n, wp, wl), copy(at[4], 40)]
        d = DELTA + lit(b"ab") + h[1] + h[2] + b"\0"
        ab = [[6, b8(0), b8(2)]]
        exp = "v:%d" % (2 + n + 40) + ",0=%s" % ctx.blob(b"ab") + "".join(",%d=%s" % (2 + o, ctx.blob(x)) for o, x in cut(a, n)) + ",%d=%s" % (2 + n, ctx.blob(isl[4]))
        # islands cut by the ends of the copy
        for o, x in zip(at, isl):
            lo, hi = max(a, o), min(a + n, o + 40)
            if lo < hi and hi - lo < 40:
                exp += ",%d=%s" % (2 + lo - a, ctx.blob(x[lo - o:hi - o]))
        add(ctx.blob(d), exp, h, [ab], vb, ab + pieces(a, n) + [[5, b8(0), b8(40)]], rng.choice(["full", "own:500000", "short:900000"]))
    # literals
    for n in [G // 2 + 5, G + 3] if ctx.quick else [G // 2 + 5, G + 3, G // 2, G - 1, G]:
        w = 4 if n < G else 8
        h = bytes([0x41 + (1, 2, 4, 8).index(w)]) + enc_num(n, w)
        x = rng.randbytes(30)
        tail = copy(at[0], 40) + b"\0"
        hl = 4 + len(h)
        d = "v:%d,0=%s,%d=%s,%d=%s,%d=%s" % (hl + n + len(tail), ctx.blob(DELTA + h), hl + 10, ctx.blob(x), hl + n - 33, ctx.blob(x), hl + n, ctx.blob(tail))
        exp = "v:%d,10=%s,%d=%s,%d=%s" % (n + 40, ctx.blob(x), n - 33, ctx.blob(x), n, ctx.blob(isl[0]))
        lp = [[0, b8(0), b8(10)], [7, b8(0), b8(30)], [0, b8(0), b8(n - 73)], [7, b8(0), b8(30)], [0, b8(0), b8(3)]]
        add(d, exp, [h, tail[:-1]], [lp], vb, lp + [[1, b8(0), b8(40)]], "full")
    ctx.conform(lines, lambda i, r: dict(recs[i], res=r["res"]), lambda i: "(commands of gigabytes: %s)" % [bytes(h).hex() for h in recs[i]["hdrs"]], cpu=200, spread=True)
    if not ctx.viol:
        x = ctx.last_recs[0]
        ctx.must_reject(dict(x, exp=x["exp"][:-1]))
        ctx.must_reject(dict(x, basis=x["basis"][1:]))
        ctx.cov["gigabyte_commands"] = len(lines)


def malformed(ctx):
    """(delta, basis) pairs that are malformed or truncated, most of them by one defect"""
    rng = ctx.rng
    basis = rng.randbytes(300)
    out = []
    W = (1, 2, 4, 8)
    good = DELTA + lit(b"abc") + copy(5, 20) + lit(rng.randbytes(70)) + copy(100, 30, 4, 8) + lit(b"Q", 8) + b"\0"
    # magic: each byte, sibling formats, short streams
    for k in range(4):
        for v in (0, 1, 0x72, 0x73, 0x80, 0xff, good[k] ^ 1, good[k] ^ 0x80):
            if v != good[k]:
                out.append(good[:k] + bytes([v]) + good[k + 1:])
    for m in MAGIC_LIST:
        out.append(struct.pack(">I", m) + good[4:])
    # truncation at every byte
    for k in range(len(good)):
        out.append(good[:k])
    # undefined opcodes, at the start and after output
    for op in range(0x55, 0x100):
        out.append(DELTA + bytes([op]) + b"\0" * 20)
        out.append(DELTA + lit(b"hello") + copy(1, 9) + bytes([op]) + b"\1" * 17 + b"\0")
    # zero and negative lengths, negative positions, in every encoding
    for w in W:
        out.append(DELTA + lit(b"k") + bytes([0x41 + W.index(w)]) + b"\0" * w + b"rest" + b"\0")
    for top in (0x80, 0xff, 0xc0):
        out.append(DELTA + lit(b"k") + b"\x44" + bytes([top]) + b"\0" * 6 + b"\5" + b"12345" + b"\0")
    for wp in W:
        for wl in W:
            op = bytes([0x45 + 4 * W.index(wp) + W.index(wl)])
            out.append(DELTA + lit(b"k") + op + enc_num(3, wp) + b"\0" * wl + b"\0")
            out.append(DELTA + lit(b"k") + op + enc_num(0, wp) + b"\0" * wl + b"\0")
            if wl == 8:
                for top in (0x80, 0xff):
                    out.append(DELTA + lit(b"k") + op + enc_num(3, wp) + bytes([top]) + b"\0" * 6 + b"\5" + b"\0")
                out.append(DELTA + lit(b"k") + op + enc_num(3, wp) + b"\xff" * 8 + b"\0")
            if wp == 8:
                for top in (0x80, 0xff):
                    out.append(DELTA + lit(b"k") + op + bytes([top]) + b"\0" * 6 + b"\5" + enc_num(3, wl) + b"\0")
                out.append(DELTA + lit(b"k") + op + b"\xff" * 8 + enc_num(3, wl) + b"\0")
            # ranges the basis cannot supply
            for p, n in ((299, 2), (300, 1), (0, 301), (250, 60), (255, 255)):
                if p < 256 ** wp and n < 256 ** wl:
                    out.append(DELTA + lit(b"k") + op + enc_num(p, wp) + enc_num(n, wl) + lit(b"zz") + b"\0")
            for p in (2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 40, 2 ** 63 - 1):
                if p < 256 ** wp:
                    out.append(DELTA + lit(b"k") + op + enc_num(p, wp) + enc_num(9, wl) + b"\0")
            for n in (2 ** 16 + 5, 2 ** 31 - 1, 2 ** 31 + 5, 2 ** 32 - 1, 2 ** 32 + 5, 2 ** 33, 2 ** 63 - 1):
                if n < 256 ** wl:
                    out.append(DELTA + lit(b"k") + op + enc_num(7, wp) + enc_num(n, wl) + b"\0")
    # literals longer than the stream, including ones that wrap if truncated to 16 or 32 bits
    for w in W:
        for n in (6, 200, 2 ** 16 + 4, 2 ** 31 + 4, 2 ** 32 - 1, 2 ** 32 + 4, 2 ** 40 + 4, 2 ** 63 - 1):
            if n < 256 ** w:
                out.append(DELTA + bytes([0x41 + W.index(w)]) + enc_num(n, w) + b"abcd\0")
    return out, basis


def c09(ctx):
    rng = ctx.rng
    bad, basis = malformed(ctx)
    cases = [(d, basis, CBS[i % len(CBS)]) for i, d in enumerate(bad)]
    # the basis is too short by a little or by everything
    for n in (1, 2, 3, 9):
        for miss in range(1, n + 2):
            for cb in CBS:
                b = rng.randbytes(6 + n)
                cases.append((DELTA + lit(b"x") + copy(6 + (miss > n), n) + lit(b"yz") + b"\0", b[:6 + n - min(miss, n)], cb))
    # random streams of plausible command bytes, any verdict
    n = 600 if ctx.quick else 12000
    for _ in range(n):
        b = rng.randbytes(rng.choice([0, 5, 40, 300]))
        d = bytearray(DELTA)
        for _ in range(rng.randint(0, 8)):
            r = rng.random()
            if r < 0.3:
                d += lit(rng.randbytes(rng.randint(1, 6)))
            elif r < 0.5 and b:
                p = rng.randrange(len(b))
                d += copy(p, rng.randint(1, len(b) - p), rng.choice([w for w in (1, 2, 4, 8) if w >= minw(p)]), rng.choice([2, 4, 8]))
            elif r < 0.7:
                d.append(rng.choice([0, 1, 2, 3, 64, 65, 66, 67, 68, 69, 70, 73, 84, 85, 86, 128, 255]))
                d += bytes(rng.choice([0, 0, 0, 1, 2, 128]) for _ in range(rng.randint(0, 9)))
            else:
                d.append(rng.randrange(256))
        if rng.random() < 0.7:
            d.append(0)
        if rng.random() < 0.4:
            k = rng.randrange(len(d))
            d[k] ^= 1 << rng.randrange(8)
        if rng.random() < 0.3:
            del d[rng.randrange(len(d)):]
        cases.append((bytes(d), b, rng.choice(CBS)))
    reps = 6 if ctx.quick else 25
    res = patch_conform(ctx, cases, reps, what="malformed delta")
    if ctx.viol:
        return
    # the same error once more from the file interface
    lines = ["file id=%d kind=patch in=%s basis=%s expres=%d" % (i, ctx.blob(c[0]), ctx.blob(c[1]), res[i]["res"]) for i, c in enumerate(cases) if res[i]["res"] != 100]
    idx = [i for i, c in enumerate(cases) if res[i]["res"] != 100]

    def bad2(k, r):
        e = res[idx[k]]["res"]
        return r.get("crash") or r.get("hang") or (r.get("res") == 0) != (e == 0) or (e in (104, 106) and r.get("res") != e)
    ctx.conform([l.replace(" expres=%d" % res[idx[k]]["res"], "") for k, l in enumerate(lines)], None, lambda k: "(file interface, delta %s)" % cases[idx[k]][0].hex()[:100], bad2)
    x = next(r for r in ctx.last_recs if r["res"] == CORRUPT)
    ctx.must_reject(dict(x, res=0))
    ctx.cov["results_seen"] = {str(k): sum(1 for r in res if r["res"] == k) for k in sorted({r["res"] for r in res})}
    ctx.cov["cases"] = len(cases)
    ctx.cov["schedules_per_case"] = reps


CHECKS = {"C08": c08, "C09": c09}
