"""C05: signature content."""
from vf import *
from gen import *
from dcases import M_RKB2


def sig_cases(ctx):
    rng = ctx.rng
    cases = []

    def add(data, magic, bl, sl, req=None):
        cases.append((bytes(data), magic, bl, sl, req or (bl, sl, magic)))

    def pat(n, kind):
        if kind == 0:
            return rng.randbytes(n)
        if kind == 1:
            return b"\0" * n
        if kind == 2:
            return b"\xff" * n
        if kind == 3:
            return bytes(0x80 | rng.randrange(128) for _ in range(n))
        if kind == 4:
            return bytes((i * 7) & 0xff for i in range(n))
        return bytes(rng.choice((0, 1, 0x7f, 0x80, 0xff)) for _ in range(n))
    small = [1, 2, 3, 4, 5, 7, 8, 11, 13, 15, 16, 17, 19, 31, 32, 33, 47, 48, 55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 121, 127, 128, 129, 183, 191, 192, 193, 255, 256, 257, 383, 384, 385, 511, 512, 513]
    for magic in MAGIC_LIST:
        mx = maxstrong(magic)
        add(b"", magic, rng.choice([1, 2048]), mx)
        for bl in small:
            nb = 3 if bl < 130 else 2
            n = rng.choice([bl, bl * nb, bl * nb - 1, bl * (nb - 1) + 1, max(0, bl - 1)])
            add(pat(n, rng.choice([0, 0, 3, 5])), magic, bl, rng.choice([mx, mx, rng.randint(1, mx)]))
        for sl in range(1, mx + 1):
            add(pat(rng.randint(0, 40), 0), magic, rng.choice([4, 9, 16]), sl)
        for k in range(6):
            add(pat(200, k), magic, 64, mx)
        add(pat(2048 + 77, 0), magic, 2048, mx)
        # parameters left to the library
        add(pat(rng.choice([0, 5, 2047, 2048, 2049, 5000]), 0), magic, 2048, mx, (0, 0, magic))
        add(pat(rng.choice([0, 5, 2048, 2049, 5000]), 0), magic, 2048, 12, (0, -1, magic))
        add(pat(150, 0), magic, 40, mx, (40, 0, magic))
        add(pat(150, 0), M_RKB2, 40, 7, (40, 7, 0))
        add(pat(65537, 0), magic, 65537 + rng.choice([0, 5]), mx)
        for _ in range(20 if ctx.quick else 400):
            bl = rng.choice(small + [rng.randint(1, 700)])
            n = rng.randint(0, min(900, bl * 5))
            add(pat(n, rng.randrange(6)), magic, bl, rng.randint(1, mx))
        if not ctx.quick:
            for bl in list(range(1, 300)):
                add(pat(bl + rng.randint(0, bl), 0), magic, bl, mx)
            for bl in (70001, 131072):
                add(pat(bl * 2 - 3, 0), magic, bl, mx)
    return cases


def c05(ctx):
    cases = sig_cases(ctx)
    reps = 12 if ctx.quick else 60
    lines = []
    for i, (d, m, bl, sl, req) in enumerate(cases):
        big = len(d) > 4000
        lines.append("job id=%d kind=sig in=%s bl=%d sl=%d magic=%d sched=R:%d,%d,%d reps=%d hex=1" %
                     (i, ctx.blob(d), req[0], req[1], req[2], ctx.seed * 7919 + i, max(3, bl + bl // 2) if not big else 70000, 40, reps))

    def mk(i, r):
        d, m, bl, sl, req = cases[i]
        ctx.sample({"bl": bl, "sl": sl, "magic": hex(m), "data_len": len(d), "signature": r["hex"][:80]})
        return {"t": "sig", "in": ba(d), "magic": ba(struct.pack(">I", m)), "bl": bl, "sl": sl, "out": ba(bytes.fromhex(r["hex"]))}

    def desc(i):
        d, m, bl, sl, req = cases[i]
        return "(signature of %d bytes, block length %d, strong %d, magic %#x; asked for %d, %d, %#x)" % (len(d), bl, sl, m, req[0], req[1], req[2])

    def bad(i, r):
        return r.get("bad") or r.get("res") != DONE
    res = ctx.conform(lines, mk, desc, bad, data=lambda i: {"data": cases[i][0]})
    if ctx.viol:
        return
    recs = ctx.last_recs
    res2 = ctx.conform(lines, None, desc, lambda i, r: bad(i, r) or r["hex"] != res[i]["hex"], variant="asan")
    x = dict(next(r for r in recs if len(r["out"]) > 20))
    x["out"] = x["out"][:-1] + [x["out"][-1] ^ 1]
    ctx.must_reject(x)
    ctx.cov["cases"] = len(cases)
    ctx.cov["schedules_per_case"] = reps


CHECKS = {"C05": c05}
