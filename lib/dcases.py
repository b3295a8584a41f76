"""Delta scenarios shared by C01, C02, C06, C07, C11, C20."""
from vf import *
from gen import *

M_MD4, M_B2, M_RKMD4, M_RKB2 = MAGIC_LIST
RKINV = pow(RKM, -1, 1 << 32)


def rk_collision(rng, n, target=None):
    """two different n-byte strings with the same RabinKarp sum (target: with that sum)"""
    while True:
        pre = rng.randbytes(n - 6)
        h0 = rk(pre)
        if target is None:
            want = (rk(pre + rng.randbytes(6)))
        else:
            want = target
        # h = (h0*M^3 + L)*M^3 + R, L and R from 3 bytes each
        m3 = pow(RKM, 3, 1 << 32)
        seen = {}
        for _ in range(1 << 17):
            l = rng.randbytes(3)
            lv = (l[0] * RKM * RKM + l[1] * RKM + l[2]) & M32
            seen[((h0 * m3 + lv) * m3) & M32] = l
        sols = set()
        for _ in range(1 << 17):
            r = rng.randbytes(3)
            rv = (r[0] * RKM * RKM + r[1] * RKM + r[2]) & M32
            k = (want - rv) & M32
            if k in seen:
                sols.add(pre + seen[k] + r)
        sols = sorted(sols)
        if target is not None and sols:
            return sols
        if len(sols) >= 2:
            return sols


def roll_collision(rng, n):
    """strings of n >= 3 bytes with equal rollsum: +1 -2 +1 somewhere"""
    a = bytearray(rng.choice(range(60, 200)) for _ in range(n))
    k = rng.randrange(n - 2)
    b = bytearray(a)
    b[k] += 1
    b[k + 1] -= 2
    b[k + 2] += 1
    assert rollsum(a) == rollsum(b) and a != b
    return bytes(a), bytes(b)


def roll_zero(n=512):
    """an n-byte string whose rollsum is 0"""
    # s1 = sum(b+31), s2 = sum (n-i)(b_i+31): adjust greedily then fix
    rng = random.Random(5)
    while True:
        b = bytearray(rng.randrange(60, 190) for _ in range(n))
        s1 = (-(sum(x + 31 for x in b))) & 0xffff
        # spread s1 over bytes
        if s1 > 0x8000:
            s1 -= 0x10000
        i = 0
        step = 1 if s1 > 0 else -1
        guard = 0
        while s1 and guard < 200000:
            if 1 <= b[i % n] + step <= 254:
                b[i % n] += step
                s1 -= step
            i += 1
            guard += 1
        if s1:
            continue
        s2 = (rollsum(b) >> 16)
        d = (-s2) & 0xffff
        if d > 0x8000:
            d -= 0x10000
        # moving one unit from position j to i changes s2 by (j - i)
        guard = 0
        while d and guard < 100000:
            guard += 1
            w = min(abs(d), n - 1, rng.randint(1, n - 1))
            i = rng.randrange(n - w)
            j = i + w
            if d > 0 and b[i] < 255 and b[j] > 0:
                b[i] += 1
                b[j] -= 1
                d -= w
            elif d < 0 and b[j] < 255 and b[i] > 0:
                b[j] += 1
                b[i] -= 1
                d += w
        if rollsum(b) == 0:
            return bytes(b)


def byte_cases(ctx, n):
    """(sig stream, new, basis or None): small byte-level cases"""
    rng = ctx.rng
    out = []
    for i in range(n):
        magic = MAGIC_LIST[i % 4]
        bl = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64])
        alpha = rng.choice([2, 3, 256, 256])
        sl = maxstrong(magic) if rng.random() < 0.6 else rng.randint(1, maxstrong(magic))
        size = rng.choice([bl, bl - 1, bl + 1, 2 * bl, 3 * bl + 1, 7 * bl, rng.randint(0, 9 * bl)])
        basis, new = pair(rng, min(size, 300), bl, alpha)
        new = new[:350]
        sig = mksig(magic, bl, sl, [mkblocksum(magic, basis[k:k + bl], sl) for k in range(0, len(basis), bl)])
        out.append((sig, new, basis))
    return out


def special_cases(ctx):
    """collisions, duplicates, zero sums, near matches, tails"""
    rng = ctx.rng
    out = []

    def add(magic, bl, sl, blocks, new):
        out.append((mksig(magic, bl, sl, [mkblocksum(magic, b, sl) for b in blocks]), new, b"".join(blocks)))
    for magic in MAGIC_LIST:
        mx = maxstrong(magic)
        for bl in (8, 24):
            if magic in (M_MD4, M_B2):
                a, b = roll_collision(rng, bl)
            else:
                a, b = rk_collision(rng, bl)[:2]
            x = rng.randbytes(bl)
            # same weak sum, different strong sum: absent, second, first, both
            for blocks in ([a], [a, b], [b, a], [x, a, x, b], [a] * 5 + [b], [b, x, a, a, b]):
                for new in (a, b, a + b, b + a + b, x + b + a, b"?" + b + b"?" + a + b"!", b[:bl // 2] + b + a):
                    add(magic, bl, rng.choice([mx, 8]), blocks, new)
        # strong sums differing in one byte only: a crafted entry must not match
        bl = 10
        d = rng.randbytes(bl)
        for sl in (1, 2, 7, 8, 9, 15, 16) + ((17, 31, 32) if mx == 32 else ()):
            for pos in sorted({0, sl - 1, sl // 2}):
                e = bytearray(mkblocksum(magic, d, sl))
                e[4 + pos] ^= rng.choice([1, 0x80, 0xff])
                good = mkblocksum(magic, d, sl)
                out.append((mksig(magic, bl, sl, [bytes(e)]), d + b"xy", None))
                out.append((mksig(magic, bl, sl, [bytes(e), good, bytes(e)]), d + d + b"xy", None))
            for pos in range(4):
                e = bytearray(mkblocksum(magic, d, sl))
                e[pos] ^= rng.choice([1, 0x80, 0x40])
                out.append((mksig(magic, bl, sl, [bytes(e)]), d, None))
        # duplicates: the earliest entry is taken
        a, b, c = (rng.randbytes(9) for _ in range(3))
        for blocks in ([a, a], [a, b, a, b], [b, a, a, a, b, c], [c, c, c, a, c, c]):
            for new in (a + a, a + b + a, b + a + b + c, c + c + c + a + c):
                add(magic, 9, mx, blocks, new)
        # tails: short last block, prefix of a block, shorter and longer remainders
        a, b = rng.randbytes(12), rng.randbytes(12)
        t = rng.randbytes(5)
        for tail in (t, t[:4], t + b"x", a[:5], b[:11], a[7:], t[1:], b"x" + t, t + t, t + a, a + t + b, t + b"yy" + t):
            add(magic, 12, mx, [a, b, t], a + tail)
            add(magic, 12, mx, [a, b, t], b"." + tail)
            add(magic, 12, mx, [t], tail)
        # matches at odd distances, so windows overlap
        for k in range(1, 13):
            add(magic, 12, mx, [a, b], a[:k] + a + b[12 - k:] + b)
    # a crowd with the same weak sum, only the strong sums tell them apart
    for magic in MAGIC_LIST:
        for n, at in ((40, (0, 39)), (130, (129, 64)), (300, (299,)), (1100, (1050, 3))):
            sl = rng.choice([3, 8, 16])
            blk = [rng.randbytes(20)]
            w = mkblocksum(magic, blk[0], sl)
            ent = [w[:4] + rng.randbytes(sl) for _ in range(n)]
            for a in at:
                ent[a] = w
            out.append((mksig(magic, 20, sl, ent), b"." + blk[0] + b"--" + blk[0] * 2 + b"!", None))
            out.append((mksig(magic, 20, sl, [e for e in ent if e != w]), b"." + blk[0] + b"--", None))
    # zero weak sums
    z = rk_collision(rng, 24, 0)
    for m in (M_RKMD4, M_RKB2):
        for blocks in ([z[0]], [z[0], rng.randbytes(24)], [rng.randbytes(24), z[0], z[0]]):
            out.append((mksig(m, 24, 16, [mkblocksum(m, x, 16) for x in blocks]), z[0] + b"!" + z[0] + z[0][:20], None))
    rz = roll_zero(300)
    for m in (M_MD4, M_B2):
        for blocks in ([rz], [rng.randbytes(300), rz]):
            out.append((mksig(m, 300, 16, [mkblocksum(m, x, 16) for x in blocks]), rz + b"!!" + rz, None))
    return out


def eq_cases(ctx):
    """every pair over a two-letter alphabet up to these lengths"""
    import itertools
    nb, nn = (4, 5) if ctx.quick else (5, 7)
    for bl in (1, 2, 3):
        for lb in range(1, nb + 1):
            for basis in itertools.product((0, 255), repeat=lb):
                for ln in range(0, nn + 1):
                    for new in itertools.product((0, 255), repeat=ln):
                        yield bytes(basis), bl, bytes(new)


LITS = [1, 2, 63, 64, 65, 255, 256, 257, 1000, 4096, 65532, 65533, 65534, 65535, 65536, 65537, 131065, 131066, 131067]


def sym_case(rng, bl, nblk, big, nfresh=3):
    """(basis pieces, bl, new pieces)"""
    nid = [0]

    def fresh(n):
        nid[0] += 1
        return [nid[0], 0, n]
    last = rng.choice([0, 0, rng.randint(4, bl)]) if bl > 4 else 0
    basis = [fresh(bl * nblk + last)]
    total = bl * nblk + last
    # sometimes repeat blocks inside the basis
    if nblk >= 3 and rng.random() < 0.4:
        k = rng.randrange(1, nblk - 1)
        basis = [[1, 0, bl * k], [1, 0, bl], [1, bl * (k + 1), total - bl * (k + 1)]]
        basis = [p for p in basis if p[2] > 0]

    def cut(a, n):      # basis bytes a..a+n
        r, at = [], 0
        for p in basis:
            lo, hi = max(a, at), min(a + n, at + p[2])
            if lo < hi:
                r.append([p[0], p[1] + lo - at, hi - lo])
            at += p[2]
        return r
    new = []
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.35:
            new.append(fresh(rng.choice(LITS if big else [x for x in LITS if x < 5000])))
        elif r < 0.75:
            k = rng.randrange(max(1, nblk))
            new += cut(k * bl, bl * rng.randint(1, 4))
        elif r < 0.9:
            a = rng.randrange(total)
            new += cut(a, rng.randint(1, 3 * bl))
        elif last:
            new += cut(total - last, last)
    if last and rng.random() < 0.5:
        new += cut(total - last, last)
    if not new:
        new = [fresh(10)]
    return basis, bl, new


def sym_cases(ctx, n):
    rng = ctx.rng
    out = []
    for i in range(n):
        bl = rng.choice([16, 17, 64, 100, 256, 1000, 2048, 4096])
        out.append(sym_case(rng, bl, rng.randint(1, 12), i % 2 == 0))
    # block lengths around the lookahead and literal limits
    for bl in (32768, 65532, 65533, 65535, 65536, 65537, 70001, 131072):
        for _ in range(2 if ctx.quick else 6):
            out.append(sym_case(rng, bl, rng.randint(1, 3), True))
    # matches placed exactly where a literal fills up
    for n1 in (65531, 65532, 65533, 65534, 65535, 65536, 131066, 131067):
        bl = rng.choice([16, 64, 1000])
        out.append(([[1, 0, bl * 4]], bl, [[2, 0, n1], [1, bl, bl], [3, 0, rng.choice([1, 65533, 65534, 65600])], [1, 0, 2 * bl]]))
        out.append(([[1, 0, bl * 4]], bl, [[1, 0, bl], [2, 0, n1], [1, bl * 3, bl]]))
        out.append(([[1, 0, bl * 4]], bl, [[2, 0, n1]]))
    # long copies
    for bl, nb in ((64, 5), (256, 300), (1024, 65), (4096, 17)):
        out.append(([[1, 0, bl * nb + 7]], bl, [[1, 0, bl * nb + 7]]))
        out.append(([[1, 0, bl * nb + 7]], bl, [[2, 0, 5], [1, bl, bl * (nb - 1)], [2, 0, 9], [1, 0, bl * nb]]))
    return out


def big_windows(ctx, kinds):
    """single calls whose windows hold gigabytes (driver op win)"""
    rng = ctx.rng
    G = 1 << 32
    b8 = lambda v: ba(v.to_bytes(8, "big"))
    lines, recs = [], []
    if "delta" in kinds:
        bl = 1 << 16
        sig = mksig(M_MD4, bl, 8, [bytes.fromhex(ctx.run(["job kind=sig in=%s bl=%d sl=8 magic=%d hex=1" % (ctx.blob(bytes(bl)), bl, M_MD4)])[0]["hex"])[12:]])
        for n in [G // 2 + 77] if ctx.quick else [G // 2 - 1, G // 2, G // 2 + 77, G - 1, G, G + 5]:
            lines.append("win kind=delta in=v:%d out=%d" % (n, n + 100))
            recs.append({"t": "win", "n": b8(n), "bl": 0})
        for n in [G // 2 + bl + 9] if ctx.quick else [G // 2 + bl + 1, G // 2, G + bl + 9, G]:
            lines.append("win kind=delta in=v:%d out=%d sig=%s" % (n, 1 << 26, ctx.blob(sig)))
            recs.append({"t": "win", "n": b8(n), "bl": bl})
    if "sig" in kinds:
        for n, bl in [(G // 2 + 12345, 1 << 20)] if ctx.quick else [(G + 12345, 1 << 20), (G // 2 + 7, (1 << 31) - 1), (G // 2 + 7, 4096), (G - 1, 1 << 16)]:
            lines.append("win kind=sig in=v:%d,%d=%s bl=%d sl=8 magic=%d out=%d" % (n, n - 100, ctx.blob(rng.randbytes(60)), bl, rng.choice(MAGIC_LIST), 1 << 28))
            recs.append(None)
    if "patch" in kinds:
        x = rng.randbytes(40)
        for n in [G // 2 + 105] if ctx.quick else [G // 2 - 1, G // 2, G // 2 + 105, G - 1, G, G + 3]:
            h = bytes([0x43 if n < G else 0x44]) + enc_num(n, 4 if n < G else 8)
            hl = 4 + len(h)
            lines.append("win kind=patch in=v:%d,0=%s,%d=%s out=%d exp=v:%d,%d=%s" % (hl + n + 1, ctx.blob(DELTA + h), hl + n - 40, ctx.blob(x), n + 10, n, n - 40, ctx.blob(x)))
            recs.append({"t": "vpatch", "hdrs": [ba(h)], "lits": [[[0, b8(0), b8(n - 40)], [1, b8(0), b8(40)]]], "basis": [], "exp": [[0, b8(0), b8(n - 40)], [1, b8(0), b8(40)]]})
            h = copy(7, n, 1, 8)
            lines.append("win kind=patch in=%s basis=v:%d,%d=%s cb=full out=%d exp=v:%d,%d=%s" % (ctx.blob(DELTA + h + b"\0"), n + 50, n - 33, ctx.blob(x), n + 10, n, n - 40, ctx.blob(x)))
            # the same in two calls, the first with gigabytes of space but less than is to come
            lines.append(lines[-1] + " mid=%d" % rng.choice([n - 100, n - 5, max(n - 100000, G // 2)]))
            for _ in range(2): recs.append({"t": "vpatch", "hdrs": [ba(h)], "lits": [], "basis": [[0, b8(0), b8(n - 33)], [1, b8(0), b8(40)], [0, b8(0), b8(43)]], "exp": [[0, b8(0), b8(n - 40)], [1, b8(0), b8(40)]]})

    def mk(i, r):
        if recs[i] is None:
            return None
        if recs[i]["t"] == "win":
            return dict(recs[i], runs=[[ba(bytes.fromhex(h)), c] for h, c in r["runs"]])
        return dict(recs[i], res=r["res"])
    # at most five at a time: each holds gigabytes
    for k in range(0, len(lines), 5):
        part = lines[k:k + 5]
        ctx.conform(part, lambda i, r: mk(k + i, r), lambda i: "(one call with windows of gigabytes)",
                    lambda i, r: r.get("bad") or r.get("res") != DONE or r.get("dok", 1) != 1 or r.get("calls", 9) > 1, cpu=200, spread=True)
        if ctx.viol:
            return
    ctx.cov["gigabyte_windows"] = len(lines)
