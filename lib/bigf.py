"""Whole-file operations on files beyond 4 GB (sparse, in memory)."""
from vf import *
from gen import *
from dcases import *

KEYS = ("lit_cmds", "lit_bytes", "lit_cmdbytes", "copy_cmds", "copy_bytes", "copy_cmdbytes", "in_bytes", "out_bytes")
b8 = lambda v: list(struct.pack(">Q", v & (1 << 64) - 1))


def sparse(ctx, name, size, islands=()):
    p = ctx.path(name)
    with open(p, "wb") as f:
        f.truncate(size)
        for at, d in islands:
            f.seek(at)
            f.write(d)
    return p


def headers(d):
    """the command headers of a complete delta; [[255]] if it is not one"""
    if d[:4] != DELTA:
        return [[255]]
    p, out = 4, []
    while p < len(d) and d[p]:
        c = d[p]
        if c <= 0x40:
            w, n = 1, c
        elif c <= 0x44:
            w = 1 + (1 << (c - 0x41))
            n = int.from_bytes(d[p + 1:p + w], "big")
        elif c <= 0x54:
            w, n = 1 + (1 << ((c - 0x45) >> 2)) + (1 << ((c - 0x45) & 3)), 0
        else:
            return [[255]]
        out.append(list(d[p:p + w]))
        p += w + n
    return out if p == len(d) - 1 else [[255]]


def bigstat(kind, nin, r, hdrs):
    s = r["stats"]
    return {"t": "bigstat", "kind": kind, "nin": b8(nin), "nout": b8(r["olen"]), "blocks": s["sig_blocks"], "bl": s["block_len"], "hdrs": hdrs, "s": [b8(s[k]) for k in KEYS]}


def roundtrip(ctx, tag, old, nold, new, nnew, bl, sl, magic, opts=("", "", "")):
    """signature, delta, patch; list of (step, line, result); later steps only while earlier ones finish"""
    out = []
    sg, dl = ctx.path(tag + ".sig"), ctx.path(tag + ".delta")

    def step(kind, line):
        r = ctx.run([line], cpu=200)[0]
        out.append((kind, line, r))
        return r.get("res") == DONE and not r.get("bad")
    if step("sig", "bigf kind=sig infile=%s bl=%d sl=%d magic=%d save=%s %s" % (old, bl, sl, magic, sg, opts[0])) and \
       step("delta", "bigf kind=delta infile=%s sig=%s save=%s hex=1 %s" % (new, sg, dl, opts[1])):
        step("patch", "bigf kind=patch infile=%s basisfile=%s expfile=%s %s" % (dl, old, new, opts[2]))
    return out


def stamped(ctx, bl, rng):
    """old and new data beyond 4 GB of blocks that all differ, most of the new data one copy; the commands expected"""
    nb = (1 << 32) // bl + 4
    stamps = [(k * bl + 16 * (k % 8), rng.randbytes(8)) for k in range(nb)]
    n = nb * bl + bl // 3
    tail = rng.randbytes(bl // 3)
    old = sparse(ctx, "stamped-old", n, stamps + [(n - len(tail), tail)])
    m = (nb - 2) * bl                     # all but the first block and the last whole one
    isl = [(a - bl, x) for a, x in stamps if bl <= a < m + bl]
    isl += [(m, b"some text")]            # then text, the last block, the second block, and the tail that is left
    p = m + 9
    isl += [(p + stamps[-1][0] % bl, stamps[-1][1]), (p + bl + stamps[1][0] % bl, stamps[1][1]), (p + 2 * bl, tail)]
    nn = p + 2 * bl + len(tail)
    new = sparse(ctx, "stamped-new", nn, isl)
    cmds = [["copy", b8(bl), b8(m)], ["lit", b8(0), b8(9)], ["copy", b8((nb - 1) * bl), b8(bl)], ["copy", b8(bl), b8(bl)], ["copy", b8(nb * bl), b8(len(tail))]]
    return old, n, new, nn, cmds


def stamped_run(ctx):
    rng = random.Random(ctx.seed * 5 + 1)
    old, n, new, nn, cmds = stamped(ctx, 1 << 18, rng)
    res = roundtrip(ctx, "stamped", old, n, new, nn, 1 << 18, 8, rng.choice([M_MD4, M_RKMD4]), ("", "inbuf=%d" % rng.choice([0, 4000000]), "outbuf=%d" % rng.choice([0, 100000])))
    os.unlink(old)
    os.unlink(new)
    return n, nn, cmds, res


def with_stamped(check):
    """the check, and meanwhile data beyond 4 GB most of which is one copy"""
    def f(ctx):
        ctx.prog("drv", "plain")
        with ThreadPoolExecutor(1) as ex:
            got = ex.submit(stamped_run, ctx)
            check(ctx)
            n, nn, cmds, res = got.result()
        if ctx.viol:
            return
        for kind, line, r in res:
            if r.get("res") != DONE or r.get("bad"):
                ctx.violation("data beyond 4 GB that is mostly one copy does not come back: %s" % str({k: v for k, v in r.items() if k != "hex"})[:300], {"scenario": line, "observed": {k: v for k, v in r.items() if k != "hex"}})
                return
        rec = {"t": "longcopy", "hdrs": headers(bytes.fromhex(res[1][2]["hex"])), "cmds": cmds}
        for k, why in ctx.judge([rec]).items():
            ctx.violation("%s (a delta that is mostly one copy of more than 4 GB)" % why, {"scenario": res[1][1], "observed": rec})
        if not ctx.viol:
            ctx.must_reject([dict(rec, hdrs=rec["hdrs"][:1] + rec["hdrs"]), dict(rec, hdrs=[rec["hdrs"][0][:-1] + [rec["hdrs"][0][-1] ^ 1]] + rec["hdrs"][1:])])
        ctx.cov["bytes of the longest copy"] = (1 << 32) + (2 << 18)
    return f
