"""C10: signature loading; the specification is Format!LoadResults, and the
meaning of a loaded signature is judged by the delta it produces (DeltaRef)."""
from vf import *
from gen import *
from dcases import M_B2


def sig_of(rng, magic, bl, sl, data):
    return mksig(magic, bl, sl, [mkblocksum(magic, data[i:i + bl], sl) for i in range(0, len(data), bl)])


def c10(ctx):
    rng = ctx.rng
    cases = []     # (stream, probe or None)
    for magic in MAGIC_LIST:
        mx = maxstrong(magic)
        # truncation at every byte, and every residue of extra bytes
        data = rng.randbytes(23)
        s = sig_of(rng, magic, 8, 5, data)
        for k in range(len(s)):
            cases.append((s[:k], data))
        for k in range(1, 20):
            cases.append((s + bytes(rng.randrange(256) for _ in range(k)), data))
        # every strong length, legal or not
        for sl in list(range(0, 40)) + [64, 127, 128, 255, 256, 257, 0x110, 0x10010, 0x1000005, 0x7fffffff, 0x80000000, 0x80000010, 0xffffffff, 0xfffffff0]:
            body = rng.randbytes(2 * (4 + (sl if sl <= 64 else 16)))
            cases.append((struct.pack(">III", magic, 4, sl) + body, None))
            if 1 <= sl <= mx:
                x = rng.randbytes(11)
                cases.append((sig_of(rng, magic, 4, sl, x), x + b"tail"))
                cases.append((struct.pack(">III", magic, 4, sl), x))
        # block lengths, legal or not
        for bl in (0, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, 0x10001, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0xffff0004):
            body = rng.randbytes(2 * (4 + 6))
            cases.append((struct.pack(">III", magic, bl, 6) + body, None))
        # both wrong, wrong and truncated
        cases.append((struct.pack(">III", magic, 0, 0), None))
        cases.append((struct.pack(">III", magic, 0, 8)[:9], None))
        cases.append((struct.pack(">III", magic, 0xffffffff, 99)[:11], None))
    # magics: neighbours of the known ones, others, zero
    for m in [0, 1, 0x72730236, 0x72730135, 0x72730138, 0x72730145, 0x72730148, 0x72730130, 0x72730140, 0x72730036, 0x72720136, 0x73730136, 0x36017372, 0x47017372,
              0x72730100, 0x727301ff, 0xffffffff, 0x80000000, 0xf2730136, 0x72730156, 0x72730157, 0x00000036, 0x62730136] + [0x72730136 ^ (1 << b) for b in range(32)] + [0x72730147 ^ (1 << b) for b in range(32)]:
        for sl in (8, 16, 17, 32):
            cases.append((struct.pack(">III", m, 16, sl) + rng.randbytes(2 * (4 + sl)), None))
    # well-formed signatures of many shapes with duplicates, behaving as their entries in order
    for _ in range(120 if ctx.quick else 1500):
        magic = rng.choice(MAGIC_LIST)
        bl = rng.choice([1, 2, 3, 4, 5, 8, 16, 17, 33, 64])
        sl = rng.randint(1, maxstrong(magic))
        if sl < 4:
            sl = min(6, maxstrong(magic))
        n = rng.randint(0, 9)
        blocks = [rbytes(rng, bl, 256) for _ in range(n)]
        if n > 2 and rng.random() < 0.6:
            blocks[rng.randrange(n)] = blocks[rng.randrange(n)]
        if n and rng.random() < 0.5:
            blocks[-1] = blocks[-1][:rng.randint(1, bl)]
        s = mksig(magic, bl, sl, [mkblocksum(magic, b, sl) for b in blocks])
        probe = b"".join(rng.choice(blocks + [rng.randbytes(rng.randint(1, 5))]) for _ in range(rng.randint(1, 12)))
        cases.append((s, probe))
        if rng.random() < 0.3:
            t = bytearray(s)
            t[rng.randrange(len(t))] ^= 1 << rng.randrange(8)
            cases.append((bytes(t), None))
    # many entries: the table has to grow
    for n in (15, 16, 17, 31, 32, 33, 100, 257) + (() if ctx.quick else (1000, 4097)):
        magic = rng.choice(MAGIC_LIST)
        bl, sl = rng.choice([7, 16]), rng.choice([8, 13, 16])
        blocks = [rng.randbytes(bl) for _ in range(n)]
        blocks[-1] = blocks[-1][:5]
        s = mksig(magic, bl, sl, [mkblocksum(magic, b, sl) for b in blocks])
        probe = b"".join(blocks[k] for k in (0, 1, 2, n - 2, n // 2, n // 2 + 1, 14, 0)) + b"#" + blocks[rng.randrange(n - 1)] + blocks[-1]
        cases.append((s, probe))
    for _ in range(200 if ctx.quick else 3000):
        hdr = struct.pack(">III", rng.choice(MAGIC_LIST + [rng.getrandbits(32)]), rng.choice([1, 7, rng.getrandbits(32)]), rng.choice([4, 8, 16, 32, rng.getrandbits(5), rng.getrandbits(32)]))
        cases.append(((hdr + rng.randbytes(rng.randint(0, 80)))[:rng.randint(0, 92)], None))
    reps = 8 if ctx.quick else 30
    lines = []
    for i, (s, probe) in enumerate(cases):
        lines.append("job id=%d kind=load in=%s sched=R:%d,%d,%d reps=%d probe=%s" %
                     (i, ctx.blob(s), ctx.seed * 31 + i, rng.choice([3, 9, 40, max(1, len(s))]), rng.choice([1, 30]), reps, ctx.blob(probe or b"")))

    def mk(i, r):
        s, probe = cases[i]
        ctx.sample({"stream": s.hex()[:80], "len": len(s), "res": r["res"]})
        out = [{"t": "load", "in": ba(s), "res": r["res"]}]
        if r["res"] == DONE and probe and len(s) > 12:
            if r.get("pres") != 0:
                return [{"t": "load", "in": ba(s), "res": 999}]
            out.append({"t": "match", "sig": ba(s), "new": ba(probe), "out": ba(bytes.fromhex(r["phex"]))})
        return out

    def desc(i):
        return "(loading %d bytes: %s)" % (len(cases[i][0]), cases[i][0].hex()[:90])
    dat = lambda i: {"signature": cases[i][0], "probe": cases[i][1] or b""}
    res = ctx.conform(lines, mk, desc, data=dat)
    if ctx.viol:
        return
    ctx.must_reject(dict(ctx.last_recs[0], res=0))
    ok = next(r for r in ctx.last_recs if r["t"] == "load" and r["res"] == 0)
    ctx.must_reject(dict(ok, res=106))
    # the file interface (which also presizes from the file's length) agrees
    fl = ["file id=%d kind=load in=%s inkind=%s inchunk=%d inbuf=%d probe=%s" %
          (i, ctx.blob(c[0]), ("reg", "cookie", "pipe")[i % 3], (0, 5, 0)[i % 3], rng.choice([0, 1, 7, 13, 100]), ctx.blob(c[1] or b"")) for i, c in enumerate(cases)]

    def fbad(i, r):
        if r.get("crash") or r.get("hang"):
            return True
        # result is judged below through the record; content compared with the streaming load
        return False

    def fmk(i, r):
        return {"t": "load", "in": ba(cases[i][0]), "res": r["res"]}
    fres = ctx.conform(fl, fmk, lambda i: "(file interface)" + desc(i), fbad, data=dat)
    if ctx.viol:
        return
    # loaded entries behave the same however the stream was delivered
    def pbad(i, r):
        if r.get("crash") or r.get("hang"):
            return True
        want = bytes.fromhex(res[i].get("phex", "")) if cases[i][1] else b""
        return res[i]["res"] == DONE and cases[i][1] and len(cases[i][0]) > 12 and bytes.fromhex(r.get("hex", "")) != want
    ctx.conform([l + " hex=1" for l in fl], None, lambda i: "(delta with the signature loaded by the file interface)" + desc(i), pbad, data=dat)
    # signatures of many thousand entries, whole and cut short
    lines = []
    for n, sl in ((5000, 8), (70000, 4), (4097, 32)):
        s = mksig(M_B2, 64, sl, [rng.randbytes(4 + sl) for _ in range(n)])
        for cut in (0, 1, sl, sl + 3, 4 + sl):
            lines.append("job kind=load in=%s sched=%s expres=%d" % (ctx.blob(s[:len(s) - cut]), rng.choice(["one", "C:4096,0", "C:999,0", "C:70001,10"]), DONE if cut in (0, 4 + sl) else INPUT_ENDED))
            lines.append(lines[-1].replace("job ", "file ").replace("sched=", "x="))
    ctx.conform(lines, None, lambda i: "(signature of thousands of entries)")
    from chk_delta import far_copies
    if ctx.viol:
        return
    far_copies(ctx, True)
    ctx.cov["results_seen"] = {str(k): sum(1 for r in res if r["res"] == k) for k in sorted({r["res"] for r in res})}
    ctx.cov["cases"] = len(cases)
    ctx.cov["schedules_per_case"] = reps


from chk_delta import with_vast
CHECKS = {"C10": with_vast(c10)}
