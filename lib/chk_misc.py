"""C12 C13 C16 C18 C19: the building blocks.  Each has its own specification
(WeakModel/WeakTrace, HtModel/HtTrace, SigArgs, Hashes, JudgeMisc)."""
from vf import *
from gen import *

P = "drv_misc"


def words(v):
    return [v >> 16 & 0xffff, v & 0xffff]


# ---------------------------------------------------------------- C12
def weak_ops(rng, n, steps, big):
    """random legal operation sequence over n bytes; list of tokens"""
    a = b = 0
    out = []
    mode = rng.choice(["mix", "slide", "grow", "edge"])
    for _ in range(steps):
        c = []
        if b < n:
            c += ["i", "u"]
            if b > a:
                c += ["r"] * (6 if mode == "slide" else 2)
        if b > a:
            c += ["o"] * (1 if mode == "grow" else 2)
        c += ["z"] if rng.random() < (0.05 if mode != "edge" else 0.3) else []
        if not c:
            c = ["z"]
        t = rng.choice(c)
        if t == "u":
            k = min(n - b, rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, rng.randint(0, big)]))
            out.append("u%d" % k)
            b += k
        else:
            out.append(t)
            if t in "ir":
                b += 1
            if t in "or":
                a += 1
            if t == "z":
                a = b
    return out


def tok(t):
    return (t[0], int(t[1:]) if t[0] == "u" else 0)


def c12(ctx):
    rng = ctx.rng
    ctx.model("WeakModel", "SPECIFICATION Spec\nCONSTANTS\n Bytes = {0, 1, 128, 255}\n MaxLen = %d\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n" % (6 if ctx.quick else 8), name="WeakModel")
    lines, meta = [], []

    def add(kind, data, ops):
        lines.append("weak kind=%d in=%s ops=%s" % (kind, ctx.blob(data), ctx.blob((" ".join(ops) + "\n").encode())))
        meta.append((kind, data))
    for kind in (0, 1):
        # append of every length 0..80 (unrolled loops), also from a non-empty window
        for n in range(0, 81):
            d = rng.randbytes(n + 3)
            add(kind, d, ["u%d" % n] + (["u3"] if n % 2 else ["i", "r", "o", "i"]))
        for v in (0, 1, 127, 128, 254, 255):
            d = bytes([v]) * 60
            add(kind, d, ["u5", "r", "r", "o", "i", "u20", "r", "o", "o", "z", "u16", "r", "o", "u7"])
            d = bytes([v, 255 - v]) * 30
            add(kind, d, ["i"] * 10 + ["r"] * 10 + ["o"] * 9 + ["u17", "o", "r"])
        # every byte value in and out
        d = bytes(range(256)) + bytes(range(256))
        add(kind, d, ["u40"] + ["r"] * 256)
        add(kind, d, sum([["i", "o"] for _ in range(256)], []))
        for _ in range(250 if ctx.quick else 3000):
            n = rng.choice([5, 20, 60, 200])
            data = rng.choice([rng.randbytes(n), bytes(rng.choice([0, 255, 128]) for _ in range(n)), bytes([rng.randrange(256)]) * n])
            add(kind, data, weak_ops(rng, n, rng.choice([5, 20, 60]), 60))

    def mk(i, r):
        k, d = meta[i]
        return {"kind": k, "in": ba(d), "ops": [[*tok(s[0]), s[1], s[2], s[3]] for s in r["steps"]]}
    ctx.conform(lines, mk, lambda i: "(%s, a history of appends, slides and drops)" % ("RabinKarp" if meta[i][0] else "rollsum"), prog=P, module="WeakTrace", per=lambda rs: sum(len(r["ops"]) + 1 for r in rs))
    if ctx.viol:
        return
    rec = dict(next(r for r in ctx.last_recs if r["kind"] == 0 and len(r["ops"]) > 5))
    rec["ops"] = [list(o) for o in rec["ops"]]
    rec["ops"][-1][4] ^= 1
    ctx.must_reject(rec, "WeakTrace", per=lambda rs: sum(len(r["ops"]) + 1 for r in rs))
    # long windows as runs of bytes: judged by closed forms
    lines, meta = [], []
    for kind in (0, 1):
        for t in range(12 if ctx.quick else 60):
            runs = [(rng.choice([0, 255, 1, rng.randrange(256)]), rng.choice([1, 500, 65535, 65536, 65537, 100000, 300000, 1 << 20]) + rng.randint(0, 9)) for _ in range(rng.randint(1, 4))]
            data = b"".join(bytes([v]) * n for v, n in runs)
            n = len(data)
            # reach the final window by different routes
            pre = rng.choice([0, 3, 70000])
            full = rng.randbytes(pre) + data
            ops = ["u%d" % pre] + ["u%d" % x for x in split(rng, n)] + ["o"] * pre if pre <= 70000 and t % 3 else ["u%d" % pre, "z"] + ["u%d" % x for x in split(rng, n)]
            if t % 3 == 2 and pre:
                # slide instead of append then drop
                ops = ["u%d" % min(pre, n)] + []
                w = rng.choice([700, 5000])
                full = rng.randbytes(w) + data[-w:] if n >= w else full
                if n >= w:
                    ops = ["u%d" % w] + ["r"] * w
                    runs = []
                    for x in data[-w:]:
                        if runs and runs[-1][0] == x:
                            runs[-1] = (x, runs[-1][1] + 1)
                        else:
                            runs.append((x, 1))
                else:
                    ops = ["u%d" % pre, "z", "u%d" % n]
            lines.append("weak every=0 kind=%d in=%s ops=%s" % (kind, ctx.blob(full), ctx.blob((" ".join(ops + ["d"]) + "\n").encode())))
            meta.append((kind, runs))
    ctx.conform(lines, lambda i, r: {"t": "runs", "kind": meta[i][0], "runs": [list(x) for x in meta[i][1]], "count": r["steps"][-1][1], "hi": r["steps"][-1][2], "lo": r["steps"][-1][3]},
                lambda i: "(long window)", prog=P, module="JudgeMisc")
    ctx.sample({"scenario": lines[0][:200], "runs": meta[0][1]})
    if ctx.viol:
        return
    # appends of one long run: every power of two, and after other bytes
    lines, meta = [], []
    for kind in (0, 1):
        for k in list(range(14, 28 if ctx.quick else 31)) + [29]:
            for d in (0, -1, 1):
                n = (1 << k) + d
                lead = rng.choice([[], [(7, 3)], [(255, 40), (1, 2)]])
                tail = rng.choice([[], [(9, 2)]])
                data = b"".join(bytes([v]) * c for v, c in lead)
                ops = ["u%d" % len(data)] * bool(data) + ["m%d" % n] + ["w%d" % v for v, c in tail for _ in range(c)]
                runs = lead + [(0, n)] + tail
                for _ in range(rng.randint(1, 3)):
                    v, c = runs[0]
                    runs = ([(v, c - 1)] if c > 1 else []) + runs[1:]
                    if rng.random() < 0.5:
                        ops.append("y%d" % v)
                    else:
                        w = rng.randrange(256)
                        ops.append("t%d/%d" % (v, w))
                        runs.append((w, 1))
                ops.append("q")
                lines.append("weak every=0 kind=%d in=%s ops=%s" % (kind, ctx.blob(data), ctx.blob((" ".join(ops) + "\n").encode())))
                meta.append((kind, runs))
    ctx.conform(lines, lambda i, r: {"t": "runs", "kind": meta[i][0], "runs": [list(x) for x in meta[i][1]], "count": r["steps"][-1][1], "hi": r["steps"][-1][2], "lo": r["steps"][-1][3]},
                lambda i: "(window of runs %s)" % meta[i][1], prog=P, module="JudgeMisc", cpu=60)
    ctx.assumptions.append("the arithmetic of the specification works on 16-bit halves; windows up to a few megabytes are exercised")


def split(rng, n):
    out = []
    while n > 0:
        k = min(n, rng.choice([1, 17, 4096, 65535, 65536, 1 << 20, n]))
        if len(out) > 50:
            k = n
        out.append(k)
        n -= k
    return out


# ---------------------------------------------------------------- C13
def unmix(h):
    """inverse of the table's integer mixer (only to name a pair of aliased hashes)"""
    M = 0xffffffff
    i1 = pow(0x85ebca6b, -1, 1 << 32)
    i2 = pow(0xc2b2ae35, -1, 1 << 32)
    h ^= h >> 16
    h = h * i2 & M
    h ^= h >> 13 ^ h >> 26
    h = h * i1 & M
    h ^= h >> 16
    return h & M


ALIAS = {0: [[0, 0], [65535, 65535]]}
ALIAS[1] = [[0, 0], words(unmix(0xffffffff))]

HTCFG = """SPECIFICATION Spec
CONSTANTS
 Size = %d
 His = %s
 Los = %s
 Classes = %s
INVARIANTS FindRight Complete KeepsRoom ChainsCover %s
CHECK_DEADLOCK FALSE
"""


def tlaset(s):
    return "{" + ", ".join(str(x) for x in s) + "}"


def htbits(req):
    """table size the specification of the harness assumes for picking clustered hashes only"""
    n = 1 + req * 10 // 7
    b = 1
    while (1 << b) < n:
        b += 1
    return b


def c13(ctx):
    rng = ctx.rng
    hists = []
    for size, his, los, cls in ((2, range(2), range(2), (1, 2)), (4, range(4), range(4), (1, 2)), (8, (0, 5), (0, 7), (1,)) if ctx.quick else (8, (0, 7), (0, 7), (1, 2)),
                                (8, (6,), (2, 3), (1, 2)) if ctx.quick else (8, (0, 6), (2, 3, 4, 5), (1,))):
        r = ctx.model("HtModel", HTCFG % (size, tlaset(his), tlaset(los), tlaset(cls), "Emit"), name="HtModel size %d" % size, heap="8g", timeout=3000)
        hs = []
        for m in re.finditer(r'<<\s*"HIST",\s*(<<[\s0-9,<>]*>>)\s*>>', r["out"]):
            v = [int(x) for x in re.findall(r"\d+", m.group(1))]
            hs.append((size, [tuple(v[k:k + 3]) for k in range(0, len(v), 3)]))
        if len(hs) > (4000 if ctx.quick else 60000):
            hs = rng.sample(hs, 4000 if ctx.quick else 60000)
        hists += hs
    ctx.cov["model_histories_replayed"] = len(hists)
    lines, meta = [], []

    def add(size, mix, ops):
        lines.append("ht size=%d mix=%d maxent=%d ops=%s" % (size, mix, 4096, ctx.blob(("\n".join(ops) + "\n").encode())))
        meta.append((size, mix))
    # the model's histories; the model hash <<hi, lo>> has its filter index in the top
    # bits and its slot in the low bits
    req = {2: 0, 4: 2, 8: 4}     # requested capacity whose table has that many slots
    for size, h in hists:
        bits = size.bit_length() - 1

        def conc(hi, lo, top=size - 1):
            if (hi, lo) == (0, 0):
                return 0
            if (hi, lo) == (size - 1, size - 1):
                return 0xffffffff
            return hi << (32 - bits) | lo
        ops = []
        allh = sorted({(a, b) for a, b, _ in h})
        for a, b, c in h:
            ops.append("a %d %d" % (conc(a, b), c))
        for a, b in allh + [(rng.randrange(size), rng.randrange(size)) for _ in range(2)]:
            for c in (1, 2):
                ops.append("f %d %d" % (conc(a, b), c))
        ops.append("i")
        ops.append("a 12345 1")
        ops.append("f %d %d" % (conc(*h[0][:2]), h[0][2]))
        ops.append("f 12345 1")
        ops.append("i")
        add(req[size], 0, ops)
    nmod = len(lines)
    # larger tables, random and clustered hashes, finds between insertions, overfilled
    for t in range(300 if ctx.quick else 3000):
        size = rng.choice([0, 1, 2, 3, 5, 6, 7, 10, 11, 12, 22, 44, 45, 90, 100] + ([] if t % 4 else [300, 700]))
        bits = htbits(size)
        mode = rng.choice(["rand", "low", "high", "same", "zero", "few"])
        pool = {"rand": [rng.getrandbits(32) for _ in range(max(1, size))], "low": [rng.getrandbits(32) & ~((1 << bits) - 1) & 0xffffffff for _ in range(max(1, size))],
                "high": [rng.getrandbits(bits) for _ in range(max(1, size))], "same": [rng.getrandbits(32)], "zero": [0, 1, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 0x80000001, 0xffff, 0x10000, 0xff, 0x100, 0xff000000, 0xffff0000],
                "few": [rng.getrandbits(32) for _ in range(3)] + [0]}[mode]
        if mode == "zero":
            pool = rng.choice([pool, [0], [0xffffffff], [0, 1 << bits], [unmix(0), unmix(0xffffffff), 5]])
        cl = rng.choice([1, 2, 4, 1000])
        ops, cur = [], []
        over = rng.random() < 0.4
        target = (1 << bits) + 3 if over else rng.randint(0, size)
        n = 0
        while n < min(target, 900):
            if rng.random() < 0.6:
                h, c = rng.choice(pool), rng.randint(1, cl)
                ops.append("a %d %d" % (h, c))
                cur.append((h, c))
                n += 1
            elif rng.random() < 0.05:
                ops.append("i")
            elif rng.random() < 0.02:
                ops.append("s")
            else:
                if cur and rng.random() < 0.7:
                    h, c = rng.choice(cur)
                    if rng.random() < 0.3:
                        c = rng.randint(1, cl + 1)
                else:
                    h, c = rng.choice(pool + [rng.getrandbits(32)]), rng.randint(1, cl)
                ops.append("f %d %d" % (h, c))
        for h, c in rng.sample(cur, min(len(cur), 80)) + [(0, 1), (0xffffffff, 1), (rng.getrandbits(32), 1)]:
            ops.append("f %d %d" % (h, c))
        ops.append("i")
        add(size, t % 2, ops)

    # single special hashes, with and without company
    for size in (1, 2, 10, 60):
        for mix in (0, 1):
            for h in [0, 1, 2, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0xffff, 0x10000, 0x55555555] + [1 << k for k in range(32)] + [unmix(x) for x in (0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff)]:
                o = [rng.getrandbits(32) for _ in range(2)]
                ops = ["f %d 1" % h, "a %d 1" % h, "f %d 1" % h, "f %d 2" % h, "f %d 1" % (h ^ 1)]
                for x in o[:size - 1]:
                    ops += ["a %d 1" % x, "f %d 1" % x, "f %d 1" % h]
                add(size, mix, ops + ["i"])
    # a capacity beyond what 32-bit arithmetic on the size can hold (pages are only touched where used)
    for size in (214748365, 300000000):
        hs = [rng.getrandbits(32) for _ in range(200)]
        add(size, size & 1, ["a %d %d" % (h, 1) for h in hs] + ["f %d 1" % h for h in hs[:100]])

    def mk(i, r):
        if "nomem" in r and meta[i][0] > 1000000:
            return None         # refusing to create it is fine
        if "nomem" in r:
            return {"size": meta[i][0], "alias": ALIAS[meta[i][1]], "ops": [["a", 0, 0, 0, -1]]}
        return {"size": meta[i][0], "alias": ALIAS[meta[i][1]], "ops": [o for o in r["ops"] if o[0] != "s"]}
    per = lambda rs: sum(len(r["ops"]) + 1 for r in rs)
    ctx.conform(lines, mk, lambda i: "(table of requested size %d, %s)" % (meta[i][0], "history generated from HtModel" if i < nmod else "random history"), prog=P, module="HtTrace", per=per)
    if ctx.viol:
        return
    # big tables, in closed form
    bl, bm = [], []
    for t in range(14 if ctx.quick else 60):
        n = rng.choice([60001, 65535, 65536, 65537, 100000, 131072, 200000, 300000] if t else [1000000]) + rng.randint(0, 3)
        if not ctx.quick and t in (1, 2):
            n = 20000000
        size = rng.choice([n, n, n + n // 3])
        mult = rng.choice([1, 0x10001, 2654435761, rng.getrandbits(32) | 1, 3])
        base = rng.getrandbits(32)
        mix = 1 if t % 4 else 0
        bl.append("htbig mix=%d size=%d n=%d mult=%d base=%d miss=%d step=%d" % (mix, size, n, mult, base, n // 2, max(1, n // 400)))
        bm.append((n, mult, base))
    w = lambda v: [v >> 16, v & 0xffff]

    def mkb(i, r):
        if "nomem" in r:
            return {"t": "htbig", "n": bm[i][0], "mult": w(bm[i][1]), "base": w(bm[i][2]), "finds": [], "refused": bm[i][0], "wrong": 0, "dup": 0, "visited": 0}
        return {"t": "htbig", "n": bm[i][0], "mult": w(bm[i][1]), "base": w(bm[i][2]), "finds": r["finds"], "refused": r["refused"], "wrong": r["wrong"], "dup": r["dup"], "visited": r["visited"]}
    hist_recs = ctx.last_recs
    ctx.conform(bl, mkb, lambda i: "(table of %d entries)" % bm[i][0], prog=P, module="JudgeMisc", cpu=120, spread=True)
    if ctx.viol:
        return
    b = dict(ctx.last_recs[0], finds=[list(x) for x in ctx.last_recs[0]["finds"]])
    b["finds"][5][3] = -1
    ctx.must_reject(b, "JudgeMisc")
    ctx.cov["entries in the biggest tables"] = max(x[0] for x in bm)
    # part of the histories again under the sanitizers
    sub = [i for i in range(len(lines)) if (i < nmod and i % 40 == 0) or (i >= nmod and i % 4 == 0)]
    sub = [i for i in sub if meta[i][0] < 1000000]
    ctx.conform([lines[i] for i in sub], lambda i, r: mk(sub[i], r), lambda i: "(table of requested size %d)" % meta[sub[i]][0], prog=P, module="HtTrace", per=per, variant="asan")
    if ctx.viol:
        return
    ctx.last_recs = hist_recs
    for pick in ("f", "i"):
        rec = next(r for r in ctx.last_recs if any(o[0] == pick and o[-1] >= 0 and len(o) > 4 for o in r["ops"]))
        rec = {"size": rec["size"], "alias": rec["alias"], "ops": [list(o) for o in rec["ops"]]}
        o = next(o for o in rec["ops"] if o[0] == pick and len(o) > 4 and o[-1] >= 0)
        o[-1] = 77777
        ctx.must_reject(rec, "HtTrace", per=per)
    ctx.sample({"scenario": lines[0], "history": hists[0]})
    ctx.sample({"scenario": lines[-1]})
    ctx.assumptions.append("hash values 0 and the one that maps to all ones share a representation in the table by design; either answer is accepted when only those two are confused")


# ---------------------------------------------------------------- C16
def le8(v):
    return list(struct.pack("<Q", v & (1 << 64) - 1))


def c16(ctx):
    rng = ctx.rng
    sizes = {None, 0, 1, 2, 255, 256, 257, 65535, 65536, 65537}
    for k in range(0, 61):
        for d in (-1, 0, 1):
            sizes.add(max(0, min(1 << 60, (1 << k) + d)))
    for k in range(2, 8192 if not ctx.quick else 400):
        b = 128 * k
        for d in (-1, 0, 1):
            sizes.add(b * b + d)
    for _ in range(300 if ctx.quick else 5000):
        b = rng.randrange(1, 1 << rng.randint(1, 30))
        for d in (-1, 0, 1):
            sizes.add(max(0, min(1 << 60, b * b + d)))
        sizes.add(rng.randrange(0, 1 << rng.randint(1, 60)))
    # where the minimum strong length steps: size + 2^24 and the number of blocks near powers of two
    for k in range(0, 61):
        for d in (-1, 0, 1):
            sizes.add(max(0, min(1 << 60, (1 << k) - (1 << 24) + d)))
    sizes = sorted(s for s in sizes if s is not None) + [None]
    cases = []
    U = (1 << 64) - 1
    for s in sizes:
        m = rng.choice(MAGIC_LIST + [0])
        cases.append((s, m, 0, rng.choice([0, U])))
        cases.append((s, m, 0, U))
    for s in rng.sample(sizes, 150) + [None, 0]:
        for m in MAGIC_LIST + [0]:
            mx = 32 if m == 0 else maxstrong(m)
            cases.append((s, m, rng.choice([1, 2, 3, 100, 255, 2048, 65536, 1 << 20, (1 << 31) - 1]), rng.choice([0, U, 1, mx, rng.randint(1, mx)])))
    # explicit block length decides the number of blocks, hence the minimum
    for k in range(0, 31):
        for s in ((1 << 40), (1 << 33) - 1, (1 << 60), 5, 1 << 24, None):
            for d in (-1, 0, 1):
                b = (1 << k) + d
                if 1 <= b <= (1 << 31) - 1:
                    cases.append((s, rng.choice(MAGIC_LIST), b, U))
    for m in MAGIC_LIST + [0]:
        for sl in list(range(0, 40)) + [64, 128, 255, 256, 0x100000001, 1 << 31, 1 << 32, (1 << 32) - 1, U, U - 1, 1 << 63]:
            for s in (None, 1000):
                cases.append((s, m, rng.choice([0, 700]), sl))
    for bl in (1, (1 << 31) - 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 256, 1 << 40, U, U - 1, 1 << 63):
        for m in MAGIC_LIST + [0]:
            for s in (None, 0, 1 << 33):
                cases.append((s, m, bl, rng.choice([0, 8, U])))
    for m in [1, 2, 0x72730236, 0x72730135, 0x72730138, 0x72730145, 0x72730148, 0x36017372, 0xffffffff, 0x80000000, 0x72730137 ^ 0x100, 0x73730137] + [rng.getrandbits(32) for _ in range(30)]:
        for sl in (0, 8, U, 33, 17):
            cases.append((rng.choice([None, 100, 1 << 30]), m, rng.choice([0, 5]), sl))
    lines = ["sigargs size=%s magic=%d bl=%d sl=%d" % (-1 if s is None else s, m, bl, sl) for s, m, bl, sl in cases]

    def mk(i, r):
        s, m, bl, sl = cases[i]
        ok = r["res"] == 0
        return {"t": "sigargs", "size": [] if s is None else le8(s), "magic": ba(struct.pack(">I", m)), "bl": le8(bl), "sl": le8(sl), "res": r["res"],
                "omagic": ba(struct.pack(">I", r["magic"])), "obl": min(r["bl"], (1 << 31) - 1) if ok else 0, "osl": min(r["sl"], 1 << 30) if ok else 0}
    ctx.conform(lines, mk, lambda i: "(size %s, format 0x%x, block length %d, strong length %d requested)" % cases[i], prog=P, module="JudgeMisc",
                data=lambda i: {"request": cases[i]})
    if ctx.viol:
        return
    r = dict(next(x for x in ctx.last_recs if x["res"] == 0))
    r["osl"] = (r["osl"] % 16) + 17
    ctx.must_reject(r, "JudgeMisc")
    r = dict(next(x for x in ctx.last_recs if x["res"] == 0 and x["bl"] == le8(0) and x["size"] not in ([], le8(0))))
    r["obl"] += 128
    ctx.must_reject(r, "JudgeMisc")
    ctx.sample({"request": cases[0], "line": lines[0]})
    headers(ctx)


def headers(ctx, lim=1 << 26):
    """the header a produced signature carries equals the selection for its request:
    whole-file interface (the size is the file's) and the streaming job (values kept)"""
    rng = ctx.rng
    U = (1 << 64) - 1
    lines, cases = [], []
    big = ctx.path("sparse")
    for size in [0, 1, 255, 256, 65535, 65536, 65537, 66563, 66564, 147456, 147455, 1 << 20, (1 << 20) - 1, 16777216, 16777215, 1 << 26]:
        if size > lim:
            continue
        p = ctx.path("sz%d" % size)
        open(p, "wb").truncate(size)
        for m in MAGIC_LIST + [0]:
            for bl, sl in ((0, 0), (0, U), (rng.choice([1000, 65536, size // 3 + 70]) if size < (1 << 22) else 65536, rng.choice([0, U, 9]))):
                if size >= (1 << 22) and m not in (0, MAGIC_LIST[0]):
                    continue
                cases.append((size, m, bl, sl))
                lines.append("file kind=sig in=%s bl=%d sl=%d magic=%d hex=1" % (p, bl, -1 if sl == U else sl, m))
                # no size to go by
                if size < (1 << 20):
                    cases.append((None, m, bl, sl))
                    lines.append("file kind=sig inkind=%s in=%s bl=%d sl=%d magic=%d hex=1" % (rng.choice(["pipe", "cookie"]), p, bl, -1 if sl == U else sl, m))

    # the streaming job: nothing known about the size, and requests it has to refuse as they are
    for m in MAGIC_LIST + [0, 1, 0x72730236, 0x72730135, 0x72730138, 0x72730145, 0x72730148, 0xffffffff, 0x80000000]:
        for bl, sl in [(0, 0), (0, U), (5, 8), (1, 1), ((1 << 31) - 1, 9)] + [(b, rng.choice([0, 8, U])) for b in (1 << 31, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 40) + 700, U, 1 << 63)] \
                + [(rng.choice([0, 5, 700]), x) for x in (15, 16, 17, 31, 32, 33, 64, 256, (1 << 31) + 8, 1 << 32, (1 << 32) + 8, U - 1, 1 << 63)]:
            cases.append((None, m, bl, sl))
            lines.append("job kind=sig in=%s bl=%d sl=%d magic=%d sched=%s hex=1" % (rng.choice(["-", ctx.blob(b"abc")]), bl if bl < 1 << 63 else bl - (1 << 64), sl if sl < 1 << 63 else sl - (1 << 64), m, rng.choice(["one", "C:7,5"])))

    def mk(i, r):
        s, m, bl, sl = cases[i]
        h = (bytes.fromhex(r["hex"]) + bytes(12))[:12]
        om, ob, os_ = struct.unpack(">III", h)
        return {"t": "sigargs", "size": [] if s is None else le8(s), "magic": ba(struct.pack(">I", m)), "bl": le8(bl), "sl": le8(sl), "res": r["res"],
                "omagic": ba(h[:4]), "obl": min(ob, (1 << 31) - 1), "osl": min(os_, 1 << 30)}
    ctx.conform(lines, mk, lambda i: "(signature made for size %s, format 0x%x, block length %d, strong length %d)" % cases[i], module="JudgeMisc", cpu=60)


# ---------------------------------------------------------------- C18
def c18(ctx):
    rng = ctx.rng
    lines, meta = [], []

    def add(d, parts, inter):
        lines.append("md4 in=%s parts=%s inter=%d" % (ctx.blob(d), ",".join(map(str, parts)), inter))
        meta.append(d[:sum(parts)])
    # every length 0..260 in one piece, in random pieces, in single bytes
    for n in range(0, 261 if ctx.quick else 400):
        d = rng.randbytes(n)
        add(d, [n], n % 2)
        p, left = [], n
        while left:
            k = min(left, rng.choice([0, 1, 3, 7, 55, 56, 63, 64, 65, 120, 128]))
            p.append(k)
            left -= k
        add(d, [0] + p + [0], 1)
        if n < 140:
            add(d, [1] * n, 0)
    # two pieces cut at every point around the block boundaries
    for n in (64, 65, 127, 128, 129, 119, 120, 192, 200):
        d = rng.randbytes(n)
        for k in range(0, n + 1, 1 if n < 130 else 3):
            add(d, [k, n - k], 1)
    # three pieces: tail + whole blocks + tail
    for a in (0, 1, 8, 55, 56, 63, 64):
        for b in (0, 1, 7, 8, 9, 63, 64, 65, 127, 128, 129):
            for c in (0, 1, 8, 56, 64):
                add(rng.randbytes(a + b + c), [a, b, c], 0)
    for pat in (b"\0", b"\xff", b"\x80"):
        for n in (55, 56, 57, 63, 64, 120):
            add(pat * n, [n], 0)
    # pairs with a context in between: the second digest is of the whole
    def mk(i, r):
        out = [{"t": "md4", "in": ba(meta[i]), "out": ba(bytes.fromhex(r["inc"]))}]
        if "other" in r and r["other"] != r["inc"]:
            out.append({"t": "md4", "in": ba(meta[i]), "out": ba(bytes.fromhex(r["other"]))})
        return out
    ctx.conform(lines, mk, lambda i: "(message of %d bytes, fed as %s)" % (len(meta[i]), lines[i].split("parts=")[1][:100]), prog=P, module="JudgeMisc")
    if ctx.viol:
        return
    r = dict(ctx.last_recs[50])
    r["out"] = [r["out"][0] ^ 1] + r["out"][1:]
    ctx.must_reject(r, "JudgeMisc")
    # long messages.  d is the digest of the long message M, i.e. the chaining value after
    # M and its padding; e is the digest of M, that padding and a tail.  If d is right
    # TLC derives e from it: the length field must count every byte of the whole.
    lines, meta = [], []
    longs = [(1 << 29) - 1, (1 << 29), (1 << 29) + 37, (1 << 32) + 5] if ctx.quick else [(1 << 29) - 1, 1 << 29, (1 << 29) + 37, (1 << 29) - 64, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 33) + 70, (1 << 30) + 1]
    for n in longs:
        t = rng.randbytes(rng.choice([0, 3, 56, 63]))
        # one call longer than 2^29 bytes in the second half of the cases
        ch = rng.choice([1 << 24, (1 << 24) + 13, n])
        lines.append("md4long n=%d chunk=%d tail=%s" % (n, ch, ctx.blob(t)))
        meta.append((n, t))

    def mkl(i, r):
        n, t = meta[i]
        bits = (n + r["pn"] + len(t)) * 8
        st = list(bytes.fromhex(r["d"]))
        return {"t": "md4x", "st": st, "tail": ba(t), "bits": list(struct.pack("<Q", bits)), "out": ba(bytes.fromhex(r["e"]))}
    ctx.conform(lines, mkl, lambda i: "(message of more than %d bytes)" % meta[i][0], prog=P, module="JudgeMisc", cpu=200)
    ctx.cov["long_messages"] = [m[0] for m in meta]
    ctx.sample({"line": lines[-1]})
    # the stream formats that rely on it: block sums of MD4 signatures
    ctx.assumptions.append("for messages beyond 2^29 bytes the length field and block handling are judged relative to the chaining value the code itself reports for the prefix")


# ---------------------------------------------------------------- C19
def c19(ctx):
    rng = ctx.rng
    lines, meta = [], []
    A = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

    def add(what, d):
        lines.append("text what=%s in=%s" % (what, ctx.blob(d)))
        meta.append((what, d))
    for n in range(0, 70):
        for d in (rng.randbytes(n), b"\xff" * n, b"\0" * n):
            add("b64", d)
            add("hex", d)
    for n in (1, 2, 3, 4, 5, 6, 7):
        for _ in range(40):
            add("b64", rng.randbytes(n))
    for v in range(256):
        add("b64", bytes([v]))
        add("hex", bytes([v]))
        add("b64", bytes([v, 255 - v]))
        add("b64", bytes([0, v, 7]))
    add("b64", rng.randbytes(5000))
    add("hex", rng.randbytes(5000))
    # decoding: what encoding produces, any text, foreign characters at every place
    import base64
    for n in list(range(0, 60)) + [1000]:
        add("unb64", base64.b64encode(rng.randbytes(n)).rstrip(b"="))
    for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9):
        for _ in range(12):
            add("unb64", bytes(rng.choice(A) for _ in range(n)))
    for c in range(1, 256):
        for pos in (0, 1, 2, 3, 4, 5):
            t = bytearray(rng.choice(A) for _ in range(7))
            t[pos] = c
            add("unb64", bytes(t))
        add("unb64", bytes([c]))
    for _ in range(50):
        add("unb64", base64.b64encode(rng.randbytes(rng.randint(0, 40))))     # padded text: '=' is foreign
    def mk(i, r):
        out = [{"t": meta[i][0], "in": ba(meta[i][1]), "out": ba(bytes.fromhex(r["out"]))}]
        if meta[i][0] == "b64" and len(meta[i][1]) < 100:
            out.append({"t": "b64id", "in": ba(meta[i][1])})
        return out
    d = lambda i: "(%s of %s)" % (meta[i][0], meta[i][1][:40].hex())
    res = ctx.conform(lines, mk, d, prog=P, module="JudgeMisc")
    if ctx.viol:
        return
    r = dict(next(x for x in ctx.last_recs if x["t"] == "b64" and len(x["in"]) > 4))
    r["out"] = r["out"][:-1]
    ctx.must_reject(r, "JudgeMisc")
    # decoding what the code itself encoded
    enc = [(meta[i][1], bytes.fromhex(r["out"])) for i, r in enumerate(res) if meta[i][0] == "b64"]
    l2 = ["text what=unb64 in=%s" % ctx.blob(t) for _, t in enc]
    for i, r in enumerate(ctx.run(l2, prog=P)):
        if r.get("bad") or bytes.fromhex(r["out"]) != enc[i][0]:
            ctx.violation("decoding the code's own text does not give the bytes back", {"scenario": l2[i], "bytes": enc[i][0], "observed": r})
    # the same with exact allocations under the address sanitizer
    ctx.conform(lines + l2, None, lambda i: "(text conversion)", prog=P, variant="asan")
    if ctx.viol:
        return
    # more than fits in 31 bits, in bits or in sixths of characters
    big = ["textbig n=%d seed=%d" % (n, rng.getrandbits(20)) for n in ((1 << 28) - rng.randint(1, 3), (1 << 28) + rng.randint(0, 5), 300000000 + rng.randint(0, 5), 1000000 + rng.randint(0, 5))]
    if not ctx.quick:
        big += ["textbig n=%d seed=%d" % ((1 << 29) + rng.randint(0, 5), 1), "textbig n=%d seed=%d" % (1300000000 + rng.randint(0, 5), 1)]
    ctx.conform(big, lambda i, r: {"t": "b64big", "n": int(re.search(r"n=(\d+)", big[i]).group(1)), "len": r["len"], "groups": r["groups"], "back": r["back"], "same": r["same"]}, lambda i: "(%s)" % big[i], prog=P, module="JudgeMisc", cpu=200, spread=True)
    if ctx.viol:
        return
    ctx.must_reject(dict(ctx.last_recs[0], groups=[[[1, 2, 3], [65, 65, 65, 65]]]), "JudgeMisc")
    ctx.cov["bytes of the longest conversion"] = max(r["n"] for r in ctx.last_recs)
    ctx.sample({"line": lines[5], "observed": res[5]})


CHECKS = {"C12": c12, "C13": c13, "C16": c16, "C18": c18, "C19": c19}
