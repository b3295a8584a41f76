"""C14, C20: files and callbacks.  FileLoop.tla is the driving loop with its
buffers and faults, checked exhaustively; FileTrace.tla validates recorded
operations of the real code."""
import errno
from vf import *
from gen import *
from dcases import *

FILES = ("Continuous", "Buffers", "Truthful")


def model_fileloop(ctx):
    ctx.model("FileLoop", "SPECIFICATION Spec\nCONSTANTS\n MaxIn = %d\n MaxBuf = %d\n Faults = TRUE\nINVARIANTS Continuous Buffers Truthful\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n"
              % ((4, 4) if ctx.quick else (7, 6)), name="FileLoop")


def per(rs):
    return sum(len(r["ev"]) + 2 for r in rs)


def base_cases(ctx, big):
    """[{keys, kind, n, case(record for StreamTrace), exp, res, basis}]: jobs whose right output is established by TLC"""
    rng = ctx.rng
    out = []

    def add(kind, keys, case, n, **kw):
        out.append(dict({"kind": kind, "keys": keys, "case": case, "n": n}, **kw))
    mb = lambda m: ba(struct.pack(">I", m))
    for n, bl, sl, m in ((0, 4, 8, M_MD4), (3, 4, 2, M_RKB2), (17, 4, 8, M_B2), (40, 16, 5, M_RKMD4)):
        d = rng.randbytes(n)
        add("sig", "kind=sig in=%s bl=%d sl=%d magic=%d" % (ctx.blob(d), bl, sl, m), {"kind": "sig", "in": ba(d), "magic": mb(m), "bl": bl, "sl": sl}, n)
    for m, bl, sl, n in ((M_MD4, 4, 8, 14), (M_RKB2, 3, 3, 7), (M_B2, 5, 32, 0)):
        d = rng.randbytes(n)
        s = mksig(m, bl, sl, [mkblocksum(m, d[i:i + bl], sl) for i in range(0, n, bl)])
        add("load", "kind=load in=%s" % ctx.blob(s), {"kind": "load", "in": ba(s)}, len(s))
    s = mksig(M_MD4, 4, 8, [rng.randbytes(12)])[:-2]
    add("load", "kind=load in=%s" % ctx.blob(s), {"kind": "load", "in": ba(s)}, len(s))
    for m, bl, basis, new in ((M_RKB2, 4, b"abcdefghijklmnop", b"efghXXabcdefghYmnop"), (M_MD4, 3, b"abcabd", b"xyzabdabcq"), (M_B2, 5, b"", b"hello, this is a delta against nothing"), (M_RKMD4, 4, b"abcdefgh", b"")):
        s = mksig(m, bl, 12, [mkblocksum(m, basis[i:i + bl], 12) for i in range(0, len(basis), bl)])
        add("delta", "kind=delta in=%s sig=%s" % (ctx.blob(new), ctx.blob(s)), {"kind": "deltab", "in": ba(new), "sig": ba(s)} if basis else {"kind": "slack", "in": ba(new)}, len(new), slack=None if basis else new)
    basis = bytes(range(60, 90))
    for d in (DELTA + lit(b"xy") + copy(1, 9) + lit(b"z") + copy(0, 30) + b"\0", DELTA + copy(5, 20, 2, 4) + lit(b"abcde", 1) + copy(0, 2) + b"\0", DELTA + b"\0",
              DELTA + lit(b"hello") + copy(20, 30) + b"\0", DELTA + lit(b"qq") + b"\0trailing", DELTA + lit(b"oops") + b"\x60", DELTA + lit(b"cut")[:-1]):
        add("patch", "kind=patch in=%s basis=%s" % (ctx.blob(d), ctx.blob(basis)), {"kind": "patch", "in": ba(d), "basis": ba(basis)}, len(d), basis=len(basis))
    if big:
        for n, bl, sl, m in ((70001, 2048, 8, M_RKB2), (200000, 700, 16, M_MD4)):
            d = rng.randbytes(n)
            add("sig", "kind=sig in=%s bl=%d sl=%d magic=%d" % (ctx.blob(d), bl, sl, m), None, n)
        old = rng.randbytes(180000)
        for bl, m in ((1000, M_RKB2), (65536, M_MD4), (70000, M_B2)):
            s = mksig(m, bl, 12, [mkblocksum(m, old[i:i + bl], 12) for i in range(0, len(old), bl)])
            add("load", "kind=load in=%s" % ctx.blob(s), None, len(s), probe=old[3000:5200])
            new = old[:70100] + rng.randbytes(30) + old[100000:] + rng.randbytes(140000) + old[:bl]
            add("delta", "kind=delta in=%s sig=%s" % (ctx.blob(new), ctx.blob(s)), None, len(new), bigbl=bl)
        d = DELTA + lit(rng.randbytes(70000)) + copy(5, 170000) + lit(b"mid") + copy(100000, 80000) + copy(0, 66000) + lit(rng.randbytes(300)) + b"\0"
        add("patch", "kind=patch in=%s basis=%s" % (ctx.blob(d), ctx.blob(old)), None, len(d), basis=len(old))
        add("patch", "kind=patch in=%s basis=%s" % (ctx.blob(d[:70100]), ctx.blob(old)), None, 70100, basis=len(old))
    res = ctx.run(["job %s sched=one hex=1 %s" % (c["keys"], "probe=%s" % ctx.blob(c["probe"]) if c.get("probe") else "") for c in out])
    recs, keep = [], []
    for c, r in zip(out, res):
        if "hex" not in r:
            ctx.violation("job fails (%s)" % r, {"scenario": c["keys"]})
            return []
        c["exp"], c["res"] = bytes.fromhex(r["hex"]), r["res"]
        if c.get("probe"):
            c["pexp"] = bytes.fromhex(r.get("phex", ""))
        if c["case"]:
            recs.append(dict(c["case"], out=ba(c["exp"]), fin=c["res"], traces=[]))
            keep.append(c)
    for k, why in ctx.judge(recs, module="StreamTrace", per=lambda rs: 2 * len(rs)).items():
        ctx.violation("%s (%s, all input in one call)" % (why, keep[k]["keys"]), {"scenario": "job %s sched=one hex=1" % keep[k]["keys"], "case": keep[k]["case"]})
    return out


def ref_of(c):
    """results that are right without a fault"""
    if c["kind"] == "patch" and c["res"] in (IO_ERROR, INPUT_ENDED):
        return [IO_ERROR, INPUT_ENDED]
    return [c["res"]]


def run_file(ctx, cases, variants, what):
    """variants: list of (case index, op, extra keys, ref override or None, events wanted)"""
    lines, meta = [], []
    for ci, op, extra, ref, evs in variants:
        c = cases[ci]
        exp = c["exp"]
        if c.get("probe") and op == "file":
            exp = c["pexp"]
            extra += " probe=%s" % ctx.blob(c["probe"])
        lines.append("%s %s %s %s ev=%d" % (op, c["keys"], "exp=%s" % ctx.blob(exp) if c.get("slack") is None else "hex=1", extra, 1 if evs else 0))
        meta.append((ci, op, ref, len(exp)))

    def mk(i, r):
        ci, op, ref, olen = meta[i]
        c = cases[ci]
        evs = r.get("ev", []) if not r.get("evlost") else []
        file = op == "file" and "ev" in r and not r["evlost"]
        st = r.get("stats", {})
        # through a regular file or pipe there are no events to count
        rd = file and "inkind=cookie" in lines[i] and st
        wd = file and "outkind=cookie" in lines[i] and st
        pre = r.get("prefix", 1)
        if op == "job":
            pre = 1
        if c.get("slack") is not None:
            # literals may be split anyhow: successful output is judged below
            pre, olen = 1, r["olen"]
        return {"ref": ref or ref_of(c), "olen": olen, "res": r["res"], "wrote": r["olen"], "prefix": pre,
                "ins": st["in_bytes"] if rd else -1, "outs": st["out_bytes"] if wd else -1, "ev": evs}

    def bad(i, r):
        # differences from exp are the specification's to judge, by prefix and wrote
        return bool(r.get("crash") or r.get("hang") or r.get("leak") or r.get("viol") or "res" not in r)
    ctx.conform(lines, mk, lambda i: "(%s: %s)" % (what, lines[i][:400]), bad=bad, module="FileTrace", per=per, leaks=True)
    sl = [i for i, x in enumerate(meta) if cases[x[0]].get("slack") is not None]
    if sl and not ctx.viol:
        keep = ctx.last_recs
        ctx.conform([lines[i] for i in sl], lambda j, r: {"t": "slackwf", "out": ba(bytes.fromhex(r["hex"])), "in": ba(cases[meta[sl[j]][0]]["slack"])} if r["res"] == DONE else None,
                    lambda j: "(delta against nothing, %s: %s)" % (what, lines[sl[j]][:400]), bad=lambda j, r: bad(sl[j], r))
        ctx.last_recs = keep


def c14(ctx):
    rng = ctx.rng
    model_fileloop(ctx)
    cases = base_cases(ctx, False)
    if ctx.viol:
        return
    v = []
    bufs = [(0, 0), (1, 1), (2, 3), (5, 4), (7, 16), (16, 5)]
    for ci, c in enumerate(cases):
        n, m, k = c["n"], len(c["exp"]), c["kind"]
        ok = "outkind=cookie"
        for p in range(0, n + 1):
            for mode in ("", "infailn=1", "infailn=1 intheneof=1"):
                ib, ob = rng.choice(bufs)
                v.append((ci, "file", "inkind=cookie %s infail=%d %s inbuf=%d outbuf=%d inchunk=%d" % (ok, p, mode, ib, ob, rng.choice([0, 0, 1, -3])), None, True))
        if k != "load":
            for p in range(0, m + 1):
                for mode in ("", "outfailn=1"):
                    ib, ob = rng.choice(bufs)
                    v.append((ci, "file", "inkind=cookie %s outfail=%d %s inbuf=%d outbuf=%d" % (ok, p, mode, ib, ob), None, True))
        if k == "patch":
            for p in range(0, c["basis"] + 1):
                ib, ob = rng.choice(bufs)
                v.append((ci, "file", "inkind=cookie basiskind=cookie %s basisfail=%d inbuf=%d outbuf=%d basischunk=%d" % (ok, p, ib, ob, rng.choice([0, 0, 1, -3])), None, True))
            for p in range(1, 12):
                ib, ob = rng.choice(bufs)
                v.append((ci, "file", "inkind=cookie basiskind=cookie %s basisseekfail=%d inbuf=%d outbuf=%d" % (ok, p, ib, ob), None, True))
            codes = [IO_ERROR, MEM_ERROR, INPUT_ENDED, CORRUPT, PARAM, SYNTAX_ERROR, UNIMPL, INTERNAL, BAD_MAGIC, 4242]
            for p in range(1, 14):
                for code in rng.sample(codes, 4):
                    for op, sch in (("job", "sched=%s" % rng.choice(["one", "C:1,3", "C:7,5", "C:1,1", "C:100,2"])), ("drive", "ichunk=%d ochunk=%d" % (rng.choice([1, 4, 100]), rng.choice([1, 2, 5, 40])))):
                        v.append((ci, op, "cb=%s cberrat=%d cberr=%d %s" % (rng.choice(["full", "short:2", "own", "short:1", "own:2", "map:1", "mix:3", "zeof:2"]), p, code, sch), None, True))
                # temporarily unable: retried, the result is as without
                for rep in (1, 2, 5):
                    for op, sch in (("job", "sched=%s" % rng.choice(["one", "C:1,3", "C:7,5", "C:1,1", "C:100,2"])), ("drive", "ichunk=%d ochunk=%d" % (rng.choice([1, 4, 100]), rng.choice([1, 2, 5, 40])))):
                        v.append((ci, op, "cb=%s cberrat=%d cberr=%d cberrrep=%d %s" % (rng.choice(["full", "short:2", "own", "short:1", "own:2", "map:1", "mix:3", "zeof:2"]), p, BLOCKED, rep, sch), None, True))
                # a read of nothing: the basis ended early
                v.append((ci, "job", "cb=full cbzero=%d sched=%s" % (p, rng.choice(["one", "C:1,3", "C:7,5"])), sorted({IO_ERROR, INPUT_ENDED} | set(ref_of(c))), True))
        # application callbacks
        for p in range(1, 12):
            for code in (IO_ERROR, BLOCKED, MEM_ERROR, 4242, INPUT_ENDED):
                no = "noout=1" if k == "load" else ""
                v.append((ci, "drive", "ichunk=%d ochunk=%d infailat=%d failcode=%d %s eof=%s" % (rng.choice([1, 3, 8, -5]), rng.choice([1, 2, 7, 30]), p, code, no, rng.choice(["now", "late"])), None, True))
                if k != "load":
                    v.append((ci, "drive", "ichunk=%d ochunk=%d outfailat=%d failcode=%d eof=%s" % (rng.choice([1, 3, 8, -5]), rng.choice([1, 2, 7, 30]), p, code, rng.choice(["now", "late"])), None, True))
    # whatever the system calls the failure
    errnos = [0, 0, errno.EINTR, errno.EAGAIN, errno.ENOSPC, errno.EBADF, errno.ENOENT, errno.EPIPE, errno.EINVAL]
    v = [(a, op, x + (" errno=%d" % rng.choice(errnos) if op == "file" and ("fail=" in x) else ""), r, e) for a, op, x, r, e in v]
    # zero-length reads before the basis is needed change nothing; after, they are an error: judged below
    zero = [x for x in v if "cbzero" in x[2]]
    run_file(ctx, cases, [x for x in v if "cbzero" not in x[2]], "with an injected fault")
    if ctx.viol:
        return
    for pick in ("r", "w", "b", "c", "i", "o"):
        rec = next(r for r in ctx.last_recs if any(e[0] == pick and (e[2] == -1 if pick in "rwb" else e[2] > 1) for e in r["ev"]))
        ctx.must_reject(dict(rec, res=DONE, wrote=rec["olen"]), "FileTrace", per)
    ctx.cov["faults_seen"] = sum(1 for r in ctx.last_recs if any(e[2] == -1 or e[0] in "ioc" and e[2] > 1 for e in r["ev"]))
    ctx.cov["fault_variants"] = len(v)
    ctx.sample({"record": ctx.last_recs[3]})
    zero_reads(ctx, cases, zero)


def zero_reads(ctx, cases, zero):
    """success only if the callback never returned an empty read"""
    lines = ["%s %s exp=%s %s ev=1" % (op, cases[ci]["keys"], ctx.blob(cases[ci]["exp"]), ex) for ci, op, ex, _, _ in zero]

    def mk(i, r):
        c = cases[zero[i][0]]
        p = int(re.search(r"cbzero=(\d+)", lines[i]).group(1))
        hit = r["cbcalls"] >= p
        return {"ref": [IO_ERROR, INPUT_ENDED] if hit else ref_of(c), "olen": len(c["exp"]), "res": r["res"], "wrote": r["olen"], "prefix": 0 if r["olen"] > len(c["exp"]) else 1, "ins": -1, "outs": -1, "ev": r["ev"]}
    ctx.conform(lines, mk, lambda i: "(basis callback returning nothing: %s)" % lines[i][:300], module="FileTrace", per=per,
                bad=lambda i, r: bool(r.get("crash") or r.get("hang") or r.get("viol") or "res" not in r))


def huge(ctx):
    """signature, delta and patch of files beyond 4 GB"""
    from bigf import sparse, roundtrip
    rng = random.Random(ctx.seed)
    n = (1 << 32) + 300000 + rng.randint(0, 99999)
    at = [0, 70000, (1 << 31) - 500, (1 << 32) - 700, (1 << 32) + 100000, n - 900]
    isl = [rng.randbytes(900) for _ in at]
    old = sparse(ctx, "hold", n, list(zip(at, isl)))
    # the same with one island changed, one gone, one moved beyond 4 GB and something appended
    new = [(at[0], isl[0]), (at[2], isl[2][:400] + b"?" + isl[2][401:]), (at[3], isl[3]), (at[4] + 5, isl[1]), (n - 900, isl[5]), (n, rng.randbytes(1234))]
    new = sparse(ctx, "hnew", n, new)
    res = roundtrip(ctx, "huge", old, n, new, os.path.getsize(new), 1 << 18, 0, 0, ("", "inbuf=3000000", "outbuf=100000"))
    nn = os.path.getsize(new)
    os.unlink(old)
    os.unlink(new)
    return n, nn, res


def huge_judge(ctx, got):
    from bigf import headers, bigstat
    n, nn, res = got
    recs = []
    for kind, line, r in res:
        if r.get("res") != DONE or r.get("bad") or "stats" not in r:
            ctx.violation("a file beyond 4 GB does not come back: %s" % str({k: v for k, v in r.items() if k != "hex"})[:300], {"scenario": line, "observed": {k: v for k, v in r.items() if k != "hex"}})
            return
        h = headers(bytes.fromhex(res[1][2]["hex"])) if kind != "sig" else []
        recs.append(bigstat(kind, {"sig": n, "delta": nn, "patch": res[1][2]["olen"] if len(res) > 1 else 0}[kind], r, h))
    for k, why in ctx.judge(recs).items():
        ctx.violation("%s (%s)" % (why, res[k][1]), {"scenario": res[k][1], "observed": res[k][2]["stats"]})
    ctx.cov["bytes of the biggest file"] = nn


def c20(ctx):
    ctx.prog("drv", "plain")
    with ThreadPoolExecutor(1) as ex:
        big = ex.submit(huge, ctx)
        c20_small(ctx)
        if not ctx.viol:
            huge_judge(ctx, big.result())


def c20_small(ctx):
    rng = ctx.rng
    model_fileloop(ctx)
    cases = base_cases(ctx, True)
    if ctx.viol:
        return
    v = []
    sizes = [0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 31, 32, 33, 64, 100]
    for ci, c in enumerate(cases):
        n, m, k = c["n"], len(c["exp"]), c["kind"]
        small = c["case"] is not None
        if small:
            # every buffer size against every other up to 12, then a sample
            todo = [(a, b) for a in sizes for b in sizes] if not ctx.quick else [(a, b) for a in sizes for b in rng.sample(sizes, 5)]
        else:
            bl = c.get("bigbl", 1000)
            ss = [0, 100, 777, 1024, 4096, 65535, 65536, 65537, 131072, bl - 1, bl, bl + 1, 65536 + bl, 65536 + bl + 1, 65536 + bl - 1, 2 * (65536 + bl), 300000]
            todo = [(rng.choice(ss), rng.choice([0, 50, 1000, 65536, 100000])) for _ in range(14 if ctx.quick else 80)] + [(0, 0), (1, 65536), (7, 3), (13, 0)]
        for a, b in todo:
            kind = rng.choice(["reg", "cookie", "cookie", "pipe"])
            ok = rng.choice(["reg", "cookie", "cookie"])
            bk = rng.choice(["reg", "cookie"])
            ch = rng.choice([0, 1, 2, 3, -4, -9]) if small else rng.choice([0, 100, 5000, -7000, -70000, 65536])
            evs = small or (a == 0 or a > 60)
            if kind == "cookie" and not small and 0 < ch < 50:
                ch = 0
            v.append((ci, "file", "inkind=%s outkind=%s basiskind=%s inchunk=%d basischunk=%d inbuf=%d outbuf=%d seed=%d stats=%d" % (kind, ok, bk, ch, rng.choice([0, 2, 100, -50] if small else [0, 5000, -3000]), a, b, rng.getrandbits(20), rng.random() < 0.85), None, evs))
        for j in range(16 if ctx.quick else 100):
            if small:
                ic, oc = rng.choice([0, 1, 2, 3, 5, 9, -4, -20]), rng.choice([1, 2, 3, 4, 7, 16, 64])
            else:
                ic, oc = rng.choice([0, 100, 4096, 65536, 65537, -1000, -100000]), rng.choice([100, 1000, 65536, 500000])
            v.append((ci, "drive", "ichunk=%d ochunk=%d eof=%s seed=%d %s %s" % (ic, oc, rng.choice(["now", "late"]), rng.getrandbits(20), "noout=1" if k == "load" else "", ("cb=" + rng.choice(["full", "short:3", "own", "file", "own:2", "map:5", "mix:3"])) if k == "patch" else ""), None, small))
    run_file(ctx, cases, v, "buffer sizes and short reads")
    if ctx.viol:
        return
    rec = next(r for r in ctx.last_recs if r["olen"] > 3 and r["res"] == 0)
    ctx.must_reject(dict(rec, wrote=rec["olen"] - 1), "FileTrace", per)
    rec = next(r for r in ctx.last_recs if r["olen"] > 3 and r["res"] == 0 and r["ins"] > 0)
    ctx.must_reject(dict(rec, ins=rec["ins"] + 1), "FileTrace", per)
    ctx.cov["configurations"] = len(v)
    # left to choose, the file interface goes by the size of a regular file and by defaults elsewhere
    from chk_misc import headers
    headers(ctx, 1 << 20)
    if ctx.viol:
        return
    ctx.sample({"record": rec and {k: x for k, x in rec.items() if k != "ev"}})


CHECKS = {"C14": c14, "C20": c20}
