"""C02, C04: the streaming machine.  StreamImpl.tla is explored exhaustively;
the schedules through all its transitions, and random ones, are replayed on
the real library; recorded calls are validated by StreamTrace.tla."""
from vf import *
from gen import *
from dcases import *

U = 16384      # bytes per letter when a model case is scaled up


def mg(m):
    return ba(struct.pack(">I", m))


def model_cases(ctx):
    """small cases for StreamImpl: (record, scenario keys, scaled scenario keys or None)"""
    rng = ctx.rng
    out = []
    for n, bl, sl, m in ((0, 1, 2, M_MD4), (1, 2, 1, M_RKB2), (3, 1, 1, M_B2), (4, 2, 2, M_RKMD4), (5, 2, 1, M_MD4), (5, 3, 3, M_RKB2)) + (() if ctx.quick else ((7, 3, 1, M_B2), (6, 1, 1, M_MD4), (9, 4, 2, M_MD4))):
        d = rng.randbytes(n)
        out.append(({"kind": "sig", "in": ba(d), "magic": mg(m), "bl": bl, "sl": sl}, "kind=sig in=%s bl=%d sl=%d magic=%d" % (ctx.blob(d), bl, sl, m), None))
    good = mksig(M_RKB2, 2, 1, [rng.randbytes(5) for _ in range(2)])
    md = mksig(M_MD4, 3, 2, [rng.randbytes(6)])
    for d in (good, good[:-1], good[:-6], good[:12], good[:7], b"", md, struct.pack(">III", M_MD4, 0, 4), struct.pack(">III", M_MD4, 4, 17), struct.pack(">III", 0x72730236, 4, 8) + b"abc", good + b"\1\2\3"):
        out.append(({"kind": "load", "in": ba(d)}, "kind=load in=%s" % ctx.blob(d), None))
    basis = bytes(range(50, 56))
    for d in (DELTA + b"\0", DELTA + lit(b"xy") + copy(1, 3) + b"\0", DELTA + copy(0, 6, 2, 1) + lit(b"abc", 1) + b"\0", DELTA + lit(b"q", 2) + copy(4, 2, 1, 2) + copy(0, 1) + b"\0",
              DELTA + copy(2, 4, 1, 1) + lit(b"z"), DELTA + lit(b"hello")[:-2], DELTA + copy(3, 9) + b"\0", DELTA[:2], b"rs\2\6\0", DELTA + b"\x60\0", DELTA + lit(b"a") + copy(0, 0) + b"\0",
              DELTA + lit(b"12") + b"\0junk", DELTA + copy(0, 5, 8, 4) + b"\0") + (() if ctx.quick else (DELTA + lit(b"12345") + lit(b"6") + copy(5, 1) + copy(0, 6) + b"\0",)):
        for k in (9, 2):
            if k == 2 and b"E" not in d and b"I" not in d:
                continue
            out.append(({"kind": "patch", "in": ba(d), "basis": ba(basis), "k": k}, "kind=patch in=%s basis=%s cb=%s" % (ctx.blob(d), ctx.blob(basis), "full" if k == 9 else "short:2"), None))
    A = [rng.randbytes(U) for _ in range(5)]
    dl = [("abcd", 1, "cdab"), ("abab", 2, "ababe"), ("abcd", 2, "xcdabx"), ("abcde", 2, "eabcdxx"), ("ab", 2, "xyxxyxy"), ("abc", 3, "abcabcxab"), ("aab", 1, ""), ("abcdefghijkl", 6, "ghijklabcdefxghijkl")]
    if not ctx.quick:
        dl += [("abcdefgh", 2, "efabxxghcdx"), ("abcdefg", 3, "xabcdefgdefabc"), ("ab", 1, "xyzxyzxyzxyz")]
    let = {}
    for b, bl, n in dl:
        for x in b + n:
            let.setdefault(x, rng.randbytes(U))
    for b, bl, n in dl:
        bb, nn = b.encode(), n.encode()
        blocks = [bb[i:i + bl] for i in range(0, len(bb), bl)]
        m = rng.choice(MAGIC_LIST)
        sig = mksig(m, bl, 16, [mkblocksum(m, x, 16) for x in blocks])
        big = b"".join(let[x] for x in n)
        bsig = ctx.path("bsig%s%d" % (b, bl))
        r = ctx.run(["job kind=sig in=%s bl=%d sl=16 magic=%d save=%s" % (ctx.blob(b"".join(let[x] for x in b)), bl * U, m, bsig)])[0]
        ids = {x: i + 1 for i, x in enumerate(sorted(set(b + n)))}
        sym = {"t": "sym", "basis": [[ids[x], 0, U] for x in b], "bl": bl * U, "new": [[ids[x], 0, U] for x in n]}
        out.append(({"kind": "delta", "in": ba(nn), "blocks": [ba(x) for x in blocks], "bl": bl, "miss": 4}, "kind=delta in=%s sig=%s" % (ctx.blob(nn), ctx.blob(sig)),
                    ("kind=delta in=%s sig=%s" % (ctx.blob(big), bsig), len(big), sym)))
    out.append(({"kind": "slack", "in": ba(b"abcde")}, "kind=delta in=%s" % ctx.blob(b"abcde"), None))
    out.append(({"kind": "slack", "in": []}, "kind=delta in=-", None))
    return out


CFG = """SPECIFICATION Spec
VIEW View
INVARIANTS OutputRight Bounds BlockedRight Finishes
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
"""


def explore(ctx, cases, emit=True):
    """exhaustive exploration of StreamImpl; schedules through its transitions per case"""
    sched = {}
    kinds = {}
    for i, c in enumerate(cases):
        kinds.setdefault(c[0]["kind"], []).append(i)

    def one(kind):
        p = ctx.path("cases-%s.json" % kind)
        iw, ow = {"sig": ([0, 1, 2, -1], [0, 1, 2, 3, 7, 40]), "load": ([0, 1, 3, 5, -1], [0, 1]), "patch": ([0, 1, 2, 3, 5, -1], [0, 1, 2, 3, 4, 30]),
                  "delta": ([0, 1, 2, 3, 5, -1], [0, 1, 2, 3, 5, 40]), "slack": ([0, 1, 2, -1], [0, 1, 3, 40])}[kind]
        if not ctx.quick and kind in ("patch", "sig"):
            ow = ow + [5]
        json.dump({"cases": [cases[i][0] for i in kinds[kind]], "inwin": iw, "outwin": ow, "look": 5}, open(p, "w"))
        t = time.time()
        r = ctx.tlc("StreamImpl", CFG if emit else None, env={"CASES": p}, workers=3, timeout=600 if ctx.quick else 3000)
        if os.environ.get("VERIF_DEBUG"):
            ctx.log(kind, r["dist"], r["gen"], "%.1fs" % (time.time() - t))
        return kind, r
    with ThreadPoolExecutor(5) as ex:
        for kind, r in ex.map(one, list(kinds)):
            ctx.states += r["dist"]
            ctx.trans += r["gen"]
            ctx.models.append({"model": "StreamImpl (%s jobs, %d cases)" % (kind, len(kinds[kind])), "distinct_states": r["dist"], "states_generated": r["gen"]})
            for m in re.finditer(r'<<\s*"SCHED",\s*(\d+),\s*(<<[\s0-9,<>]*>>)\s*>>', r["out"]):
                i = kinds[kind][int(m.group(1)) - 1]
                v = [int(x) for x in re.findall(r"\d+", m.group(2))]
                sched.setdefault(i, []).append([tuple(v[k:k + 3]) for k in range(0, len(v), 3)])
    if emit and sum(map(len, sched.values())) < 1000:
        raise CheckError("the model produced only %d schedules" % sum(map(len, sched.values())))
    ctx.log("StreamImpl: %d states, %d transitions explored; %d schedules" % (ctx.states, ctx.trans, sum(map(len, sched.values()))))
    return sched


def sched_text(h, rng, scale=None):
    f = rng.choice(["", ";1/3", ";-1/1", ";2/2", ";5/9"]) if not scale else rng.choice(["", ";30000/9000", ";-1/20000", ";5000/70000"])
    ent = []
    for i, o, e in h:
        if scale:
            i = max(0, i * scale + rng.choice([0, 0, -1, 1, 7]) if i else rng.choice([0, 0, 1]))
            o = rng.choice([o, o * scale, o * scale + 1, o * scale - 1 if o else 0])
        ent.append("%d/%d/%s" % (i, o, "e" if e else "n"))
    return "L:" + ",".join(ent) + f


def real(c):
    """the model scales the literal limit down; the library's is 65533"""
    return dict(c, miss=65533) if c["kind"] == "delta" else c


def rec_of(case, hexout, res, traces):
    c = real(case[0])
    return dict(c, out=ba(bytes.fromhex(hexout)), fin=res, traces=traces)


def nstates(recs):
    """what TLC has to explore for these trace records"""
    return sum(2 + sum(1 + len(t) for t in r["traces"]) for r in recs)


def replay_model(ctx, cases, sched, trace, cap, scaledcap, variant="plain"):
    """replay the model's schedules.  The output under the plain schedule is
    validated by TLC first and is then the expectation for all others."""
    rng = ctx.rng
    base = ctx.run(["job %s sched=one hex=1" % c[1] for c in cases], variant)
    scal = [i for i, c in enumerate(cases) if c[2]]
    sb = ctx.run(["job %s sched=one hex=1" % cases[i][2][0] for i in scal], variant)
    recs = []
    for i, c in enumerate(cases):
        if "hex" not in base[i]:
            ctx.violation("job fails (%s)" % base[i], {"scenario": c[1]})
            return
    # the expected outputs
    for k, why in ctx.judge([rec_of(c, base[i]["hex"], base[i]["res"], []) for i, c in enumerate(cases)], module="StreamTrace", per=nstates).items():
        ctx.violation("%s (%s, all input in one call)" % (why, cases[k][1]), {"scenario": "job %s sched=one hex=1" % cases[k][1], "observed": base[k], "case": cases[k][0]})
    for k, why in ctx.judge([dict(cases[i][2][2], out=ba(bytes.fromhex(sb[j]["hex"]))) for j, i in enumerate(scal)]).items():
        ctx.violation("%s (scaled model case, all input in one call)" % why, {"scenario": "job %s sched=one hex=1" % cases[scal[k]][2][0]})
    if ctx.viol:
        return
    lines, meta = [], []
    total = 0

    def emitl(key, i, hs, exp, res, scale, tr):
        nonlocal total
        # several files per case so that the work spreads over the cores
        for part in range(0, len(hs), 400):
            p = ctx.path("sf%d" % len(lines))
            with open(p, "w") as f:
                for h in hs[part:part + 400]:
                    f.write(sched_text(h, rng, scale) + "\n")
            total += len(hs[part:part + 400])
            lines.append("job %s schedfile=%s %s %s" % (key, p, ("exp=%s expres=%d" % (ctx.blob(bytes.fromhex(exp)), res)) if exp is not None else "cmpfirst=0", "trace=2" if tr else ""))
            meta.append((i, open(p).read().splitlines()))
    for i, c in enumerate(cases):
        hs = sched.get(i, [])
        if len(hs) > cap:
            hs = rng.sample(hs, cap)
        if c[0]["kind"] == "slack":
            slack_replay(ctx, c, hs[:800])
            if ctx.viol:
                return
            continue
        emitl(c[1], i, hs, base[i]["hex"], base[i]["res"], None, trace)
    for j, i in enumerate(scal):
        hs = sched.get(i, [])
        if len(hs) > scaledcap:
            hs = rng.sample(hs, scaledcap)
        emitl(cases[i][2][0], i, hs, sb[j]["hex"], sb[j]["res"], U, trace)

    def desc(k):
        return "(model case %s under a schedule generated from the model)" % json.dumps({a: (b if len(str(b)) < 90 else "...") for a, b in cases[meta[k][0]][0].items()})

    def mk(k, r):
        i = meta[k][0]
        c = cases[i][0]
        ts = [t for t in r["traces"] if len(t) < 4000]      # recording limit of the driver
        if c["kind"] == "delta" and cases[i][2] and cases[i][2][0] in lines[k]:
            return {"kind": "big", "olen": r["olen"], "fin": r["res"], "traces": ts}
        return rec_of(cases[i], base[i]["hex"], r["res"], ts)
    ctx.conform(lines, mk if trace else None, desc, variant=variant, module="StreamTrace", per=nstates,
                data=lambda k: {"schedules": meta[k][1], "case": cases[meta[k][0]][0]})
    ctx.execs += total
    ctx.cov["model_schedules_replayed"] = ctx.cov.get("model_schedules_replayed", 0) + total


def slack_replay(ctx, c, hs):
    rng = ctx.rng
    lines = ["job %s sched=%s hex=1 trace=1" % (c[1], sched_text(h, rng)) for h in hs]
    ctx.conform(lines, lambda i, r: dict(c[0], out=ba(bytes.fromhex(r["hex"])), fin=r["res"], traces=[r["trace"]]), lambda i: "(delta without signature)", module="StreamTrace", per=nstates)


def big_cases(ctx):
    """(scenario keys, kind of judgement) beyond the model's sizes; expectation from one call, judged natively by C01/C05-C10 and here by reassembly"""
    rng = ctx.rng
    out = []
    # signatures
    for n, bl, m in ((1000, 7, M_MD4), (70000, 1000, M_RKB2), (5000, 2048, M_B2), (200000, 65536, M_RKMD4), (300, 512, M_RKB2)):
        d = rng.randbytes(n)
        sl = rng.choice([8, 16])
        out.append({"keys": "kind=sig in=%s bl=%d sl=%d magic=%d" % (ctx.blob(d), bl, sl, m), "n": n, "rec": {"kind": "bigsig", "bl": bl, "sl": sl}})
    # load
    for nb, sl, m in ((3, 16, M_MD4), (40, 32, M_B2), (400, 9, M_RKB2)):
        s = mksig(m, 64, sl, [rng.randbytes(4 + sl) for _ in range(nb)])
        pr = b"abc" * 20
        out.append({"keys": "kind=load in=%s probe=%s" % (ctx.blob(s), ctx.blob(pr)), "n": len(s), "rec": {"kind": "load", "in": ba(s)} if nb < 50 else {"kind": "big"}})
        out.append({"keys": "kind=load in=%s" % ctx.blob(s[:-3]), "n": len(s) - 3, "rec": {"kind": "load", "in": ba(s[:-3])} if nb < 50 else {"kind": "big"}})
    # patches
    basis = rng.randbytes(100000)
    for _ in range(6 if ctx.quick else 30):
        d, cm = DELTA, []
        for _ in range(rng.randint(1, 8)):
            if rng.random() < 0.5:
                n = rng.choice([1, 64, 65, 300, 5000, 65535, 65536, 70000])
                x = rng.randbytes(n)
                c = lit(x, rng.choice([None, None, 4, 8]))
                cm.append([len(c) - n, 1, n])
            else:
                n = rng.choice([1, 200, 4096, 65536, 66000, 99999])
                c = copy(rng.randrange(len(basis) - n + 1), n, *([8, 8] if rng.random() < 0.2 else []))
                cm.append([len(c), 0, n])
            d += c
        d += b"\0"
        out.append({"keys": "kind=patch in=%s basis=%s cb=%s" % (ctx.blob(d), ctx.blob(basis), rng.choice(["full", "short:1000", "own", "file"])), "n": len(d), "rec": {"kind": "bigpatch", "cmds": cm}})
        t = rng.randint(0, len(d) - 1)
        out.append({"keys": "kind=patch in=%s basis=%s" % (ctx.blob(d[:t]), ctx.blob(basis)), "n": t, "rec": {"kind": "big"}})
    # deltas
    for i, (bp, bl, np_) in enumerate(sym_cases(ctx, 8 if ctx.quick else 60)):
        if i >= 8 and ctx.quick and i % 3:
            continue
        S = Sym((ctx.seed, "s", i))
        b, n = S.bytes(bp), S.bytes(np_)
        m = MAGIC_LIST[i % 4]
        p = ctx.path("xsig%d" % i)
        ctx.run(["job kind=sig in=%s bl=%d sl=12 magic=%d save=%s" % (ctx.blob(b), bl, m, p)])
        out.append({"keys": "kind=delta in=%s sig=%s" % (ctx.blob(n), p), "n": len(n), "rec": {"kind": "big"}, "bl": bl})
    # literals that fill the longest literal command, or two, just before the end
    for k, n in enumerate((65531, 65532, 65533, 65534, 65535, 65536, 2 * 65533 - 1, 2 * 65533, 2 * 65533 + 1)):
        m, bl = MAGIC_LIST[k % 4], rng.choice([16, 512, 3000])
        old = rng.randbytes(3 * bl)
        p = ctx.path("lsig%d" % k)
        ctx.run(["job kind=sig in=%s bl=%d sl=12 magic=%d save=%s" % (ctx.blob(old), bl, m, p)])
        for pre in (b"", old[bl:2 * bl]):
            out.append({"keys": "kind=delta in=%s sig=%s" % (ctx.blob(pre + rng.randbytes(n)), p), "n": n + len(pre), "rec": {"kind": "big"}, "bl": bl})
    return out


def big_schedules(ctx, c, k):
    rng = ctx.rng
    n = c["n"]
    bl = c.get("bl", 1000)
    pts = [0, 1, 3, 64, 1000, 65535, 65536, 65537, bl - 1, bl, bl + 1, 65536 + bl - 1, 65536 + bl, 65536 + bl + 1, 131072, n - 1, n // 2]
    pts = [p for p in pts if p >= 0]
    out = []
    for j in range(k):
        r = j % 5
        if r == 4:      # output slower than input: what is taken waits in the job
            out.append("C:%d,%d" % (rng.choice([5000, 40000, 65536, 100000]), rng.choice([50, 90, 300, 2000])))
        elif r == 0:
            out.append("R:%d,%d,%d" % (rng.getrandbits(30), rng.choice([300, 5000, 70000, 150000]), rng.choice([300, 5000, 70000])))
        elif r == 1:
            out.append("L:" + ",".join("%d/%d/n" % (rng.choice(pts), rng.choice([0, 1, 5, 300, 70000, 131072])) for _ in range(rng.randint(1, 12))) + rng.choice(["", ";70000/9999", ";-1/500"]))
        elif r == 2:
            out.append("C:%d,%d" % (max(1, rng.choice(pts)), rng.choice([70, 1000, 65536, 65537, 200000])))
        else:
            out.append("R:%d,%d,%d" % (rng.getrandbits(30), max(2, rng.choice(pts)), rng.choice([100, 20000, 300000])))
    return out


def big_replay(ctx, k, trace, variant="plain"):
    cases = big_cases(ctx)
    base = ctx.run(["job %s sched=one hex=1" % c["keys"] for c in cases], variant)
    lines, ss = [], []
    for i, c in enumerate(cases):
        if "hex" not in base[i]:
            ctx.violation("job fails (%s)" % {a: b for a, b in base[i].items() if a != "hex"}, {"scenario": c["keys"]})
            return
        for part in range(2):
            s = big_schedules(ctx, c, k)
            p = ctx.path("bf%d" % len(lines))
            open(p, "w").write("\n".join(s) + "\n")
            ss.append((i, s))
            lines.append("job %s schedfile=%s exp=%s expres=%d %s" % (c["keys"], p, ctx.blob(bytes.fromhex(base[i]["hex"])), base[i]["res"], "trace=2" if trace else ""))

    def mk(q, r):
        c = cases[ss[q][0]]["rec"]
        ol = len(base[ss[q][0]]["hex"]) // 2
        return dict(c, olen=ol, fin=r["res"], out=[], traces=[t for t in r["traces"] if len(t) < 4000])
    ctx.conform(lines, mk if trace else None, lambda q: "(%s)" % cases[ss[q][0]]["keys"][:200], variant=variant, module="StreamTrace", per=nstates, cpu=60,
                data=lambda q: {"schedules": ss[q][1]})
    ctx.execs += sum(len(s) for _, s in ss)
    ctx.cov["large_schedules_replayed"] = ctx.cov.get("large_schedules_replayed", 0) + sum(len(s) for _, s in ss)


def c02(ctx):
    cases = model_cases(ctx)
    sched = explore(ctx, cases)
    replay_model(ctx, cases, sched, False, 6000 if ctx.quick else 10 ** 9, 500 if ctx.quick else 8000)
    if ctx.viol:
        return
    ctx.log("replayed")
    big_replay(ctx, 12 if ctx.quick else 150, False)
    if ctx.viol:
        return
    ctx.log("big replayed")
    big_windows(ctx, ["delta", "sig", "patch"])
    if ctx.viol:
        return
    ctx.cov["cases"] = len(cases)
    ctx.sample({"case": cases[3][1], "schedule": sched_text(sched[3][-1], ctx.rng)})


def c04(ctx):
    cases = model_cases(ctx)
    sched = explore(ctx, cases)
    replay_model(ctx, cases, sched, True, 1000 if ctx.quick else 20000, 120 if ctx.quick else 600)
    if ctx.viol:
        return
    ctx.log("replayed")
    c = next(r for r in ctx.last_recs if r["kind"] != "big" and len(r["traces"][0]) > 2)
    t = c["traces"][0]
    ctx.must_reject(dict(c, traces=[t[:-1] + [t[-1][:5] + [1]]]), module="StreamTrace", per=nstates)
    ctx.must_reject({"kind": "bigsig", "olen": 100, "fin": 0, "bl": 2, "sl": 8, "out": [], "traces": [[[4, 99, 0, 4, 12, 1], [0, 99, 1, 0, 88, 0]]]}, module="StreamTrace", per=nstates)
    big_replay(ctx, 10 if ctx.quick else 100, True)
    if ctx.viol:
        return
    ctx.cov["cases"] = len(cases)
    ctx.sample({"case": cases[3][1], "schedule": sched_text(sched[3][-1], ctx.rng)})


CHECKS = {"C02": c02, "C04": c04}


# ---------------------------------------------------------------- C03
EDGE = [0, 1, 2, 5, 63, 64, 65, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]


def hostile_patches(ctx, n):
    """delta streams no encoder would write: (bytes, basis)"""
    rng = ctx.rng
    basis = rng.randbytes(70)
    out = []
    for c in range(256):
        out.append(DELTA + bytes([c]) + rng.randbytes(rng.choice([0, 1, 2, 3, 7, 16, 70, 260])))
        out.append(DELTA + lit(b"ok") + bytes([c]) + b"".join(bytes([rng.choice([0, 0, 0, 1, 5])]) for _ in range(17)) + rng.randbytes(20) + b"\0")
    for wp in (1, 2, 4, 8):
        for wl in (1, 2, 4, 8):
            for _ in range(max(1, n // 100)):
                p, l = rng.choice([e for e in EDGE if e < 256 ** wp] + [60, 69, 70, 71]), rng.choice([e for e in EDGE if e < 256 ** wl] + [10, 11])
                out.append(DELTA + lit(rng.randbytes(3)) + copy(p, l, wp, wl) + lit(b"x") + b"\0")
    for w in (1, 2, 4, 8):
        for e in EDGE:
            if e < 256 ** w:
                out.append(DELTA + bytes([0x41 + (1, 2, 4, 8).index(w)]) + e.to_bytes(w, "big") + rng.randbytes(rng.choice([0, 3, 64, 300])))
    for _ in range(n):
        d, _ = rand_delta(rng, basis, 5, 60)
        r = rng.randrange(6)
        if r == 0:
            d = d[:rng.randint(0, len(d))]
        elif r == 1:
            b = bytearray(d)
            for _ in range(rng.randint(1, 3)):
                b[rng.randrange(len(b))] = rng.choice([0, 0xff, 0x80, rng.randrange(256)])
            d = bytes(b)
        elif r == 2:
            d = DELTA + rng.randbytes(rng.randint(0, 60))
        elif r == 3:
            d = d[:-1] + rng.randbytes(rng.randint(0, 9))
        elif r == 4:
            d = rng.randbytes(rng.randint(0, 12))
        out.append(d)
    return [(d, basis) for d in out]


def hostile_sigs(ctx, n):
    rng = ctx.rng
    out = []
    for m in MAGIC_LIST + [0, 0x72730236, 0x72730138, 0xffffffff]:
        for bl in (0, 1, 4, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
            for sl in (0, 1, 8, 16, 17, 32, 33, 2 ** 31, 2 ** 32 - 1):
                out.append(struct.pack(">III", m, bl, sl) + rng.randbytes(rng.choice([0, 3, 4, 12, 40])))
    for _ in range(n):
        m = rng.choice(MAGIC_LIST)
        sl = rng.randint(1, maxstrong(m))
        s = mksig(m, rng.choice([1, 4, 100]), sl, [rng.randbytes(4 + sl) for _ in range(rng.randint(0, 6))])
        out.append(s[:rng.randint(0, len(s))] if rng.random() < 0.6 else s + rng.randbytes(rng.randint(0, 5)))
    return out


def hostile_deltas(ctx, n):
    """(new data, signature whose entries are chosen against it)"""
    rng = ctx.rng
    out = []
    for _ in range(n):
        m = rng.choice(MAGIC_LIST)
        sl = rng.choice([1, 2, 8, maxstrong(m)])
        new = rbytes(rng, rng.randint(0, 40), rng.choice([1, 2, 256]))
        bl = rng.choice([1, 2, 3, 4, 8, 40, 41, 1000, 2 ** 30])
        es = []
        for _ in range(rng.randint(1, 8 if bl < 2 ** 20 else 1)):
            a = rng.randint(0, max(0, len(new) - 1))
            b = new[a:a + (bl if rng.random() < 0.7 else rng.randint(0, bl))]
            e = mkblocksum(m, b, sl)
            r = rng.randrange(4)
            if r == 0:
                e = e[:4] + rng.randbytes(sl)       # weak sum matches only
            elif r == 1:
                e = rng.choice([b"\0\0\0\0", b"\xff\xff\xff\xff"]) + e[4:]
            es.append(e)
            if rng.random() < 0.3 and bl < 2 ** 20:
                es.append(e)
        out.append((new, mksig(m, bl, sl, es)))
    return out


def c03(ctx):
    rng = ctx.rng
    quick = ctx.quick
    cases = model_cases(ctx)
    sched = explore(ctx, cases)
    replay_model(ctx, cases, sched, True, 350 if quick else 6000, 25 if quick else 300, variant="asan")
    if ctx.viol:
        return
    c = next(r for r in ctx.last_recs if r["kind"] != "big" and len(r["traces"][0]) > 2)
    t = c["traces"][0]
    ctx.must_reject(dict(c, traces=[[[t[0][0], t[0][1], t[0][2], t[0][0] + 1] + t[0][4:]] + t[1:]]), module="StreamTrace", per=nstates)
    ctx.log("model schedules under AddressSanitizer")
    replay_model(ctx, cases, sched, False, 200 if quick else 4000, 15 if quick else 200, variant="msan")
    if ctx.viol:
        return
    ctx.log("model schedules under MemorySanitizer")
    hc = []
    for d, b in hostile_patches(ctx, 500 if quick else 6000):
        cb = rng.choice(["full", "short:1", "short:7", "own", "file"])
        hc.append(({"kind": "patch", "in": ba(d), "basis": ba(b)}, "kind=patch in=%s basis=%s cb=%s" % (ctx.blob(d), ctx.blob(b), cb)))
    for s in hostile_sigs(ctx, 200 if quick else 2000):
        hc.append(({"kind": "load", "in": ba(s)}, "kind=load in=%s" % ctx.blob(s)))
    for new, s in hostile_deltas(ctx, 250 if quick else 3000):
        hc.append(({"kind": "deltab", "in": ba(new), "sig": ba(s)}, "kind=delta in=%s sig=%s" % (ctx.blob(new), ctx.blob(s))))
    for n in range(0, 60 if quick else 200):
        m = rng.choice(MAGIC_LIST)
        d, bl, sl = rng.randbytes(n), rng.choice([1, 2, 5, 16, 100]), rng.choice([1, 8, maxstrong(m)])
        hc.append(({"kind": "sig", "in": ba(d), "magic": mg(m), "bl": bl, "sl": sl}, "kind=sig in=%s bl=%d sl=%d magic=%d" % (ctx.blob(d), bl, sl, m)))
    lines = []
    for k, (_, key) in enumerate(hc):
        p = ctx.path("hs%d" % (k % 64))
        if k < 64:
            ss = ["one"] + ["C:%d,%d" % (rng.choice([1, 2, 3, 7]), rng.choice([1, 2, 5, 64])) for _ in range(2)] + \
                 ["L:" + ",".join("%d/%d/n" % (rng.choice([0, 1, 2, 4, 9, 30]), rng.choice([0, 1, 3, 20])) for _ in range(rng.randint(1, 9))) + rng.choice(["", ";1/1", ";-1/2", ";5/7"]) for _ in range(4 if quick else 8)]
            open(p, "w").write("\n".join(ss) + "\n")
        lines.append("job %s schedfile=%s hex=1 trace=2 cmpfirst=1 %s" % (key, p, "leak=1" if k % 8 == 0 else ""))

    def mk(k, r):
        return dict(hc[k][0], out=ba(bytes.fromhex(r["hex"])), fin=r["res"], traces=r["traces"])
    bad = lambda i, r: bool(r.get("bad") or r.get("leak"))
    ctx.conform(lines, mk, lambda i: "(%s)" % json.dumps({a: (b if len(str(b)) < 400 else "...") for a, b in hc[i][0].items()}), bad=bad, variant="asan", module="StreamTrace", per=nstates, timeout=1500)
    if ctx.viol:
        return
    ctx.log("hostile inputs under AddressSanitizer")
    l2 = [l.replace("trace=2", "").replace("hex=1", "") for l in lines]
    huge = lambda k: hc[k][0]["kind"] == "deltab" and hc[k][0]["sig"][4] >= 0x10     # a gigabyte of shadow memory each
    l3 = [l for k, l in enumerate(l2) if not huge(k)]
    ctx.conform(l3, None, lambda i: "(%s)" % l3[i][:200], bad=bad, variant="msan")
    if ctx.viol:
        return
    ctx.log("hostile inputs under MemorySanitizer")
    # allocations balance
    ctx.conform(l2, None, lambda i: "(%s)" % l2[i][:200], bad=bad, leaks=True)
    if ctx.viol:
        return
    # larger than the internal buffers, and through the file interface
    big_replay(ctx, 3 if quick else 30, False, variant="asan")
    if ctx.viol:
        return
    fl = []
    for c, key in rng.sample([h for k, h in enumerate(hc) if not huge(k)], 400 if quick else 4000):
        no = "basiskind=%s" % rng.choice(["reg", "cookie"]) if c["kind"] == "patch" else ""
        fl.append("file %s inkind=%s %s inbuf=%d outbuf=%d inchunk=%d" % (re.sub(r" cb=\S+", "", key), rng.choice(["reg", "cookie"]), no, rng.choice([0, 1, 2, 5, 33]), rng.choice([0, 1, 2, 5, 33]), rng.choice([0, 1, -4])))
    for var in ("asan", "msan"):
        ctx.conform([f + (" leak=1" if i % 8 == 0 else "") for i, f in enumerate(fl)], None, lambda i: "(%s)" % fl[i][:200], bad=lambda i, r: bool(r.get("crash") or r.get("hang") or r.get("leak")), variant=var)
        if ctx.viol:
            return
    ctx.cov["hostile_inputs"] = len(hc)
    ctx.sample({"case": hc[5][1], "record": {a: b for a, b in mk(5, ctx.run([lines[5]])[0]).items() if a != "basis"}})


CHECKS["C03"] = c03
