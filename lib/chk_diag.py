"""C21: diagnostics.  Diag.tla says which messages go where and what they
contain; DiagTrace.tla validates what the real code's sinks received."""
from vf import *
from gen import *
from dcases import *
from chk_file import base_cases

P = "drv_misc"


def per(rs):
    return sum(1 + (len(r["ops"]) if r["t"] == "hist" else 1) for r in rs)


def hists(ctx):
    """all histories of the model of length 3 and random longer ones"""
    r = ctx.model("Diag", "SPECIFICATION Spec\nCONSTANTS\n Levels = {0, 3, 4, 7}\n Sinks = {0, 1, 2}\n MaxOps = 3\nINVARIANT Delivered\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n", name="Diag")
    out = []
    for m in re.finditer(r'<<\s*"HIST",\s*(<<[\s0-9,<>]*>>)\s*>>', r["out"]):
        v = [int(x) for x in re.findall(r"\d+", m.group(1))]
        out.append([(v[k], v[k + 1]) for k in range(0, len(v), 2)])
    if len(out) < 3000:
        raise CheckError("only %d histories from the model" % len(out))
    return out


def c21(ctx):
    rng = ctx.rng
    hs = hists(ctx)
    if ctx.quick:
        hs = rng.sample(hs, 600)
    for _ in range(60 if ctx.quick else 600):
        hs.append([rng.choice([(1, rng.randrange(8)), (2, rng.randrange(4)), (3, rng.randrange(8)), (3, rng.randrange(8)), (3, rng.randrange(8))]) for _ in range(rng.randint(4, 40))])
    # every severity at every threshold
    hs.append([x for l in range(8) for x in [(1, l)] + [(3, s) for s in range(8)]])
    lines, ops = [], []
    lens = [0, 1, 5, 60, 200, 700, 840, 899, 980, 998, 999, 1000, 1001, 1020, 1039, 1040, 1100, 5000]
    al = "abcdefghijklmnopqrstuvwxyz0123456789 %s%n,.;:"

    def add(h, lens):
        o, txt = [], []
        for a, v in h:
            if a != 3:
                o.append([a, v])
                txt.append("%d %d" % (a, v))
                continue
            n = rng.choice(lens)
            k = rng.randrange(len(al))
            msg = ((al[k:] + al[:k]) * (n // len(al) + 1))[:n].strip()
            fn = rng.choice(["", "rs_some_function", "f", "rs_some_function", "f_" * rng.choice([7, 8, 15, 16, 20, 31, 32, 33, 50, 64, 100]) + "xy"[:rng.randint(0, 2)]])
            noname = rng.random() < 0.4
            o.append([3, v, "" if noname else fn, msg])
            txt.append("3 %d %s %s" % (v | (8 if noname else 0), fn or "-", msg))
        lines.append("log ops=%s" % ctx.blob(("\n".join(txt) + "\n").encode()))
        ops.append(o)
    for h in hs:
        add(h, [0, 5, 60])
    for n in lens:
        for v in (0, 3, 4, 6):
            add([(3, v), (2, 2), (3, v), (2, 3), (3, v)], [n])
    ctx.conform(lines, lambda i, r: {"t": "hist", "ops": [o + [g] if o[0] == 3 else o for o, g in zip(ops[i], r["got"])]},
                lambda i: "(history %s)" % str(ops[i])[:300], prog=P, module="DiagTrace", per=per)
    if ctx.viol:
        return
    x = next(r for r in ctx.last_recs if any(o[0] == 3 and o[4] for o in r["ops"]))
    k = next(i for i, o in enumerate(x["ops"]) if o[0] == 3 and o[4])
    o = x["ops"][k]
    for y in (o[:4] + [[]], o[:4] + [o[4] * 2], o[:4] + [[[o[4][0][0], o[4][0][1], o[4][0][2][:-2] + "!\n"]]]):
        ctx.must_reject(dict(x, ops=x["ops"][:k] + [y] + x["ops"][k + 1:]), module="DiagTrace", per=per)
    # descriptions of results
    ctx.conform(["err"], lambda i, r: {"t": "err", "texts": r["texts"][:12]}, lambda i: "(rs_strerror)", lambda i, r: r.get("bad") or "" in r["texts"], prog=P, module="DiagTrace", per=per)
    texts = dict(zip([0, 1, 2, 100, 101, 102, 103, 104, 105, 106, 107, 108], ctx.run(["err"], prog=P)[0]["texts"]))
    if ctx.viol:
        return
    ctx.log("messages")
    # operations: the same with any diagnostics
    cases = base_cases(ctx, not ctx.quick)
    if ctx.viol:
        return
    for sl, m in ((33, M_RKB2), (17, M_MD4), (4, 0x12345678)):
        cases.append({"kind": "sig", "keys": "kind=sig in=%s bl=16 sl=%d magic=%d" % (ctx.blob(b"some data"), sl, m), "slack": None})
    for s in (b"", b"rs\1\x36\0\0\0\4\0\0\0\x11", b"rs\2\x36", b"rs\1\x36\xff\0\0\0", mksig(M_B2, 4, 33, [])):
        cases.append({"kind": "load", "keys": "kind=load in=%s" % ctx.blob(s), "slack": None})
    for variant in ("plain", "trace"):
        lines, meta, base = [], [], []
        b = ctx.run(["%s %s sched=one" % (op, c["keys"]) for c in cases for op in ("job", "file")], variant)
        for ci, c in enumerate(cases):
            for oi, op in enumerate(("job", "file")):
                r0 = b[ci * 2 + oi]
                for lev in range(8) if variant == "plain" else (0, 3, 6, 7):
                    for sink in ("keep", "none") if lev not in (3, 7) else ("keep", "none", "stderr"):
                        sch = rng.choice(["one", "C:3,5"]) if c.get("slack") is None and c["kind"] != "slack" else "one"
                        lines.append("%s %s sched=%s loglevel=%d sink=%s" % (op, c["keys"], sch, lev, sink))
                        meta.append((lev, sink, op, r0))

        def mk(i, r):
            lev, sink, op, r0 = meta[i]
            if sink == "stderr":
                r = dict(r, msgs=[[3, "x " + texts.get(r["res"], "")]])       # not seen here
                lev = 3
            return {"t": "op", "level": lev, "sink": 0 if sink == "none" else 1, "res": r["res"], "base": r0["res"], "same": 1 if (r["fnv"], r["olen"]) == (r0["fnv"], r0["olen"]) else 0,
                    "why": texts.get(r["res"], "") if op == "job" else "", "msgs": r["msgs"]}
        ctx.conform(lines, mk, lambda i: "(%s)" % lines[i][:200], module="DiagTrace", per=per, variant=variant)
        if ctx.viol:
            return
    x = next(r for r in ctx.last_recs if r["res"] > 2 and r["level"] >= 3 and r["sink"])
    ctx.must_reject(dict(x, msgs=[]), module="DiagTrace", per=per)
    ctx.must_reject(dict(x, level=2, msgs=[[3, "y"]]), module="DiagTrace", per=per)
    ctx.must_reject(dict(x, same=0), module="DiagTrace", per=per)
    # the signature dump
    lines, sigs = [], []
    for m in MAGIC_LIST:
        for sl in (1, 8, 15, 16) + ((17, 31, 32) if m in (M_B2, M_RKB2) else ()):
            for n in (0, 1, 2, 11, 40):
                e = [rng.randbytes(4 + sl) for _ in range(n)]
                lines.append("dump sig=%s" % ctx.blob(mksig(m, 64, sl, e)))
                sigs.append((sl, e, m in (M_MD4, M_B2)))
    ctx.conform(lines, lambda i, r: {"t": "dump", "roll": sigs[i][2], "sl": sigs[i][0], "entries": [ba(x) for x in sigs[i][1]], "msgs": [t for _, t in r["msgs"]]},
                lambda i: "(dump of a signature of %d blocks, strong length %d)" % (len(sigs[i][1]), sigs[i][0]), module="DiagTrace", per=per)
    if not ctx.viol:
        x = next(r for r in ctx.last_recs if len(r["entries"]) > 1)
        ctx.must_reject(dict(x, entries=x["entries"][::-1]), module="DiagTrace", per=per)
        ctx.run(lines[-4:], "asan")


CHECKS = {"C21": c21}
