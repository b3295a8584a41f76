"""C15: several jobs at once.  Jobs.tla is the life of jobs, their objects and
the application's rules; its histories are replayed with real jobs and the
recorded lives validated by JobsTrace."""
from itertools import combinations
from vf import *
from gen import *
from dcases import *

GEN = "SPECIFICATION Spec\nVIEW GView\nINVARIANTS Independent NoDangling NoLeak\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
TOK = {0: "", 1: "b", 2: "f", 3: "h", 4: "g"}


def per(rs):
    return sum(len(r["order"]) + 2 for r in rs)


class World:
    """real jobs, each with what it does alone"""

    def __init__(self, ctx, big):
        self.ctx, self.rng = ctx, ctx.rng
        self.defs, self.info, self.todo = [], {}, []
        rng = ctx.rng
        mul = 400 if big else 1
        old = rng.randbytes(8 * mul) + b"\0" * (4 * mul) + rng.randbytes(5)
        new = old[4 * mul:] + b"xyz" + old[:8 * mul] + rng.randbytes(3)
        bl = 4 * mul
        self.sched = (lambda a, b: "C:%d,%d" % (a * mul if a > 0 else a, b * (mul if mul == 1 else mul // 8)))
        sigs = {m: mksig(m, bl, 7, [mkblocksum(m, old[i:i + bl], 7) for i in range(0, len(old), bl)]) for m in MAGIC_LIST}
        self.sig = sigs[M_RKB2]
        s = self.sched
        for n, m in (("S", M_RKB2), ("T", M_MD4)):
            self.add(n, "sig", "in=%s bl=%d sl=6 magic=%d sched=%s" % (ctx.blob(old), bl, m, s(9, 30)))
        for n, m in (("L", M_RKB2), ("M", M_B2)):
            self.add(n, "load", "in=%s sched=%s" % (ctx.blob(sigs[m]), "C:%d,0" % (15 if not big else 25)))
        self.add("X", "load", "in=%s sched=C:13,0" % ctx.blob(sigs[M_MD4][:-5]))
        for n, x in (("D", new), ("E", old + b"tail"), ("F", rng.randbytes(len(old)))):
            self.add(n, "delta", "in=%s sched=%s" % (ctx.blob(x), s(10, 13)), sig=sigs[M_RKB2])
        self.add("G", "delta", "in=%s sched=%s" % (ctx.blob(new), s(11, 15)), sig=sigs[M_B2], own=True)
        self.add("N", "delta", "in=%s sched=%s" % (ctx.blob(new[:9]), "C:6,4"))
        d = DELTA + lit(rng.randbytes(9)) + copy(2, 9 * mul) + lit(b"ab") + copy(0, 5) + b"\0"
        for n, cb in (("P", "full"), ("Q", "short:3"), ("R", "file")):
            self.add(n, "patch", "in=%s basis=%s cb=%s sched=%s" % (ctx.blob(d), ctx.blob(old), cb, s(9, 9)))
        self.add("B", "patch", "in=%s basis=%s sched=C:3,40" % (ctx.blob(d[:13] + b"\x60"), ctx.blob(old)))
        res = ctx.run(["job %s %s sched=%s hex=1 trace=1" % (k, ("sig=%s" % ctx.blob(g)) if g is not None else "", sch) for k, g, sch in [t[1:] for t in self.todo]])
        for (n, k, g, sch), r in zip(self.todo, res):
            if "trace" not in r or r.get("bad"):
                ctx.violation("job fails (%s)" % {a: b for a, b in r.items() if a != "trace"}, {"scenario": k})
                return
            i = self.info[n]
            c, cum = 0, []
            for x in r["trace"]:
                c += x[4]
                cum.append(c)
            i.update(cum=cum, res=r["res"], exp=ctx.blob(bytes.fromhex(r["hex"])))

    def add(self, n, kind, keys, sig=None, own=False):
        sch = keys.split("sched=")[1]
        self.info[n] = {"kind": kind, "keys": keys, "sig": sig, "own": own}
        self.todo.append((n, "kind=%s %s" % (kind, keys.split(" sched=")[0]), sig, sch))

    def deffor(self, n, frm):
        """definition of job n; a delta uses the signature of job frm, of slot s, or its own"""
        i = self.info[n]
        name = n if frm is None else "%s%d" % (n, frm)
        if not any(d.startswith("def name=%s " % name) for d in self.defs):
            if i["own"]:
                via = "sig=%s" % self.ctx.blob(i["sig"])
            elif i["kind"] == "delta" and i["sig"] is not None:
                via = "from=%d" % frm if frm is not None else "slot=s"
            else:
                via = ""
            self.defs.append("def name=%s kind=%s %s exp=%s expres=%d %s" % (name, i["kind"], via, i["exp"], i["res"], i["keys"]))
        return name

    def scenario(self, names, all):
        """names such as 'LD0S': a digit after a delta is the index of the load job it depends on"""
        seq = re.findall(r"([A-Z])(\d?)", names)
        jobs, defs = [], []
        for n, d in seq:
            i = self.info[n]
            jobs.append({"kind": i["kind"], "dep": int(d) + 1 if d else 0, "cum": i["cum"], "res": i["res"]})
            defs.append(self.deffor(n, int(d) if d else None))
        return {"jobs": jobs, "all": 1 if all else 0, "defs": defs, "name": names}


def count(ns):
    """histories of two jobs that take up to ns calls each, roughly"""
    from math import comb
    return sum(comb(a + b, a) for a in range(2, ns[0] + 3) for b in range(2, ns[1] + 3))


def c15(ctx):
    rng = ctx.rng
    w = World(ctx, False)
    if ctx.viol:
        return
    two = ["SP", "ST", "LM", "LD0", "XB", "PQ", "DG", "NS", "DE", "RB", "LX", "TP"]
    three = ["LD0E0", "LD0P", "SLD1", "LMD0", "XLD1", "GDE", "SPL", "PQR", "LD0S", "STL", "LD0B", "NPS", "LE0F0", "DEF"]
    four = ["LD0E0S", "LMD0P", "STPQ", "LD0PX"]
    if not ctx.quick:
        two += ["".join(c) for c in combinations("STLMXDEGNPQRB", 2) if "".join(c) not in two]
        three += ["".join(c) for c in combinations("STLXDEGNPQB", 3)]
        four += ["LD0E0F0", "LMD0E0", "LD0GP", "LD0SP", "XBLD2", "LD0E0FS"]
    # every history of a pair where there are not too many, else one per transition
    sc = [w.scenario(n, count([len(w.info[x]["cum"]) for x in re.findall("[A-Z]", n)]) < (12000 if ctx.quick else 150000)) for n in two] + [w.scenario(n, False) for n in three + four]
    f = ctx.path("scens.ndjson")
    with open(f, "w") as h:
        for s in sc:
            h.write(json.dumps({"jobs": s["jobs"], "all": s["all"]}) + "\n")
    r = ctx.model("JobsGen", GEN, name="Jobs (%d scenarios)" % len(sc), env={"SCENS": f}, timeout=1500, heap="12g")
    hists = {}
    for m in re.finditer(r'<<\s*"HIST",\s*(\d+),\s*(<<[\s0-9,<>]*>>)\s*>>', r["out"]):
        v = [int(x) for x in re.findall(r"\d+", m.group(2))]
        hists.setdefault(int(m.group(1)) - 1, []).append([(v[k], v[k + 1]) for k in range(0, len(v), 2)])
    r["out"] = ""
    if len(hists) != len(sc):
        raise CheckError("no histories for %d scenarios" % (len(sc) - len(hists)))
    ctx.log("histories:", sum(map(len, hists.values())), "of", sum(s["all"] for s in sc), "pairs all")
    todo = []
    for k, hs in sorted(hists.items()):
        cap = (500 if ctx.quick else 6000)
        for h in (rng.sample(hs, cap) if len(hs) > cap else hs):
            todo.append((k, h))
    ctx.cov["histories_generated"] = sum(map(len, hists.values()))
    ctx.cov["histories_replayed"] = len(todo)
    slot = "slots=s:%s" % ctx.blob(w.sig)

    def line(k, h):
        o = ",".join("%s%d" % (TOK[a], j - 1) for a, j in h)
        return "multi %s jobs=%s abandon=1 order=%s" % (slot, ",".join(sc[k]["defs"]), o)
    lines = [line(k, h) for k, h in todo]

    def mk(i, r):
        k, h = todo[i]
        return {"jobs": sc[k]["jobs"], "order": [[a, j] for a, j in h], "got": r["jobs"]}
    bad = lambda i, r: bool(r.get("bad") or r.get("viol"))
    desc = lambda i: "(jobs %s, history %s)" % (sc[todo[i][0]]["name"], lines[i].split("order=")[1])
    ctx.conform(lines, mk, desc, bad=bad, defs=w.defs, module="JobsTrace", per=per, leaks=True)
    if ctx.viol:
        return
    rec = next(x for x in ctx.last_recs if x["got"][0][3] > 1 and x["got"][0][1] > 0)
    ctx.must_reject(dict(rec, got=[[a[0], a[1] + 1, a[2], a[3]] for a in rec["got"]]), "JobsTrace", per)
    ctx.must_reject(dict(rec, order=rec["order"] + [[1, 1]]), "JobsTrace", per)
    ctx.sample({"jobs": sc[todo[7][0]]["name"], "order": lines[7].split("order=")[1], "got": ctx.last_recs[7]["got"]})
    # memory: a sample with a leak check after each history, the rest with one at the end of a shard
    sub = rng.sample(range(len(lines)), min(len(lines), 3000 if ctx.quick else 20000))
    ctx.conform([lines[i] + (" leak=1" if n % 10 == 0 else "") for n, i in enumerate(sub)], None, lambda j: desc(sub[j]), bad=lambda i, r: bool(r.get("bad") or r.get("viol") or r.get("leak")), variant="asan", defs=w.defs)
    if ctx.viol:
        return
    ctx.log("memory")
    # everything at once, larger data, random order with reuse of one signature
    wb = World(ctx, True)
    if ctx.viol:
        return
    lines2 = []
    for _ in range(200 if ctx.quick else 3000):
        n = rng.randint(3, 8)
        names = [rng.choice("LSTDEFGNPQRXB") for _ in range(n)]
        loads = [i for i, x in enumerate(names) if x == "L"]
        defs = [wb.deffor(x, rng.choice(loads) if x in "DEF" and loads and rng.random() < 0.6 else None) for x in names]
        o = []
        for i in range(n):
            o.append("b%d" % i)
        steps = [i for i in range(n) for _ in range(rng.randint(2, 60))]
        rng.shuffle(steps)
        o += map(str, steps)
        for i in range(n):
            if rng.random() < 0.5:
                o.insert(rng.randrange(len(o)), "b%d" % i)
            if rng.random() < 0.3:
                o.insert(rng.randrange(len(o)), "f%d" % i)
        lines2.append("multi %s jobs=%s order=%s" % ("slots=s:%s" % ctx.blob(wb.sig), ",".join(defs), ",".join(o)))
    for var in ("plain", "asan"):
        ctx.conform(lines2, None, lambda i: "(%s)" % lines2[i][:200], bad=lambda i, r: bool(r.get("bad") or r.get("viol")), defs=wb.defs, variant=var, leaks=var == "plain")
        if ctx.viol:
            return
    # jobs in threads of their own
    names = [n for n in wb.info if not (wb.info[n]["kind"] == "delta" and wb.info[n]["sig"] is not None and not wb.info[n]["own"])]
    for n in "DEF":
        wb.info[n]["own"] = True
    wb.defs.clear()
    tl = []
    for _ in range(40 if ctx.quick else 400):
        pick = [rng.choice(names + list("DEF")) for _ in range(rng.randint(2, 8))]
        tl.append("threads jobs=%s reps=%d" % (",".join(wb.deffor(x, None) for x in pick), 3))
    ctx.conform(tl, None, lambda i: "(in concurrent threads: %s)" % tl[i], bad=lambda i, r: bool(r.get("bad") or r.get("viol")), defs=wb.defs, variant="tsan", cpu=120)
    ctx.cov["random_orders"] = len(lines2)
    ctx.cov["thread_runs"] = len(tl)


CHECKS = {"C15": c15}
